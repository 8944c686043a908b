#pragma once
#include "esp_err.h"
#include "freertos/FreeRTOS.h"
#include "hal/uart_types.h"
#define UART_NUM_0 0
#define UART_NUM_1 1
#define UART_NUM_2 2
#define UART_PIN_NO_CHANGE (-1)
#define UART_HW_FIFO_LEN(n) 128
#define UART_FIFO_LEN 128
typedef void* QueueHandle_t;
inline bool uart_is_driver_installed(uart_port_t n) { world::Platform p; return world::uarts[n].installed; }
inline esp_err_t uart_param_config(uart_port_t n, const uart_config_t* c)
{
    world::Platform p;
    if (world::fails("uart_param_config")) return ESP_FAIL;
    auto &u = world::uartConfig[n];
    ++u.sets;
    u.port = n; u.baud = c->baud_rate; u.dataBits = c->data_bits; u.parity = c->parity; u.stopBits = c->stop_bits; u.flow = c->flow_ctrl; u.threshold = c->rx_flow_ctrl_thresh;
    return ESP_OK;
}
inline esp_err_t uart_set_pin(uart_port_t n, int tx, int rx, int rts, int cts)
{
    world::Platform p;
    if (world::fails("uart_set_pin")) return ESP_FAIL;
    auto &u = world::uartConfig[n];
    ++u.pins;
    u.tx = tx; u.rx = rx; u.rts = rts; u.cts = cts;
    return ESP_OK;
}
inline esp_err_t uart_driver_install(uart_port_t n, int rxBuffer, int txBuffer, int, QueueHandle_t*, int)
{
    world::Platform p;
    if (world::fails("uart_driver_install")) return ESP_FAIL;
    if (rxBuffer <= 128 || (txBuffer != 0 && txBuffer <= 128)) return ESP_FAIL; // must be larger than the hardware FIFO
    auto &u = world::uartConfig[n];
    ++u.installs;
    u.rxBuffer = rxBuffer;
    world::uarts[n].installed = true;
    return ESP_OK;
}
inline esp_err_t uart_driver_delete(uart_port_t n) { world::Platform p; world::uarts[n].installed = false; return ESP_OK; }
inline int uart_write_bytes(uart_port_t n, const void* src, size_t size)
{
    world::Platform p;
    world::step("uart_write_bytes");
    if (world::fails("uart_write_bytes")) return -1;
    auto &u = world::uarts[n];
    auto b = static_cast<const uint8_t*>(src);
    u.tx.insert(u.tx.end(), b, b + size);
    u.writes.emplace_back(b, b + size);
    return int(size);
}
inline esp_err_t uart_wait_tx_done(uart_port_t, TickType_t) { world::Platform p; world::step("uart_wait_tx_done"); return ESP_OK; }
inline esp_err_t uart_flush_input(uart_port_t n) { world::Platform p; auto &u = world::uarts[n]; while (u.available()) ++u.pos; return ESP_OK; }
inline esp_err_t uart_flush(uart_port_t n) { return uart_flush_input(n); }
inline esp_err_t uart_get_buffered_data_len(uart_port_t n, size_t* out)
{
    world::Platform p;
    world::step("uart_get_buffered_data_len");
    auto &u = world::uarts[n];
    *out = 0;
    while (u.pos + *out < u.rx.size() && u.rx[u.pos + *out].at <= world::nowUs) ++*out;
    return ESP_OK;
}
namespace world { WORLD bool uartTickPhase = false; }
// returns when all bytes have come or the ticks have run out
inline int uart_read_bytes(uart_port_t n, void* dst, uint32_t size, TickType_t ticks)
{
    world::Platform p;
    world::step("uart_read_bytes");
    if (world::fails("uart_read_bytes")) return -1;
    auto &u = world::uarts[n];
    auto b = static_cast<uint8_t*>(dst);
    const uint64_t tick = TICK_MS * 1000ull;
    const bool forever = ticks == portMAX_DELAY;
    uint64_t end = world::nowUs + ticks * tick;
    if (world::uartTickPhase && ticks) end = (world::nowUs / tick + ticks) * tick;
    uint32_t got = 0;
    while (got < size)
    {
        if (u.available()) { b[got++] = u.rx[u.pos++].byte; continue; }
        if (u.pos < u.rx.size() && (forever || u.rx[u.pos].at <= end)) { world::nowUs = std::max(world::nowUs, u.rx[u.pos].at); continue; }
        if (forever) throw world::Stuck { "uart_read_bytes waits forever" };
        world::nowUs = std::max(world::nowUs, end);
        break;
    }
    return int(got);
}
