#pragma once
#include "esp_err.h"
#include "freertos/FreeRTOS.h"
struct spi_device_t { world::SpiDevice* d; };
typedef spi_device_t* spi_device_handle_t;
typedef enum { SPI1_HOST = 0, SPI2_HOST = 1, SPI3_HOST = 2 } spi_host_device_t;
typedef enum { SPI_DMA_DISABLED = 0, SPI_DMA_CH1 = 1, SPI_DMA_CH2 = 2, SPI_DMA_CH_AUTO = 3 } spi_dma_chan_t;
typedef struct { int mosi_io_num, miso_io_num, sclk_io_num, quadwp_io_num, quadhd_io_num, max_transfer_sz; uint32_t flags; int isr_cpu_id; int intr_flags; } spi_bus_config_t;
struct spi_transaction_t;
typedef void (*transaction_cb_t)(spi_transaction_t*);
typedef struct { uint8_t command_bits, address_bits, dummy_bits, mode; int clock_source; uint16_t duty_cycle_pos, cs_ena_pretrans; uint8_t cs_ena_posttrans; int clock_speed_hz, input_delay_ns, spics_io_num; uint32_t flags; int queue_size; transaction_cb_t pre_cb, post_cb; } spi_device_interface_config_t;
struct spi_transaction_t
{
    uint32_t flags;
    uint16_t cmd;
    uint64_t addr;
    size_t length;   // bits
    size_t rxlength; // bits; 0 means length in full duplex
    void* user;
    union { const void* tx_buffer; uint8_t tx_data[4]; };
    union { void* rx_buffer; uint8_t rx_data[4]; };
};
#define SPICOMMON_BUSFLAG_MASTER (1 << 0)
#define SPICOMMON_BUSFLAG_SLAVE 0
#define SPICOMMON_BUSFLAG_NATIVE_PINS (1 << 1)
#define SPICOMMON_BUSFLAG_IOMUX_PINS (1 << 1)
#define SPI_DEVICE_HALFDUPLEX (1 << 4)
#define SPI_DEVICE_NO_DUMMY (1 << 6)
#define SPI_TRANS_USE_RXDATA (1 << 2)
#define SPI_TRANS_USE_TXDATA (1 << 3)
namespace world
{
WORLD spi_device_t spiHandles[1024];
inline SpiDevice* spiDeviceOf(spi_device_handle_t h)
{
    if (std::less<const void*>()(h, spiHandles) || !std::less<const void*>()(h, spiHandles + 1024)) return nullptr;
    auto &d = spiDriver.pool[h - spiHandles];
    return d.alive ? &d : nullptr;
}
}
inline esp_err_t spi_bus_initialize(spi_host_device_t host, const spi_bus_config_t* c, int)
{
    world::Platform p;
    auto &w = world::spiDriver;
    if (world::fails("spi_bus_initialize")) return ESP_ERR_NO_MEM;
    if (int(host) < 0 || int(host) > 2) return ESP_ERR_INVALID_ARG;
    if (w.busUp[host]) return ESP_ERR_INVALID_STATE;
    w.busUp[host] = true;
    w.maxTransfer[host] = c->max_transfer_sz > 0 ? c->max_transfer_sz : 4092;
    ++w.initializations;
    w.config.host = host; w.config.sck = c->sclk_io_num; w.config.miso = c->miso_io_num; w.config.mosi = c->mosi_io_num; w.config.quadwp = c->quadwp_io_num; w.config.quadhd = c->quadhd_io_num; w.config.maxTransfer = c->max_transfer_sz; w.config.busFlags = int(c->flags);
    return ESP_OK;
}
inline esp_err_t spi_bus_add_device(spi_host_device_t host, const spi_device_interface_config_t* c, spi_device_handle_t* out)
{
    world::Platform p;
    auto &w = world::spiDriver;
    if (world::fails("spi_bus_add_device")) return ESP_ERR_NOT_FOUND;
    if (int(host) < 0 || int(host) > 2 || !w.busUp[host]) return ESP_ERR_INVALID_STATE;
    if (w.used >= 1024) return ESP_ERR_NO_MEM;
    int i = w.used++;
    w.pool[i] = { int(host), true, (c->flags & SPI_DEVICE_HALFDUPLEX) != 0, w.maxTransfer[host] };
    *out = &world::spiHandles[i];
    w.config.frequency = c->clock_speed_hz; w.config.mode = c->mode; w.config.cs = c->spics_io_num; w.config.half = (c->flags & SPI_DEVICE_HALFDUPLEX) != 0;
    return ESP_OK;
}
inline esp_err_t spi_bus_remove_device(spi_device_handle_t h)
{
    world::Platform p;
    if (h == nullptr) return ESP_ERR_INVALID_ARG;
    auto d = world::spiDeviceOf(h);
    if (!d) { world::spiDriver.misuse.push_back("a device is removed twice"); return ESP_ERR_INVALID_ARG; }
    if (world::fails("spi_bus_remove_device")) return ESP_ERR_INVALID_STATE;
    d->alive = false;
    return ESP_OK;
}
inline esp_err_t spi_bus_free(spi_host_device_t host)
{
    world::Platform p;
    auto &w = world::spiDriver;
    if (int(host) < 0 || int(host) > 2 || !w.busUp[host]) { w.misuse.push_back("a bus is freed that is not allocated"); return ESP_ERR_INVALID_STATE; }
    for (auto &d: w.pool) if (d.alive && d.host == int(host)) { w.misuse.push_back("a bus is freed that still has a device"); return ESP_ERR_INVALID_STATE; }
    if (world::fails("spi_bus_free")) return ESP_ERR_INVALID_STATE;
    w.busUp[host] = false;
    return ESP_OK;
}
inline esp_err_t spi_device_polling_transmit(spi_device_handle_t h, spi_transaction_t* t)
{
    world::Platform p;
    if (h == nullptr || t == nullptr) return ESP_ERR_INVALID_ARG;
    auto d = world::spiDeviceOf(h);
    if (!d) { world::spiDriver.misuse.push_back("a released device is used"); return ESP_ERR_INVALID_ARG; }
    if (world::fails("spi_device_polling_transmit")) return ESP_ERR_TIMEOUT;
    const bool txd = t->flags & SPI_TRANS_USE_TXDATA, rxd = t->flags & SPI_TRANS_USE_RXDATA;
    const uint8_t* tx = txd ? t->tx_data : static_cast<const uint8_t*>(t->tx_buffer);
    uint8_t* rx = rxd ? t->rx_data : static_cast<uint8_t*>(t->rx_buffer);
    const size_t limit = size_t(d->maxTransfer) * 8;
    if (t->length > limit || t->rxlength > limit || t->length % 8 || t->rxlength % 8) return ESP_ERR_INVALID_ARG;
    if (d->halfDuplex)
    {
        if (tx && rx && t->length && t->rxlength) return ESP_ERR_INVALID_ARG; // not with DMA
        if (rx && t->rxlength == 0) return ESP_ERR_INVALID_ARG;
        if (tx && t->length == 0) return ESP_ERR_INVALID_ARG;
        size_t n = tx ? t->length / 8 : t->rxlength / 8;
        world::spi.chunks.push_back(n);
        for (size_t i = 0; i < n; ++i)
        {
            uint8_t r = world::spi.clock(d->host, tx ? tx + i : nullptr, 0);
            if (rx) rx[i] = r;
        }
        return ESP_OK;
    }
    if (t->rxlength > t->length) return ESP_ERR_INVALID_ARG;
    if (t->length == 0) return ESP_ERR_INVALID_ARG;
    size_t n = t->length / 8, rn = t->rxlength ? t->rxlength / 8 : n;
    world::spi.chunks.push_back(n);
    for (size_t i = 0; i < n; ++i)
    {
        uint8_t r = world::spi.clock(d->host, tx ? tx + i : nullptr, 0);
        if (rx && i < rn) rx[i] = r;
    }
    return ESP_OK;
}
inline esp_err_t spi_device_transmit(spi_device_handle_t h, spi_transaction_t* t) { return spi_device_polling_transmit(h, t); }
inline esp_err_t spi_device_acquire_bus(spi_device_handle_t, TickType_t) { return ESP_OK; }
inline esp_err_t spi_device_polling_start(spi_device_handle_t h, spi_transaction_t* t, TickType_t) { return spi_device_polling_transmit(h, t); }
inline esp_err_t spi_device_polling_end(spi_device_handle_t, TickType_t) { return ESP_OK; }
inline void spi_device_release_bus(spi_device_handle_t) {}
