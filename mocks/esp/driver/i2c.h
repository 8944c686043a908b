#pragma once
#include "esp_err.h"
#include "freertos/FreeRTOS.h"
#include "hal/i2c_types.h"
typedef void* i2c_cmd_handle_t;
typedef struct
{
    i2c_mode_t mode;
    int sda_io_num;
    int scl_io_num;
    bool sda_pullup_en;
    bool scl_pullup_en;
    union
    {
        struct { uint32_t clk_speed; } master;
        struct { uint8_t addr_10bit_en; uint16_t slave_addr; uint32_t maximum_speed; } slave;
    };
    uint32_t clk_flags;
} i2c_config_t;
namespace world
{
struct I2CLink { bool alive = false; struct Op { char kind; std::vector<uint8_t> data; uint8_t* dst; size_t n; }; std::vector<Op> ops; };
WORLD I2CLink i2cLinks[32];
// one master transfer: the address byte and data
inline esp_err_t i2cWrite(int port, int address, const uint8_t* d, size_t n, TickType_t ticks)
{
    bool injected = fails("i2c write");
    bool ok = !injected && i2c.present.count(address) && n <= i2c.acceptBytes && n <= i2c.bufferLimit;
    i2c.log.push_back({ 'w', address, std::vector<uint8_t>(d, d + n), ok, true, int64_t(ticks), port });
    return ok ? ESP_OK : injected ? ESP_ERR_TIMEOUT : ESP_FAIL;
}
inline esp_err_t i2cRead(int port, int address, uint8_t* d, size_t n, TickType_t ticks)
{
    bool injected = fails("i2c read");
    size_t got = !injected && i2c.present.count(address) ? std::min(std::min(n, i2c.deliverBytes), i2c.bufferLimit) : 0;
    std::vector<uint8_t> data;
    for (size_t i = 0; i < got; ++i) data.push_back(d[i] = i < i2c.toRead.size() ? i2c.toRead[i] : 0xEE);
    bool ok = !injected && got == n && i2c.present.count(address);
    i2c.log.push_back({ 'r', address, data, ok, true, int64_t(ticks), port });
    return ok ? ESP_OK : injected ? ESP_ERR_TIMEOUT : ESP_FAIL;
}
inline I2CLink* i2cLink(i2c_cmd_handle_t h)
{
    for (auto &l: i2cLinks) if (&l == h && l.alive) return &l;
    return nullptr;
}
}
inline i2c_cmd_handle_t i2c_cmd_link_create()
{
    world::Platform p;
    if (world::fails("i2c_cmd_link_create")) return nullptr;
    for (auto &l: world::i2cLinks)
        if (!l.alive) { l.alive = true; l.ops.clear(); ++world::i2c.links; ++world::i2c.linksCreated; return &l; }
    return nullptr;
}
inline void i2c_cmd_link_delete(i2c_cmd_handle_t h)
{
    world::Platform p;
    if (auto l = world::i2cLink(h)) { l->alive = false; --world::i2c.links; }
    else if (h) world::i2c.links -= 1000;
}
inline esp_err_t i2c_master_start(i2c_cmd_handle_t h) { world::Platform p; auto l = world::i2cLink(h); if (!l) return ESP_ERR_INVALID_ARG; l->ops.push_back({ 's', {}, nullptr, 0 }); return ESP_OK; }
inline esp_err_t i2c_master_stop(i2c_cmd_handle_t h) { world::Platform p; auto l = world::i2cLink(h); if (!l) return ESP_ERR_INVALID_ARG; l->ops.push_back({ 'e', {}, nullptr, 0 }); return ESP_OK; }
inline esp_err_t i2c_master_write_byte(i2c_cmd_handle_t h, uint8_t b, bool) { world::Platform p; auto l = world::i2cLink(h); if (!l) return ESP_ERR_INVALID_ARG; l->ops.push_back({ 'w', { b }, nullptr, 0 }); return ESP_OK; }
inline esp_err_t i2c_master_write(i2c_cmd_handle_t h, const uint8_t* d, size_t n, bool) { world::Platform p; auto l = world::i2cLink(h); if (!l) return ESP_ERR_INVALID_ARG; l->ops.push_back({ 'w', std::vector<uint8_t>(d, d + n), nullptr, 0 }); return ESP_OK; }
inline esp_err_t i2c_master_read(i2c_cmd_handle_t h, uint8_t* d, size_t n, i2c_ack_type_t) { world::Platform p; auto l = world::i2cLink(h); if (!l || n == 0) return ESP_ERR_INVALID_ARG; l->ops.push_back({ 'r', {}, d, n }); return ESP_OK; }
inline esp_err_t i2c_master_read_byte(i2c_cmd_handle_t h, uint8_t* d, i2c_ack_type_t) { world::Platform p; auto l = world::i2cLink(h); if (!l) return ESP_ERR_INVALID_ARG; l->ops.push_back({ 'r', {}, d, 1 }); return ESP_OK; }
inline esp_err_t i2c_master_cmd_begin(i2c_port_t port, i2c_cmd_handle_t h, TickType_t ticks)
{
    world::Platform p;
    auto l = world::i2cLink(h);
    if (!l) return ESP_ERR_INVALID_ARG;
    // start, address, data, (start, address, data,) stop
    int address = -1;
    bool reading = false, afterStart = false;
    std::vector<uint8_t> w;
    esp_err_t r = ESP_OK;
    bool written = false;
    auto finish = [&] { if (address >= 0 && !reading && r == ESP_OK) { r = world::i2cWrite(port, address, w.data(), w.size(), ticks); written = true; } w.clear(); };
    for (auto &o: l->ops)
    {
        if (r != ESP_OK) break;
        if (o.kind == 's') { finish(); afterStart = true; address = -1; }
        else if (o.kind == 'w')
        {
            size_t from = 0;
            if (afterStart && !o.data.empty()) { address = o.data[0] >> 1; reading = o.data[0] & 1; afterStart = false; from = 1; }
            w.insert(w.end(), o.data.begin() + long(from), o.data.end());
        }
        else if (o.kind == 'r') r = world::i2cRead(port, address, o.dst, o.n, ticks);
        else finish(), address = -1;
    }
    (void)written;
    return r;
}
inline esp_err_t i2c_master_write_to_device(i2c_port_t port, uint8_t address, const uint8_t* d, size_t n, TickType_t ticks) { world::Platform p; return world::i2cWrite(port, address, d, n, ticks); }
inline esp_err_t i2c_master_read_from_device(i2c_port_t port, uint8_t address, uint8_t* d, size_t n, TickType_t ticks) { world::Platform p; if (n == 0) return ESP_ERR_INVALID_ARG; return world::i2cRead(port, address, d, n, ticks); }
inline esp_err_t i2c_master_write_read_device(i2c_port_t port, uint8_t address, const uint8_t* d, size_t n, uint8_t* r, size_t rn, TickType_t ticks)
{
    world::Platform p;
    esp_err_t e = world::i2cWrite(port, address, d, n, ticks);
    return e != ESP_OK ? e : world::i2cRead(port, address, r, rn, ticks);
}
inline esp_err_t i2c_param_config(i2c_port_t n, const i2c_config_t* c)
{
    world::Platform p;
    if (world::fails("i2c_param_config")) return ESP_FAIL;
    auto &k = world::i2c.config;
    ++k.params;
    k.port = n; k.mode = c->mode; k.sda = c->sda_io_num; k.scl = c->scl_io_num; k.sdaPull = c->sda_pullup_en; k.sclPull = c->scl_pullup_en; k.frequency = c->master.clk_speed; k.clkFlags = int(c->clk_flags);
    return ESP_OK;
}
inline esp_err_t i2c_driver_install(i2c_port_t n, i2c_mode_t, size_t, size_t, int)
{
    world::Platform p;
    if (world::fails("i2c_driver_install")) return ESP_FAIL;
    if (n == world::i2c.config.port) ++world::i2c.config.installs;
    return ESP_OK;
}
inline esp_err_t i2c_driver_delete(i2c_port_t) { world::Platform p; return ESP_OK; }
