#pragma once
#include "Arduino.h"
#define SPI_MODE0 0
#define SPI_MODE1 1
#define SPI_MODE2 2
#define SPI_MODE3 3

class SPISettings
{
public:
    SPISettings() = default;
    SPISettings(uint32_t clock, uint8_t order, uint8_t mode) : _clock(clock), _bitOrder(order), _dataMode(mode) {}
    uint32_t _clock = 1000000;
    uint8_t _bitOrder = MSBFIRST;
    uint8_t _dataMode = SPI_MODE0;
};

class SPIClass
{
public:
    explicit SPIClass(uint8_t n = 0) : number(n) {}
    void begin(int8_t = -1, int8_t = -1, int8_t = -1, int8_t = -1) {}
    void end() {}
    void beginTransaction(SPISettings s)
    {
        world::Platform p;
        auto &w = world::spi;
        ++w.open;
        w.maxOpen = std::max(w.maxOpen, w.open);
        ++w.transactions;
        w.openBus = number;
        w.frequency = s._clock;
        w.bitOrder = s._bitOrder;
        w.mode = s._dataMode;
    }
    void endTransaction() { world::Platform p; --world::spi.open; }
    uint8_t transfer(uint8_t b) { return one(&b); }
    uint16_t transfer16(uint16_t v) { uint8_t h = uint8_t(v >> 8), l = uint8_t(v); uint16_t r = uint16_t(one(&h) << 8); return uint16_t(r | one(&l)); }
    uint32_t transfer32(uint32_t v) { uint32_t h = transfer16(uint16_t(v >> 16)); return h << 16 | transfer16(uint16_t(v)); }
    void transferBytes(const uint8_t* in, uint8_t* out, uint32_t n)
    {
        world::Platform p;
        world::spi.chunks.push_back(n);
        for (uint32_t i = 0; i < n; ++i)
        {
            uint8_t r = clock(in ? in + i : nullptr);
            if (out) out[i] = r;
        }
    }
    void transfer(void* data, uint32_t n) { transferBytes(static_cast<uint8_t*>(data), static_cast<uint8_t*>(data), n); }
    void transfer(uint8_t* data, uint32_t n) { transferBytes(data, data, n); }
    void write(uint8_t b) { one(&b); }
    void write16(uint16_t v) { transfer16(v); }
    void write32(uint32_t v) { transfer32(v); }
    void setFrequency(uint32_t) {}
    void setBitOrder(uint8_t) {}
    void setDataMode(uint8_t) {}
    void writeBytes(const uint8_t* d, uint32_t n) { transferBytes(d, nullptr, n); }

private:
    int number;
    uint8_t one(const uint8_t* b) { world::Platform p; world::spi.chunks.push_back(1); return clock(b); }
    uint8_t clock(const uint8_t* b)
    {
        if (world::spi.open <= 0 || world::spi.openBus != number) world::spi.clockedOutside = true;
        return world::spi.clock(number, b);
    }
};
inline SPIClass SPI(0);
