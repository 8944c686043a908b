#pragma once
#include "Arduino.h"

class TwoWire
{
public:
    explicit TwoWire(uint8_t n = 0) : number(n) {}
    bool begin(int = -1, int = -1, uint32_t = 0) { return true; }
    void beginTransmission(uint8_t address) { world::Platform p; current = address; pending.clear(); started = true; world::i2c.open = true; }
    void beginTransmission(uint16_t address) { world::Platform p; current = address; pending.clear(); started = true; world::i2c.open = true; }
    void beginTransmission(int address) { world::Platform p; current = address; pending.clear(); started = true; world::i2c.open = true; }
    size_t write(uint8_t b) { return write(&b, 1); }
    size_t write(const uint8_t* data, size_t n)
    {
        world::Platform p;
        size_t i = 0;
        while (i < n && pending.size() < world::i2c.bufferLimit) pending.push_back(data[i++]);
        return i;
    }
    size_t write(int b) { return write(uint8_t(b)); }
    // 0: success, 2: address not acknowledged, 3: data not acknowledged, 4: other, 5: timeout
    uint8_t endTransmission(bool stop)
    {
        world::Platform p;
        if (!started) return 4;
        started = false;
        world::i2c.open = false;
        auto &w = world::i2c;
        uint8_t r = 0;
        if (world::fails("endTransmission")) r = 4;
        else if (!w.present.count(current)) r = 2;
        else if (pending.size() > w.acceptBytes) r = 3;
        w.log.push_back({ 'w', current, pending, r == 0, stop, -1, number });
        return r;
    }
    uint8_t endTransmission() { return endTransmission(true); }
    size_t request(int address, size_t n, bool stop = true)
    {
        world::Platform p;
        auto &w = world::i2c;
        received.clear();
        readPos = 0;
        size_t got = 0;
        if (!world::fails("requestFrom") && w.present.count(address)) got = std::min(std::min(n, w.bufferLimit), w.deliverBytes);
        for (size_t i = 0; i < got; ++i) received.push_back(i < w.toRead.size() ? w.toRead[i] : 0xEE);
        w.log.push_back({ 'r', address, received, got == n, stop, -1, number });
        return got;
    }
    size_t requestFrom(uint16_t a, size_t n, bool stop) { return request(a, n, stop); }
    uint8_t requestFrom(uint16_t a, uint8_t n, uint8_t stop) { return uint8_t(request(a, n, stop)); }
    uint8_t requestFrom(uint16_t a, uint8_t n, bool stop) { return uint8_t(request(a, n, stop)); }
    uint8_t requestFrom(uint8_t a, uint8_t n, uint8_t stop) { return uint8_t(request(a, n, stop)); }
    uint8_t requestFrom(uint16_t a, uint8_t n) { return uint8_t(request(a, n)); }
    uint8_t requestFrom(uint8_t a, uint8_t n) { return uint8_t(request(a, n)); }
    size_t requestFrom(uint8_t a, size_t n, bool stop) { return request(a, n, stop); }
    size_t requestFrom(uint8_t a, size_t n) { return request(a, n); }
    size_t requestFrom(uint16_t a, size_t n) { return request(a, n); }
    uint8_t requestFrom(int a, int n, int stop) { return uint8_t(request(a, size_t(n), stop != 0)); }
    // size_t in version 3 of the ESP32 core (before it, uint8_t: no more than 255 bytes could be reported)
    size_t requestFrom(int a, int n) { return request(a, size_t(n)); }
    int available() { return int(received.size() - readPos); }
    int read() { return readPos < received.size() ? received[readPos++] : -1; }
    int peek() { return readPos < received.size() ? received[readPos] : -1; }
    size_t readBytes(uint8_t* b, size_t n)
    {
        size_t i = 0;
        while (i < n && readPos < received.size()) b[i++] = received[readPos++];
        return i;
    }
    size_t readBytes(char* b, size_t n) { return readBytes(reinterpret_cast<uint8_t*>(b), n); }
    void flush() { received.clear(); readPos = 0; }
    bool setClock(uint32_t) { return true; }
    uint32_t getClock() { return 100000; }
    void setTimeOut(uint16_t) {}
    uint16_t getTimeOut() { return 50; }
    bool end() { return true; }
    size_t write(unsigned b) { return write(uint8_t(b)); }
    size_t write(const char* s, size_t n) { return write(reinterpret_cast<const uint8_t*>(s), n); }

private:
    int number;
    int current = -1;
    bool started = false;
    std::vector<uint8_t> pending, received;
    size_t readPos = 0;
};
inline TwoWire Wire(0);
