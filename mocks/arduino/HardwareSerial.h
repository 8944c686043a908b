#pragma once
#include "Arduino.h"

class Print
{
public:
    virtual ~Print() = default;
    virtual size_t write(uint8_t) = 0;
    virtual size_t write(const uint8_t* buffer, size_t size) = 0;
    size_t write(const char* str) { return str ? write(reinterpret_cast<const uint8_t*>(str), strlen(str)) : 0; }
    size_t write(const char* buffer, size_t size) { return write(reinterpret_cast<const uint8_t*>(buffer), size); }
    virtual int availableForWrite() { return 128; }
    virtual void flush() {}
    size_t print(const char* s) { return write(s); }
    size_t print(char ch) { return write(uint8_t(ch)); }
    size_t print(int v) { char b[16]; return write(b, size_t(snprintf(b, sizeof b, "%d", v))); }
    size_t print(unsigned v) { char b[16]; return write(b, size_t(snprintf(b, sizeof b, "%u", v))); }
    size_t println() { return write("\r\n"); }
    template <typename T> size_t println(T v) { size_t n = print(v); return n + println(); }
    int getWriteError() { return 0; }
    void clearWriteError() {}
};

class Stream : public Print
{
public:
    virtual int available() = 0;
    virtual int read() = 0;
    virtual int peek() = 0;
    void setTimeout(uint32_t t) { timeout = t; }
    uint32_t getTimeout() const { return timeout; }
    virtual size_t readBytes(char* buffer, size_t length)
    {
        size_t n = 0;
        while (n < length)
        {
            int c = timedRead();
            if (c < 0) break;
            buffer[n++] = char(c);
        }
        return n;
    }
    virtual size_t readBytes(uint8_t* buffer, size_t length) { return Stream::readBytes(reinterpret_cast<char*>(buffer), length); }
    size_t readBytesUntil(char terminator, char* buffer, size_t length)
    {
        size_t n = 0;
        while (n < length)
        {
            int c = timedRead();
            if (c < 0 || char(c) == terminator) break;
            buffer[n++] = char(c);
        }
        return n;
    }
    size_t readBytesUntil(char terminator, uint8_t* buffer, size_t length) { return readBytesUntil(terminator, reinterpret_cast<char*>(buffer), length); }
protected:
    int timedRead()
    {
        uint32_t start = millis();
        do
        {
            int c = read();
            if (c >= 0) return c;
        } while (uint32_t(millis() - start) < timeout);
        return -1;
    }
    int timedPeek()
    {
        uint32_t start = millis();
        do
        {
            int c = peek();
            if (c >= 0) return c;
        } while (uint32_t(millis() - start) < timeout);
        return -1;
    }
    uint32_t timeout = 1000;
};

class HardwareSerial : public Stream
{
public:
    HardwareSerial(int port) : port(port) {}
    HardwareSerial(const HardwareSerial &) = default;
    void begin(uint32_t, uint32_t = 0, int8_t = -1, int8_t = -1, bool = false, uint32_t = 20000, uint8_t = 112) {}
    void end(bool = true) {}
    int available() override
    {
        world::Platform p;
        world::step("available");
        auto &u = world::uarts[port];
        int n = 0;
        while (u.pos + size_t(n) < u.rx.size() && u.rx[u.pos + size_t(n)].at <= world::nowUs) ++n;
        return n;
    }
    int peek() override
    {
        world::Platform p;
        world::step("peek");
        auto &u = world::uarts[port];
        return u.available() ? u.rx[u.pos].byte : -1;
    }
    int read() override
    {
        world::Platform p;
        world::step("read");
        auto &u = world::uarts[port];
        if (world::fails("read")) return -1;
        return u.available() ? u.rx[u.pos++].byte : -1;
    }
    size_t read(uint8_t* buffer, size_t size)
    {
        world::Platform p;
        world::step("read");
        auto &u = world::uarts[port];
        if (world::fails("read")) return 0;
        size_t n = 0;
        while (n < size && u.available()) buffer[n++] = u.rx[u.pos++].byte;
        return n;
    }
    size_t read(char* buffer, size_t size) { return read(reinterpret_cast<uint8_t*>(buffer), size); }
    // the ESP32 core waits for all bytes with one timeout
    size_t readBytes(uint8_t* buffer, size_t length) override
    {
        world::Platform p;
        auto &u = world::uarts[port];
        const uint64_t end = world::nowUs + uint64_t(timeout) * 1000;
        size_t n = 0;
        for (;;)
        {
            world::step("readBytes");
            bool failed = false;
            while (n < length && u.available() && !(failed = world::fails("read"))) buffer[n++] = u.rx[u.pos++].byte;
            if (n == length || world::nowUs >= end) return n;
            if (failed) continue;
            // waits
            uint64_t next = u.pos < u.rx.size() ? u.rx[u.pos].at : UINT64_MAX;
            world::nowUs = std::max(world::nowUs, std::min(next, end));
        }
    }
    size_t readBytes(char* buffer, size_t length) override { return readBytes(reinterpret_cast<uint8_t*>(buffer), length); }
    using Print::write;
    size_t write(uint8_t b) override { return write(&b, 1); }
    size_t write(const uint8_t* buffer, size_t size) override
    {
        world::Platform p;
        world::step("write");
        if (size > 0 && world::fails("write")) return 0;
        auto &u = world::uarts[port];
        u.tx.insert(u.tx.end(), buffer, buffer + size);
        u.writes.emplace_back(buffer, buffer + size);
        return size;
    }
    size_t write(int v) { return write(uint8_t(v)); }
    size_t write(unsigned v) { return write(uint8_t(v)); }
    int availableForWrite() override { return 128; }
    void flush() override { world::step("flush"); }
    void flush(bool txOnly)
    {
        world::Platform p;
        world::step("flush");
        (void)txOnly;
    }
    operator bool() const { return true; }

private:
    int port;
};
inline HardwareSerial Serial(0), Serial1(1), Serial2(2);
