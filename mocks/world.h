// The simulated hardware behind the platform mocks: a clock, UARTs, pins, buses. Everything a harness generates or
// observes is here; the headers in arduino/ and esp/ only translate the platform's calls.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>

// with WORLD_PER_THREAD every thread has hardware of its own
#ifdef WORLD_PER_THREAD
#define WORLD inline thread_local
#else
#define WORLD inline
#endif

namespace world
{
struct Stuck { const char* where; };   // thrown when the code under test makes no progress
struct Aborted { std::string what; };  // the platform's abort

WORLD int inMock = 0; // > 0 while platform code runs
struct Platform { Platform() { ++inMock; } ~Platform() { --inMock; } };

// ---- clock ---------------------------------------------------------------------------------------------
WORLD uint64_t nowUs = 0;
WORLD uint64_t stepUs = 3;           // every platform call takes this long
WORLD uint64_t calls = 0;            // platform calls since reset
WORLD uint64_t maxCalls = 3000000;
WORLD uint64_t lastClockRead = 0;    // the time seen by the last clock read
WORLD std::map<uint64_t, uint64_t> preempt; // call number -> additional time before it
inline void step(const char* where)
{
    ++calls;
    if (calls > maxCalls) throw Stuck { where };
    if (!preempt.empty())
    {
        auto it = preempt.find(calls);
        if (it != preempt.end()) nowUs += it->second;
    }
    nowUs += stepUs;
}

// ---- failures injected at given calls of fallible driver functions ---------------------------------------
WORLD uint64_t fallible = 0;          // calls of fallible functions since reset
WORLD std::set<uint64_t> failAt;      // which of them fail
WORLD std::vector<std::string> failed; // the functions that failed
inline bool fails(const char* name)
{
    if (failAt.count(fallible++) == 0) return false;
    failed.push_back(name);
    return true;
}

// ---- UART ----------------------------------------------------------------------------------------------
struct Rx { uint64_t at; uint8_t byte; };
struct Uart
{
    std::vector<Rx> rx;
    size_t pos = 0;
    std::vector<uint8_t> tx;
    std::vector<std::vector<uint8_t>> writes; // per call
    bool installed = false;
    bool available() const { return pos < rx.size() && rx[pos].at <= nowUs; }
};
WORLD Uart uarts[4];
struct UartConfig { int port = -1, baud = 0, dataBits = -1, parity = -1, stopBits = -1, flow = -1, threshold = -1, tx = -9, rx = -9, rts = -9, cts = -9, rxBuffer = 0, sets = 0, pins = 0, installs = 0; };
WORLD UartConfig uartConfig[4];

// ---- pins ----------------------------------------------------------------------------------------------
struct PinEvent { char kind; int pin; int value; int extra; }; // w(rite) m(ode) r(ead) c(onfig)
WORLD std::vector<PinEvent> pinEvents;
WORLD int pinLevel[256]; // as it is read
WORLD int pinLatch[256]; // as it was last written

// ---- SPI -----------------------------------------------------------------------------------------------
struct Spi
{
    std::vector<uint8_t> out;       // bytes clocked out
    std::vector<bool> outFiller;    // ... as filler, without data of the caller
    std::vector<uint8_t> toRead;    // the device's bytes, clock by clock
    std::vector<size_t> chunks;     // bytes per driver transaction
    int open = 0, maxOpen = 0, transactions = 0;
    int openBus = -1, bus = -1;     // the bus of the last transaction; of the last byte
    bool mixed = false;             // bytes on several buses
    uint32_t frequency = 0;
    int bitOrder = -1, mode = -1;
    bool clockedOutside = false;    // bytes moved without a transaction
    uint8_t clock(int on, const uint8_t* data, uint8_t filler = 0xFF)
    {
        if (!out.empty() && on != bus) mixed = true;
        bus = on;
        uint8_t in = out.size() < toRead.size() ? toRead[out.size()] : 0xEE;
        out.push_back(data ? *data : filler);
        outFiller.push_back(data == nullptr);
        return in;
    }
};
WORLD Spi spi;

// ESP driver side of SPI
struct SpiDevice { int host = -1; bool alive = false; bool halfDuplex = false; int maxTransfer = 0; };
struct SpiDriver
{
    bool busUp[4] = {};
    int maxTransfer[4] = {};
    SpiDevice pool[1024];
    int used = 0;
    std::vector<std::string> misuse; // releases of what is not allocated, use after release
    int initializations = 0;
    struct { int host = -1, sck = -9, miso = -9, mosi = -9, cs = -9, quadwp = -9, quadhd = -9, mode = -9; int64_t frequency = -9; bool half = false; int maxTransfer = 0; int busFlags = 0; } config;
    int alive() const { int n = 0; for (auto &d: pool) n += d.alive; return n; }
    int buses() const { int n = 0; for (bool b: busUp) n += b; return n; }
};
WORLD SpiDriver spiDriver;

// ---- ADC -----------------------------------------------------------------------------------------------
struct Adc
{
    int value[2][16] = {};
    bool claimed[2] = {};
    int wrongUse = 0; // use of a unit that is not allocated
    int reads = 0;
};
WORLD Adc adc;

// ---- sleep ---------------------------------------------------------------------------------------------
struct DeepSleep { uint64_t us; };
struct Sleep
{
    uint64_t wakeup = 0;       // programmed
    bool armed = false;
    std::vector<uint64_t> ends; // the points in time programmed
    std::vector<uint64_t> lastSeen; // the last clock value read before programming
    std::set<size_t> early;    // light sleeps that something else ends early
    size_t sleeps = 0, failures = 0;
};
WORLD Sleep sleep;
WORLD std::vector<uint32_t> taskDelays; // ticks

// ---- I2C -----------------------------------------------------------------------------------------------
struct I2C
{
    std::set<int> present;              // addresses that answer
    std::vector<uint8_t> toRead;        // what the device sends
    size_t acceptBytes = SIZE_MAX;      // bytes the device acknowledges
    size_t deliverBytes = SIZE_MAX;     // bytes it sends before the transfer breaks
    size_t bufferLimit = 128;           // of the driver
    struct Transfer { char kind; int address; std::vector<uint8_t> data; bool ok; bool stop = true; int64_t ticks = -1; int port = -1; };
    std::vector<Transfer> log;
    bool open = false;                  // a transmission was begun, but not ended
    int links = 0, linksCreated = 0;    // command links alive
    struct { int port = -1, mode = -1, sda = -9, scl = -9, sdaPull = -1, sclPull = -1, clkFlags = 0; int64_t frequency = -1; int params = 0, installs = 0; } config;
};
WORLD I2C i2c;

inline void reset()
{
    inMock = 0;
    nowUs = 1000;
    stepUs = 3;
    calls = 0;
    maxCalls = 3000000;
    lastClockRead = 0;
    preempt.clear();
    fallible = 0;
    failAt.clear();
    failed.clear();
    for (auto &u: uarts) u = Uart();
    for (auto &u: uartConfig) u = UartConfig();
    pinEvents.clear();
    memset(pinLevel, 0, sizeof pinLevel);
    memset(pinLatch, 0, sizeof pinLatch);
    spi = Spi();
    spiDriver = SpiDriver();
    adc = Adc();
    sleep = Sleep();
    taskDelays.clear();
    i2c = I2C();
}
} // namespace world
