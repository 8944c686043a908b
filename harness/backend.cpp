// C29-C36: the platform back ends over simulated hardware (mocks/). Built once per back end (and ESP tick period).
#include "pbt.h"
#include "world.h"
#include <memory>
#include "Delays.h"
#include "PacketUart.h"
#include "PacketUartImpl.h"
#include "SerialOut.h"
#include "BufferedOut.h"
#include "Debug.h"
#include "SpiBus.h"
#include "SpiDevice.h"
#include "I2CBus.h"
#include "I2CDevice.h"
#include "GpioPinDefinition.h"
#include "GpioDigitalPin.h"
#include "AnalogPin.h"
#ifdef BACKEND_ARDUINO
#include <Arduino.h>
#include <Wire.h>
#include <SPI.h>
constexpr bool arduino = true;
constexpr uint64_t tickUs = 1000;
#else
#include <freertos/FreeRTOS.h>
#include <freertos/task.h>
#include <driver/uart.h>
#include <driver/i2c.h>
#include <driver/gpio.h>
#include <driver/spi_master.h>
#include <esp_adc/adc_oneshot.h>
#if PROP == 36
#include "SleepFunctions.h"
#endif
constexpr bool arduino = false;
constexpr uint64_t tickUs = TICK_MS * 1000ull;
#endif

using namespace pbt;

namespace
{
void resetWorld()
{
    world::reset();
#ifdef BACKEND_ARDUINO
    world::delays.clear();
    world::delaysUs.clear();
    world::analog.clear();
    Serial1 = HardwareSerial(1);
    Wire = TwoWire(0);
#else
    world::uartTickPhase = false;
    for (auto &l: world::i2cLinks) l = world::I2CLink();
#endif
}

// ---- UART ------------------------------------------------------------------------------------------------
struct Uart
{
    embedded::PacketUart::UartDevice device;
    embedded::PacketUart packet { device };
    world::Uart &w;
    explicit Uart(int n = 1) : device(n), w(world::uarts[n]) {}
};

struct Bytes // exactly as large as told, so that AddressSanitizer sees every access outside
{
    std::unique_ptr<uint8_t[]> p;
    size_t n;
    explicit Bytes(size_t n) : p(new uint8_t[n]), n(n) { memset(p.get(), 0xA5, n); }
    uint8_t* data() { return p.get(); }
};

std::string hex(const uint8_t* p, size_t n)
{
    std::string s;
    char b[4];
    for (size_t i = 0; i < n && i < 40; ++i) { snprintf(b, sizeof b, "%02x ", p[i]); s += b; }
    if (n > 40) s += "...";
    return s;
}

struct Markers { uint8_t start, end; };
Markers genMarkers(Ctx &c)
{
    Markers m;
    m.start = c.pick<uint8_t>({ 0x02, 0x00, 0xFF, 0x80, 0x7F, '$' });
    m.end = c.pick<uint8_t>({ 0x03, 0x00, 0xFF, 0x80, '\n', 0xFE });
    if (c.chance(1, 8)) { m.start = c.byte(); m.end = c.byte(); }
    if (c.chance(1, 10)) m.end = m.start;
    return m;
}
uint8_t genStreamByte(Ctx &c, Markers m)
{
    switch (c.oneOf({ 6, 2, 2, 2 }))
    {
        case 0: return uint8_t('a' + c.uniform(3));
        case 1: return m.end;
        case 2: return m.start;
        default: return c.byte();
    }
}
// Appends bytes to the incoming stream, beginning not before `from`.
void feed(Ctx &c, world::Uart &u, Markers m, uint64_t from, size_t n, uint64_t maxGapUs)
{
    uint64_t t = u.rx.empty() ? from : std::max(from, u.rx.back().at);
    bool dense = c.boolean();
    for (size_t i = 0; i < n; ++i)
    {
        if (!dense && c.chance(1, 3)) t += uint64_t(c.range(0, int64_t(maxGapUs)));
        else t += dense ? 0 : c.uniform(200);
        u.rx.push_back({ t, genStreamByte(c, m) });
    }
}
size_t genBufferSize(Ctx &c, bool longPackets)
{
    switch (c.oneOf({ 8, 4, 1, longPackets ? 8u : 1u }))
    {
        case 3: return c.pick({ 63u, 64u, 65u, 100u, 127u, 128u, 129u, 200u, 255u, 256u, 257u, 500u, 512u, 1000u, 1024u, 2048u, 4096u });
        case 0: return c.uniform(12);
        case 1: return c.size(80);
        default: return size_t(c.range(250, 65535));
    }
}

enum Call { Plain, Until, Between };
const char* callName[] = { "Receive", "ReceiveUntil", "ReceiveBetween" };

uint16_t receive(Uart &u, Call call, Bytes &b, Markers m, uint16_t timeout)
{
    switch (call)
    {
        case Plain: return u.packet.Receive(b.data(), uint16_t(b.n), timeout);
        case Until: return u.packet.ReceiveUntil(b.data(), uint16_t(b.n), m.end, timeout);
        default: return u.packet.ReceiveBetween(b.data(), uint16_t(b.n), m.start, m.end, timeout);
    }
}

// What the call returned against what it took from the stream. Empty: fine.
std::string judgeReceived(Call call, Markers m, const std::vector<world::Rx> &rx, size_t from, size_t to, Bytes &b, size_t got)
{
    char msg[600];
    auto wrong = [&](const char* why) {
        std::string taken;
        for (size_t i = from; i < to && i < from + 60; ++i) { snprintf(msg, sizeof msg, "%02x ", rx[i].byte); taken += msg; }
        snprintf(msg, sizeof msg, "%s into %zu bytes (start %02x, end %02x) returned %zu [%s], stream consumed [%s]: %s", callName[call], b.n, m.start, m.end, got, hex(b.data(), std::min(got, b.n)).c_str(), taken.c_str(), why);
        return std::string(msg);
    };
    const size_t taken = to - from;
    if (got > b.n) return wrong("more than the buffer size");
    if (call == Between && b.n < 2) return got != 0 || taken != 0 ? wrong("less than two bytes of room, but not empty") : "";
    size_t first = from;
    if (call == Between)
    {
        while (first < to && rx[first].byte != m.start) ++first;
        if (got == 0) return first < to ? wrong("a start byte was lost") : "";
        if (first == to) return wrong("bytes returned without a start byte");
    }
    if (to - first != got) return wrong("not as many bytes returned as consumed");
    for (size_t i = 0; i < got; ++i)
        if (b.p[i] != rx[first + i].byte) return wrong("other bytes than received");
    if (call != Plain)
        for (size_t i = call == Between ? 1 : 0; i + 1 < got; ++i)
            if (b.p[i] == m.end) return wrong("continues after the end byte");
    return "";
}

// ---- C29 ---------------------------------------------------------------------------------------------------
void c29(Ctx &c)
{
    resetWorld();
    Uart u;
    world::nowUs = 5000 + c.uniform(3000000);
    const uint64_t stepUs = 1 + uint64_t(c.range(0, 60));
    world::stepUs = stepUs;
#ifndef BACKEND_ARDUINO
    world::uartTickPhase = c.boolean();
#else
    u.device.setTimeout(uint32_t(c.range(1, 1500)));
#endif
    Markers m = genMarkers(c);
    feed(c, u.w, m, world::nowUs, c.size(60), c.chance(1, 4) ? 400000 : 5000);
    const bool longPackets = c.chance(1, 8);
    if (longPackets) // of more than 255 bytes
    {
        uint64_t t = u.w.rx.empty() ? world::nowUs : u.w.rx.back().at;
        const size_t n = size_t(c.chance(1, 20) ? c.range(1000, 70000) : c.range(200, 1200));
        const uint64_t gap = c.uniform(60);
        u.w.rx.push_back({ t, m.start });
        for (size_t i = 0; i < n; ++i)
        {
            uint8_t b = uint8_t(i * 37 + (i >> 8));
            if (b == m.end || b == m.start) ++b;
            u.w.rx.push_back({ t += gap, b });
        }
        u.w.rx.push_back({ t, m.end });
        c.label("long packet");
    }
    if (c.chance(1, 3))
        for (int i = 0; i < 4; ++i) world::failAt.insert(c.uniform(40));
    const bool errors = !world::failAt.empty();
    unsigned interesting = 0;
    // another UART used in between
    Uart u2(2);
    const bool two = c.chance(1, 4);
    if (two) c.label("two UARTs");
    c.trace("%s, start %02x end %02x, %zu bytes", arduino ? "arduino" : "esp", m.start, m.end, u.w.rx.size());
    size_t calls = 0;
    while (c.more(6) && calls++ < 40)
    {
        Ctx::Scope s(c);
        if (c.chance(1, 5)) m = genMarkers(c);
        if (two && !errors && c.boolean())
        {
            const size_t pos = u.w.pos, sent = u.w.tx.size();
            Bytes b(3 + c.uniform(20));
            const size_t k = c.uniform(b.n - 2);
            const uint64_t t = u2.w.rx.empty() ? 0 : u2.w.rx.back().at;
            world::stepUs = stepUs;
            for (size_t i = 0; i < k + 2; ++i) u2.w.rx.push_back({ std::max(t, world::nowUs), uint8_t(i == 0 ? 0x11 : i == k + 1 ? 0x22 : 0x80 + i + k) });
            const size_t first = u2.w.rx.size() - k - 2;
            world::maxCalls = world::calls + 1000000;
            size_t got = 0;
            try { got = u2.packet.ReceiveBetween(b.data(), uint16_t(b.n), 0x11, 0x22, 1000); }
            catch (world::Stuck &) { c.fail("receiving from the other UART never returns"); }
            bool same = got == k + 2;
            for (size_t i = 0; same && i < got; ++i) same = b.p[i] == u2.w.rx[first + i].byte;
            c.trace("other UART: packet of %zu bytes -> %zu", k + 2, got);
            PBT_CHECK(c, same, "another UART with a packet of %zu bytes waiting returned %zu bytes [%s]", k + 2, got, hex(b.data(), std::min(got, b.n)).c_str());
            const size_t had = u2.w.tx.size();
            const size_t n = u2.packet.Send(b.data(), uint16_t(got));
            PBT_CHECK(c, n == got && u2.w.tx.size() == had + got && std::equal(b.data(), b.data() + got, u2.w.tx.begin() + long(had)), "another UART sent %zu bytes of %zu", u2.w.tx.size() - had, got);
            PBT_CHECK(c, u.w.pos == pos && u.w.tx.size() == sent, "the use of another UART moved bytes of this one");
        }
        switch (c.oneOf({ 3, 4, 4, 2, 3 }))
        {
            case 0: case 1: case 2:
            {
                Call call = Call(c.uniform(2));
                Bytes b(genBufferSize(c, longPackets));
                uint16_t timeout = uint16_t(c.chance(1, 6) ? c.range(1, 65535) : c.range(1, 40));
                if (!errors && c.chance(1, 5))
                {
                    timeout = 0;
                    if (call != Plain) // may wait for ever: a complete packet must come
                    {
                        uint64_t t = std::max(world::nowUs, u.w.rx.empty() ? 0 : u.w.rx.back().at) + c.uniform(20000);
                        u.w.rx.push_back({ t, m.start });
                        u.w.rx.push_back({ t + c.uniform(3000), m.end });
                        u.w.rx.push_back({ t + 3001, m.end });
                    }
                }
                const size_t from = u.w.pos, failedBefore = world::failed.size();
                const uint64_t startUs = world::nowUs;
                size_t got;
                world::stepUs = stepUs + timeout / 20; // polling for a minute must not take a minute
                if (timeout == 0 && !u.w.rx.empty() && u.w.rx.back().at > world::nowUs) world::stepUs += (u.w.rx.back().at - world::nowUs) / 20000;
                world::maxCalls = world::calls + 1000000;
                try { got = receive(u, call, b, m, timeout); }
                catch (world::Stuck &e) { c.fail("%s with timeout %u never returns", callName[call], timeout); }
                c.trace("%s(%zu, timeout %u) -> %zu, consumed %zu", callName[call], b.n, timeout, got, u.w.pos - from);
                auto r = judgeReceived(call, m, u.w.rx, from, u.w.pos, b, got);
                if (!r.empty()) c.fail("%s", r.c_str());
                // an end without a reason: there is room, time, no end byte, and the next byte was there from the beginning
                const bool done = got == b.n || (call == Between && b.n < 2) || (call != Plain && got > (call == Between ? 1u : 0u) && b.p[got - 1] == m.end);
                const uint64_t took = world::nowUs - startUs, slack = 2000 + 3 * world::stepUs;
                if (!done && timeout > 0 && world::failed.size() == failedBefore && u.w.pos < u.w.rx.size() && u.w.rx[u.w.pos].at <= startUs)
                {
                    c.label("bytes left behind");
                    PBT_CHECK(c, took + slack >= timeout * 1000ull, "%s with a buffer of %zu and %u ms returned %zu bytes after %llu us although the next byte was there", callName[call], b.n, timeout, got, (unsigned long long)took);
                }
                if (got == b.n && got > 0) c.label("buffer filled");
                if (call != Plain && got > 0 && b.p[got - 1] == m.end) c.label("complete packet");
                if (call != Plain && got > 0 && got < b.n && b.p[got - 1] != m.end) c.label("cut by timeout");
                if (call == Between && u.w.pos - from > got) c.label("noise discarded");
                if (b.n <= 2) c.label("buffer of at most two bytes");
                if (got > 0) ++interesting;
                break;
            }
            case 3:
                feed(c, u.w, m, world::nowUs, c.size(30), 5000);
                c.trace("feed to %zu", u.w.rx.size());
                break;
            default:
            {
                Bytes b(c.chance(1, 20) ? size_t(c.range(0, 65535)) : c.size(60));
                for (size_t i = 0; i < b.n; ++i) b.p[i] = uint8_t(i < 40 ? c.byte() : i * 7 + (i >> 8));
                const size_t before = u.w.tx.size(), failures = world::failed.size();
                const size_t pos = u.w.pos;
                const std::vector<uint8_t> copy(b.data(), b.data() + b.n);
                size_t n = c.boolean() ? u.packet.Send(b.data(), uint16_t(b.n)) : u.packet.Send(b.data(), uint16_t(b.n), uint32_t(c.range(0, 1000)));
                const bool failed = world::failed.size() != failures;
                c.trace("Send %zu -> %zu%s", b.n, n, failed ? " (device error)" : "");
                const size_t expected = failed ? 0 : b.n;
                PBT_CHECK(c, n == expected, "Send of %zu bytes%s returned %zu", b.n, failed ? " with a device error" : "", n);
                PBT_CHECK(c, u.w.tx.size() - before == expected && std::equal(copy.begin(), copy.begin() + long(expected), u.w.tx.begin() + long(before)), "Send of %zu bytes transmitted %zu or other bytes", b.n, u.w.tx.size() - before);
                PBT_CHECK(c, u.w.pos == pos, "Send consumed received bytes");
                PBT_CHECK(c, std::equal(copy.begin(), copy.end(), b.data()), "Send changed the data");
                if (failed) c.label("send error");
                break;
            }
        }
    }
    for (int i = 0; i < 4; ++i) PBT_CHECK(c, i == 1 || (two && i == 2) || (world::uarts[i].tx.empty() && world::uarts[i].pos == 0), "bytes were moved on UART %d", i);
    if (interesting >= 2) c.nontrivial();
    if (!world::failed.empty()) c.label("device error");
}

// ---- C30 ---------------------------------------------------------------------------------------------------
void c30(Ctx &c)
{
    resetWorld();
    Uart u;
    // uptime: anything, often just before a wrap of the 32-bit millisecond (or microsecond) counter
    const uint64_t wrap = 4294967296ull * 1000ull;
    switch (c.oneOf({ 2, 5, 2 }))
    {
        case 0: world::nowUs = 1000 + uint64_t(c.range(0, 1000000000)); break;
        case 1: world::nowUs = wrap * uint64_t(c.range(1, 3)) - uint64_t(c.range(0, c.boolean() ? 400000 : 70000000)); break;
        default: world::nowUs = 4294967296ull * uint64_t(c.range(1, 5)) - uint64_t(c.range(0, 400000)); break;
    }
    const uint64_t stepUs = 1 + uint64_t(c.range(0, 49));
#ifndef BACKEND_ARDUINO
    const bool phase = world::uartTickPhase = c.boolean(); // the platform's waits end at ticks
#else
    const bool phase = false;
    const uint32_t setting = uint32_t(c.chance(1, 4) ? c.bits32() : c.range(1, 3000));
    u.device.setTimeout(setting);
#endif
    uint64_t preempted = 0;
    for (uint64_t n = c.uniform(3), i = 0; i < n; ++i)
    {
        uint64_t d = uint64_t(c.range(0, 4000));
        world::preempt[1 + uint64_t(c.range(0, 60))] += d;
        preempted += d;
    }
    Markers m = genMarkers(c);
    if (m.start == m.end && c.boolean()) m.end ^= 1;
    unsigned calls = 1 + unsigned(c.uniform(2));
    bool wraps = false;
    for (unsigned k = 0; k < calls; ++k)
    {
        Ctx::Scope scope(c);
        const Call call = Call(c.uniform(2));
        const bool longPacket = c.chance(1, 8);
        uint16_t timeout = uint16_t(longPacket ? c.range(100, 600) : c.oneOf({ 6, 1 }) == 0 ? c.range(1, 300) : c.range(1, 65535));
        uint16_t given = timeout;
#ifdef BACKEND_ARDUINO
        // without a timeout of its own the call waits for each byte as long as the device's setting says
        bool own = call != Plain && setting > 0 && setting <= 3000 && c.chance(1, 6);
        if (own) { timeout = uint16_t(setting); given = 0; }
#endif
        Bytes b((call == Between ? 2 : 1) + size_t(c.range(0, longPacket ? 400 : 30)));
        world::stepUs = longPacket ? 1 + timeout / 100 : stepUs + timeout / 20; // polling for a minute must not take a minute
        const uint64_t start = world::nowUs;
        auto &rx = u.w.rx;
        // arrivals around this call
        uint64_t t = start;
        auto gap = [&]() -> uint64_t {
            switch (c.oneOf({ 5, 3, 2 }))
            {
                case 0: return c.uniform(300);
                case 1: return uint64_t(c.range(0, timeout * 250ll));
                default: return uint64_t(c.range(0, timeout * 1100ll));
            }
        };
        const bool noise = call == Between && c.chance(1, 2);
        if (noise)
        {
            // unwanted bytes, steadily
            uint64_t period = 300 + uint64_t(c.range(0, timeout * 1100ll));
            uint64_t until = start + uint64_t(timeout) * c.uniform(3) * 1000 + period;
            for (size_t i = 0; i < 400 && t < until; ++i, t += period) rx.push_back({ t, uint8_t(m.start ^ (1 + c.uniform(3))) });
            c.label("noise before the start byte");
        }
        if (longPacket) // many bytes with few pauses
        {
            const uint64_t each = c.uniform(100);
            if (call == Between) rx.push_back({ t, m.start });
            for (size_t n = b.n - c.uniform(std::min<uint64_t>(b.n - 1, 5)), i = 0; i < n; ++i)
            {
                uint8_t x = uint8_t(i * 37 + (i >> 8));
                if (x == m.end || x == m.start) ++x;
                if (x == m.end || x == m.start) ++x;
                t += each;
                if (c.chance(1, 100)) t += uint64_t(c.range(0, timeout * 700ll));
                rx.push_back({ t, x });
            }
            c.label("long packet");
        }
        else for (size_t n = c.size(24), i = 0; i < n; ++i)
        {
            t += gap();
            rx.push_back({ t, genStreamByte(c, m) });
        }
        if (c.chance(2, 3)) // a complete packet in time
        {
            if (call == Between && c.boolean()) { t += gap(); rx.push_back({ t, m.start }); }
            t += gap();
            rx.push_back({ t, m.end });
        }
        // the history must be ordered
        for (size_t i = 1; i < rx.size(); ++i) rx[i].at = std::max(rx[i].at, rx[i - 1].at);

        const size_t from = u.w.pos;
        // the complete result of this call, and when its last byte arrives
        size_t first = from, last = SIZE_MAX;
        if (call == Between) while (first < rx.size() && rx[first].byte != m.start) ++first;
        for (size_t i = first; i < rx.size(); ++i)
            if (i - first + 1 == b.n || (call != Plain && rx[i].byte == m.end && (call == Until || i > first))) { last = i; break; }
        size_t got;
        world::maxCalls = world::calls + 3000000;
#ifdef BACKEND_ARDUINO
        if (own && call == Between && first >= rx.size()) { given = timeout; own = false; } // it may wait for a start byte for ever
        if (own)
        {
            c.label("the device's own timeout");
            c.trace("without a timeout");
            if (!rx.empty() && rx.back().at > start) world::stepUs += (rx.back().at - start) / 50000; // it may wait longer for the start byte
        }
#endif
        c.trace("%s at %" PRIu64 " us, timeout %u ms, room %zu, step %" PRIu64, callName[call], start, timeout, b.n, world::stepUs);
        for (size_t i = from; i < rx.size() && i < from + 40; ++i) c.trace("+%" PRIu64 ": %02x", rx[i].at - std::min(start, rx[i].at), rx[i].byte);
        try { got = receive(u, call, b, m, given); }
        catch (world::Stuck &) { c.fail("%s at %" PRIu64 " us with timeout %u ms has not returned after %" PRIu64 " ms", callName[call], start, timeout, (world::nowUs - start) / 1000); }
#ifdef BACKEND_ARDUINO
        PBT_CHECK(c, u.device.getTimeout() == setting, "%s left the device with a timeout of %u ms instead of its own %u ms", callName[call], unsigned(u.device.getTimeout()), setting);
        if (c.chance(1, 6))
        {
            uint8_t x[3] = { 1, 2, 3 };
            const uint64_t before = world::nowUs;
            u.packet.Send(x, 3, uint32_t(c.range(0, 100000)));
            PBT_CHECK(c, u.device.getTimeout() == setting, "Send left the device with a timeout of %u ms instead of its own %u ms", unsigned(u.device.getTimeout()), setting);
            world::nowUs = before;
        }
#endif
        const uint64_t end = world::nowUs;
        const uint64_t consumed = u.w.pos - from;
        // every byte costs some calls; delay(1) and the rounding of milliseconds
        const uint64_t slack = preempted + 3000 + world::stepUs * (60 + 12 * consumed);
        c.trace("-> %zu after %" PRIu64 " us", got, end - start);
        auto r = judgeReceived(call, m, rx, from, u.w.pos, b, got);
        if (!r.empty()) c.fail("%s", r.c_str());
        const uint64_t lastAccepted = got > 0 ? std::max(start, rx[u.w.pos - 1].at) : start;
        PBT_CHECK(c, end <= lastAccepted + timeout * 1000ull + tickUs + slack, "%s with timeout %u ms returned %" PRIu64 " us after the later of its start and the last accepted byte", callName[call], timeout, end - lastAccepted);
        const uint64_t margin = tickUs * (phase ? 2 : 1) + slack + world::stepUs * 12 * (last == SIZE_MAX ? 0 : last - from + 1);
        if (last != SIZE_MAX && (rx[last].at <= start || rx[last].at - start + margin <= timeout * 1000ull) && margin <= timeout * 1000ull)
        {
            bool same = got == last - first + 1 && u.w.pos == last + 1;
            for (size_t i = 0; same && i < got; ++i) same = b.p[i] == rx[first + i].byte;
            PBT_CHECK(c, same, "%s at %" PRIu64 " us with timeout %u ms: all bytes of the packet (%zu) had arrived %" PRIu64 " us after the start, but it returned %zu bytes", callName[call], start, timeout, last - first + 1,
                      rx[last].at - std::min(start, rx[last].at), got);
            c.label("complete in time");
        }
        else if (last == SIZE_MAX || rx[last].at > start + timeout * 1000ull) c.label("timeout");
        if (uint32_t(start / 1000) > uint32_t(end / 1000 + timeout)) wraps = true;
        // skip what is left, so that later calls see their own arrivals
        if (c.boolean()) u.w.pos = rx.size();
        world::nowUs += c.uniform(2000);
    }
    if (wraps) c.label("millisecond counter wraps");
    if (!u.w.rx.empty()) c.nontrivial();
}

#if PROP == 31
// ---- C31 ---------------------------------------------------------------------------------------------------
void c31(Ctx &c)
{
    resetWorld();
    Uart u;
    size_t cap = 1;
    const bool debug = c.chance(1, 6); // the library's own debug output: 128 bytes, UART 0
    if (debug) cap = 128;
    else switch (c.oneOf({ 8, 4, 1 }))
    {
        case 0: cap += c.uniform(24); break;
        case 1: cap += c.size(300); break;
        default: cap = size_t(c.range(65000, 67000)); c.stretch = 1; break;
    }
    c.trace("buffer of %zu", cap);
    GuardedBuf buf(cap, 0, 64), ref(cap, 0, 64);
    embedded::SerialOut own(embedded::MemoryView<char>(reinterpret_cast<char*>(buf.data()), cap), u.packet);
    embedded::SerialOut &out = debug ? embedded::SerialDebug : own;
    auto &wire = world::uarts[debug ? 0 : 1], &other = world::uarts[debug ? 1 : 0];
    if (debug) { out << embedded::SerialOut::end {}; wire.tx.clear(); wire.writes.clear(); c.label("debug output"); } // what a failed case left
    std::unique_ptr<embedded::BufferedOut> message;
    auto fresh = [&] { message.reset(new embedded::BufferedOut(embedded::MemoryView<char>(reinterpret_cast<char*>(ref.data()), cap))); };
    fresh();
    std::string expected;
    unsigned messages = 0;
    bool full = false;
    // another log on another UART, written in between
    char small[24];
    Uart u2(2);
    embedded::SerialOut log2(embedded::MemoryView<char>(small, sizeof small), u2.packet);
    std::string expected2, pending2;
    const bool two = c.chance(1, 4);
    if (two) c.label("two logs at once");
    while (c.more(20))
    {
        Ctx::Scope s(c);
        if (two && c.chance(1, 3))
        {
            const char* t = c.pick({ "a", "bc", "-42", "x = " });
            const int v = int(c.range(-999, 999));
            log2 << t << v;
            pending2 += t + std::to_string(v);
            c.trace("other log: %s%d", t, v);
            if (pending2.size() > 12 || c.boolean()) // never full
            {
                log2 << embedded::SerialOut::endl {};
                expected2 += pending2 + "\n";
                pending2.clear();
            }
        }
#define INSERT(v) do { out << (v); *message << (v); } while (0)
        switch (c.oneOf({ 4, 2, 3, 2, 2, 1, 1, 1, 1, 3, 3, 3, 4, 4, 2, 1 }))
        {
            case 0:
            {
                std::string t(c.size(c.chance(1, 6) ? cap + 10 : 40), 'x');
                for (auto &ch: t) if ((ch = char(c.byte())) == 0) ch = '0';
                c.trace("cstr %s", show(t).c_str());
                INSERT(t.c_str());
                break;
            }
            case 1: { unsigned char b = c.byte(); c.trace("byte %02x", b); INSERT(b); break; }
            case 2: { int v = int(c.around(INT32_MIN, INT32_MAX, 0)); c.trace("int %d", v); INSERT(v); break; }
            case 3: { unsigned v = c.bits32(); c.trace("unsigned %u", v); INSERT(v); break; }
            case 4: { long v = long(c.bits64()); c.trace("long %ld", v); INSERT(v); break; }
            case 5: { unsigned long v = c.bits64(); c.trace("ulong %lu", v); INSERT(v); break; }
            case 6: { long long v = (long long)(c.bits64()); c.trace("longlong %lld", v); INSERT(v); break; }
            case 7: { unsigned long long v = c.bits64(); c.trace("ulonglong %llu", v); INSERT(v); break; }
            case 8:
            {
                std::vector<uint8_t> d(c.size(c.chance(1, 6) ? cap / 2 + 10 : 20));
                for (size_t i = 0; i < d.size(); ++i) d[i] = i < 20 ? c.byte() : uint8_t(i * 73 + (i >> 8));
                c.trace("bytes[%zu]", d.size());
                INSERT(embedded::ConstBytesView(d.data(), d.size()));
                break;
            }
            case 9: { float f = float(c.around(-3000000, 3000000, 0)) / 64.f; c.trace("float %.9g", double(f)); INSERT(f); break; }
            case 10: { int p = int(c.range(0, 8)); c.trace("precision %d", p); out << embedded::SerialOut::precision { p }; *message << embedded::BufferedOut::precision { p }; break; }
            case 11:
            {
                // up to the end of the buffer
                size_t room = cap - message->size();
                size_t leave = std::min<size_t>(room, c.uniform(2));
                std::string t(room - leave, '.');
                c.trace("fill up to %zu", leave);
                INSERT(t.c_str());
                break;
            }
            case 12:
                c.trace("end");
                out << embedded::SerialOut::end {};
                expected += std::string(message->asStringView());
                fresh();
                ++messages;
                break;
            case 13:
                c.trace("endl");
                if (message->size() == cap) { c.label("end of line with a full buffer"); full = true; }
                out << embedded::SerialOut::endl {};
                expected += std::string(message->asStringView()) + "\n";
                fresh();
                ++messages;
                break;
            case 14:
            {
                if (!debug) break;
                std::string t(c.size(60), 'x');
                int v = int(c.bits32());
                c.trace("DEBUG_LOG(%zu characters, %d)", t.size(), v);
                DEBUG_LOG(t.c_str() << v << " ")
                *message << t.c_str() << v << " ";
                expected += std::string(message->asStringView()) + "\n";
                fresh();
                ++messages;
                break;
            }
            default:
                c.trace("endl endl");
                out << embedded::SerialOut::endl {} << embedded::SerialOut::endl {};
                expected += std::string(message->asStringView()) + "\n\n";
                fresh();
                messages += 2;
                break;
        }
        std::string got(wire.tx.begin(), wire.tx.end());
        PBT_CHECK(c, other.tx.empty() && world::uarts[3].tx.empty(), "bytes sent to another UART");
        PBT_CHECK(c, std::string(world::uarts[2].tx.begin(), world::uarts[2].tx.end()) == expected2, "another log sent %s instead of %s", show(std::string(world::uarts[2].tx.begin(), world::uarts[2].tx.end())).c_str(), show(expected2).c_str());
        if (got != expected)
        {
            size_t at = 0;
            while (at < got.size() && at < expected.size() && got[at] == expected[at]) ++at;
            c.fail("buffer of %zu: %zu bytes sent, %zu expected, different from %zu on: %s instead of %s", cap, got.size(), expected.size(), at, show(got.substr(at)).c_str(), show(expected.substr(at)).c_str());
        }
        PBT_CHECK(c, buf.intact(), "bytes outside the buffer were changed");
    }
    if (messages >= 2 && expected.size() > 4) c.nontrivial();
    if (full) c.label("full");
}

#endif
// ---- C32 ---------------------------------------------------------------------------------------------------
size_t genLength(Ctx &c, size_t max)
{
    switch (c.oneOf({ 6, 3, 2, 1 }))
    {
        case 0: return c.uniform(20);
        case 1: return c.size(std::min<size_t>(max, 600));
        case 2: return std::min<size_t>(max, size_t(4092 * c.uniform(4)) + c.uniform(9) - std::min<size_t>(4, 4)) % (max + 1);
        default: return size_t(c.range(0, int64_t(max)));
    }
}
void fillDevice(size_t n, uint32_t salt)
{
    auto &d = world::spi.toRead;
    d.resize(n);
    for (size_t i = 0; i < n; ++i) d[i] = uint8_t((i + salt) * 2654435761u >> 13);
}
#ifdef BACKEND_ARDUINO
struct SpiUnderTest
{
    SPIClass spi2 { 2 };
    uint32_t frequency = 4000000;
    int number;
    embedded::SpiBus bus;
    bool half = true;
    explicit SpiUnderTest(Ctx &c, bool second = false) : frequency(second ? 1000000 + uint32_t(c.uniform(1000)) : 4000000), number(second ? 2 : 0), bus(second ? spi2 : SPI, frequency) {}
};
#else
uint32_t usualFrequency(Ctx &c)
{
    static const uint32_t usual[] = { 1000000, 100000, 400000, 500000, 2000000, 4000000, 5000000, 8000000, 10000000, 12000000, 16000000, 20000000, 26000000, 40000000, 80000000 };
    return usual[c.uniform(std::size(usual) - 1)];
}
struct SpiUnderTest
{
    embedded::GpioPinDefinition sck { 18 }, miso { 19 }, mosi { 23 };
    uint32_t frequency = 0;
    int number;
    embedded::SpiBus bus;
    bool half;
    explicit SpiUnderTest(Ctx &c, bool second = false) : number(second ? 2 : 1), bus(number)
    {
        half = c.boolean();
        bool ok = bus.init(sck, miso, mosi, usualFrequency(c), half ? embedded::SpiBus::DuplexMode::Half : embedded::SpiBus::DuplexMode::Full);
        PBT_CHECK(c, ok, "initialisation failed");
    }
};
#endif
void c32(Ctx &c)
{
    resetWorld();
    SpiUnderTest t(c);
    embedded::SpiDevice device(t.bus);
    unsigned transfers = 0;
    // another bus used in between
    std::unique_ptr<SpiUnderTest> t2;
    if (c.chance(1, 4)) { t2.reset(new SpiUnderTest(c, true)); c.label("two buses"); }
    while (c.more(4))
    {
        Ctx::Scope s(c);
        if (t2 && c.boolean())
        {
            world::spi = world::Spi();
            world::failAt.clear();
            const size_t n = 1 + c.uniform(40);
            Bytes tx(n), rx(n);
            for (size_t i = 0; i < n; ++i) tx.p[i] = uint8_t(i * 3 + n);
            fillDevice(n, uint32_t(n));
            const bool receive = c.boolean();
            embedded::SpiDevice d2(t2->bus);
            const bool ok = receive ? d2.receiveSync(rx.data(), uint16_t(n)) : d2.sendSync(tx.data(), uint16_t(n));
            auto &w = world::spi;
            c.trace("other bus: %s %zu -> %d", receive ? "receive" : "send", n, ok);
            PBT_CHECK(c, ok && w.out.size() == n && w.bus == t2->number && !w.mixed, "a transfer of %zu bytes on another bus returned %d, moved %zu, on bus %d", n, ok, w.out.size(), w.bus);
            if (receive) PBT_CHECK(c, std::equal(rx.data(), rx.data() + n, w.toRead.begin()), "other bytes received on another bus");
            else PBT_CHECK(c, std::equal(tx.data(), tx.data() + n, w.out.begin()), "other bytes sent on another bus");
            if (arduino) PBT_CHECK(c, w.frequency == t2->frequency && !w.clockedOutside && w.open == 0, "another bus worked with other settings");
        }
#ifdef BACKEND_ARDUINO
        if (c.chance(1, 10))
        {
            // nothing to send and nowhere to put what is received
            const auto n = c.uniform(70);
            world::spi = world::Spi();
            t.bus.transfer(nullptr, nullptr, uint16_t(n));
            c.trace("transfer of %d bytes without buffers", int(n));
            PBT_CHECK(c, world::spi.open == 0, "a bus transaction was left open by a transfer without buffers");
        }
#endif
        unsigned kind; // 0 send 1 receive 2 both
        if (arduino) kind = c.chance(1, 8) ? 3 : unsigned(c.uniform(2));
        else if (t.half) kind = unsigned(c.uniform(1));
        else kind = unsigned(c.uniform(2));
        const bool direct = c.chance(1, 4);
        const size_t n = genLength(c, direct && !arduino ? 150000 : 65535);
        const bool inPlace = kind == 2 && c.chance(1, 6);
        Bytes tx(n), rx(n);
        uint8_t salt = c.byte();
        for (size_t i = 0; i < n; ++i) tx.p[i] = uint8_t((i * 40503u >> 7) + salt + i);
        const std::vector<uint8_t> sent(tx.data(), tx.data() + n);
        const int openBefore = world::spi.open;
        world::spi = world::Spi();
        world::spi.open = openBefore;
        fillDevice(n, c.byte());
        world::failAt.clear();
        world::failed.clear();
        world::fallible = 0;
        if (!arduino && c.chance(1, 4)) world::failAt.insert(uint64_t(c.range(0, 40)) % (n / 4092 + 1));
        uint8_t* rxp = inPlace ? tx.data() : rx.data();
        bool ok;
        switch (kind)
        {
            case 0: ok = direct ? t.bus.transfer(tx.data(), nullptr, n) : device.sendSync(tx.data(), uint16_t(n)); break;
            case 1: ok = direct ? t.bus.transfer(nullptr, rxp, n) : device.receiveSync(rxp, uint16_t(n)); break;
#ifdef BACKEND_ARDUINO
            case 3: // the bus's own unconditional sends
                ok = true;
                if (n == 1 && c.boolean()) t.bus.sendByte(tx.p[0]);
                else t.bus.sendBytes(tx.data(), uint16_t(n));
                break;
#endif
            default: ok = direct ? t.bus.transfer(tx.data(), rxp, n) : device.sendAndReceive(tx.data(), rxp, uint16_t(n)); break;
        }
        auto &w = world::spi;
        const bool failed = !world::failed.empty();
        c.trace("%s %zu%s%s -> %s", kind == 0 ? "send" : kind == 1 ? "receive" : kind == 3 ? "plain send" : "exchange", n, t.half ? "" : " full duplex", failed ? " (driver fails)" : "", ok ? "true" : "false");
        PBT_CHECK(c, ok == !failed, "transfer of %zu bytes %s, but returned %s", n, failed ? "failed at the driver" : "was accepted by the driver", ok ? "true" : "false");
        PBT_CHECK(c, failed ? w.out.size() <= n : w.out.size() == n, "%zu bytes were clocked for a transfer of %zu", w.out.size(), n);
        if (failed)
        {
            PBT_CHECK(c, world::fallible - 1 == *world::failAt.begin(), "the transfer went on after the driver failed");
        }
        for (size_t i = 0; i < w.out.size(); ++i)
        {
            if (kind == 1) PBT_CHECK(c, !arduino || w.out[i] == 0xFF, "byte %zu sent while receiving %zu bytes is %02x instead of FF", i, n, w.out[i]);
            else PBT_CHECK(c, w.out[i] == sent[i] && !w.outFiller[i], "byte %zu of %zu was sent as %02x instead of %02x", i, n, w.out[i], sent[i]);
            if (kind == 1 || kind == 2) PBT_CHECK(c, rxp[i] == w.toRead[i], "byte %zu of %zu was received as %02x instead of %02x", i, n, rxp[i], w.toRead[i]);
        }
        if (kind != 0 && !inPlace)
            for (size_t i = kind == 3 ? 0 : w.out.size(); i < n; ++i) PBT_CHECK(c, rxp[i] == 0xA5, "byte %zu of the receive buffer was written, but never received", i);
        if (!inPlace) PBT_CHECK(c, std::equal(sent.begin(), sent.end(), tx.data()), "the data to send was changed");
        for (size_t k: w.chunks) PBT_CHECK(c, arduino || k <= 4092, "a driver transaction of %zu bytes", k);
        PBT_CHECK(c, w.open == 0, "a bus transaction was left open");
        PBT_CHECK(c, w.out.empty() || (w.bus == t.number && !w.mixed), "bytes were moved on bus %d instead of %d", w.bus, t.number);
        if (arduino && kind != 3) PBT_CHECK(c, !w.clockedOutside && w.maxOpen <= 1, "bytes were moved outside a bus transaction");
        if (arduino && n > 0 && kind != 3) PBT_CHECK(c, w.frequency == 4000000, "other bus frequency");
        PBT_CHECK(c, world::spiDriver.misuse.empty(), "driver misuse");
        if (n > 0) ++transfers;
        if (w.chunks.size() > 1) c.label("several driver transactions");
        if (failed) c.label(w.out.empty() ? "failure at the first transaction" : "failure later");
        if (n % 4) c.label("length not a multiple of 4");
    }
    if (transfers) c.nontrivial();
}

// ---- C33 ---------------------------------------------------------------------------------------------------
void c33(Ctx &c)
{
    resetWorld();
#ifdef BACKEND_ARDUINO
    TwoWire wire1(1);
    embedded::I2CBus buses[2] = { embedded::I2CBus(Wire), embedded::I2CBus(wire1) };
#else
    embedded::I2CBus buses[2] = { embedded::I2CBus(0), embedded::I2CBus(1) };
#endif
    const bool twoBuses = c.chance(1, 4);
    const int onlyBus = int(c.uniform(1));
    if (twoBuses) c.label("two buses");
    std::vector<int> busOf;
    const unsigned nDevices = 1 + unsigned(c.uniform(2));
    std::vector<int> addresses;
    std::vector<uint32_t> limits;
    std::vector<embedded::I2CDevice> devices;
    for (unsigned i = 0; i < nDevices; ++i)
    {
        addresses.push_back(int(c.boolean() ? c.flat(8, 0x77, 8) : c.range(1, 127)));
        busOf.push_back(twoBuses ? int(c.uniform(1)) : onlyBus);
        auto &bus = buses[busOf.back()];
        limits.push_back(uint32_t(c.chance(1, 6) ? c.range(0, 60000000) : c.range(0, 1000)));
        if (c.chance(1, 6)) { limits.back() = 200; devices.emplace_back(bus, uint16_t(addresses.back())); }
        else devices.emplace_back(bus, uint16_t(addresses.back()), limits.back());
    }
    auto &w = world::i2c;
    unsigned good = 0, bad = 0;
    while (c.more(5))
    {
        Ctx::Scope s(c);
        // the bus now
        w.present.clear();
        for (int a: addresses) if (c.chance(3, 4)) w.present.insert(a);
        if (c.chance(1, 4)) w.present.insert(int(c.range(0, 127)));
        w.bufferLimit = arduino ? size_t(c.pick({ 128, 32, 255, 16, 1024, 70000 })) : SIZE_MAX;
        const bool longOne = c.chance(1, 12);
        const size_t tn = c.size(longOne ? 65535 : 300), rn = 1 + c.size(longOne ? 65534 : 300);
        w.acceptBytes = c.chance(1, 6) ? c.uniform(tn + 1) : SIZE_MAX;
        w.deliverBytes = c.chance(1, 6) ? c.uniform(rn + 1) : SIZE_MAX;
        w.toRead.resize(rn + 10);
        uint8_t salt = c.byte();
        for (size_t i = 0; i < w.toRead.size(); ++i) w.toRead[i] = uint8_t(i * 5 + salt + (i >> 6));
        world::failAt.clear();
        world::failed.clear();
        world::fallible = 0;
        if (c.chance(1, 5)) world::failAt.insert(c.uniform(2));
        w.log.clear();
        const unsigned k = unsigned(c.uniform(nDevices - 1));
        const int address = addresses[k];
        auto &bus = buses[busOf[k]];
        auto &d = devices[k];
        Bytes tx(tn), rx(rn);
        for (size_t i = 0; i < tn; ++i) tx.p[i] = i < 20 ? c.byte() : uint8_t(i * 11 + salt);
        const std::vector<uint8_t> data(tx.data(), tx.data() + tn);
        // what happened on the bus
        auto sentAll = [&] {
            size_t n = 0;
            for (auto &x: w.log)
            {
                PBT_CHECK(c, x.address == address, "a transfer with device %02x instead of %02x", x.address, address);
                if (x.kind == 'w' && x.ok && x.data == data) ++n;
                if (x.kind == 'w') PBT_CHECK(c, x.data.size() <= data.size() && std::equal(x.data.begin(), x.data.end(), data.begin()), "other bytes on the bus than asked for");
            }
            PBT_CHECK(c, n <= 1, "the data was sent %zu times", n);
            return n == 1;
        };
        auto receivedAll = [&] {
            bool all = false;
            for (auto &x: w.log)
                if (x.kind == 'r') { all = x.ok && x.data.size() == rn; PBT_CHECK(c, x.address == address, "a transfer with device %02x instead of %02x", x.address, address); }
            return all;
        };
        auto stored = [&](bool ok) {
            if (!ok) return;
            for (size_t i = 0; i < rn; ++i) PBT_CHECK(c, rx.p[i] == w.toRead[i], "byte %zu of %zu was received as %02x instead of %02x", i, rn, rx.p[i], w.toRead[i]);
        };
        const char* what = "";
        bool ok = false, expected = false;
        switch (c.oneOf({ 3, 3, 3, 2, 1 }))
        {
            case 0:
                what = "send";
                ok = d.sendSync(tx.data(), uint16_t(tn));
                expected = sentAll();
                PBT_CHECK(c, w.log.empty() || w.log.back().kind == 'w', "a send received");
                break;
            case 1:
                what = "receive";
                ok = d.receiveSync(rx.data(), uint16_t(rn));
                expected = receivedAll();
                for (auto &x: w.log) PBT_CHECK(c, x.kind == 'r', "a receive sent");
                stored(ok);
                break;
            case 2:
            {
                what = "send and receive";
                ok = d.sendThenReceive(tx.data(), uint16_t(tn), rx.data(), uint16_t(rn));
                bool s = sentAll(), r = receivedAll(), readTried = false;
                for (size_t i = 0; i < w.log.size(); ++i)
                    if (w.log[i].kind == 'r') { readTried = true; PBT_CHECK(c, i > 0, "received before sending"); }
                PBT_CHECK(c, s || !readTried, "received although sending failed");
                PBT_CHECK(c, !s || readTried, "did not receive after sending");
                expected = s && r;
                stored(ok);
                break;
            }
            case 3:
#ifndef BACKEND_ARDUINO
            {
                what = "probe";
                const int a = int(c.chance(1, 2) ? address : c.flat(1, 127, 1));
                world::failAt.clear();
                if (c.chance(1, 6)) world::failAt.insert(c.uniform(1));
                const bool before = world::failed.empty();
                const uint64_t injected = world::fallible;
                (void)injected;
                world::fallible = 0;
                ok = bus.testAddress(uint8_t(a));
                expected = w.present.count(a) && world::failed.empty() && before;
                PBT_CHECK(c, w.links == 0, "probing left %d command links behind", w.links);
                for (auto &x: w.log) PBT_CHECK(c, x.address == a && x.kind == 'w' && x.data.empty(), "probing %02x did something else", a);
                PBT_CHECK(c, ok == expected, "probing %02x returned %d, but the device %s", a, ok, expected ? "answers" : "does not answer");
                break;
            }
#endif
            default:
                what = "reset";
                if (c.boolean()) w.present.insert(0);
                bus.resetBus();
                PBT_CHECK(c, w.log.size() == 1 && w.log[0].kind == 'w' && w.log[0].address == 0 && w.log[0].data == std::vector<uint8_t> { 6 }, "resetting the bus caused %zu transfers other than one of byte 06 to address 0", w.log.size());
                break;
        }
        for (auto &x: w.log) PBT_CHECK(c, x.port == busOf[k], "%s on bus %d instead of %d", what, x.port, busOf[k]);
        PBT_CHECK(c, !w.open && (w.log.empty() || w.log.back().stop), "%s left the bus occupied", what);
#ifndef BACKEND_ARDUINO
        if (strcmp(what, "reset") && strcmp(what, "probe"))
            for (auto &x: w.log)
            {
                const int64_t period = int64_t(tickUs / 1000), ms = limits[k];
                PBT_CHECK(c, x.ticks == ms / period || x.ticks == (ms + period - 1) / period, "%s waits up to %" PRId64 " ticks of %" PRId64 " ms instead of %" PRId64 " ms", what, x.ticks, period, ms);
            }
#endif
        c.trace("%s %02x (%s) tx %zu rx %zu accept %zd deliver %zd -> %d", what, address, w.present.count(address) ? "present" : "absent", tn, rn, ssize_t(w.acceptBytes), ssize_t(w.deliverBytes), ok);
        if (strcmp(what, "reset"))
        {
            PBT_CHECK(c, ok == expected, "%s of %zu/%zu bytes with device %02x returned %d, but the transfer %s", what, tn, rn, address, ok, expected ? "was complete" : "was not complete");
            // and nothing stands in the way of this one
            const bool sends = strcmp(what, "send") == 0, receives = strcmp(what, "receive") == 0, both = !sends && !receives && strcmp(what, "probe") != 0;
            const bool free = w.present.count(address) && world::failAt.empty();
            const bool canSend = tn > 0 && tn <= w.bufferLimit && w.acceptBytes >= tn, canReceive = rn <= w.bufferLimit && w.deliverBytes >= rn;
            if (free && ((sends && canSend) || (receives && canReceive) || (both && canSend && canReceive)))
            {
                c.label("nothing stands in the way");
                PBT_CHECK(c, ok, "%s of %zu/%zu bytes failed although device %02x answers and takes and gives them all", what, tn, rn, address);
            }
            ++(ok ? good : bad);
        }
        PBT_CHECK(c, std::equal(data.begin(), data.end(), tx.data()), "the data to send was changed");
    }
    if (good) c.label("success");
    if (bad) c.label("failure");
    if (good + bad >= 2) c.nontrivial();
}

// ---- C34 ---------------------------------------------------------------------------------------------------
using Pin = embedded::GpioDigitalPin;
void checkPinEvents(Ctx &c, size_t from, int pin, const char* what)
{
    for (size_t i = from; i < world::pinEvents.size(); ++i)
        PBT_CHECK(c, world::pinEvents[i].pin == pin, "%s pin %d acted on pin %d", what, pin, world::pinEvents[i].pin);
}
void initPin(Ctx &c, const Pin &p, int pin)
{
    const auto dir = c.boolean() ? Pin::Direction::Input : Pin::Direction::Output;
    const auto pull = c.pick({ Pin::PullMode::None, Pin::PullMode::Up, Pin::PullMode::Down });
    const bool input = dir == Pin::Direction::Input;
    const size_t from = world::pinEvents.size();
    world::failAt.clear();
    world::failed.clear();
    world::fallible = 0;
    if (c.chance(1, 8)) world::failAt.insert(0);
    const bool defaults = c.chance(1, 8);
    const bool ok = defaults ? p.init() : p.init(dir, pull);
    const bool in = defaults ? false : input;
    const int pulls = defaults ? 0 : pull == Pin::PullMode::Up ? 1 : pull == Pin::PullMode::Down ? 2 : 0;
    c.trace("init pin %d %s pull %d -> %d", pin, in ? "input" : "output", pulls, ok);
    checkPinEvents(c, from, pin, "initialising");
    size_t modes = 0;
    const world::PinEvent* e = nullptr;
    for (size_t i = from; i < world::pinEvents.size(); ++i)
        if (world::pinEvents[i].kind == 'm') { ++modes; e = &world::pinEvents[i]; }
#ifdef BACKEND_ARDUINO
    PBT_CHECK(c, ok, "initialising pin %d failed", pin);
    int expected = (in ? INPUT : OUTPUT) | (pulls == 1 ? PULLUP : pulls == 2 ? PULLDOWN : 0);
    PBT_CHECK(c, e && e->value == expected, "pin %d configured with mode %02x instead of %02x", pin, e ? e->value : -1, expected);
#else
    bool expected = GPIO_IS_VALID_GPIO(pin) && (in || GPIO_IS_VALID_OUTPUT_GPIO(pin)) && world::failed.empty();
    PBT_CHECK(c, ok == expected, "initialising pin %d as %s returned %d", pin, in ? "input" : "output", ok);
    PBT_CHECK(c, ok || modes == 0, "a failed initialisation of pin %d configured it", pin);
    if (ok)
    {
        PBT_CHECK(c, e && e->value == (in ? GPIO_MODE_INPUT : GPIO_MODE_OUTPUT) && e->extra == pulls, "pin %d configured with mode %d, pulls %d instead of %d, %d", pin, e ? e->value : -1, e ? e->extra : -1,
                  int(in ? GPIO_MODE_INPUT : GPIO_MODE_OUTPUT), pulls);
        if (e->extra) c.label("pull resistor");
    }
    else c.label("refused pin");
#endif
    (void)modes;
}
// selectors of different pins, nested
void selectors(Ctx &c, std::vector<std::pair<const Pin*, int>> &pins, std::vector<int> &held, unsigned depth)
{
    auto check = [&](const char* when) {
        for (auto &p: pins)
        {
            bool low = std::count(held.begin(), held.end(), p.second) > 0;
            if (low) PBT_CHECK(c, world::pinLatch[p.second] == 0, "pin %d is not low %s its selector lives", p.second, when);
        }
    };
    unsigned rounds = 1 + unsigned(c.uniform(1));
    for (unsigned r = 0; r < rounds; ++r)
    {
        auto &p = pins[c.uniform(pins.size() - 1)];
        if (std::count(held.begin(), held.end(), p.second)) continue;
        if (c.chance(1, 4)) world::pinLevel[p.second] = c.boolean(); // held from outside
        const size_t from = world::pinEvents.size();
        {
            embedded::ChipSelector s(*p.first);
            held.push_back(p.second);
            c.trace("select %d", p.second);
            checkPinEvents(c, from, p.second, "selecting");
            check("while");
            if (depth < 4 && c.chance(2, 3)) selectors(c, pins, held, depth + 1);
            check("as long as");
            held.pop_back();
            if (c.chance(1, 4)) world::pinLevel[p.second] = 1;
        }
        c.trace("deselect %d", p.second);
        PBT_CHECK(c, world::pinLatch[p.second] == 1, "pin %d is not high after its selector ended", p.second);
        check("while");
        if (depth > 0) c.label("nested selectors");
    }
}
void pins(Ctx &c)
{
    resetWorld();
    std::vector<embedded::GpioPinDefinition> defs;
    for (size_t n = 1 + c.uniform(4), i = 0; i < n; ++i)
    {
        int pin = int(arduino || c.chance(1, 3) ? c.range(0, 255) : c.range(0, 33));
        for (auto &d: defs) if (d.pin == pin) pin = -1;
        if (pin >= 0) defs.push_back({ uint8_t(pin) });
    }
    std::vector<Pin> objects;
    for (auto &d: defs) objects.emplace_back(d);
    auto twins = objects; // second objects of the same pins
    unsigned ops = 0;
    auto drivable = [&](int pin) {
#ifdef BACKEND_ARDUINO
        (void)pin;
        return true;
#else
        return GPIO_IS_VALID_OUTPUT_GPIO(pin);
#endif
    };
    while (c.more(12))
    {
        Ctx::Scope s(c);
        const size_t k = c.uniform(defs.size() - 1);
        const int pin = defs[k].pin;
        const size_t from = world::pinEvents.size();
        switch (c.oneOf({ 3, 3, 3, 3, 2 }))
        {
            case 0:
            {
                bool level = c.boolean();
                const unsigned how = unsigned(c.uniform(1));
                const bool twin = c.chance(1, 5);
                if (c.chance(1, 3)) { world::pinLevel[pin] = c.boolean(); c.trace("held %d from outside", world::pinLevel[pin]); }
                c.trace("pin %d %s%s", pin, level ? "high" : "low", twin ? " (second object)" : "");
                auto &o = twin ? twins[k] : objects[k];
                if (how) o.set(level);
                else if (level) o.set();
                else o.reset();
                checkPinEvents(c, from, pin, "writing");
                if (drivable(pin)) PBT_CHECK(c, world::pinLatch[pin] == (level ? 1 : 0), "pin %d is %d after setting it to %d", pin, world::pinLatch[pin], level);
                break;
            }
            case 1:
            {
                bool level = c.boolean();
                world::pinLevel[pin] = level; // from outside
                c.trace("read pin %d (%d)", pin, level);
                PBT_CHECK(c, objects[k].check() == level, "pin %d reads %d instead of %d", pin, !level, level);
                checkPinEvents(c, from, pin, "reading");
                for (size_t i = from; i < world::pinEvents.size(); ++i) PBT_CHECK(c, world::pinEvents[i].kind == 'r', "reading pin %d changed it", pin);
                break;
            }
            case 2: initPin(c, objects[k], pin); break;
            case 3:
            {
                std::vector<std::pair<const Pin*, int>> ps;
                for (size_t i = 0; i < defs.size(); ++i) if (drivable(defs[i].pin)) ps.emplace_back(&objects[i], defs[i].pin);
                std::vector<int> held;
                if (!ps.empty()) selectors(c, ps, held, 0);
                break;
            }
            default:
            {
#ifdef BACKEND_ARDUINO
                world::analog[pin] = int(c.uniform(4095));
                embedded::AnalogPin a(defs[k]);
                int v = a.singleRead();
                c.trace("analog read %d -> %d", pin, v);
                PBT_CHECK(c, v == world::analog[pin], "analog pin %d reads %d instead of %d", pin, v, world::analog[pin]);
#endif
                break;
            }
        }
        ++ops;
    }
    if (ops >= 2) c.nontrivial();
}
#ifndef BACKEND_ARDUINO
void configuration(Ctx &c)
{
    resetWorld();
    for (uint64_t n = c.chance(1, 3) ? 1 : 0, i = 0; i < n; ++i) world::failAt.insert(c.uniform(2));
    switch (c.uniform(2))
    {
        case 0: // UART
        {
            using U = embedded::SimpleUartDevice;
            const int port = int(c.uniform(2)), rx = int(c.range(-1, 39)), tx = int(c.range(-1, 39)), baud = int(c.range(300, 5000000));
            const auto data = c.pick({ U::DataBits::Bits8, U::DataBits::Bits5, U::DataBits::Bits6, U::DataBits::Bits7 });
            const auto parity = c.pick({ U::ParityCheck::None, U::ParityCheck::Even, U::ParityCheck::Odd });
            const auto stop = c.pick({ U::StopBits::Bits1, U::StopBits::Bit1_5, U::StopBits::Bits2 });
            const auto flow = c.pick({ U::FlowControl::Disable, U::FlowControl::RTS, U::FlowControl::CTS, U::FlowControl::RTS_CTS });
            const bool installed = c.chance(1, 6), defaults = c.chance(1, 6);
            world::uarts[port].installed = installed;
            bool ok;
            try { ok = defaults ? U::init(port, rx, tx, baud) : U::init(port, rx, tx, baud, data, parity, stop, flow); }
            catch (world::Aborted &) { ok = false; }
            c.trace("UART %d rx %d tx %d baud %d -> %d", port, rx, tx, baud, ok);
            auto &u = world::uartConfig[port];
            PBT_CHECK(c, ok == world::failed.empty(), "UART initialisation %s although the driver %s", ok ? "succeeded" : "failed", world::failed.empty() ? "accepted everything" : "failed");
            for (int i = 0; i < 4; ++i) if (i != port) PBT_CHECK(c, world::uartConfig[i].sets + world::uartConfig[i].pins + world::uartConfig[i].installs == 0, "another UART was configured");
            if (ok && !installed)
            {
                PBT_CHECK(c, u.installs == 1 && u.sets >= 1 && u.pins >= 1, "the driver was not set up");
                PBT_CHECK(c, u.baud == baud && u.rx == rx && u.tx == tx, "baud %d rx %d tx %d instead of %d %d %d", u.baud, u.rx, u.tx, baud, rx, tx);
                PBT_CHECK(c, u.rts == UART_PIN_NO_CHANGE && u.cts == UART_PIN_NO_CHANGE, "pins for flow control were set");
                PBT_CHECK(c, u.dataBits == (defaults ? UART_DATA_8_BITS : int(data)) && u.parity == (defaults ? UART_PARITY_DISABLE : int(parity)) && u.stopBits == (defaults ? UART_STOP_BITS_1 : int(stop)) &&
                          u.flow == (defaults ? UART_HW_FLOWCTRL_DISABLE : int(flow)), "framing %d/%d/%d/%d instead of %d/%d/%d/%d", u.dataBits, u.parity, u.stopBits, u.flow, int(data), int(parity), int(stop), int(flow));
                // the hardware accepts 1..127 (its FIFO has 128 bytes)
                if (!defaults && flow != U::FlowControl::Disable && flow != U::FlowControl::CTS) PBT_CHECK(c, u.threshold > 0 && u.threshold < 128, "flow control of the receiver with a threshold of %d bytes", u.threshold);
                c.label("UART");
            }
            break;
        }
        case 1: // I2C
        {
            const int port = int(c.uniform(1)), sda = int(c.range(0, 39)), scl = int(c.range(0, 39));
            const uint32_t frequency = uint32_t(c.range(1, c.boolean() ? 1000000 : int64_t(UINT32_MAX)));
            const bool upSda = c.boolean(), upScl = c.boolean(), defaults = c.chance(1, 6);
            embedded::I2CBus bus(port);
            const bool ok = defaults ? bus.init(sda, scl, frequency) : bus.init(sda, scl, frequency, upSda, upScl);
            c.trace("I2C %d sda %d scl %d %u -> %d", port, sda, scl, frequency, ok);
            auto &k = world::i2c.config;
            PBT_CHECK(c, ok == world::failed.empty(), "I2C initialisation %s although the driver %s", ok ? "succeeded" : "failed", world::failed.empty() ? "accepted everything" : "failed");
            if (ok)
            {
                PBT_CHECK(c, k.params >= 1 && k.installs == 1 && k.port == port && k.mode == I2C_MODE_MASTER, "the driver was not set up as master of bus %d", port);
                PBT_CHECK(c, k.sda == sda && k.scl == scl && k.frequency == int64_t(frequency), "sda %d scl %d frequency %lld instead of %d %d %u", k.sda, k.scl, (long long)(k.frequency), sda, scl, frequency);
                PBT_CHECK(c, k.sdaPull == (defaults || upSda) && k.sclPull == (defaults || upScl), "other pull-ups");
                c.label("I2C");
            }
            break;
        }
        default: // SPI
        {
            const int host = 1 + int(c.uniform(1));
            embedded::GpioPinDefinition sck { uint8_t(c.range(0, 39)) }, miso { uint8_t(c.range(0, 39)) }, mosi { uint8_t(c.range(0, 39)) };
            const uint32_t frequency = uint32_t(c.range(1, 80000000));
            const bool half = c.boolean(), defaults = c.chance(1, 6);
            using D = embedded::SpiBus::DuplexMode;
            {
                embedded::SpiBus bus(host);
                const bool ok = defaults ? bus.init(sck, miso, mosi) : bus.init(sck, miso, mosi, frequency, half ? D::Half : D::Full);
                c.trace("SPI %d sck %d miso %d mosi %d %u -> %d", host, sck.pin, miso.pin, mosi.pin, frequency, ok);
                auto &k = world::spiDriver.config;
                PBT_CHECK(c, ok == world::failed.empty(), "SPI initialisation %s although the driver %s", ok ? "succeeded" : "failed", world::failed.empty() ? "accepted everything" : "failed");
                if (ok)
                {
                    PBT_CHECK(c, k.host == host && k.sck == sck.pin && k.miso == miso.pin && k.mosi == mosi.pin, "host %d sck %d miso %d mosi %d instead of %d %d %d %d", k.host, k.sck, k.miso, k.mosi, host, sck.pin, miso.pin, mosi.pin);
                    PBT_CHECK(c, k.frequency == (defaults ? 4000000 : int64_t(frequency)) && k.half == (defaults || half) && k.mode == 0, "frequency %lld, half duplex %d instead of %u, %d", (long long)(k.frequency), k.half, frequency, half);
                    PBT_CHECK(c, k.cs == -1 && k.quadwp == -1 && k.quadhd == -1, "pins that were not given were set: cs %d wp %d hd %d", k.cs, k.quadwp, k.quadhd);
                    c.label("SPI");
                }
            }
            break;
        }
    }
    if (!world::failed.empty()) c.label("driver failure");
    c.nontrivial();
}
#else
void configuration(Ctx &c)
{
    resetWorld();
    const uint32_t frequency = uint32_t(c.range(1, 80000000));
    embedded::SpiBus bus(SPI, frequency);
    uint8_t b[4] = { 1, 2, 3, 4 };
    SPIClass spi2(2);
    embedded::SpiBus bus2(spi2, frequency / 2 + 1);
    if (c.boolean()) bus2.transfer(b, nullptr, 1);
    bus.transfer(b, nullptr, uint16_t(1 + c.uniform(3)));
    c.trace("SPI %u", frequency);
    PBT_CHECK(c, world::spi.frequency == frequency && world::spi.bitOrder == MSBFIRST && world::spi.mode == SPI_MODE0, "bus frequency %u, order %d, mode %d instead of %u, MSB first, mode 0", world::spi.frequency, world::spi.bitOrder,
              world::spi.mode, frequency);
    c.nontrivial();
}
#endif
void c34(Ctx &c)
{
    if (c.oneOf({ 3, 2 }) == 0) pins(c);
    else configuration(c);
}

#ifndef BACKEND_ARDUINO
// ---- C35 ---------------------------------------------------------------------------------------------------
void spiHistory(Ctx &c)
{
    resetWorld();
    auto &w = world::spiDriver;
    embedded::GpioPinDefinition sck { 18 }, miso { 19 }, mosi { 23 };
    const int n = 1 + int(c.uniform(1));
    std::unique_ptr<embedded::SpiBus> bus[2];
    bool up[2] = {}; // as far as the caller knows
    for (int i = 0; i < n; ++i) bus[i].reset(new embedded::SpiBus(1 + i));
    for (uint64_t k = c.uniform(4); k > 0; --k) world::failAt.insert(c.uniform(24));
    const bool driverFailures = !world::failAt.empty();
    unsigned ops = 0;
    bool again = false;
    while (c.more(10) && ops < 500)
    {
        Ctx::Scope s(c);
        const int i = int(c.uniform(uint64_t(n - 1)));
        const int host = 1 + i;
        const size_t failures = world::failed.size();
        auto devices = [&] { int k = 0; for (auto &d: w.pool) k += d.alive && d.host == host; return k; };
        if (!bus[i]) { bus[i].reset(new embedded::SpiBus(host)); up[i] = false; c.trace("new bus %d", host); }
        switch (c.oneOf({ 5, 4, 5, 2 }))
        {
            case 0:
            {
                const bool was = w.busUp[host]; // already initialised, or not yet released
                const bool ok = bus[i]->init(sck, miso, mosi, usualFrequency(c), c.boolean() ? embedded::SpiBus::DuplexMode::Half : embedded::SpiBus::DuplexMode::Full);
                const bool failed = world::failed.size() != failures;
                c.trace("init %d -> %d%s", host, ok, failed ? " (driver fails)" : "");
                if (was)
                {
                    // refused, or done anew; nothing may get lost either way
                    c.label("initialised twice");
                    PBT_CHECK(c, devices() <= 1 && (!ok || (w.busUp[host] && devices() == 1)), "%d devices after initialising twice", devices());
                    up[i] = w.busUp[host] && devices() == 1;
                    break;
                }
                PBT_CHECK(c, ok == !failed, "initialisation returned %d, the driver %s", ok, failed ? "failed" : "accepted everything");
                if (ok) { PBT_CHECK(c, w.busUp[host] && devices() == 1, "nothing allocated after initialisation"); if (ops > 2) again = true; }
                else
                {
                    // what the driver did not let it release may stay
                    bool cleanupFailed = false;
                    for (size_t k = failures; k < world::failed.size(); ++k) if (world::failed[k] == "spi_bus_free" || world::failed[k] == "spi_bus_remove_device") cleanupFailed = true;
                    if (!cleanupFailed) PBT_CHECK(c, !w.busUp[host] && devices() == 0, "a failed initialisation left %s allocated", w.busUp[host] ? "the bus" : "a device");
                    c.label("failed initialisation");
                }
                up[i] = ok;
                break;
            }
            case 1:
            {
                const bool ok = bus[i]->release();
                const bool failed = world::failed.size() != failures;
                c.trace("release %d -> %d%s", host, ok, failed ? " (driver fails)" : "");
                PBT_CHECK(c, !ok || (!w.busUp[host] && devices() == 0), "release reports success, but %s is still allocated", devices() ? "the device" : "the bus");
                PBT_CHECK(c, ok || failed, "release fails although the driver does not");
                if (ok) up[i] = false;
                else c.label("failed release");
                if (failed) up[i] = up[i] && devices() > 0;
                break;
            }
            case 2:
            {
                uint8_t data[8] = {};
                const bool ready = w.busUp[host] && devices() > 0;
                const bool ok = bus[i]->transfer(data, nullptr, uint32_t(1 + c.uniform(7)));
                const bool failed = world::failed.size() != failures;
                c.trace("transfer %d -> %d%s", host, ok, failed ? " (driver fails)" : "");
                PBT_CHECK(c, ok == (ready && !failed), "a transfer on a bus that is %s returned %d", ready ? "initialised" : "not initialised", ok);
                break;
            }
            default:
            {
                bus[i].reset();
                const bool failed = world::failed.size() != failures;
                c.trace("destroy %d%s", host, failed ? " (driver fails)" : "");
                if (!failed) PBT_CHECK(c, !w.busUp[host] && devices() == 0, "destruction left %s allocated", devices() ? "the device" : "the bus");
                break;
            }
        }
        if (!w.misuse.empty()) c.fail("%s", w.misuse[0].c_str());
        ++ops;
        // what was abandoned because the driver failed during destruction
        if (!bus[i]) { for (auto &d: w.pool) if (d.host == host) d.alive = false; w.busUp[host] = false; }
    }
    for (int i = 0; i < n; ++i)
    {
        if (!bus[i]) continue;
        world::failAt.clear();
        bus[i].reset();
        int k = 0;
        for (auto &d: w.pool) k += d.alive && d.host == 1 + i;
        PBT_CHECK(c, !w.busUp[1 + i] && k == 0, "destruction left %s allocated", k ? "the device" : "the bus");
    }
    if (!w.misuse.empty()) c.fail("%s", w.misuse[0].c_str());
    if (again) c.label("initialised again after release");
    if (driverFailures) c.label("driver failures");
    if (ops >= 3) c.nontrivial();
}
void analogHistory(Ctx &c)
{
    resetWorld();
    for (uint64_t k = c.uniform(2); k > 0; --k) world::failAt.insert(c.uniform(15));
    unsigned reads = 0;
    while (c.more(8))
    {
        Ctx::Scope s(c);
        int pin = int(c.chance(2, 3) ? c.range(0, 39) : c.range(0, 255));
        int unit = -1, channel = -1;
        for (int u = 0; u < SOC_ADC_PERIPH_NUM; ++u)
            for (int k = 0; k < SOC_ADC_MAX_CHANNEL_NUM; ++k)
                if (adc_channel_io_map[u][k] == pin) { unit = u; channel = k; }
        for (auto &u: world::adc.value) for (int &v: u) v = 77777;
        const int value = int(c.uniform(4095));
        if (unit >= 0) world::adc.value[unit][channel] = value;
        const size_t failures = world::failed.size();
        embedded::GpioPinDefinition def { uint8_t(pin) };
        const embedded::AnalogPin a(def);
        const int got = a.singleRead();
        const bool failed = world::failed.size() != failures;
        const int expected = unit < 0 || failed ? -1 : value;
        c.trace("read pin %d (%d)%s -> %d", pin, value, failed ? " (driver fails)" : "", got);
        PBT_CHECK(c, got == expected, "reading analog pin %d%s returned %d instead of %d", pin, failed ? " with a driver error" : "", got, expected);
        PBT_CHECK(c, !world::adc.claimed[0] && !world::adc.claimed[1], "reading analog pin %d left the converter unit allocated", pin);
        PBT_CHECK(c, world::adc.wrongUse == 0, "a converter unit was used without being allocated");
        if (unit >= 0) ++reads;
        else c.label("pin without a converter");
        if (failed) c.label("converter failure");
    }
    if (reads >= 2) { c.nontrivial(); c.label("repeated analog reads"); }
}
void c35(Ctx &c)
{
    if (c.oneOf({ 2, 1 }) == 0) spiHistory(c);
    else analogHistory(c);
}
#endif

// ---- C36 ---------------------------------------------------------------------------------------------------
uint64_t earlier = 0; // the end of an earlier call of the same case
uint64_t genUptime(Ctx &c)
{
    if (earlier) return earlier + uint64_t(c.range(0, 10000000));
    const uint64_t wrap = 4294967296ull;
    switch (c.oneOf({ 2, 4, 3, 2 }))
    {
        case 0: return 1000 + uint64_t(c.range(0, 1000000000));
        case 1: return wrap * 1000 * uint64_t(c.range(1, 4)) - uint64_t(c.range(0, c.boolean() ? 3000 : 3000000));
        case 2: return wrap * uint64_t(c.range(1, 9)) - uint64_t(c.range(0, 30000));
        default: return uint64_t(c.range(0, int64_t(1) << 62));
    }
}
void ticks(Ctx &c)
{
    for (int i = 0; i < 3; ++i)
    {
        world::nowUs = genUptime(c);
        world::stepUs = 1 + uint64_t(c.range(0, 3000));
        uint64_t before = world::nowUs;
        uint64_t us = embedded::getMicrosecondTicks();
        uint64_t after = world::nowUs;
        c.trace("clock %" PRIu64 " us", before);
        if (arduino) PBT_CHECK(c, uint32_t(us - before) <= after - before && us <= UINT32_MAX, "microsecond ticks %" PRIu64 " at %" PRIu64, us, before);
        else PBT_CHECK(c, us >= before && us <= after, "microsecond ticks %" PRIu64 " at %" PRIu64, us, before);
        before = world::nowUs;
        uint32_t ms = embedded::getMillisecondTicks();
        after = world::nowUs;
        PBT_CHECK(c, uint64_t(uint32_t(ms - uint32_t(before / 1000))) <= after / 1000 - before / 1000, "millisecond ticks %u at %" PRIu64 " us", ms, before);
    }
    c.label("ticks");
    c.nontrivial();
}
void plainDelay(Ctx &c)
{
    world::nowUs = genUptime(c) % (1ull << 50);
    const uint32_t ms = uint32_t(c.oneOf({ 3, 1 }) == 0 ? c.range(0, 5000) : c.range(0, int64_t(UINT32_MAX)));
    c.trace("delay(%u)", ms);
    embedded::delay(ms);
    uint64_t sum = 0;
#ifdef BACKEND_ARDUINO
    for (auto d: world::delays) sum += d;
    PBT_CHECK(c, sum == ms, "delay(%u) waited %" PRIu64 " ms", ms, sum);
    const uint32_t us = uint32_t(c.range(0, int64_t(UINT32_MAX)));
    c.trace("delayMicroseconds(%u)", us);
    embedded::delayMicroseconds(us);
    sum = 0;
    for (auto d: world::delaysUs) sum += d;
    PBT_CHECK(c, sum == us, "delayMicroseconds(%u) waited %" PRIu64 " us", us, sum);
#else
    for (auto d: world::taskDelays) sum += d;
    const uint64_t period = tickUs / 1000;
    PBT_CHECK(c, sum == ms / period || sum == (ms + period - 1) / period, "delay(%u) waited %" PRIu64 " ticks of %" PRIu64 " ms", ms, sum, period);
#endif
    c.label("delay");
    if (ms > 0) c.nontrivial();
}
#if !defined(BACKEND_ARDUINO) && PROP == 36
uint64_t genPreemptions(Ctx &c, int64_t longest, uint64_t among)
{
    uint64_t sum = 0;
    for (uint64_t n = c.uniform(4), i = 0; i < n; ++i)
    {
        uint64_t d = uint64_t(c.range(0, longest));
        world::preempt[1 + uint64_t(c.range(0, int64_t(among)))] += d;
        sum += d;
    }
    return sum;
}
void delayUs(Ctx &c)
{
    world::nowUs = genUptime(c);
    world::stepUs = 1 + uint64_t(c.range(0, 50));
    const bool longOne = c.chance(1, 8);
    const uint32_t us = uint32_t(longOne ? c.range(0, int64_t(UINT32_MAX)) : c.range(0, 20000));
    if (longOne) world::stepUs = 1 + us / 2000 + uint64_t(c.range(0, 50));
    const uint64_t preempted = genPreemptions(c, 100000, 20);
    const uint64_t start = world::nowUs;
    c.trace("delayMicroseconds(%u) at %" PRIu64, us, start);
    try { embedded::delayMicroseconds(us); }
    catch (world::Stuck &) { c.fail("delayMicroseconds(%u) at %" PRIu64 " us does not end", us, start); }
    const uint64_t took = world::nowUs - start;
    PBT_CHECK(c, took >= us, "delayMicroseconds(%u) took %" PRIu64 " us", us, took);
    PBT_CHECK(c, took <= us + preempted + 20 * world::stepUs, "delayMicroseconds(%u) took %" PRIu64 " us (%" PRIu64 " us of it preempted)", us, took, preempted);
    c.label("microsecond delay");
    if (us > 10) c.nontrivial();
}
void lightSleep(Ctx &c)
{
    world::nowUs = genUptime(c) % (1ull << 61);
    world::stepUs = 1 + uint64_t(c.range(0, 400));
    const uint32_t ms = uint32_t(c.oneOf({ 5, 2 }) == 0 ? c.range(0, 3000) : c.range(0, int64_t(UINT32_MAX)));
    const uint64_t preempted = genPreemptions(c, c.boolean() ? 3000 : 3000000, 12);
    for (uint64_t n = c.uniform(3), i = 0; i < n; ++i) world::failAt.insert(c.uniform(5));
    if (c.chance(1, 10)) for (int i = 0; i < 1000; ++i) world::failAt.insert(uint64_t(i)); // sleeping is not possible at all
    for (uint64_t n = c.uniform(2), i = 0; i < n; ++i) world::sleep.early.insert(c.uniform(5));
    const uint64_t start = world::nowUs;
    c.trace("ligntSleep(%u) at %" PRIu64 " us, %zu failing, step %" PRIu64, ms, start, world::failAt.size(), world::stepUs);
    for (auto &p: world::preempt) c.trace("preempted %" PRIu64 " us before call %" PRIu64, p.second, p.first);
    world::maxCalls = 400000;
    try { embedded::ligntSleep(ms); }
    catch (world::Stuck &) { c.fail("ligntSleep(%u) at %" PRIu64 " us does not end", ms, start); }
    const uint64_t end = world::nowUs;
    PBT_CHECK(c, end / 1000 - start / 1000 >= ms, "ligntSleep(%u) at %" PRIu64 " us returned after %" PRIu64 " us", ms, start, end - start);
    const uint64_t latest = start + ms * 1000ull + 1000 + preempted + 40 * world::stepUs;
    for (size_t i = 0; i < world::sleep.ends.size(); ++i)
        PBT_CHECK(c, world::sleep.ends[i] <= latest, "ligntSleep(%u): sleep %zu was programmed to end %" PRIu64 " us after the start (%" PRIu64 " us preempted)", ms, i, world::sleep.ends[i] - start, preempted);
    PBT_CHECK(c, end <= latest + tickUs + 20 * world::stepUs, "ligntSleep(%u) took %" PRIu64 " us (%" PRIu64 " us of it preempted)", ms, end - start, preempted);
    c.label("light sleep");
    if (world::sleep.failures) c.label("sleep request failed");
    if (uint32_t(start / 1000) > uint32_t(end / 1000)) c.label("millisecond counter wraps during sleep");
    if (ms > 0) c.nontrivial();
}
void deepSleepCase(Ctx &c)
{
    world::nowUs = genUptime(c) % (1ull << 61);
    const uint32_t ms = uint32_t(c.range(0, int64_t(UINT32_MAX)));
    c.trace("deepSleep(%u)", ms);
    try { embedded::deepSleep(ms); }
    catch (world::DeepSleep &d)
    {
        PBT_CHECK(c, d.us == ms * 1000ull, "deepSleep(%u) programs %" PRIu64 " us", ms, d.us);
        c.label("deep sleep");
        c.nontrivial();
        return;
    }
    c.fail("deepSleep(%u) did not sleep", ms);
}
#endif
void c36Step(Ctx &c)
{
    resetWorld();
    switch (c.oneOf({ 1, 1, 3, 5, 1 }))
    {
        case 0: ticks(c); break;
        case 1: plainDelay(c); break;
#if !defined(BACKEND_ARDUINO) && PROP == 36
        case 2: delayUs(c); break;
        case 3: lightSleep(c); break;
        default: deepSleepCase(c); break;
#else
        case 2: case 3: ticks(c); break;
        default: plainDelay(c); break;
#endif
    }
}
void c36(Ctx &c)
{
    earlier = 0;
    c36Step(c);
    for (unsigned n = c.chance(1, 4) ? 1 + unsigned(c.uniform(2)) : 0; n > 0 && world::nowUs < 1ull << 49; --n)
    {
        Ctx::Scope s(c);
        c.label("several waits");
        earlier = world::nowUs;
        c36Step(c);
    }
}
} // namespace

namespace pbt
{
const std::vector<Property> &properties()
{
    static const std::vector<Property> p {
#if PROP == 29
        { "C29", c29, 18000, 200000, "a history in which at least two receive calls return bytes" },
#elif PROP == 30
        { "C30", c30, 16000, 150000, "a receive call with a positive timeout and bytes arriving before, during or after it" },
#elif PROP == 31
        { "C31", c31, 12000, 200000, "at least two messages sent, with content" },
#elif PROP == 32
        { "C32", c32, 7500, 150000, "a history with at least one transfer of one byte or more" },
#elif PROP == 33
        { "C33", c33, 24000, 300000, "a history of at least two transfers or probes" },
#elif PROP == 34
        { "C34", c34, 40000, 400000, "a history of at least two pin operations, or one driver configuration" },
#elif PROP == 35
        { "C35", c35, 60000, 400000, "an SPI history of at least three operations, or at least two analog reads of converter pins" },
#else
        { "C36", c36, 32000, 300000, "a wait or sleep of positive duration, or clock readings" },
#endif
    };
    return p;
}
}
