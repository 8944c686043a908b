// C38: objects do not influence each other. Histories of several objects are run one object after the other, in the
// opposite order, interleaved step by step, and (variants built with ThreadSanitizer) each on a thread of its own.
#include "pbt.h"
#include <memory>
#include <thread>
#include "BufferedOut.h"
#include "MemoryView.h"
#include "EndianConversion.h"
#if defined(BACKEND_ARDUINO) || defined(BACKEND_ESP)
#define BACKEND 1
#include "world.h"
#include "Delays.h"
#include "PacketUart.h"
#include "PacketUartImpl.h"
#include "SerialOut.h"
#include "SpiBus.h"
#include "SpiDevice.h"
#include "I2CBus.h"
#include "I2CDevice.h"
#include "GpioPinDefinition.h"
#include "GpioDigitalPin.h"
#include "AnalogPin.h"
#ifdef BACKEND_ARDUINO
#include <Arduino.h>
#include <Wire.h>
#include <SPI.h>
#else
#include <driver/uart.h>
#include <driver/i2c.h>
#include <soc/adc_periph.h>
#endif
#else
#include "PersistentStorage.h"
#include "graphics/SimpleFrameBuffer.h"
#include "graphics/Canvas.h"
#include "graphics/EmbeddedFont.h"
#include "graphics/EmbeddedFonts.h"
#include "GFXFontsAdapter.h"
#include "BitStream.h"
#include "EncodingConverter.h"
#endif

#if defined(__SANITIZE_THREAD__)
#define THREADS 1
#include <atomic>
#include <sanitizer/common_interface_defs.h>
extern "C" int __tsan_get_report_data(void* report, const char** description, int* count, int* stack_count, int* mop_count, int* loc_count, int* mutex_count, int* thread_count, int* unique_tid_count,
                                      void** sleep_trace, unsigned long trace_size);
extern "C" int __tsan_get_report_mop(void* report, unsigned long idx, int* tid, void** addr, int* size, int* write, int* atomic, void** trace, unsigned long trace_size);
extern "C" void __sanitizer_symbolize_pc(void* pc, const char* fmt, char* out, size_t size);
static std::atomic<int> races { 0 };
static char raceText[1500];
extern "C" __attribute__((no_sanitize("thread"))) void __tsan_on_report(void* report)
{
    if (races++ != 0) return;
    const char* what = "";
    int count = 0, n[7] = {}, mops = 0;
    void* sleep[1] = {};
    __tsan_get_report_data(report, &what, &count, &n[0], &mops, &n[1], &n[2], &n[3], &n[4], sleep, 1);
    snprintf(raceText, sizeof raceText, "%s", what);
    for (int i = 0; i < mops && i < 2; ++i)
    {
        int tid = 0, size = 0, write = 0, atomic = 0;
        void* addr = nullptr;
        void* trace[8] = {};
        if (!__tsan_get_report_mop(report, unsigned(i), &tid, &addr, &size, &write, &atomic, trace, 8)) continue;
        for (int k = 0; k < 3 && trace[k]; ++k)
        {
            char where[300];
            __sanitizer_symbolize_pc(trace[k], "%f %S", where, sizeof where);
            const size_t used = strlen(raceText);
            snprintf(raceText + used, sizeof raceText - used, "%s %s", k ? " <-" : write ? "; a write in" : "; a read in", where);
        }
    }
}
extern "C" const char* __tsan_default_options() { return "suppress_equal_stacks=0:suppress_equal_addresses=0:exitcode=0:halt_on_error=0:report_signal_unsafe=0:log_path=/dev/null"; }
#endif

using namespace pbt;
using namespace embedded;

namespace
{
struct Step { int k = 0; int64_t a = 0, b = 0, c = 0, d = 0; std::string s; };

std::string hashed(const void* p, size_t n)
{
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < n; ++i) h = (h ^ static_cast<const uint8_t*>(p)[i]) * 1099511628211ull;
    char b[60];
    snprintf(b, sizeof b, "%zu bytes with hash %016" PRIx64, n, h);
    return b;
}
std::string shown(const void* p, size_t n)
{
    return n <= 60 ? show({ static_cast<const char*>(p), n }) : hashed(p, n);
}
template<typename... A> std::string format(const char* f, A... a)
{
    char b[200];
    snprintf(b, sizeof b, f, a...);
    return b;
}

// An object with all it needs; step() returns what can be observed.
struct Runner
{
    virtual ~Runner() = default;
    virtual std::string step(const Step &s) = 0;
};
struct Actor
{
    const char* what = "";
    std::vector<Step> steps;
    std::function<std::unique_ptr<Runner>()> make;
};

// ---- formatted output ------------------------------------------------------------------------------
struct OutRunner : Runner
{
    explicit OutRunner(size_t cap) : mem(cap), out(MemoryView<char>(reinterpret_cast<char*>(mem.data()), cap)) {}
    std::string step(const Step &s) override
    {
        switch (s.k)
        {
            case 0: out << std::string_view(s.s); break;
            case 1: out << s.s.c_str(); break;
            case 2: out << int(s.a); break;
            case 3: out << (unsigned long long)(s.a); break;
            case 4: out << (long long)(s.a); break;
            case 5: out << float(s.a) / 256.f; break;
            case 6: out << (unsigned char)(s.a); break;
            case 7: out << ConstBytesView(reinterpret_cast<const uint8_t*>(s.s.data()), s.s.size()); break;
            case 8: out << BufferedOut::width { int(s.b) } << int(s.a); break;
            case 9: out << BufferedOut::width { int(s.b) }; break;
            case 10: out << BufferedOut::fill { char(s.a) }; break;
            case 11: out << BufferedOut::precision { int(s.b) }; break;
            case 12: out.clear(); break;
            default: out << char(s.a); break;
        }
        auto v = out.asStringView();
        return shown(v.data(), v.size());
    }
    GuardedBuf mem;
    BufferedOut out;
};
Actor genOut(Ctx &c)
{
    const size_t cap = c.size(120);
    Actor a { "formatted output", {}, [=] { return std::make_unique<OutRunner>(cap); } };
    c.trace("formatted output of %zu characters", cap);
    while (c.more(7))
    {
        Ctx::Scope s(c);
        Step x;
        x.k = int(c.uniform(13));
        if (x.k <= 1 || x.k == 7) { x.s = c.bulk(c.size(40)); if (x.k == 1) std::replace(x.s.begin(), x.s.end(), char(0), '0'); }
        else
        {
            x.a = x.k == 3 || x.k == 4 ? int64_t(c.bits64()) : c.around(INT32_MIN, INT32_MAX, 0);
            if (x.k == 5) x.a %= 1 << 22;
            x.b = c.range(0, 30);
        }
        c.trace("%d(%" PRId64 ",%" PRId64 ",%zu)", x.k, x.a, x.b, x.s.size());
        a.steps.push_back(x);
    }
    return a;
}

// ---- views and byte order --------------------------------------------------------------------------
struct ViewRunner : Runner
{
    explicit ViewRunner(std::string d) : data(std::move(d)) {}
    std::string step(const Step &s) override
    {
        ConstBytesView v(reinterpret_cast<const uint8_t*>(data.data()), data.size());
        auto sub = s.k == 0 ? v.subspan(size_t(s.a), size_t(s.b)) : s.k == 1 ? v.first(size_t(s.a)) : v.last(size_t(s.a));
        uint32_t w = uint32_t(s.c);
        changeEndianess16x2(&w);
        return format("%td+%zu %08x %08x %04x", sub.size() ? sub.begin() - v.begin() : 0, size_t(sub.size()), w, changeEndianess(uint32_t(s.c)), changeEndianess(uint16_t(s.c)));
    }
    std::string data;
};
Actor genView(Ctx &c)
{
    auto d = c.bulk(c.size(50));
    Actor a { "view", {}, [=] { return std::make_unique<ViewRunner>(d); } };
    c.trace("view of %zu bytes", d.size());
    while (c.more(5))
    {
        Ctx::Scope s(c);
        Step x;
        x.k = int(c.uniform(2));
        x.a = c.range(0, int64_t(d.size()));
        x.b = c.range(0, 60);
        x.c = c.bits32();
        c.trace("%d(%" PRId64 ",%" PRId64 ")", x.k, x.a, x.b);
        a.steps.push_back(x);
    }
    return a;
}

#ifndef BACKEND
// ---- storage ---------------------------------------------------------------------------------------
template<size_t N> struct Blob { uint8_t b[N]; };
struct StorageRunner : Runner
{
    explicit StorageRunner(size_t n) : mem(n), size(n), st(std::make_unique<PersistentStorage>(BytesView(mem.data(), n))) {}
    template<typename T> std::string one(const Step &s)
    {
        if (s.a == 0)
        {
            T v;
            memset(&v, int(s.b & 0x3F), sizeof v);
            return st->set(s.s, v) ? "stored" : "refused";
        }
        auto r = st->get<T>(s.s);
        return r ? shown(&*r, sizeof *r) : "nothing";
    }
    std::string step(const Step &s) override
    {
        switch (s.k)
        {
            case 0: return one<uint8_t>(s);
            case 1: return one<uint32_t>(s);
            case 2: return one<Blob<13>>(s);
            case 3: return one<Blob<40>>(s);
            default:
                st = std::make_unique<PersistentStorage>(BytesView(mem.data(), size), s.k == 5);
                return "attached";
        }
    }
    GuardedBuf mem;
    size_t size;
    std::unique_ptr<PersistentStorage> st;
};
Actor genStorage(Ctx &c)
{
    const size_t n = c.oneOf({ 3, 1 }) == 0 ? size_t(c.range(20, 300)) : c.size(60);
    Actor a { "storage", {}, [=] { return std::make_unique<StorageRunner>(n); } };
    c.trace("storage of %zu bytes", n);
    while (c.more(8))
    {
        Ctx::Scope s(c);
        Step x;
        x.k = int(c.oneOf({ 4, 4, 4, 2, 2, 1 }));
        x.a = c.boolean();
        x.b = c.byte();
        x.s = c.pick<const char*>({ "a", "b", "ab", "abcd", "abce", "", "toolong" });
        c.trace("%s %s %d (%d)", x.k > 3 ? "attach" : x.a ? "get" : "set", x.s.c_str(), x.k, int(x.b));
        a.steps.push_back(x);
    }
    return a;
}

// ---- drawing and fonts -----------------------------------------------------------------------------
struct SharedFont
{
    std::vector<uint8_t> bits;
    std::vector<fonts::GlyphDescriptor> glyphs;
    fonts::FontDescriptor descriptor;
    std::unique_ptr<const fonts::EmbeddedFont> font;
};
std::shared_ptr<SharedFont> genFont(Ctx &c)
{
    auto f = std::make_shared<SharedFont>();
    const int first = int(c.range(0x20, 0x7E)), last = int(c.range(first, c.boolean() ? 0xFF : 0x7E));
    const uint64_t seed = c.uniform(UINT32_MAX);
    uint64_t x = seed;
    for (int code = first; code <= last; ++code)
    {
        if (code > 0x7E && code < 0xA0) continue;
        const uint64_t r = splitmix(x);
        const uint8_t w = r % 12, h = (r >> 8) % 14;
        f->glyphs.push_back({ uint16_t(f->bits.size()), { w, h }, uint8_t((r >> 16) % 14), { int8_t(int(r >> 24) % 4), int8_t(-int((r >> 32) % 12)) } });
        for (int i = 0; i < (w * h + 7) / 8; ++i) f->bits.push_back(uint8_t(splitmix(x)));
    }
    f->bits.push_back(0);
    f->descriptor = { ConstBytesView(f->bits.data(), f->bits.size() - 1), MemoryView<const fonts::GlyphDescriptor>(f->glyphs.data(), f->glyphs.size()), uint8_t(first), uint8_t(last), 10 };
    f->font = std::make_unique<const fonts::EmbeddedFont>(f->descriptor);
    c.trace("font 0x%02x..0x%02x #%" PRIu64, first, last, seed);
    return f;
}
using Fonts = std::vector<std::shared_ptr<SharedFont>>;
std::string bounds(const fonts::EmbeddedFont &font, std::string_view text)
{
    auto r = font.getTextBounds(text);
    return format("%d,%d %dx%d", r.topLeft.x, r.topLeft.y, r.size.width, r.size.height);
}
template<int w, int h, int depth> struct DrawRunner : Runner
{
    explicit DrawRunner(Fonts f) : fonts(std::move(f)), canvas(buffer) { canvas.clear(0); }
    std::string step(const Step &s) override
    {
        const Canvas::Point p { int(s.a), int(s.b) };
        const Canvas::Size z { int(s.c), int(s.d) };
        const auto &font = s.s.empty() || s.s[0] % 4 == 0 ? embedded::fonts::FreeSans15pt : *fonts[size_t(s.s[0] % 4) % fonts.size()]->font;
        int r = 0;
        switch (s.k)
        {
            case 0: canvas.drawPixel(p); break;
            case 1: canvas.drawLine(p, p + z); break;
            case 2: canvas.drawRectangle({ p, z }); break;
            case 3: canvas.drawFilledRectangle({ p, z }); break;
            case 4: canvas.drawCircle(p, std::abs(int(s.c)), s.d > 0); break;
            case 5: canvas.setColor(uint32_t(s.a)); break;
            case 6: canvas.clear(uint32_t(s.a)); break;
            case 7: canvas.setRotation(Canvas::Rotation(s.a & 3)); break;
            case 8: r = canvas.drawCharAt(p, char(s.c), font); break;
            case 9: canvas.drawStringAt(p, s.s, font); break;
            default: buffer.drawPixel(int(uint64_t(s.a) % w), int(uint64_t(s.b) % h), uint32_t(s.c)); break;
        }
        auto image = canvas.getImage();
        return format("%d, %dx%d, ", r, canvas.getSize().width, canvas.getSize().height) + hashed(image.begin(), image.size());
    }
    Fonts fonts;
    SimpleFrameBuffer<w, h, depth> buffer;
    Canvas canvas;
};
template<int w, int h, int depth> Actor draw(Fonts f)
{
    return { "canvas", {}, [=] { return std::make_unique<DrawRunner<w, h, depth>>(f); } };
}
Actor genDraw(Ctx &c, const Fonts &f)
{
    Actor a;
    switch (c.oneOf({ 4, 2, 2, 1, 1 }))
    {
        case 0: a = draw<32, 24, 1>(f); break;
        case 1: a = draw<16, 30, 1>(f); break;
        case 2: a = draw<20, 20, 16>(f); break;
        case 3: a = draw<24, 12, 4>(f); break;
        default: a = draw<12, 12, 32>(f); break;
    }
    c.trace("canvas");
    while (c.more(7))
    {
        Ctx::Scope s(c);
        Step x;
        x.k = int(c.uniform(10));
        x.a = x.k == 5 || x.k == 6 ? int64_t(c.bits32()) : c.around(-20, 40, 5);
        x.b = c.around(-20, 40, 5);
        x.c = c.around(-30, 40, 3);
        x.d = c.around(-30, 40, 3);
        x.s = x.k >= 8 ? c.bulk(1 + c.uniform(5)) : "";
        c.trace("%d(%" PRId64 ",%" PRId64 ",%" PRId64 ",%" PRId64 ",%s)", x.k, x.a, x.b, x.c, x.d, show(x.s).c_str());
        a.steps.push_back(x);
    }
    return a;
}
struct FontRunner : Runner
{
    explicit FontRunner(std::shared_ptr<SharedFont> f, bool shared) : f(f), own(f->descriptor), font(shared ? *f->font : own) {}
    std::string step(const Step &s) override
    {
        if (s.k == 0) return bounds(font, s.s);
        const auto g = font.getBitmap(char(s.a));
        return format("at %td, %zu bytes, %dx%d %d,%d %d", g.bitmap.size() ? g.bitmap.begin() - f->bits.data() : 0, size_t(g.bitmap.size()), g.effectiveSize.width, g.effectiveSize.height, g.offset.width, g.offset.height, g.width);
    }
    std::shared_ptr<SharedFont> f;
    fonts::EmbeddedFont own;
    const fonts::EmbeddedFont &font;
};
Actor genFontUse(Ctx &c, const Fonts &fs)
{
    auto f = c.pick(fs);
    const bool shared = c.boolean();
    Actor a { "font", {}, [=] { return std::make_unique<FontRunner>(f, shared); } };
    c.trace("%sfont", shared ? "shared " : "");
    while (c.more(6))
    {
        Ctx::Scope s(c);
        Step x;
        x.k = c.boolean();
        x.a = c.byte();
        x.s = x.k == 0 ? c.bulk(c.size(12)) : "";
        c.trace("%d %d %s", x.k, int(x.a), show(x.s).c_str());
        a.steps.push_back(x);
    }
    return a;
}

// ---- the parts of the converter --------------------------------------------------------------------
struct Sink
{
    std::string bytes;
    Sink &operator<<(uint8_t b) { bytes += char(b); return *this; }
};
struct BitRunner : Runner
{
    BitRunner() : bits(sink) {}
    std::string step(const Step &s) override
    {
        if (s.k == 0) for (int i = 0; i < s.b; ++i) bits << bool(s.a >> i & 1);
        else if (s.k == 1) bits << uint8_t(s.a);
        else bits.flush();
        return shown(sink.bytes.data(), sink.bytes.size());
    }
    Sink sink;
    BitStream<Sink> bits;
};
Actor genBits(Ctx &c)
{
    Actor a { "bit stream", {}, [] { return std::make_unique<BitRunner>(); } };
    c.trace("bit stream");
    while (c.more(8))
    {
        Ctx::Scope s(c);
        Step x;
        x.k = int(c.oneOf({ 4, 2, 1 }));
        x.a = int64_t(c.uniform(65535));
        x.b = c.range(1, 13);
        c.trace("%d(%" PRId64 ",%" PRId64 ")", x.k, x.a, x.b);
        a.steps.push_back(x);
    }
    return a;
}
struct EncodingRunner : Runner
{
    EncodingRunner(const char* page, const char* to) : converter(page, to) {}
    std::string step(const Step &s) override
    {
        if (s.k == 0) return format("%x", converter.convertRaw(char(s.a)));
        auto r = converter.convert(char(s.a));
        return shown(r.data(), r.size());
    }
    EncodingConverter converter;
};
Actor genEncoding(Ctx &c)
{
    const char* page = c.pick<const char*>({ "ISO-8859-1", "CP1251", "KOI8-R", "CP1252", "CP1255", "ISO-8859-8", "UTF-8", "CP437" });
    const bool raw = c.boolean();
    Actor a { "converter", {}, [=] { return std::make_unique<EncodingRunner>(page, raw ? "UCS-4LE" : "UTF-8"); } };
    c.trace("converter from %s to %s", page, raw ? "UCS-4LE" : "UTF-8");
    while (c.more(6))
    {
        Ctx::Scope s(c);
        Step x;
        x.k = raw ? 0 : 1;
        x.a = c.byte();
        c.trace("%02x", unsigned(x.a));
        a.steps.push_back(x);
    }
    return a;
}

constexpr size_t kinds = 7;
Actor genActor(Ctx &c, size_t kind, const Fonts &fonts)
{
    switch (kind)
    {
        case 0: return genOut(c);
        case 1: return genDraw(c, fonts);
        case 2: return genStorage(c);
        case 3: return genFontUse(c, fonts);
        case 4: return genBits(c);
#ifndef THREADS // glibc's own locks are unknown to ThreadSanitizer
        case 5: return genEncoding(c);
#endif
        default: return genView(c);
    }
}
void prepare() {}
#else
// ---- the back ends: every object has a device of its own ------------------------------------------
struct UartRunner : Runner
{
    UartRunner(int port, const std::string &in, size_t cap) : port(port), device(port), uart(device), text(cap + 1), out(MemoryView<char>(text.data(), cap), uart)
    {
        auto &w = world::uarts[port];
        w = world::Uart();
        for (char b: in) w.rx.push_back({ 0, uint8_t(b) });
        w.installed = true;
    }
    std::string step(const Step &s) override
    {
        std::vector<uint8_t> b(400, 0xDD);
        auto &w = world::uarts[port];
        w.tx.clear();
        const auto n = uint16_t(s.a);
        uint16_t r = 0;
        switch (s.k)
        {
            case 0: r = uart.Receive(b.data(), n, uint16_t(s.b)); break;
            case 1: r = uart.ReceiveUntil(b.data(), n, uint8_t(s.c), uint16_t(s.b)); break;
            case 2: r = uart.ReceiveBetween(b.data(), n, uint8_t(s.d), uint8_t(s.c), uint16_t(s.b)); break;
            case 3: r = uart.Send(reinterpret_cast<const uint8_t*>(s.s.data()), uint16_t(s.s.size())); break;
            case 4: out << s.s.c_str(); break;
            case 5: out << int(s.a); break;
            case 6: out << SerialOut::precision { int(s.a % 8) } << float(s.b) / 16; break;
            case 7: out << SerialOut::end {}; break;
            default: out << SerialOut::endl {}; break;
        }
        return format("%d, ", r) + shown(b.data(), b.size()) + " sent " + shown(w.tx.data(), w.tx.size());
    }
    int port;
    PacketUart::UartDevice device;
    PacketUart uart;
    std::vector<char> text;
    SerialOut out;
};
Actor genUart(Ctx &c, int n)
{
    auto in = c.bulk(c.size(60));
    for (auto &b: in) if (b & 1) b &= 3;
    const size_t cap = 1 + c.size(60);
    Actor a { "UART", {}, [=] { return std::make_unique<UartRunner>(n, in, cap); } };
    c.trace("UART %d with %zu bytes to receive, output of %zu characters", n, in.size(), cap);
    while (c.more(6))
    {
        Ctx::Scope s(c);
        Step x;
        x.k = int(c.uniform(8));
        x.a = c.range(0, 60);
        x.b = c.range(4, 8); // long enough for all that is there
        x.c = int64_t(c.uniform(3));
        x.d = int64_t(c.uniform(3));
        if (x.k == 3 || x.k == 4) { x.s = c.bulk(c.size(40)); for (auto &ch: x.s) ch = char(ch ? ch : 'x'); }
        c.trace("%d(%" PRId64 ",%" PRId64 ",%" PRId64 ",%" PRId64 ",%zu)", x.k, x.a, x.b, x.c, x.d, x.s.size());
        a.steps.push_back(x);
    }
    return a;
}
struct SpiRunner : Runner
{
#ifdef BACKEND_ARDUINO
    SpiRunner(int port, bool) : port(port), spi(uint8_t(port)), bus(spi, 1000000), device(bus) {}
    SPIClass spi;
#else
    SpiRunner(int port, bool full) : port(port), full(full), bus(port), device(bus) { init(); }
    bool init()
    {
        GpioPinDefinition a { uint8_t(4 + port) }, b { uint8_t(12 + port) }, d { uint8_t(16 + port) };
        return bus.init(a, b, d, 1000000, full ? SpiBus::DuplexMode::Full : SpiBus::DuplexMode::Half);
    }
#endif
    int port;
    bool full = true;
    std::string step(const Step &s) override
    {
        auto &w = world::spi;
        const auto in = s.s;
        w = world::Spi();
        w.toRead.assign(in.rbegin(), in.rend());
        std::vector<uint8_t> b(in.size() + 4, 0xDD);
        auto data = reinterpret_cast<const uint8_t*>(in.data());
        const auto n = uint16_t(in.size());
        bool r = true;
        switch (s.k)
        {
            case 0: r = device.sendSync(data, n); break;
            case 1: r = device.receiveSync(b.data(), n); break;
            case 2: if (full) r = device.sendAndReceive(data, b.data(), n); break;
            default:
#ifndef BACKEND_ARDUINO
                r = bus.release();
                if (s.k == 4) r = bus.init(pins[0], pins[1], pins[2], 1000000, full ? SpiBus::DuplexMode::Full : SpiBus::DuplexMode::Half) && r;
#endif
                break;
        }
        // what the filler is does not matter here
        for (size_t i = 0; i < w.out.size(); ++i) if (w.outFiller[i]) w.out[i] = 0;
        if (s.k == 1) w.out.assign(w.out.size(), 0);
        return format("%d, ", int(r)) + shown(b.data(), b.size()) + " out " + shown(w.out.data(), w.out.size()) + format(" on %d", w.bus);
    }
    SpiBus bus;
    SpiDevice device;
    GpioPinDefinition pins[3] = { { 5 }, { 6 }, { 7 } };
};
Actor genSpi(Ctx &c, int n)
{
    const bool full = c.boolean();
    const bool large = c.chance(1, 6);
    Actor a { "SPI", {}, [=] { return std::make_unique<SpiRunner>(n % 3, full); } };
    c.trace("%s SPI bus %d", full ? "full duplex" : "half duplex", n % 3);
    while (c.more(6))
    {
        Ctx::Scope s(c);
        Step x;
        x.k = int(c.oneOf({ 3, 3, 3, 1 }));
        if (x.k == 3) x.k = 4;
        x.s = c.bulk(large ? c.size(6000) : c.size(40));
        c.trace("%d(%zu bytes)", x.k, x.s.size());
        a.steps.push_back(x);
    }
    return a;
}
struct I2CRunner : Runner
{
#ifdef BACKEND_ARDUINO
    I2CRunner(int port, int address) : wire(uint8_t(port)), bus(wire), device(bus, uint16_t(address)), address(address) {}
    TwoWire wire;
#else
    I2CRunner(int port, int address) : bus(port), device(bus, uint16_t(address)), address(address) {}
#endif
    std::string step(const Step &s) override
    {
        auto &w = world::i2c;
        w.log.clear();
        w.present = { address };
        w.toRead.assign(s.s.rbegin(), s.s.rend());
        std::vector<uint8_t> b(s.s.size() + 5, 0xDD);
        auto data = reinterpret_cast<const uint8_t*>(s.s.data());
        bool r = true;
        switch (s.k)
        {
            case 0: r = device.sendSync(data, uint16_t(s.s.size())); break;
            case 1: r = device.receiveSync(b.data(), uint16_t(1 + s.s.size())); break;
            default: r = device.sendThenReceive(data, uint16_t(s.s.size()), b.data(), uint16_t(1 + s.s.size())); break;
        }
        auto t = format("%d, ", int(r)) + shown(b.data(), b.size());
        for (auto &l: w.log) t += format("; %c %02x on %d: ", l.kind, l.address, l.port) + shown(l.data.data(), l.data.size());
        return t;
    }
    I2CBus bus;
    I2CDevice device;
    int address;
};
Actor genI2C(Ctx &c, int n)
{
    const int address = int(c.range(8, 119));
    Actor a { "I2C", {}, [=] { return std::make_unique<I2CRunner>(n % 2, address); } };
    c.trace("I2C device %02x on %d", unsigned(address), n % 2);
    while (c.more(6))
    {
        Ctx::Scope s(c);
        Step x;
        x.k = int(c.uniform(2));
        x.s = c.bulk(c.size(40));
        c.trace("%d(%zu bytes)", x.k, x.s.size());
        a.steps.push_back(x);
    }
    return a;
}
struct PinRunner : Runner
{
    explicit PinRunner(int n) : n(n), definition { uint8_t(n) }, pin(definition), analog(definition) {}
    std::string step(const Step &s) override
    {
        auto &events = world::pinEvents;
        events.clear();
        std::string t;
        switch (s.k)
        {
            case 0: pin.init(s.a ? GpioDigitalPin::Direction::Output : GpioDigitalPin::Direction::Input, GpioDigitalPin::PullMode(s.b % 3)); break;
            case 1: pin.set(s.a != 0); break;
            case 2: { ChipSelector sel(pin); t = format("selected: %d, ", world::pinLatch[n]); break; }
            case 3:
                world::pinLevel[n] = int(s.a & 1);
                t = format("level: %d, ", int(pin.check()));
                break;
            default:
#ifdef BACKEND_ARDUINO
                world::analog[n] = int(s.b);
#else
                for (int u = 0; u < SOC_ADC_PERIPH_NUM; ++u)
                    for (int ch = 0; ch < SOC_ADC_MAX_CHANNEL_NUM; ++ch) if (adc_channel_io_map[u][ch] == n) world::adc.value[u][ch] = int(s.b);
#endif
                t = format("analog: %d, ", analog.singleRead());
                break;
        }
        for (auto &e: events) if (e.kind == 'w') t += format("%d=%d ", e.pin, e.value);
        return t + format("latch %d", world::pinLatch[n]);
    }
    int n;
    GpioPinDefinition definition;
    GpioDigitalPin pin;
    AnalogPin analog;
};
Actor genPin(Ctx &c, int n)
{
    static const int pins[4][3] = { { 2, 12, 25 }, { 4, 13, 26 }, { 14, 32, 5 }, { 15, 33, 18 } };
    const int pin = pins[n][c.uniform(2)];
    Actor a { "pin", {}, [=] { return std::make_unique<PinRunner>(pin); } };
    c.trace("pin %d", pin);
    while (c.more(6))
    {
        Ctx::Scope s(c);
        Step x;
        x.k = int(c.uniform(4));
        x.a = c.boolean();
        x.b = c.range(0, 4095);
        c.trace("%d(%" PRId64 ",%" PRId64 ")", x.k, x.a, x.b);
        a.steps.push_back(x);
    }
    return a;
}

constexpr size_t kinds = 6;
void prepare()
{
    world::reset();
    world::stepUs = 5;
#ifndef BACKEND_ARDUINO
    for (auto &l: world::i2cLinks) l = world::I2CLink();
#else
    world::analog.clear();
#endif
}
#endif

std::string run(Runner &r, const Step &s)
{
#ifdef BACKEND
    try { return r.step(s); }
    catch (world::Stuck &e) { return std::string("stuck in ") + e.where; }
    catch (world::Aborted &e) { return "aborted: " + e.what; }
#else
    return r.step(s);
#endif
}

using Seen = std::vector<std::string>;
Seen alone(const Actor &a)
{
    prepare();
    auto r = a.make();
    Seen seen;
    for (auto &s: a.steps) seen.push_back(run(*r, s));
    return seen;
}

void compare(Ctx &c, const std::vector<Actor> &actors, const std::vector<Seen> &want, const std::vector<Seen> &have, const char* when)
{
    for (size_t i = 0; i < actors.size(); ++i)
        for (size_t k = 0; k < want[i].size(); ++k)
            PBT_CHECK(c, k < have[i].size() && want[i][k] == have[i][k], "object %zu (%s), step %zu: alone %s; %s %s", i, actors[i].what, k, want[i][k].c_str(), when,
                      k < have[i].size() ? have[i][k].c_str() : "missing");
}

void c38(Ctx &c)
{
    std::vector<Actor> actors;
#ifdef BACKEND
    const size_t n = size_t(c.range(2, 3));
    const size_t kind = c.uniform(kinds - 1);
    for (size_t i = 0; i < n; ++i)
    {
        Ctx::Scope s(c);
        switch (c.boolean() ? kind : c.uniform(kinds - 1))
        {
            case 0: actors.push_back(genUart(c, int(i))); break;
            case 1: actors.push_back(genSpi(c, int(i))); break;
            case 2: if (i < 2) { actors.push_back(genI2C(c, int(i))); break; } [[fallthrough]];
            case 3: actors.push_back(genPin(c, int(i))); break;
            case 4: actors.push_back(genOut(c)); break;
            default: actors.push_back(genView(c)); break;
        }
    }
#else
    Fonts fonts;
    fonts.push_back(genFont(c));
    if (c.boolean()) fonts.push_back(genFont(c));
    const size_t n = size_t(c.range(2, 4));
    const size_t kind = c.uniform(kinds - 1);
    for (size_t i = 0; i < n; ++i)
    {
        Ctx::Scope s(c);
        // mostly objects of the same kind: they share code
        actors.push_back(genActor(c, c.chance(3, 4) ? kind : c.uniform(kinds - 1), fonts));
    }
#endif
    std::vector<Seen> want, have(n);
    for (auto &a: actors) want.push_back(alone(a));
    size_t busy = 0;
    for (auto &a: actors) if (a.steps.size() > 1) ++busy;
    for (auto &a: actors) c.label(a.what);
#ifdef THREADS
    const int before = races;
    {
        std::vector<std::thread> threads;
        for (size_t i = 0; i < n; ++i) threads.emplace_back([&, i] { have[i] = alone(actors[i]); });
        for (auto &t: threads) t.join();
    }
    PBT_CHECK(c, races == before, "objects used by one thread each share memory that is written: %s", raceText);
    compare(c, actors, want, have, "with the others on other threads");
#else
    for (size_t i = n; i-- > 0;) have[i] = alone(actors[i]);
    compare(c, actors, want, have, "in another order");
    prepare();
    std::vector<std::unique_ptr<Runner>> runners;
    for (auto &a: actors) runners.push_back(a.make());
    for (auto &h: have) h.clear();
    for (;;)
    {
        std::vector<size_t> open;
        for (size_t i = 0; i < n; ++i) if (have[i].size() < actors[i].steps.size()) open.push_back(i);
        if (open.empty()) break;
        const size_t i = open[c.uniform(open.size() - 1)];
        have[i].push_back(run(*runners[i], actors[i].steps[have[i].size()]));
    }
    compare(c, actors, want, have, "interleaved with the others");
#endif
    if (busy >= 2) c.nontrivial();
}
} // namespace

namespace pbt
{
const std::vector<Property> &properties()
{
    static const std::vector<Property> p {
#ifdef THREADS
        { "C38", c38, 1500, 20000, "histories of 2 to 4 objects, each alone and all at once on a thread each; non-trivial: two objects with at least two steps" },
#else
        { "C38", c38, 12000, 150000, "histories of 2 to 4 objects, each alone, in the opposite order, and interleaved step by step; non-trivial: two objects with at least two steps" },
#endif
    };
    return p;
}
}
