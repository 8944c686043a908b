// C37: no operation of the library allocates. Built per back end.
#include "pbt.h"
#include "world.h"
#include <memory>
#include "BufferedOut.h"
#include "PersistentStorage.h"
#include "EndianConversion.h"
#include "graphics/SimpleFrameBuffer.h"
#include "graphics/Canvas.h"
#include "graphics/EmbeddedFont.h"
#include "graphics/EmbeddedFonts.h"
#include "Delays.h"
#include "PacketUart.h"
#include "PacketUartImpl.h"
#include "SerialOut.h"
#include "SpiBus.h"
#include "SpiDevice.h"
#include "I2CBus.h"
#include "I2CDevice.h"
#include "GpioPinDefinition.h"
#include "GpioDigitalPin.h"
#include "AnalogPin.h"
#ifdef BACKEND_ARDUINO
#include <Arduino.h>
#include <Wire.h>
#include <SPI.h>
#else
#include <driver/uart.h>
#include <driver/i2c.h>
#include "SleepFunctions.h"
#endif

extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*mallocHook)(const volatile void*, size_t), void (*freeHook)(const volatile void*));

using namespace pbt;

namespace
{
bool inLibrary = false;
size_t allocations = 0, allocated = 0, frees = 0;
void onMalloc(const volatile void*, size_t n)
{
    if (inLibrary && world::inMock == 0) { ++allocations; allocated = n; }
}
void onFree(const volatile void* p)
{
    if (inLibrary && world::inMock == 0 && p) ++frees;
}

// One call of the library.
template<typename F> void lib(Ctx &c, const char* what, F &&f)
{
    allocations = frees = 0;
    inLibrary = true;
    try { f(); }
    catch (world::Stuck &) { inLibrary = false; return; }
    catch (world::Aborted &) { inLibrary = false; return; }
#ifndef BACKEND_ARDUINO
    catch (world::DeepSleep &) { inLibrary = false; return; }
#endif
    catch (...) { inLibrary = false; throw; }
    inLibrary = false;
    PBT_CHECK(c, allocations == 0, "%s allocated heap memory %zu times (%zu bytes the last time)", what, allocations, allocated);
    PBT_CHECK(c, frees == 0, "%s freed heap memory", what);
}

void output(Ctx &c)
{
    const size_t cap = c.oneOf({ 5, 1 }) == 0 ? c.size(200) : size_t(c.range(0, 9000));
    std::vector<char> buf(cap + 1);
    embedded::BufferedOut* outp = nullptr;
    alignas(embedded::BufferedOut) char room[sizeof(embedded::BufferedOut)];
    lib(c, "constructing the output", [&] { outp = new (room) embedded::BufferedOut(embedded::MemoryView<char>(buf.data(), cap)); });
    auto &out = *outp;
    while (c.more(12))
    {
        Ctx::Scope s(c);
        switch (c.uniform(14))
        {
            case 0: { int v = int(c.around(INT32_MIN, INT32_MAX, 0)); c.trace("int %d", v); lib(c, "<< int", [&] { out << v; }); break; }
            case 1: { unsigned v = c.bits32(); c.trace("unsigned %u", v); lib(c, "<< unsigned", [&] { out << v; }); break; }
            case 2: { long v = long(c.bits64()); c.trace("long %ld", v); lib(c, "<< long", [&] { out << v; }); break; }
            case 3: { unsigned long v = c.bits64(); c.trace("ulong %lu", v); lib(c, "<< unsigned long", [&] { out << v; }); break; }
            case 4: { long long v = (long long)(c.bits64()); c.trace("longlong %lld", v); lib(c, "<< long long", [&] { out << v; }); break; }
            case 5: { unsigned long long v = c.bits64(); c.trace("ulonglong %llu", v); lib(c, "<< unsigned long long", [&] { out << v; }); break; }
            case 6:
            {
                uint32_t b = c.bits32();
                float f;
                memcpy(&f, &b, 4);
                if (c.boolean()) f = float(c.around(-9000000, 9000000, 0)) / 1000.f;
                c.trace("float %.9g", double(f));
                lib(c, "<< float", [&] { out << f; });
                break;
            }
            case 7: { unsigned char b = c.byte(); c.trace("byte"); lib(c, "<< byte", [&] { out << b; }); break; }
            case 8: { char b = char(c.byte()); c.trace("char"); lib(c, "<< char", [&] { out << b; }); break; }
            case 9:
            {
                std::string t(c.oneOf({ 5, 1 }) == 0 ? c.size(300) : size_t(c.range(0, 9000)), 'x');
                c.trace("text of %zu", t.size());
                if (c.boolean()) lib(c, "<< const char*", [&] { out << t.c_str(); });
                else lib(c, "<< string_view", [&] { out << std::string_view(t); });
                break;
            }
            case 10:
            {
                std::vector<uint8_t> t(c.size(300), 0x5A);
                c.trace("%zu bytes", t.size());
                lib(c, "<< bytes", [&] { out << embedded::ConstBytesView(t.data(), t.size()); });
                break;
            }
            case 11: { int w = int(c.range(0, 5000)); c.trace("width %d", w); lib(c, "<< width", [&] { out << embedded::BufferedOut::width { w } << embedded::BufferedOut::fill { '*' }; }); break; }
            case 12: { int p = int(c.range(0, 300)); c.trace("precision %d", p); lib(c, "<< precision", [&] { out << embedded::BufferedOut::precision { p }; }); break; }
            default:
                if (c.boolean()) { c.trace("clear"); lib(c, "clear", [&] { out.clear(); }); }
                else lib(c, "reading the output", [&] { (void)out.data(); (void)out.asStringView(); out.addChar('a'); });
                break;
        }
    }
    c.label("formatted output");
    c.nontrivial();
}

template<size_t N> struct Blob { uint8_t b[N]; };
template<size_t N> void storeAndLoad(Ctx &c, embedded::PersistentStorage &st, std::string_view name)
{
    static Blob<N> v;
    v.b[0] = uint8_t(N);
    if (c.boolean()) lib(c, "set", [&] { st.set(name, v); });
    else lib(c, "get", [&] { auto r = st.get<Blob<N>>(name); asm volatile("" : : "r"(&r) : "memory"); });
    c.trace("%zu bytes as %s", N, show(name).c_str());
}
void storage(Ctx &c)
{
    const size_t n = size_t(c.range(0, c.chance(1, 10) ? 100000 : 700));
    std::vector<uint64_t> buf(n / 8 + 1);
    auto p = reinterpret_cast<uint8_t*>(buf.data());
    if (c.chance(1, 3)) for (size_t i = 0; i < n && i < 200; ++i) p[i] = c.byte();
    alignas(embedded::PersistentStorage) char room[sizeof(embedded::PersistentStorage)];
    embedded::PersistentStorage* st = nullptr;
    const bool init = c.boolean();
    lib(c, "attaching the storage", [&] { st = new (room) embedded::PersistentStorage({ p, n }, init); });
    while (c.more(10))
    {
        Ctx::Scope s(c);
        std::string name(c.oneOf({ 5, 1 }) == 0 ? c.uniform(4) : c.size(100), 'n');
        for (auto &ch: name) ch = char('a' + c.uniform(3));
        switch (c.uniform(7))
        {
            case 0: storeAndLoad<1>(c, *st, name); break;
            case 1: storeAndLoad<4>(c, *st, name); break;
            case 2: storeAndLoad<7>(c, *st, name); break;
            case 3: storeAndLoad<16>(c, *st, name); break;
            case 4: storeAndLoad<64>(c, *st, name); break;
            case 5: storeAndLoad<300>(c, *st, name); break;
            case 6: storeAndLoad<4000>(c, *st, name); break;
            default: lib(c, "attaching again", [&] { st = new (room) embedded::PersistentStorage({ p, n }, false); }); break;
        }
    }
    c.label("storage");
    c.nontrivial();
}

template<int W, int H, uint8_t D> void drawing(Ctx &c)
{
    static SimpleFrameBuffer<W, H, D> fb;
    alignas(Canvas) char room[sizeof(Canvas)];
    Canvas* canvas = nullptr;
    lib(c, "constructing a canvas", [&] { canvas = new (room) Canvas(fb); });
    auto coord = [&](int n) { return int(c.around(-n - 20, 2 * n + 20, n / 2)); };
    while (c.more(10))
    {
        Ctx::Scope s(c);
        const int x = coord(W), y = coord(H), x2 = coord(W), y2 = coord(H);
        switch (c.uniform(9))
        {
            case 0: lib(c, "drawPixel", [&] { canvas->drawPixel({ x, y }); }); break;
            case 1: c.trace("line"); lib(c, "drawLine", [&] { canvas->drawLine({ x, y }, { x2, y2 }); }); break;
            case 2: lib(c, "drawRectangle", [&] { canvas->drawRectangle({ { x, y }, { x2, y2 } }); }); break;
            case 3: lib(c, "drawFilledRectangle", [&] { canvas->drawFilledRectangle({ { x, y }, { x2, y2 } }); }); break;
            case 4: { bool filled = c.boolean(); lib(c, "drawCircle", [&] { canvas->drawCircle({ x, y }, x2 < 0 ? -x2 : x2, filled); }); break; }
            case 5:
            {
                auto r = Canvas::Rotation(c.uniform(3));
                lib(c, "setRotation", [&] { canvas->setRotation(r); (void)canvas->getSize(); (void)canvas->transformCoords(Canvas::Rect { { x, y }, { x2, y2 } }); (void)canvas->getImage(); });
                break;
            }
            case 6: { uint32_t v = c.bits32(); lib(c, "clear", [&] { canvas->clear(v); canvas->setColor(~v); }); break; }
            case 7: case 8:
            {
                std::string t(c.size(60), 'x');
                for (auto &ch: t) ch = char(c.byte());
                c.trace("text %s", show(t).c_str());
                lib(c, "drawStringAt", [&] { canvas->drawStringAt({ x, y }, t, embedded::fonts::FreeSans15pt); });
                lib(c, "getTextBounds", [&] { (void)embedded::fonts::FreeSans15pt.getTextBounds(t); });
                break;
            }
            default:
            {
                char ch = char(c.byte());
                lib(c, "drawCharAt", [&] { canvas->drawCharAt({ x, y }, ch, embedded::fonts::FreeSans15pt); });
                lib(c, "getBitmap", [&] { (void)embedded::fonts::FreeSans15pt.getBitmap(ch); });
                break;
            }
        }
    }
    c.label("drawing");
    c.nontrivial();
}

void views(Ctx &c)
{
    std::vector<uint32_t> data(c.size(70));
    embedded::MemoryView<uint32_t> v(data.data(), data.size());
    const size_t a = c.uniform(data.size() + 2), b = c.uniform(data.size() + 2);
    lib(c, "slicing a view", [&] {
        auto x = v.subspan(a, b);
        (void)x.first(b);
        (void)x.last(a);
    });
    const uint64_t n = c.bits64();
    lib(c, "byte order", [&] {
        uint32_t w = uint32_t(n);
        embedded::changeEndianess16x2(&w);
        volatile uint32_t r = embedded::changeEndianess(w) + embedded::changeEndianess(uint16_t(n)) + (embedded::changeEndianessToFloat(w) > 0);
        (void)r;
    });
    c.label("views");
    c.nontrivial();
}

void serial(Ctx &c)
{
    embedded::PacketUart::UartDevice device(1);
    embedded::PacketUart uart(device);
    auto &w = world::uarts[1];
    for (size_t n = c.size(60), i = 0; i < n; ++i) w.rx.push_back({ world::nowUs + i * uint64_t(c.uniform(2000)), uint8_t(c.chance(1, 4) ? 2 + c.uniform(1) : c.byte()) });
    for (size_t i = 1; i < w.rx.size(); ++i) w.rx[i].at = std::max(w.rx[i].at, w.rx[i - 1].at);
    std::vector<uint8_t> b(2000, 'd');
    std::vector<char> text(1 + c.size(200));
    alignas(embedded::SerialOut) char room[sizeof(embedded::SerialOut)];
    embedded::SerialOut* out = nullptr;
    lib(c, "constructing serial output", [&] { out = new (room) embedded::SerialOut(embedded::MemoryView<char>(text.data(), text.size()), uart); });
    world::stepUs = 20;
    while (c.more(8))
    {
        Ctx::Scope s(c);
        const uint16_t n = uint16_t(c.chance(1, 5) ? c.range(0, 2000) : c.range(0, 80)), timeout = uint16_t(c.range(1, 30));
        switch (c.uniform(6))
        {
            case 0: lib(c, "Receive", [&] { uart.Receive(b.data(), n, timeout); }); break;
            case 1: lib(c, "ReceiveUntil", [&] { uart.ReceiveUntil(b.data(), n, 3, timeout); }); break;
            case 2: lib(c, "ReceiveBetween", [&] { uart.ReceiveBetween(b.data(), n, 2, 3, timeout); }); break;
            case 3: lib(c, "Send", [&] { uart.Send(b.data(), n); }); break;
            case 4: lib(c, "serial output", [&] { *out << "text " << 42 << 3u << -7l << 1.25f << embedded::SerialOut::precision { 2 } << embedded::ConstBytesView(b.data(), n % 50); }); break;
            case 5: lib(c, "serial end of line", [&] { *out << embedded::SerialOut::endl {}; }); break;
            default: lib(c, "serial end", [&] { *out << embedded::SerialOut::end {}; }); break;
        }
        c.trace("uart %u", n);
    }
    c.label("serial");
    c.nontrivial();
}

void buses(Ctx &c)
{
    world::spi.toRead.assign(70000, 1);
    embedded::GpioPinDefinition p1 { 18 }, p2 { uint8_t(c.range(0, 255)) }, p3 { 23 };
    std::vector<uint8_t> b(65536, 7);
    if (c.chance(1, 3)) for (int i = 0; i < 3; ++i) world::failAt.insert(c.uniform(10));
    world::i2c.present = { 0x21, 0x50 };
    world::i2c.toRead.assign(300, 4);
    {
#ifdef BACKEND_ARDUINO
        embedded::SpiBus bus(SPI);
        embedded::I2CBus i2c(Wire);
#else
        alignas(embedded::SpiBus) char room[sizeof(embedded::SpiBus)];
        embedded::SpiBus* busp = nullptr;
        lib(c, "constructing an SPI bus", [&] { busp = new (room) embedded::SpiBus(1); });
        auto &bus = *busp;
        lib(c, "SPI init", [&] { bus.init(p1, p2, p3, 1000000, embedded::SpiBus::DuplexMode::Full); });
        embedded::I2CBus i2c(1);
        lib(c, "I2C init", [&] { i2c.init(1, 2, 100000); });
        lib(c, "UART init", [&] { embedded::SimpleUartDevice::init(1, 2, 3, 9600); });
#endif
        embedded::SpiDevice spi(bus);
        embedded::I2CDevice dev(i2c, 0x21);
        embedded::GpioDigitalPin pin(p2);
        embedded::AnalogPin analog(p2);
        while (c.more(8))
        {
            Ctx::Scope s(c);
            const uint16_t n = uint16_t(c.oneOf({ 4, 2, 1 }) == 0 ? c.range(0, 40) : c.range(0, c.boolean() ? 9000 : 65535));
            c.trace("bus %u", n);
            switch (c.uniform(9))
            {
                case 0: lib(c, "SPI send", [&] { spi.sendSync(b.data(), n); }); break;
                case 1: lib(c, "SPI receive", [&] { spi.receiveSync(b.data(), n); }); break;
                case 2: lib(c, "SPI exchange", [&] { spi.sendAndReceive(b.data(), b.data(), n); }); break;
                case 3: lib(c, "I2C send", [&] { dev.sendSync(b.data(), n % 300); }); break;
                case 4: lib(c, "I2C receive", [&] { dev.receiveSync(b.data(), 1 + n % 300); }); break;
                case 5: lib(c, "I2C send and receive", [&] { dev.sendThenReceive(b.data(), n % 300, b.data(), 1 + n % 300); }); break;
                case 6:
                    lib(c, "pin", [&] { pin.init(embedded::GpioDigitalPin::Direction(n & 1), embedded::GpioDigitalPin::PullMode(n % 3)); pin.set(n & 2); (void)pin.check(); embedded::ChipSelector s(pin); });
                    break;
                case 7: lib(c, "analog pin", [&] { (void)analog.singleRead(); }); break;
                case 8:
#ifndef BACKEND_ARDUINO
                    lib(c, "I2C probe", [&] { i2c.testAddress(uint8_t(n & 127)); });
                    lib(c, "SPI release", [&] { bus.release(); });
                    lib(c, "SPI init", [&] { bus.init(p1, p2, p3); });
#endif
                    lib(c, "I2C reset", [&] { i2c.resetBus(); });
                    break;
                default:
                    lib(c, "delays", [&] { embedded::delay(n); embedded::delayMicroseconds(n); (void)embedded::getMillisecondTicks(); (void)embedded::getMicrosecondTicks(); });
#ifndef BACKEND_ARDUINO
                    lib(c, "light sleep", [&] { embedded::ligntSleep(n); });
#endif
                    break;
            }
        }
#ifndef BACKEND_ARDUINO
        lib(c, "destroying an SPI bus", [&] { bus.~SpiBus(); });
#endif
    }
    c.label("pins and buses");
    c.nontrivial();
}

void c37(Ctx &c)
{
    static bool installed = __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree) > 0;
    if (!installed) c.fail("the allocation hooks could not be installed");
    inLibrary = false;
    world::reset();
#ifndef BACKEND_ARDUINO
    for (auto &l: world::i2cLinks) l = world::I2CLink();
#else
    world::analog.clear();
#endif
    switch (c.oneOf({ 3, 2, 3, 1, 3, 3 }))
    {
        case 0: output(c); break;
        case 1: storage(c); break;
        case 2:
            switch (c.uniform(3))
            {
                case 0: drawing<48, 32, 1>(c); break;
                case 1: drawing<24, 20, 16>(c); break;
                case 2: drawing<64, 9, 4>(c); break;
                default: drawing<10, 40, 24>(c); break;
            }
            break;
        case 3: views(c); break;
        case 4: serial(c); break;
        default: buses(c); break;
    }
}

// the hooks see allocations of every kind
void c37Once(std::string &report)
{
    static bool installed = __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree) > 0;
    allocations = 0;
    inLibrary = true;
    auto volatile p = new char[10];
    auto volatile q = malloc(20);
    { std::string s(100, 'x'); asm volatile("" : : "r"(&s) : "memory"); }
    inLibrary = false;
    delete[] p;
    free(q);
    report = "self-test: new, malloc and std::string are seen by the hooks";
    if (!installed || allocations != 3) throw Failure { "the allocation hooks do not work" };
}
} // namespace

namespace pbt
{
const std::vector<Property> &properties()
{
    static const std::vector<Property> p {
        { "C37", c37, 20000, 200000, "a history of library calls of one part (formatted output, storage, drawing, views, serial, pins and buses), each call watched by allocation hooks; non-trivial: every completed history", c37Once },
    };
    return p;
}
}
