// C01-C05: BufferedOut over generated insertion histories.
#include "pbt.h"
#include "BufferedOut.h"
#include <charconv>
#include <cmath>
#include <limits>
#include <memory>

using namespace pbt;
using embedded::BufferedOut;

namespace
{

size_t genCapacity(Ctx &c, bool huge)
{
    switch (c.oneOf({ 40, 16, 1, huge ? 4u : 0u }))
    {
        case 0: return c.size(48);
        case 1: return c.size(300);
        case 2: return size_t(c.range(300, 2500));
        default: return c.boolean() ? size_t(c.range(65500, 66100)) : size_t(c.range(130900, 132000));
    }
}

// `room`: sometimes as long as a roomy buffer can take and longer
std::string genText(Ctx &c, bool nul, size_t max = 70, size_t room = 0, bool hex = false)
{
    if (room > 250 && c.chance(1, 4))
    {
        size_t most = hex ? room / 2 : room;
        size_t n = c.boolean() ? c.wrapSize(most + 3) : size_t(c.range(int64_t(most) - 3, int64_t(most) + 3));
        auto s = c.bulk(n);
        if (!nul) for (auto &ch: s) if (ch == 0) ch = 'n';
        return s;
    }
    std::string s(c.size(max), ' ');
    bool plain = c.chance(1, 3);
    for (auto &ch: s)
    {
        ch = plain ? 'a' : char(c.byte());
        if (!nul && ch == 0) ch = 'n';
    }
    return s;
}

// Exact heap copies so that AddressSanitizer sees any over-read of the argument.
struct Exact
{
    std::unique_ptr<char[]> p;
    size_t n;
    explicit Exact(const std::string &s, bool terminate) : p(new char[s.size() + (terminate ? 1 : 0)]), n(s.size())
    {
        memcpy(p.get(), s.data(), s.size());
        if (terminate) p[n] = 0;
    }
};

template<typename T> struct Num { T v; std::string text; };

// Inserts an integer of a generated type; returns its exact decimal text.
template<typename T>
std::string insertInt(Ctx &c, BufferedOut &out, const char* type)
{
    T v;
    if constexpr (sizeof(T) == 8)
    {
        uint64_t b = c.bits64();
        v = T(b);
    }
    else
    {
        v = T(c.around(std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), 0));
    }
    if (c.chance(1, 6))
    {
        // around multiples of powers of ten
        uint64_t m = c.uniform(20);
        for (size_t k = c.uniform(19); k-- > 0;) m *= 10;
        v = T(m + c.uniform(2) - 1);
        if (std::is_signed_v<T> && c.boolean()) v = T(0 - uint64_t(v));
    }
    auto text = std::to_string(v);
    c.trace("%s %s", type, text.c_str());
    auto &r = (out << v);
    PBT_CHECK(c, &r == &out, "operator<<(%s) does not return the object", type);
    return text;
}
std::string insertAnyInt(Ctx &c, BufferedOut &out)
{
    switch (c.uniform(8))
    {
        case 0: return insertInt<int>(c, out, "int");
        case 1: return insertInt<unsigned int>(c, out, "unsigned");
        case 2: return insertInt<long>(c, out, "long");
        case 3: return insertInt<unsigned long>(c, out, "ulong");
        case 4: return insertInt<long long>(c, out, "longlong");
        case 5: return insertInt<unsigned long long>(c, out, "ulonglong");
        case 6: return insertInt<short>(c, out, "short");
        case 7: return insertInt<unsigned short>(c, out, "ushort");
        default: return insertInt<signed char>(c, out, "schar");
    }
}

float genFloat(Ctx &c, bool any)
{
    switch (c.oneOf({ 5, 5, 4, 3, 3, 2, 2 }))
    {
        case 6: // at a power of ten or two, mostly with a fraction
        {
            const int64_t p = c.boolean() ? int64_t(c.pick({ 10u, 100u, 1000u, 10000u, 100000u, 1000000u, 10000000u, 100000000u, 1000000000u })) : int64_t(1) << c.uniform(30);
            const float f = float(double(p) + double(c.around(-64, 64, 0)) / 32.);
            return c.boolean() ? -f : f;
        }
        case 0: // decimal-looking
        {
            long long m = c.around(-2000000, 2000000, 0);
            static const float scale[] = { 1, 10, 100, 1000, 10000, 1e6f, 8, 3 };
            return float(m) / scale[c.uniform(7)];
        }
        case 1: // in (-1, 1)
        {
            float f = float(c.uniform((1u << 24) - 1)) / float(1 << 24);
            return c.boolean() ? -f : f;
        }
        case 2: // bit pattern
        {
            uint32_t b = uint32_t(c.uniform(UINT32_MAX));
            float f;
            memcpy(&f, &b, 4);
            if (any) return f;
            if (std::isfinite(f) && std::fabs(f) < 2147483648.f) return f;
            return std::isfinite(f) ? std::fmod(f, 2147483648.f) : 0.f;
        }
        case 3: // whole numbers
            return float(c.around(-2147483520ll, 2147483520ll, 0));
        case 4: // just below or above a short decimal
        {
            float f = float(c.around(-99999, 99999, 0)) / 100.f;
            int steps = int(c.uniform(4)) - 2;
            for (; steps > 0; --steps) f = std::nextafter(f, 1e30f);
            for (; steps < 0; ++steps) f = std::nextafter(f, -1e30f);
            return f;
        }
        default:
        {
            static const float special[] = { 0.f, -0.f, 1e-45f, 1e-30f, 0.1f, 0.9999999f, 0.99999994f, 9.9999995f, 16777216.f, 16777215.f,
                                             8388607.5f, 2147483520.f, -2147483520.f, -0.5f, 0.5f };
            float f = special[c.uniform(sizeof special / sizeof *special - 1)];
            return c.boolean() ? -f : f;
        }
    }
}

struct Fixture
{
    GuardedBuf buf;
    BufferedOut out;
    char otherBytes[40];
    BufferedOut other { embedded::MemoryView<char>(otherBytes, sizeof otherBytes) };
    explicit Fixture(size_t cap, size_t misalign = 0)
    : buf(cap, misalign, cap > 1000 ? 128 : 512), out(embedded::MemoryView<char>(reinterpret_cast<char*>(buf.data()), cap)) {}
    std::string content() const { return std::string(out.asStringView()); }
    size_t room() const { return buf.size() - out.size(); }
};

Fixture makeFixture(Ctx &c, bool huge)
{
    size_t cap = genCapacity(c, huge);
    size_t mis = c.uniform(3);
    c.trace("capacity %zu", cap);
    return Fixture(cap, mis);
}

// Fills the buffer until `left` bytes are free (text only), to reach the end cheaply.
void fillUp(Ctx &c, Fixture &f)
{
    if (f.room() == 0) return;
    size_t left = std::min<size_t>(f.room(), size_t(c.range(0, 30)));
    std::string s(f.room() - left, '.');
    c.trace("fill up to %zu free", left);
    f.out << std::string_view(s);
}

// One insertion of any kind without an opinion on what it appends.
void anyInsertion(Ctx &c, BufferedOut &out, bool anyFloat, bool bigFormat)
{
    const size_t room = out.capacity() - out.size();
    switch (c.oneOf({ 6, 4, 4, 3, 2, 3, 3, 3, 3, 2, 2 }))
    {
        case 0: insertAnyInt(c, out); break;
        case 1:
        {
            int w = int(bigFormat ? c.around(INT32_MIN, INT32_MAX, 0) : c.range(0, 40));
            if (bigFormat && c.chance(4, 5)) w = int(c.range(0, 40));
            c.trace("width %d", w);
            out << BufferedOut::width { w };
            break;
        }
        case 2: { auto s = genText(c, false, 70, room); c.trace("cstr %s", show(s).c_str()); Exact e(s, true); out << static_cast<const char*>(e.p.get()); break; }
        case 3: { auto s = genText(c, true, 70, room); c.trace("sv %s", show(s).c_str()); Exact e(s, false); out << std::string_view(e.p.get(), e.n); break; }
        case 4: { char ch = char(c.byte()); c.trace("char %d", ch); out << ch; break; }
        case 5: { unsigned char b = c.byte(); c.trace("byte %02x", b); out << b; break; }
        case 6:
        {
            auto s = genText(c, true, 70, room, true);
            c.trace("bytes[%zu]", s.size());
            Exact e(s, false);
            out << embedded::ConstBytesView(reinterpret_cast<const uint8_t*>(e.p.get()), e.n);
            break;
        }
        case 7: { float f = genFloat(c, anyFloat); c.trace("float %.9g", double(f)); out << f; break; }
        case 8:
        {
            int p = int(bigFormat && c.chance(1, 4) ? c.around(INT32_MIN, INT32_MAX, 0) : c.range(0, 12));
            c.trace("precision %d", p);
            out << BufferedOut::precision { p };
            break;
        }
        case 9: { char ch = char(c.byte()); c.trace("fill %d", ch); out << BufferedOut::fill { ch }; break; }
        default: { char ch = char(c.byte()); c.trace("addChar %d", ch); out.addChar(ch); break; }
    }
}

// Now and then another output is used in between.
void bystander(Ctx &c, Fixture &f)
{
    if (!c.chance(1, 10)) return;
    Ctx::Scope s(c);
    const auto before = f.content();
    c.trace("to another output:");
    if (f.other.size() + 6 > f.other.capacity()) f.other.clear();
    if (c.boolean())
    {
        const int w = int(c.range(0, 12)), p = int(c.range(0, 12));
        c.trace("width %d, precision %d, fill", w, p);
        f.other << BufferedOut::width { w } << BufferedOut::precision { p } << BufferedOut::fill { '#' };
    }
    else anyInsertion(c, f.other, false, false);
    PBT_CHECK(c, f.content() == before, "writing to another output changed this one");
}

// ---- C01 -----------------------------------------------------------------------------------------
void c01(Ctx &c)
{
    auto f = makeFixture(c, true);
    PBT_CHECK(c, f.out.size() == 0, "not empty after construction");
    size_t ops = 0;
    bool hitEnd = false;
    while (c.more(14))
    {
        Ctx::Scope s(c);
        bystander(c, f);
        auto before = f.content();
        if (c.chance(1, 12)) { fillUp(c, f); }
        else if (c.chance(1, 25)) { c.trace("clear"); f.out.clear(); before.clear(); }
        else anyInsertion(c, f.out, true, true);
        PBT_CHECK(c, f.out.size() <= f.buf.size(), "size %zu exceeds the capacity %zu", size_t(f.out.size()), f.buf.size());
        if (f.buf.size() < 1000 || !hitEnd) PBT_CHECK(c, f.buf.intact(), "bytes outside the buffer were changed (capacity %zu)", f.buf.size());
        auto after = f.content();
        PBT_CHECK(c, after.size() >= before.size() && after.compare(0, before.size(), before) == 0, "earlier output changed: %s -> %s", show(before).c_str(), show(after).c_str());
        ++ops;
        if (f.room() < 4) hitEnd = true;
    }
    PBT_CHECK(c, f.buf.intact(), "bytes outside the buffer were changed (capacity %zu)", f.buf.size());
    if (hitEnd) c.label("reached end of buffer");
    if (ops >= 2 && hitEnd) c.nontrivial();
}

// ---- C02 -----------------------------------------------------------------------------------------
void c02(Ctx &c)
{
    auto f = makeFixture(c, false);
    int width = 0;
    char fill = ' ';
    bool interesting = false;
    while (c.more(12))
    {
        Ctx::Scope s(c);
        bystander(c, f);
        switch (c.oneOf({ 8, 5, 2, 2, 1, 1 }))
        {
            case 0:
            {
                auto before = f.content();
                auto text = insertAnyInt(c, f.out);
                auto room = f.buf.size() - before.size();
                std::string expected = text;
                if (width > 0 && size_t(width) > text.size()) expected.insert(0, size_t(width) > room ? room + 1 : size_t(width) - text.size(), fill);
                bool refused = expected.size() > room;
                if (refused) expected.clear();
                auto after = f.content();
                PBT_CHECK(c, after == before + expected, "inserting %s with width %d, fill %d, %zu bytes free: output %s -> %s, expected %s appended",
                          text.c_str(), width, fill, room, show(before).c_str(), show(after).c_str(), show(expected).c_str());
                if (width > 0) { c.label(refused ? "padded, refused" : size_t(width) > text.size() ? "padded" : "width <= length"); interesting = true; }
                else if (refused) { c.label("refused"); interesting = true; }
                else if (expected.size() == room) c.label("exact fit");
                if (refused && width > 0)
                {
                    // whether a refused number uses up the width is not specified: set it anew
                    f.out << BufferedOut::width { 0 };
                }
                width = 0;
                break;
            }
            case 1:
                width = int(c.oneOf({ 9, 1 }) == 0 ? c.range(0, c.chance(1, 6) ? 2000 : 30) : c.around(INT32_MIN, INT32_MAX, 0));
                c.trace("width %d", width);
                f.out << BufferedOut::width { width };
                break;
            case 2:
                fill = char(c.byte());
                c.trace("fill %d", fill);
                f.out << BufferedOut::fill { fill };
                break;
            case 3:
                // nothing but an integer uses up the width
                switch (c.uniform(7))
                {
                    case 5: { unsigned char b = c.byte(); c.trace("byte %02x", b); f.out << b; break; }
                    case 6: { auto t = genText(c, true, 6); c.trace("bytes[%zu]", t.size()); f.out << embedded::ConstBytesView(reinterpret_cast<const uint8_t*>(t.data()), t.size()); break; }
                    case 7: { float v = genFloat(c, false); c.trace("float %.9g", double(v)); f.out << v; break; }
                    case 0: { auto t = genText(c, false, 6); c.trace("cstr %s", show(t).c_str()); f.out << t.c_str(); break; }
                    case 1: { auto t = genText(c, true, 6); c.trace("sv %s", show(t).c_str()); f.out << std::string_view(t); break; }
                    case 2: { char ch = char(c.byte()); c.trace("char %d", ch); f.out << ch; break; }
                    case 3: { char ch = char(c.byte()); c.trace("addChar %d", ch); f.out.addChar(ch); break; }
                    case 4: { int p = int(c.range(0, 9)); c.trace("precision %d", p); f.out << BufferedOut::precision { p }; break; }
                }
                break;
            case 4: fillUp(c, f); break;
            default:
                c.trace("clear");
                f.out.clear();
                width = 0;
                fill = ' ';
                break;
        }
    }
    if (interesting) c.nontrivial();
}

// ---- C03 -----------------------------------------------------------------------------------------
// Empty result: fine; otherwise what is wrong.
std::string judgeFloat(float v, int p, size_t room, std::string_view got)
{
    char msg[300];
    auto wrong = [&](const char* why) {
        snprintf(msg, sizeof msg, "inserting %.9g with precision %d and %zu bytes free appended %s: %s", double(v), p, room, show(got).c_str(), why);
        return std::string(msg);
    };
    const double a = std::fabs(double(v));
    const std::string whole = std::to_string((unsigned long long)(std::trunc(a)));
    const bool needSign = v <= -1.f;
    if (got.empty())
    {
        // allowed when sign and integer part do not fit (a sign in front of a zero counts)
        size_t longest = whole.size() + (std::signbit(v) ? 1 : 0);
        return longest > room ? "" : wrong("nothing, although the integer part fits");
    }
    bool sign = got[0] == '-';
    if (sign && !std::signbit(v)) return wrong("negative sign for a non-negative value");
    if (needSign && !sign) return wrong("sign missing");
    auto body = got.substr(sign ? 1 : 0);
    size_t bodyRoom = room - (sign ? 1 : 0);
    if (whole.size() > bodyRoom) return wrong("integer part does not fit, so nothing may be appended");
    if (body.substr(0, whole.size()) != whole) return wrong("wrong integer part");
    auto rest = body.substr(whole.size());
    size_t restRoom = bodyRoom - whole.size();
    size_t want = p > 0 ? std::min<size_t>(restRoom, size_t(p) + 1) : 0;
    if (rest.size() != want) return wrong("wrong number of decimals");
    if (want == 0)
    {
        if (!sign && needSign) return wrong("sign missing");
        return "";
    }
    if (rest[0] != '.') return wrong("no decimal point after the integer part");
    long double printed = std::trunc((long double)(a)), unit = 1;
    bool nonzero = whole != "0";
    for (char ch: rest.substr(1))
    {
        if (ch < '0' || ch > '9') return wrong("not a decimal digit");
        unit /= 10;
        printed += unit * (ch - '0');
        if (ch != '0') nonzero = true;
    }
    if (nonzero && v < 0 && !sign) return wrong("sign missing");
    const long double eps = 6e-8L;
    if (printed > (long double)(a) + eps) return wrong("printed magnitude exceeds the value");
    if (printed <= (long double)(a) - unit - eps) return wrong("printed magnitude is a unit of the last place or more below the value");
    return "";
}

void c03(Ctx &c)
{
    auto f = makeFixture(c, false);
    int p = 0;
    bool interesting = false;
    while (c.more(10))
    {
        Ctx::Scope s(c);
        bystander(c, f);
        switch (c.oneOf({ 8, 4, 2, 1, 2 }))
        {
            case 0:
            {
                auto before = f.content();
                float v = genFloat(c, false);
                c.trace("float %.9g", double(v));
                auto &r = (f.out << v);
                PBT_CHECK(c, &r == &f.out, "operator<<(float) does not return the object");
                auto after = f.content();
                PBT_CHECK(c, after.size() >= before.size() && after.compare(0, before.size(), before) == 0, "earlier output changed");
                auto room = f.buf.size() - before.size();
                PBT_CHECK(c, after.size() <= f.buf.size(), "more appended than fits");
                auto why = judgeFloat(v, p, room, std::string_view(after).substr(before.size()));
                PBT_CHECK(c, why.empty(), "%s", why.c_str());
                if (p > 0 && v != std::trunc(v)) { interesting = true; c.label("fraction printed"); }
                if (after.size() == f.buf.size() && room > 0) c.label("cut at capacity");
                if (after.size() == before.size()) c.label("refused");
                if (v < 0 && v > -1) c.label("in (-1,0)");
                break;
            }
            case 1:
                p = int(c.oneOf({ 9, 1 }) == 0 ? c.range(0, 10) : c.range(0, INT32_MAX));
                c.trace("precision %d", p);
                f.out << BufferedOut::precision { p };
                break;
            case 2: // widths and fills do not concern floats
                switch (c.uniform(3))
                {
                    case 0: f.out << "t="; c.trace("text"); break;
                    case 1: f.out << BufferedOut::fill { '*' }; c.trace("fill *"); break;
                    case 2: f.out << BufferedOut::width { int(c.range(0, 12)) }; c.trace("width"); break;
                    default: f.out << BufferedOut::width { 0 } << int(c.range(-5, 500)); c.trace("int"); break;
                }
                break;
            case 3: fillUp(c, f); break;
            default: c.trace("clear"); f.out.clear(); p = 0; break;
        }
    }
    if (interesting) c.nontrivial();
}

// Finite floats from 2^31 up: see known_findings.txt. Reports each specific input that fails.
void c03Once(std::string &report)
{
    report = "known-finding inputs still failing:";
    for (float v: { 2147483648.f, -2147483904.f, 4294967296.f, 1e20f, 3.4028234e38f })
    {
        char b[64];
        BufferedOut o { embedded::MemoryView<char>(b, sizeof b) };
        o << v;
        // judged with exact arithmetic: the printed integer must be the value
        char exact[64];
        snprintf(exact, sizeof exact, "%.0f", double(v));
        char name[80];
        snprintf(name, sizeof name, " FINDING[float %.9g]", double(v));
        if (o.asStringView() != exact) report += name;
    }
}

// ---- C04 -----------------------------------------------------------------------------------------
void c04(Ctx &c)
{
    auto f = makeFixture(c, c.chance(1, 8));
    std::string model;
    bool interesting = false;
    const size_t cap = f.buf.size();
    while (c.more(12))
    {
        Ctx::Scope s(c);
        bystander(c, f);
        std::string add;
        switch (c.oneOf({ 5, 5, 4, 4, 5, 1, 1, 2, 1 }))
        {
            case 8:
            {
                // a part of the output so far once more
                auto own = f.out.asStringView();
                const size_t from = c.uniform(own.size()), n = std::min<size_t>(own.size() - from, c.uniform(40));
                add = std::string(own.substr(from, n));
                c.trace("own output from %zu, %zu characters", from, n);
                if (c.boolean()) f.out << own.substr(from, n);
                else
                {
                    auto bytes = add;
                    add.clear();
                    f.out << embedded::ConstBytesView(f.out.data().subspan(from, n));
                    for (size_t i = 0; i < bytes.size() && model.size() + add.size() + 2 <= cap; ++i)
                    {
                        char t[3];
                        snprintf(t, sizeof t, "%02X", uint8_t(bytes[i]));
                        add += t;
                    }
                }
                break;
            }
            case 0:
            {
                add = genText(c, false, 70, cap - model.size());
                c.trace("cstr %s", show(add).c_str());
                Exact e(add, true);
                auto &r = (f.out << static_cast<const char*>(e.p.get()));
                PBT_CHECK(c, &r == &f.out, "operator<< does not return the object");
                break;
            }
            case 1:
            {
                add = genText(c, true, 70, cap - model.size());
                c.trace("sv %s", show(add).c_str());
                Exact e(add, false);
                auto &r = (f.out << std::string_view(e.p.get(), e.n));
                PBT_CHECK(c, &r == &f.out, "operator<< does not return the object");
                if (add.find('\0') != std::string::npos) c.label("embedded NUL");
                break;
            }
            case 2: { char ch = char(c.byte()); c.trace("char %d", ch); if (c.boolean()) f.out << ch; else f.out.addChar(ch); add = ch; break; }
            case 3:
            {
                unsigned char b = c.byte();
                c.trace("byte %02x", b);
                f.out << b;
                char t[3];
                snprintf(t, sizeof t, "%02X", b);
                add = cap - model.size() >= 2 ? t : "";
                break;
            }
            case 4:
            {
                auto bytes = genText(c, true, 70, cap - model.size(), true);
                if (bytes.size() > 255) c.label("more than 255 bytes");
                if (bytes.size() > 65535) c.label("more than 65535 bytes");
                c.trace("bytes[%zu] %s", bytes.size(), show(bytes).c_str());
                Exact e(bytes, false);
                f.out << embedded::ConstBytesView(reinterpret_cast<const uint8_t*>(e.p.get()), e.n);
                for (size_t i = 0; i < bytes.size() && model.size() + add.size() + 2 <= cap; ++i)
                {
                    char t[3];
                    snprintf(t, sizeof t, "%02X", uint8_t(bytes[i]));
                    add += t;
                }
                break;
            }
            case 5: { auto before = f.content(); fillUp(c, f); model.append(f.content().substr(before.size())); break; }
            case 6: c.trace("clear"); f.out.clear(); model.clear(); break;
            default: // formatting must not affect text
                c.trace("format");
                f.out << BufferedOut::width { int(c.range(0, 20)) } << BufferedOut::fill { char(c.byte()) } << BufferedOut::precision { int(c.range(0, 9)) };
                break;
        }
        if (model.size() + add.size() > cap) { interesting = true; c.label("cut"); }
        else if (model.size() + add.size() == cap && !add.empty()) c.label("exact fit");
        model += add.substr(0, cap - model.size());
        auto got = f.content();
        PBT_CHECK(c, got == model, "output is %s, expected %s (capacity %zu)", show(got).c_str(), show(model).c_str(), cap);
        if (cap < 1000) PBT_CHECK(c, f.buf.intact(), "bytes outside the buffer were changed");
    }
    PBT_CHECK(c, f.buf.intact(), "bytes outside the buffer were changed");
    if (interesting) c.nontrivial();
}

// ---- C05 -----------------------------------------------------------------------------------------
void checkViews(Ctx &c, Fixture &f, const std::string &model)
{
    const auto &out = f.out;
    auto* base = reinterpret_cast<const char*>(f.buf.data());
    PBT_CHECK(c, out.size() == model.size(), "size() is %zu, the output is %zu long", size_t(out.size()), model.size());
    auto sv = out.asStringView();
    auto d = f.out.data();
    auto cd = out.data();
    PBT_CHECK(c, sv.size() == model.size(), "text view of %zu bytes, expected %zu", sv.size(), model.size());
    PBT_CHECK(c, d.size() == model.size(), "byte view of %zu bytes, expected %zu", size_t(d.size()), model.size());
    PBT_CHECK(c, cd.size() == model.size(), "const byte view of %zu bytes, expected %zu", size_t(cd.size()), model.size());
    PBT_CHECK(c, sv.data() == base && reinterpret_cast<const char*>(d.begin()) == base && reinterpret_cast<const char*>(cd.begin()) == base, "a view does not start at the buffer's first byte");
    PBT_CHECK(c, static_cast<uint8_t*>(f.out) == f.buf.data() && static_cast<const uint8_t*>(out) == f.buf.data(), "byte pointer is not the buffer");
    PBT_CHECK(c, memcmp(base, model.data(), model.size()) == 0, "content differs from what was accepted");
    PBT_CHECK(c, out.capacity() == f.buf.size(), "capacity() is %zu, the buffer has %zu bytes", size_t(out.capacity()), f.buf.size());
}

void c05(Ctx &c)
{
    auto f = makeFixture(c, true);
    std::string model;
    checkViews(c, f, model);
    size_t clears = 0, maxSize = 0;
    while (c.more(14))
    {
        Ctx::Scope s(c);
        bystander(c, f);
        switch (c.oneOf({ 10, 2, 3 }))
        {
            case 0:
                anyInsertion(c, f.out, false, false);
                break;
            case 1: fillUp(c, f); break;
            default:
            {
                // random formatting, then clear, then the defaults must be in force
                if (c.boolean()) f.out << BufferedOut::width { int(c.range(0, 20)) };
                if (c.boolean()) f.out << BufferedOut::fill { char(c.byte()) };
                if (c.boolean()) f.out << BufferedOut::precision { int(c.range(0, 9)) };
                c.trace("formats, clear");
                f.out.clear();
                model.clear();
                checkViews(c, f, model);
                ++clears;
                auto probe = c.uniform(3);
                if (f.buf.size() < 24) break;
                if (probe == 0) { f.out << -37; PBT_CHECK(c, f.content() == "-37", "after clear -37 prints as %s", show(f.content()).c_str()); }
                else if (probe == 1) { f.out << BufferedOut::width { 6 } << 37; PBT_CHECK(c, f.content() == "    37", "after clear 37 with width 6 prints as %s", show(f.content()).c_str()); }
                else if (probe == 2) { f.out << 2.5f; PBT_CHECK(c, f.content() == "2", "after clear 2.5 prints as %s", show(f.content()).c_str()); }
                break;
            }
        }
        auto now = f.content();
        PBT_CHECK(c, now.size() >= model.size() && now.compare(0, model.size(), model) == 0, "earlier output changed");
        model = now;
        maxSize = std::max(maxSize, model.size());
        checkViews(c, f, model);
    }
    if (maxSize > 65535) c.label("more than 64 KiB of output");
    if (clears) c.label("cleared");
    if (clears && maxSize > 0) c.nontrivial();
    if (maxSize > 65535) c.nontrivial();
}

} // namespace

namespace pbt
{
const std::vector<Property> &properties()
{
    static const std::vector<Property> p {
#if PROP == 1
        { "C01", c01, 30000, 900000, "a history of insertions into a buffer of generated size; non-trivial: at least two insertions and the output came within 3 bytes of the end" },
#elif PROP == 2
        { "C02", c02, 80000, 2500000, "a history of widths, fills, integers and text; non-trivial: an integer with a pending width or one that does not fit" },
#elif PROP == 3
        { "C03", c03, 120000, 4000000, "a history of precisions, floats and text; non-trivial: a float with a fractional part printed with decimals", c03Once },
#elif PROP == 4
        { "C04", c04, 50000, 1500000, "a history of texts, characters, bytes and byte views against a reference string; non-trivial: an insertion longer than the room left" },
#elif PROP == 5
        { "C05", c05, 40000, 900000, "a history of insertions and clears; non-trivial: cleared at least once with output present, or more than 65535 bytes of output" },
#endif
    };
    return p;
}
}
