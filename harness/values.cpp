// C10 C11 (MemoryView), C12 (byte order), C23 (geometry).
#include "pbt.h"
#include <algorithm>
#include <iterator>
#include <limits>
#include <memory>
#include <optional>
#include <array>
#include <string_view>
#include <thread>
#include "MemoryView.h"
#include "EndianConversion.h"
#if PROP == 23
#include "graphics/BaseGeometry.h"
#endif

using namespace pbt;

namespace
{
struct Odd { uint8_t b[3]; bool operator==(const Odd &o) const { return !memcmp(b, o.b, 3); } };

size_t genCount(Ctx &c, size_t n)
{
    switch (c.oneOf({ 5, 4, 3 }))
    {
        case 0: return c.uniform(n + 2);
        case 1: return size_t(c.range(0, 70));
        default:
        {
            // very large counts
            size_t d = size_t(c.range(0, int64_t(n) + 3));
            switch (c.uniform(4))
            {
                case 0: return SIZE_MAX - d;
                case 1: return SIZE_MAX / 2 + 1 - d;
                case 2: return SIZE_MAX / 2 + d;
                case 3: return (size_t(1) << 32) - 1 + d;
                default: return size_t(c.bits64());
            }
        }
    }
}

template<typename T> using Mutable = std::remove_const_t<T>;

// ---- C10 -----------------------------------------------------------------------------------------
template<typename T>
void slices(Ctx &c)
{
    using View = embedded::MemoryView<T>;
    const size_t n = c.chance(1, 40) ? c.wrapSize(SIZE_MAX) : c.size(60);
    if (n > 65535) c.label("more than 65535 elements");
    std::unique_ptr<Mutable<T>[]> data(new Mutable<T>[n]);
    for (size_t i = 0; i < n; ++i) { uint32_t v = uint32_t(i * 2654435761u + 17); memcpy(&data[i], &v, std::min(sizeof(T), sizeof v)); }
    View v(data.get(), n);
    size_t start = 0, len = n;
    bool interesting = false;
    c.trace("view of %zu", n);
    size_t depth = 0;
    while (c.more(4))
    {
        Ctx::Scope s(c);
        size_t off = 0, cnt = 0;
        View r;
        size_t wantLen;
        switch (c.uniform(3))
        {
            case 0:
                off = genCount(c, len);
                r = v.subspan(off);
                c.trace("subspan(%zu)", off);
                wantLen = off < len ? len - off : 0;
                break;
            case 1:
                off = genCount(c, len);
                cnt = genCount(c, len);
                r = v.subspan(off, cnt);
                c.trace("subspan(%zu, %zu)", off, cnt);
                wantLen = off < len ? std::min(len - off, cnt) : 0;
                if (off < len && cnt < len - off) interesting = true;
                if (off < len && cnt >= len - off) c.label("count beyond the end");
                break;
            case 2:
                cnt = genCount(c, len);
                r = v.first(cnt);
                c.trace("first(%zu)", cnt);
                wantLen = std::min(len, cnt);
                break;
            default:
                cnt = genCount(c, len);
                r = v.last(cnt);
                c.trace("last(%zu)", cnt);
                wantLen = std::min(len, cnt);
                off = len - wantLen;
                break;
        }
        if (off >= len && len > 0) c.label("offset at or past the end");
        PBT_CHECK(c, r.size() == wantLen, "the slice has %zu elements, expected %zu", size_t(r.size()), wantLen);
        PBT_CHECK(c, r.empty() == (wantLen == 0), "empty() is wrong");
        PBT_CHECK(c, size_t(r.end() - r.begin()) == wantLen, "end() - begin() is not the size");
        if (wantLen > 0)
        {
            PBT_CHECK(c, r.begin() == data.get() + start + off, "the slice does not start at element %zu of its parent", off);
            for (size_t i = 0; i < wantLen; i += wantLen > 300 ? 61 : 1) PBT_CHECK(c, !memcmp(&r[i], &data[start + off + i], sizeof(T)), "element %zu differs", i);
        }
        PBT_CHECK(c, v.size() == len && v.begin() == (len ? data.get() + start : v.begin()), "slicing changed the parent");
        if (++depth > 1) interesting = true;
        start = wantLen ? start + off : start;
        len = wantLen;
        v = r;
    }
    if (interesting) c.nontrivial();
}

void c10(Ctx &c)
{
    switch (c.uniform(5))
    {
        case 0: slices<uint8_t>(c); break;
        case 1: slices<const uint8_t>(c); break;
        case 2: slices<char>(c); break;
        case 3: slices<uint16_t>(c); break;
        case 4: slices<Odd>(c); break;
        default: slices<const double>(c); break;
    }
}

// ---- C11 -----------------------------------------------------------------------------------------
template<typename T>
void agree(Ctx &c, embedded::MemoryView<T> v, Mutable<T>* p, size_t n, const char* what)
{
    PBT_CHECK(c, v.size() == n && v.begin() == p && v.data() == p && v.end() == p + n && v.cbegin() == p && v.cend() == p + n, "%s: wrong start or extent", what);
    PBT_CHECK(c, v.empty() == (n == 0) && v.size_bytes() == n * sizeof(T), "%s: empty() or size_bytes() is wrong", what);
    size_t i = 0;
    for (auto &x: v)
    {
        PBT_CHECK(c, i < n && &x == p + i && &v[i] == p + i, "%s: iteration step %zu", what, i);
        ++i;
    }
    PBT_CHECK(c, i == n, "%s: iteration visits %zu of %zu elements", what, i, n);
    for (auto it = v.rbegin(); it != v.rend(); ++it)
    {
        PBT_CHECK(c, i > 0 && &*it == p + i - 1, "%s: reverse iteration at %zu", what, i);
        --i;
    }
    PBT_CHECK(c, i == 0, "%s: reverse iteration leaves %zu elements", what, i);
    i = n;
    for (auto it = v.crbegin(); it != v.crend(); ++it)
    {
        PBT_CHECK(c, i > 0 && &*it == p + i - 1, "%s: const reverse iteration at %zu", what, i);
        --i;
    }
    PBT_CHECK(c, i == 0, "%s: const reverse iteration leaves %zu elements", what, i);
    if (n > 0) PBT_CHECK(c, &v.front() == p && &v.back() == p + n - 1, "%s: front or back", what);
    auto b = v.as_bytes();
    PBT_CHECK(c, b.size() == n * sizeof(T) && b.begin() == reinterpret_cast<const uint8_t*>(p), "%s: as_bytes covers %zu bytes", what, size_t(b.size()));
    for (size_t k = 0; k < b.size(); ++k) PBT_CHECK(c, b[k] == reinterpret_cast<const uint8_t*>(p)[k], "%s: byte %zu", what, k);
}

template<typename T>
void conversions(Ctx &c)
{
    using embedded::MemoryView;
    const size_t n = c.chance(1, 40) ? c.wrapSize(SIZE_MAX) : c.size(70);
    if (n > 65535) c.label("more than 65535 elements");
    std::unique_ptr<T[]> data(new T[n]);
    auto* raw = reinterpret_cast<uint8_t*>(data.get());
    if (n > 100) { auto b = c.bulk(n * sizeof(T)); memcpy(raw, b.data(), b.size()); }
    else for (size_t i = 0; i < n * sizeof(T); ++i) raw[i] = c.chance(1, 4) ? 0 : c.byte();
    c.trace("%zu elements of %zu bytes", n, sizeof(T));
    MemoryView<T> v(data.get(), n);
    agree<T>(c, v, data.get(), n, "pointer and size");
    agree<T>(c, MemoryView<T>(data.get(), data.get() + n), data.get(), n, "pointer pair");
    MemoryView<const T> cv(v);
    agree<const T>(c, cv, data.get(), n, "const view of a view");
    MemoryView<const T> cv2 = v;
    agree<const T>(c, cv2, data.get(), n, "implicit const view");
    agree<T>(c, MemoryView<T>(v), data.get(), n, "copy");
    {
        MemoryView<T> as = MemoryView<T>();
        PBT_CHECK(c, as.size() == 0 && as.empty() && as.begin() == as.end(), "a default view is not empty");
        as = v;
        agree<T>(c, as, data.get(), n, "assignment");
    }
    std::array<T, 7> arr;
    memcpy(static_cast<void*>(&arr), raw, std::min(sizeof arr, n * sizeof(T)));
    agree<T>(c, MemoryView<T>(arr), arr.data(), 7, "std::array");
    agree<const T>(c, MemoryView<const T>(arr), arr.data(), 7, "const view of std::array");
    T carr[5];
    agree<T>(c, MemoryView<T>(carr), carr, 5, "C array");
    agree<const T>(c, MemoryView<const T>(carr), carr, 5, "const view of C array");
    // arrays of other lengths
    std::array<T, 0> none {};
    PBT_CHECK(c, MemoryView<T>(none).size() == 0 && MemoryView<T>(none).empty() && MemoryView<const T>(none).size() == 0, "a view of an array without elements is not empty");
    static std::array<T, 1> one;
    static std::array<T, 300> long1;
    static T long2[257];
    agree<T>(c, MemoryView<T>(one), one.data(), 1, "std::array of one");
    switch (c.uniform(15))
    {
        case 1: agree<T>(c, MemoryView<T>(long1), long1.data(), 300, "std::array of 300"); break;
        case 2: agree<T>(c, MemoryView<T>(long2), long2, 257, "C array of 257"); break;
        case 3: agree<const T>(c, MemoryView<const T>(long1), long1.data(), 300, "const view of std::array of 300"); break;
        case 4:
        {
            static std::array<T, 65541> huge1;
            auto hv = c.boolean() ? MemoryView<T>(huge1) : MemoryView<T>(huge1).first(huge1.size());
            PBT_CHECK(c, hv.size() == 65541 && hv.begin() == huge1.data() && hv.as_bytes().size() == sizeof huge1, "view of std::array of 65541 elements");
            break;
        }
        case 5:
        {
            static T huge2[65541];
            MemoryView<T> hv(huge2);
            PBT_CHECK(c, hv.size() == 65541 && hv.begin() == huge2 && &hv.back() == huge2 + 65540, "view of a C array of 65541 elements");
            break;
        }
        default: break;
    }
    // writable bytes
    auto w = v.as_writable_bytes();
    PBT_CHECK(c, w.size() == n * sizeof(T) && w.begin() == raw, "as_writable_bytes covers %zu bytes", size_t(w.size()));
    for (size_t i = 0; i < w.size(); ++i)
    {
        uint8_t x = uint8_t(raw[i] ^ (0x5A + i));
        w[i] = x;
        uint8_t seen;
        memcpy(&seen, reinterpret_cast<const uint8_t*>(&v[i / sizeof(T)]) + i % sizeof(T), 1);
        PBT_CHECK(c, seen == x, "a byte written through as_writable_bytes is not seen in the elements");
    }
    // writing through an element is seen in the bytes
    if (n > 0)
    {
        size_t i = c.uniform(n - 1);
        T x;
        memset(static_cast<void*>(&x), 0xC3, sizeof x);
        v[i] = x;
        PBT_CHECK(c, cv.as_bytes()[i * sizeof(T)] == 0xC3 && v.as_bytes()[(i + 1) * sizeof(T) - 1] == 0xC3, "an element written through the view is not seen in its bytes");
    }
    if constexpr (std::is_same_v<T, char>)
    {
        std::string_view sv = v, csv = cv;
        PBT_CHECK(c, sv.data() == data.get() && sv.size() == n && csv.data() == data.get() && csv.size() == n, "string view of %zu characters, expected %zu", sv.size(), n);
        if (sv.find('\0') != std::string_view::npos) c.label("embedded NUL");
        if (n > 0)
        {
            size_t off = c.uniform(n - 1);
            std::string_view sub = v.subspan(off);
            PBT_CHECK(c, sub.data() == data.get() + off && sub.size() == n - off, "string view of a slice");
        }
    }
    if (n > 1) c.nontrivial();
}

void c11(Ctx &c)
{
    switch (c.uniform(6))
    {
        case 0: conversions<char>(c); break;
        case 1: conversions<uint8_t>(c); break;
        case 2: conversions<uint16_t>(c); break;
        case 3: conversions<uint32_t>(c); break;
        case 4: conversions<Odd>(c); break;
        case 5: conversions<double>(c); break;
        default: conversions<char>(c); break;
    }
}

// ---- C12 -----------------------------------------------------------------------------------------
// The oracle works on the bytes in memory, not on shifts.
uint32_t reverse32(uint32_t v)
{
    uint8_t b[4];
    memcpy(b, &v, 4);
    std::reverse(b, b + 4);
    memcpy(&v, b, 4);
    return v;
}
uint16_t reverse16(uint16_t v)
{
    uint8_t b[2];
    memcpy(b, &v, 2);
    std::swap(b[0], b[1]);
    memcpy(&v, b, 2);
    return v;
}
void one32(uint32_t v)
{
    const uint32_t want = reverse32(v), got = embedded::changeEndianess(v);
    auto fail = [&](const char* what, uint32_t is, uint32_t should) {
        char b[160];
        snprintf(b, sizeof b, "%s of 0x%08x is 0x%08x, expected 0x%08x", what, v, is, should);
        throw Failure { b };
    };
    if (got != want) fail("byte reversal", got, want);
    if (embedded::changeEndianess(got) != v) fail("double reversal", embedded::changeEndianess(got), v);
    float f = embedded::changeEndianessToFloat(v);
    uint32_t fb;
    memcpy(&fb, &f, 4);
    if (fb != want) fail("float reversal", fb, want);
    // the pair form: each 16-bit half on its own
    uint32_t pair = v, pairWant = uint32_t(reverse16(uint16_t(v >> 16))) << 16 | reverse16(uint16_t(v));
    embedded::changeEndianess16x2(&pair);
    if (pair != pairWant) fail("16x2 reversal", pair, pairWant);
    embedded::changeEndianess16x2(&pair);
    if (pair != v) fail("double 16x2 reversal", pair, v);
}
void c12(Ctx &c)
{
    uint32_t v = c.bits32();
    c.trace("0x%08x and 255 values around and derived from it", v);
    one32(v);
    uint64_t s = v;
    for (int i = 0; i < 127; ++i) { one32(v + uint32_t(i) * 0x01010101u); one32(uint32_t(splitmix(s))); }
    // guards: the in-place form touches its word only
    uint32_t words[3] = { 0x11223344, v, 0x55667788 };
    embedded::changeEndianess16x2(&words[1]);
    PBT_CHECK(c, words[0] == 0x11223344 && words[2] == 0x55667788, "the pair form changed a neighbouring word");
    if (v != reverse32(v)) c.nontrivial();
}
void c12Once(std::string &report)
{
    for (uint32_t v = 0; v <= 0xFFFF; ++v)
    {
        uint16_t r = embedded::changeEndianess(uint16_t(v));
        if (r != reverse16(uint16_t(v)) || embedded::changeEndianess(r) != v)
        {
            char b[100];
            snprintf(b, sizeof b, "byte reversal of 0x%04x is 0x%04x", v, r);
            throw Failure { b };
        }
    }
    // every value with at most two bytes set, on a background of zeros and of ones
    for (unsigned p = 0; p < 4; ++p) for (unsigned q = 0; q < p; ++q)
        for (uint32_t x = 0; x < 256; ++x) for (uint32_t y = 0; y < 256; ++y)
        {
            uint32_t v = x << (8 * p) | y << (8 * q);
            one32(v);
            one32(~v);
        }
    report = "all 65536 16-bit values; all 32-bit values with at most two non-zero or at most two non-0xFF bytes";
    // as constants too
    constexpr uint16_t ct16 = embedded::changeEndianess(uint16_t(0x1234));
    constexpr uint32_t ct32 = embedded::changeEndianess(uint32_t(0x12345678));
    if (ct16 != 0x3412 || ct32 != 0x78563412)
        throw Failure { "a constant 16 or 32-bit value is not reversed" };
    // and simply all of them
    std::array<std::thread, 8> workers;
    std::array<std::optional<uint32_t>, 8> wrong;
    for (size_t n = 0; n < workers.size(); ++n)
        workers[n] = std::thread([&wrong, n]
        {
            const uint64_t begin = n << 29, end = (n + 1) << 29;
            for (uint64_t v = begin; v < end; ++v)
            {
                const uint32_t in = uint32_t(v), swapped = __builtin_bswap32(in);
                uint32_t pair = in, bits;
                embedded::changeEndianess16x2(&pair);
                const float f = embedded::changeEndianessToFloat(in);
                memcpy(&bits, &f, 4);
                if (embedded::changeEndianess(in) != swapped || pair != (swapped >> 16 | swapped << 16) || bits != swapped)
                {
                    wrong[n] = in;
                    return;
                }
            }
        });
    for (auto &w: workers) w.join();
    for (auto &w: wrong) if (w) { one32(*w); throw Failure { "a 32-bit value is not reversed" }; }
    report += "; all 2^32 32-bit values in all forms";
}

#if PROP == 23
// ---- C23 -----------------------------------------------------------------------------------------
template<typename T> T num(Ctx &c)
{
    // half the range, so that sums and corner computations do not overflow
    const int64_t lim = std::min<int64_t>(int64_t(std::numeric_limits<T>::max()) / 4, int64_t(1) << 60);
    return c.chance(1, 3) ? T(c.around(-lim, lim, 0)) : T(c.around(-300 > -lim ? -300 : -lim, std::min<int64_t>(300, lim), 0));
}
template<typename T> T factor(Ctx &c) { return T(c.around(-1000, 1000, 1)); }

template<typename T> void geometry(Ctx &c)
{
    using P = embedded::Point<T>;
    using S = embedded::Size<T>;
    using R = embedded::Rect<T>;
    P p { num<T>(c), num<T>(c) };
    P q = c.chance(1, 3) ? p : P { num<T>(c), num<T>(c) };
    if (c.chance(1, 3)) q.x = p.x;
    if (c.chance(1, 3)) q.y = p.y;
    S s { num<T>(c), num<T>(c) }, u { num<T>(c), num<T>(c) };
    c.trace("p (%lld,%lld) q (%lld,%lld) s (%lld,%lld) u (%lld,%lld)", (long long)p.x, (long long)p.y, (long long)q.x, (long long)q.y, (long long)s.width, (long long)s.height, (long long)u.width, (long long)u.height);
    const P moved = p + s;
    PBT_CHECK(c, moved.x == T(p.x + s.width) && moved.y == T(p.y + s.height), "point + size is (%lld,%lld)", (long long)moved.x, (long long)moved.y);
    P in = p;
    auto &ref = (in += s);
    PBT_CHECK(c, &ref == &in && in.x == moved.x && in.y == moved.y, "point += size differs from point + size");
    const S d = s - u;
    PBT_CHECK(c, d.width == T(s.width - u.width) && d.height == T(s.height - u.height), "size - size is (%lld,%lld)", (long long)d.width, (long long)d.height);
    if constexpr (sizeof(T) >= sizeof(int))
    {
        const S a = s + u;
        PBT_CHECK(c, a.width == s.width + u.width && a.height == s.height + u.height, "size + size is (%lld,%lld)", (long long)a.width, (long long)a.height);
        const S back = a - u;
        PBT_CHECK(c, back.width == s.width && back.height == s.height, "(s + u) - u is not s");
        T k = factor<T>(c);
        S small { T(s.width % 1000000), T(s.height % 1000000) };
        const S m = small * k;
        PBT_CHECK(c, m.width == small.width * k && m.height == small.height * k, "size * %lld is (%lld,%lld)", (long long)k, (long long)m.width, (long long)m.height);
        if (k == 0) k = 1;
        const S v = s / k;
        PBT_CHECK(c, v.width == s.width / k && v.height == s.height / k, "size / %lld is (%lld,%lld)", (long long)k, (long long)v.width, (long long)v.height);
    }
    const bool same = p.x == q.x && p.y == q.y;
    PBT_CHECK(c, (p == q) == same, "(%lld,%lld) == (%lld,%lld) is %d", (long long)p.x, (long long)p.y, (long long)q.x, (long long)q.y, p == q);
    PBT_CHECK(c, (p != q) == !same, "(%lld,%lld) != (%lld,%lld) is %d", (long long)p.x, (long long)p.y, (long long)q.x, (long long)q.y, p != q);
    PBT_CHECK(c, (q == p) == same && (q != p) == !same, "equality is not symmetric");

    const R r(p, s);
    PBT_CHECK(c, r.topLeft.x == p.x && r.topLeft.y == p.y && r.size.width == s.width && r.size.height == s.height, "a rectangle does not keep its point and size");
    const R rm = r + u;
    PBT_CHECK(c, rm.topLeft.x == T(p.x + u.width) && rm.topLeft.y == T(p.y + u.height) && rm.size.width == s.width && rm.size.height == s.height, "rectangle + size");
    R ri = r;
    auto &rr = (ri += u);
    PBT_CHECK(c, &rr == &ri && ri.topLeft.x == rm.topLeft.x && ri.topLeft.y == rm.topLeft.y && ri.size.width == s.width && ri.size.height == s.height, "rectangle += size differs from rectangle + size");
    auto bl = r.bottomLeft();
    auto br = r.bottomRight();
    PBT_CHECK(c, bl.x == p.x && bl.y == T(p.y + s.height - 1), "bottomLeft is (%lld,%lld)", (long long)bl.x, (long long)bl.y);
    PBT_CHECK(c, br.x == T(p.x + s.width - 1) && br.y == T(p.y + s.height - 1), "bottomRight is (%lld,%lld)", (long long)br.x, (long long)br.y);
    if constexpr (sizeof(T) >= sizeof(int))
    {
        auto tr = r.topRight();
        PBT_CHECK(c, tr.x == p.x + s.width - 1 && tr.y == p.y, "topRight is (%lld,%lld)", (long long)tr.x, (long long)tr.y);
    }
    // conversion, through a wider and back
    embedded::Rect<long long> w(r);
    PBT_CHECK(c, w.topLeft.x == r.topLeft.x && w.topLeft.y == r.topLeft.y && w.size.width == r.size.width && w.size.height == r.size.height, "conversion to a wider coordinate type changed a number");
    R n(w);
    PBT_CHECK(c, n.topLeft.x == r.topLeft.x && n.topLeft.y == r.topLeft.y && n.size.width == r.size.width && n.size.height == r.size.height, "conversion to a narrower coordinate type changed a number that fits");

    T m[4];
    const bool large = sizeof(T) >= sizeof(int) && c.chance(1, 3);
    const int64_t most = !large ? 50 : sizeof(T) == sizeof(int) ? 20000 : 1000000000;
    for (auto &x: m) x = T(c.around(-most, most, 0));
    const T within = T(!large ? 200 : sizeof(T) == sizeof(int) ? 50000 : 1000000000);
    P v { T(p.x % within), T(p.y % within) };
    embedded::Matrix2x2<T> mat(m[0], m[1], m[2], m[3]);
    P mv = mat * v;
    PBT_CHECK(c, mv.x == T(m[0] * v.x + m[1] * v.y) && mv.y == T(m[2] * v.x + m[3] * v.y), "matrix (%lld %lld; %lld %lld) * (%lld,%lld) is (%lld,%lld)", (long long)m[0], (long long)m[1], (long long)m[2],
              (long long)m[3], (long long)v.x, (long long)v.y, (long long)mv.x, (long long)mv.y);
    if (p.x != 0 && p.y != 0 && s.width != s.height) c.nontrivial();
    if (same) c.label("equal points");
    else if (p.x == q.x || p.y == q.y) c.label("points equal in one coordinate");
}
void c23(Ctx &c)
{
    switch (c.uniform(2))
    {
        case 0: geometry<int>(c); break;
        case 1: geometry<long long>(c); break;
        default: geometry<int16_t>(c); break;
    }
}
#endif

} // namespace

namespace pbt
{
const std::vector<Property> &properties()
{
    static const std::vector<Property> p {
#if PROP == 10
        { "C10", c10, 300000, 6000000, "a chain of slices of a view of 0..60 elements of six types, offsets and counts up to SIZE_MAX; non-trivial: a slice of a slice or a count inside the parent" },
#elif PROP == 11
        { "C11", c11, 50000, 1500000, "conversions of a view of 0..70 elements of seven types; non-trivial: at least two elements" },
#elif PROP == 12
        { "C12", c12, 240000, 1000000, "255 values per case; non-trivial: the value is not its own reversal", c12Once },
#elif PROP == 23
        { "C23", c23, 400000, 6000000, "points, sizes, rectangles and matrices over int, long long and int16_t; non-trivial: non-zero coordinates and different width and height" },
#endif
    };
    return p;
}
}
