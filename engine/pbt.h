// Choice-sequence property-based testing engine. See DESIGN.md.
#pragma once
#include <algorithm>
#include <array>
#include <cerrno>
#include <cinttypes>
#include <csignal>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <string_view>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define PBT_HAS_ASAN_FEATURE 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__) || defined(PBT_HAS_ASAN_FEATURE)
#include <sanitizer/asan_interface.h>
#define PBT_ASAN 1
#endif

namespace pbt
{

struct Failure { std::string message; };
struct Discard {};

// ---- state shared between a worker and its parent -------------------------------------------
constexpr size_t maxChoices = 1u << 18;
constexpr size_t maxLabels = 96;
struct Shared
{
    uint64_t caseIndex;
    uint64_t nChoices;
    uint64_t evaluations;
    uint64_t nontrivial;
    uint64_t discarded;
    uint64_t nLabels;
    char labelName[maxLabels][48];
    uint64_t labelCount[maxLabels];
    char message[4096];
    char text[20000];
    uint64_t choices[maxChoices];
    uint64_t sampleSeeds[8];
    uint64_t nSamples;
};

inline uint64_t splitmix(uint64_t &s)
{
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

// Literals of the sources under test, filled in by the build (see check).
struct Mined { const int64_t* ints; size_t nInts; const char* const* strs; const size_t* strLens; size_t nStrs; };
Mined mined();

bool thoroughTier();

struct Span { size_t begin, end; };

class Ctx
{
public:
    enum class Mode { Random, Replay, Bytes };
    explicit Ctx(Shared* shared) : shm(shared) { shm->nChoices = 0; }

    Mode mode = Mode::Random;
    uint64_t rngState = 0;
    const std::vector<uint64_t>* replay = nullptr;
    const uint8_t* bytes = nullptr;
    size_t nBytes = 0, bytePos = 0;

    bool explaining = false;
    std::string text;
    bool isNontrivial = false;
    std::vector<Span> spans;
    std::vector<const char*> caseLabels;

    // ---- primitive choice: a value in [0, max]; 0 is the simplest ----
    uint64_t choice(uint64_t max, const std::function<uint64_t()> &randomValue)
    {
        uint64_t v = 0;
        if (shm->nChoices >= maxChoices)
        {
            throw Discard {};
        }
        switch (mode)
        {
            case Mode::Random: v = randomValue(); break;
            case Mode::Replay: v = shm->nChoices < replay->size() ? (*replay)[shm->nChoices] : 0; break;
            case Mode::Bytes:
            {
                size_t width = max <= 0xFF ? 1 : max <= 0xFFFF ? 2 : max <= 0xFFFFFFFFull ? 4 : 8;
                for (size_t i = 0; i < width && bytePos < nBytes; ++i)
                {
                    v |= uint64_t(bytes[bytePos++]) << (8 * i);
                }
                if (max != UINT64_MAX)
                {
                    v %= max + 1;
                }
                break;
            }
        }
        v = std::min(v, max);
        shm->choices[shm->nChoices++] = v;
        return v;
    }
    uint64_t rng() { return splitmix(rngState); }
    uint64_t below(uint64_t max) // uniform in [0,max], not recorded
    {
        return max == UINT64_MAX ? rng() : rng() % (max + 1);
    }

    uint64_t uniform(uint64_t max) { return choice(max, [&] { return below(max); }); }
    bool boolean() { return uniform(1) != 0; }
    // true with probability num/den; shrinks to false
    bool chance(unsigned num, unsigned den)
    {
        return choice(1, [&] { return below(den - 1) < num ? 1 : 0; }) != 0;
    }
    // integer in [lo,hi]: uniform, small, edges, mined constants; shrinks towards lo
    int64_t range(int64_t lo, int64_t hi) { return around(lo, hi, lo); }
    // ... shrinks towards origin
    int64_t around(int64_t lo, int64_t hi, int64_t origin)
    {
        const uint64_t max = uint64_t(hi) - uint64_t(lo);
        uint64_t c = choice(max, [&]() -> uint64_t { return toRank(randomIn(lo, hi, origin), lo, hi, origin); });
        return fromRank(c, lo, hi, origin);
    }
    // uniform integer, shrinks towards origin
    int64_t flat(int64_t lo, int64_t hi, int64_t origin)
    {
        const uint64_t max = uint64_t(hi) - uint64_t(lo);
        uint64_t c = choice(max, [&]() -> uint64_t { return toRank(int64_t(uint64_t(lo) + below(max)), lo, hi, origin); });
        return fromRank(c, lo, hi, origin);
    }
    // any 64-bit pattern, biased to interesting ones
    uint64_t bits64()
    {
        return choice(UINT64_MAX, [&]() -> uint64_t { return uint64_t(randomIn(INT64_MIN, INT64_MAX, 0)); });
    }
    uint32_t bits32()
    {
        return uint32_t(choice(UINT32_MAX, [&]() -> uint64_t { return uint32_t(randomIn(INT32_MIN, int64_t(UINT32_MAX), 0)); }));
    }
    // a size: mostly small, sometimes up to max
    size_t size(size_t max)
    {
        return size_t(choice(max, [&]() -> uint64_t {
            switch (below(7))
            {
                case 0: return below(std::min<uint64_t>(max, 2));
                case 1: case 2: return below(std::min<uint64_t>(max, 8));
                case 3: case 4: return below(std::min<uint64_t>(max, 40));
                case 5: return below(max);
                default: return uint64_t(randomIn(0, int64_t(max), 0));
            }
        }));
    }
    template<typename T> const T &pick(const std::vector<T> &v) { return v[uniform(v.size() - 1)]; }
    template<typename T> T pick(std::initializer_list<T> v) { return *(v.begin() + uniform(v.size() - 1)); }
    // sizes at which narrow counters wrap: around 2^7, 2^8, 2^9, 2^15, 2^16, 2^17 (up to max)
    size_t wrapSize(size_t max)
    {
        static const size_t at[] = { 127, 256, 510, 512, 32767, 65535, 65536, 131070, 131072 };
        size_t base = at[uniform(8)];
        return std::min<size_t>(max, base + size_t(around(-3, 40, 0)));
    }
    // n bytes from a single choice
    std::string bulk(size_t n)
    {
        uint64_t s = uniform(UINT32_MAX);
        std::string r(n, 0);
        for (size_t i = 0; i < n; i += 8)
        {
            uint64_t v = splitmix(s);
            memcpy(&r[i], &v, std::min<size_t>(8, n - i));
        }
        return r;
    }
    // weighted alternative; alternative 0 is the simplest
    size_t oneOf(std::initializer_list<unsigned> weights)
    {
        unsigned total = 0;
        for (auto w: weights) total += w;
        return choice(weights.size() - 1, [&]() -> uint64_t {
            uint64_t r = below(total - 1), i = 0;
            for (auto w: weights)
            {
                if (r < w) return i;
                r -= w;
                ++i;
            }
            return 0;
        });
    }
    // loop guard: while (ctx.more(avg)) { Ctx::Scope s(ctx); ... }
    // One history in 120 is some 25 times as long as the others.
    bool more(unsigned avg)
    {
        return choice(1, [&]() -> uint64_t {
            if (stretch == 0) stretch = below(119) == 0 ? 25 : 1;
            return below(uint64_t(avg) * (depth == 0 ? stretch : 1)) != 0 ? 1 : 0;
        }) != 0;
    }
    unsigned stretch = 0, depth = 0;

    uint8_t byte() { return uint8_t(choice(255, [&]() -> uint64_t { return below(3) == 0 ? uint64_t(randomIn(0, 255, 0)) : below(255); })); }

    // ---- bookkeeping ----
    struct Scope
    {
        Ctx &ctx;
        size_t index;
        explicit Scope(Ctx &c) : ctx(c), index(c.spans.size()) { ++c.depth; c.spans.push_back({ size_t(c.shm->nChoices), 0 }); }
        ~Scope() { --ctx.depth; ctx.spans[index].end = ctx.shm->nChoices; }
    };
    void nontrivial() { isNontrivial = true; }
    void label(const char* l)
    {
        for (auto x: caseLabels) if (x == l || strcmp(x, l) == 0) return;
        caseLabels.push_back(l);
    }
    void trace(const char* fmt, ...) __attribute__((format(printf, 2, 3)))
    {
        if (!explaining || text.size() > 20000) return;
        char buf[2048];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        text += buf;
        text += "; ";
        snprintf(shm->text, sizeof shm->text, "%s", text.c_str()); // survives a crash
    }
    [[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3)))
    {
        char buf[3000];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        throw Failure { buf };
    }
    [[noreturn]] void discard() { throw Discard {}; }
    uint64_t hash() const
    {
        uint64_t h = 1469598103934665603ull;
        for (size_t i = 0; i < shm->nChoices; ++i)
        {
            h = (h ^ shm->choices[i]) * 1099511628211ull;
            h ^= h >> 29;
        }
        return h;
    }
    Shared* shm;

    int64_t randomIn(int64_t lo, int64_t hi, int64_t origin)
    {
        const uint64_t width = uint64_t(hi) - uint64_t(lo);
        switch (below(9))
        {
            case 0: // near the bottom / top
                return below(1) ? int64_t(uint64_t(lo) + std::min(width, below(3))) : int64_t(uint64_t(hi) - std::min(width, below(3)));
            case 1: // near the origin
            {
                int64_t d = int64_t(below(8)) - 4;
                return clampAdd(origin, d, lo, hi);
            }
            case 2: case 3: // a constant of the code under test, or its neighbour
            {
                auto m = mined();
                if (m.nInts)
                {
                    for (int tries = 0; tries < 8; ++tries)
                    {
                        int64_t v = m.ints[below(m.nInts - 1)];
                        uint64_t k = below(9);
                        v += k == 0 ? -1 : k == 1 ? 1 : k == 2 ? -v - v : 0;
                        if (v >= lo && v <= hi) return v;
                    }
                }
                return int64_t(uint64_t(lo) + below(width));
            }
            case 4: // power of two and neighbours
            {
                for (int tries = 0; tries < 6; ++tries)
                {
                    int64_t v = int64_t(uint64_t(1) << below(63));
                    v = int64_t(uint64_t(v) + below(2) - 1);
                    if (below(3) == 0) v = int64_t(0 - uint64_t(v));
                    if (v >= lo && v <= hi) return v;
                }
                return int64_t(uint64_t(lo) + below(width));
            }
            case 5: // log-uniform distance from the origin
            {
                for (int tries = 0; tries < 4; ++tries)
                {
                    uint64_t d = rng() >> below(63);
                    int64_t v = below(1) ? int64_t(uint64_t(origin) + d) : int64_t(uint64_t(origin) - d);
                    if (v >= lo && v <= hi) return v;
                }
                return int64_t(uint64_t(lo) + below(width));
            }
            default:
                return int64_t(uint64_t(lo) + below(width));
        }
    }

private:
    static int64_t clampAdd(int64_t o, int64_t d, int64_t lo, int64_t hi)
    {
        if (d < 0) return uint64_t(o) - uint64_t(lo) >= uint64_t(-d) ? o + d : lo;
        return uint64_t(hi) - uint64_t(o) >= uint64_t(d) ? o + d : hi;
    }
    // rank: 0 -> origin, then alternately above and below, then the remaining side
    static uint64_t toRank(int64_t v, int64_t lo, int64_t hi, int64_t origin)
    {
        const uint64_t up = uint64_t(hi) - uint64_t(origin), down = uint64_t(origin) - uint64_t(lo), both = std::min(up, down);
        if (v >= origin)
        {
            uint64_t d = uint64_t(v) - uint64_t(origin);
            return d == 0 ? 0 : d <= both ? 2 * d - 1 : both + d;
        }
        uint64_t d = uint64_t(origin) - uint64_t(v);
        return d <= both ? 2 * d : both + d;
    }
    static int64_t fromRank(uint64_t c, int64_t lo, int64_t hi, int64_t origin)
    {
        const uint64_t up = uint64_t(hi) - uint64_t(origin), down = uint64_t(origin) - uint64_t(lo), both = std::min(up, down);
        if (c == 0) return origin;
        if (both >= (UINT64_MAX >> 1) || c <= 2 * both)
        {
            return c % 2 ? int64_t(uint64_t(origin) + (c + 1) / 2) : int64_t(uint64_t(origin) - c / 2);
        }
        uint64_t d = c - both;
        return up > down ? int64_t(uint64_t(origin) + d) : int64_t(uint64_t(origin) - d);
    }
};

#define PBT_CHECK(ctx, cond, ...) do { if (!(cond)) (ctx).fail(__VA_ARGS__); } while (0)

inline std::string show(std::string_view s, size_t limit = 120)
{
    std::string r = "\"";
    for (size_t i = 0; i < s.size() && i < limit; ++i)
    {
        unsigned char c = s[i];
        char b[8];
        if (c < 32 || c >= 127 || c == '"' || c == '\\') { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
        else r += char(c);
    }
    r += s.size() > limit ? "\"..." : "\"";
    return r;
}

// A buffer of exactly `size` bytes inside a larger arena of known bytes; everything around it is poisoned
// for AddressSanitizer where its granularity permits and compared with the pattern in check().
class GuardedBuf
{
public:
    explicit GuardedBuf(size_t size, size_t misalign = 0, size_t slack = 256)
    : n(size), slackSize((slack + 15) & ~size_t(15)), arena(slackSize * 2 + size + 32 + misalign), off(slackSize + misalign)
    {
        reset();
    }
    GuardedBuf(const GuardedBuf &) = delete;
    ~GuardedBuf() { unpoison(); }
    uint8_t* data() { return base() + off; }
    size_t size() const { return n; }
    void protect()
    {
#ifdef PBT_ASAN
        __asan_poison_memory_region(base(), off);
        __asan_poison_memory_region(base() + off + n, total() - off - n);
#endif
    }
    void unpoison()
    {
#ifdef PBT_ASAN
        __asan_unpoison_memory_region(base(), total());
#endif
    }
    // true if nothing outside [data, data+size) was changed
    bool intact()
    {
        unpoison();
        bool ok = true;
        for (size_t i = 0; i < total(); ++i)
        {
            if ((i < off || i >= off + n) && base()[i] != pattern(i)) ok = false;
        }
        protect();
        return ok;
    }
    void reset()
    {
        unpoison();
        for (size_t i = 0; i < total(); ++i) base()[i] = pattern(i);
        protect();
    }

private:
    static uint8_t pattern(size_t i) { return uint8_t(0xA5 ^ (i * 37)); }
    uint8_t* base() { return reinterpret_cast<uint8_t*>((reinterpret_cast<uintptr_t>(arena.data()) + 15) & ~uintptr_t(15)); }
    size_t total() const { return arena.size() - 16; }
    size_t n, slackSize;
    std::vector<uint8_t> arena;
    size_t off;
};

// ---- what a harness provides ------------------------------------------------------------------
struct Property
{
    const char* name;
    void (*run)(Ctx &);
    unsigned quickCases;    // per worker
    unsigned thoroughCases; // per worker
    const char* rule;
    void (*once)(std::string &report) = nullptr; // optional: exhaustive or fixed part, run once; throws Failure
};
const std::vector<Property> &properties();

// ---- driver --------------------------------------------------------------------------------------
class Driver
{
public:
    static int main(int argc, char** argv);
};

} // namespace pbt
