// C06-C09: PersistentStorage over generated histories, re-attachments, torn stores and arbitrary memory.
#include "pbt.h"
#include "PersistentStorage.h"
#include <map>
#include <memory>
#include <tuple>

using namespace pbt;
using embedded::PersistentStorage;

namespace
{

template<size_t N, size_t A> struct alignas(A) Blob { uint8_t b[N]; };

struct TypeOps
{
    size_t size, align;
    bool (*set)(PersistentStorage &, std::string_view, const uint8_t*);
    bool (*get)(const PersistentStorage &, std::string_view, uint8_t*);
};
template<typename T> bool setT(PersistentStorage &s, std::string_view k, const uint8_t* p)
{
    auto v = std::make_unique<T>();
    memcpy(static_cast<void*>(v.get()), p, sizeof(T));
    return s.set<T>(k, *v);
}
template<typename T> bool getT(const PersistentStorage &s, std::string_view k, uint8_t* p)
{
    auto r = s.get<T>(k);
    if (!r) return false;
    memcpy(p, &*r, sizeof(T));
    return true;
}
template<typename T> constexpr TypeOps ops() { return { sizeof(T), alignof(T), setT<T>, getT<T> }; }

const TypeOps types[] = {
    ops<Blob<1, 1>>(), ops<Blob<2, 2>>(), ops<Blob<3, 1>>(), ops<Blob<4, 4>>(), ops<Blob<4, 1>>(), ops<Blob<5, 1>>(), ops<Blob<6, 2>>(),
    ops<Blob<7, 1>>(), ops<Blob<8, 8>>(), ops<Blob<9, 1>>(), ops<Blob<10, 2>>(), ops<Blob<12, 4>>(), ops<Blob<16, 16>>(), ops<Blob<24, 8>>(),
    ops<Blob<32, 32>>(), ops<Blob<33, 1>>(), ops<Blob<64, 4>>(), ops<uint32_t>(), ops<double>(), ops<uint16_t>(), ops<uint64_t>(),
    ops<Blob<250, 1>>(), ops<Blob<256, 2>>(), ops<Blob<251, 1>>(),
    ops<Blob<100, 1>>(), ops<Blob<100, 4>>(), ops<Blob<128, 8>>(), ops<Blob<249, 1>>(), ops<Blob<252, 4>>(), ops<Blob<255, 1>>(), ops<Blob<257, 1>>(), ops<Blob<500, 1>>(), ops<Blob<512, 1>>(),
    ops<Blob<1000, 1>>(), ops<Blob<1018, 1>>(), ops<Blob<1024, 1>>(), ops<Blob<2048, 1>>(), ops<Blob<4096, 1>>(), ops<Blob<16384, 1>>(), ops<Blob<32762, 1>>(), ops<Blob<32768, 1>>(),
    // around the largest record
    ops<Blob<65528, 8>>(), ops<Blob<65529, 1>>(), ops<Blob<65530, 1>>(), ops<Blob<65531, 1>>(), ops<Blob<65535, 1>>(), ops<Blob<65536, 4>>(),
    ops<Blob<65540, 4>>(), ops<Blob<131064, 8>>()
};
constexpr size_t nTypes = sizeof types / sizeof *types, nSmall = 21, nMedium = 41;

using Key = std::pair<std::string, size_t>;
using Bytes = std::vector<uint8_t>;

struct World
{
    Ctx &c;
    std::vector<std::string> names;
    bool large, many = false;
    explicit World(Ctx &c, bool longNames) : c(c)
    {
        large = c.chance(1, 30);
        if (large) c.stretch = 1;
        else many = c.chance(1, 400);
        if (many)
        {
            // some hundred records
            c.stretch = 40;
            c.label("many records");
            uint64_t seed = c.uniform(0xFFFFFF), spare = c.uniform(2);
            for (size_t n = 60 + c.uniform(540); n > 0; --n)
            {
                uint64_t v = spare == 0 ? n : splitmix(seed);
                std::string s;
                for (size_t i = 0, len = 1 + v % 4; i < len; ++i) s += char(1 + (v >> (8 * i)) % (spare == 1 ? 8 : 255));
                names.push_back(s);
            }
            return;
        }
        // a small universe of names, prefixes of each other more often than not
        size_t n = 1 + c.size(5);
        for (size_t i = 0; i < n; ++i)
        {
            std::string s;
            size_t len = c.oneOf({ 6, longNames ? 3u : 0u }) == 0 ? c.uniform(4) : 5 + c.uniform(3);
            if (!names.empty() && c.chance(2, 5)) s = names[c.uniform(names.size() - 1)].substr(0, len);
            while (s.size() < len)
            {
                char ch = c.chance(1, 3) ? char(c.byte()) : char('a' + c.uniform(2));
                if (c.chance(1, 12)) ch = 0;
                s += ch;
            }
            // no NUL at the end, where a name is padded with them
            if (!s.empty() && s.back() == 0) s.back() = c.boolean() ? 'z' : 'a';
            if (s.find('\0') != s.npos) c.label("NUL within a name");
            if (longNames && c.chance(1, 10))
            {
                // much longer, and one of the others to a reader that cuts the length
                static const size_t wraps[] = { 4, 8, 16, 256, 65536 };
                s.append(wraps[c.uniform(4)], c.boolean() ? 'a' : 'q');
            }
            names.push_back(s);
        }
    }
    size_t regionSize()
    {
        if (large) return size_t(c.range(65000, 140000));
        if (many) return size_t(c.range(3000, 30000));
        if (c.chance(1, 25)) return c.pick({ 16u, 32u, 64u, 100u, 128u, 256u, 500u, 512u, 1000u, 1024u, 2000u, 2048u, 4000u, 4096u, 8192u, 16384u, 32768u, 65535u, 65536u }) - (c.boolean() ? 0 : c.uniform(1));
        return c.oneOf({ 1, 6, 3 }) == 0 ? c.uniform(7) : size_t(c.range(0, c.boolean() ? 120 : 600));
    }
    const std::string &name() { return names[c.uniform(names.size() - 1)]; }
    const TypeOps &type()
    {
        if (large && c.chance(1, 4)) return types[c.range(nSmall, nMedium - 1)];
        if (large && c.chance(1, 3)) return types[nMedium + c.uniform(nTypes - nMedium - 1)];
        return types[c.oneOf({ 12, 1 }) == 0 ? c.uniform(nSmall - 1) : nSmall + c.uniform(nMedium - nSmall - 1)];
    }
    Bytes value(size_t n)
    {
        Bytes r(n);
        uint64_t seed = c.uniform(0xFFFFFF);
        if (seed < 256) std::fill(r.begin(), r.end(), uint8_t(seed));
        else for (auto &b: r) b = uint8_t(splitmix(seed));
        return r;
    }
};

Bytes snapshot(GuardedBuf &b) { return Bytes(b.data(), b.data() + b.size()); }

// A load into an exact copy; nullopt-like: empty pair
bool load(const PersistentStorage &s, const TypeOps &t, const std::string &name, Bytes &out)
{
    out.assign(t.size, 0xEE);
    std::unique_ptr<char[]> exact(new char[name.size()]); // not terminated
    memcpy(exact.get(), name.data(), name.size());
    return t.get(s, { exact.get(), name.size() }, out.data());
}
bool store(PersistentStorage &s, const TypeOps &t, const std::string &name, const Bytes &v)
{
    std::unique_ptr<char[]> exact(new char[name.size()]);
    memcpy(exact.get(), name.data(), name.size());
    return t.set(s, { exact.get(), name.size() }, v.data());
}

struct Region
{
    GuardedBuf buf;
    Region(size_t n, size_t mis) : buf(n, mis, n > 10000 ? 128 : 256) {}
    embedded::BytesView view() { return { buf.data(), buf.size() }; }
};

const TypeOps &typeOfSize(size_t n)
{
    for (auto &t: types) if (t.size == n) return t;
    return types[0];
}

// Checks every stored key of the model, and a few absent ones.
void checkAll(Ctx &c, World &w, const PersistentStorage &s, const std::map<Key, Bytes> &model, const char* when, bool step = false)
{
    Bytes got;
    if (step && w.large) return;
    if (step && w.many && c.hash() % 32 != 0) return;
    for (auto &[k, v]: model)
    {
        for (auto &t: types)
        {
            if (t.size != k.second) continue;
            PBT_CHECK(c, load(s, t, k.first, got), "%s: %s (%zu bytes) is not found", when, show(k.first).c_str(), k.second);
            PBT_CHECK(c, got == v, "%s: %s (%zu bytes) returns other bytes than stored", when, show(k.first).c_str(), k.second);
        }
    }
    for (size_t k = w.many ? c.hash() % 8 : 0; k < w.names.size(); k += w.many ? 8 : 1)
    {
        auto &n = w.names[k];
        for (size_t i = w.many ? c.hash() % nSmall : 0; i < nSmall; i += w.many ? nSmall : 1)
        {
            if (model.count({ n, types[i].size })) continue;
            PBT_CHECK(c, !load(s, types[i], n, got), "%s: %s (%zu bytes) was never stored but is found", when, show(n).c_str(), types[i].size);
        }
    }
}

// ---- C06 -----------------------------------------------------------------------------------------
void c06(Ctx &c)
{
    World w(c, true);
    Region r(w.regionSize(), c.uniform(15));
    c.trace("region %zu", r.buf.size());
    PersistentStorage s(r.view());
    std::map<Key, Bytes> model;
    size_t overwrites = 0, mixed = 0;
    std::string last;
    while (c.more(w.large ? 6 : 12))
    {
        Ctx::Scope sc(c);
        auto &name = w.name();
        auto &t = w.type();
        if (c.chance(2, 3))
        {
            auto v = w.value(t.size);
            bool ok = store(s, t, name, v);
            c.trace("set %s %zu bytes align %zu -> %d", show(name).c_str(), t.size, t.align, ok);
            if (ok)
            {
                if (model.count({ name, t.size })) ++overwrites;
                model[{ name, t.size }] = v;
            }
        }
        Bytes got;
        auto &t2 = w.type();
        auto &name2 = w.name();
        auto it = model.find({ name2, t2.size });
        bool found = load(s, t2, name2, got);
        PBT_CHECK(c, found == (it != model.end()), "load of %s (%zu bytes) returns %s, expected %s", show(name2).c_str(), t2.size, found ? "a value" : "nothing", found ? "nothing" : "the value stored");
        if (found) PBT_CHECK(c, got == it->second, "load of %s (%zu bytes) returns other bytes than the last ones stored", show(name2).c_str(), t2.size);
        checkAll(c, w, s, model, "after a step", true);
    }
    checkAll(c, w, s, model, "at the end");
    for (auto &[k, v]: model) if (k.first == last) ++mixed; else last = k.first;
    if (overwrites) c.label("overwrite");
    if (mixed) c.label("one name, several sizes");
    if (model.size() >= 2 && (overwrites || mixed)) c.nontrivial();
}

// ---- C07 -----------------------------------------------------------------------------------------
void c07(Ctx &c)
{
    World w(c, true);
    const unsigned initWeight = w.many ? 0 : 1, attachWeight = w.many && c.boolean() ? 1 : 4; // many records only without starting anew
    size_t n = w.regionSize();
    Region a(n, c.uniform(15)), twin(n, c.uniform(15));
    c.trace("region %zu", n);
    // initialisation over whatever was there
    if (c.boolean())
    {
        uint64_t seed = c.uniform(0xFFFF);
        for (size_t i = 0; i < n; ++i) a.buf.data()[i] = twin.buf.data()[i] = uint8_t(splitmix(seed));
    }
    auto s = std::make_unique<PersistentStorage>(a.view(), true);
    for (size_t i = 0; i < n; ++i) PBT_CHECK(c, a.buf.data()[i] == 0, "byte %zu of %zu is not zero after initialisation", i, n);
    checkAll(c, w, *s, {}, "after initialisation");
    auto t = std::make_unique<PersistentStorage>(twin.view(), true);
    std::map<Key, Bytes> model;
    size_t attaches = 0, after = 0;
    while (c.more(w.large ? 8 : 14))
    {
        Ctx::Scope sc(c);
        switch (c.oneOf({ attachWeight == 4 ? 6u : 60u, attachWeight, initWeight }))
        {
            case 0:
            {
                auto &name = w.name();
                auto &type = w.type();
                auto v = w.value(type.size);
                bool x = store(*s, type, name, v), y = store(*t, type, name, v);
                c.trace("set %s %zu bytes -> %d", show(name).c_str(), type.size, x);
                PBT_CHECK(c, x == y, "a store of %s (%zu bytes) is %s by the re-attached storage but %s by the one never re-attached", show(name).c_str(), type.size,
                          x ? "accepted" : "refused", y ? "accepted" : "refused");
                if (x) model[{ name, type.size }] = v;
                if (attaches && x) ++after;
                break;
            }
            case 1:
            {
                auto before = snapshot(a.buf);
                auto fresh = std::make_unique<PersistentStorage>(a.view(), false);
                c.trace("attach");
                PBT_CHECK(c, snapshot(a.buf) == before, "attaching without initialisation changed the region");
                // both answer alike
                for (size_t k = w.many ? c.hash() % 16 : 0; k < w.names.size(); k += w.many ? 16 : 1)
                {
                    auto &name = w.names[k];
                    for (size_t i = 0; i < (w.large ? nTypes : w.many ? 4 : nMedium); ++i)
                    {
                        Bytes g1, g2;
                        bool f1 = load(*s, types[i], name, g1), f2 = load(*fresh, types[i], name, g2);
                        PBT_CHECK(c, f1 == f2 && (!f1 || g1 == g2), "%s (%zu bytes): the old storage finds %s, the re-attached one %s", show(name).c_str(), types[i].size,
                                  f1 ? "a value" : "nothing", !f2 ? "nothing" : f1 ? "another value" : "a value");
                    }
                }
                if (c.chance(3, 4)) s = std::move(fresh);
                ++attaches;
                break;
            }
            default:
            {
                c.trace("initialise again");
                s = std::make_unique<PersistentStorage>(a.view(), true);
                t = std::make_unique<PersistentStorage>(twin.view(), true);
                for (size_t i = 0; i < n; ++i) PBT_CHECK(c, a.buf.data()[i] == 0, "byte %zu of %zu is not zero after initialisation", i, n);
                model.clear();
                break;
            }
        }
        checkAll(c, w, *s, model, "after a step", true);
    }
    checkAll(c, w, *s, model, "at the end");
    PersistentStorage last(a.view(), false);
    checkAll(c, w, last, model, "after a last re-attachment");
    if (attaches) c.label("re-attached");
    if (attaches && after) { c.label("stored after re-attachment"); c.nontrivial(); }
}

// ---- C08 -----------------------------------------------------------------------------------------
void c08(Ctx &c)
{
    World w(c, true);
    Region r(w.regionSize(), c.uniform(15));
    const size_t head = PersistentStorage::DescriptorSize, cap = r.buf.size();
    // initialised, or attached to memory that begins with the end of the chain
    uint64_t garbage = cap >= 2 && c.chance(1, 3) ? 1 + c.uniform(0xFFFF) : 0;
    c.trace("region %zu%s", cap, garbage ? ", attached to garbage without a record" : "");
    if (garbage)
    {
        c.label("attached to garbage");
        for (size_t i = 0; i < cap; ++i) r.buf.data()[i] = i < 2 ? 0 : garbage < 0x4000 ? 0xFF : uint8_t(splitmix(garbage));
    }
    PersistentStorage s(r.view(), garbage == 0);
    std::map<Key, std::pair<size_t, Bytes>> model; // position of the record
    size_t used = 0;
    bool boundary = false;
    size_t refused = 0;
    while (c.more(w.large ? 8 : 16))
    {
        Ctx::Scope sc(c);
        auto &name = w.name();
        // now and then the type that fills the region exactly, or the next one
        const TypeOps* t = &w.type();
        if (c.chance(1, 3))
        {
            size_t room = cap - used;
            for (auto &x: types) if (x.size + head >= room && x.size + head <= room + 2) { t = &x; if (c.boolean()) break; }
        }
        // or one that ends at a round position
        else if (c.chance(1, 4))
        {
            for (size_t round: { 256, 128, 64, 32 })
            {
                const TypeOps* found = nullptr;
                for (auto &x: types) if ((used + head + x.size) % round == 0 && used + head + x.size <= cap) found = &x;
                if (found) { t = found; break; }
            }
        }
        auto v = w.value(t->size);
        auto before = snapshot(r.buf);
        bool ok = store(s, *t, name, v);
        auto now = snapshot(r.buf);
        c.trace("set %s %zu bytes -> %d", show(name).c_str(), t->size, ok);
        PBT_CHECK(c, r.buf.intact(), "memory outside the region was changed");
        auto it = model.find({ name, t->size });
        const bool existing = it != model.end();
        const size_t rec = head + t->size;
        const bool fits = name.size() <= 4 && rec <= 65535 && used + rec <= cap;
        PBT_CHECK(c, ok == (existing || fits), "storing %s (%zu bytes, %zu of %zu bytes unused, %s) returns %s", show(name).c_str(), t->size, cap - used, cap,
                  existing ? "exists" : "new", ok ? "true" : "false");
        if (!ok)
        {
            PBT_CHECK(c, now == before, "a refused store changed the region");
            ++refused;
        }
        size_t from = cap, to = 0;
        for (size_t i = 0; i < cap; ++i) if (now[i] != before[i]) { from = std::min(from, i); to = i + 1; }
        if (ok && existing)
        {
            if (to > from) PBT_CHECK(c, from >= it->second.first && to <= it->second.first + rec, "overwriting changed bytes %zu..%zu outside its record %zu+%zu", from, to, it->second.first, rec);
            it->second.second = v;
        }
        else if (ok)
        {
            if (to > from) PBT_CHECK(c, from >= used && to <= used + rec, "storing changed bytes %zu..%zu outside its record %zu+%zu", from, to, used, rec);
            if (used + rec == cap) { boundary = true; c.label("filled exactly"); }
            model[{ name, t->size }] = { used, v };
            used += rec;
        }
        else if (name.size() > 4) c.label("long name refused");
        else if (rec > 65535) c.label("oversized record refused");
        else if (used + rec == cap + 1) { boundary = true; c.label("one byte short"); }
        Bytes got;
        if (ok) PBT_CHECK(c, load(s, *t, name, got) && got == v, "a successful store of %s (%zu bytes) is not returned by a load", show(name).c_str(), t->size);
        if (w.many ? c.hash() % 32 == 0 : !w.large || c.chance(1, 4))
        {
            for (auto &[k, pv]: model)
            {
                PBT_CHECK(c, load(s, typeOfSize(k.second), k.first, got) && got == pv.second, "%s (%zu bytes) was affected by another store", show(k.first).c_str(), k.second);
            }
        }
    }
    PBT_CHECK(c, r.buf.intact(), "memory outside the region was changed");
    if (boundary || (refused && !model.empty())) c.nontrivial();
}

// ---- C09 -----------------------------------------------------------------------------------------
// A store of which only some of the changed bytes reach the memory
std::tuple<size_t, size_t, bool> tornStore(Ctx &c, Region &r, PersistentStorage &s, const std::string &name, const TypeOps &t, const Bytes &v)
{
    auto before = snapshot(r.buf);
    bool ok = store(s, t, name, v);
    auto done = snapshot(r.buf);
    size_t mode = c.uniform(4), cut = c.uniform(t.size + 8), k = 0, kept = 0, changed = 0;
    for (size_t i = 0; i < done.size(); ++i)
    {
        if (done[i] == before[i]) continue;
        ++changed;
        bool keep = mode == 0 ? k < cut : mode == 1 ? k >= cut : mode == 2 ? k == cut : c.boolean();
        ++k;
        if (!keep) r.buf.data()[i] = before[i];
        else ++kept;
    }
    return { kept, changed, ok };
}
void exercise(Ctx &c, World &w, Region &r, PersistentStorage &s, std::map<Key, Bytes> finished)
{
    // loads of anything, later stores are returned, finished records survive
    Bytes got;
    for (auto &n: w.names) for (size_t i = 0; i < nMedium; ++i) load(s, types[i], n, got);
    auto check = [&](const char* when) {
        for (auto &[k, v]: finished)
        {
            PBT_CHECK(c, load(s, typeOfSize(k.second), k.first, got), "%s: %s (%zu bytes) is not found", when, show(k.first).c_str(), k.second);
            PBT_CHECK(c, got == v, "%s: %s (%zu bytes) returns other bytes", when, show(k.first).c_str(), k.second);
        }
    };
    check("after attaching");
    size_t crashes = 0;
    while (c.more(5))
    {
        Ctx::Scope sc(c);
        auto &name = w.name();
        auto &t = w.type();
        auto v = w.value(t.size);
        if (c.chance(1, 5))
        {
            // another store is interrupted
            auto [kept, changed, ok] = tornStore(c, r, s, name, t, v);
            c.trace("then torn set %s %zu bytes -> %d, %zu of %zu changed bytes reach memory", show(name).c_str(), t.size, ok, kept, changed);
            finished.erase({ name, t.size });
            s = PersistentStorage(r.view(), false);
            check("after another interrupted store");
            if (++crashes == 1) c.label("interrupted again");
            continue;
        }
        bool ok = store(s, t, name, v);
        c.trace("then set %s %zu bytes -> %d", show(name).c_str(), t.size, ok);
        if (ok) { finished[{ name, t.size }] = v; c.label("stored after attaching"); }
        PBT_CHECK(c, r.buf.intact(), "memory outside the region was changed");
        check("after a later store");
        if (c.chance(1, 4))
        {
            c.trace("attach again");
            s = PersistentStorage(r.view(), false);
            check("after attaching again");
        }
    }
}

void c09Arbitrary(Ctx &c)
{
    World w(c, false);
    w.large = false;
    c.stretch = w.many ? 40 : 0;
    const bool big = c.chance(1, 40);
    Region r(big ? size_t(c.boolean() ? c.range(65000, 66000) : c.range(65500, 140000)) : w.regionSize(), c.uniform(15));
    const size_t n = r.buf.size();
    if (big) c.label("more than 64 KiB");
    c.trace("region %zu", n);
    // a chain of plausible records over random or zero bytes
    uint64_t seed = c.uniform(0xFFFF);
    for (size_t i = 0; i < n; ++i) r.buf.data()[i] = seed < 0x4000 ? 0 : seed < 0x5000 ? 0xFF : uint8_t(splitmix(seed));
    size_t pos = 0, records = 0;
    while (pos + 6 <= n && c.more(6))
    {
        Ctx::Scope sc(c);
        size_t left = n - pos, size = 0;
        switch (c.oneOf({ 5, 3, 3, 2, big ? 12u : 0u }))
        {
            case 4: size = c.boolean() ? 65535 - c.uniform(40) : 16384 + c.uniform(49151); break;
            case 0: size = 6 + c.uniform(40); break;
            case 1: size = c.uniform(8); break;
            case 2: size = left + size_t(c.uniform(4)) - 2; break;
            default: size = c.uniform(65535); break;
        }
        size &= 0xFFFF;
        uint8_t* p = r.buf.data() + pos;
        p[0] = uint8_t(size);
        p[1] = uint8_t(size >> 8);
        if (c.boolean())
        {
            auto &name = w.name();
            for (size_t i = 0; i < 4; ++i) p[2 + i] = i < name.size() ? uint8_t(name[i]) : 0;
        }
        c.trace("record of size %zu at %zu", size, pos);
        ++records;
        if (size == 0 || size > left) break;
        pos += size;
    }
    PersistentStorage s(r.view(), false);
    PBT_CHECK(c, r.buf.intact(), "memory outside the region was changed");
    exercise(c, w, r, s, {});
    PBT_CHECK(c, r.buf.intact(), "memory outside the region was changed");
    if (records >= 2) c.nontrivial();
}

void c09Torn(Ctx &c)
{
    World w(c, false);
    w.large = false;
    c.stretch = w.many ? 40 : 0;
    Region r(w.many ? w.regionSize() : size_t(c.range(0, c.boolean() ? 80 : 700)), c.uniform(15));
    c.trace("region %zu", r.buf.size());
    std::map<Key, Bytes> finished;
    {
        PersistentStorage s(r.view());
        while (c.more(5))
        {
            Ctx::Scope sc(c);
            auto &name = w.name();
            auto &t = w.type();
            auto v = w.value(t.size);
            bool ok = store(s, t, name, v);
            c.trace("set %s %zu bytes -> %d", show(name).c_str(), t.size, ok);
            if (ok) finished[{ name, t.size }] = v;
        }
        auto &name = w.name();
        auto &t = w.type();
        auto v = w.value(t.size);
        const bool overwrite = finished.count({ name, t.size }) != 0;
        auto [kept, changed, ok] = tornStore(c, r, s, name, t, v);
        c.trace("torn set %s %zu bytes -> %d, %zu of %zu changed bytes reach memory", show(name).c_str(), t.size, ok, kept, changed);
        if (overwrite) finished.erase({ name, t.size }); // it was being overwritten
        if (kept > 0 && kept < changed) c.label("torn in the middle");
        if (kept > 0 && kept < changed && !finished.empty()) c.nontrivial();
    }
    PersistentStorage s(r.view(), false);
    exercise(c, w, r, s, finished);
    PBT_CHECK(c, r.buf.intact(), "memory outside the region was changed");
}

} // namespace

namespace pbt
{
const std::vector<Property> &properties()
{
    static const std::vector<Property> p {
#if PROP == 6
        { "C06", c06, 15000, 400000, "a history of stores and loads of 32 value types (1..131064 bytes, alignment 1..32) under prefix-related names; non-trivial: two or more live values with an overwrite or one name in two sizes" },
#elif PROP == 7
        { "C07", c07, 9000, 250000, "a history of stores, re-attachments and initialisations against a never re-attached twin; non-trivial: a successful store after a re-attachment" },
#elif PROP == 8
        { "C08", c08, 30000, 500000, "a history of stores with region snapshots; non-trivial: the region was filled exactly or missed by one byte, or a store was refused with values present" },
#elif PROP == 9
        { "C09-arbitrary", c09Arbitrary, 20000, 500000, "attach to generated garbage with plausible record chains, then use; non-trivial: at least two planted record headers" },
        { "C09-torn", c09Torn, 20000, 500000, "attach after a store of which only a generated subset of bytes was written; non-trivial: partly written with finished records present" },
#endif
    };
    return p;
}
}
