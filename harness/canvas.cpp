// C13-C22: frame buffers, canvas drawing and fonts.
#include "pbt.h"
#include <algorithm>
#include <array>
#include <cmath>
#include <map>
#include <memory>
#include <set>
#include <string_view>
#include <type_traits>
#include "graphics/SimpleFrameBuffer.h"
#include "graphics/Canvas.h"
#include "graphics/GFXFontsAdapter.h"
namespace embedded::fonts { using embedded::Rect; }
#include "graphics/EmbeddedFont.h"
#if PROP >= 20
// the tables of the bundled font, once more
namespace bundled
{
#define PROGMEM
using GFXfont = embedded::fonts::FontDescriptor;
using GFXglyph = embedded::fonts::GlyphDescriptor;
#include "graphics/GFXFonts/FreeSans15pt7b.h"
}
namespace embedded::fonts { extern const EmbeddedFont FreeSans15pt; }
#endif

using namespace pbt;
using Rotation = Canvas::Rotation;
using XY = std::pair<int, int>;

namespace
{
const Rotation rotations[] = { Rotation::Rotation0, Rotation::Rotation90, Rotation::Rotation180, Rotation::Rotation270 };

// ---- a frame buffer that records what is addressed -------------------------------------------------
class Recorder : public FrameBufferBase
{
public:
    Recorder(int w, int h) : w(w), h(h), grid(size_t(w) * size_t(h)) {}
    int getWidth() const override { return w; }
    int getHeight() const override { return h; }
    embedded::BytesView getImage() override { return { grid.data(), grid.size() }; }
    embedded::ConstBytesView getImage() const override { return { grid.data(), grid.size() }; }
    void clear(uint32_t) override { ++colourCalls; }
    void setColor(uint32_t) override { ++colourCalls; }
    void drawPixel(int x, int y) override
    {
        if (x < 0 || y < 0 || x >= w || y >= h)
        {
            if (outside.empty()) outside = { x, y };
            return;
        }
        auto &g = grid[size_t(y) * size_t(w) + size_t(x)];
        if (!g) touched.push_back({ x, y });
        g = 1;
    }
    bool at(int x, int y) const { return x >= 0 && y >= 0 && x < w && y < h && grid[size_t(y) * size_t(w) + size_t(x)]; }
    size_t count() const { return touched.size(); }
    void wipe()
    {
        for (auto &p: touched) grid[size_t(p.second) * size_t(w) + size_t(p.first)] = 0;
        touched.clear();
        outside.clear();
    }

    int w, h;
    std::vector<uint8_t> grid;
    std::vector<XY> touched; // the pixels set, once each
    std::vector<int> outside;
    int colourCalls = 0;
};

void sane(Ctx &c, const Recorder &r)
{
    PBT_CHECK(c, r.outside.empty(), "pixel (%d,%d) outside the %dx%d surface is addressed", r.outside[0], r.outside[1], r.w, r.h);
    PBT_CHECK(c, r.colourCalls == 0, "drawing changed the colour or cleared the surface");
}

// physical position of a logical pixel: the picture turned clockwise
XY turned(Rotation rot, int w, int h, int x, int y)
{
    switch (rot)
    {
        case Rotation::Rotation90: return { w - 1 - y, x };
        case Rotation::Rotation180: return { w - 1 - x, h - 1 - y };
        case Rotation::Rotation270: return { y, h - 1 - x };
        default: return { x, y };
    }
}

#if PROP >= 15
// ---- generated fonts -------------------------------------------------------------------------------
struct TestGlyph { int w, h, ox, oy, advance; std::vector<bool> bits; size_t offset, end; };
struct TestFont
{
    int first = 0, last = 0;
    std::vector<TestGlyph> glyphs;
    std::unique_ptr<uint8_t[]> bitmap;
    std::unique_ptr<embedded::fonts::GlyphDescriptor[]> table;
    size_t bitmapSize = 0;
    embedded::fonts::FontDescriptor descriptor {};
    const uint8_t* base = nullptr;
    std::unique_ptr<embedded::fonts::EmbeddedFont> font;

    static bool stored(int code) { return code < 0x7F || code >= 0xA0; }
    // index in the table or 0, the fallback
    size_t index(uint8_t code) const
    {
        if (code < first || code > last || !stored(code)) return 0;
        size_t i = 0;
        for (int k = first; k < code; ++k) if (stored(k)) ++i;
        return i < glyphs.size() ? i : 0;
    }
    bool covers(uint8_t code) const { return code >= first && code <= last && stored(code); }
    const TestGlyph &glyph(uint8_t code) const { return glyphs[index(code)]; }
};

// mode 0: printable range part, small; any: the full range of well-formed fonts
std::unique_ptr<TestFont> genFont(Ctx &c, bool big, bool wide)
{
    auto f = std::make_unique<TestFont>();
#if PROP >= 20
    if (c.chance(1, 12))
    {
        c.trace("bundled font");
        c.label("bundled font");
        auto &d = bundled::FreeSans15pt7b;
        f->first = d.first;
        f->last = d.last;
        f->bitmapSize = sizeof bundled::FreeSans15pt7bBitmaps;
        const size_t count = sizeof bundled::FreeSans15pt7bGlyphs / sizeof *bundled::FreeSans15pt7bGlyphs;
        for (size_t i = 0; i < count; ++i)
        {
            auto &t = bundled::FreeSans15pt7bGlyphs[i];
            TestGlyph g { t.size.width, t.size.height, t.offset.width, t.offset.height, t.shift, {}, t.bitmapOffset, i + 1 < count ? bundled::FreeSans15pt7bGlyphs[i + 1].bitmapOffset : f->bitmapSize };
            for (size_t b = 0; b < size_t(g.w) * size_t(g.h); ++b) g.bits.push_back(bundled::FreeSans15pt7bBitmaps[g.offset + b / 8] >> (7 - b % 8) & 1);
            f->glyphs.push_back(std::move(g));
        }
        f->base = bundled::FreeSans15pt7bBitmaps;
        f->descriptor = d;
        f->font = std::make_unique<embedded::fonts::EmbeddedFont>(f->descriptor);
        return f;
    }
#endif
    switch (c.oneOf({ 5, 4, wide ? 3u : 1u, 1 }))
    {
        case 0: f->first = int(c.uniform(1)) ? 0x20 : int(c.around(0, 0x7E, 0x20)); f->last = int(c.range(f->first, std::min(0x7E, f->first + 12))); break;
        case 1: f->first = int(c.range(0x20, 0x7E)); f->last = int(c.range(0xA0, 0xFF)); break;
        case 2: f->first = int(c.range(0, 0x7E)); f->last = int(c.oneOf({ 1, 1, 1 }) == 0 ? 0xFF : c.range(0xA0, 0xFF)); break;
        default: f->first = int(c.range(0xA0, 0xFF)); f->last = int(c.range(f->first, 0xFF)); break;
    }
    size_t n = 0;
    for (int k = f->first; k <= f->last; ++k) if (TestFont::stored(k)) ++n;
    // a few generated shapes shared among the glyphs keep the choice sequences short
    struct Shape { int w, h, ox, oy, adv; uint64_t seed; };
    std::vector<Shape> shapes;
    size_t ns = 1 + c.uniform(7);
    for (size_t i = 0; i < ns; ++i)
    {
        Ctx::Scope s(c);
        Shape x {};
        int lim = big && c.chance(1, 6) ? 255 : 20;
        x.w = int(c.chance(1, 8) ? 0 : c.range(0, lim));
        x.h = int(c.chance(1, 8) ? 0 : c.range(0, big && c.chance(1, 8) ? 255 : 24));
        int olim = big && c.chance(1, 3) ? 128 : 12;
        x.ox = int(c.around(-olim, std::min(olim, 127), 0));
        x.oy = int(c.around(-olim, std::min(olim, 127), 0));
        x.adv = int(c.range(0, c.chance(1, 4) ? 255 : 24));
        x.seed = c.uniform(0xFFFFFF);
        shapes.push_back(x);
    }
    uint64_t mix = c.uniform(0xFFFF);
    // data that no glyph needs, between the glyphs
    const unsigned slack = c.chance(1, 4) ? unsigned(c.range(1, 5)) : 0;
    if (slack) { c.trace("up to %u unused bytes behind the glyphs", slack); c.label("unused bytes between glyphs"); }
    std::vector<uint8_t> bytes;
    for (size_t i = 0; i < n; ++i)
    {
        const Shape &x = shapes[mix == 0 ? i % ns : splitmix(mix) % ns];
        TestGlyph g { x.w, x.h, x.ox, x.oy, x.adv, {}, bytes.size(), 0 };
        uint64_t seed = x.seed + i * 7919;
        size_t bits = size_t(x.w) * size_t(x.h);
        std::vector<uint8_t> packed((bits + 7) / 8, 0);
        for (size_t b = 0; b < bits; ++b)
        {
            bool on = x.seed == 0 || (splitmix(seed) & 1);
            g.bits.push_back(on);
            if (on) packed[b / 8] |= uint8_t(0x80 >> (b % 8));
        }
        // whatever lies in the padding bits is not part of the glyph
        if (bits % 8 && (x.seed & 8)) packed.back() |= uint8_t(0xFF >> (bits % 8));
        if (slack) packed.resize(packed.size() + size_t(splitmix(seed) % (slack + 1)), 0xFF);
        if (bytes.size() + packed.size() > 65535) { packed.clear(); g.w = g.h = 0; g.bits.clear(); }
        bytes.insert(bytes.end(), packed.begin(), packed.end());
        g.end = bytes.size();
        f->glyphs.push_back(std::move(g));
    }
    f->bitmapSize = bytes.size();
    f->bitmap.reset(new uint8_t[bytes.size()]); // exact: reads beyond are detected
    f->base = f->bitmap.get();
    memcpy(f->bitmap.get(), bytes.data(), bytes.size());
    f->table.reset(new embedded::fonts::GlyphDescriptor[n]);
    for (size_t i = 0; i < n; ++i)
    {
        auto &g = f->glyphs[i];
        f->table[i] = embedded::fonts::GlyphDescriptor { uint16_t(g.offset), { uint8_t(g.w), uint8_t(g.h) }, uint8_t(g.advance), { int8_t(g.ox), int8_t(g.oy) } };
    }
    f->descriptor.bitmap = { f->bitmap.get(), bytes.size() };
    f->descriptor.glyph = { f->table.get(), n };
    f->descriptor.first = uint8_t(f->first);
    f->descriptor.last = uint8_t(f->last);
    f->descriptor.verticalShift = uint8_t(c.uniform(30));
    f->font = std::make_unique<embedded::fonts::EmbeddedFont>(f->descriptor);
    c.trace("font 0x%02x..0x%02x, %zu glyphs of %zu shapes", f->first, f->last, n, ns);
    return f;
}

std::string genString(Ctx &c, const TestFont &f, size_t max)
{
    std::string s(c.size(max), ' ');
    for (auto &ch: s)
    {
        switch (c.oneOf({ 6, 2, 2 }))
        {
            case 0: ch = char(c.flat(f.first, f.last, f.first)); break;
            case 1: ch = char(c.uniform(255)); break;
            default: ch = char(c.pick({ 0x7E, 0x7F, 0x80, 0x9F, 0xA0, 0xFF, 0, 0x20 })); break;
        }
    }
    return s;
}

// the pixels of one glyph with the pen at (x, y)
void plot(const TestGlyph &g, int x, int y, std::set<XY> &out)
{
    for (int j = 0; j < g.h; ++j) for (int i = 0; i < g.w; ++i) if (g.bits[size_t(j * g.w + i)]) out.insert({ x + g.ox + i, y + g.oy + j });
}

// ---- generated drawing operations ---------------------------------------------------------------------
struct Op
{
    enum Kind { Pixel, Line, Rectangle, Filled, Circle, Char, String } kind;
    int x = 0, y = 0, x2 = 0, y2 = 0; // second point, or width and height, or radius and filled
    std::string text;
    int extent() const { return 0; }
};
// Any lines, or only those with one possible set of pixels: horizontal, vertical, diagonal
enum class Lines { Any, Straight };
Op genOp(Ctx &c, int w, int h, const TestFont* font, Lines lines, int reach)
{
    Op op {};
    auto px = [&] { return int(c.around(-reach, w + reach, 0)); };
    auto py = [&] { return int(c.around(-reach, h + reach, 0)); };
    op.kind = Op::Kind(c.oneOf({ 3, lines == Lines::Any ? 5u : 3u, 4, 4, 4, font ? 3u : 0u, font ? 3u : 0u }));
    op.x = px();
    op.y = py();
    switch (op.kind)
    {
        case Op::Pixel: c.trace("pixel (%d,%d)", op.x, op.y); break;
        case Op::Line:
            op.x2 = px();
            op.y2 = py();
            if (lines == Lines::Straight || c.chance(1, 4)) switch (c.uniform(3))
            {
                case 0: op.x2 = op.x; op.y2 = op.y; break;
                case 1: op.x2 = op.x; break;
                case 2: op.y2 = op.y; break;
                default: op.y2 = op.y + (c.boolean() ? op.x2 - op.x : op.x - op.x2); break;
            }
            c.trace("line (%d,%d)-(%d,%d)", op.x, op.y, op.x2, op.y2); break;
        case Op::Rectangle: case Op::Filled:
            op.x2 = int(c.around(-3, w + reach, 1));
            op.y2 = int(c.around(-3, h + reach, 1));
            c.trace("%s (%d,%d) %dx%d", op.kind == Op::Filled ? "filled" : "rectangle", op.x, op.y, op.x2, op.y2);
            break;
        case Op::Circle: op.x2 = int(c.range(0, c.chance(1, 10) ? 600 : reach)); op.y2 = int(c.uniform(1)); c.trace("circle (%d,%d) r %d%s", op.x, op.y, op.x2, op.y2 ? " filled" : ""); break;
        case Op::Char: op.text = genString(c, *font, 0); op.text = std::string(1, char(c.flat(0, 255, font->first))); c.trace("char 0x%02x at (%d,%d)", uint8_t(op.text[0]), op.x, op.y); break;
        case Op::String: op.text = genString(c, *font, 6); c.trace("string %s at (%d,%d)", show(op.text).c_str(), op.x, op.y); break;
    }
    return op;
}
void draw(Canvas &canvas, const Op &op, const TestFont* font, int dx = 0, int dy = 0)
{
    Canvas::Point p { op.x + dx, op.y + dy };
    switch (op.kind)
    {
        case Op::Pixel: canvas.drawPixel(p); break;
        case Op::Line: canvas.drawLine(p, { op.x2 + dx, op.y2 + dy }); break;
        case Op::Rectangle: canvas.drawRectangle({ p, { op.x2, op.y2 } }); break;
        case Op::Filled: canvas.drawFilledRectangle({ p, { op.x2, op.y2 } }); break;
        case Op::Circle: canvas.drawCircle(p, op.x2, op.y2 != 0); break;
        case Op::Char: canvas.drawCharAt(p, op.text[0], *font->font); break;
        case Op::String: canvas.drawStringAt(p, op.text, *font->font); break;
    }
}
const char* kindName(Op::Kind k)
{
    static const char* n[] = { "pixel", "line", "rectangle", "filled rectangle", "circle", "char", "string" };
    return n[k];
}
Rotation genRotation(Ctx &c, const char* what = "rotation")
{
    size_t r = c.uniform(3);
    c.trace("%s %zu", what, r * 90);
    return rotations[r];
}
// Now and then something is drawn on another canvas, in the same rotation.
void bystander(Ctx &c, Rotation rot, const TestFont* font)
{
    if (!c.chance(1, 5)) return;
    Ctx::Scope s(c);
    Recorder other(int(1 + c.uniform(60)), int(1 + c.uniform(60)));
    Canvas canvas(other);
    canvas.setRotation(rot);
    c.trace("on another %dx%d canvas:", other.w, other.h);
    draw(canvas, genOp(c, other.w, other.h, font, Lines::Any, 20), font);
    sane(c, other);
}
int genExtent(Ctx &c, int max, int rare = 0) { return int(1 + c.size(size_t((rare && c.chance(1, 12) ? rare : max) - 1))); }
#endif

#if PROP == 13 || PROP == 14
// ---- real frame buffers --------------------------------------------------------------------------------
// Reads a pixel out of the image, bit by bit.
uint32_t decode(embedded::ConstBytesView img, int w, int depth, int x, int y)
{
    uint32_t v = 0;
    const size_t bit0 = (size_t(y) * size_t(w) + size_t(x)) * size_t(depth);
    for (size_t b = bit0; b < bit0 + size_t(depth); ++b) v = v << 1 | ((img[b / 8] >> (7 - b % 8)) & 1);
    return v;
}
uint32_t maskOf(int depth) { return depth == 32 ? 0xFFFFFFFFu : (1u << depth) - 1; }
uint32_t genColour(Ctx &c, int depth, bool reduced)
{
    uint32_t v;
    switch (c.oneOf({ 3, 3, 2 }))
    {
        case 0: v = uint32_t(c.uniform(maskOf(depth))); break;
        case 1: v = c.pick({ 0u, 1u, 2u, 3u, 0xFFu, 0x100u, 0xFF00u, 0xFF0000u, 0xFF000000u, 0xFFFFFFu, 0x80808080u, 0xFFFFFFFFu, 0x12345678u, 4u, 8u, 16u }); break;
        default: v = c.bits32(); break;
    }
    return reduced ? v & maskOf(depth) : v;
}

struct AnyBuffer
{
    virtual ~AnyBuffer() = default;
    virtual FrameBufferBase &base() = 0;
    virtual void drawColoured(int x, int y, uint32_t colour) = 0;
    // nothing if such buffers cannot be copied
    virtual std::unique_ptr<AnyBuffer> copy() = 0;
    virtual void assign(AnyBuffer &other) = 0;
    int w, h, depth;
};
template<int W, int H, int D> struct Holder : AnyBuffer
{
    using Buffer = SimpleFrameBuffer<W, H, D>;
    Holder() { w = W; h = H; depth = D; }
    explicit Holder(const Buffer &b) : fb(b) { w = W; h = H; depth = D; }
    Buffer fb;
    std::unique_ptr<AnyBuffer> copy() override
    {
        if constexpr (std::is_copy_constructible_v<Buffer> && std::is_copy_assignable_v<Buffer>) return std::make_unique<Holder>(fb);
        else return nullptr;
    }
    void assign(AnyBuffer &other) override
    {
        if constexpr (std::is_copy_assignable_v<Buffer>) fb = static_cast<Holder &>(other).fb;
    }
    FrameBufferBase &base() override { return fb; }
    void drawColoured(int x, int y, uint32_t colour) override { fb.drawPixel(x, y, colour); }
};
using Maker = std::unique_ptr<AnyBuffer> (*)();
template<int W, int H, int D> std::unique_ptr<AnyBuffer> make() { return std::make_unique<Holder<W, H, D>>(); }
const Maker makers[] = {
    make<8, 1, 1>, make<8, 3, 1>, make<16, 5, 1>, make<24, 7, 1>, make<40, 33, 1>, make<128, 64, 1>, make<272, 5, 1>,
    make<4, 1, 2>, make<4, 5, 2>, make<8, 3, 2>, make<12, 4, 2>, make<20, 9, 2>, make<132, 7, 2>,
    make<2, 1, 4>, make<2, 5, 4>, make<4, 4, 4>, make<6, 3, 4>, make<8, 3, 4>, make<10, 9, 4>, make<134, 5, 4>,
    make<1, 1, 8>, make<3, 2, 8>, make<8, 8, 8>, make<13, 5, 8>, make<130, 3, 8>,
    make<1, 1, 16>, make<3, 2, 16>, make<8, 4, 16>, make<13, 5, 16>, make<130, 3, 16>,
    make<1, 1, 24>, make<3, 2, 24>, make<8, 4, 24>, make<13, 5, 24>, make<90, 3, 24>,
    make<1, 1, 32>, make<3, 2, 32>, make<8, 4, 32>, make<13, 5, 32>, make<66, 3, 32>,
};
constexpr size_t nMakers = sizeof makers / sizeof *makers;
// images and pixel numbers beyond 2^15 and 2^16
const Maker bigMakers[] = {
    make<1024, 600, 1>, make<40000, 2, 1>, make<80000, 1, 4>, make<2048, 130, 1>, make<640, 480, 2>, make<480, 320, 4>, make<320, 240, 8>, make<70000, 1, 8>, make<1, 70000, 8>, make<240, 320, 16>, make<200, 120, 24>, make<160, 128, 32>,
};
constexpr size_t nBigMakers = sizeof bigMakers / sizeof *bigMakers;

std::unique_ptr<AnyBuffer> genBuffer(Ctx &c)
{
    const bool big = c.chance(1, 40);
    auto b = big ? bigMakers[c.uniform(nBigMakers - 1)]() : makers[c.uniform(nMakers - 1)]();
    if (big) { c.label("more than 32 KiB"); c.stretch = 1; }
    c.trace("%dx%d depth %d", b->w, b->h, b->depth);
    return b;
}
#endif

#if PROP == 13
void c13(Ctx &c)
{
    auto b = genBuffer(c);
    auto &fb = b->base();
    const int w = b->w, h = b->h, d = b->depth;
    PBT_CHECK(c, fb.getWidth() == w && fb.getHeight() == h, "a %dx%d buffer of depth %d reports %dx%d", w, h, d, fb.getWidth(), fb.getHeight());
    auto img = fb.getImage();
    auto cimg = static_cast<const FrameBufferBase &>(fb).getImage();
    const size_t size = size_t(w) * size_t(h) * size_t(d) / 8;
    PBT_CHECK(c, img.size() == size && cimg.size() == size && cimg.begin() == img.begin(), "the image of a %dx%d buffer of depth %d is %zu bytes, expected %zu", w, h, d, size_t(img.size()), size);
    uint64_t seed = c.uniform(0xFFFFFF);
    for (size_t i = 0; i < size; ++i) img[i] = seed == 0 ? 0 : seed == 1 ? 0xFF : uint8_t(splitmix(seed));
    uint32_t colour = maskOf(d);
    size_t drawn = 0;
    std::vector<uint8_t> model(img.begin(), img.end());
    while (c.more(8))
    {
        Ctx::Scope s(c);
        int x = int(c.around(0, w - 1, 0)), y = int(c.around(0, h - 1, 0));
        if (c.chance(1, 2))
        {
            colour = genColour(c, d, true);
            fb.setColor(colour);
            c.trace("colour %x", colour);
        }
        uint32_t used = colour;
        if (c.chance(1, 3))
        {
            used = genColour(c, d, d == 1);
            b->drawColoured(x, y, used);
        }
        else fb.drawPixel(x, y);
        c.trace("pixel (%d,%d) %x", x, y, used);
        const size_t bit0 = (size_t(y) * size_t(w) + size_t(x)) * size_t(d);
        for (int k = 0; k < d; ++k)
        {
            const size_t bit = bit0 + size_t(k);
            const uint8_t m = uint8_t(0x80 >> (bit % 8));
            if (used >> (d - 1 - k) & 1) model[bit / 8] |= m;
            else model[bit / 8] &= uint8_t(~m);
        }
        if (memcmp(img.begin(), model.data(), size) != 0) for (size_t i = 0; i < size; ++i)
        {
            PBT_CHECK(c, img[i] == model[i], "after drawing pixel (%d,%d) of a %dx%d buffer of depth %d with colour 0x%x, byte %zu is 0x%02x, expected 0x%02x", x, y, w, h, d, used, i, img[i], model[i]);
        }
        ++drawn;
    }
    static const char* names[] = { "depth 1", "depth 2", "depth 4", "depth 8", "depth 16", "depth 24", "depth 32" };
    c.label(names[d == 1 ? 0 : d == 2 ? 1 : d == 4 ? 2 : d == 8 ? 3 : d == 16 ? 4 : d == 24 ? 5 : 6]);
    if (drawn >= 2) c.nontrivial();
}
#endif

#if PROP == 14
void c14(Ctx &c)
{
    auto b = genBuffer(c);
    auto &fb = b->base();
    Canvas first(fb);
    const int w = b->w, h = b->h, d = b->depth;
    // through a canvas, directly, or both, and another canvas on the same buffer
    Canvas second(fb);
    const unsigned mode = unsigned(c.uniform(3));
    c.trace(mode == 0 ? "directly" : mode == 1 ? "through a canvas" : "mixed");
    if (mode > 1) c.label("two canvases");
    const int64_t unknown = -1;
    std::vector<int64_t> model(size_t(w) * size_t(h), unknown);
    uint32_t colour = maskOf(d);
    size_t colours = 0, clears = 0, pixels = 0;
    std::vector<std::pair<int, int>> named;
    // another buffer, used in between
    auto b2 = c.chance(1, 4) ? makers[c.uniform(nMakers - 1)]() : nullptr;
    uint32_t colour2 = b2 ? maskOf(b2->depth) : 0;
    // a copy made in between
    std::unique_ptr<AnyBuffer> kept;
    std::vector<int64_t> keptModel;
    uint32_t keptColour = 0;
    while (c.more(12))
    {
        Ctx::Scope s(c);
        if (c.chance(1, 6))
        {
            if (kept == nullptr || c.chance(1, 3))
            {
                if ((kept = b->copy()))
                {
                    c.trace("copied");
                    c.label("copied");
                    keptModel = model;
                    keptColour = colour;
                }
            }
            else if (c.chance(1, 2))
            {
                c.trace("the copy: pixel at the top left, in its own colour");
                kept->base().drawPixel(0, 0);
                keptModel[0] = keptColour;
            }
            else if (c.chance(1, 2))
            {
                keptColour = genColour(c, d, true);
                c.trace("the copy: colour 0x%x", keptColour);
                kept->base().setColor(keptColour);
            }
            else
            {
                c.trace("assigned from the copy");
                c.label("assigned");
                b->assign(*kept);
                model = keptModel;
                colour = keptColour;
            }
        }
        if (b2 && c.chance(1, 3))
        {
            const uint32_t given = genColour(c, b2->depth, b2->depth == 1), v = given & maskOf(b2->depth);
            const int x = int(c.range(0, b2->w - 1)), y = int(c.range(0, b2->h - 1));
            auto &o = b2->base();
            switch (c.uniform(2))
            {
                case 0:
                    c.trace("another buffer: clear 0x%x", given);
                    o.clear(given);
                    PBT_CHECK(c, decode(o.getImage(), b2->w, b2->depth, x, y) == v, "another buffer of depth %d holds 0x%x after clearing with 0x%x", b2->depth, decode(o.getImage(), b2->w, b2->depth, x, y), v);
                    break;
                case 1: c.trace("another buffer: colour 0x%x", given); o.setColor(given); colour2 = v; break;
                default:
                    c.trace("another buffer: pixel (%d,%d)", x, y);
                    o.drawPixel(x, y);
                    PBT_CHECK(c, decode(o.getImage(), b2->w, b2->depth, x, y) == colour2, "another buffer of depth %d holds 0x%x instead of 0x%x", b2->depth, decode(o.getImage(), b2->w, b2->depth, x, y), colour2);
            }
            c.label("two buffers");
        }
        const unsigned user = mode > 1 ? unsigned(c.uniform(2)) : mode;
        const bool viaCanvas = user != 0;
        Canvas &canvas = user == 2 ? second : first;
        if (mode > 1) c.trace(user == 0 ? "directly:" : user == 1 ? "first canvas:" : "second canvas:");
        switch (c.oneOf({ 6, 3, 2, 1, 1 }))
        {
            case 3:
            {
                const int x = int(c.range(0, w - 1)), y = int(c.range(0, h - 1));
                const uint32_t v = genColour(c, d, d == 1);
                c.trace("pixel (%d,%d) in 0x%x", x, y, v);
                b->drawColoured(x, y, v);
                model[size_t(y * w + x)] = v & maskOf(d);
                named.push_back({ x, y });
                break;
            }
            case 4: // through the image
            {
                auto img = fb.getImage();
                const size_t at = size_t(c.range(0, int64_t(img.size()) - 1));
                const uint8_t v = c.byte();
                c.trace("byte %zu of the image = 0x%02x", at, v);
                img[at] = v;
                for (size_t bit = at * 8; bit < at * 8 + 8; bit += size_t(d))
                {
                    const size_t k = bit / size_t(d);
                    if (k < model.size()) model[k] = d <= 8 ? decode(img, w, d, int(k % size_t(w)), int(k / size_t(w))) : unknown;
                }
                break;
            }
            case 0:
            {
                int x = int(c.range(0, w - 1)), y = int(c.range(0, h - 1));
                c.trace("pixel (%d,%d)", x, y);
                if (viaCanvas) canvas.drawPixel({ x, y });
                else fb.drawPixel(x, y);
                model[size_t(y * w + x)] = colour;
                named.push_back({ x, y });
                ++pixels;
                break;
            }
            case 1:
            {
                uint32_t v = genColour(c, d, false);
                c.trace("colour 0x%x", v);
                if (viaCanvas) canvas.setColor(v);
                else fb.setColor(v);
                colour = v & maskOf(d);
                ++colours;
                break;
            }
            default:
            {
                uint32_t v = genColour(c, d, d == 1);
                c.trace("clear 0x%x", v);
                if (viaCanvas) canvas.clear(v);
                else fb.clear(v);
                std::fill(model.begin(), model.end(), int64_t(v & maskOf(d)));
                ++clears;
                break;
            }
        }
        auto img = viaCanvas ? static_cast<const Canvas &>(canvas).getImage() : static_cast<const FrameBufferBase &>(fb).getImage();
        PBT_CHECK(c, img.size() * 8 == size_t(w) * size_t(h) * size_t(d), "the image has %zu bytes", size_t(img.size()));
        if (kept)
        {
            auto other = static_cast<const FrameBufferBase &>(kept->base()).getImage();
            PBT_CHECK(c, other.size() == img.size() && other.begin() != img.begin(), "the image of a copy is that of the original");
            uint64_t s3 = c.hash();
            for (int k = 0; k < 60; ++k)
            {
                const size_t at = k == 0 ? 0 : size_t(splitmix(s3) % keptModel.size());
                if (keptModel[at] == unknown) continue;
                const uint32_t is = decode(other, w, d, int(at % size_t(w)), int(at / size_t(w)));
                PBT_CHECK(c, is == uint32_t(keptModel[at]), "pixel (%d,%d) of a copy of a %dx%d buffer of depth %d holds 0x%x, expected 0x%x", int(at % size_t(w)), int(at / size_t(w)), w, h, d, is, uint32_t(keptModel[at]));
            }
        }
        const bool sampled = w * h > 10000;
        if (sampled)
        {
            // all pixels named so far, the corners, and some hundred others
            uint64_t s2 = c.hash();
            for (int y: { 0, h - 1 }) for (int x: { 0, w - 1 }) named.push_back({ x, y });
            for (int k = 0; k < 300; ++k) named.push_back({ int(splitmix(s2) % size_t(w)), int(splitmix(s2) % size_t(h)) });
            for (auto [x, y]: named)
            {
                auto want = model[size_t(y * w + x)];
                if (want == unknown) continue;
                uint32_t is = decode(img, w, d, x, y);
                PBT_CHECK(c, is == uint32_t(want), "pixel (%d,%d) of a %dx%d buffer of depth %d holds 0x%x, expected 0x%x", x, y, w, h, d, is, uint32_t(want));
            }
        }
        else for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x)
        {
            auto want = model[size_t(y * w + x)];
            if (want == unknown) continue;
            uint32_t is = decode(img, w, d, x, y);
            PBT_CHECK(c, is == uint32_t(want), "pixel (%d,%d) of a %dx%d buffer of depth %d holds 0x%x, expected 0x%x", x, y, w, h, d, is, uint32_t(want));
        }
    }
    if (pixels && clears && colours) c.nontrivial();
    if (pixels && !colours) c.label("default colour");
}
#endif

#if PROP == 15
void c15(Ctx &c)
{
    const int w = genExtent(c, 70), h = genExtent(c, 70), reach = c.chance(1, 8) ? 700 : 100, margin = 1800;
    c.trace("surface %dx%d", w, h);
    auto font = genFont(c, false, false);
    Recorder small(w, h);
    Canvas canvas(small);
    bool cut = false;
    // one large surface per process, wiped after use
    static std::unique_ptr<Recorder> large;
    if (!large) large = std::make_unique<Recorder>(70 + 2 * margin, 70 + 2 * margin);
    large->w = w + 2 * margin;
    large->h = h + 2 * margin;
    Canvas big(*large);
    std::set<XY> before;
    size_t ops = 0;
    while (c.more(3) && ops < 12)
    {
        Ctx::Scope s(c);
        ++ops;
        auto rot = genRotation(c);
        canvas.setRotation(rot);
        big.setRotation(rot);
        auto logical = canvas.getSize();
        auto op = genOp(c, logical.width, logical.height, font.get(), Lines::Any, reach);
        bystander(c, rot, font.get());
        small.wipe();
        draw(canvas, op, font.get());
        sane(c, small);
        // the same drawing where nothing needs clipping; the margin is the same on all sides, so it shifts
        // the logical coordinates alike in every rotation
        draw(big, op, font.get(), margin, margin);
        const bool wasOutside = !large->outside.empty();
        size_t inside = 0, total = large->count();
        std::string bad;
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x)
        {
            bool want = large->at(x + margin, y + margin);
            inside += want;
            if (want != small.at(x, y) && bad.empty())
            {
                char b[120];
                snprintf(b, sizeof b, "pixel (%d,%d) is %s, in the uncropped picture it is %s", x, y, want ? "not set" : "set", want ? "set" : "not set");
                bad = b;
            }
        }
        large->wipe();
        PBT_CHECK(c, !wasOutside, "a pixel outside the larger surface is addressed");
        PBT_CHECK(c, bad.empty(), "%s: %s", kindName(op.kind), bad.c_str());
        if (inside > 0 && inside < total) { cut = true; c.label(kindName(op.kind)); }
    }
    if (cut) c.nontrivial();
}
// Very large coordinates and sizes, where the visible part follows directly from the definition.
void c15Far(Ctx &c)
{
    const int w = genExtent(c, 40), h = genExtent(c, 40);
    c.trace("surface %dx%d", w, h);
    Recorder r(w, h);
    Canvas canvas(r);
    auto rot = genRotation(c);
    canvas.setRotation(rot);
    auto size = canvas.getSize();
    auto far = [&](int64_t lim) { return int(c.around(-lim, lim, 0)); };
    std::set<XY> want;
    const int64_t lim = 1000000000;
    int x = far(lim), y = far(lim);
    auto add = [&](int64_t px, int64_t py) { if (px >= 0 && py >= 0 && px < size.width && py < size.height) want.insert(turned(rot, w, h, int(px), int(py))); };
    switch (c.oneOf({ 12, 12, 12, 12, 1 }))
    {
        case 0:
            c.trace("pixel (%d,%d)", x, y);
            canvas.drawPixel({ x, y });
            add(x, y);
            break;
        case 4:
        {
            // a part of a circle so large that it is nowhere complete
            const int rad = int(c.range(0, c.chance(1, 2) ? 40000 : 6000));
            int a = 0, b = 0; // a point near the outline, which comes to lie near the surface's middle
            switch (c.uniform(2))
            {
                case 0: a = int(c.range(-rad, rad)); b = int(std::sqrt(double(rad) * rad - double(a) * a)); break;
                case 1: b = int(c.range(-rad, rad)); a = int(std::sqrt(double(rad) * rad - double(b) * b)); break;
                default: a = b = int(rad * 0.70710678); break;
            }
            if (c.boolean()) a = -a;
            if (c.boolean()) b = -b;
            x = size.width / 2 - a + int(c.range(0, 8)) - 4;
            y = size.height / 2 - b + int(c.range(0, 8)) - 4;
            c.trace("circle (%d,%d) r %d", x, y, rad);
            c.label("part of a large circle");
            canvas.drawCircle({ x, y }, rad);
            sane(c, r);
            const int64_t lo = 2 * int64_t(rad) - 1, hi = 2 * int64_t(rad) + 1;
            size_t visible = 0;
            auto on = [&](int px, int py) { auto p = turned(rot, w, h, px, py); return r.at(p.first, p.second); };
            for (int py = 0; py < size.height; ++py) for (int px = 0; px < size.width; ++px)
            {
                const int64_t ax = int64_t(px) - x, ay = int64_t(py) - y, d4 = 4 * (ax * ax + ay * ay);
                const bool near = d4 <= hi * hi && (rad == 0 || d4 >= lo * lo);
                if (on(px, py)) { ++visible; PBT_CHECK(c, near, "r %d: (%lld,%lld) is more than half a pixel from the ideal circle", rad, (long long)ax, (long long)ay); }
                // the outline leaves no gap: seen along the axis it crosses steeply, one of the pixels around the ideal position is set
                const int64_t minor = std::abs(ax) >= std::abs(ay) ? ay : ax;
                if (2 * minor * minor > int64_t(rad) * rad) continue; // beyond the octant
                const bool alongX = std::abs(ax) >= std::abs(ay);
                const double ideal = std::sqrt(double(rad) * rad - double(minor) * minor);
                const int64_t major = std::abs(alongX ? ax : ay);
                if (major != int64_t(std::floor(ideal))) continue;
                const int s = (alongX ? ax : ay) < 0 ? -1 : 1;
                const int qx = alongX ? px + s : px, qy = alongX ? py : py + s;
                if (qx < 0 || qy < 0 || qx >= size.width || qy >= size.height) continue;
                PBT_CHECK(c, on(px, py) || on(qx, qy), "r %d: no pixel of the outline at (%lld,%lld)", rad, (long long)ax, (long long)ay);
            }
            if (visible) c.nontrivial();
            return;
        }
        case 1:
        {
            int64_t rw = c.around(-5, lim, 1), rh = c.around(-5, lim, 1);
            if (c.boolean()) x = int(-rw / 2 + far(50));
            if (c.boolean()) y = int(-rh / 2 + far(50));
            c.trace("filled (%d,%d) %lldx%lld", x, y, (long long)rw, (long long)rh);
            canvas.drawFilledRectangle({ { x, y }, { int(rw), int(rh) } });
            for (int py = 0; py < size.height; ++py) for (int px = 0; px < size.width; ++px) if (px >= x && px < x + rw && py >= y && py < y + rh) add(px, py);
            break;
        }
        case 2:
        {
            int64_t rw = c.around(1, 30000, 1), rh = c.around(1, 30000, 1);
            if (c.boolean()) x = int(-rw / 2 + far(50));
            if (c.boolean()) y = int(-rh + 1 + far(20));
            c.trace("rectangle (%d,%d) %lldx%lld", x, y, (long long)rw, (long long)rh);
            canvas.drawRectangle({ { x, y }, { int(rw), int(rh) } });
            for (int py = 0; py < size.height; ++py) for (int px = 0; px < size.width; ++px)
            {
                bool in = px >= x && px < x + rw && py >= y && py < y + rh;
                bool border = px == x || px == x + rw - 1 || py == y || py == y + rh - 1;
                if (in && border) add(px, py);
            }
            break;
        }
        default:
        {
            // axis-parallel lines have an obvious crop
            int len = int(c.range(0, 50000));
            bool horizontal = c.boolean();
            if (c.boolean()) x = far(60);
            if (c.boolean()) y = far(60);
            int x2 = horizontal ? x + len : x, y2 = horizontal ? y : y + len;
            c.trace("line (%d,%d)-(%d,%d)", x, y, x2, y2);
            canvas.drawLine({ x, y }, { x2, y2 });
            for (int py = 0; py < size.height; ++py) for (int px = 0; px < size.width; ++px) if (px >= x && px <= x2 && py >= y && py <= y2) add(px, py);
            break;
        }
    }
    sane(c, r);
    for (int py = 0; py < h; ++py) for (int px = 0; px < w; ++px)
    {
        bool is = r.at(px, py), should = want.count({ px, py }) != 0;
        PBT_CHECK(c, is == should, "pixel (%d,%d) of the surface is %s", px, py, is ? "set but outside the figure" : "part of the figure but not set");
    }
    if (!want.empty()) c.nontrivial();
}
#endif

#if PROP == 16
void c16(Ctx &c)
{
    const int w = genExtent(c, 80, 330), h = genExtent(c, 80, 330);
    c.trace("surface %dx%d", w, h);
    auto font = genFont(c, false, false);
    Recorder r(w, h);
    Canvas canvas(r);
    PBT_CHECK(c, canvas.getRotation() == Rotation::Rotation0, "a new canvas is rotated");
    std::vector<uint8_t> want(size_t(w) * size_t(h));
    bool interesting = false;
    auto rot = Rotation::Rotation0;
    size_t ops = 0;
    while (c.more(4) && ops < 20)
    {
        Ctx::Scope s(c);
        ++ops;
        if (c.chance(2, 3))
        {
            rot = genRotation(c);
            auto before = r.grid;
            canvas.setRotation(rot);
            PBT_CHECK(c, r.grid == before, "changing the rotation changed the picture");
        }
        PBT_CHECK(c, canvas.getRotation() == rot, "getRotation() is not the rotation set");
        auto size = canvas.getSize();
        const bool swap = rot == Rotation::Rotation90 || rot == Rotation::Rotation270;
        PBT_CHECK(c, size.width == (swap ? h : w) && size.height == (swap ? w : h), "the logical size of a %dx%d surface rotated by %d is %dx%d", w, h, int(rot) * 90, size.width, size.height);
        Recorder plain(size.width, size.height);
        Canvas unrotated(plain);
        auto op = genOp(c, size.width, size.height, font.get(), Lines::Straight, c.boolean() ? 5 : 60);
        bystander(c, rot, font.get());
        draw(canvas, op, font.get());
        draw(unrotated, op, font.get());
        sane(c, r);
        size_t n = 0;
        for (int y = 0; y < size.height; ++y) for (int x = 0; x < size.width; ++x)
        {
            if (!plain.at(x, y)) continue;
            ++n;
            auto [px, py] = turned(rot, w, h, x, y);
            want[size_t(py) * size_t(w) + size_t(px)] = 1;
        }
        for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x)
        {
            PBT_CHECK(c, r.at(x, y) == (want[size_t(y) * size_t(w) + size_t(x)] != 0), "%s rotated by %d: pixel (%d,%d) of the surface is %s", kindName(op.kind), int(rot) * 90, x, y, r.at(x, y) ? "set but not in the turned picture" : "missing");
        }
        if (rot != Rotation::Rotation0 && n > 1) { interesting = true; c.label(kindName(op.kind)); }
    }
    if (interesting) c.nontrivial();
}
#endif

#if PROP == 17
void c17(Ctx &c)
{
    const int span = int(c.oneOf({ 10, 2 }) == 0 ? c.range(0, 60) : c.range(0, 1500));
    int w = span + 1 + int(c.uniform(9)), h = span + 1 + int(c.uniform(9));
    if (c.chance(1, 250)) // steps beyond 2^15 and 2^16
    {
        (c.boolean() ? w : h) = 32000 + int(c.range(0, 40000));
        if (w > 2000) h = std::min(h, 12);
        else w = std::min(w, 12);
        c.label("longer than 30000 pixels");
    }
    Recorder r(w, h);
    Canvas canvas(r);
    auto rot = genRotation(c);
    canvas.setRotation(rot);
    auto size = canvas.getSize();
    const int x1 = int(c.range(0, size.width - 1)), y1 = int(c.range(0, size.height - 1));
    int x2 = int(c.around(0, size.width - 1, x1)), y2 = int(c.around(0, size.height - 1, y1));
    if (c.chance(1, 6)) // (nearly) diagonal
    {
        int d = int(c.around(-std::min(w, h), std::min(w, h), 0)), k = int(c.uniform(2)) - 1;
        x2 = std::clamp(x1 + d, 0, size.width - 1);
        y2 = std::clamp(y1 + (c.boolean() ? d : -d) + k, 0, size.height - 1);
    }
    // end points beyond the surface, on one side or on both
    int sx = x1, sy = y1;
    const bool beyond = c.chance(1, 4);
    if (beyond)
    {
        const int mx = c.chance(1, 40) ? 70000 : size.width + 40, my = c.chance(1, 40) ? 70000 : size.height + 40;
        const int which = 1 + int(c.uniform(3));
        if (which & 1) { sx = int(c.around(-mx, size.width + mx, 0)); sy = int(c.around(-my, size.height + my, 0)); }
        if (which & 2)
        {
            if (which == 3 && c.boolean()) // through the surface: the far end lies beyond a point of it
            {
                const int64_t f = 1 + int64_t(c.uniform(5));
                x2 = int(std::clamp<int64_t>(x1 + (x1 - sx) * f + int64_t(c.uniform(5)) - 2, -200000, 200000));
                y2 = int(std::clamp<int64_t>(y1 + (y1 - sy) * f + int64_t(c.uniform(5)) - 2, -200000, 200000));
            }
            else { x2 = int(c.around(-mx, size.width + mx, 0)); y2 = int(c.around(-my, size.height + my, 0)); }
        }
    }
    c.trace("surface %dx%d line (%d,%d)-(%d,%d)", w, h, sx, sy, x2, y2);
    bystander(c, rot, nullptr);
    canvas.drawLine({ sx, sy }, { x2, y2 });
    sane(c, r);
    if (beyond)
    {
        const int64_t ddx = int64_t(x2) - sx, ddy = int64_t(y2) - sy, len = std::max(std::abs(ddx), std::abs(ddy));
        const bool alongX = std::abs(ddx) >= std::abs(ddy);
        const int64_t majorEnd = alongX ? size.width : size.height, minorEnd = alongX ? size.height : size.width;
        size_t accounted = 0;
        for (int64_t k = 0; k <= len; ++k)
        {
            const int64_t major = (alongX ? sx : sy) + ((alongX ? ddx : ddy) > 0 ? k : -k);
            if (major < 0 || major >= majorEnd) continue;
            const int64_t base = alongX ? sy : sx, ideal2 = len == 0 ? 0 : (alongX ? ddy : ddx) * k, den = std::max<int64_t>(len, 1);
            const int64_t near = base + ideal2 / den;
            int candidates = 0, visible = 0, found = 0;
            for (int64_t m = near - 2; m <= near + 2; ++m)
            {
                const bool inside = m >= 0 && m < minorEnd;
                const bool candidate = std::abs(2 * ((m - base) * den - ideal2)) <= den;
                candidates += candidate;
                visible += candidate && inside;
                if (!inside) continue;
                auto p = alongX ? turned(rot, w, h, int(major), int(m)) : turned(rot, w, h, int(m), int(major));
                if (!r.at(p.first, p.second)) continue;
                PBT_CHECK(c, candidate, "step %lld: minor coordinate %lld is more than half a pixel from the ideal line", (long long)k, (long long)m);
                ++found;
            }
            PBT_CHECK(c, found <= 1 && found <= visible, "%d pixels at step %lld of the longer axis", found, (long long)k);
            PBT_CHECK(c, found == 1 || visible < candidates || visible == 0, "no pixel at step %lld of the longer axis, though the line passes there", (long long)k);
            accounted += size_t(found);
        }
        PBT_CHECK(c, r.count() == accounted, "%zu pixels, only %zu of them on the line", r.count(), accounted);
        Recorder reverse(w, h);
        Canvas again(reverse);
        again.setRotation(rot);
        again.drawLine({ x2, y2 }, { sx, sy });
        sane(c, reverse);
        PBT_CHECK(c, reverse.grid == r.grid, "drawn from the other end the line has other pixels");
        c.label("end points beyond the surface");
        if (accounted > 0 && accounted <= size_t(len))
        {
            c.label("clipped line");
            c.nontrivial();
        }
        return;
    }
    const int dx = x2 - x1, dy = y2 - y1, L = std::max(std::abs(dx), std::abs(dy));
    const bool xMajor = std::abs(dx) >= std::abs(dy);
    auto on = [&](int lx, int ly) { auto p = turned(rot, w, h, lx, ly); return r.at(p.first, p.second); };
    PBT_CHECK(c, on(x1, y1) && on(x2, y2), "an end point is missing");
    const size_t n = r.count();
    PBT_CHECK(c, n == size_t(L) + 1, "%zu pixels, expected %d", n, L + 1);
    // exactly one pixel per step of the longer axis, within half a pixel of the ideal
    for (int k = 0; k <= L; ++k)
    {
        int found = 0;
        const int major = L == 0 ? (xMajor ? x1 : y1) : xMajor ? x1 + (dx > 0 ? k : -k) : y1 + (dy > 0 ? k : -k);
        const int64_t ideal2 = L == 0 ? 0 : int64_t(xMajor ? dy : dx) * k; // ideal minor offset times L
        const int64_t base = xMajor ? y1 : x1;
        const int64_t near = L == 0 ? base : base + ideal2 / L;
        for (int64_t m = near - 2; m <= near + 2; ++m)
        {
            if (m < 0 || m >= (xMajor ? size.height : size.width)) continue;
            if (!(xMajor ? on(major, int(m)) : on(int(m), major))) continue;
            ++found;
            const int64_t dist2 = std::abs(2 * ((m - base) * L - ideal2)); // 2 L times the distance
            PBT_CHECK(c, dist2 <= L, "step %d: minor coordinate %lld is more than half a pixel from the ideal line", k, (long long)m);
        }
        PBT_CHECK(c, found == 1, "%d pixels at step %d of the longer axis", found, k);
    }
    Recorder back(w, h);
    Canvas other(back);
    other.setRotation(rot);
    other.drawLine({ x2, y2 }, { x1, y1 });
    sane(c, back);
    PBT_CHECK(c, back.grid == r.grid, "drawn from the other end the line has other pixels");
    if (dx != 0 && dy != 0 && std::abs(dx) != std::abs(dy)) c.nontrivial();
    if (L > 255) c.label("longer than 255");
}
#endif

#if PROP == 18
void c18(Ctx &c)
{
    int w = genExtent(c, 60, 330), h = genExtent(c, 60, 330);
    const bool vast = c.chance(1, 800); // sides beyond 2^15 and 2^16
    if (vast)
    {
        w = 32700 + int(c.range(0, 33500));
        h = 1 + int(c.uniform(4));
        if (c.boolean()) std::swap(w, h);
        c.label("sides beyond 32000 pixels");
    }
    Recorder r(w, h);
    Canvas canvas(r);
    auto rot = genRotation(c);
    canvas.setRotation(rot);
    auto size = canvas.getSize();
    const bool filled = c.boolean();
    int x = int(c.around(-70, 70, 0)), y = int(c.around(-70, 70, 0));
    const int most = vast ? 70000 : c.chance(1, 10) ? 500 : 150;
    int rw = int(c.around(-80, most, 1)), rh = int(c.around(-80, most, 1));
    if (c.chance(1, 4)) { x = int(c.range(0, size.width - 1)); rw = int(c.around(-2, size.width - x, 1)); }
    if (c.chance(1, 4)) { y = int(c.range(0, size.height - 1)); rh = int(c.around(-2, size.height - y, 1)); }
    c.trace("surface %dx%d %s (%d,%d) %dx%d", w, h, filled ? "filled" : "border", x, y, rw, rh);
    Canvas::Rect rect { { x, y }, { rw, rh } };
    bystander(c, rot, nullptr);
    if (filled) canvas.drawFilledRectangle(rect);
    else canvas.drawRectangle(rect);
    sane(c, r);
    size_t n = 0;
    for (int ly = 0; ly < size.height; ++ly) for (int lx = 0; lx < size.width; ++lx)
    {
        bool in = lx >= x && lx < x + rw && ly >= y && ly < y + rh;
        bool border = lx == x || lx == x + rw - 1 || ly == y || ly == y + rh - 1;
        bool want = in && (filled || border);
        auto p = turned(rot, w, h, lx, ly);
        n += want;
        PBT_CHECK(c, r.at(p.first, p.second) == want, "%s %dx%d at (%d,%d), rotation %d: logical pixel (%d,%d) is %s", filled ? "filled rectangle" : "rectangle", rw, rh, x, y, int(rot) * 90, lx, ly, want ? "not set" : "set");
    }
    if (rw <= 0 || rh <= 0) { c.label("empty or negative size"); c.nontrivial(); }
    else if (rw == 1 || rh == 1) c.label("one pixel wide or high");
    if (n > 1) c.nontrivial();
}
#endif

#if PROP == 19
// Only the list of pixels.
class Sparse : public FrameBufferBase
{
public:
    Sparse(int w, int h) : w(w), h(h) {}
    int getWidth() const override { return w; }
    int getHeight() const override { return h; }
    embedded::BytesView getImage() override { return {}; }
    embedded::ConstBytesView getImage() const override { return {}; }
    void clear(uint32_t) override { }
    void setColor(uint32_t) override { }
    void drawPixel(int x, int y) override { pixels.push_back({ y, x }); }
    int w, h;
    std::vector<XY> pixels; // row, column
};
// Outlines of radii at which 16-bit numbers overflow.
void largeCircle(Ctx &c)
{
    c.label("radius of thousands");
    const int at[] = { 400, 4096, 8192, 10922, 16384, 21845, 32768 };
    const int rad = int(c.chance(2, 3) ? c.range(400, 45000) : c.around(400, 45000, at[c.uniform(6)]));
    const int w = 2 * rad + 3, h = 2 * rad + 4;
    Sparse r(w, h);
    Canvas canvas(r);
    auto rot = genRotation(c);
    canvas.setRotation(rot);
    c.trace("circle r %d in the middle of %dx%d", rad, w, h);
    canvas.drawCircle({ rad + 1, rad + 1 }, rad);
    auto &px = r.pixels;
    const auto centre = turned(rot, w, h, rad + 1, rad + 1);
    for (auto &p: px)
    {
        PBT_CHECK(c, p.first >= 0 && p.second >= 0 && p.first < h && p.second < w, "pixel (%d,%d) outside the %dx%d surface is addressed", p.second, p.first, w, h);
        p.first -= centre.second;
        p.second -= centre.first;
    }
    std::sort(px.begin(), px.end());
    px.erase(std::unique(px.begin(), px.end()), px.end());
    auto on = [&](int x, int y) { return std::binary_search(px.begin(), px.end(), XY { y, x }); };
    PBT_CHECK(c, on(rad, 0) && on(-rad, 0) && on(0, rad) && on(0, -rad), "r %d: an extreme point is missing", rad);
    const int64_t lo = 2 * int64_t(rad) - 1, hi = 2 * int64_t(rad) + 1;
    for (auto &[y, x]: px)
    {
        const int64_t d4 = 4 * (int64_t(x) * x + int64_t(y) * y);
        PBT_CHECK(c, d4 <= hi * hi && d4 >= lo * lo, "r %d: (%d,%d) is more than half a pixel from the ideal circle", rad, x, y);
        PBT_CHECK(c, on(-x, y) && on(x, -y) && on(y, x), "r %d: (%d,%d) has no mirror image", rad, x, y);
        PBT_CHECK(c, !((on(x - 1, y) || on(x + 1, y)) && (on(x, y - 1) || on(x, y + 1))), "r %d: the outline is not thin at (%d,%d)", rad, x, y);
    }
    // from (rad, 0) to the diagonal: one pixel in each row, and no step longer than one
    int last = rad, y = 0;
    for (; y <= last; ++y)
    {
        auto row = std::lower_bound(px.begin(), px.end(), XY { y, 0 });
        int here = -1;
        for (; row != px.end() && row->first == y; ++row) if (row->second >= y) { PBT_CHECK(c, here < 0, "r %d: two pixels in row %d before the diagonal", rad, y); here = row->second; }
        PBT_CHECK(c, here >= 0 || y >= last, "r %d: no pixel in row %d", rad, y);
        if (here < 0) break;
        PBT_CHECK(c, last - here <= 1 && last >= here, "r %d: the outline has a gap at row %d", rad, y);
        last = here;
    }
    PBT_CHECK(c, last - y <= 1, "r %d: the outline does not reach the diagonal", rad);
    c.nontrivial();
}
// One byte per pixel and nothing else.
class Bytemap : public FrameBufferBase
{
public:
    Bytemap(int w, int h) : w(w), h(h), px(size_t(w) * size_t(h)) {}
    int getWidth() const override { return w; }
    int getHeight() const override { return h; }
    embedded::BytesView getImage() override { return {}; }
    embedded::ConstBytesView getImage() const override { return {}; }
    void clear(uint32_t) override { }
    void setColor(uint32_t) override { }
    void drawPixel(int x, int y) override
    {
        if (x < 0 || y < 0 || x >= w || y >= h) outside = true;
        else px[size_t(y) * size_t(w) + size_t(x)] = 1;
    }
    int w, h;
    bool outside = false;
    std::vector<uint8_t> px;
};
// Filled circles of large radii against their outlines, both on a surface that may cut them.
void largeFilled(Ctx &c)
{
    c.label("large and filled");
    const int rad = int(c.chance(1, 6) ? c.range(1400, 2600) : c.range(400, 1400));
    const int w = 2 * rad + 3 + int(c.uniform(5)), h = 2 * rad + 3 + int(c.uniform(5));
    Bytemap r(w, h), f(w, h);
    Canvas canvas(r), fc(f);
    auto rot = genRotation(c);
    canvas.setRotation(rot);
    fc.setRotation(rot);
    c.trace("filled circle r %d on %dx%d", rad, w, h);
    canvas.drawCircle({ rad + 1, rad + 1 }, rad);
    fc.drawCircle({ rad + 1, rad + 1 }, rad, true);
    PBT_CHECK(c, !r.outside && !f.outside, "r %d: a pixel outside the surface is addressed", rad);
    for (int y = 0; y < h; ++y)
    {
        auto row = r.px.begin() + ptrdiff_t(y) * w, full = f.px.begin() + ptrdiff_t(y) * w;
        auto first = std::find(row, row + w, 1);
        auto end = row + w;
        while (end != first && !end[-1]) --end;
        for (int x = 0; x < w; ++x)
        {
            bool want = row + x >= first && row + x < end;
            PBT_CHECK(c, (full[x] != 0) == want, "r %d filled: pixel (%d,%d) of the surface is %s", rad, x, y, want ? "missing" : "set");
        }
    }
    c.nontrivial();
}
void c19(Ctx &c)
{
    if (c.chance(1, 60)) return largeCircle(c);
    if (c.chance(1, 400)) return largeFilled(c);
    const int rad = int(c.oneOf({ 12, 2 }) == 0 ? c.range(0, 60) : c.range(0, 400));
    const int w = 2 * rad + 3 + int(c.uniform(3)), h = 2 * rad + 3 + int(c.uniform(3));
    Recorder r(w, h), f(w, h);
    Canvas canvas(r), fc(f);
    auto rot = genRotation(c);
    canvas.setRotation(rot);
    fc.setRotation(rot);
    auto size = canvas.getSize();
    const int cx = rad + 1 + int(c.uniform(uint64_t(size.width - 2 * rad - 3))), cy = rad + 1 + int(c.uniform(uint64_t(size.height - 2 * rad - 3)));
    c.trace("surface %dx%d circle (%d,%d) r %d", w, h, cx, cy, rad);
    bystander(c, rot, nullptr);
    canvas.drawCircle({ cx, cy }, rad);
    fc.drawCircle({ cx, cy }, rad, true);
    sane(c, r);
    sane(c, f);
    // into coordinates relative to the centre
    const int side = 2 * rad + 1;
    auto rel = [&](const Recorder &rec, int x, int y) { auto p = turned(rot, w, h, cx + x, cy + y); return rec.at(p.first, p.second); };
    size_t n = 0, nf = 0;
    for (int y = -rad; y <= rad; ++y)
    {
        int left = rad + 1, right = -rad - 1;
        for (int x = -rad; x <= rad; ++x)
        {
            if (!rel(r, x, y)) continue;
            ++n;
            left = std::min(left, x);
            right = std::max(right, x);
            PBT_CHECK(c, rel(r, -x, y) && rel(r, x, -y) && rel(r, y, x), "r %d: (%d,%d) has no mirror image", rad, x, y);
            const int64_t d4 = 4 * (int64_t(x) * x + int64_t(y) * y), lo = 2 * int64_t(rad) - 1, hi = 2 * int64_t(rad) + 1;
            PBT_CHECK(c, d4 <= hi * hi && (rad == 0 || d4 >= lo * lo), "r %d: (%d,%d) is more than half a pixel from the ideal circle", rad, x, y);
            PBT_CHECK(c, !((rel(r, x - 1, y) || rel(r, x + 1, y)) && (rel(r, x, y - 1) || rel(r, x, y + 1))), "r %d: the outline is not thin at (%d,%d)", rad, x, y);
        }
        for (int x = -rad; x <= rad; ++x)
        {
            bool want = x >= left && x <= right;
            nf += want;
            PBT_CHECK(c, rel(f, x, y) == want, "r %d filled: (%d,%d) is %s", rad, x, y, want ? "missing" : "set");
        }
    }
    PBT_CHECK(c, r.count() == n, "r %d: pixels further than the radius from the centre in x or y", rad);
    PBT_CHECK(c, f.count() == nf, "r %d filled: pixels outside the circle's rows", rad);
    PBT_CHECK(c, rel(r, rad, 0) && rel(r, -rad, 0) && rel(r, 0, rad) && rel(r, 0, -rad), "r %d: an extreme point is missing", rad);
    // connected: reach every outline pixel from (rad, 0) by king's moves
    std::vector<uint8_t> seen(size_t(side) * size_t(side));
    auto idx = [&](int x, int y) { return size_t(y + rad) * size_t(side) + size_t(x + rad); };
    std::vector<XY> todo { { rad, 0 } };
    seen[idx(rad, 0)] = 1;
    size_t reached = 0;
    while (!todo.empty())
    {
        auto [x, y] = todo.back();
        todo.pop_back();
        ++reached;
        for (int b = -1; b <= 1; ++b) for (int a = -1; a <= 1; ++a)
        {
            int X = x + a, Y = y + b;
            if (std::abs(X) > rad || std::abs(Y) > rad || seen[idx(X, Y)] || !rel(r, X, Y)) continue;
            seen[idx(X, Y)] = 1;
            todo.push_back({ X, Y });
        }
    }
    PBT_CHECK(c, reached == n, "r %d: the outline has gaps (%zu of %zu pixels connected)", rad, reached, n);
    // closed: from the centre one cannot get out by rook's moves
    if (rad >= 1)
    {
        std::fill(seen.begin(), seen.end(), 0);
        todo = { { 0, 0 } };
        seen[idx(0, 0)] = 1;
        while (!todo.empty())
        {
            auto [x, y] = todo.back();
            todo.pop_back();
            const int d[4][2] = { { 1, 0 }, { -1, 0 }, { 0, 1 }, { 0, -1 } };
            for (auto &m: d)
            {
                int X = x + m[0], Y = y + m[1];
                PBT_CHECK(c, std::abs(X) <= rad && std::abs(Y) <= rad, "r %d: the outline is not closed", rad);
                if (seen[idx(X, Y)] || rel(r, X, Y)) continue;
                seen[idx(X, Y)] = 1;
                todo.push_back({ X, Y });
            }
        }
    }
    if (rad >= 2) c.nontrivial();
}
// The outline of every radius up to a bound.
void c19Once(std::string &report)
{
    const int most = thoroughTier() ? 3000 : 1000, m = most + 2;
    Recorder r(2 * m + 1, 2 * m + 1);
    Canvas canvas(r);
    for (int rad = 0; rad <= most; ++rad)
    {
        canvas.drawCircle({ m, m }, rad);
        auto fail = [&](const char* what) { char b[160]; snprintf(b, sizeof b, "radius %d: %s", rad, what); throw Failure { b }; };
        if (!r.outside.empty()) fail("a pixel outside the surface is addressed");
        if (!r.at(m + rad, m) || !r.at(m - rad, m) || !r.at(m, m + rad) || !r.at(m, m - rad)) fail("an extreme point is missing");
        const int64_t lo = 2 * int64_t(rad) - 1, hi = 2 * int64_t(rad) + 1;
        for (auto [px, py]: r.touched)
        {
            const int x = px - m, y = py - m;
            if (!r.at(m - x, m + y) || !r.at(m + x, m - y) || !r.at(m + y, m + x)) fail("the outline is not symmetric");
            const int64_t d4 = 4 * (int64_t(x) * x + int64_t(y) * y);
            if (d4 > hi * hi || (rad && d4 < lo * lo)) fail("a pixel is more than half a pixel from the ideal circle");
            if ((r.at(px - 1, py) || r.at(px + 1, py)) && (r.at(px, py - 1) || r.at(px, py + 1))) fail("the outline is not thin");
        }
        // connected by king's moves: grid value 2 marks what was reached
        std::vector<XY> todo { { m + rad, m } };
        size_t reached = 1;
        r.grid[size_t(m) * size_t(r.w) + size_t(m + rad)] = 2;
        while (!todo.empty())
        {
            auto [x, y] = todo.back();
            todo.pop_back();
            for (int b = -1; b <= 1; ++b) for (int a = -1; a <= 1; ++a)
            {
                if (!r.at(x + a, y + b)) continue;
                auto &g = r.grid[size_t(y + b) * size_t(r.w) + size_t(x + a)];
                if (g != 1) continue;
                g = 2;
                ++reached;
                todo.push_back({ x + a, y + b });
            }
        }
        if (reached != r.count()) fail("the outline has gaps");
        r.wipe();
    }
    report = "the outlines of all radii 0.." + std::to_string(most);
}
#endif

#if PROP == 20
void c20(Ctx &c)
{
    auto font = genFont(c, c.chance(1, 4), true);
    const int w = 400, h = 400;
    static std::unique_ptr<Recorder> rec;
    if (!rec) rec = std::make_unique<Recorder>(w, h);
    rec->wipe();
    Canvas canvas(*rec);
    auto rot = genRotation(c);
    canvas.setRotation(rot);
    std::set<XY> want; // logical
    auto verify = [&](const char* what) {
        sane(c, *rec);
        std::set<XY> phys;
        for (auto &p: want)
        {
            if (p.first < 0 || p.second < 0 || p.first >= w || p.second >= h) continue; // square surface
            phys.insert(turned(rot, w, h, p.first, p.second));
        }
        for (auto &p: phys) PBT_CHECK(c, rec->at(p.first, p.second), "%s: pixel (%d,%d) of the surface is not set", what, p.first, p.second);
        size_t n = rec->count();
        PBT_CHECK(c, n == phys.size(), "%s: %zu pixels are set, the glyphs have %zu", what, n, phys.size());
    };
    bool interesting = false;
    // single characters
    for (int k = 0; k < 3; ++k)
    {
        Ctx::Scope s(c);
        uint8_t code = uint8_t(c.oneOf({ 3, 1 }) == 0 ? c.flat(font->first, font->last, font->first) : c.uniform(255));
        int x = int(c.around(-20, w + 20, 100)), y = int(c.around(-20, h + 20, 100));
        c.trace("char 0x%02x at (%d,%d)", code, x, y);
        bystander(c, rot, font.get());
        int adv = canvas.drawCharAt({ x, y }, char(code), *font->font);
        auto &g = font->glyph(code);
        PBT_CHECK(c, adv == g.advance, "drawCharAt(0x%02x) returns %d, the glyph's advance is %d", code, adv, g.advance);
        size_t before = want.size();
        plot(g, x, y, want);
        verify("character");
        if (want.size() > before && (g.w * g.h) % 8 != 0) c.label("size not a multiple of eight bits");
    }
    // a string, sometimes so long that only a part in its middle is on the surface
    const bool lengthy = c.chance(1, 10);
    auto text = genString(c, *font, lengthy ? 12 : 10);
    int x = int(c.around(-20, w, 50)), y = int(c.around(-20, h, 200));
    if (lengthy && !text.empty())
    {
        std::string unit = text;
        size_t len = size_t(c.chance(1, 40) ? c.around(700, 70000, c.boolean() ? 65536 : 32768) : c.range(10, 700));
        while (text.size() < len) text += unit;
        size_t visible = c.uniform(text.size() - 1);
        for (size_t i = 0; i < visible; ++i) x -= font->glyph(uint8_t(text[i])).advance;
        c.trace("repeated to %zu characters", text.size());
        c.label("long string");
    }
    c.trace("string %s at (%d,%d)", show(text).c_str(), x, y);
    std::unique_ptr<char[]> exact(new char[text.size()]);
    memcpy(exact.get(), text.data(), text.size());
    canvas.drawStringAt({ x, y }, { exact.get(), text.size() }, *font->font);
    size_t drawn = 0;
    for (char ch: text)
    {
        auto &g = font->glyph(uint8_t(ch));
        size_t before = want.size();
        plot(g, x, y, want);
        if (want.size() > before) ++drawn;
        x += g.advance;
    }
    verify("string");
    if (drawn >= 2) interesting = true;
    if (interesting) c.nontrivial();
}
#endif

#if PROP == 21
void c21(Ctx &c)
{
    auto font = genFont(c, c.boolean(), true);
    // copies without anything around them, so that reads beyond the tables are seen
    auto* bitmap = font->base;
    size_t n = font->glyphs.size();
    for (int code = 0; code < 256; ++code)
    {
        auto r = font->font->getBitmap(char(code));
        size_t i = font->index(uint8_t(code));
        auto &g = font->glyphs[i];
        PBT_CHECK(c, int(r.effectiveSize.width) == g.w && int(r.effectiveSize.height) == g.h && int(r.offset.width) == g.ox && int(r.offset.height) == g.oy && int(r.width) == g.advance,
                  "code 0x%02x (font 0x%02x..0x%02x, %zu glyphs) does not get glyph %zu: size %dx%d offset %d,%d advance %d", code, font->first, font->last, n, i,
                  r.effectiveSize.width, r.effectiveSize.height, r.offset.width, r.offset.height, r.width);
        PBT_CHECK(c, r.bitmap.begin() == bitmap + g.offset, "code 0x%02x: the bitmap starts at offset %td, expected %zu (glyph %zu of %zu)", code, r.bitmap.begin() - bitmap, g.offset, i, n);
        PBT_CHECK(c, r.bitmap.size() == g.end - g.offset, "code 0x%02x: the bitmap has %zu bytes, expected %zu (glyph %zu of %zu)", code, size_t(r.bitmap.size()), g.end - g.offset, i, n);
    }
    // drawing and measuring read nothing outside the tables either: they end where their memory does
    static std::unique_ptr<Recorder> rec;
    if (!rec) rec = std::make_unique<Recorder>(48, 40);
    rec->wipe();
    Canvas canvas(*rec);
    const char codes[] = { char(font->last), char(font->first), char(c.uniform(255)), char(c.flat(font->first, font->last, font->first)) };
    const Canvas::Point pos { int(c.range(-60, 60)), int(c.range(-60, 60)) };
    for (char code: codes) canvas.drawCharAt(pos, code, *font->font);
    font->font->getTextBounds({ codes, sizeof codes });
    if (font->last >= 0xA0) c.label("beyond 0xA0");
    if (font->first >= 0xA0) c.label("starts beyond 0xA0");
    if (n >= 2) c.nontrivial();
}

// The font objects offered by EmbeddedFonts.h
void bundledFonts(std::string &report)
{
    const size_t count = sizeof bundled::FreeSans15pt7bGlyphs / sizeof *bundled::FreeSans15pt7bGlyphs;
    for (int code = 0; code < 256; ++code)
    {
        auto r = embedded::fonts::FreeSans15pt.getBitmap(char(code));
        size_t i = code < bundled::FreeSans15pt7b.first || code > bundled::FreeSans15pt7b.last ? 0 : size_t(code - bundled::FreeSans15pt7b.first);
        auto &g = bundled::FreeSans15pt7bGlyphs[i];
        size_t end = i + 1 < count ? bundled::FreeSans15pt7bGlyphs[i + 1].bitmapOffset : sizeof bundled::FreeSans15pt7bBitmaps;
        bool ok = r.effectiveSize.width == g.size.width && r.effectiveSize.height == g.size.height && r.offset.width == g.offset.width && r.offset.height == g.offset.height && r.width == g.shift;
        ok = ok && r.bitmap.size() == end - g.bitmapOffset && memcmp(r.bitmap.begin(), bundled::FreeSans15pt7bBitmaps + g.bitmapOffset, r.bitmap.size()) == 0;
        char text[100];
        snprintf(text, sizeof text, "FreeSans15pt: code 0x%02x does not get glyph %zu", code, i);
        if (!ok) throw Failure { text };
        // the font is well-formed
        const size_t bits = size_t(g.size.width) * g.size.height;
        ok = code < 0x20 || code > 0x7E || i == size_t(code - 0x20);
        ok = ok && end - g.bitmapOffset == (bits + 7) / 8 && g.bitmapOffset + (bits + 7) / 8 <= sizeof bundled::FreeSans15pt7bBitmaps;
        ok = ok && (bits % 8 == 0 || (bundled::FreeSans15pt7bBitmaps[end - 1] & (0xFF >> bits % 8)) == 0);
        snprintf(text, sizeof text, "FreeSans15pt: glyph %zu does not have exactly its part of the bitmaps", i);
        if (!ok) throw Failure { text };
    }
    report = "all 256 codes of FreeSans15pt";
}
#endif

#if PROP == 22
// A vast surface of which only the extent of what was drawn is kept.
class Extremes : public FrameBufferBase
{
public:
    int getWidth() const override { return 1 << 26; }
    int getHeight() const override { return 1 << 26; }
    embedded::BytesView getImage() override { return {}; }
    embedded::ConstBytesView getImage() const override { return {}; }
    void clear(uint32_t) override {}
    void setColor(uint32_t) override {}
    void drawPixel(int x, int y) override
    {
        ++n;
        minX = std::min(minX, x);
        maxX = std::max(maxX, x);
        minY = std::min(minY, y);
        maxY = std::max(maxY, y);
    }
    size_t n = 0;
    int minX = INT32_MAX, minY = INT32_MAX, maxX = INT32_MIN, maxY = INT32_MIN;
};
void c22(Ctx &c)
{
    auto font = genFont(c, c.chance(1, 3), true);
    auto text = genString(c, *font, 8);
    c.trace("text %s", show(text).c_str());
    if (!text.empty() && c.chance(1, 12))
    {
        std::string unit = text;
        size_t len = size_t(c.chance(1, 40) ? c.around(400, 70000, c.boolean() ? 65536 : 32768) : c.range(8, 400));
        while (text.size() < len) text += unit;
        c.trace("repeated to %zu characters", text.size());
        c.label("long text");
    }
    std::unique_ptr<char[]> exact(new char[text.size()]);
    memcpy(exact.get(), text.data(), text.size());
    auto b = font->font->getTextBounds({ exact.get(), text.size() });
    if (text.empty())
    {
        PBT_CHECK(c, b.topLeft.x == 0 && b.topLeft.y == 0 && b.size.width == 0 && b.size.height == 0, "bounds of the empty string are (%d,%d) %dx%d", b.topLeft.x, b.topLeft.y, b.size.width, b.size.height);
        return;
    }
    // on a surface with room around it
    const int margin = 600;
    static Extremes rec;
    rec = Extremes();
    Canvas canvas(rec);
    canvas.drawStringAt({ margin + b.topLeft.x, margin + b.topLeft.y }, { exact.get(), text.size() }, *font->font);
    const size_t n = rec.n;
    if (n > 0)
    {
        const int minX = rec.minX - margin, maxX = rec.maxX - margin, minY = rec.minY - margin, maxY = rec.maxY - margin;
        PBT_CHECK(c, minX >= 0 && minY >= 0 && maxX < b.size.width && maxY < b.size.height,
                  "text drawn at the reported origin (%d,%d) covers x %d..%d, y %d..%d, the reported size is %dx%d", b.topLeft.x, b.topLeft.y, minX, maxX, minY, maxY, b.size.width, b.size.height);
    }
    // no larger than the smallest rectangle with all glyph boxes and pen positions
    int l = 0, r = 0, t = 0, bt = 0, pen = 0;
    for (char ch: text)
    {
        auto &g = font->glyph(uint8_t(ch));
        l = std::min(l, pen + g.ox);
        r = std::max(r, pen + g.ox + g.w);
        t = std::min(t, g.oy);
        bt = std::max(bt, g.oy + g.h);
        pen += g.advance;
        r = std::max(r, pen);
    }
    PBT_CHECK(c, b.size.width <= r - l && b.size.height <= bt - t, "the bounds %dx%d are larger than the %dx%d of all glyph boxes and pen positions", b.size.width, b.size.height, r - l, bt - t);
    if (text.size() >= 2 && n > 0) c.nontrivial();
}
#endif

} // namespace

namespace pbt
{
const std::vector<Property> &properties()
{
    static const std::vector<Property> p {
#if PROP == 13
        { "C13", c13, 140000, 800000, "pixels and colours on 50 frame buffer types (all seven depths); non-trivial: at least two pixels drawn" },
#elif PROP == 14
        { "C14", c14, 60000, 250000, "a history of pixels, colour changes and clears on 50 frame buffer types, directly or through a canvas; non-trivial: all three kinds occur" },
#elif PROP == 15
        { "C15", c15, 8000, 150000, "drawing operations on a surface of 1..70 pixels, compared with the same drawing on a surface with 1800 pixels more on each side; non-trivial: a drawing partly inside and partly outside" },
        { "C15-far", c15Far, 80000, 900000, "coordinates and sizes up to 1e9; non-trivial: some of the figure is visible" },
#elif PROP == 16
        { "C16", c16, 60000, 250000, "drawing under changing rotations against the unrotated drawing turned; non-trivial: more than one pixel drawn in a rotation other than 0" },
#elif PROP == 17
        { "C17", c17, 75000, 500000, "lines between generated points in all rotations; non-trivial: neither axis-parallel nor diagonal" },
#elif PROP == 18
        { "C18", c18, 270000, 1500000, "rectangles of -80..150 pixels in all rotations; non-trivial: empty or more than one pixel visible" },
#elif PROP == 19
        { "C19", c19, 2500, 40000, "circles of radius 0..400 in all rotations; non-trivial: radius at least 2", c19Once },
#elif PROP == 20
        { "C20", c20, 6000, 150000, "characters and strings in generated fonts, all codes, all rotations; non-trivial: a string of which two glyphs set new pixels" },
#elif PROP == 21
        { "C21", c21, 16000, 250000, "all 256 codes of generated fonts; non-trivial: at least two glyphs", bundledFonts },
#elif PROP == 22
        { "C22", c22, 20000, 400000, "strings of 0..8 codes in generated fonts; non-trivial: at least two characters and a pixel drawn" },
#endif
    };
    return p;
}
}
