// C24-C28: the font converter. C25-C27 run the converter's main() on generated BDF fonts.
#include "pbt.h"
#include <optional>
#include <dirent.h>
#include <filesystem>
#include <iconv.h>
#include <getopt.h>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include "gfx-font-converter/BitStream.h"
#include "gfx-font-converter/EncodingConverter.h"
#if PROP >= 25 && PROP <= 27
#include "graphics/GFXFontsAdapter.h"
namespace embedded::fonts { using embedded::Rect; }
#include "graphics/EmbeddedFont.h"
#include <ft2build.h>
#include FT_FREETYPE_H
#include FT_MODULE_H
#endif

using namespace pbt;

int gfx_converter_main(int argc, char* argv[]);

namespace
{
// ---- what a code page assigns to a byte: a conversion of this byte alone -------------------------------
std::string alone(const char* from, const char* to, uint8_t byte)
{
    iconv_t d = iconv_open(to, from);
    if (d == iconv_t(-1)) return {};
    char in = char(byte), out[64];
    char *ip = &in, *op = out;
    size_t il = 1, ol = sizeof out;
    bool ok = iconv(d, &ip, &il, &op, &ol) != size_t(-1);
    if (ok) ok = iconv(d, nullptr, nullptr, &op, &ol) != size_t(-1);
    iconv_close(d);
    return ok ? std::string(out, size_t(op - out)) : std::string();
}
struct CodePage { std::string name; uint32_t code[256]; std::string utf8[256]; };
uint32_t le32(const std::string &s) { uint32_t v = 0; for (size_t i = 0; i < 4; ++i) v |= uint32_t(uint8_t(s[i])) << (8 * i); return v; }

// the single-byte code pages of this platform
const std::vector<CodePage> &codePages()
{
    static std::vector<CodePage> pages;
    if (!pages.empty()) return pages;
    for (const char* n: { "ISO-8859-1", "ASCII", "ISO-8859-2", "ISO-8859-5", "ISO-8859-6", "ISO-8859-7", "ISO-8859-8", "ISO-8859-9", "ISO-8859-10", "ISO-8859-11", "ISO-8859-13", "ISO-8859-14", "ISO-8859-15", "ISO-8859-16",
                          "CP1250", "CP1251", "CP1252", "CP1253", "CP1254", "CP1255", "CP1256", "CP1257", "CP1258", "KOI8-R", "KOI8-U", "KOI8-T", "IBM437", "IBM850", "IBM852", "IBM855", "IBM866", "MACINTOSH", "MAC-CYRILLIC",
                          "TIS-620", "ARMSCII-8", "VISCII", "TCVN5712-1", "GEORGIAN-PS", "GEORGIAN-ACADEMY", "PT154", "RK1048", "HP-ROMAN8", "MS-HEBR", "IBM1046", "IBM037", "EBCDIC-US" })
    {
        iconv_t d = iconv_open("UCS-4LE", n);
        if (d == iconv_t(-1)) continue;
        iconv_close(d);
        CodePage p { n, {}, {} };
        bool single = true;
        for (int b = 0; b < 256 && single; ++b)
        {
            auto u = alone(n, "UCS-4LE", uint8_t(b)), t = alone(n, "UTF-8", uint8_t(b));
            if (u.size() > 4) single = false;
            p.code[b] = u.size() == 4 ? le32(u) : 0;
            p.utf8[b] = t;
        }
        if (single) pages.push_back(std::move(p));
    }
    return pages;
}

std::string scratch()
{
    static std::string dir;
    static pid_t owner = 0;
    if (owner != getpid())
    {
        owner = getpid();
        const char* base = getenv("VERIF_SCRATCH");
        std::string t = std::string(base && *base ? base : "/tmp") + "/conv-XXXXXX";
        if (!mkdtemp(t.data())) abort();
        dir = t;
    }
    return dir;
}
void emptyDir(const std::string &d)
{
    DIR* p = opendir(d.c_str());
    if (!p) return;
    while (auto* e = readdir(p))
    {
        std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        n = d + "/" + n;
        if (unlink(n.c_str()) != 0) rmdir(n.c_str());
    }
    closedir(p);
}
std::string slurp(const std::string &f)
{
    std::ifstream i(f, std::ios::binary);
    std::stringstream s;
    s << i.rdbuf();
    return s.str();
}

// Without -o the output is written beside the program
void collect()
{
    const auto from = scratch() + "/bin", to = scratch() + "/out";
    DIR* p = opendir(from.c_str());
    if (!p) return;
    while (auto* e = readdir(p))
    {
        std::string n = e->d_name;
        if (n != "." && n != "..") rename((from + "/" + n).c_str(), (to + "/" + n).c_str());
    }
    closedir(p);
}

struct Outcome { int status; std::string text; };
// The converter in this process, its output caught. fsize: largest file it can write.
Outcome convert(Ctx* c, std::vector<std::string> args, uint64_t fsize = UINT64_MAX)
{
    args.insert(args.begin(), scratch() + "/bin/gfx-font-converter");
    std::vector<std::unique_ptr<char[]>> store;
    std::vector<char*> argv;
    for (auto &a: args)
    {
        store.emplace_back(new char[a.size() + 1]);
        memcpy(store.back().get(), a.c_str(), a.size() + 1);
        argv.push_back(store.back().get());
    }
    argv.push_back(nullptr);
    optind = 0;
    opterr = 0;
    std::stringstream out, err;
    auto* o = std::cout.rdbuf(out.rdbuf());
    auto* e = std::cerr.rdbuf(err.rdbuf());
    std::cout.clear();
    std::cerr.clear();
    rlimit old {};
    getrlimit(RLIMIT_FSIZE, &old);
    auto oldHandler = signal(SIGXFSZ, SIG_IGN);
    if (fsize != UINT64_MAX)
    {
        rlimit r { fsize, old.rlim_max };
        setrlimit(RLIMIT_FSIZE, &r);
    }
    Outcome r { -1, {} };
    std::string thrown;
    try { r.status = gfx_converter_main(int(args.size()), argv.data()); }
    catch (const std::exception &x) { thrown = x.what(); r.status = -2; }
    catch (...) { thrown = "?"; r.status = -2; }
    setrlimit(RLIMIT_FSIZE, &old);
    signal(SIGXFSZ, oldHandler);
    std::cout.rdbuf(o);
    std::cerr.rdbuf(e);
    r.text = out.str() + err.str();
    if (std::none_of(args.begin(), args.end(), [](const std::string &a) { return a.substr(0, 2) == "-o"; })) collect();
    if (r.status == -2)
    {
        std::string m = "the converter is terminated by an exception: " + thrown;
        if (c) c->fail("%s", m.c_str());
        throw Failure { m };
    }
    return r;
}

#if PROP >= 25 && PROP <= 27
// ---- source fonts ------------------------------------------------------------------------------------
struct SrcGlyph
{
    uint32_t code;
    int w, h, xoff, yoff, advance;
    std::vector<bool> bits;
    bool on(int x, int y) const { return bits[size_t(y * w + x)]; }
};
struct SrcFont
{
    int size = 12, ascent = 0, descent = 0;
    int64_t defaultChar = -1; // -1: no property
    int bpp = 1;
    std::vector<SrcGlyph> glyphs; // by code
    const SrcGlyph &lookup(uint32_t code) const
    {
        const SrcGlyph* def = &glyphs.front();
        for (auto &g: glyphs)
        {
            if (code != 0 && g.code == code) return g;
            if (int64_t(g.code) == defaultChar) def = &g;
        }
        return *def;
    }
    std::string bdf() const
    {
        std::string s;
        char b[400];
        snprintf(b, sizeof b, "STARTFONT 2.1\nFONT -verif-generated-medium-r-normal--%d-%d-72-72-c-80-iso10646-1\nSIZE %d 72 72", size, size * 10, size);
        s += b;
        if (bpp != 1) s += " " + std::to_string(bpp);
        snprintf(b, sizeof b, "\nFONTBOUNDINGBOX %d %d 0 %d\nSTARTPROPERTIES %d\nPIXEL_SIZE %d\nPOINT_SIZE %d\nRESOLUTION_X 72\nRESOLUTION_Y 72\nFONT_ASCENT %d\nFONT_DESCENT %d\n"
                 "CHARSET_REGISTRY \"ISO10646\"\nCHARSET_ENCODING \"1\"\n", 255, 255, -descent, defaultChar >= 0 ? 9 : 8, size, size * 10, ascent, descent);
        s += b;
        if (defaultChar >= 0) s += "DEFAULT_CHAR " + std::to_string(defaultChar) + "\n";
        s += "ENDPROPERTIES\nCHARS " + std::to_string(glyphs.size()) + "\n";
        for (auto &g: glyphs)
        {
            snprintf(b, sizeof b, "STARTCHAR u%04x\nENCODING %u\nSWIDTH %d 0\nDWIDTH %d 0\nBBX %d %d %d %d\nBITMAP\n", g.code, g.code, g.advance * 1000 / size, g.advance, g.w, g.h, g.xoff, g.yoff);
            s += b;
            for (int y = 0; y < g.h; ++y)
            {
                int rowBits = (g.w * bpp + 7) / 8 * 8;
                std::string row;
                for (int n = 0; n < rowBits; n += 4)
                {
                    int v = 0;
                    for (int k = 0; k < 4; ++k)
                    {
                        int x = (n + k) / bpp;
                        v = v << 1 | (x < g.w && g.on(x, y) ? 1 : 0);
                    }
                    row += "0123456789ABCDEF"[v];
                }
                s += row + "\n";
            }
            s += "ENDCHAR\n";
        }
        return s + "ENDFONT\n";
    }
};

struct Job
{
    SrcFont font;
    const CodePage* page;
    std::string spelling; // of the encoding, empty: not given
    int pointSize = 12, dpi = 141;
    bool giveSize = true, giveDpi = true;
    std::string name = "font.bdf";
    // ASCII under another name may be taken for an 8-bit code page or for what it is, but everywhere alike
    bool alias = false;
    int top = -1;
    int last() const { return top >= 0 ? top : page->name == "ASCII" ? 0x7E : 0xFF; }
    void learn(size_t glyphs) { if (alias) top = glyphs == 95 ? 0x7E : 0xFF; }
    std::vector<int> codes() const
    {
        std::vector<int> r;
        for (int k = 0x20; k <= last(); ++k) if (k < 0x7F || k >= 0xA0) r.push_back(k);
        return r;
    }
    const SrcGlyph &glyph(int code) const { return font.lookup(page->code[code]); }
    static bool fits(const SrcGlyph &g)
    {
        int off = 1 - (g.yoff + g.h);
        return g.w <= 255 && g.h <= 255 && g.advance <= 255 && g.xoff >= -128 && g.xoff <= 127 && off >= -128 && off <= 127;
    }
    static size_t bytes(const SrcGlyph &g) { return (size_t(g.w) * size_t(g.h) + 7) / 8; }
    // 1: every glyph and offset fits; 0: something does not; -1: only the end of the bitmap lies behind 65535
    int fitting(bool header) const
    {
        if (alias && top < 0)
        {
            Job a = *this;
            a.top = 0x7E;
            const int first = a.fitting(header);
            a.top = 0xFF;
            return first == 1 ? a.fitting(header) : 0;
        }
        size_t offset = 0;
        for (int k: codes())
        {
            if (offset > 65535 || !fits(glyph(k))) return 0;
            offset += bytes(glyph(k));
        }
        if (header && font.ascent + font.descent > 255) return 0;
        return offset > 65535 ? -1 : 1;
    }
    std::vector<std::string> args(bool binary) const
    {
        auto path = [&](const std::string &f, unsigned style) {
            switch (style)
            {
                case 1: return f + "/";
                case 2: return f + "/../out/.";
                case 3: return std::filesystem::relative(f).string();
                default: return f;
            }
        };
        std::vector<std::string> a { "-f", path(scratch() + "/" + name, relativeFont ? 3 : 0) };
        if (outStyle != 4) { a.push_back("-o"); a.push_back(path(scratch() + "/out", outStyle)); }
        if (giveSize) { a.push_back("-s"); a.push_back(std::to_string(pointSize)); }
        if (giveDpi) a.push_back("-d" + std::to_string(dpi));
        if (!spelling.empty()) { a.push_back("-e"); a.push_back(spelling); }
        if (binary) a.push_back("-b");
        if (order)
        {
            // options in another order, some of them joined with their values
            std::vector<std::vector<std::string>> groups;
            uint64_t r = order;
            for (auto &x: a)
            {
                const bool value = !groups.empty() && groups.back().size() == 1 && groups.back()[0].size() == 2 && groups.back()[0] != "-b" && groups.back()[0][0] == '-';
                if (value) groups.back().push_back(x);
                else groups.push_back({ x });
            }
            for (size_t i = groups.size(); i-- > 1;) std::swap(groups[i], groups[splitmix(r) % (i + 1)]);
            a.clear();
            for (auto &g: groups)
            {
                if (g.size() == 2 && !g[1].empty() && splitmix(r) % 3 == 0) a.push_back(g[0] + g[1]);
                else a.insert(a.end(), g.begin(), g.end());
            }
        }
        return a;
    }
    // how the command line is written
    unsigned outStyle = 0; // 4: no -o, the output is beside the program
    bool relativeFont = false;
    uint64_t order = 0;
    void plain() { outStyle = 0; relativeFont = false; order = 0; }
    void write() const
    {
        mkdir((scratch() + "/out").c_str(), 0777);
        mkdir((scratch() + "/bin").c_str(), 0777);
        std::ofstream f(scratch() + "/" + name, std::ios::binary);
        f << font.bdf();
    }
    void clean() const { emptyDir(scratch() + "/out"); emptyDir(scratch() + "/bin"); emptyDir(scratch()); }
};

struct Limits { int box = 24, off = 14, adv = 30; };
Job genJob(Ctx &c, bool mayExceed)
{
    Job j;
    auto &pages = codePages();
    j.page = &pages[c.oneOf({ 1, 1 }) == 0 ? 1 : c.uniform(pages.size() - 1)];
    if (j.page->name != "ASCII" || c.boolean()) j.spelling = j.page->name;
    if (c.chance(1, 3)) for (auto &ch: j.spelling) if (isalpha(uint8_t(ch)) && c.boolean()) ch = char(tolower(uint8_t(ch)));
    j.giveSize = !c.chance(1, 6);
    j.giveDpi = !c.chance(1, 6);
    if (j.giveSize) j.pointSize = int(c.range(1, c.chance(1, 5) ? 300 : 40));
    if (j.giveDpi) j.dpi = int(c.oneOf({ 2, 2 }) == 0 ? 72 : c.range(30, 300));
    j.font.size = int(((int64_t(j.pointSize) * 64 * j.dpi + 36) / 72 + 32) >> 6);
    if (j.font.size < 1) { j.dpi = 72; j.font.size = j.pointSize; }
    if (!j.giveDpi && j.dpi == 72) j.dpi = 141;
    if (c.chance(1, 3)) { j.font.ascent = int(c.range(0, 140)); j.font.descent = int(c.range(0, mayExceed ? 140 : 115)); }
    else { j.font.ascent = j.font.size > 200 ? 20 : j.font.size; j.font.descent = 4; }

    struct Shape { int w, h, x, y, a; uint64_t seed; };
    std::vector<Shape> shapes;
    size_t ns = 1 + c.uniform(6);
    for (size_t i = 0; i < ns; ++i)
    {
        Ctx::Scope sc(c);
        Shape s {};
        s.w = int(c.range(1, 20));
        s.h = int(c.range(1, 20));
        s.x = int(c.around(-12, 12, 0));
        s.y = int(c.around(-12, 12, 0));
        s.a = int(c.range(0, 30));
        s.seed = c.uniform(0xFFFF);
        if (c.chance(1, 8)) s.w = s.h = 0;
        shapes.push_back(s);
    }
    // some few glyphs with extreme measures
    struct Special { size_t index; Shape s; };
    std::vector<Special> specials;
    std::set<uint32_t> wanted;
    const auto codes = j.codes();
    for (int k: codes) if (j.page->code[k]) wanted.insert(j.page->code[k]);
    const uint64_t missing = c.uniform(0xFFFF); // which characters the font lacks
    const unsigned rate = unsigned(c.pick({ 0u, 8u, 2u, 40u }));
    std::set<uint32_t> have;
    uint64_t m = missing;
    for (auto u: wanted) if (rate == 0 || splitmix(m) % rate != 0) have.insert(u);
    // others, some of them before and some behind the wanted ones
    const size_t others = c.uniform(5);
    for (size_t i = 0; i < others; ++i) have.insert(uint32_t(c.oneOf({ 2, 2 }) == 0 ? c.flat(1, 0x1F, 1) : c.flat(0x80, 0x2FFF, 0x80)));
    if (have.empty()) have.insert(0x41);
    std::vector<uint32_t> list(have.begin(), have.end());
    const size_t nsp = c.oneOf({ 4, 3, 1, 1 });
    for (size_t i = 0; i < nsp; ++i)
    {
        Ctx::Scope sc(c);
        Special sp { c.uniform(list.size() - 1), { 8, 8, 0, 0, 8, c.uniform(0xFFFF) } };
        const int over = mayExceed ? 3 : 0;
        for (int k = 0; k < 2; ++k)
        {
            switch (c.uniform(4))
            {
                case 0: sp.s.w = int(c.range(c.boolean() ? 1 : 250, 255 + over)); break;
                case 1: sp.s.h = int(c.range(c.boolean() ? 1 : 250, 255 + over)); break;
                case 2: sp.s.x = int(c.boolean() ? c.range(-128 - over, -120) : c.range(120, 127 + over)); break;
                case 3: sp.s.a = int(c.range(250, 255 + over)); break;
                default: sp.s.y = int(c.boolean() ? c.range(122, 128 + over) : c.range(-136, -120)) - sp.s.h; break; // top bearing
            }
        }
        specials.push_back(sp);
    }
    const uint64_t mix = c.uniform(0xFFFF);
    for (size_t i = 0; i < list.size(); ++i)
    {
        uint64_t r = mix + i * 31;
        Shape s = shapes[mix == 0 ? i % ns : splitmix(r) % ns];
        for (auto &sp: specials) if (sp.index == i) s = sp.s;
        if (!mayExceed)
        {
            // keep what has to fit in range
            int top = s.y + s.h;
            top = std::min(std::max(top, -126), 129);
            s.y = top - s.h;
        }
        SrcGlyph g { list[i], s.w, s.h, s.x, s.y, s.a, {} };
        uint64_t seed = s.seed * 977 + i * 7919;
        for (int b = 0; b < s.w * s.h; ++b) g.bits.push_back(s.seed == 0 || (splitmix(seed) & 1));
        j.font.glyphs.push_back(std::move(g));
    }
    switch (c.oneOf({ 3, 3, 1 }))
    {
        case 0: break;
        case 1: j.font.defaultChar = int64_t(c.pick(list)); break;
        default: j.font.defaultChar = c.range(1, 0x3000); break;
    }
    c.trace("%s%s size %d dpi %d (ppem %d), %zu glyphs (%zu of %zu characters), default char %lld, ascent %d descent %d", j.page->name.c_str(), j.spelling.empty() ? " (implied)" : "", j.pointSize, j.dpi, j.font.size,
            list.size(), have.size(), wanted.size(), (long long)j.font.defaultChar, j.font.ascent, j.font.descent);
    j.outStyle = unsigned(c.oneOf({ 8, 1, 1, 1, 2 }));
    j.relativeFont = c.chance(1, 8);
    if (c.chance(1, 3)) j.order = 1 + c.uniform(0xFFFF);
    if (j.outStyle || j.relativeFont || j.order) c.label(j.outStyle == 4 ? "output beside the program" : "command line written in another way");
    for (auto &sp: specials)
    {
        auto &g = j.font.glyphs[sp.index];
        c.trace("U+%04X %dx%d at (%d,%d) advance %d", g.code, g.w, g.h, g.xoff, g.yoff, g.advance);
    }
    return j;
}

// ASCII by another of its names
[[maybe_unused]] void alias(Ctx &c, Job &j)
{
    static const std::vector<std::string> names = []
    {
        std::vector<std::string> r;
        for (const char* n: { "US-ASCII", "ISO646-US", "ANSI_X3.4-1968", "ANSI_X3.4-1986", "ISO_646.IRV:1991", "ISO-IR-6", "US", "CP367", "IBM367", "646", "us-ascii" })
        {
            iconv_t d = iconv_open("UCS-4LE", n);
            if (d == (iconv_t) -1) continue;
            iconv_close(d);
            r.push_back(n);
        }
        return r;
    }();
    if (names.empty() || !c.chance(1, 4)) return;
    j.page = &codePages()[0];
    for (auto &p: codePages()) if (p.name == "ASCII") j.page = &p;
    j.spelling = c.pick(names);
    j.alias = true;
    c.label("alias");
    c.trace("encoding %s", j.spelling.c_str());
}

// the outline fonts of this machine
[[maybe_unused]] const std::vector<std::string> &outlineFonts()
{
    static std::vector<std::string> files;
    static bool looked = false;
    if (!looked)
    {
        looked = true;
        const std::string dir = "/usr/share/fonts/truetype/dejavu";
        if (DIR* p = opendir(dir.c_str()))
        {
            while (auto* e = readdir(p)) if (strstr(e->d_name, ".ttf")) files.push_back(dir + "/" + e->d_name);
            closedir(p);
        }
        std::sort(files.begin(), files.end());
    }
    return files;
}

struct Binary { std::string bitmaps, glyphs; std::string files; };
Binary readBinary(Ctx &c)
{
    Binary r;
    int nb = 0, ng = 0;
    DIR* p = opendir((scratch() + "/out").c_str());
    PBT_CHECK(c, p != nullptr, "no output directory");
    std::vector<std::string> names;
    while (auto* e = readdir(p)) names.push_back(e->d_name);
    closedir(p);
    auto ends = [](const std::string &s, const std::string &t) { return s.size() >= t.size() && s.compare(s.size() - t.size(), t.size(), t) == 0; };
    for (auto &n: names)
    {
        if (ends(n, "Bitmaps.bin")) { r.bitmaps = slurp(scratch() + "/out/" + n); ++nb; }
        if (ends(n, "Glyphs.bin")) { r.glyphs = slurp(scratch() + "/out/" + n); ++ng; }
    }
    PBT_CHECK(c, nb == 1 && ng == 1, "success, but there are %d bitmap and %d glyph files", nb, ng);
    return r;
}

// Compares the files with the source font. Returns the number of characters that come from the font itself.
size_t faithful(Ctx &c, const Job &j, const Binary &b)
{
    const auto codes = j.codes();
    PBT_CHECK(c, sizeof(embedded::fonts::GlyphDescriptor) == 7, "glyph descriptors are %zu bytes", sizeof(embedded::fonts::GlyphDescriptor));
    PBT_CHECK(c, b.glyphs.size() == codes.size() * 7, "the glyph file has %zu bytes for %zu characters", b.glyphs.size(), codes.size());
    std::unique_ptr<uint8_t[]> bitmap(new uint8_t[b.bitmaps.size()]);
    std::unique_ptr<embedded::fonts::GlyphDescriptor[]> table(new embedded::fonts::GlyphDescriptor[codes.size()]);
    memcpy(bitmap.get(), b.bitmaps.data(), b.bitmaps.size());
    memcpy(static_cast<void*>(table.get()), b.glyphs.data(), b.glyphs.size());
    size_t total = 0, own = 0;
    for (int k: codes) total += Job::bytes(j.glyph(k));
    PBT_CHECK(c, b.bitmaps.size() == total, "the bitmap file has %zu bytes, the glyphs need %zu", b.bitmaps.size(), total);
    embedded::fonts::FontDescriptor d;
    d.bitmap = { bitmap.get(), b.bitmaps.size() };
    d.glyph = { table.get(), codes.size() };
    d.first = 0x20;
    d.last = uint8_t(j.last());
    embedded::fonts::EmbeddedFont font(d);
    for (size_t i = 0; i < codes.size(); ++i)
    {
        const int k = codes[i];
        auto &g = j.glyph(k);
        auto r = font.getBitmap(char(k));
        PBT_CHECK(c, int(r.effectiveSize.width) == g.w && int(r.effectiveSize.height) == g.h, "code 0x%02x (U+%04X): the glyph is %dx%d, in the source font %dx%d", k, j.page->code[k], r.effectiveSize.width, r.effectiveSize.height, g.w, g.h);
        PBT_CHECK(c, (int(r.offset.width) == g.xoff && int(r.offset.height) == 1 - (g.yoff + g.h)) || (g.w == 0 && g.h == 0), "code 0x%02x (U+%04X): the glyph's offset is (%d,%d), expected (%d,%d)", k, j.page->code[k], r.offset.width, r.offset.height, g.xoff, 1 - (g.yoff + g.h));
        PBT_CHECK(c, int(r.width) == g.advance, "code 0x%02x (U+%04X): the advance is %d, in the source font %d", k, j.page->code[k], r.width, g.advance);
        const size_t n = Job::bytes(g);
        PBT_CHECK(c, r.bitmap.size() >= n, "code 0x%02x (U+%04X): %zu bitmap bytes, %zu needed", k, j.page->code[k], size_t(r.bitmap.size()), n);
        for (int x = 0; x < g.w * g.h; ++x)
        {
            bool on = r.bitmap.begin()[x / 8] >> (7 - x % 8) & 1;
            PBT_CHECK(c, on == g.bits[size_t(x)], "code 0x%02x (U+%04X): pixel (%d,%d) is %s", k, j.page->code[k], x % g.w, x / g.w, on ? "set" : "not set");
        }
        if (j.page->code[k] != 0 && g.code == j.page->code[k]) ++own;
    }
    return own;
}
#endif

#if PROP == 25 || PROP == 27
// Outline fonts: the reference is FreeType's own monochrome rendering. A font with a character that FreeType refuses is not usable.
void outline(Ctx &c, const std::string &file, const CodePage &page, int size, int dpi, bool damaged)
{
    mkdir((scratch() + "/out").c_str(), 0777);
    struct Cleaner { ~Cleaner() { emptyDir(scratch() + "/out"); } } cleaner;
    auto r = convert(&c, { "-f", file, "-o", scratch() + "/out", "-s", std::to_string(size), "-d", std::to_string(dpi), "-e", page.name, "-b" });
    FT_Library lib;
    FT_Face face;
    PBT_CHECK(c, FT_Init_FreeType(&lib) == 0 && FT_New_Face(lib, file.c_str(), 0, &face) == 0, "FreeType does not work");
    FT_UInt hinting = 35; // the hinting the converter has always used
    FT_Property_Set(lib, "truetype", "interpreter-version", &hinting);
    struct Closer { FT_Library l; ~Closer() { FT_Done_FreeType(l); } } closer { lib };
    FT_Set_Char_Size(face, size * 64, 0, FT_UInt(dpi), 0);
    const int last = page.name == "ASCII" ? 0x7E : 0xFF;
    struct Ref { int w, h, x, y, a; std::vector<bool> bits; };
    std::vector<Ref> refs;
    size_t total = 0;
    bool fits = true;
    int refused = -1;
    for (int k = 0x20; k <= last; ++k)
    {
        if (k > 0x7E && k < 0xA0) continue;
        if (total > 65535) fits = false;
        if (FT_Load_Char(face, page.code[k], FT_LOAD_TARGET_MONO) != 0 || FT_Render_Glyph(face->glyph, FT_RENDER_MODE_MONO) != 0)
        {
            PBT_CHECK(c, damaged, "FreeType does not render U+%04X", page.code[k]);
            refused = k;
            break;
        }
        auto* g = face->glyph;
        Ref x { int(g->bitmap.width), int(g->bitmap.rows), g->bitmap_left, 1 - g->bitmap_top, int(g->advance.x >> 6), {} };
        for (int yy = 0; yy < x.h; ++yy) for (int xx = 0; xx < x.w; ++xx) x.bits.push_back(g->bitmap.buffer[yy * g->bitmap.pitch + xx / 8] >> (7 - xx % 8) & 1);
        if (x.w > 255 || x.h > 255 || x.x < -128 || x.x > 127 || x.y < -128 || x.y > 127 || x.a < 0 || x.a > 255) fits = false;
        total += (x.bits.size() + 7) / 8;
        refs.push_back(std::move(x));
    }
    if (refused >= 0)
    {
        c.label("a character cannot be loaded");
        PBT_CHECK(c, r.status != 0, "success although the font has no usable outline for code 0x%02x (U+%04X)", refused, page.code[refused]);
        PBT_CHECK(c, !r.text.empty(), "failure without a message");
        c.nontrivial();
        return;
    }
    if (!fits || total > 65535) { c.label("too large"); c.discard(); }
    PBT_CHECK(c, r.status == 0, "the conversion fails: %s", r.text.c_str());
    auto b = readBinary(c);
    PBT_CHECK(c, b.glyphs.size() == refs.size() * 7 && b.bitmaps.size() == total, "%zu bytes of glyphs and %zu of bitmaps, expected %zu and %zu", b.glyphs.size(), b.bitmaps.size(), refs.size() * 7, total);
    size_t off = 0;
    for (size_t i = 0; i < refs.size(); ++i)
    {
        embedded::fonts::GlyphDescriptor d;
        memcpy(static_cast<void*>(&d), b.glyphs.data() + 7 * i, 7);
        auto &x = refs[i];
        PBT_CHECK(c, d.size.width == x.w && d.size.height == x.h && d.shift == x.a && d.offset.width == x.x && d.offset.height == x.y && d.bitmapOffset == off,
                  "glyph %zu: %dx%d at (%d,%d) advance %d offset %d, FreeType has %dx%d at (%d,%d) advance %d, offset %zu", i, d.size.width, d.size.height, d.offset.width, d.offset.height, d.shift, d.bitmapOffset, x.w, x.h, x.x, x.y, x.a, off);
        for (size_t k = 0; k < x.bits.size(); ++k) PBT_CHECK(c, bool(uint8_t(b.bitmaps[off + k / 8]) >> (7 - k % 8) & 1) == x.bits[k], "glyph %zu: pixel %zu differs from FreeType's", i, k);
        off += (x.bits.size() + 7) / 8;
    }
    c.nontrivial();
}
#endif

#if PROP == 26 || PROP == 27
// ---- the generated header --------------------------------------------------------------------------------
struct Header { std::string bitmapsName, glyphsName, fontName; std::vector<int64_t> bitmaps, glyphs, font; };
struct Token { char kind; std::string text; int64_t value; };

std::vector<Token> tokens(Ctx &c, std::string s)
{
    // joined lines first, then comments, as the language has it
    for (size_t p; (p = s.find("\\\n")) != std::string::npos;) s.erase(p, 2);
    std::vector<Token> r;
    size_t i = 0;
    auto idStart = [](char ch) { return isalpha(uint8_t(ch)) || ch == '_'; };
    while (i < s.size())
    {
        char ch = s[i];
        if (isspace(uint8_t(ch))) { ++i; continue; }
        if (s.compare(i, 2, "//") == 0) { i = s.find('\n', i); if (i == std::string::npos) i = s.size(); continue; }
        if (s.compare(i, 2, "/*") == 0) { size_t e = s.find("*/", i + 2); PBT_CHECK(c, e != std::string::npos, "a comment of the header has no end"); i = e + 2; continue; }
        if (idStart(ch))
        {
            size_t b = i;
            while (i < s.size() && (idStart(s[i]) || isdigit(uint8_t(s[i])))) ++i;
            r.push_back({ 'i', s.substr(b, i - b), 0 });
            continue;
        }
        if (isdigit(uint8_t(ch)))
        {
            size_t b = i;
            while (i < s.size() && isalnum(uint8_t(s[i]))) ++i;
            std::string t = s.substr(b, i - b);
            char* e;
            int64_t v = strtoll(t.c_str(), &e, 0);
            PBT_CHECK(c, *e == 0 || ((*e == 'u' || *e == 'U') && e[1] == 0), "'%s' in the header is not a number", t.c_str());
            r.push_back({ 'n', t, v });
            continue;
        }
        PBT_CHECK(c, strchr("{}[](),;=-*&:<>#", ch) != nullptr, "character 0x%02x in the header is not valid C++ (after '%s')", uint8_t(ch), show(s.substr(i > 40 ? i - 40 : 0, std::min<size_t>(i, 40))).c_str());
        r.push_back({ 'p', std::string(1, ch), 0 });
        ++i;
    }
    return r;
}

Header parseHeader(Ctx &c, const std::string &text)
{
    auto t = tokens(c, text);
    Header h;
    size_t i = 0;
    for (int decl = 0; decl < 3; ++decl)
    {
        std::string name;
        bool array = false;
        std::vector<std::string> before;
        while (i < t.size() && t[i].text != "=" && t[i].text != "{")
        {
            if (t[i].kind == 'i') before.push_back(t[i].text);
            if (t[i].text == "[") array = true;
            PBT_CHECK(c, t[i].text != ";" && t[i].text != "-", "unexpected '%s' before definition %d of the header", t[i].text.c_str(), decl);
            PBT_CHECK(c, t[i].kind != 'n' || array, "number %s in the name of definition %d", t[i].text.c_str(), decl);
            ++i;
        }
        PBT_CHECK(c, i < t.size(), "the header has only %d definitions", decl);
        // the name is the last identifier before [ or =; PROGMEM may follow it
        while (!before.empty() && before.back() == "PROGMEM") before.pop_back();
        PBT_CHECK(c, before.size() >= 2, "definition %d has no type or no name", decl);
        name = before.back();
        const std::string wantType = decl == 0 ? "uint8_t" : decl == 1 ? "GFXglyph" : "GFXfont";
        bool typed = false;
        size_t meaningful = 0;
        for (size_t k = 0; k + 1 < before.size(); ++k)
        {
            if (before[k] == wantType) typed = true;
            else if (before[k] != "const" && before[k] != "static" && before[k] != "constexpr" && before[k] != "inline" && before[k] != "PROGMEM" && before[k] != "std") ++meaningful;
        }
        PBT_CHECK(c, typed && meaningful == 0, "definition %d is not one %s called by one identifier", decl, wantType.c_str());
        PBT_CHECK(c, array == (decl < 2), "definition %d is %san array", decl, array ? "" : "not ");
        if (t[i].text == "=") ++i;
        PBT_CHECK(c, i < t.size() && t[i].text == "{", "definition %d has no initializer", decl);
        int depth = 0;
        std::vector<int64_t> nums;
        std::vector<std::string> ids;
        bool minus = false;
        for (; i < t.size(); ++i)
        {
            if (t[i].text == "{") ++depth;
            else if (t[i].text == "}") { if (--depth == 0) { ++i; break; } }
            else if (t[i].text == "-") minus = true;
            else if (t[i].kind == 'n') { nums.push_back(minus ? -t[i].value : t[i].value); minus = false; }
            else if (t[i].kind == 'i') ids.push_back(t[i].text);
            else PBT_CHECK(c, t[i].text != ";" && t[i].text != "=" && t[i].text != "[", "unexpected '%s' in the initializer of definition %d", t[i].text.c_str(), decl);
            if (t[i].kind == 'n' && i + 1 < t.size()) PBT_CHECK(c, t[i + 1].text == "," || t[i + 1].text == "}", "no comma behind %s in definition %d", t[i].text.c_str(), decl);
            if (t[i].text == "}" && depth > 0 && i + 1 < t.size()) PBT_CHECK(c, t[i + 1].text == "," || t[i + 1].text == "}", "no comma behind } in definition %d", decl);
        }
        PBT_CHECK(c, depth == 0 && i < t.size() && t[i].text == ";", "definition %d does not end with ;", decl);
        ++i;
        if (decl == 0) { h.bitmapsName = name; h.bitmaps = nums; }
        if (decl == 1) { h.glyphsName = name; h.glyphs = nums; }
        if (decl == 2)
        {
            h.fontName = name;
            h.font = nums;
            size_t nb = size_t(std::count(ids.begin(), ids.end(), h.bitmapsName)), ng = size_t(std::count(ids.begin(), ids.end(), h.glyphsName));
            PBT_CHECK(c, nb == 1 && ng == 1, "the font does not refer to its tables %s and %s", h.bitmapsName.c_str(), h.glyphsName.c_str());
        }
    }
    PBT_CHECK(c, i == t.size(), "there is more in the header than the three definitions: '%s'", t[i].text.c_str());
    PBT_CHECK(c, h.bitmapsName != h.glyphsName && h.fontName != h.glyphsName && h.fontName != h.bitmapsName, "two definitions share a name");
    return h;
}

std::string readHeader(Ctx &c)
{
    std::string r;
    int n = 0;
    DIR* p = opendir((scratch() + "/out").c_str());
    PBT_CHECK(c, p != nullptr, "no output directory");
    while (auto* e = readdir(p))
    {
        std::string s = e->d_name;
        if (s.size() >= 2 && s.substr(s.size() - 2) == ".h") { r = slurp(scratch() + "/out/" + s); ++n; }
    }
    closedir(p);
    PBT_CHECK(c, n == 1, "success, but there are %d headers", n);
    return r;
}

void sameAsBinary(Ctx &c, int last, int lineHeight, const Header &h, const Binary &b)
{
    PBT_CHECK(c, h.bitmaps.size() == b.bitmaps.size(), "%zu bitmap bytes in the header, %zu in the binary file", h.bitmaps.size(), b.bitmaps.size());
    for (size_t i = 0; i < h.bitmaps.size(); ++i) PBT_CHECK(c, h.bitmaps[i] == uint8_t(b.bitmaps[i]), "bitmap byte %zu is %lld in the header and %d in the binary file", i, (long long)h.bitmaps[i], uint8_t(b.bitmaps[i]));
    const size_t n = b.glyphs.size() / 7;
    PBT_CHECK(c, h.glyphs.size() == n * 6, "%zu numbers in the header's glyph table for %zu glyphs", h.glyphs.size(), n);
    for (size_t i = 0; i < n; ++i)
    {
        embedded::fonts::GlyphDescriptor d;
        memcpy(static_cast<void*>(&d), b.glyphs.data() + i * 7, 7);
        const int64_t want[6] = { d.bitmapOffset, d.size.width, d.size.height, d.shift, d.offset.width, d.offset.height };
        for (size_t k = 0; k < 6; ++k) PBT_CHECK(c, h.glyphs[i * 6 + k] == want[k], "number %zu of glyph %zu is %lld in the header and %lld in the binary file", k, i, (long long)h.glyphs[i * 6 + k], (long long)want[k]);
    }
    PBT_CHECK(c, h.font.size() == 3, "%zu numbers in the font definition", h.font.size());
    PBT_CHECK(c, h.font[0] == 0x20 && h.font[1] == last, "the font covers 0x%02llx..0x%02llx, expected 0x20..0x%02x", (long long)h.font[0], (long long)h.font[1], last);
    PBT_CHECK(c, h.font[2] == lineHeight, "the line height is %lld, in the source font %d", (long long)h.font[2], lineHeight);
}

std::string genName(Ctx &c)
{
    static const char* const fixed[] = { "font.bdf", "my font.bdf", "9x15.bdf", "a-b.bdf", "a.b.bdf", ".bdf", "..bdf", "f", "int.bdf", "\xC3\xBC" "ber.bdf", "a\\.bdf", "a\nb.bdf", "\"q\".bdf", "//.bdf", "*.bdf", "__x.bdf", "a?\?/.bdf", "0", "-", "0x.bdf" };
    std::string n;
    if (c.boolean()) n = fixed[c.uniform(sizeof fixed / sizeof *fixed - 1)];
    else
    {
        size_t len = 1 + c.size(c.chance(1, 10) ? 180 : 20);
        for (size_t i = 0; i < len; ++i) n += c.oneOf({ 3, 1 }) == 0 ? "abcXYZ019_-. "[c.uniform(12)] : char(c.flat(1, 255, 'a'));
        if (c.boolean()) n += ".bdf";
    }
    for (auto &ch: n) if (ch == '/') ch = '+';
    if (n == "." || n == ".." || n == "out" || n == "bin") n = "x";
    return n;
}
#endif

// ---- C24 -----------------------------------------------------------------------------------------------
#if PROP == 24
struct Sink
{
    std::vector<uint8_t> &v;
    Sink &operator<<(uint8_t b) { v.push_back(b); return *this; }
};
void c24(Ctx &c)
{
    std::vector<uint8_t> got;
    Sink sink { got };
    BitStream<Sink> bits(sink);
    std::vector<bool> model;
    // another stream used in between
    std::vector<uint8_t> otherGot;
    Sink otherSink { otherGot };
    BitStream<Sink> otherBits(otherSink);
    std::vector<bool> otherModel;
    const bool two = c.chance(1, 4);
    if (two) c.label("two streams at once");
    bool unalignedByte = false, flushed = false;
    const unsigned avg = unsigned(c.pick({ 12u, 40u, 200u }));
    while (c.more(avg))
    {
        Ctx::Scope s(c);
        switch (c.oneOf({ 6, 3, 1 }))
        {
            case 0: { bool b = c.boolean(); bits << b; model.push_back(b); c.trace("%d", b); break; }
            case 1:
            {
                uint8_t b = c.byte();
                if (model.size() % 8) { unalignedByte = true; c.label("byte off a byte boundary"); }
                bits << b;
                for (int i = 7; i >= 0; --i) model.push_back(b >> i & 1);
                c.trace("byte %02x", b);
                break;
            }
            default:
                if (model.size() % 8 == 0) c.label("flush on a byte boundary");
                bits.flush();
                while (model.size() % 8) model.push_back(false);
                c.trace("flush");
                flushed = true;
                break;
        }
        if (two && c.boolean())
        {
            bool b = c.boolean();
            otherBits << b;
            otherModel.push_back(b);
            c.trace("other %d", b);
        }
        // bytes appear when they are complete
        PBT_CHECK(c, got.size() == model.size() / 8, "%zu bytes written for %zu bits", got.size(), model.size());
    }
    bits.flush();
    while (model.size() % 8) model.push_back(false);
    PBT_CHECK(c, got.size() == model.size() / 8, "%zu bytes written for %zu bits after the last flush", got.size(), model.size());
    for (size_t i = 0; i < model.size(); ++i) PBT_CHECK(c, bool(got[i / 8] >> (7 - i % 8) & 1) == model[i], "bit %zu (bit %zu of byte %zu) is wrong", i, i % 8, i / 8);
    otherBits.flush();
    while (otherModel.size() % 8) otherModel.push_back(false);
    PBT_CHECK(c, otherGot.size() == otherModel.size() / 8, "other stream: %zu bytes written for %zu bits", otherGot.size(), otherModel.size());
    for (size_t i = 0; i < otherModel.size(); ++i) PBT_CHECK(c, bool(otherGot[i / 8] >> (7 - i % 8) & 1) == otherModel[i], "other stream: bit %zu is wrong", i);
    if (unalignedByte && flushed) c.nontrivial();
}
#endif

// ---- C25 -----------------------------------------------------------------------------------------------
#if PROP == 25
void c25(Ctx &c)
{
    auto j = genJob(c, false);
    alias(c, j);
    if (j.fitting(false) != 1) { c.label("too large"); c.discard(); }
    j.write();
    struct Cleaner { Job &j; ~Cleaner() { j.clean(); } } cleaner { j };
    auto r = convert(&c, j.args(true));
    PBT_CHECK(c, r.status == 0, "the conversion of a font that fits the format fails: %s", r.text.c_str());
    auto b = readBinary(c);
    j.learn(b.glyphs.size() / 7);
    size_t own = faithful(c, j, b);
    if (c.chance(1, 4))
    {
        if (c.boolean()) emptyDir(scratch() + "/out");
        auto r2 = convert(&c, j.args(true));
        auto b2 = readBinary(c);
        PBT_CHECK(c, r2.status == 0 && b2.bitmaps == b.bitmaps && b2.glyphs == b.glyphs, "the second conversion of the same font gives other files");
        c.label("converted twice");
    }
    if (own < j.codes().size()) c.label("some characters are missing");
    if (own >= 10) c.nontrivial();
}

void c25Outline(Ctx &c)
{
    auto &files = outlineFonts();
    if (files.empty()) c.discard();
    auto file = files[c.uniform(files.size() - 1)];
    auto &page = codePages()[c.uniform(codePages().size() - 1)];
    int size = int(c.range(5, 30)), dpi = int(c.pick({ 72, 96, 141, 100, 110 }));
    c.trace("%s size %d dpi %d %s", file.c_str(), size, dpi, page.name.c_str());
    outline(c, file, page, size, dpi, false);
}
#endif

// ---- C26 -----------------------------------------------------------------------------------------------
#if PROP == 26
void c26(Ctx &c)
{
    auto j = genJob(c, false);
    j.name = genName(c);
    alias(c, j);
    c.trace("file %s", show(j.name).c_str());
    size_t total = 0;
    for (int k: j.codes()) total += Job::bytes(j.glyph(k));
    if (j.fitting(true) != 1 || total == 0) { c.label("too large or empty"); c.discard(); }
    j.write();
    struct Cleaner { Job &j; ~Cleaner() { j.clean(); } } cleaner { j };
    auto rb = convert(&c, j.args(true));
    PBT_CHECK(c, rb.status == 0, "the binary conversion of a font that fits the format fails: %s", rb.text.c_str());
    auto b = readBinary(c);
    j.learn(b.glyphs.size() / 7);
    auto rh = convert(&c, j.args(false));
    PBT_CHECK(c, rh.status == 0, "the conversion to a header of a font that fits the format fails: %s", rh.text.c_str());
    auto h = parseHeader(c, readHeader(c));
    sameAsBinary(c, j.last(), j.font.ascent + j.font.descent, h, b);
    faithful(c, j, b);
    bool plain = true;
    for (auto ch: j.name) if (!isalnum(uint8_t(ch)) && ch != '.') plain = false;
    if (!plain) c.label("file name is no identifier");
    if (j.last() == 0xFF) c.label("eight-bit");
    if (total > 8) c.nontrivial();
}

// Outline fonts: the header has what the binary files have, and the line height of the face.
void c26Outline(Ctx &c)
{
    auto &files = outlineFonts();
    if (files.empty()) c.discard();
    auto file = files[c.uniform(files.size() - 1)];
    auto &page = codePages()[c.uniform(codePages().size() - 1)];
    int size = int(c.range(1, 40)), dpi = int(c.pick({ 72, 96, 141, 100, 110, 37 }));
    c.trace("%s size %d dpi %d %s", file.c_str(), size, dpi, page.name.c_str());
    mkdir((scratch() + "/out").c_str(), 0777);
    struct Cleaner { ~Cleaner() { emptyDir(scratch() + "/out"); } } cleaner;
    std::vector<std::string> args { "-f", file, "-o", scratch() + "/out", "-s", std::to_string(size), "-d", std::to_string(dpi), "-e", page.name };
    auto rh = convert(&c, args);
    args.push_back("-b");
    auto rb = convert(&c, args);
    if (rh.status != 0) { c.label("too large"); c.discard(); } // C25-outline and C27 say when this may be
    PBT_CHECK(c, rb.status == 0, "a font is converted to a header, but the binary conversion fails: %s", rb.text.c_str());
    auto b = readBinary(c);
    auto h = parseHeader(c, readHeader(c));
    FT_Library lib;
    FT_Face face;
    PBT_CHECK(c, FT_Init_FreeType(&lib) == 0 && FT_New_Face(lib, file.c_str(), 0, &face) == 0, "FreeType does not work");
    struct Closer { FT_Library l; ~Closer() { FT_Done_FreeType(l); } } closer { lib };
    FT_UInt hinting = 35;
    FT_Property_Set(lib, "truetype", "interpreter-version", &hinting);
    FT_Set_Char_Size(face, size * 64, 0, FT_UInt(dpi), 0);
    sameAsBinary(c, page.name == "ASCII" ? 0x7E : 0xFF, int(face->size->metrics.height / 64), h, b);
    c.nontrivial();
}

// A few headers go through the real compiler.
void compiled(std::string &report)
{
    static Shared shared; // zero-initialised
    const char* names[] = { "my font-1.bdf", "9x15.bdf", "\xC3\xBC.\\.bdf", "a\nb.bdf" };
    size_t done = 0;
    std::string program = "#include <array>\n#include <cstdio>\n#include \"graphics/GFXFontsAdapter.h\"\n#define PROGMEM\nusing GFXfont = embedded::fonts::FontDescriptor;\nusing GFXglyph = embedded::fonts::GlyphDescriptor;\n";
    std::string mainText = "int main() {\n";
    std::string expected;
    for (uint64_t seed = 1; done < 4 && seed < 200; ++seed)
    {
        Ctx c(&shared);
        c.rngState = seed * 77777;
        Job j = genJob(c, false);
        j.name = names[done];
        size_t total = 0;
        for (int k: j.codes()) total += Job::bytes(j.glyph(k));
        if (j.fitting(true) != 1 || total == 0 || (done % 2 == 1) != (j.last() == 0xFF)) continue;
        j.write();
        auto r = convert(nullptr, j.args(true));
        if (r.status != 0) throw Failure { "converting to binary fails: " + r.text };
        auto b = readBinary(c);
        r = convert(nullptr, j.args(false));
        if (r.status != 0) throw Failure { "converting to a header fails: " + r.text };
        auto text = readHeader(c);
        auto h = parseHeader(c, text);
        program += "namespace n" + std::to_string(done) + " {\n" + text + "\n}\n";
        mainText += " { auto &f = n" + std::to_string(done) + "::" + h.fontName + "; fwrite(f.bitmap.begin(), 1, f.bitmap.size(), stdout); fwrite(f.glyph.begin(), sizeof(GFXglyph), f.glyph.size(), stdout); printf(\"%d %d %d\\n\", f.first, f.last, f.verticalShift); }\n";
        expected += b.bitmaps + b.glyphs + "32 " + std::to_string(j.last()) + " " + std::to_string(j.font.ascent + j.font.descent) + "\n";
        j.clean();
        ++done;
    }
    const std::string src = scratch() + "/p.cpp", exe = scratch() + "/p", log = scratch() + "/p.log", out = scratch() + "/p.out";
    { std::ofstream f(src, std::ios::binary); f << program << mainText << "}\n"; }
    const char* repo = getenv("VERIF_REPO");
    int rc = system(("g++ -std=c++17 -I'" + std::string(repo ? repo : "/repo") + "' " + src + " -o " + exe + " > " + log + " 2>&1").c_str());
    if (rc != 0) throw Failure { "the generated headers do not compile: " + slurp(log).substr(0, 1500) };
    if (system((exe + " > " + out).c_str()) != 0) throw Failure { "the program with the generated headers fails" };
    if (slurp(out) != expected) throw Failure { "the fonts in the compiled headers differ from the binary files" };
    emptyDir(scratch());
    report = std::to_string(done) + " generated headers compiled with g++ and compared with the binary files";
}
#endif

// ---- C27 -----------------------------------------------------------------------------------------------
#if PROP == 27
// measures around the limits, and too large fonts
void c27Limits(Ctx &c)
{
    auto j = genJob(c, true);
    const bool binary = c.boolean();
    if (c.chance(1, 3)) { j.name = genName(c); c.trace("file %s", show(j.name).c_str()); }
    if (c.chance(1, 5))
    {
        // many large glyphs, so that the bitmap comes close to 65535 bytes or exceeds it
        int w = int(c.range(1, 90)), h = int(c.range(1, 90));
        for (auto &g: j.font.glyphs)
        {
            if (!Job::fits(g) || g.w > 100 || g.h > 100) continue;
            g.w = w;
            g.h = h;
            g.yoff = -2;
            g.bits.assign(size_t(w) * size_t(h), true);
        }
        c.trace("most glyphs %dx%d", w, h);
    }
    const int fit = j.fitting(!binary);
    size_t total = 0;
    for (int k: j.codes()) total += Job::bytes(j.glyph(k));
    if (total == 0) c.discard();
    j.write();
    struct Cleaner { Job &j; ~Cleaner() { j.clean(); } } cleaner { j };
    auto r = convert(&c, j.args(binary));
    c.trace("%s, %zu bytes of bitmap", binary ? "binary" : "header", total);
    if (fit == 0) { PBT_CHECK(c, r.status != 0, "success for a font that does not fit the format"); c.nontrivial(); c.label("does not fit"); }
    if (fit == 1) PBT_CHECK(c, r.status == 0, "a font that fits the format is refused: %s", r.text.c_str());
    if (r.status != 0) { PBT_CHECK(c, !r.text.empty(), "failure without a message"); return; }
    Binary b;
    if (!binary)
    {
        auto h = parseHeader(c, readHeader(c));
        auto r2 = convert(&c, j.args(true));
        PBT_CHECK(c, r2.status == 0, "binary conversion of the same font fails: %s", r2.text.c_str());
        b = readBinary(c);
        sameAsBinary(c, j.last(), j.font.ascent + j.font.descent, h, b);
    }
    else b = readBinary(c);
    if (fit == 1) faithful(c, j, b);
    c.nontrivial();
}

// output files that cannot be opened or written completely
void c27Write(Ctx &c)
{
    auto j = genJob(c, false);
    j.plain();
    const bool binary = c.boolean();
    size_t total = 0;
    for (int k: j.codes()) total += Job::bytes(j.glyph(k));
    if (j.fitting(true) != 1 || total == 0) c.discard();
    j.write();
    struct Cleaner { Job &j; ~Cleaner() { j.clean(); } } cleaner { j };
    const auto out = scratch() + "/out/";
    // the names and sizes of the files
    auto r0 = convert(&c, j.args(binary));
    PBT_CHECK(c, r0.status == 0, "a font that fits the format is refused: %s", r0.text.c_str());
    std::map<std::string, std::string> files;
    if (DIR* p = opendir(out.c_str()))
    {
        while (auto* e = readdir(p)) if (e->d_name[0] != '.') files[e->d_name] = slurp(out + e->d_name);
        closedir(p);
    }
    PBT_CHECK(c, files.size() == (binary ? 2u : 1u), "%zu output files", files.size());
    emptyDir(scratch() + "/out");
    auto it = files.begin();
    if (files.size() > 1 && c.boolean()) ++it;
    size_t largest = 0;
    for (auto &f: files) largest = std::max(largest, f.second.size());
    bool mustFail = true;
    uint64_t limit = UINT64_MAX;
    const bool before = c.chance(1, 3);
    if (before)
    {
        // output of an earlier run
        for (auto &f: files)
        {
            const size_t len = size_t(c.around(0, 2 * int64_t(f.second.size()) + 20, int64_t(f.second.size()) + 1));
            std::ofstream(out + f.first, std::ios::binary) << std::string(len, '#');
            c.trace("%s has %zu bytes already", f.first.c_str(), len);
        }
        c.label("file exists already");
    }
    switch (before ? c.oneOf({ 1, 0, 0, 0, 3 }) : c.oneOf({ 5, 2, 2, 1 }))
    {
        case 4: mustFail = false; break;
        case 0:
            limit = c.boolean() ? uint64_t(c.range(0, int64_t(largest) + 20)) : uint64_t(c.around(0, int64_t(largest) + 20, int64_t(largest)));
            mustFail = limit < largest;
            c.trace("%s, files up to %zu bytes, the file system takes %" PRIu64, binary ? "binary" : "header", largest, limit);
            c.label(mustFail ? "disk full" : "disk just large enough");
            break;
        case 1:
            if (it->second.empty()) c.discard();
            if (symlink("/dev/full", (out + it->first).c_str()) != 0) c.discard();
            c.trace("%s is on a full device", it->first.c_str());
            c.label("full device");
            break;
        case 2:
            mkdir((out + it->first).c_str(), 0777);
            c.trace("%s is a directory", it->first.c_str());
            c.label("file cannot be opened");
            break;
        default:
            if (symlink("/nonexistent/dir/file", (out + it->first).c_str()) != 0) c.discard();
            c.trace("%s cannot be created", it->first.c_str());
            c.label("file cannot be created");
            break;
    }
    auto r = convert(&c, j.args(binary), limit);
    if (mustFail) PBT_CHECK(c, r.status != 0, "success although an output file could not be written completely");
    else PBT_CHECK(c, r.status == 0, "failure although everything could be written: %s", r.text.c_str());
    if (r.status != 0) PBT_CHECK(c, !r.text.empty(), "failure without a message");
    else for (auto &f: files) PBT_CHECK(c, slurp(out + f.first) == f.second, "success, but %s is not complete", f.first.c_str());
    c.nontrivial();
}

// outline fonts some of whose characters are damaged
void c27Outline(Ctx &c)
{
    auto &files = outlineFonts();
    if (files.empty()) c.discard();
    auto file = files[c.uniform(files.size() - 1)];
    auto &page = codePages()[c.uniform(codePages().size() - 1)];
    auto data = slurp(file);
    auto u16 = [&](size_t at) { return at + 2 <= data.size() ? size_t(uint8_t(data[at])) << 8 | uint8_t(data[at + 1]) : 0; };
    auto u32 = [&](size_t at) { return u16(at) << 16 | u16(at + 2); };
    std::map<std::string, size_t> tables;
    for (size_t i = 0; i < u16(4); ++i) tables[data.substr(12 + 16 * i, 4)] = u32(12 + 16 * i + 8);
    if (!tables.count("glyf") || !tables.count("loca") || !tables.count("head")) c.discard();
    const bool longOffsets = u16(tables["head"] + 50) != 0;
    FT_Library lib;
    FT_Face face;
    PBT_CHECK(c, FT_Init_FreeType(&lib) == 0 && FT_New_Face(lib, file.c_str(), 0, &face) == 0, "FreeType does not work");
    struct Closer { FT_Library l; ~Closer() { FT_Done_FreeType(l); } } closer { lib };
    const int last = page.name == "ASCII" ? 0x7E : 0xFF;
    const size_t n = 1 + c.uniform(2);
    for (size_t i = 0; i < n; ++i)
    {
        int k = int(c.flat(0x20, last, 0x41));
        if (k > 0x7E && k < 0xA0) k = 0xA0;
        const size_t index = FT_Get_Char_Index(face, page.code[k]);
        const size_t at = tables["glyf"] + (longOffsets ? u32(tables["loca"] + 4 * index) : 2 * u16(tables["loca"] + 2 * index));
        const size_t end = tables["glyf"] + (longOffsets ? u32(tables["loca"] + 4 * (index + 1)) : 2 * u16(tables["loca"] + 2 * (index + 1)));
        if (at + 12 > end || end > data.size()) continue; // nothing to draw
        switch (c.uniform(3))
        {
            case 0: data[at] = 0x7F; c.trace("code 0x%02x: too many outlines", k); break;
            case 1: data[at + 10] = char(0xF0); c.trace("code 0x%02x: the first outline's end is damaged", k); break;
            case 2: data[at] = char(0xFF); data[at + 1] = char(0xFF); data[at + 12] = char(0xFF); data[at + 13] = char(0xFF); c.trace("code 0x%02x: consists of a glyph that does not exist", k); break;
            default:
            {
                const size_t p = at + c.uniform(end - at - 1);
                data[p] = char(c.uniform(255));
                c.trace("code 0x%02x: byte %zu of its outline is %02x", k, p - at, uint8_t(data[p]));
                break;
            }
        }
    }
    int size = int(c.range(5, 30)), dpi = int(c.pick({ 72, 96, 141 }));
    c.trace("%s size %d dpi %d %s", file.c_str(), size, dpi, page.name.c_str());
    const auto copy = scratch() + "/damaged.ttf";
    std::ofstream(copy, std::ios::binary) << data;
    struct Remover { std::string f; ~Remover() { unlink(f.c_str()); } } remover { copy };
    outline(c, copy, page, size, dpi, true);
}

// arguments and fonts that cannot be used
void c27Input(Ctx &c)
{
    auto j = genJob(c, false);
    j.plain();
    size_t total = 0;
    for (int k: j.codes()) total += Job::bytes(j.glyph(k));
    if (j.fitting(true) != 1 || total == 0) c.discard();
    const bool binary = c.boolean();
    j.giveSize = j.giveDpi = true;
    auto args = j.args(binary);
    bool mustFail = true;
    auto value = [&](const char* opt) -> std::string & {
        for (size_t i = 0; i + 1 < args.size(); ++i) if (args[i] == opt) return args[i + 1];
        args.push_back(opt);
        args.push_back("");
        return args.back();
    };
    switch (c.oneOf({ 3, 2, 2, 2, 2, 4, 1 }))
    {
        case 0:
        {
            static const char* const bad[] = { "abc", "", "x12", "-", "99999999999999999999", "2147483648", "-2147483649", "0x", "12,5e", " ", "+", "--12", "\xFF" };
            std::string v = bad[c.uniform(sizeof bad / sizeof *bad - 1)];
            if (c.boolean()) value("-s") = v;
            else
            {
                for (auto &a: args) if (a.substr(0, 2) == "-d") a = "-h0";
                args.erase(std::remove(args.begin(), args.end(), "-h0"), args.end());
                value("-d") = v;
            }
            c.trace("number %s", show(v).c_str());
            c.label("malformed number");
            break;
        }
        case 1:
        {
            // sizes for which the font has no glyphs
            int64_t s = c.oneOf({ 1, 1 }) == 0 ? int64_t(j.pointSize) + 67108864ll * c.range(1, 31) : c.range(1000, 2000000000);
            if (s > INT32_MAX) s = INT32_MAX;
            value("-s") = std::to_string(s);
            c.trace("size %lld", (long long)s);
            c.label("size the font does not have");
            break;
        }
        case 2:
        {
            static const char* const bad[] = { "NO-SUCH-CODE-PAGE", "ISO-8859-99", "CP0", "x", "LATIN-99", "KOI" };
            value("-e") = bad[c.uniform(5)];
            c.trace("code page %s", value("-e").c_str());
            c.label("unknown code page");
            break;
        }
        case 3:
            value("-f") = c.boolean() ? scratch() + "/missing.bdf" : scratch() + "/out";
            c.label("no font");
            break;
        case 4:
        {
            j.font.bpp = int(c.pick({ 2, 4, 8 }));
            c.trace("%d bits per pixel", j.font.bpp);
            c.label("not monochrome");
            bool any = false;
            for (int k: j.codes()) if (j.glyph(k).w > 0) any = true;
            if (!any) c.discard();
            break;
        }
        case 5: mustFail = false; c.label("damaged font"); break;
        default:
            args.erase(args.begin(), args.begin() + 2);
            c.label("no font given");
            break;
    }
    j.write();
    struct Cleaner { Job &j; ~Cleaner() { j.clean(); } } cleaner { j };
    if (!mustFail)
    {
        // damaged font files: nothing is known about the result, but the end must be orderly
        auto text = j.font.bdf();
        if (c.boolean()) { text.resize(size_t(c.flat(0, int64_t(text.size()), 0))); c.trace("cut to %zu bytes", text.size()); }
        else
            for (size_t n = 1 + c.uniform(4); n-- > 0;)
            {
                size_t p = c.uniform(std::min<uint64_t>(text.size() - 1, c.boolean() ? 800 : text.size() - 1));
                text[p] = char(c.oneOf({ 1, 1 }) == 0 ? '0' + c.uniform(9) : c.uniform(255));
                c.trace("byte %zu is %02x", p, uint8_t(text[p]));
            }
        std::ofstream f(scratch() + "/" + j.name, std::ios::binary);
        f << text;
    }
    auto r = convert(&c, args);
    if (mustFail) PBT_CHECK(c, r.status != 0, "success although an input is not usable");
    if (r.status != 0) PBT_CHECK(c, !r.text.empty(), "failure without a message");
    c.nontrivial();
}
#endif

// ---- C28 -----------------------------------------------------------------------------------------------
#if PROP == 28
void c28(Ctx &c)
{
    auto &pages = codePages();
    auto &page = pages[c.uniform(pages.size() - 1)];
    c.trace("%s", page.name.c_str());
    if (c.chance(1, 40))
    {
        std::string bad = c.boolean() ? page.name + "-X" : std::string("NO-") + page.name;
        bool thrown = false;
        try { EncodingConverter conv(bad.c_str(), "UCS-4LE"); }
        catch (const std::exception &) { thrown = true; }
        PBT_CHECK(c, thrown, "the unknown code page %s is not reported", bad.c_str());
    }
    EncodingConverter raw(page.name.c_str(), "UCS-4LE"), text(page.name.c_str(), "UTF-8");
    // converters of another code page used in between
    auto &second = pages[c.uniform(pages.size() - 1)];
    std::optional<EncodingConverter> otherRaw, otherText;
    if (c.chance(1, 3))
    {
        otherRaw.emplace(second.name.c_str(), "UCS-4LE");
        otherText.emplace(second.name.c_str(), "UTF-8");
        c.trace("and %s", second.name.c_str());
        c.label("two code pages at once");
    }
    // and one that keeps incomplete characters
    std::optional<EncodingConverter> multi;
    if (c.chance(1, 6)) { multi.emplace("UTF-8", "UCS-4LE"); c.trace("and UTF-8"); }
    size_t n = 0, undefined = 0;
    while (c.more(20))
    {
        if (multi && c.chance(1, 4))
        {
            const auto b = c.pick<uint8_t>({ 0xC3, 'a', 0xE2, 0x82, 0xF0, 0xFF });
            c.trace("UTF-8 0x%02x", b);
            (void)multi->convertRaw(char(b));
        }
        if (otherRaw && c.chance(1, 3))
        {
            uint8_t b = uint8_t(c.uniform(255));
            c.trace("other 0x%02x", b);
            auto r = otherRaw->convertRaw(char(b));
            PBT_CHECK(c, r == second.code[b], "%s: byte 0x%02x gives U+%04X, alone U+%04X", second.name.c_str(), b, r, second.code[b]);
            auto t = otherText->convert(char(b));
            PBT_CHECK(c, t == second.utf8[b], "%s: byte 0x%02x gives the text %s, alone %s", second.name.c_str(), b, show(t).c_str(), show(second.utf8[b]).c_str());
            if (c.chance(1, 40)) { otherRaw.reset(); otherText.reset(); c.trace("closed"); }
        }
        uint8_t b = uint8_t(c.oneOf({ 3, 2 }) == 0 ? c.flat(0x80, 0xFF, 0xA0) : c.uniform(255));
        const bool asText = c.boolean();
        c.trace("%s 0x%02x", asText ? "text" : "raw", b);
        if (asText)
        {
            auto r = text.convert(char(b));
            PBT_CHECK(c, r == page.utf8[b], "%s: byte 0x%02x gives the text %s, alone %s", page.name.c_str(), b, show(r).c_str(), show(page.utf8[b]).c_str());
        }
        else
        {
            auto r = raw.convertRaw(char(b));
            PBT_CHECK(c, r == page.code[b], "%s: byte 0x%02x gives U+%04X, alone U+%04X", page.name.c_str(), b, r, page.code[b]);
        }
        ++n;
        if (b != 0 && page.code[b] == 0) ++undefined;
    }
    if (undefined) c.label("undefined bytes");
    if (n >= 2) c.nontrivial();
}
// independent of iconv: code pages with a formula
void formulas(std::string &report)
{
    EncodingConverter latin("ISO-8859-1", "UCS-4LE"), cyr("ISO-8859-5", "UCS-4LE"), ascii("ASCII", "UCS-4LE"), latinText("ISO-8859-1", "UTF-8");
    for (int b = 0; b < 256; ++b)
    {
        auto check = [&](const char* page, uint32_t got, uint32_t want) {
            char m[120];
            snprintf(m, sizeof m, "%s: byte 0x%02x gives U+%04X, expected U+%04X", page, b, got, want);
            if (got != want) throw Failure { m };
        };
        check("ISO-8859-1", latin.convertRaw(char(b)), uint32_t(b));
        check("ASCII", ascii.convertRaw(char(b)), b < 128 ? uint32_t(b) : 0);
        check("ISO-8859-5", cyr.convertRaw(char(b)), b <= 0xA0 || b == 0xAD ? uint32_t(b) : b == 0xF0 ? 0x2116 : b == 0xFD ? 0xA7 : uint32_t(b) + 0x360);
        std::string want = b < 128 ? std::string(1, char(b)) : std::string { char(0xC0 | b >> 6), char(0x80 | (b & 63)) };
        if (latinText.convert(char(b)) != want) throw Failure { "ISO-8859-1 as UTF-8: byte " + std::to_string(b) };
    }
    report = "ISO-8859-1, ISO-8859-5 and ASCII compared with their formulas";
}
#endif

} // namespace

namespace pbt
{
const std::vector<Property> &properties()
{
    static const std::vector<Property> p {
#if PROP == 24
        { "C24", c24, 100000, 3000000, "a sequence of bits, bytes and flushes; non-trivial: a byte written off a byte boundary and a flush in the middle" },
#elif PROP == 25
        { "C25", c25, 1350, 30000, "a generated BDF font in one of up to 46 code pages; non-trivial: at least ten characters from the font itself" },
        { "C25-outline", c25Outline, 60, 1500, "DejaVu at sizes 5..30 against FreeType's own rendering; non-trivial: all cases not discarded as too large" },
#elif PROP == 26
        { "C26", c26, 750, 20000, "a generated BDF font with a generated file name, header against binary; non-trivial: more than 8 bitmap bytes", compiled },
        { "C26-outline", c26Outline, 40, 1500, "DejaVu at sizes 1..40, header against binary; non-trivial: all cases not discarded as too large" },
#elif PROP == 27
        { "C27-limits", c27Limits, 500, 15000, "fonts with measures around the limits of the format; non-trivial: beyond a limit, or converted" },
        { "C27-write", c27Write, 500, 15000, "output that cannot be opened or written completely; non-trivial: all" },
        { "C27-outline", c27Outline, 40, 1500, "DejaVu with damaged characters against what FreeType makes of them; non-trivial: all cases not discarded as too large" },
        { "C27-input", c27Input, 700, 15000, "unusable arguments, code pages and fonts; non-trivial: all" },
#elif PROP == 28
        { "C28", c28, 60000, 500000, "bytes of up to 46 code pages in any order; non-trivial: at least two bytes", formulas },
#endif
    };
    return p;
}
}
