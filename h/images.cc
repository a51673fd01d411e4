// F02: image decoding
#include <mc/explore.hh>
#include <common/imglib.hh>
#include <common/bspfile.hh>
#include <common/bsputils.hh>
#include <common/settings.hh>
#include <common/log.hh>
#include <cmath>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <optional>
using namespace mc;
namespace
{
namespace sf = std::filesystem;
using Bytes = std::vector<uint8_t>;
using RGBA = std::array<uint8_t, 4>;
void put(const sf::path &p, const Bytes &b)
{
    if (p.has_parent_path())
        sf::create_directories(p.parent_path());
    std::ofstream o(p, std::ios::binary | std::ios::trunc);
    o.write((const char *)b.data(), b.size());
}
void wipe()
{
    fs::clear();
    img::clear();
    for (auto &e : sf::directory_iterator("."))
        sf::remove_all(e.path());
}
void le16(Bytes &b, unsigned v) { b.push_back(v & 255), b.push_back(v >> 8 & 255); }
void le32(Bytes &b, uint32_t v) { le16(b, v & 0xffff), le16(b, v >> 16); }
void set32(Bytes &b, size_t at, uint32_t v)
{
    for (int i = 0; i < 4; i++)
        b[at + i] = v >> (8 * i) & 255;
}
uint32_t get32(const Bytes &b, size_t at) { return b[at] | b[at + 1] << 8 | b[at + 2] << 16 | (uint32_t)b[at + 3] << 24; }
void str(Bytes &b, const std::string &s, size_t n)
{
    for (size_t i = 0; i < n; i++)
        b.push_back(i < s.size() ? s[i] : 0);
}
// deterministic pixel bytes that visit every value
uint8_t pix(size_t i, int seed) { return (uint8_t)(i * 37 + i / 256 * 11 + seed * 101); }
uint8_t pal(int kind, int idx, int c) { return (uint8_t)(idx * (kind == 0 ? 7 : kind == 1 ? 13 : 29) + c * 85 + kind * 3); }
void set_palette(int kind)
{
    img::palette.clear();
    for (int i = 0; i < 256; i++)
        img::palette.push_back(qvec3b(pal(kind, i, 0), pal(kind, i, 1), pal(kind, i, 2)));
}
const gamedef_t *game(gameid_t id)
{
    for (auto *v : bspversions)
        if (v->game && v->game->id == id)
            return v->game;
    return nullptr;
}
std::vector<RGBA> expect_pal(const Bytes &px, int kind)
{
    std::vector<RGBA> r;
    for (auto p : px)
        r.push_back({pal(kind, p, 0), pal(kind, p, 1), pal(kind, p, 2), (uint8_t)(p == 255 ? 0 : 255)});
    return r;
}
std::string compare(const std::optional<img::texture> &t, unsigned w, unsigned h, const std::vector<RGBA> &want)
{
    if (!t)
        return "is refused";
    if (t->width != w || t->height != h || t->meta.width != w || t->meta.height != h)
        return "has size " + std::to_string(t->width) + "x" + std::to_string(t->height) + " (meta " + std::to_string(t->meta.width) + "x" + std::to_string(t->meta.height) + ") instead of " + std::to_string(w) + "x" + std::to_string(h);
    if (t->pixels.size() != want.size())
        return "has " + std::to_string(t->pixels.size()) + " pixels instead of " + std::to_string(want.size());
    for (size_t i = 0; i < want.size(); i++)
        for (int c = 0; c < 4; c++)
            if (t->pixels[i][c] != want[i][c])
                return "pixel " + std::to_string(i % w) + "," + std::to_string(i / w) + " channel " + std::to_string(c) + " is " + std::to_string(t->pixels[i][c]) + " instead of " + std::to_string(want[i][c]);
    return "";
}

// ---- WAL ------------------------------------------------------------------
struct Wal
{
    unsigned w, h;
    int layout; // 0: mips after the header; 1: gap before them; 2: first mip last
    std::string anim;
    uint32_t flags = 0, contents = 0, value = 0;
    int seed = 0;
};
Bytes mips(unsigned w, unsigned h, int seed, int level)
{
    Bytes b((size_t)(w >> level) * (h >> level));
    for (size_t i = 0; i < b.size(); i++)
        b[i] = pix(i, seed + level);
    return b;
}
Bytes wal(const Wal &s)
{
    Bytes b;
    str(b, "stored/name", 32);
    le32(b, s.w);
    le32(b, s.h);
    size_t head = 100;
    std::array<size_t, 4> sz, off;
    for (int l = 0; l < 4; l++)
        sz[l] = (size_t)(s.w >> l) * (s.h >> l);
    size_t at = head + (s.layout == 1 ? 13 : 0);
    int ord[4] = {0, 1, 2, 3};
    if (s.layout == 2)
        ord[0] = 3, ord[3] = 0;
    for (int l : ord)
        off[l] = at, at += sz[l];
    for (int l = 0; l < 4; l++)
        le32(b, off[l]);
    str(b, s.anim, 32);
    le32(b, s.flags);
    le32(b, s.contents);
    le32(b, s.value);
    b.resize(head + (s.layout == 1 ? 13 : 0), 0xee);
    for (int l : ord) {
        auto m = mips(s.w, s.h, s.seed, l);
        b.insert(b.end(), m.begin(), m.end());
    }
    return b;
}
// ---- mip -------------------------------------------------------------------
Bytes mip(unsigned w, unsigned h, int layout, int seed, bool palette, int palkind, int ncol = 256)
{
    Bytes b;
    str(b, "storedname", 16);
    le32(b, w);
    le32(b, h);
    size_t at = 40 + (layout == 1 ? 5 : 0);
    if (layout == 3) {
        for (int l = 0; l < 4; l++)
            le32(b, 0);
        return b;
    }
    for (int l = 0; l < 4; l++) {
        le32(b, at);
        at += (size_t)(w >> l) * (h >> l);
    }
    b.resize(40 + (layout == 1 ? 5 : 0), 0xdd);
    for (int l = 0; l < 4; l++) {
        auto m = mips(w, h, seed, l);
        b.insert(b.end(), m.begin(), m.end());
    }
    if (palette) {
        le16(b, ncol);
        for (int i = 0; i < 256; i++)
            for (int c = 0; c < 3; c++)
                b.push_back(pal(palkind, i, c));
    }
    return b;
}
// ---- TGA -------------------------------------------------------------------
struct Tga
{
    int type; // 1 2 3 9 10 11
    int depth;
    bool top, right;
    unsigned w, h, idlen;
    int rle; // how runs are formed: 0 raw packets of up to 3, 1 runs of up to 3, 2 alternating, 3: packets crossing rows
    int maxpacket = 3;
    int origin = 0;
};
RGBA tgapix(const Tga &t, unsigned x, unsigned y)
{
    // a few colours, with repetitions for the runs
    unsigned k = t.rle == 1 || t.rle == 2 ? (x / 2 + y) : x * 7 + y * 13;
    uint8_t r = (uint8_t)(k * 53 + 9), g = (uint8_t)(k * 31 + 80), b = (uint8_t)(k * 97 + 200), a = (uint8_t)(k * 71 + 1);
    if (t.type == 3 || t.type == 11)
        return {r, r, r, 255};
    if (t.depth == 24)
        a = 255;
    if (t.depth == 15 || t.depth == 16) {
        r = r & 31, g = g & 31, b = b & 31;
        return {(uint8_t)(r * 255 / 31), (uint8_t)(g * 255 / 31), (uint8_t)(b * 255 / 31), 255};
    }
    if (t.type == 1 || t.type == 9) {
        uint8_t i = (uint8_t)(k % 16);
        return {pal(2, i, 0), pal(2, i, 1), pal(2, i, 2), 255};
    }
    return {r, g, b, a};
}
Bytes tga(const Tga &t)
{
    bool map = t.type == 1 || t.type == 9, grey = t.type == 3 || t.type == 11;
    Bytes b;
    b.push_back(t.idlen);
    b.push_back(map);
    b.push_back(t.type);
    le16(b, 0);
    le16(b, map ? 16 : 0);
    b.push_back(map ? 24 : 0);
    le16(b, t.origin);
    le16(b, t.origin);
    le16(b, t.w);
    le16(b, t.h);
    b.push_back(map ? 8 : t.depth);
    b.push_back((t.top ? 0x20 : 0) | (t.right ? 0x10 : 0) | (t.depth == 32 ? 8 : 0));
    b.insert(b.end(), t.idlen, 0x55);
    if (map)
        for (int i = 0; i < 16; i++)
            for (int c = 2; c >= 0; c--)
                b.push_back(pal(2, i, c));
    std::vector<Bytes> px;
    for (unsigned yy = 0; yy < t.h; yy++)
        for (unsigned x = 0; x < t.w; x++) {
            unsigned y = t.top ? yy : t.h - 1 - yy;
            Bytes p;
            unsigned k = t.rle == 1 || t.rle == 2 ? (x / 2 + y) : x * 7 + y * 13;
            uint8_t r = (uint8_t)(k * 53 + 9), g = (uint8_t)(k * 31 + 80), bl = (uint8_t)(k * 97 + 200), a = (uint8_t)(k * 71 + 1);
            if (map)
                p = {(uint8_t)(k % 16)};
            else if (grey)
                p = {r};
            else if (t.depth == 15 || t.depth == 16)
                le16(p, (r & 31) << 10 | (g & 31) << 5 | (bl & 31));
            else if (t.depth == 24)
                p = {bl, g, r};
            else
                p = {bl, g, r, a};
            px.push_back(p);
        }
    if (t.type < 8)
        for (auto &p : px)
            b.insert(b.end(), p.begin(), p.end());
    else {
        size_t i = 0;
        int flip = 0;
        while (i < px.size()) {
            size_t lim = t.rle == 3 ? 128 : t.maxpacket;
            size_t run = 1;
            while (i + run < px.size() && run < lim && px[i + run] == px[i])
                run++;
            bool asrun = t.rle == 0 ? false : t.rle == 1 ? true : (flip++ % 2);
            if (t.rle == 3)
                asrun = run > 1;
            if (asrun) {
                b.push_back(0x80 | (run - 1));
                b.insert(b.end(), px[i].begin(), px[i].end());
                i += run;
            } else {
                size_t n = std::min(lim, px.size() - i);
                b.push_back(n - 1);
                for (size_t q = 0; q < n; q++)
                    b.insert(b.end(), px[i + q].begin(), px[i + q].end());
                i += n;
            }
        }
    }
    return b;
}
Bytes pcx(int kind, size_t body)
{
    Bytes b = {0x0a, 5, 1, 8};
    b.resize(128, 0);
    for (size_t i = 0; i < body; i++)
        b.push_back(pix(i, 3));
    b.push_back(12);
    for (int i = 0; i < 256; i++)
        for (int c = 0; c < 3; c++)
            b.push_back(pal(kind, i, c));
    return b;
}

const std::vector<unsigned> SIZES_Q = {1, 2, 8, 16, 24, 64}, SIZES_T = {0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 24, 32, 48, 63, 64, 128};

// a damaged file: refused, or without pixels, or with exactly the pixels of the bytes it has
template<class L>
void damaged(Ctx &ctx, const char *kind, const Bytes &b, const std::string &what, L load, size_t woff, size_t hoff, size_t ooff)
{
    for (int meta = 0; meta < 2; meta++) {
        std::optional<img::texture> t;
        t = load(b, meta);
        ctx.count("damaged");
        ctx.outcome(hcomb((bool)t, t ? t->pixels.size() : 0));
        if (!t)
            continue;
        if (t->pixels.empty())
            continue;
        uint64_t w = get32(b, woff), h = get32(b, hoff), o = get32(b, ooff);
        if (t->pixels.size() != (uint64_t)t->width * t->height) {
            ctx.fail(std::string("damaged ") + kind, what + ": " + std::to_string(t->pixels.size()) + " pixels for " + std::to_string(t->width) + "x" + std::to_string(t->height));
            return;
        }
        if (w != t->width || h != t->height || o + w * h > b.size()) {
            ctx.fail(std::string("damaged ") + kind, what + ": accepted although its pixels are not in the file");
            return;
        }
        for (size_t i = 0; i < t->pixels.size(); i++)
            if (t->pixels[i][0] != pal(0, b[o + i], 0) && t->pixels[i][0] != pal(1, b[o + i], 0)) {
                ctx.fail(std::string("damaged ") + kind, what + ": a pixel is not what the file has");
                return;
            }
    }
}

std::vector<Space> f02(Tier t)
{
    std::vector<Space> out;
    bool T = t == Tier::thorough;
    auto S = T ? SIZES_T : SIZES_Q;
    const size_t n = S.size();
    out.push_back({"wal sizes and layouts", n * n * 3, [=](uint64_t i, Ctx &ctx) {
        Wal w{S[i % n], S[i / n % n], (int)(i / n / n), "next/frame", 0x12, 0x8000001, 77, (int)(i % 5)};
        set_palette(0);
        auto b = wal(w);
        auto px = mips(w.w, w.h, w.seed, 0);
        ctx.nontrivial(i);
        std::string at = "wal " + std::to_string(w.w) + "x" + std::to_string(w.h) + " layout " + std::to_string(w.layout) + " ";
        auto r = compare(img::load_wal("asked/name", b, false, game(GAME_QUAKE_II)), w.w, w.h, expect_pal(px, 0));
        if (!r.empty())
            ctx.fail("wal", at + r);
        for (int meta = 0; meta < 2; meta++) {
            auto t = img::load_wal("asked/name", b, meta, game(GAME_QUAKE_II));
            if (!t || t->meta.name != "asked/name" || t->meta.animation != "next/frame" || t->meta.flags.native != 0x12 || t->meta.contents_native != 0x8000001 || t->meta.value != 77 || t->meta.width != w.w || t->meta.height != w.h)
                ctx.fail("wal meta", at + "meta data");
            if (meta && t && !t->pixels.empty())
                ctx.fail("wal meta", at + "pixels although only meta data was asked for");
        }
        auto m = img::load_wal_meta("asked/name", b, game(GAME_QUAKE_II));
        if (!m || m->flags.native != 0x12 || m->contents_native != 0x8000001 || m->value != 77 || m->width != w.w || m->animation != "next/frame")
            ctx.fail("wal meta", at + "meta data alone");
    }, 16});
    out.push_back({"wal fields", 33 * 8, [=](uint64_t i, Ctx &ctx) {
        static const uint32_t V[8] = {0, 1, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x80, 0x10000, 0x02000000};
        std::string anim;
        for (uint64_t k = 0; k < i % 33; k++)
            anim += (char)('a' + k % 26);
        uint32_t v = V[i / 33];
        Wal w{8, 8, 0, anim, v, V[(i / 33 + 1) % 8], V[(i / 33 + 2) % 8], 1};
        set_palette(0);
        ctx.nontrivial(i);
        auto t = img::load_wal("n", wal(w), true, game(GAME_QUAKE_II));
        if (!t || t->meta.animation != anim)
            ctx.fail("wal animation", "a wal with next frame \"" + anim + "\" is read as \"" + (t ? t->meta.animation : "?") + "\"");
        if (t && ((uint32_t)t->meta.flags.native != v || t->meta.contents_native != w.contents || (uint32_t)t->meta.value != w.value))
            ctx.fail("wal fields", "flags, contents or value of a wal");
    }, 32});
    struct G
    {
        gameid_t g;
    };
    static const gameid_t GM[3] = {GAME_QUAKE, GAME_HEXEN_II, GAME_HALF_LIFE};
    // palette: 0 none, 1 own palette, 2 own palette with a wrong count
    out.push_back({"mip sizes, layouts and palettes", n * n * 3 * 3 * 3, [=](uint64_t i, Ctx &ctx) {
        unsigned w = S[i % n], h = S[i / n % n];
        int layout = i / n / n % 3, pk = i / n / n / 3 % 3;
        gameid_t g = GM[i / n / n / 9];
        if (layout == 2)
            layout = 3;
        ctx.nontrivial(i);
        set_palette(0);
        auto b = mip(w, h, layout, i % 7, pk, 1, pk == 2 ? 255 : 256);
        auto px = mips(w, h, i % 7, 0);
        std::string at = std::string(game(g)->friendly_name) + " mip " + std::to_string(w) + "x" + std::to_string(h) + " layout " + std::to_string(layout) + " palette " + std::to_string(pk) + " ";
        auto tex = img::load_mip("asked", b, false, game(g));
        if (layout == 3) {
            if (!tex || tex->width != w || tex->height != h || !tex->pixels.empty() || tex->meta.name != "asked")
                ctx.fail("mip dummy", at + "without pixels is not read as such");
            return;
        }
        bool own = g == GAME_HALF_LIFE && pk == 1;
        auto r = compare(tex, w, h, expect_pal(px, own ? 1 : 0));
        if (!r.empty())
            ctx.fail("mip", at + r);
        auto m = img::load_mip("asked", b, true, game(g));
        if (!m || m->meta.width != w || m->meta.height != h || !m->pixels.empty())
            ctx.fail("mip meta", at + "meta data");
    }, 32});
    // the games' own palettes: a mip must decode (or lack pixels) even if the game has no palette
    out.push_back({"mips with the games' palettes", 3 * 3, [=](uint64_t i, Ctx &ctx) {
        gameid_t g = GM[i % 3];
        int pk = i / 3;
        wipe();
        img::init_palette(game(g));
        ctx.nontrivial(i);
        auto b = mip(16, 16, 0, 1, pk, 1, pk == 2 ? 255 : 256);
        auto tex = img::load_mip("asked", b, false, game(g));
        if (!tex) {
            ctx.fail("mip game palette", "refused");
            return;
        }
        if (tex->pixels.empty()) {
            if (!(g == GAME_HALF_LIFE && pk != 1))
                ctx.fail("mip game palette", std::string(game(g)->friendly_name) + " mip without pixels");
            return;
        }
        if (tex->pixels.size() != 256)
            ctx.fail("mip game palette", "pixel count");
        auto px = mips(16, 16, 1, 0);
        if (!(g == GAME_HALF_LIFE && pk == 1))
            for (size_t k = 0; k < 256; k++) {
                auto &p = game(g)->get_default_palette();
                for (int c = 0; c < 3; c++)
                    if (tex->pixels[k][c] != p.at(px[k])[c])
                        ctx.fail("mip game palette", "colour");
            }
    }, 1});
    // TGA
    std::vector<Tga> tg;
    std::vector<unsigned> ts = T ? std::vector<unsigned>{1, 2, 3, 4, 5, 8, 16, 33} : std::vector<unsigned>{1, 2, 3, 8};
    for (int type : {1, 2, 3, 9, 10, 11})
        for (int depth : {8, 15, 16, 24, 32}) {
            bool ok = (type == 2 || type == 10) ? depth != 8 : depth == 8;
            if (!ok)
                continue;
            for (unsigned w : ts)
                for (unsigned h : ts)
                    for (int top = 0; top < 2; top++)
                        for (unsigned id : {0u, 1u, 255u})
                            for (int rle = 0; rle < (type > 8 ? 4 : 1); rle++)
                                for (int mp : {3, 128})
                                    if (type > 8 || mp == 3)
                                        tg.push_back({type, depth, (bool)top, false, w, h, id, rle, mp, id == 1 ? 7 : 0});
        }
    out.push_back({"tga types, depths, row orders, packets", tg.size(), [tg](uint64_t i, Ctx &ctx) {
        auto &t = tg[i];
        ctx.nontrivial(i);
        std::vector<RGBA> want;
        for (unsigned y = 0; y < t.h; y++)
            for (unsigned x = 0; x < t.w; x++)
                want.push_back(tgapix(t, x, y));
        std::string at = "tga type " + std::to_string(t.type) + " depth " + std::to_string(t.depth) + " " + std::to_string(t.w) + "x" + std::to_string(t.h) + (t.top ? " top" : " bottom") + " first, id " + std::to_string(t.idlen) + " packets " + std::to_string(t.rle) + "/" + std::to_string(t.maxpacket) + " ";
        auto b = tga(t);
        auto r = compare(img::load_stb("n", b, false, game(GAME_QUAKE_II)), t.w, t.h, want);
        if (!r.empty())
            ctx.fail("tga", at + r);
        auto m = img::load_stb("n", b, true, game(GAME_QUAKE_II));
        if (!m || m->meta.width != t.w || m->meta.height != t.h)
            ctx.fail("tga meta", at);
    }, 64});
    // PCX palette
    std::vector<size_t> bodies = {0, 1, 100, 5000};
    out.push_back({"pcx palettes", bodies.size() * 3 * 3, [bodies](uint64_t i, Ctx &ctx) {
        wipe();
        int kind = i % 3;
        size_t body = bodies[i / 3 % bodies.size()];
        int where = i / 3 / bodies.size(); // loose, directory, missing
        ctx.nontrivial(i);
        if (where == 0)
            put("pics/colormap.pcx", pcx(kind, body));
        if (where == 1) {
            put("gd/pics/colormap.pcx", pcx(kind, body));
            fs::addArchive("gd");
        }
        img::init_palette(game(GAME_QUAKE_II));
        bool ok = img::palette.size() == 256;
        for (int k = 0; ok && k < 256; k++)
            for (int c = 0; c < 3; c++)
                ok = ok && img::palette[k][c] == (where == 2 ? game(GAME_QUAKE_II)->get_default_palette()[k][c] : pal(kind, k, c));
        if (!ok)
            ctx.fail("pcx", "palette " + std::to_string(kind) + " of a pcx with " + std::to_string(body) + " bytes of pixels is not taken over");
    }, 4});
    out.push_back({"damaged pcx palettes", 128 + 768 + 2 + 128 * 4, [](uint64_t i, Ctx &ctx) {
        wipe();
        auto b = pcx(1, 1);
        bool mustok = false;
        if (i < 898)
            b.resize(i);
        else {
            size_t at = (i - 898) / 4;
            static const uint8_t V[4] = {0, 1, 0x80, 0xff};
            mustok = b[at] == V[(i - 898) % 4] || at >= 4;
            b[at] = V[(i - 898) % 4];
        }
        put("pics/colormap.pcx", b);
        ctx.nontrivial(i);
        img::init_palette(game(GAME_QUAKE_II));
        ctx.count("damaged");
        if (img::palette.size() != 256)
            ctx.fail("damaged pcx", "after a damaged pcx the palette has " + std::to_string(img::palette.size()) + " entries");
        bool own = img::palette.size() == 256;
        for (int k = 0; own && k < 256; k++)
            for (int c = 0; c < 3; c++)
                own = own && img::palette[k][c] == pal(1, k, c);
        bool def = img::palette == game(GAME_QUAKE_II)->get_default_palette();
        if (i >= 898 && (mustok ? !own : own))
            ctx.fail("damaged pcx", "header byte " + std::to_string((i - 898) / 4) + " changed: palette " + (own ? "taken" : "refused"));
        if (i < 896 && !def) { // less than header and palette: nothing to take
            ctx.fail("damaged pcx", "a pcx cut to " + std::to_string(i) + " bytes gives a palette");
        }
    }, 32});
    // damage
    auto w0 = wal({8, 16, 0, "x", 1, 2, 3, 1}), w1 = wal({16, 8, 2, "", 0, 0, 0, 2});
    auto m0 = mip(8, 16, 0, 1, false, 1), m1 = mip(16, 16, 0, 2, true, 1), m2 = mip(8, 8, 1, 2, true, 1);
    struct D
    {
        int kind;
        Bytes b;
    };
    static std::vector<D> base;
    base = {{0, w0}, {0, w1}, {1, m0}, {1, m1}, {2, m0}, {2, m1}, {2, m2}};
    struct E
    {
        int k;
        bool cut;
        size_t at;
        uint32_t v;
    };
    std::vector<E> es;
    for (size_t k = 0; k < base.size(); k++) {
        for (size_t c = 0; c < base[k].b.size(); c++)
            es.push_back({(int)k, true, c, 0});
        std::vector<size_t> words;
        if (base[k].kind == 0)
            for (size_t a = 32; a < 100; a += 4)
                words.push_back(a);
        else
            for (size_t a = 16; a < 40; a += 4)
                words.push_back(a);
        for (size_t at : words) {
            std::vector<uint32_t> vs = {0, 1, 7, 8, 16, 24, 39, 40, 41, 99, 100, 101, 255, 256, 0x7fff, 0x8000, 0xffff, 0x10000, 0x10001, 0x40000000, 0x7fffffff, 0x80000000u, 0xfffffff0u, 0xffffffffu, 0x20000000, 0x55555556, (uint32_t)base[k].b.size(), (uint32_t)base[k].b.size() - 1, (uint32_t)base[k].b.size() + 1, get32(base[k].b, at) + 1, get32(base[k].b, at) - 1};
            for (auto v : vs)
                es.push_back({(int)k, false, at, v});
        }
        // width and height together
        size_t wo = base[k].kind == 0 ? 32 : 16;
        (void)wo;
    }
    out.push_back({"damaged wal and mip", es.size(), [es](uint64_t i, Ctx &ctx) {
        auto &e = es[i];
        Bytes b = base[e.k].b;
        if (e.cut)
            b.resize(e.at);
        else
            set32(b, e.at, e.v);
        set_palette(0);
        int kind = base[e.k].kind;
        ctx.nontrivial(i);
        std::string what = std::string(kind == 0 ? "wal" : kind == 1 ? "quake mip" : "half-life mip") + (e.cut ? " cut to " + std::to_string(e.at) + " bytes" : " with " + std::to_string(e.v) + " at byte " + std::to_string(e.at));
        if (kind == 0)
            damaged(ctx, "wal", b, what, [](const Bytes &x, bool m) { return img::load_wal("n", x, m, game(GAME_QUAKE_II)); }, 32, 36, 40);
        else
            damaged(ctx, "mip", b, what, [=](const Bytes &x, bool m) { return img::load_mip("n", x, m, game(kind == 1 ? GAME_QUAKE : GAME_HALF_LIFE)); }, 16, 20, 24);
        // without a palette nothing may be read from it
        img::palette.clear();
        if (kind == 2)
            img::load_mip("n", b, false, game(GAME_HALF_LIFE));
    }, 64});
    // width x height pairs whose product overflows
    static const std::vector<uint32_t> BIG = {0, 1, 16, 0x100, 0x8000, 0xffff, 0x10000, 0x10001, 0x20000, 0x7fffffff, 0x80000000u, 0x80000001u, 0xfffffff0u, 0xffffffffu, 0x55555556};
    out.push_back({"overflowing sizes", BIG.size() * BIG.size() * 3, [](uint64_t i, Ctx &ctx) {
        uint32_t w = BIG[i % BIG.size()], h = BIG[i / BIG.size() % BIG.size()];
        int kind = i / BIG.size() / BIG.size();
        Bytes b = kind == 0 ? wal({8, 16, 0, "x", 1, 2, 3, 1}) : mip(16, 16, 0, 2, true, 1);
        set32(b, kind ? 16 : 32, w);
        set32(b, kind ? 20 : 36, h);
        ctx.nontrivial(i);
        set_palette(0);
        std::string what = std::to_string(w) + "x" + std::to_string(h);
        if (kind == 0)
            damaged(ctx, "wal", b, "wal " + what, [](const Bytes &x, bool m) { return img::load_wal("n", x, m, game(GAME_QUAKE_II)); }, 32, 36, 40);
        else
            damaged(ctx, "mip", b, "mip " + what, [=](const Bytes &x, bool m) { return img::load_mip("n", x, m, game(kind == 1 ? GAME_QUAKE : GAME_HALF_LIFE)); }, 16, 20, 24);
    }, 32});
    // TGA damage: every truncation and every header byte with boundary values; only safety is required
    std::vector<Tga> tb = {{2, 24, true, false, 4, 3, 2, 0}, {10, 32, false, false, 5, 4, 0, 2}, {9, 8, false, false, 4, 4, 0, 1}, {1, 8, true, false, 3, 3, 0, 0}, {11, 8, false, false, 6, 2, 0, 3}};
    out.push_back({"damaged tga", tb.size() * 512, [tb](uint64_t i, Ctx &ctx) {
        auto b = tga(tb[i / 512]);
        size_t k = i % 512;
        static const uint8_t V[] = {0, 1, 2, 3, 8, 9, 10, 11, 15, 16, 24, 32, 0x20, 0x7f, 0x80, 0xff};
        if (k < 224) {
            if (k >= b.size())
                return;
            b.resize(k);
        } else {
            k -= 224;
            b[k / 16] = V[k % 16];
        }
        ctx.nontrivial(i);
        auto t = img::load_stb("n", b, false, game(GAME_QUAKE_II));
        ctx.count("damaged");
        if (t && t->pixels.size() != (uint64_t)t->width * t->height)
            ctx.fail("damaged tga", "pixel count");
    }, 64});
    // average colour: every multiset of up to three of six colours, alpha classes
    out.push_back({"average colour", 1 + 24 + 24 * 24 + 24 * 24 * 24, [](uint64_t i, Ctx &ctx) {
        std::vector<qvec4b> px;
        uint64_t k = i;
        int len = k == 0 ? 0 : k <= 24 ? 1 : k <= 24 + 576 ? 2 : 3;
        k -= len == 0 ? 0 : len == 1 ? 1 : len == 2 ? 25 : 601;
        double s[3] = {};
        int m = 0;
        for (int q = 0; q < len; q++, k /= 24) {
            static const uint8_t C[6][3] = {{0, 0, 0}, {255, 255, 255}, {255, 0, 1}, {1, 2, 3}, {127, 128, 254}, {10, 200, 77}};
            static const uint8_t A[4] = {0, 255, 127, 126};
            auto *c = C[k % 6];
            uint8_t a = A[k % 24 / 6];
            px.push_back(qvec4b(c[0], c[1], c[2], a));
            if (a >= 127) {
                for (int z = 0; z < 3; z++)
                    s[z] += c[z];
                m++;
            }
        }
        ctx.nontrivial(i);
        auto av = img::calculate_average(px);
        for (int z = 0; z < 3; z++) {
            double want = m ? s[z] / m : 0;
            if (std::abs(av[z] - want) >= 1.0)
                ctx.fail("average", "the average of " + std::to_string(len) + " pixels is off: " + std::to_string(av[z]) + " instead of " + std::to_string(want));
        }
    }, 512});
    // textures of a whole bsp: stored pixels, replacements on disk, dummies
    // stored: 0 pixels, 1 dummy, 2 too small, 3 null data; replacement: 0 none, 1 tga of the same size, 2 tga of twice the size, 3 mip
    out.push_back({"textures of a bsp file", 4 * 4 * 2 * 2, [](uint64_t i, Ctx &ctx) {
        wipe();
        int stored = i % 4, repl = i / 4 % 4, boost = i / 16 % 2, second = i / 32;
        ctx.nontrivial(i);
        set_palette(0);
        mbsp_t bsp;
        bsp.loadversion = &bspver_q1;
        auto add = [&](const std::string &name, int st) {
            auto &m = bsp.dtex.textures.emplace_back();
            m.name = name;
            m.width = 16;
            m.height = 8;
            Bytes b = st == 0 ? mip(16, 8, 0, 4, false, 0) : st == 1 ? mip(16, 8, 3, 4, false, 0) : st == 2 ? Bytes(10, 1) : Bytes();
            m.data.assign(b.begin(), b.end());
        };
        add("wall", stored);
        if (second)
            add("WALL", 0); // names differ in case only: one texture
        Tga tg{2, 24, true, false, repl == 2 ? 32u : 16u, repl == 2 ? 16u : 8u, 0, 0};
        if (repl == 1 || repl == 2)
            put("wall.tga", tga(tg));
        if (repl == 3)
            put("wall.mip", mip(16, 8, 0, 9, false, 0));
        settings::common_settings opt;
        opt.tex_saturation_boost.set_value(boost ? 0.5f : 0.0f, settings::source::COMMANDLINE);
        img::load_textures(&bsp, opt);
        auto *t = img::find("Wall");
        if (!t) {
            ctx.fail("bsp textures", "texture not in the table");
            return;
        }
        std::vector<RGBA> want;
        unsigned w = 16, h = 8;
        if (repl == 1 || repl == 2) {
            w = tg.w, h = tg.h;
            for (unsigned y = 0; y < h; y++)
                for (unsigned x = 0; x < w; x++)
                    want.push_back(tgapix(tg, x, y));
        } else if (repl == 3)
            want = expect_pal(mips(16, 8, 9, 0), 0);
        else if (stored == 0)
            want = expect_pal(mips(16, 8, 4, 0), 0);
        bool bad = t->pixels.size() != want.size();
        for (size_t k = 0; !bad && k < want.size(); k++)
            for (int c = 0; c < 4; c++)
                bad = bad || t->pixels[k][c] != want[k][c];
        std::string at = "texture stored " + std::to_string(stored) + " replaced " + std::to_string(repl) + ": ";
        if (bad)
            ctx.fail("bsp textures", at + "pixels");
        if (!want.empty() && stored < 2) {
            if (t->width != w || t->height != h || t->meta.width != 16 || t->meta.height != 8)
                ctx.fail("bsp textures", at + "size");
            if (std::abs(t->width_scale - w / 16.0) > 1e-6 || std::abs(t->height_scale - h / 8.0) > 1e-6)
                ctx.fail("bsp textures", at + "scale of the replacement");
            auto av = img::calculate_average(t->pixels);
            double sq[3], mx = 0;
            for (int c = 0; c < 3; c++)
                sq[c] = 2.0 * av[c] * av[c] / 65025.0, mx = std::max(mx, sq[c]);
            for (int c = 0; c < 3; c++) {
                double wv = av[c];
                if (boost)
                    wv = 0.5 * wv + 0.5 * (mx > 1 ? sq[c] / mx : sq[c]) * 255;
                if (std::abs(wv - t->averageColor[c]) > 1.5)
                    ctx.fail("bsp textures", at + "average colour");
            }
        }
    }, 2});
    // average colour and scale of textures of one plain colour: every colour of a grid, every boost, Quake and Quake II
    // (texinfo and _project_texture), stored and replacing image of other sizes, colour override
    out.push_back({"colour of a texture", 6 * 6 * 6 * 4 * 3 * 2 * 2, [](uint64_t i, Ctx &ctx) {
        wipe();
        static const uint8_t V[6] = {0, 3, 90, 180, 181, 255};
        static const float B[4] = {0, 0.25f, 0.5f, 1};
        int rgb[3] = {V[i % 6], V[i / 6 % 6], V[i / 36 % 6]};
        i /= 216;
        double boost = B[i % 4];
        int ref = i / 4 % 3, over = i / 12 % 2, size = i / 24; // ref: 0 Quake miptex, 1 Quake II texinfo, 2 Quake II light
        ctx.nontrivial((rgb[0] << 16 | rgb[1] << 8 | rgb[2]) * 48 + i);
        if (over && !ref)
            return;
        set_palette(0);
        mbsp_t bsp;
        bsp.loadversion = ref ? &bspver_q2 : &bspver_q1;
        unsigned w = size ? 48 : 16, h = size ? 16 : 8;
        Bytes t = {0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, (uint8_t)w, 0, (uint8_t)h, 0, 24, 0x20};
        for (unsigned k = 0; k < w * h; k++)
            for (int c = 2; c >= 0; c--)
                t.push_back(rgb[c]);
        put(ref ? "textures/wall.tga" : "wall.tga", t);
        if (ref == 0) {
            auto &m = bsp.dtex.textures.emplace_back();
            m.name = "wall";
            m.width = 16;
            m.height = 8;
            Bytes b = mip(16, 8, 0, 4, false, 0);
            m.data.assign(b.begin(), b.end());
        } else {
            put("textures/wall.wal", wal({16, 8, 0, "", 0x21, 1, 55, 1}));
            if (over)
                put("textures/wall.wal_json", [] { std::string s = "{\"color\": [9, 200, 31]}"; return Bytes(s.begin(), s.end()); }());
            bsp.dentdata = "{\n\"classname\" \"worldspawn\"\n}\n";
            if (ref == 1) {
                auto &x = bsp.texinfo.emplace_back();
                x.texture = {'w', 'a', 'l', 'l', 0};
            } else
                bsp.dentdata += "{\n\"classname\" \"light_spot\"\n\"_project_texture\" \"wall\"\n}\n";
        }
        settings::common_settings opt;
        opt.tex_saturation_boost.set_value((float)boost, settings::source::COMMANDLINE);
        img::load_textures(&bsp, opt);
        auto *x = img::find("WALL");
        if (!x) {
            ctx.fail("texture colour", "texture not in the table");
            return;
        }
        std::string at = "colour " + std::to_string(rgb[0]) + " " + std::to_string(rgb[1]) + " " + std::to_string(rgb[2]) + " boost " + std::to_string(boost) + " reference " + std::to_string(ref) + ": ";
        if (x->width != w || x->height != h || x->meta.width != 16 || x->meta.height != 8)
            ctx.fail("texture colour", at + "size");
        if (std::abs(x->width_scale - w / 16.0) > 1e-6 || std::abs(x->height_scale - h / 8.0) > 1e-6)
            ctx.fail("texture colour", at + "scale");
        double sq[3], mx = 0;
        for (int c = 0; c < 3; c++)
            sq[c] = 2.0 * rgb[c] * rgb[c] / 65025.0, mx = std::max(mx, sq[c]);
        static const int O[3] = {9, 200, 31};
        for (int c = 0; c < 3; c++) {
            double wv = over ? O[c] : (1 - boost) * rgb[c] + boost * (mx > 1 ? sq[c] / mx : sq[c]) * 255;
            if (std::abs(wv - x->averageColor[c]) > (over ? 0.1 : 2.01))
                ctx.fail("texture colour", at + "average colour " + std::to_string(x->averageColor[c]) + " instead of " + std::to_string(wv));
        }
    }, 64});
    // .wal_json: every key absent, number, string, array; with and without a .wal
    out.push_back({"wal_json", 5 * 5 * 2 * 2 * 2 * 2 * 2, [](uint64_t i, Ctx &ctx) {
        wipe();
        int fl = i % 5, co = i / 5 % 5, haswal = i / 25 % 2, val = i / 50 % 2, size = i / 100 % 2, anim = i / 200 % 2, color = i / 400;
        ctx.nontrivial(i);
        std::string j = "{", sep;
        auto key = [&](const std::string &s) { j += sep + s, sep = ", "; };
        static const char *FL[5] = {"", "\"flags\": 20", "\"flags\": \"Sky\"", "\"flags\": [\"slick\", 16, \"HINT\"]", "\"flags\": []"};
        static const int FV[5] = {-1, 20, 4, 2 | 16 | 256, 0};
        static const char *CO[5] = {"", "\"contents\": 24", "\"contents\": \"lava\"", "\"contents\": [ \"SOLID\", 8, \"DETAIL\" ]", "\"contents\": []"};
        static const int CV[5] = {-1, 24, 8, 1 | 8 | 0x8000000, 0};
        if (fl)
            key(FL[fl]);
        if (co)
            key(CO[co]);
        if (val)
            key("\"value\": 1234");
        if (size)
            key("\"width\": 64, \"height\": 32");
        if (anim)
            key("\"animation\": \"e1u1/other\"");
        if (color)
            key("\"color\": [255, 128, 64]");
        j += "}";
        for (auto name : {"e1u1/comp", "e1u1/comp.old", "plain"}) {
            wipe();
            put(std::string("textures/") + name + ".wal_json", Bytes(j.begin(), j.end()));
            if (haswal)
                put(std::string("textures/") + name + ".wal", wal({16, 8, 0, "e1u1/next", 0x21, 0x10000002, 55, 1}));
            settings::common_settings opt;
            auto [m, pos, data] = img::load_texture_meta(name, game(GAME_QUAKE_II), opt);
            std::string at = std::string(name) + ".wal_json " + j + (haswal ? " with a wal" : "");
            if (!m) {
                ctx.fail("wal_json", at + " is refused");
                continue;
            }
            unsigned W = size ? 64 : haswal ? 16 : 0, H = size ? 32 : haswal ? 8 : 0;
            if (m->width != W || m->height != H)
                ctx.fail("wal_json size", at + ": size " + std::to_string(m->width) + "x" + std::to_string(m->height));
            int F = fl ? FV[fl] : haswal ? 0x21 : 0;
            if (m->flags.native != F)
                ctx.fail("wal_json flags", at + ": flags " + std::to_string(m->flags.native));
            unsigned C = co ? CV[co] : haswal ? 0x10000002 : 0;
            if (m->contents_native != C)
                ctx.fail("wal_json contents", at + ": contents " + std::to_string(m->contents_native));
            if (m->value != (val ? 1234 : haswal ? 55 : 0))
                ctx.fail("wal_json value", at + ": value " + std::to_string(m->value));
            if (m->animation != (anim ? "e1u1/other" : haswal ? "e1u1/next" : ""))
                ctx.fail("wal_json animation", at + ": animation " + m->animation);
            if (color ? !m->color_override || (*m->color_override)[0] != 255 || (*m->color_override)[1] != 128 || (*m->color_override)[2] != 64 : (bool)m->color_override)
                ctx.fail("wal_json color", at + ": colour");
        }
        // damaged json is refused
        for (size_t c = 1; c < j.size(); c += 7) {
            Bytes b(j.begin(), j.begin() + c);
            if (img::load_wal_json_meta("x", b, game(GAME_QUAKE_II)))
                ctx.fail("wal_json damage", "json cut to " + std::to_string(c) + " bytes is accepted");
        }
    }, 8});
    // which of several files of a texture is taken
    out.push_back({"order of image formats", 64 * 2, [](uint64_t i, Ctx &ctx) {
        wipe();
        static const char *SUF[5] = {".png", ".tga", ".wal", ".mip", ""};
        bool q2 = i / 64;
        ctx.nontrivial(i);
        set_palette(0);
        int want = -1;
        for (int k = 1; k < 5; k++) {
            if (!(i >> k & 1))
                continue;
            std::string p = std::string(q2 ? "textures/" : "") + "wall" + SUF[k];
            unsigned w = 8 * k;
            if (k == 1)
                put(p, tga({2, 24, true, false, w, 8, 0, 0}));
            else if (k == 2)
                put(p, wal({w, 8, 0, "", 0, 0, 0, 0}));
            else
                put(p, mip(w, 8, 0, 0, false, 0));
            if (want < 0)
                want = k;
        }
        settings::common_settings opt;
        for (int mo = 0; mo < 2; mo++) {
            auto [tex, pos, data] = img::load_texture("wall", mo, game(q2 ? GAME_QUAKE_II : GAME_QUAKE), opt);
            if ((bool)tex != (want >= 0) || (tex && tex->width != 8u * want))
                ctx.fail("format order", "of the files present another is taken");
        }
        auto [tex, pos, data] = img::load_texture("wall", false, game(q2 ? GAME_QUAKE_II : GAME_QUAKE), opt, false, true);
        bool has = i >> 4 & 1;
        if ((bool)tex != has || (tex && tex->width != 32))
            ctx.fail("format order", "asking for a mip gives something else");
    }, 16});
    return out;
}
} // namespace
int main(int argc, char **argv)
{
    logging::mask = logging::flag::NONE;
    return main_(argc, argv, {{"F02", "exploration",
        "every listed size and layout of wal and mip files with every palette index, every tga type, depth, row order, id length and packet form over small sizes, pcx palettes; every truncation and header word replaced by boundary values; textures of bsp files with replacements; every combination of wal_json keys",
        {"png and jpg decoding is third-party code and not enumerated", "tga: right-to-left order is not supported by the library used and left out"},
        f02}});
}
