// Q10: contents and surface rules of every game
#include <mc/explore.hh>
#include <common/bspfile.hh>
#include <common/log.hh>
#include <algorithm>
#include <map>
#include <stdexcept>
#include <optional>
using namespace mc;
namespace
{
using U = uint64_t;
std::vector<const gamedef_t *> games()
{
    std::vector<const gamedef_t *> r;
    for (auto *v : bspversions)
        if (v->game && std::find(r.begin(), r.end(), v->game) == r.end())
            r.push_back(v->game);
    return r;
}
bool q2(const gamedef_t *g) { return g->id == GAME_QUAKE_II; }
contentflags_t C(U f) { return contentflags_t::make(static_cast<contents_int_t>(f)); }
U F(const contentflags_t &c) { return static_cast<U>(c.flags); }
std::string show(U f) { return std::to_string(f); }

const U SOLID = EWT_VISCONTENTS_SOLID, SKY = EWT_VISCONTENTS_SKY, WALL = EWT_VISCONTENTS_DETAIL_WALL, WINDOW = EWT_VISCONTENTS_WINDOW,
        AUX = EWT_VISCONTENTS_AUX, LAVA = EWT_VISCONTENTS_LAVA, SLIME = EWT_VISCONTENTS_SLIME, WATER = EWT_VISCONTENTS_WATER,
        MIST = EWT_VISCONTENTS_MIST, ORIGIN = EWT_INVISCONTENTS_ORIGIN, PCLIP = EWT_INVISCONTENTS_PLAYERCLIP,
        MCLIP = EWT_INVISCONTENTS_MONSTERCLIP, APORT = EWT_INVISCONTENTS_AREAPORTAL, VISB = EWT_INVISCONTENTS_ILLUSIONARY_VISBLOCKER,
        DETAIL = EWT_CFLAG_DETAIL, MIRROR = EWT_CFLAG_MIRROR_INSIDE, MIRRORSET = EWT_CFLAG_MIRROR_INSIDE_SET,
        NOCLIPSAME = EWT_CFLAG_SUPPRESS_CLIPPING_SAME_TYPE, TRANS = EWT_CFLAG_TRANSLUCENT;
const U LIQ = LAVA | SLIME | WATER;
// strongest first
const std::vector<U> VIS = {SOLID, SKY, WALL, WINDOW, AUX, LAVA, SLIME, WATER, MIST};
const U ALLVIS = SOLID | SKY | WALL | WINDOW | AUX | LAVA | SLIME | WATER | MIST;
const U INVIS = ORIGIN | PCLIP | MCLIP | APORT | VISB;
U strongest(U f)
{
    for (U v : VIS)
        if (f & v)
            return v;
    return 0;
}
struct Native
{
    int bit;
    U common;
    const char *name;
};
// Quake 2 contents bits, from the game's q_shared.h
const std::vector<Native> Q2BITS = {{0, SOLID, "SOLID"}, {1, WINDOW, "WINDOW"}, {2, AUX, "AUX"}, {3, LAVA, "LAVA"}, {4, SLIME, "SLIME"},
    {5, WATER, "WATER"}, {6, MIST, "MIST"}, {7, EWT_CFLAG_Q2_UNUSED_7, nullptr}, {8, EWT_CFLAG_Q2_UNUSED_8, nullptr},
    {9, EWT_CFLAG_Q2_UNUSED_9, nullptr}, {10, EWT_CFLAG_Q2_UNUSED_10, nullptr}, {11, EWT_CFLAG_Q2_UNUSED_11, nullptr},
    {12, EWT_CFLAG_Q2_UNUSED_12, nullptr}, {13, EWT_CFLAG_Q2_UNUSED_13, nullptr}, {14, EWT_CFLAG_Q2_UNUSED_14, nullptr},
    {15, APORT, "AREAPORTAL"}, {16, PCLIP, "PLAYERCLIP"}, {17, MCLIP, "MONSTERCLIP"}, {18, EWT_CFLAG_CURRENT_0, "CURRENT_0"},
    {19, EWT_CFLAG_CURRENT_90, "CURRENT_90"}, {20, EWT_CFLAG_CURRENT_180, "CURRENT_180"}, {21, EWT_CFLAG_CURRENT_270, "CURRENT_270"},
    {22, EWT_CFLAG_CURRENT_UP, "CURRENT_UP"}, {23, EWT_CFLAG_CURRENT_DOWN, "CURRENT_DOWN"}, {24, ORIGIN, "ORIGIN"},
    {25, EWT_CFLAG_MONSTER, "MONSTER"}, {26, EWT_CFLAG_DEADMONSTER, "DEADMONSTER"}, {27, DETAIL, "DETAIL"}, {28, TRANS, "TRANSLUCENT"},
    {29, EWT_CFLAG_LADDER, "LADDER"}, {30, EWT_CFLAG_Q2_UNUSED_30, nullptr}, {31, EWT_CFLAG_Q2_UNUSED_31, nullptr}};
U q2common(uint32_t n)
{
    U r = 0;
    for (auto &b : Q2BITS)
        if (n >> b.bit & 1)
            r |= b.common;
    return r;
}
const std::map<int, U> Q1NATIVE = {{-1, 0}, {-2, SOLID}, {-3, WATER}, {-4, SLIME}, {-5, LAVA}, {-6, SKY}};

void expect(Ctx &ctx, const gamedef_t *g, const char *what, bool got, bool want, U a, U b = ~0ull, const char *more = "")
{
    ctx.count("questions");
    if (got == want)
        return;
    std::string s = std::string(g->friendly_name) + ": " + what + " " + more + "of " + show(a);
    if (b != ~0ull)
        s += " and " + show(b);
    ctx.fail(std::string(what) + " " + g->friendly_name, s + " is " + (got ? "true" : "false") + ", the game's rule says " + (want ? "true" : "false"));
}
void expectf(Ctx &ctx, const gamedef_t *g, const char *what, U got, U want, U a, U b = ~0ull)
{
    ctx.count("questions");
    if (got == want)
        return;
    std::string s = std::string(g->friendly_name) + ": " + what + " of " + show(a);
    if (b != ~0ull)
        s += " and " + show(b);
    ctx.fail(std::string(what) + " " + g->friendly_name, s + " is " + show(got) + ", the game's rule says " + show(want));
}

void unary(Ctx &ctx, const gamedef_t *g, U f)
{
    auto c = C(f);
    U s = strongest(f);
    ctx.nontrivial(hcomb(f, g->id));
    expectf(ctx, g, "visible_contents", F(c.visible_contents()), s, f);
    {
        int want = -1;
        for (size_t i = 0; i < VIS.size(); i++)
            if (VIS[i] == s)
                want = (int)i;
        if (c.visible_contents_index() != want)
            ctx.fail("visible_contents_index", "visible_contents_index of " + show(f) + " is " + std::to_string(c.visible_contents_index()));
    }
    bool det = f & DETAIL;
    expect(ctx, g, "is_any_detail", c.is_any_detail(g), det, f);
    expect(ctx, g, "is_any_solid", c.is_any_solid(g), f & SOLID, f);
    expect(ctx, g, "is_solid", c.is_solid(g), (f & SOLID) && !det, f);
    expect(ctx, g, "is_detail_solid", c.is_detail_solid(g), (f & SOLID) && det, f);
    expect(ctx, g, "is_sky", c.is_sky(g), !q2(g) && (f & SKY), f);
    expect(ctx, g, "is_origin", c.is_origin(g), f & ORIGIN, f);
    expect(ctx, g, "is_clip", c.is_clip(g), q2(g) ? (f & (PCLIP | MCLIP)) != 0 : (f & PCLIP) != 0, f);
    if (!(f & SOLID)) {
        expect(ctx, g, "is_detail_wall", c.is_detail_wall(g), det && (f & WALL), f);
        expect(ctx, g, "is_detail_fence", c.is_detail_fence(g), det && (f & WINDOW), f);
        if (!(f & AUX))
            expect(ctx, g, "is_detail_illusionary", c.is_detail_illusionary(g), det && (f & MIST), f);
    }
    if (!(f & (APORT | MCLIP | VISB)))
        expect(ctx, g, "is_empty", c.is_empty(g), !(f & (ALLVIS | INVIS)), f);
    if (f & ALLVIS)
        expect(ctx, g, "is_empty", c.is_empty(g), false, f);
    if (!(f & APORT))
        expect(ctx, g, "is_liquid", c.is_liquid(g), q2(g) ? (f & LIQ) != 0 : (s & LIQ) != 0, f);
    expect(ctx, g, "seals_map", g->contents_seals_map(c), ((f & SOLID) && !det) || (!q2(g) && (f & SKY)), f);
    for (int tw = 0; tw < 2; tw++) {
        bool want = q2(g) ? s && !(f & TRANS) : (s == SOLID || s == SKY || s == WALL || ((s & LIQ) && !tw));
        expect(ctx, g, "is_opaque", g->contents_are_opaque(c, tw), want, f, ~0ull, tw ? "with transparent water " : "");
    }
    // detail
    expectf(ctx, g, "clear_detail", F(g->clear_detail(c)), f & ~DETAIL, f);
    expectf(ctx, g, "set_detail", F(g->set_detail(c)), f | DETAIL, f);
    // the detail variants are what they are called
    auto ds = g->create_detail_solid_contents(c), dw = g->create_detail_wall_contents(c), df = g->create_detail_fence_contents(c),
         di = g->create_detail_illusionary_contents(c);
    expect(ctx, g, "is_detail_solid", ds.is_detail_solid(g), true, F(ds));
    expect(ctx, g, "is_detail_wall", dw.is_detail_wall(g) && !dw.is_any_solid(g), true, F(dw));
    expect(ctx, g, "is_detail_fence", df.is_detail_fence(g) && !df.is_any_solid(g), true, F(df));
    expect(ctx, g, "is_detail_illusionary", di.is_detail_illusionary(g) && !di.is_any_solid(g), true, F(di));
    for (auto *v : {&ds, &dw, &df, &di}) {
        bool sealed = g->contents_seals_map(*v);
        bool may = !q2(g) && (F(*v) & SKY);
        expect(ctx, g, "seals_map", sealed && !may, false, F(*v));
    }
    // extended flags
    for (int m = 0; m < 3; m++) {
        auto x = c;
        std::optional<bool> v;
        if (m)
            v = m == 2;
        x.set_mirrored(v);
        if (x.mirror_inside() != v || (F(x) & ~(MIRROR | MIRRORSET)) != (f & ~(MIRROR | MIRRORSET)))
            ctx.fail("set_mirrored", "set_mirrored of " + show(f) + " gives " + show(F(x)));
        auto y = C(f & ~NOCLIPSAME);
        y.set_clips_same_type(v);
        bool supp = F(y) & NOCLIPSAME;
        if (supp != (m == 1) || (F(y) & ~NOCLIPSAME) != (f & ~NOCLIPSAME))
            ctx.fail("set_clips_same_type", "set_clips_same_type of " + show(f) + " gives " + show(F(y)));
    }
    // export
    auto leaf = g->contents_remap_for_export(c, gamedef_t::remap_type_t::leaf);
    auto brush = g->contents_remap_for_export(c, gamedef_t::remap_type_t::brush);
    if (q2(g)) {
        if (f & WALL)
            expectf(ctx, g, "remap leaf", F(leaf), SOLID, f);
        else
            expectf(ctx, g, "remap leaf", F(leaf), f & SOLID ? SOLID : f, f);
        expectf(ctx, g, "remap brush", F(brush), f & WALL ? SOLID : f, f);
    } else {
        // as the engine sees it: solid wins (walls and fences are solid), then
        // sky, then the strongest liquid, and everything else is air
        bool representable = true;
        U o = f & SOLID ? SOLID : f & SKY ? SKY : 0;
        int want = 0;
        bool det_solid = det && (f & (WALL | WINDOW));
        if ((f & SOLID) || det_solid)
            want = -2;
        else if (o == SKY)
            want = -6;
        else if (f & (WALL | WINDOW | AUX))
            representable = false;
        else
            want = f & LAVA ? -5 : f & SLIME ? -4 : f & WATER ? -3 : -1;
        if (representable) {
            for (auto *r : {&leaf, &brush}) {
                int n = 12345;
                try {
                    n = g->contents_to_native(*r);
                } catch (const std::exception &e) {
                    ctx.fail("export", std::string(g->friendly_name) + ": " + show(f) + " cannot be exported: " + e.what());
                    continue;
                }
                ctx.count("exports");
                if (n != want)
                    ctx.fail("export", std::string(g->friendly_name) + ": " + show(f) + " is written as " + std::to_string(n) + " instead of " + std::to_string(want));
            }
        }
    }
    if (q2(g) && !(F(leaf) & (SKY | WALL | VISB))) {
        int32_t n = g->contents_to_native(leaf);
        uint32_t w = 0;
        for (auto &b : Q2BITS)
            if (F(leaf) & b.common)
                w |= 1u << b.bit;
        if ((uint32_t)n != w)
            ctx.fail("to_native quake2", "quake2: " + show(F(leaf)) + " is written as " + std::to_string((uint32_t)n) + " instead of " + std::to_string(w));
    }
}

void binary(Ctx &ctx, const gamedef_t *g, U a, U b)
{
    auto ca = C(a), cb = C(b);
    bool Q2 = q2(g);
    auto structural = [](U f) { return (f & SOLID) && !(f & DETAIL); };
    {
        U want;
        if (structural(a) || structural(b))
            want = SOLID;
        else if (!Q2 && ((a | b) & SKY))
            want = SKY;
        else
            want = a | b;
        U got = F(g->combine_contents(ca, cb));
        if (got != want)
            ctx.fail(std::string("combine_contents ") + g->friendly_name, std::string(g->friendly_name) + ": " + show(a) + " and " + show(b) + " combine to " + show(got) + " instead of " + show(want));
    }
    {
        U want = (a | b) & ~(a & b & SOLID ? 0 : SOLID);
        U got = F(g->cluster_contents(ca, cb));
        if (got != want)
            ctx.fail(std::string("cluster_contents ") + g->friendly_name, std::string(g->friendly_name) + ": a cluster of " + show(a) + " and " + show(b) + " is " + show(got) + " instead of " + show(want));
    }
    for (int tw = 0; tw < 2; tw++) {
        bool want;
        if ((a | b) & SOLID)
            want = false;
        else if (!((a ^ b) & ALLVIS))
            want = true;
        else {
            // what can be seen through counts as air
            auto air = [&](U f) { return (f & DETAIL) || (Q2 ? (f & TRANS) != 0 : tw && (f & LIQ)); };
            U va = air(a) ? 0 : a & ALLVIS, vb = air(b) ? 0 : b & ALLVIS;
            want = va == vb;
        }
        bool got = g->portal_can_see_through(ca, cb, tw);
        if (got != want)
            ctx.fail(std::string("portal_can_see_through ") + g->friendly_name, std::string(g->friendly_name) + ": a portal from " + show(a) + " to " + show(b) + (tw ? " with transparent water" : "") + (got ? " is" : " is not") + " seen through");
    }
    {
        U want;
        if (!Q2 && (a & (SOLID | SKY)) && (b & (SOLID | SKY)))
            want = 0;
        else
            want = strongest((a | b) & NOCLIPSAME ? a | b : a ^ b);
        U got = F(g->portal_visible_contents(ca, cb));
        if (got != want)
            ctx.fail(std::string("portal_visible_contents ") + g->friendly_name, std::string(g->friendly_name) + ": between " + show(a) + " and " + show(b) + " the visible contents are " + show(got) + " instead of " + show(want));
    }
    ctx.count("pairs");
}

void faces(Ctx &ctx, const gamedef_t *g, U portal, U brush)
{
    for (int back = 0; back < 2; back++) {
        bool want;
        if (!portal || !(brush & portal))
            want = false;
        else if (!back)
            want = true;
        else if (brush & MIRRORSET)
            want = brush & MIRROR;
        else if (q2(g))
            want = !(portal & (WINDOW | AUX));
        else
            want = (brush & LIQ) != 0;
        bool got = g->portal_generates_face(C(portal), C(brush), back ? SIDE_BACK : SIDE_FRONT);
        expect(ctx, g, "portal_generates_face", got, want, portal, brush, back ? "(back) " : "(front) ");
    }
}

std::vector<std::string> cases(const std::string &s)
{
    std::string up = s, alt = s;
    for (auto &c : up)
        c = toupper(c);
    for (size_t i = 0; i < alt.size(); i += 2)
        alt[i] = toupper(alt[i]);
    return {s, up, alt};
}
// Q1-like texture names: stems, with every kind of decoration
U q1tex(const std::string &t)
{
    std::string l = t;
    for (auto &c : l)
        c = tolower(c);
    if (l == "origin")
        return ORIGIN;
    if (l == "hint" || l == "hintskip")
        return 0;
    if (l == "clip")
        return PCLIP;
    if (!l.empty() && l[0] == '*') {
        if (l.compare(1, 4, "lava") == 0)
            return LAVA;
        if (l.compare(1, 5, "slime") == 0)
            return SLIME;
        return WATER;
    }
    if (l.compare(0, 3, "sky") == 0)
        return SKY;
    return SOLID;
}

std::vector<Space> q10(Tier t)
{
    std::vector<Space> out;
    auto gs = games();
    bool T = t == Tier::thorough;
    out.push_back({"native numbers round trip (Quake family)", gs.size(), [gs](uint64_t i, Ctx &ctx) {
        auto *g = gs[i];
        if (q2(g))
            return;
        for (int n = -300; n <= 300; n++) {
            std::optional<U> got;
            try {
                got = F(g->create_contents_from_native(n));
            } catch (const std::exception &) {
            }
            ctx.count("values");
            ctx.nontrivial(hcomb(n, i));
            auto it = Q1NATIVE.find(n);
            if (it == Q1NATIVE.end()) {
                // a value the common form has no name for may be refused but not changed
                if (got && g->contents_to_native(C(*got)) != n)
                    ctx.fail("native", std::string(g->friendly_name) + ": " + std::to_string(n) + " becomes " + std::to_string(g->contents_to_native(C(*got))));
                continue;
            }
            if (!got || *got != it->second || g->contents_to_native(C(*got)) != n)
                ctx.fail("native", std::string(g->friendly_name) + ": contents " + std::to_string(n) + " become " + (got ? show(*got) : "refused"));
        }
        // the values the tools create themselves
        if (F(g->create_empty_contents()) || F(g->create_solid_contents()) != SOLID)
            ctx.fail("create", "empty or solid contents are wrong");
    }, 1});
    // Quake 2: all sets of at most three bits, and their complements; all values thorough
    std::vector<uint32_t> vals;
    for (int a = 0; a < 32; a++)
        for (int b = a; b < 32; b++)
            for (int c = b; c < 32; c++) {
                uint32_t v = 1u << a | 1u << b | 1u << c;
                vals.push_back(v);
                vals.push_back(~v);
            }
    vals.push_back(0);
    vals.push_back(~0u);
    auto one = [gs](uint32_t v, Ctx &ctx) {
        for (auto *g : gs) {
            if (!q2(g))
                continue;
            U got = F(g->create_contents_from_native((int32_t)v));
            U want = q2common(v);
            int32_t back = g->contents_to_native(C(got));
            if (got != want || (uint32_t)back != v)
                ctx.fail("native quake2", "quake2: contents " + std::to_string(v) + " become " + show(got) + " and back " + std::to_string((uint32_t)back));
        }
    };
    out.push_back({"native numbers round trip (Quake 2, <=3 bits and complements)", vals.size(), [vals, one](uint64_t i, Ctx &ctx) {
        ctx.nontrivial(vals[i]);
        one(vals[i], ctx);
    }, 4096});
    if (T)
        out.push_back({"native numbers round trip (Quake 2, all 2^32)", 1 << 16, [one](uint64_t i, Ctx &ctx) {
            for (uint32_t k = 0; k < 65536; k++)
                one((uint32_t)(i << 16 | k), ctx);
            ctx.count("values", 65536);
        }, 256, 300});
    // questions about one value: every subset of visible, invisible contents and the flags the rules use
    out.push_back({"rules for one value", gs.size() << 18, [gs](uint64_t i, Ctx &ctx) {
        auto *g = gs[i >> 18];
        U k = i & 0x3ffff;
        U f = k & 0x7fff; // nine visible, five invisible, detail
        if (k & 0x8000)
            f |= TRANS;
        if (k & 0x10000)
            f |= NOCLIPSAME;
        if (k & 0x20000)
            f |= MIRRORSET | MIRROR;
        unary(ctx, g, f);
    }, 4096});
    // pairs: visible contents x {areaportal, detail, translucent, noclipfaces}
    const int nb = T ? 13 : 12;
    out.push_back({"rules for two values", gs.size() << nb, [gs, nb](uint64_t i, Ctx &ctx) {
        auto *g = gs[i >> nb];
        auto val = [](U k) {
            U f = k & 0x1ff;
            if (k & 0x200)
                f |= DETAIL;
            if (k & 0x400)
                f |= TRANS;
            if (k & 0x800)
                f |= APORT;
            if (k & 0x1000)
                f |= NOCLIPSAME;
            return f;
        };
        U a = val(i & ((1 << nb) - 1));
        ctx.nontrivial(hcomb(i, 77));
        for (U j = 0; j < (1u << nb); j++)
            binary(ctx, g, a, val(j));
    }, 64, 120});
    out.push_back({"rules for two values with suppressed clipping", gs.size() << 10, [gs](uint64_t i, Ctx &ctx) {
        auto *g = gs[i >> 10];
        U a = i & 0x1ff;
        if (i & 0x200)
            a |= NOCLIPSAME;
        for (U j = 0; j < 512; j++) {
            binary(ctx, g, a, j);
            binary(ctx, g, a, j | NOCLIPSAME);
            // same-type clipping: equal types, unless suppressed
            bool want = (a & ALLVIS) == j && !(a & NOCLIPSAME);
            if (a == j || q2(g) || (a & ALLVIS) != j)
                if (C(a).will_clip_same_type(g, C(j)) != want)
                    ctx.fail("will_clip_same_type", std::string(g->friendly_name) + ": " + show(a) + " and " + show(j));
        }
    }, 64, 120});
    out.push_back({"which side of a brush is drawn", gs.size() * 10, [gs](uint64_t i, Ctx &ctx) {
        auto *g = gs[i / 10];
        U p = i % 10 == 9 ? 0 : VIS[i % 10];
        ctx.nontrivial(i);
        for (U v : VIS)
            for (U d : {(U)0, DETAIL})
                for (U m : {(U)0, MIRRORSET, MIRRORSET | MIRROR})
                    faces(ctx, g, p, v | d | m);
    }, 1});
    // texture names
    std::vector<std::string> names;
    for (auto stem : {"origin", "hint", "hintskip", "clip", "sky", "*lava", "*slime", "*water", "*", "*teleport", "*tele", "*lav", "*slim", "skip", "trigger", "wall", "hin", "hints", "cli", "sk", "origi", "waterfall", "lava", "slime", ""})
        for (auto suffix : {"", "1", "_x", " "})
            for (auto prefix : {"", "a", "*", "+0"})
                for (auto &s : cases(std::string(prefix) + stem + suffix))
                    names.push_back(s);
    out.push_back({"texture names (Quake family)", gs.size() * names.size(), [gs, names](uint64_t i, Ctx &ctx) {
        auto *g = gs[i / names.size()];
        if (q2(g))
            return;
        auto &n = names[i % names.size()];
        ctx.nontrivial(i);
        for (U orig : {(U)0, WATER, DETAIL | SOLID}) {
            U got = F(g->face_get_contents(n, {}, C(orig)));
            if (got != q1tex(n))
                ctx.fail("face_get_contents", std::string(g->friendly_name) + ": texture \"" + n + "\" has contents " + show(got) + " instead of " + show(q1tex(n)));
        }
        std::string l = n;
        for (auto &c : l)
            c = tolower(c);
        for (int special = 0; special < 2; special++) {
            surfflags_t fl{};
            fl.native = special ? TEX_SPECIAL : 0;
            bool lit = g->surf_is_lightmapped(fl, n.c_str(), false, false);
            if (lit != (!special && l != "trigger" && l != "skip"))
                ctx.fail("surf_is_lightmapped", std::string(g->friendly_name) + ": texture \"" + n + "\"" + (special ? " (special)" : "") + (lit ? " gets" : " does not get") + " a lightmap");
            if (g->surf_is_subdivided(fl) != !special)
                ctx.fail("surf_is_subdivided", "special faces are subdivided");
            if (g->surf_is_emissive(fl, n.c_str()) != (l != "trigger"))
                ctx.fail("surf_is_emissive", "emission of " + n);
            if (g->texinfo_is_hintskip(fl, n) != (l != "hint"))
                ctx.fail("texinfo_is_hintskip", "hintskip of " + n);
        }
    }, 512});
    // Quake 2 faces: surface flags x declared contents
    struct SB
    {
        int v;
    };
    static const std::vector<int> SB_ = {Q2_SURF_LIGHT, Q2_SURF_SLICK, Q2_SURF_SKY, Q2_SURF_WARP, Q2_SURF_TRANS33, Q2_SURF_TRANS66, Q2_SURF_FLOWING, Q2_SURF_NODRAW, Q2_SURF_HINT, Q2_SURF_SKIP, Q2_SURF_ALPHATEST};
    static const std::vector<U> CB_ = {SOLID, WINDOW, AUX, LAVA, SLIME, WATER, MIST, APORT, PCLIP, MCLIP, ORIGIN, DETAIL, TRANS};
    out.push_back({"surface flags (Quake 2)", 1u << SB_.size(), [gs](uint64_t i, Ctx &ctx) {
        int sf = 0;
        for (size_t k = 0; k < SB_.size(); k++)
            if (i >> k & 1)
                sf |= SB_[k];
        ctx.nontrivial(i);
        for (auto *g : gs) {
            if (!q2(g))
                continue;
            surfflags_t fl{};
            fl.native = sf;
            for (U k = 0; k < (1u << CB_.size()); k++) {
                U f = 0;
                for (size_t q = 0; q < CB_.size(); q++)
                    if (k >> q & 1)
                        f |= CB_[q];
                U want;
                if (sf & (Q2_SURF_HINT | Q2_SURF_SKIP))
                    want = 0;
                else {
                    want = f;
                    if (!(f & (ALLVIS | INVIS)))
                        want |= SOLID;
                    if (sf & (Q2_SURF_TRANS33 | Q2_SURF_TRANS66 | Q2_SURF_ALPHATEST)) {
                        want |= TRANS;
                        if (want & SOLID)
                            want = (want & ~SOLID) | WINDOW;
                    }
                    if (want & (TRANS | MIST | AUX | PCLIP | MCLIP))
                        want |= DETAIL;
                }
                U got = F(g->face_get_contents("e1u1/x", fl, C(f)));
                ctx.count("faces");
                if (got != want)
                    ctx.fail("face_get_contents quake2", "quake2: a face with surface flags " + std::to_string(sf) + " and contents " + show(f) + " has contents " + show(got) + " instead of " + show(want));
            }
            for (int nd = 0; nd < 2; nd++)
                for (int lg = 0; lg < 2; lg++)
                    for (auto n : {"e1u1/wall", "e1u1/trigger", "trigger"}) {
                        bool want;
                        if (std::string(n) == "e1u1/trigger")
                            want = false;
                        else if (nd && (sf & Q2_SURF_NODRAW))
                            want = true;
                        else if (lg && (sf & Q2_SURF_SKY))
                            want = false;
                        else
                            want = !(sf & (Q2_SURF_NODRAW | Q2_SURF_SKIP));
                        if (g->surf_is_lightmapped(fl, n, nd, lg) != want)
                            ctx.fail("surf_is_lightmapped quake2", "quake2: surface flags " + std::to_string(sf) + " texture " + n + " lightmap " + (want ? "missing" : "unwanted"));
                    }
            if (g->texinfo_is_hintskip(fl, "x") != !(sf & Q2_SURF_HINT) || g->surf_is_subdivided(fl) != !(sf & Q2_SURF_SKY))
                ctx.fail("surface rule quake2", "quake2: surface flags " + std::to_string(sf));
            for (size_t k = 0; k < SB_.size(); k++) {
                surfflags_t o = fl;
                o.native ^= SB_[k];
                bool m = SB_[k] & (Q2_SURF_SKY | Q2_SURF_WARP | Q2_SURF_TRANS33 | Q2_SURF_TRANS66 | Q2_SURF_FLOWING | Q2_SURF_NODRAW);
                if (g->surfflags_may_phong(fl, o) != !m || g->surfflags_may_phong(o, fl) != !m)
                    ctx.fail("may_phong quake2", "quake2: faces differing in surface flag " + std::to_string(SB_[k]));
            }
        }
    }, 16, 120});
    out.push_back({"names of contents and surface flags (Quake 2)", 1, [gs](uint64_t, Ctx &ctx) {
        static const std::vector<std::pair<const char *, int>> S = {{"light", 1}, {"slick", 2}, {"sky", 4}, {"warp", 8}, {"trans33", 16}, {"trans66", 32}, {"flowing", 64}, {"nodraw", 128}, {"hint", 256}, {"512", 512}, {"1024", 1024}, {"alphatest", 1 << 25}};
        for (auto *g : gs) {
            if (!q2(g))
                continue;
            for (auto &b : Q2BITS) {
                std::string n = b.name ? b.name : std::to_string(1u << b.bit);
                for (auto &s : cases(n)) {
                    ctx.nontrivial(hstr(s));
                    if ((uint32_t)g->contents_from_string(s) != 1u << b.bit)
                        ctx.fail("contents_from_string", "quake2: \"" + s + "\" is read as " + std::to_string(g->contents_from_string(s)));
                }
            }
            for (auto &[n, v] : S)
                for (auto &s : cases(n))
                    if (g->surfflags_from_string(s) != v)
                        ctx.fail("surfflags_from_string", "quake2: \"" + s + "\" is read as " + std::to_string(g->surfflags_from_string(s)));
        }
    }, 1});
    // the hulls of each game, from the engines
    out.push_back({"player boxes", gs.size(), [gs](uint64_t i, Ctx &ctx) {
        auto *g = gs[i];
        using H = std::vector<std::array<int, 6>>;
        static const std::map<int, H> want = {
            {GAME_QUAKE, {{0, 0, 0, 0, 0, 0}, {-16, -16, -32, 16, 16, 24}, {-32, -32, -64, 32, 32, 24}}},
            // hull 3 of Hexen II: half as high as the player, hull 4 and 5 as the docs of the tools have them
            {GAME_HEXEN_II, {{0, 0, 0, 0, 0, 0}, {-16, -16, -32, 16, 16, 24}, {-24, -24, -20, 24, 24, 20}, {-16, -16, -16, 16, 16, 12}, {-8, -8, -8, 8, 8, 8}, {-28, -28, -40, 28, 28, 40}}},
            {GAME_HALF_LIFE, {{0, 0, 0, 0, 0, 0}, {-16, -16, -36, 16, 16, 36}, {-32, -32, -32, 32, 32, 32}, {-16, -16, -18, 16, 16, 18}}},
            {GAME_QUAKE_II, {}}};
        auto it = want.find(g->id);
        if (it == want.end())
            return;
        size_t k = 0;
        bool ok = g->get_hull_sizes().size() == it->second.size();
        for (auto &h : g->get_hull_sizes()) {
            if (!ok)
                break;
            for (int a = 0; a < 3; a++)
                ok = ok && h.mins()[a] == it->second[k][a] && h.maxs()[a] == it->second[k][a + 3];
            k++;
        }
        ctx.nontrivial(i);
        if (!ok)
            ctx.fail("hull sizes", std::string(g->friendly_name) + ": the player boxes are not the engine's");
    }, 1});
    return out;
}
} // namespace
int main(int argc, char **argv)
{
    logging::mask = logging::flag::NONE;
    return main_(argc, argv, {{"Q10", "exploration",
        "every subset of the contents bits the rules consult, every pair of subsets of the visible bits with detail, translucent and areaportal, every Quake 2 native number of up to three bits and its complement (all 2^32 thorough), every surface flag set, every listed texture name and case",
        {"oracle: the rules of the original tools and engines, restated as set operations"},
        q10}});
}
