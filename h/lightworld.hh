// Small scenes lit in-process by the real light, and what each luxel of them has
// to hold: the documented light formulas over exact box geometry.
#pragma once
#include "qworld.hh"
#include <light/light.hh>
#include <vis/vis.hh>
#include <light/write.hh>
#include <common/bsputils.hh>
#include <common/entdata.h>
#include <common/bspxfile.hh>
#include <common/fs.hh>
#include <common/imglib.hh>

namespace lw
{
using namespace qw;
struct Light
{
    I3 at;
    double light = 300, wait = 1, falloff = 0, angle = 0, soft = 0, anglescale = -1;
    int delay = 0, style = 0, lmask = 1, smask = -1, spot = 0; // spot: 1 mangle, 2 target
    D3 color{255, 255, 255};
    I3 aim{0, 0, -90}; // mangle (yaw pitch roll), or the target's place
    std::string targetname;
    bool nostatic = false, bleed = false;
    bool sun = false;
    std::string raw; // keys that change nothing here
};
// what a box does to light
enum Kind
{
    K_WORLD, // every solid world brush, detail included
    K_NOSHADOW, // passes light
    K_SHADOW, // bmodel that casts
    K_SELF,
    K_WORLDONLY,
    K_SWITCH,
    K_LIQUID,
};
struct Blk
{
    I3 mn, mx;
    Type type = SOLID; // world types
    bool bmodel = false;
    int model = -1; // several boxes in one model
    Kind kind = K_WORLD;
    int mask = 1;
    I3 off{0, 0, 0}; // origin key of the bmodel
    double minlight = 0;
    bool lightignore = false;
    std::string keys, cls = "func_wall";
};
struct Scene
{
    I3 lo{-96, -80, -64}, hi{96, 80, 64};
    int wall[6] = {SOLID, SOLID, SOLID, SOLID, SOLID, SOLID};
    std::vector<Blk> b;
    std::vector<Light> l;
    std::vector<Box> extra; // more world boxes (doors, partitions)
    std::string worldkeys;
    double dist = 1, range = 0.5, gamma = 1, anglescale = 0.5, minlight = 0, maxlight = 0, colorscale = 1;
    D3 mincolor{255, 255, 255};
    bool addmin = false;
    // the worldspawn sun
    double sunlight = 0;
    D3 suncolor{255, 255, 255}, sunmangle{0, -90, 0};
    int extrasamp = 1, soft = 0;
    double cone = 20; // half of a spotlight's default angle; 10 in Quake 2
};
inline std::string num(double v)
{
    char b[40];
    snprintf(b, sizeof b, "%.9g", v);
    return b;
}
inline std::string kv(const char *k, const std::string &v) { return std::string("\"") + k + "\" \"" + v + "\"\n"; }
inline std::string v3(const D3 &v) { return num(v[0]) + " " + num(v[1]) + " " + num(v[2]); }
inline std::string iv3(const I3 &v) { return std::to_string(v[0]) + " " + std::to_string(v[1]) + " " + std::to_string(v[2]); }
// bmodel index of each Blk in the compiled map (0: world)
inline Map build(const Scene &s, std::vector<int> &model)
{
    Map m;
    int w[6];
    for (int i = 0; i < 6; i++)
        w[i] = s.wall[i];
    room(m, s.lo, s.hi, 16, w);
    for (auto &e : s.extra)
        m.box.push_back(e);
    m.worldkeys = s.worldkeys;
    if (s.sunlight) {
        m.worldkeys += kv("_sunlight", num(s.sunlight)) + kv("_sun_mangle", v3(s.sunmangle));
        m.worldkeys += kv("_sunlight_color", v3(s.suncolor));
    }
    model.assign(s.b.size(), 0);
    std::map<int, int> shared;
    for (size_t i = 0; i < s.b.size(); i++) {
        auto &b = s.b[i];
        Box x{b.mn, b.mx, b.type};
        x.keys = b.keys;
        if (!b.bmodel) {
            m.box.push_back(x);
            continue;
        }
        if (b.model >= 0 && shared.count(b.model)) {
            model[i] = shared[b.model];
            m.model[model[i] - 1].box.push_back(x);
            continue;
        }
        Model mm;
        mm.classname = b.cls;
        mm.keys = b.keys;
        if (b.mask != 1)
            mm.keys += kv("_object_channel_mask", std::to_string(b.mask));
        if (b.off != I3{0, 0, 0})
            mm.keys += kv("origin", iv3(b.off));
        if (b.minlight)
            mm.keys += kv("_minlight", num(b.minlight));
        if (b.lightignore)
            mm.keys += kv("_lightignore", "1");
        switch (b.kind) {
            case K_SHADOW:
                if (b.mask == 1)
                    mm.keys += kv("_shadow", "1");
                break;
            case K_SELF: mm.keys += kv("_shadowself", "1"); break;
            case K_WORLDONLY: mm.keys += kv("_shadowworldonly", "1"); break;
            case K_SWITCH: mm.keys += kv("_switchableshadow", "1"); break;
            default: break;
        }
        mm.keys += kv("box", std::to_string(i));
        mm.box.push_back(x);
        m.model.push_back(mm);
        model[i] = int(m.model.size());
        if (b.model >= 0)
            shared[b.model] = model[i];
    }
    m.pt.push_back({"info_player_start", {(s.lo[0] + s.hi[0]) / 2 + 5, s.lo[1] + 20, s.lo[2] + 30}, ""});
    int n = 0;
    for (auto &l : s.l) {
        std::string k = kv("light", num(l.light)) + kv("which", std::to_string(n)) + l.raw;
        if (l.wait != 1)
            k += kv("wait", num(l.wait));
        if (l.delay)
            k += kv("delay", std::to_string(l.delay));
        if (l.falloff)
            k += kv("_falloff", num(l.falloff));
        if (l.color != D3{255, 255, 255})
            k += kv("_color", v3(l.color));
        if (l.style)
            k += kv("style", std::to_string(l.style));
        if (!l.targetname.empty())
            k += kv("targetname", l.targetname);
        if (l.anglescale >= 0)
            k += kv("_anglescale", num(l.anglescale));
        if (l.lmask != 1)
            k += kv("_light_channel_mask", std::to_string(l.lmask));
        if (l.smask != -1)
            k += kv("_shadow_channel_mask", std::to_string(l.smask));
        if (l.nostatic)
            k += kv("_nostaticlight", "1");
        if (l.bleed)
            k += kv("_bleed", "1");
        if (l.angle)
            k += kv("angle", num(l.angle));
        if (l.soft)
            k += kv("_softangle", num(l.soft));
        if (l.sun)
            k += kv("_sun", "1");
        if (l.spot == 1)
            k += kv("mangle", iv3(l.aim));
        if (l.spot == 2) {
            k += kv("target", "aim" + std::to_string(n));
            m.pt.push_back({"info_null", l.aim, kv("targetname", "aim" + std::to_string(n))});
        }
        m.pt.push_back({"light", l.at, k});
        n++;
    }
    return m;
}
struct Bx
{
    mbsp_t bsp;
    std::map<std::string, std::vector<uint8_t>> x;
    std::string error;
    bool rgb = false, q2 = false;
    std::string lit, lux, bytes;
    bool haslit = false, haslux = false;
};
inline Bx load_lit(const std::string &stem)
{
    Bx o;
    o.bytes = slurp(stem + ".bsp");
    fs::path p(stem + ".bsp");
    bspdata_t d;
    LoadBSPFile(p, &d);
    o.rgb = d.version->game->has_rgb_lightmap;
    o.q2 = d.version->game->id == GAME_QUAKE_II;
    ConvertBSPFormat(&d, &bspver_generic);
    o.bsp = std::move(std::get<mbsp_t>(d.bsp));
    for (auto &[k, v] : d.bspx.entries)
        o.x[k] = v;
    o.haslit = exists(stem + ".lit");
    o.haslux = exists(stem + ".lux");
    o.lit = slurp(stem + ".lit");
    o.lux = slurp(stem + ".lux");
    return o;
}
inline std::string run_light(const std::vector<std::string> &opts, const std::string &stem = "t")
{
    try {
        logging::mask = bitflags<logging::flag>(logging::flag::NONE);
        std::vector<std::string> a{"light", "-noverbose", "-nopercent", "-nolog"};
        a.insert(a.end(), opts.begin(), opts.end());
        a.push_back(stem + ".bsp");
        light_main(a);
        logging::mask = bitflags<logging::flag>(logging::flag::NONE);
    } catch (std::exception &e) {
        return std::string("refused: ") + e.what();
    }
    return "";
}
inline std::string run_vis(const std::string &stem = "t")
{
    try {
        logging::mask = bitflags<logging::flag>(logging::flag::NONE);
        vis_main({"vis", "-nopercent", "-nostat", "-noprogress", "-nolog", stem + ".bsp"});
    } catch (std::exception &e) {
        return std::string("vis refused: ") + e.what();
    }
    return "";
}
// ------------------------------------------------------------------ reference
struct Iv
{
    double lo = 0, hi = 0;
};
struct Iv3
{
    Iv c[3];
};
inline double dot(const D3 &a, const D3 &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline D3 sub(const D3 &a, const D3 &b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
inline D3 add(const D3 &a, const D3 &b, double k = 1) { return {a[0] + k * b[0], a[1] + k * b[1], a[2] + k * b[2]}; }
inline double len(const D3 &a) { return sqrt(dot(a, a)); }
inline D3 d3(const I3 &a) { return {double(a[0]), double(a[1]), double(a[2])}; }
inline D3 mangle(const D3 &m) // yaw pitch
{
    double y = m[0] * M_PI / 180, p = m[1] * M_PI / 180;
    return {cos(y) * cos(p), sin(y) * cos(p), sin(p)};
}
// 0 clear, 1 blocked, 2 undecided; the part [0, tmax] of p + t d
inline int seg_box(const D3 &p, const D3 &q, const D3 &mn, const D3 &mx)
{
    auto hit = [&](double g) {
        double a = 0, b = 1;
        for (int i = 0; i < 3; i++) {
            double d = q[i] - p[i], l = mn[i] - g, h = mx[i] + g;
            if (fabs(d) < 1e-9) {
                if (p[i] <= l || p[i] >= h)
                    return false;
                continue;
            }
            double t0 = (l - p[i]) / d, t1 = (h - p[i]) / d;
            a = std::max(a, std::min(t0, t1));
            b = std::min(b, std::max(t0, t1));
        }
        return a < b;
    };
    if (!hit(0.1))
        return 0;
    if (hit(-0.1))
        return 1;
    return 2;
}
struct Sample
{
    D3 p; // 1 unit off the face, in the world
    D3 n;
    int model = 0; // 0: world
    int mask = 1;
    bool ignore = false;
    double minlight = 0;
    bool twosided = false;
};
// what a style gets at a sample: [0] unclamped light as an interval
struct Ref
{
    const Scene &s;
    const std::vector<int> &model; // of the blocks
    std::vector<int> lstyle; // of the lights, as written into the bsp
    std::map<int, int> swstyle; // of the models
    struct Wall
    {
        D3 mn, mx;
        int type;
    };
    std::vector<Wall> wall;
    Ref(const Scene &sc, const std::vector<int> &md, const Map &m)
        : s(sc), model(md)
    {
        for (auto &b : m.box)
            wall.push_back({d3(b.mn), d3(b.mx), b.type});
    }
    D3 bmn(size_t i) const { return add(d3(s.b[i].mn), d3(s.b[i].off)); }
    D3 bmx(size_t i) const { return add(d3(s.b[i].mx), d3(s.b[i].off)); }
    // 0 clear 1 blocked 2 undecided; dyn: the style of a switchable shadow met (-1 none, -2 undecided)
    int ray(const D3 &p, const D3 &q, int receiver, int smask, int &dyn) const
    {
        int r = 0;
        dyn = -1;
        if (smask & 1)
            for (auto &w : wall) {
                if (w.type == SKY || w.type == WATER || w.type == ILLUS)
                    continue;
                int h = seg_box(p, q, w.mn, w.mx);
                if (h == 1)
                    return 1;
                if (h)
                    r = 2;
            }
        std::set<int> dy;
        bool dun = false;
        for (size_t i = 0; i < s.b.size(); i++) {
            auto &b = s.b[i];
            if (!b.bmodel)
                continue; // among the walls
            if (b.kind == K_NOSHADOW || b.kind == K_LIQUID)
                continue;
            if (b.kind == K_SELF && model[i] != receiver)
                continue;
            if (b.kind == K_WORLDONLY && receiver != 0)
                continue;
            if (!(b.mask & smask))
                continue;
            int h = seg_box(p, q, bmn(i), bmx(i));
            if (!h)
                continue;
            if (b.kind == K_SWITCH) {
                if (h == 1)
                    dy.insert(swstyle.count(model[i]) ? swstyle.at(model[i]) : -3);
                else
                    dun = true;
                continue;
            }
            if (h == 1)
                return 1;
            r = 2;
        }
        if (dun || dy.size() > 1)
            dyn = -2;
        else if (dy.size() == 1)
            dyn = *dy.begin();
        return r;
    }
    double level(const Light &l, double d) const
    {
        double v = s.dist * l.wait * d;
        switch (l.delay) {
            case 0:
                if (l.falloff > 0)
                    return d < l.falloff ? l.light * (1 - d / l.falloff) : 0;
                return l.light > 0 ? std::max(l.light - v, 0.0) : std::min(l.light + v, 0.0);
            case 1: return l.light * 128 / v;
            case 2: return l.light * 128 * 128 / (v * v);
            case 5: v += 128; return l.light * 128 * 128 / (v * v);
            default: return l.light;
        }
    }
    // unshadowed, before colour; may be an interval close to a cutoff
    Iv direct(const Light &l, const Sample &p) const
    {
        D3 to = sub(d3(l.at), p.p);
        double d = len(to);
        for (auto &c : to)
            c /= d;
        double a = dot(to, p.n);
        bool edge = fabs(a) < 1e-5;
        if (l.bleed || p.twosided)
            a = fabs(a);
        double as = l.anglescale >= 0 ? l.anglescale : s.anglescale;
        double k = a < 0 ? 0 : (1 - as) + as * a;
        double v = level(l, d) * k;
        double sp = 1, splo = 1, sphi = 1;
        if (l.spot) {
            D3 dir = l.spot == 1 ? mangle(d3(l.aim)) : sub(d3(l.aim), d3(l.at));
            double dl = len(dir);
            for (auto &c : dir)
                c /= dl;
            double outer = cos((l.angle > 0 ? l.angle : s.cone * 2) / 2 * M_PI / 180), inner = l.soft ? cos(l.soft / 2 * M_PI / 180) : outer;
            auto f = [&](double c) {
                if (c < outer)
                    return 0.0;
                if (c >= inner)
                    return 1.0;
                return (c - outer) / (inner - outer);
            };
            double c = -dot(dir, to);
            splo = f(c - 2e-5);
            sphi = f(c + 2e-5);
            (void)sp;
        }
        Iv r{v * splo, v * sphi};
        if (v < 0)
            std::swap(r.lo, r.hi);
        if (edge && !l.bleed && !p.twosided) {
            double v2 = level(l, d) * (1 - as);
            r.lo = std::min({r.lo, 0.0, v2 * splo});
            r.hi = std::max({r.hi, 0.0, v2 * sphi});
        }
        return r;
    }
    static void acc(Iv3 &t, const D3 &col, Iv v)
    {
        for (int c = 0; c < 3; c++) {
            double x = col[c] / 255 * v.lo, y = col[c] / 255 * v.hi;
            t.c[c].lo += std::min(x, y);
            t.c[c].hi += std::max(x, y);
        }
    }
    static void clampmin(Iv3 &t, const D3 &col, Iv v)
    {
        for (int c = 0; c < 3; c++) {
            t.c[c].lo = std::max(t.c[c].lo, col[c] / 255 * v.lo);
            t.c[c].hi = std::max(t.c[c].hi, col[c] / 255 * v.hi);
        }
    }
    // the first thing met along +d: 1 sky, 0 something else, 2 undecided
    int sky(const D3 &p, const D3 &d, int receiver, int &dyn) const
    {
        D3 q = add(p, d, 4000);
        // the skies and the solids by distance, for boxes grown and shrunk
        double skyt[2] = {1e9, 1e9}, solt[2] = {1e9, 1e9};
        for (auto &w : wall) {
            if (w.type == WATER || w.type == ILLUS)
                continue;
            for (int g = 0; g < 2; g++) {
                double a = 0, b = 1;
                bool ok = true;
                for (int i = 0; i < 3 && ok; i++) {
                    double gg = g ? 0.1 : -0.1, dd = q[i] - p[i], l = w.mn[i] - gg, h = w.mx[i] + gg;
                    if (fabs(dd) < 1e-9) {
                        ok = p[i] > l && p[i] < h;
                        continue;
                    }
                    double t0 = (l - p[i]) / dd, t1 = (h - p[i]) / dd;
                    a = std::max(a, std::min(t0, t1));
                    b = std::min(b, std::max(t0, t1));
                }
                if (ok && a < b) {
                    double &t = w.type == SKY ? skyt[g] : solt[g];
                    t = std::min(t, a);
                }
            }
        }
        // [0] shrunk (certain), [1] grown (possible)
        int r;
        if (skyt[0] < solt[1])
            r = 1;
        else if (solt[0] < skyt[1] || skyt[1] > 1e8)
            r = solt[0] < 1e8 ? 0 : 2;
        else
            r = 2;
        if (r == 0)
            return 0;
        D3 end = add(p, sub(q, p), std::min(skyt[0], skyt[1]));
        int h = 0;
        dyn = -1;
        std::set<int> dy;
        for (size_t i = 0; i < s.b.size(); i++) {
            auto &b = s.b[i];
            if (!b.bmodel || b.kind == K_NOSHADOW || b.kind == K_LIQUID || (b.kind == K_SELF && model[i] != receiver) || (b.kind == K_WORLDONLY && receiver != 0) || !(b.mask & 1))
                continue;
            int x = seg_box(p, end, bmn(i), bmx(i));
            if (!x)
                continue;
            if (b.kind == K_SWITCH) {
                if (x == 1)
                    dy.insert(swstyle.count(model[i]) ? swstyle.at(model[i]) : -3);
                else
                    dyn = -2;
                continue;
            }
            if (x == 1)
                return 0;
            h = 2;
        }
        if (dy.size() > 1)
            dyn = -2;
        else if (dyn != -2 && dy.size() == 1)
            dyn = *dy.begin();
        return h ? 2 : r;
    }
    // the light of every style at a sample, before scaling
    // `from`: the directions of the lights in it (an empty one: light without)
    std::map<int, Iv3> light(const Sample &p, std::map<int, std::vector<D3>> *from = nullptr) const
    {
        std::map<int, Iv3> o;
        auto dirs = [&](int style, const D3 &d) {
            if (from)
                (*from)[style].push_back(d);
        };
        auto give = [&](const Light &l, int style, int vis, int dyn, Iv v, const D3 &dir) {
            dirs(style == 0 && dyn >= 0 ? dyn : style, vis == 2 || (style == 0 && dyn == -2) ? D3{0, 0, 0} : dir);
            if (style == 0 && dyn == -2)
                for (auto &[m, st] : swstyle)
                    dirs(st, {0, 0, 0});
            if (style == 0 && dyn == -2) { // either style
                Iv z{std::min(0.0, v.lo), std::max(0.0, v.hi)};
                acc(o[0], l.color, z);
                for (auto &[m, st] : swstyle)
                    acc(o[st], l.color, z);
                return;
            }
            if (style == 0 && dyn >= 0)
                style = dyn;
            if (vis == 2)
                v = {std::min(0.0, v.lo), std::max(0.0, v.hi)};
            acc(o[style], l.color, v);
        };
        auto pass = [&](bool neg) {
            for (size_t i = 0; i < s.l.size(); i++) {
                auto &l = s.l[i];
                if (l.sun || l.nostatic || l.delay == 4 || p.ignore || (l.light < 0) != neg || !(l.lmask & p.mask))
                    continue;
                int dyn, vis = ray(p.p, d3(l.at), p.model, l.smask == -1 ? l.lmask : l.smask, dyn);
                if (vis == 1)
                    continue;
                Iv v = direct(l, p);
                if (v.lo == 0 && v.hi == 0)
                    continue;
                give(l, lstyle[i], vis, dyn, v, v.lo > 1 ? sub(d3(l.at), p.p) : D3{0, 0, 0});
            }
        };
        auto suns = [&](const D3 &d, double sl, const D3 &col, double as, int style) {
            double a = dot(d, p.n);
            if (p.twosided)
                a = fabs(a);
            if (a < -0.01)
                return; // faces away
            int dyn, vis = sky(p.p, d, p.model, dyn);
            if (!vis || !(p.mask & 1) || p.ignore)
                return;
            double v = sl * ((1 - as) + as * std::max(a, 0.0));
            Light f;
            f.color = col;
            Iv iv{v, v};
            if (a < 0.0)
                iv.lo = 0;
            give(f, style, vis, dyn, iv, iv.lo > 1 ? d : D3{0, 0, 0});
        };
        pass(false);
        if (s.sunlight)
            suns(add({0, 0, 0}, mangle(s.sunmangle), -1), s.sunlight, s.suncolor, s.anglescale, 0);
        for (size_t i = 0; i < s.l.size(); i++)
            if (s.l[i].sun && s.l[i].light > 0) {
                auto &l = s.l[i];
                D3 dir = l.spot == 1 ? mangle(d3(l.aim)) : l.spot == 2 ? sub(d3(l.aim), d3(l.at)) : sub({0, 0, 0}, d3(l.at));
                double dl = len(dir);
                for (auto &c : dir)
                    c /= -dl;
                suns(dir, l.light, l.color, l.anglescale >= 0 ? l.anglescale : s.anglescale, l.style);
            }
        for (size_t i = 0; i < s.l.size(); i++) {
            auto &l = s.l[i];
            if (l.delay != 4 || l.nostatic || p.ignore || l.light <= 0 || !(l.lmask & p.mask))
                continue;
            int dyn, vis = ray(p.p, d3(l.at), p.model, l.smask == -1 ? l.lmask : l.smask, dyn);
            if (vis == 1)
                continue;
            Iv v{vis == 2 ? 0 : l.light, l.light};
            dirs(lstyle[i], {0, 0, 0});
            if (s.addmin)
                acc(o[lstyle[i]], l.color, v);
            else { // it does not raise what is at its level already
                auto &x = o[lstyle[i]];
                double blo = (x.c[0].lo + x.c[1].lo + x.c[2].lo) / 3, bhi = (x.c[0].hi + x.c[1].hi + x.c[2].hi) / 3;
                if (blo > l.light + 1e-3)
                    continue;
                if (bhi > l.light - 1e-3)
                    v.lo = 0;
                clampmin(x, l.color, v);
            }
        }
        double ml = std::max(s.minlight, p.minlight);
        if (ml) {
            dirs(0, {0, 0, 0});
            D3 col = p.minlight > s.minlight ? D3{255, 255, 255} : s.mincolor;
            if (s.addmin)
                acc(o[0], col, {ml, ml});
            else
                clampmin(o[0], col, {ml, ml});
        }
        pass(true);
        return o;
    }
    // as stored: maxlight, range, gamma, the brightest channel at most 255
    Iv3 scale(Iv3 v) const
    {
        auto f = [&](D3 c) {
            for (auto &x : c)
                x = std::max(x, 0.0);
            double m = std::max({c[0], c[1], c[2]});
            if (s.maxlight && m > 2 * s.maxlight)
                for (auto &x : c)
                    x *= 2 * s.maxlight / m;
            m = std::max({c[0], c[1], c[2]});
            for (auto &x : c) {
                x *= s.range;
                if (s.gamma != 1)
                    x = pow(x / 255, 1 / s.gamma) * 255;
            }
            m = std::max({c[0], c[1], c[2]});
            if (m > 255)
                for (auto &x : c)
                    x *= 255 / m;
            return c;
        };
        Iv3 r;
        bool exact = true;
        for (int c = 0; c < 3; c++)
            exact = exact && v.c[c].hi - v.c[c].lo < 1e-6 * (1 + fabs(v.c[c].hi));
        D3 a = f({v.c[0].lo, v.c[1].lo, v.c[2].lo}), b = f({v.c[0].hi, v.c[1].hi, v.c[2].hi});
        for (int c = 0; c < 3; c++) {
            r.c[c].lo = std::min(a[c], b[c]);
            r.c[c].hi = std::max(a[c], b[c]);
            if (!exact) { // joint clamping is not monotone per channel
                D3 e{v.c[0].hi, v.c[1].hi, v.c[2].hi}, g{v.c[0].lo, v.c[1].lo, v.c[2].lo};
                e[c] = v.c[c].lo;
                g[c] = v.c[c].hi;
                r.c[c].lo = std::min(r.c[c].lo, f(e)[c]);
                r.c[c].hi = std::max(r.c[c].hi, f(g)[c]);
            }
        }
        return r;
    }
};
// ------------------------------------------------------------------ views
struct View
{
    std::string name;
    int w = 0, h = 0, ofs = -1;
    std::vector<int> styles;
    // luxel (s, t) is where  row . (p, 1) = (s, t)
    double row[2][4];
};
struct FaceInfo
{
    std::vector<D3> pts; // model space
    D3 n;
    double d;
    int model = 0;
    bool lit = true; // lightmapped
    bool liquid = false;
    D3 tan[2]; // the axes of .lux
    std::vector<View> view;
};
inline uint32_t le(const std::vector<uint8_t> &v, size_t i, int n)
{
    uint32_t r = 0;
    for (int k = 0; k < n; k++)
        r |= uint32_t(v.at(i + k)) << (8 * k);
    return r;
}
inline float lef(const std::vector<uint8_t> &v, size_t i)
{
    uint32_t x = le(v, i, 4);
    float f;
    memcpy(&f, &x, 4);
    return f;
}
// every way an engine can read the lightmap of every face; `vscale` of the face's own
inline std::vector<FaceInfo> faces(const Bx &b, const std::function<double(int model)> &vscale, std::string &bad)
{
    std::vector<FaceInfo> r(b.bsp.dfaces.size());
    for (size_t m = 0; m < b.bsp.dmodels.size(); m++)
        for (int k = 0; k < b.bsp.dmodels[m].numfaces; k++)
            r.at(b.bsp.dmodels[m].firstface + k).model = int(m);
    auto shift = b.x.find("LMSHIFT"), ofs = b.x.find("LMOFFSET"), st = b.x.find("LMSTYLE"), st16 = b.x.find("LMSTYLE16"), dec = b.x.find("DECOUPLED_LM");
    size_t nf = b.bsp.dfaces.size();
    if (shift != b.x.end() && shift->second.size() != nf)
        bad = "LMSHIFT holds " + std::to_string(shift->second.size()) + " entries for " + std::to_string(nf) + " faces";
    if (ofs != b.x.end() && ofs->second.size() != nf * 4)
        bad = "LMOFFSET's size";
    if (st != b.x.end() && (nf == 0 || st->second.size() % nf))
        bad = "LMSTYLE's size";
    if (st16 != b.x.end() && (nf == 0 || st16->second.size() % (2 * nf)))
        bad = "LMSTYLE16's size";
    if (dec != b.x.end() && dec->second.size() != nf * 40)
        bad = "DECOUPLED_LM's size";
    if (!bad.empty())
        return r;
    for (size_t i = 0; i < nf; i++) {
        auto &f = b.bsp.dfaces[i];
        FaceInfo &o = r[i];
        for (int k = 0; k < f.numedges; k++) {
            int e = b.bsp.dsurfedges.at(f.firstedge + k);
            auto &v = b.bsp.dvertexes.at(e < 0 ? b.bsp.dedges.at(-e)[1] : b.bsp.dedges.at(e)[0]);
            o.pts.push_back({v[0], v[1], v[2]});
        }
        auto &pl = b.bsp.dplanes.at(f.planenum);
        o.n = {pl.normal[0], pl.normal[1], pl.normal[2]};
        o.d = pl.dist;
        if (f.side) {
            for (auto &c : o.n)
                c = -c;
            o.d = -o.d;
        }
        auto &ti = b.bsp.texinfo.at(f.texinfo);
        if (b.q2)
            o.lit = !(ti.flags.native & (4 | 8 | 128)); // sky warp nodraw
        else
            o.lit = !(ti.flags.native & 1);
        o.liquid = Face_TextureNameView(&b.bsp, &f).starts_with("*");
        if (!o.lit)
            continue;
        for (int a = 0; a < 2; a++) {
            D3 t{ti.vecs.at(a, 0), ti.vecs.at(a, 1), ti.vecs.at(a, 2)};
            double l = len(t) * (a ? -1 : 1);
            o.tan[a] = {t[0] / l, t[1] / l, t[2] / l};
        }
        double mn[2] = {1e9, 1e9}, mx[2] = {-1e9, -1e9}, row[2][4];
        for (int a = 0; a < 2; a++) {
            for (int c = 0; c < 4; c++)
                row[a][c] = ti.vecs.at(a, c);
            for (auto &p : o.pts) {
                double v = row[a][0] * p[0] + row[a][1] * p[1] + row[a][2] * p[2] + row[a][3];
                mn[a] = std::min(mn[a], v);
                mx[a] = std::max(mx[a], v);
            }
        }
        auto scaled = [&](const char *name, double scale) {
            View v;
            v.name = name;
            int *wh[2] = {&v.w, &v.h};
            for (int a = 0; a < 2; a++) {
                double lo = floor(mn[a] / scale + 1e-6), hi = ceil(mx[a] / scale - 1e-6);
                *wh[a] = int(hi - lo) + 1;
                for (int c = 0; c < 4; c++)
                    v.row[a][c] = row[a][c] / scale;
                v.row[a][3] -= lo;
            }
            return v;
        };
        auto own = [&] {
            std::vector<int> s;
            for (int k = 0; k < 4 && f.styles[k] != 255; k++)
                s.push_back(f.styles[k]);
            return s;
        };
        // a lightmap written beside others for old engines has their scale
        bool fallback = dec != b.x.end() || (ofs != b.x.end() && int32_t(le(ofs->second, i * 4, 4)) != f.lightofs);
        View v = scaled("face", fallback ? 16 : vscale(o.model));
        v.ofs = f.lightofs;
        v.styles = own();
        o.view.push_back(v);
        if (shift != b.x.end() || ofs != b.x.end() || st != b.x.end() || st16 != b.x.end()) {
            View w = scaled("bspx", shift != b.x.end() ? pow(2, shift->second[i]) : vscale(o.model));
            w.ofs = ofs != b.x.end() ? int32_t(le(ofs->second, i * 4, 4)) : f.lightofs;
            w.styles.clear();
            if (st16 != b.x.end()) {
                size_t n = st16->second.size() / 2 / nf;
                for (size_t k = 0; k < n && le(st16->second, (i * n + k) * 2, 2) != 0xffff; k++)
                    w.styles.push_back(le(st16->second, (i * n + k) * 2, 2));
            } else if (st != b.x.end()) {
                size_t n = st->second.size() / nf;
                for (size_t k = 0; k < n && st->second[i * n + k] != 255; k++)
                    w.styles.push_back(st->second[i * n + k]);
            } else
                w.styles = own();
            o.view.push_back(w);
        }
        if (dec != b.x.end()) {
            auto &d = dec->second;
            size_t q = i * 40;
            View w;
            w.name = "decoupled";
            w.w = le(d, q, 2);
            w.h = le(d, q + 2, 2);
            w.ofs = int32_t(le(d, q + 4, 4));
            for (int a = 0; a < 2; a++)
                for (int c = 0; c < 4; c++)
                    w.row[a][c] = lef(d, q + 8 + a * 16 + c * 4);
            w.styles = own();
            o.view.push_back(w);
        }
    }
    return r;
}
// the point on the face's plane where the view has (s, t)
inline bool at(const FaceInfo &f, const View &v, double s, double t, D3 &p)
{
    // solve rows and the plane
    double m[3][4] = {{v.row[0][0], v.row[0][1], v.row[0][2], s - v.row[0][3]}, {v.row[1][0], v.row[1][1], v.row[1][2], t - v.row[1][3]}, {f.n[0], f.n[1], f.n[2], f.d}};
    auto det = [](double a, double b, double c, double d, double e, double g, double h, double i, double j) { return a * (e * j - g * i) - b * (d * j - g * h) + c * (d * i - e * h); };
    double D = det(m[0][0], m[0][1], m[0][2], m[1][0], m[1][1], m[1][2], m[2][0], m[2][1], m[2][2]);
    if (fabs(D) < 1e-12)
        return false;
    p[0] = det(m[0][3], m[0][1], m[0][2], m[1][3], m[1][1], m[1][2], m[2][3], m[2][1], m[2][2]) / D;
    p[1] = det(m[0][0], m[0][3], m[0][2], m[1][0], m[1][3], m[1][2], m[2][0], m[2][3], m[2][2]) / D;
    p[2] = det(m[0][0], m[0][1], m[0][3], m[1][0], m[1][1], m[1][3], m[2][0], m[2][1], m[2][3]) / D;
    return true;
}
// how far inside the polygon (negative: outside)
inline double inside(const FaceInfo &f, const D3 &p)
{
    double r = 1e9;
    size_t n = f.pts.size();
    D3 c{0, 0, 0};
    for (auto &q : f.pts)
        c = add(c, q, 1.0 / n);
    for (size_t i = 0; i < n; i++) {
        const D3 &a = f.pts[i], &b = f.pts[(i + 1) % n];
        D3 e = sub(b, a);
        D3 in{f.n[1] * e[2] - f.n[2] * e[1], f.n[2] * e[0] - f.n[0] * e[2], f.n[0] * e[1] - f.n[1] * e[0]};
        double l = len(in);
        if (l < 1e-6)
            continue;
        double d = dot(sub(p, a), in) / l, dc = dot(sub(c, a), in) / l;
        r = std::min(r, dc < 0 ? -d : d);
    }
    return r;
}
} // namespace lw
