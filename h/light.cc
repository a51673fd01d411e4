// L01, L03: what light writes into every luxel, and where
#include "lightworld.hh"
#include <mc/explore.hh>
using namespace lw;
using namespace mc;
using Opts = std::vector<std::string>;

namespace
{
struct Run
{
    Scene s;
    Opts qopt, lopt;
    std::vector<Opts> pre; // lit before with these
    double vscale = 16; // of the face's own lightmap
    bool vis = false; // run before light
    bool content = true; // judge the contents (else the layout alone)
    bool expect_refusal = false;
};
std::string show(const Run &r)
{
    std::string o;
    for (auto &b : r.s.b) {
        o += std::string(b.bmodel ? "bmodel" : TNAME[b.type]) + "(" + iv3(b.mn) + " / " + iv3(b.mx) + " kind " + std::to_string(b.kind);
        if (b.mask != 1)
            o += " mask " + std::to_string(b.mask);
        if (b.off != I3{0, 0, 0})
            o += " origin " + iv3(b.off);
        o += ") ";
    }
    for (auto &l : r.s.l) {
        o += "light(" + iv3(l.at) + " " + num(l.light) + " delay " + std::to_string(l.delay) + " wait " + num(l.wait);
        if (l.spot)
            o += " spot" + std::to_string(l.spot) + " " + iv3(l.aim) + " angle " + num(l.angle) + "/" + num(l.soft);
        if (l.style)
            o += " style " + std::to_string(l.style);
        if (!l.targetname.empty())
            o += " targetname " + l.targetname;
        if (l.lmask != 1 || l.smask != -1)
            o += " masks " + std::to_string(l.lmask) + "," + std::to_string(l.smask);
        if (l.sun)
            o += " sun";
        o += ") ";
    }
    if (r.s.sunlight)
        o += "sun " + num(r.s.sunlight) + " mangle " + v3(r.s.sunmangle) + " ";
    o += r.s.worldkeys;
    for (auto &x : r.qopt)
        o += " " + x;
    if (r.vis)
        o += " vis";
    for (auto &y : r.pre) {
        o += " | before:";
        for (auto &x : y)
            o += " " + x;
    }
    o += " |";
    for (auto &x : r.lopt)
        o += " " + x;
    for (auto &c : o)
        if (c == '\n')
            c = ';';
    return o;
}
enum What
{
    LIGHT = 1,
    LAYOUT = 2
};
struct Key : std::string
{
    using std::string::string;
};
void judge(const Run &r, Ctx &c, int what)
{
    img::clear();
    fs::clear();
    for (auto &e : std::filesystem::directory_iterator("."))
        if (e.is_regular_file())
            std::filesystem::remove(e.path());
    std::vector<int> model;
    Map m = build(r.s, model);
    std::string text = maptext(m);
    Out q = compile(text, r.qopt);
    auto key = [&](const std::string &k) { return k + ": " + show(r); };
    if (!q.error.empty()) {
        c.count("not compiled");
        c.fail(key("qbsp refuses the scene"), q.error);
        return;
    }
    if (r.vis) {
        auto e = run_vis();
        if (!e.empty()) {
            c.fail(key("vis"), e);
            return;
        }
    }
    Opts lo = r.lopt;
    if (const char *dbg = getenv("LIGHT_OPTS")) { // by hand, with --replay
        std::istringstream is(dbg);
        std::string w;
        while (is >> w)
            lo.push_back(w);
    }
    for (auto &y : r.pre) {
        auto e = run_light(y);
        if (!e.empty()) {
            c.fail(key("light refuses the scene"), e);
            return;
        }
    }
    std::string err = run_light(lo);
    if (!err.empty()) {
        c.fail(key("light refuses the scene"), err);
        return;
    }
    Bx b = load_lit("t");
    c.count("maps lit");
    // styles as written
    Ref ref(r.s, model, m);
    ref.lstyle.assign(r.s.l.size(), 0);
    {
        auto ents = EntData_Parse(b.bsp);
        std::map<std::string, int> byname;
        for (auto &e : ents) {
            if (e.has("which")) {
                int i = e.get_int("which"), st = e.get_int("style");
                ref.lstyle[i] = st;
                auto &l = r.s.l[i];
                if (l.targetname.empty()) {
                    if (st != l.style)
                        c.fail(key("style of a light"), "light " + std::to_string(i) + " has style " + std::to_string(st));
                } else if (l.style == 0) {
                    if (st < 32 || st > 254)
                        c.fail(key("style of a switchable light"), "light " + std::to_string(i) + " has style " + std::to_string(st));
                    auto it = byname.find(l.targetname);
                    if (it != byname.end() && it->second != st)
                        c.fail(key("two styles for one targetname"), l.targetname);
                    for (auto &[n, s2] : byname)
                        if (n != l.targetname && s2 == st)
                            c.fail(key("one style for two targetnames"), n + " " + l.targetname);
                    byname[l.targetname] = st;
                }
            }
            if (e.has("box")) {
                int i = e.get_int("box");
                if (r.s.b[i].kind == K_SWITCH) {
                    int st = e.get_int("switchshadstyle");
                    if (st < 32)
                        c.fail(key("style of a switchable shadow"), "entity has switchshadstyle " + std::to_string(st));
                    ref.swstyle[model[i]] = st;
                }
            }
        }
    }
    std::string bad;
    auto fs_ = faces(b, [&](int) { return r.vscale; }, bad);
    if (!bad.empty()) {
        c.fail(key("BSPX"), bad);
        return;
    }
    // ------------------------------------------------------------ the stores
    size_t ncol = b.rgb ? 3 : 1; // bytes per luxel of the lightmap lump
    size_t nlux = b.bsp.dlightdata.size() / ncol;
    const std::vector<uint8_t> &grey = b.bsp.dlightdata;
    auto rgbl = b.x.find("RGBLIGHTING"), dirl = b.x.find("LIGHTINGDIR");
    bool nogrey = false;
    if (!b.rgb && grey.empty() && rgbl != b.x.end()) {
        nogrey = true;
        nlux = rgbl->second.size() / 3;
    }
    const uint8_t *rgb = nullptr, *lux = nullptr;
    auto header = [&](const std::string &s, const char *n) {
        if (s.size() != 8 + nlux * 3)
            c.fail(key(std::string("size of the ") + n + " file"), std::to_string(s.size()) + " bytes for " + std::to_string(nlux) + " luxels");
        else if (s.compare(0, 8, std::string("QLIT\1\0\0\0", 8)))
            c.fail(key(std::string("header of the ") + n + " file"), "not version 1");
        else
            return (const uint8_t *)s.data() + 8;
        return (const uint8_t *)nullptr;
    };
    if (b.haslit)
        rgb = header(b.lit, ".lit");
    if (rgbl != b.x.end()) {
        if (rgbl->second.size() != nlux * 3)
            c.fail(key("size of RGBLIGHTING"), std::to_string(rgbl->second.size()) + " bytes for " + std::to_string(nlux) + " luxels");
        else {
            if (rgb && memcmp(rgb, rgbl->second.data(), nlux * 3))
                c.fail(key("RGBLIGHTING is not the .lit"), "they differ");
            rgb = rgbl->second.data();
        }
    }
    if (b.haslux)
        lux = header(b.lux, ".lux");
    if (dirl != b.x.end()) {
        if (dirl->second.size() != nlux * 3)
            c.fail(key("size of LIGHTINGDIR"), std::to_string(dirl->second.size()) + " bytes for " + std::to_string(nlux) + " luxels");
        else {
            if (lux && memcmp(lux, dirl->second.data(), nlux * 3))
                c.fail(key("LIGHTINGDIR is not the .lux"), "they differ");
            lux = dirl->second.data();
        }
    }
    if (b.rgb)
        rgb = grey.data();
    if (c.failed)
        return;
    auto wants = [&](const char *o) { return std::find(r.lopt.begin(), r.lopt.end(), o) != r.lopt.end(); };
    bool colored = r.s.mincolor != D3{255, 255, 255} || (r.s.sunlight && r.s.suncolor != D3{255, 255, 255});
    for (auto &l : r.s.l)
        colored = colored || l.color != D3{255, 255, 255};
    if (!b.rgb) {
        // -bspx and -bspxonly replace the outputs asked for before them
        auto after = [&](const char *o) {
            size_t at = 0, last = 0;
            for (size_t k = 0; k < r.lopt.size(); k++) {
                if (r.lopt[k] == o)
                    at = k + 1;
                if (r.lopt[k] == "-bspx" || r.lopt[k] == "-bspxonly")
                    last = k + 1;
            }
            return at > last;
        };
        if ((after("-lit") || (colored && !wants("-novanilla") && !wants("-bspxonly") && !wants("-bspx") && !wants("-bspxlit"))) && !b.haslit)
            c.fail(key("no .lit"), "not written");
        if ((wants("-bspxlit") || wants("-bspx") || wants("-bspxonly") || (wants("-novanilla") && colored)) && rgbl == b.x.end())
            c.fail(key("no RGBLIGHTING"), "not written");
        if (after("-lux") && !b.haslux)
            c.fail(key("no .lux"), "not written");
        if ((wants("-bspxlux") || wants("-bspx") || wants("-bspxonly")) && dirl == b.x.end())
            c.fail(key("no LIGHTINGDIR"), "not written");
        if (!wants("-lit") && !wants("-lit2") && !colored && b.haslit)
            c.fail(key("a .lit nobody asked for"), "written");
    }
    // ------------------------------------------------------------ layout
    struct Blk2
    {
        size_t from, to;
        int face, view;
    };
    std::vector<Blk2> used;
    for (size_t i = 0; i < fs_.size(); i++)
        for (size_t v = 0; v < fs_[i].view.size(); v++) {
            auto &w = fs_[i].view[v];
            if (w.ofs == -1)
                continue;
            std::string where = "face " + std::to_string(i) + " view " + w.name;
            if (w.ofs < 0 || w.ofs % ncol) {
                c.fail(key("lightmap offset"), where + " has offset " + std::to_string(w.ofs));
                return;
            }
            if (w.styles.empty()) {
                c.fail(key("lightmap without a style"), where + " has offset " + std::to_string(w.ofs) + " and no style");
                return;
            }
            for (size_t k = 0; k < w.styles.size(); k++)
                for (size_t l = 0; l < k; l++)
                    if (w.styles[k] == w.styles[l])
                        c.fail(key("a style twice"), where);
            size_t from = w.ofs / ncol, to = from + size_t(w.w) * w.h * w.styles.size();
            if (to > nlux) {
                c.fail(key("lightmap outside the lump"), where + " needs luxels " + std::to_string(from) + ".." + std::to_string(to) + " of " + std::to_string(nlux));
                return;
            }
            used.push_back({from, to, int(i), int(v)});
        }
    std::sort(used.begin(), used.end(), [](auto &a, auto &b) { return a.from < b.from; });
    for (size_t i = 0; i + 1 < used.size(); i++)
        if (used[i + 1].from < used[i].to && !(used[i].face == used[i + 1].face && used[i].from == used[i + 1].from && fs_[used[i].face].view[used[i].view].w == fs_[used[i].face].view[used[i + 1].view].w && fs_[used[i].face].view[used[i].view].h == fs_[used[i].face].view[used[i + 1].view].h)) {
            auto nm = [&](const Blk2 &k) { return "face " + std::to_string(k.face) + " view " + fs_[k.face].view[k.view].name + " luxels " + std::to_string(k.from) + ".." + std::to_string(k.to); };
            c.fail(key("two lightmaps overlap"), nm(used[i]) + " and " + nm(used[i + 1]));
            return;
        }
    // the three stores agree
    if (!b.rgb && rgb && !nogrey)
        for (size_t i = 0; i < nlux; i++) {
            int mx = std::max({rgb[i * 3], rgb[i * 3 + 1], rgb[i * 3 + 2]});
            if (grey[i] != mx) {
                std::string where;
                for (auto &u : used)
                    if (i >= u.from && i < u.to)
                        where = " (face " + std::to_string(u.face) + " view " + fs_[u.face].view[u.view].name + ")";
                c.fail(key("grey is not the brightest of the colour"), "luxel " + std::to_string(i) + where + ": grey " + std::to_string(grey[i]) + " colour " + std::to_string(rgb[i * 3]) + " " + std::to_string(rgb[i * 3 + 1]) + " " + std::to_string(rgb[i * 3 + 2]));
                return;
            }
        }
    // ------------------------------------------------------------ contents
    uint64_t oh = 1;
    int n = r.s.extrasamp, soft = r.s.soft;
    for (size_t i = 0; i < fs_.size() && !c.failed; i++) {
        auto &f = fs_[i];
        if (!f.lit)
            continue;
        int mk = -1; // the block of a bmodel's face
        for (size_t k = 0; k < r.s.b.size(); k++)
            if (r.s.b[k].bmodel && model[k] == f.model)
                mk = int(k);
        D3 off = mk >= 0 ? d3(r.s.b[mk].off) : D3{0, 0, 0};
        int vmain = int(f.view.size()) - 1; // the one computed directly
        for (int v = vmain; v >= 0 && !c.failed; v--) {
            auto &w = f.view[v];
            bool derived = v != vmain && (f.view[vmain].ofs != w.ofs || f.view[vmain].w != w.w || f.view[vmain].h != w.h);
            if (v != vmain && !derived && f.view[vmain].styles == w.styles)
                continue;
            auto px = [&](const View &vw, int st, int s, int t, int ch) -> int {
                size_t l = vw.ofs / ncol + size_t(st) * vw.w * vw.h + size_t(t) * vw.w + s;
                return ch == 3 ? grey.at(l) : rgb[l * 3 + ch];
            };
            if (derived) {
                // an old engine's copy shows the light of its surroundings
                if (wants("-novanilla") || wants("-bspxonly")) {
                    if (w.ofs != -1)
                        c.fail(key("a fallback lightmap"), "face " + std::to_string(i) + " has one although -novanilla");
                    continue;
                }
                auto &bw = f.view[vmain];
                if ((w.ofs == -1) != (bw.ofs == -1)) {
                    c.fail(key("fallback lightmap"), "face " + std::to_string(i) + ": " + w.name + " offset " + std::to_string(w.ofs) + ", " + bw.name + " offset " + std::to_string(bw.ofs));
                    continue;
                }
                if (w.ofs == -1)
                    continue;
                if (bw.styles.size() < w.styles.size() || !std::equal(w.styles.begin(), w.styles.end(), bw.styles.begin())) {
                    c.fail(key("fallback styles"), "face " + std::to_string(i));
                    continue;
                }
                // of a filtered lightmap it shows the unfiltered light
                bool filtered = w.ofs != -1 && bw.name == "decoupled" && (n > 1 || soft);
                for (size_t st = 0; st < w.styles.size() && !filtered; st++)
                    for (int t = 0; t < w.h; t++)
                        for (int s = 0; s < w.w; s++) {
                            D3 p;
                            if (!at(f, w, s, t, p) || inside(f, p) < 0)
                                continue;
                            double bs = bw.row[0][0] * p[0] + bw.row[0][1] * p[1] + bw.row[0][2] * p[2] + bw.row[0][3], bt = bw.row[1][0] * p[0] + bw.row[1][1] * p[1] + bw.row[1][2] * p[2] + bw.row[1][3];
                            double k = 16 * len({bw.row[0][0], bw.row[0][1], bw.row[0][2]}), k2 = 16 * len({bw.row[1][0], bw.row[1][1], bw.row[1][2]});
                            int s0 = std::max(0, int(floor(bs - k - 0.01))), s1 = std::min(bw.w - 1, int(ceil(bs + k + 0.01))), t0 = std::max(0, int(floor(bt - k2 - 0.01))), t1 = std::min(bw.h - 1, int(ceil(bt + k2 + 0.01)));
                            for (int ch = 0; ch < 4; ch++) {
                                if ((ch == 3 && (nogrey || b.rgb)) || (ch < 3 && !rgb))
                                    continue;
                                int lo = 1000, hi = -1;
                                for (int y = t0; y <= t1; y++)
                                    for (int x = s0; x <= s1; x++) {
                                        int q2 = px(bw, int(st), x, y, ch);
                                        lo = std::min(lo, q2);
                                        hi = std::max(hi, q2);
                                    }
                                int g = px(w, int(st), s, t, ch);
                                if (hi >= 0 && (g < lo - 1 || g > hi + 1)) {
                                    c.fail(key("fallback lightmap's contents"), "face " + std::to_string(i) + " luxel " + std::to_string(s) + "," + std::to_string(t) + " channel " + std::to_string(ch) + " is " + std::to_string(g) + "; the lightmap it stands for has " + std::to_string(lo) + ".." + std::to_string(hi) + " around");
                                    return;
                                }
                            }
                        }
                c.count("fallback lightmaps");
                continue;
            }
            if (!r.content)
                continue;
            // expected values of every subsample
            int ow = w.w * n, oh2 = w.h * n;
            std::set<int> styles(w.styles.begin(), w.styles.end());
            std::vector<char> ok(size_t(ow) * oh2, 0);
            std::vector<std::map<int, Iv3>> val(size_t(ow) * oh2);
            std::vector<std::map<int, std::vector<D3>>> from(size_t(ow) * oh2);
            for (int t = 0; t < oh2; t++)
                for (int s = 0; s < ow; s++) {
                    D3 p;
                    double ls = s / n + (n == 1 ? 0 : -0.5 + 0.5 / n + double(s % n) / n), lt = t / n + (n == 1 ? 0 : -0.5 + 0.5 / n + double(t % n) / n);
                    if (!at(f, w, ls, lt, p))
                        continue;
                    if (inside(f, p) < 0.6)
                        continue;
                    Sample sm;
                    sm.n = f.n;
                    sm.p = add(add(p, off), f.n);
                    sm.model = f.model;
                    sm.twosided = f.liquid;
                    if (mk >= 0) {
                        sm.mask = r.s.b[mk].mask;
                        sm.ignore = r.s.b[mk].lightignore;
                        sm.minlight = r.s.b[mk].minlight;
                    }
                    bool near = false;
                    for (size_t k = 0; k < r.s.b.size() && !near; k++) {
                        if (!r.s.b[k].bmodel)
                            continue;
                        D3 a = ref.bmn(k), z = ref.bmx(k);
                        bool in = true, own = int(k) == mk || model[k] == f.model;
                        double g = own ? 0.5 : 2.1; // of a face's own box it is 1 off
                        for (int x = 0; x < 3; x++)
                            in = in && sm.p[x] > a[x] - g && sm.p[x] < z[x] + g;
                        near = in;
                    }
                    for (auto &x : ref.wall) // hides what it stands on
                        if (x.type == WALL && sm.p[0] > x.mn[0] - 1.6 && sm.p[0] < x.mx[0] + 1.6 && sm.p[1] > x.mn[1] - 1.6 && sm.p[1] < x.mx[1] + 1.6 && sm.p[2] > x.mn[2] - 1.6 && sm.p[2] < x.mx[2] + 1.6) {
                            bool own = false; // its own face
                            for (int y = 0; y < 3; y++)
                                own = own || (f.n[y] > 0.9 && fabs(sm.p[y] - 1 - x.mx[y]) < 0.1) || (f.n[y] < -0.9 && fabs(sm.p[y] + 1 - x.mn[y]) < 0.1);
                            near = near || !own;
                        }
                    if (!near && mk >= 0)
                        for (auto &x : ref.wall) {
                            bool in = true;
                            for (int y = 0; y < 3; y++)
                                in = in && sm.p[y] > x.mn[y] - 2.1 && sm.p[y] < x.mx[y] + 2.1;
                            near = near || in;
                        }
                    if (near)
                        continue;
                    ok[size_t(t) * ow + s] = 1;
                    auto l = ref.light(sm, &from[size_t(t) * ow + s]);
                    auto &o = val[size_t(t) * ow + s];
                    for (auto &[st, iv] : l)
                        o[st] = ref.scale(iv);
                }
            std::map<int, double> maxlo, maxhi; // the brightest of a style at a luxel judged
            int judged = 0;
            for (int t = 0; t < w.h && !c.failed; t++)
                for (int s = 0; s < w.w && !c.failed; s++) {
                    std::map<int, Iv3> sum;
                    double wt = 0;
                    bool good = true;
                    for (int y = 0; y < n && good; y++)
                        for (int x = 0; x < n && good; x++)
                            for (int dy = -soft; dy <= soft && good; dy++)
                                for (int dx = -soft; dx <= soft && good; dx++) {
                                    int X = std::clamp(s * n + x + dx, 0, ow - 1), Y = std::clamp(t * n + y + dy, 0, oh2 - 1);
                                    if (!ok[size_t(Y) * ow + X]) {
                                        good = false;
                                        break;
                                    }
                                    wt++;
                                    for (auto &[st, iv] : val[size_t(Y) * ow + X])
                                        for (int ch = 0; ch < 3; ch++) {
                                            sum[st].c[ch].lo += iv.c[ch].lo;
                                            sum[st].c[ch].hi += iv.c[ch].hi;
                                        }
                                }
                    if (!good)
                        continue;
                    judged++;
                    for (int st : styles)
                        sum[st];
                    for (auto &[st, iv] : sum) {
                        for (int ch = 0; ch < 3; ch++) {
                            iv.c[ch].lo /= wt;
                            iv.c[ch].hi /= wt;
                        }
                        double blo = (iv.c[0].lo + iv.c[1].lo + iv.c[2].lo) / 3, bhi = (iv.c[0].hi + iv.c[1].hi + iv.c[2].hi) / 3;
                        maxlo[st] = std::max(maxlo[st], blo);
                        maxhi[st] = std::max(maxhi[st], bhi);
                        auto pos = std::find(w.styles.begin(), w.styles.end(), st);
                        if (pos == w.styles.end() || w.ofs == -1)
                            continue;
                        int si = int(pos - w.styles.begin());
                        auto cmp = [&](int got, double lo, double hi, const char *chn) {
                            double tol = 0.05 + 2e-3 * hi;
                            if (got > hi + tol || got < floor(lo - tol)) {
                                D3 p;
                                at(f, w, s, t, p);
                                c.fail(key("luxel"), "face " + std::to_string(i) + " (model " + std::to_string(f.model) + ", normal " + v3(f.n) + ") luxel " + std::to_string(s) + "," + std::to_string(t) + " at " + v3(add(p, off)) + " style " + std::to_string(st) + " " + chn + " holds " + std::to_string(got) + ", expected " + num(lo) + ".." + num(hi));
                            }
                        };
                        if (rgb)
                            for (int ch = 0; ch < 3 && !c.failed; ch++)
                                cmp(px(w, si, s, t, ch), iv.c[ch].lo, iv.c[ch].hi, ch == 0 ? "red" : ch == 1 ? "green" : "blue");
                        if (!b.rgb && !nogrey && !c.failed)
                            cmp(px(w, si, s, t, 3), std::max({iv.c[0].lo, iv.c[1].lo, iv.c[2].lo}), std::max({iv.c[0].hi, iv.c[1].hi, iv.c[2].hi}), "grey");
                        c.count("luxels judged");
                        auto &fr = from[size_t(t) * n * ow + s * n][st];
                        if (lux && n == 1 && !soft && !c.failed && fr.size() == 1 && fr[0] != D3{0, 0, 0}) {
                            const uint8_t *x = lux + 3 * (w.ofs / ncol + size_t(si) * w.w * w.h + size_t(t) * w.w + s);
                            D3 d = fr[0];
                            double l = len(d);
                            double e[3] = {dot(d, f.tan[0]) / l, dot(d, f.tan[1]) / l, dot(d, f.n) / l};
                            c.count("directions judged");
                            for (int a = 0; a < 3; a++)
                                if (fabs((x[a] + 0.5) / 128 - 1 - e[a]) > 0.6 / 128 + 2e-3) {
                                    D3 p;
                                    at(f, w, s, t, p);
                                    c.fail(key("direction"), "face " + std::to_string(i) + " luxel " + std::to_string(s) + "," + std::to_string(t) + " at " + v3(add(p, off)) + " style " + std::to_string(st) + " has " + v3({x[0] / 128. - 1, x[1] / 128. - 1, x[2] / 128. - 1}) + ", the light is at " + v3({e[0], e[1], e[2]}));
                                    break;
                                }
                        }
                        if (iv.c[0].hi > 0.5)
                            c.count("luxels lit");
                    }
                }
            if (c.failed || !judged)
                break;
            // every style that counts is there
            size_t limit = 4;
            for (size_t k = 0; k + 1 < r.lopt.size(); k++)
                if (r.lopt[k] == "-facestyles")
                    limit = std::stoul(r.lopt[k + 1]);
            if (v == 0)
                limit = std::min<size_t>(limit, 4);
            size_t counts = 0;
            for (auto &[st, x] : maxlo)
                counts += x > 1.2;
            size_t have = w.ofs == -1 ? 0 : w.styles.size();
            if (have > limit)
                c.fail(key("too many styles"), "face " + std::to_string(i) + " has " + std::to_string(have));
            for (auto &[st, x] : maxlo)
                if (x > 1.2 && (w.ofs == -1 || !styles.count(st)) && have < limit) {
                    c.fail(key("light is missing"), "face " + std::to_string(i) + " (normal " + v3(f.n) + " at " + v3(add(f.pts[0], off)) + ", model " + std::to_string(f.model) + ") view " + w.name + " has no lightmap of style " + std::to_string(st) + " though it reaches " + num(x));
                    break;
                }
            if (counts > limit)
                c.count("faces with more styles than fit");
            for (int st : styles)
                oh = hcomb(oh, st * 1000 + int(maxhi[st]));
            c.count("lightmaps judged");
        }
    }
    c.outcome(oh);
    c.nontrivial(hstr(text + show(r)));
}
// -litonly and -lit2 give the light of -lit: the luxels of every lightmap, for a
// map lit before
void judge_only(const Run &r, const Opts &o, bool lit2, Ctx &c)
{
    img::clear();
    fs::clear();
    for (auto &e : std::filesystem::directory_iterator("."))
        if (e.is_regular_file())
            std::filesystem::remove(e.path());
    std::vector<int> model;
    Map m = build(r.s, model);
    Out q = compile(maptext(m), r.qopt);
    auto key = [&](const std::string &k) { return k + (lit2 ? " (-lit2): " : " (-litonly): ") + show(r); };
    std::string err = q.error;
    for (auto &y : r.pre) // the map at hand
        if (err.empty())
            err = run_light(y);
    std::string had = slurp("t.bsp");
    Opts lo = o;
    Bx b;
    std::string lit, lux;
    auto refit = [&](const Opts &x) {
        if (err.empty())
            err = run_light(x);
    };
    if (lit2) {
        // all of it is in the file; the map stays as it is
        lo.push_back("-lit2");
        refit(lo);
        std::string l2 = slurp("t.lit");
        if (err.empty() && slurp("t.bsp") != had)
            c.fail(key("the map changed"), "");
        lo.back() = "-lit";
        lo.push_back("-lux");
        refit(lo);
        if (!err.empty()) {
            c.fail(key("refused"), err);
            return;
        }
        b = load_lit("t");
        size_t nf = b.bsp.dfaces.size(), rec = 17;
        std::vector<uint8_t> d(l2.begin(), l2.end());
        if (d.size() < 16 || l2.compare(0, 8, std::string("QLIT\2\0\0\0", 8)) || size_t(le(d, 8, 4)) != nf) {
            c.fail(key("header"), std::to_string(d.size()) + " bytes");
            return;
        }
        size_t n = size_t(le(d, 12, 4));
        if (d.size() != 16 + nf * rec + n * 6) {
            c.fail(key("size of the file"), std::to_string(d.size()) + " bytes for " + std::to_string(nf) + " faces and " + std::to_string(n) + " luxels");
            return;
        }
        std::string bad;
        auto fv = faces(b, [&](int) { return r.vscale; }, bad);
        for (size_t i = 0; i < nf && !c.failed; i++) {
            auto &f = fv[i];
            if (!f.lit)
                continue;
            auto &w = f.view.back();
            size_t at = 16 + i * rec;
            int32_t ofs = int32_t(le(d, at, 4));
            std::vector<int> st;
            for (int k = 0; k < 4 && le(d, at + 4 + k * 2, 2) != 0xffff; k++)
                st.push_back(int(le(d, at + 4 + k * 2, 2)));
            if (st != w.styles || (ofs == -1) != (w.ofs == -1)) {
                c.fail(key("styles"), "face " + std::to_string(i));
                return;
            }
            if (ofs == -1)
                continue;
            int ww = int(le(d, at + 12, 2)), hh = int(le(d, at + 14, 2));
            if (ww != w.w || hh != w.h) {
                c.fail(key("extents"), "face " + std::to_string(i) + ": " + std::to_string(ww) + " by " + std::to_string(hh) + ", not " + std::to_string(w.w) + " by " + std::to_string(w.h));
                return;
            }
            size_t k = size_t(w.w) * w.h * st.size();
            if (ofs < 0 || ofs + k > n || memcmp(d.data() + 16 + nf * rec + ofs * 3, b.lit.data() + 8 + w.ofs * 3, k * 3) || memcmp(d.data() + 16 + nf * rec + n * 3 + ofs * 3, b.lux.data() + 8 + w.ofs * 3, k * 3)) {
                c.fail(key("luxels"), "face " + std::to_string(i));
                return;
            }
            c.count("lightmaps compared");
        }
        c.outcome(hstr(l2));
    } else {
        lo.push_back("-litonly");
        if (std::find(o.begin(), o.end(), "-lux") == o.end())
            lo.push_back("-lux");
        refit(lo);
        if (!err.empty()) {
            c.fail(key("refused"), err);
            return;
        }
        if (slurp("t.bsp") != had) {
            c.fail(key("the map changed"), "");
            return;
        }
        lit = slurp("t.lit"), lux = slurp("t.lux");
        b = load_lit("t");
        std::string bad;
        auto old = faces(b, [&](int) { return r.vscale; }, bad);
        size_t nl = b.bsp.dlightdata.size();
        if (lit.size() != 8 + 3 * nl || lux.size() != 8 + 3 * nl) {
            c.fail(key("size of the file"), std::to_string(lit.size()) + " " + std::to_string(lux.size()) + " for " + std::to_string(nl) + " luxels");
            return;
        }
        // the same light, stored anew
        lo = o;
        lo.push_back("-lit");
        lo.push_back("-lux");
        refit(lo);
        if (!err.empty()) {
            c.fail(key("refused"), err);
            return;
        }
        Bx a = load_lit("t");
        auto nw = faces(a, [&](int) { return r.vscale; }, bad);
        for (size_t i = 0; i < old.size() && !c.failed; i++)
            for (size_t v = 0; v < old[i].view.size(); v++) {
                auto &w = old[i].view[v];
                if (w.ofs == -1)
                    continue;
                if (v >= nw[i].view.size() || nw[i].view[v].w != w.w || nw[i].view[v].h != w.h)
                    continue; // judged elsewhere
                auto &x = nw[i].view[v];
                for (size_t st = 0; st < w.styles.size(); st++) {
                    auto it = std::find(x.styles.begin(), x.styles.end(), w.styles[st]);
                    size_t k = size_t(w.w) * w.h;
                    std::string z(k * 3, '\0'), zl = z;
                    bool have = x.ofs != -1 && it != x.styles.end();
                    if (have) {
                        z = a.lit.substr(8 + (x.ofs + (it - x.styles.begin()) * k) * 3, k * 3);
                        zl = a.lux.substr(8 + (x.ofs + (it - x.styles.begin()) * k) * 3, k * 3);
                    }
                    if (!have)
                        continue; // too dark to be kept, or its styles do not fit
                    if (lit.compare(8 + (w.ofs + st * k) * 3, k * 3, z) || lux.compare(8 + (w.ofs + st * k) * 3, k * 3, zl)) {
                        c.fail(key("luxels"), "face " + std::to_string(i) + " view " + w.name + " style " + std::to_string(w.styles[st]));
                        return;
                    }
                    c.count("lightmaps compared");
                }
            }
        c.outcome(hstr(lit));
    }
    c.nontrivial(hstr(key("")));
}
#include "light_spaces.inc"
} // namespace
int main(int argc, char **argv)
{
    return main_(argc, argv, {
        {"L01", "exploration",
            "every scene of each lattice (light position and falloff formula; spot lights; one or two blockers of every kind, material, shadow flag, channel mask and offset; pairs of lights and styles; sunlight; sample grids; BSP formats; two rooms with and without vis data), compiled and lit by the real qbsp, vis and light in-process; every luxel of every face compared with the documented formula (exact inside, undecided near shadow edges)",
            {"luxels within 2.1 units of a shadow edge, a spot cone's edge or another solid are not judged", "rounding tolerance 1 to 2 of 255"}, l01, 120, 1500},
        {"L03", "exploration",
            "every combination of output options, layout options and light sets on small maps, every sequence of up to two earlier light runs, -litonly and -lit2; each view an engine can read (vanilla, LMSHIFT, LMOFFSET, LMSTYLE, LMSTYLE16, DECOUPLED_LM; grey, .lit, .lux, RGBLIGHTING, LIGHTINGDIR) checked for bounds, overlap, matching layout and contents",
            {"-litonly together with -world_units_per_luxel is not judged"}, l03, 120, 1500},
    });
}
