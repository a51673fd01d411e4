const I3 POS[4] = {{0, 0, 0}, {-70, 33, 40}, {61, -50, -43}, {10, 60, 5}};
// places for one box; 0-3 float or stand, 4 touches a wall
void place(Blk &b, int i)
{
    switch (i) {
        case 0: b.mn = {-20, -12, -64}, b.mx = {8, 20, 10}; break;
        case 1: b.mn = {24, -40, -16}, b.mx = {48, 8, 16}; break;
        case 2: b.mn = {-64, 24, -40}, b.mx = {-40, 56, 40}; break;
        case 3: b.mn = {-60, -60, 20}, b.mx = {60, -30, 30}; break;
        default: b.mn = {64, -20, -30}, b.mx = {96, 20, 20}; break;
    }
}
enum
{
    B_SOLID,
    B_GROUP,
    B_DETAIL,
    B_WALL,
    B_ILLUS,
    B_ILLUS_SHADOW,
    B_WATER,
    B_DETAIL_NOSHADOW,
    B_MODEL,
    B_MSHADOW,
    B_MSELF,
    B_MWORLDONLY,
    B_MSWITCH,
    B_MMASK2,
    B_MMASK3,
    B_MORIGIN,
    B_MMIN,
    B_MIGNORE,
    NB
};
Blk block(int kind, int at)
{
    Blk b;
    place(b, at);
    auto bm = [&](Kind k) {
        b.bmodel = true;
        b.kind = k;
    };
    switch (kind) {
        case B_GROUP: b.type = GROUP; break;
        case B_DETAIL: b.type = DETAIL; break;
        case B_WALL: b.type = WALL; break;
        case B_ILLUS: b.type = ILLUS; break;
        case B_ILLUS_SHADOW: bm(K_SHADOW), b.cls = "func_illusionary"; break;
        case B_WATER: b.type = WATER; break;
        case B_DETAIL_NOSHADOW: bm(K_NOSHADOW), b.cls = "func_door"; break;
        case B_MODEL: bm(K_NOSHADOW); break;
        case B_MSHADOW: bm(K_SHADOW); break;
        case B_MSELF: bm(K_SELF); break;
        case B_MWORLDONLY: bm(K_WORLDONLY); break;
        case B_MSWITCH: bm(K_SWITCH); break;
        case B_MMASK2: bm(K_SHADOW), b.mask = 2; break;
        case B_MMASK3: bm(K_SHADOW), b.mask = 3; break;
        case B_MORIGIN:
            bm(K_SHADOW);
            b.off = {-8, 16, -4};
            break;
        case B_MMIN: bm(K_SHADOW), b.minlight = 40; break;
        case B_MIGNORE: bm(K_SHADOW), b.lightignore = true; break;
    }
    return b;
}
const int NL = 20;
Light preset(int k)
{
    Light l;
    l.at = POS[k % 4];
    switch (k) {
        case 0: break;
        case 1: l.delay = 1, l.light = 120; break;
        case 2: l.delay = 2, l.light = 200, l.color = {255, 128, 0}; break;
        case 3: l.delay = 5, l.light = 250, l.style = 5; break;
        case 4: l.delay = 4, l.light = 60, l.color = {100, 200, 255}; break;
        case 5: l.light = -150; break;
        case 6: l.delay = 3, l.light = 40; break;
        case 7: l.targetname = "a"; break;
        case 8: l.targetname = "b", l.color = {30, 255, 60}; break;
        case 9: l.targetname = "a", l.light = 200; break;
        case 10: l.lmask = 2; break;
        case 11: l.lmask = 3, l.smask = 1; break;
        case 12: l.lmask = 1, l.smask = 2; break;
        case 13: l.spot = 1, l.aim = {200, -30, 0}, l.angle = 60, l.soft = 30; break;
        case 14: l.spot = 2, l.aim = {30, -20, -60}, l.at = {-30, 40, 50}; break;
        case 15: l.delay = 4, l.light = 50, l.style = 3; break;
        case 16: l.light = 400, l.wait = 1.5, l.anglescale = 1; break;
        case 17: l.light = 300, l.falloff = 120, l.anglescale = 0; break;
        case 18: l.nostatic = true; break;
        case 19: l.light = 250, l.style = 9, l.lmask = 6; break;
    }
    return l;
}
Light raw(Light l, std::string k)
{
    l.raw = k;
    return l;
}
using Sp = std::vector<Space>;
Space one(const std::string &name, uint64_t n, std::function<Run(uint64_t)> f, int what)
{
    return {name, n, [f, what](uint64_t i, Ctx &c) { judge(f(i), c, what); }, 16, 120};
}
const int SUNM[9][2] = {{0, -90}, {30, -60}, {135, -40}, {270, -20}, {200, -75}, {45, -35}, {90, -50}, {310, -10}, {10, 20}};
std::vector<Space> l01(Tier t)
{
    bool th = t == Tier::thorough;
    Sp v;
    v.push_back(one("formulas", 6 * 4 * 3 * 4 * 2, [](uint64_t i) {
        Digits d(i);
        Run r;
        Light l;
        l.delay = int(d(6));
        l.at = POS[d(4)];
        double L[3] = {300, 80, 1000}, W[4] = {1, 0.5, 2, 3.5};
        l.light = L[d(3)];
        l.wait = W[d(4)];
        if (d(2))
            l.color = {255, 100, 20};
        r.s.l.push_back(l);
        r.s.b.push_back(block(B_SOLID, 1));
        return r;
    }, LIGHT));
    v.push_back(one("spotlights", 7 * 4 * 5 * 3 * 2, [](uint64_t i) {
        Digits d(i);
        Run r;
        Light l;
        I3 aims[7] = {{0, -90, 0}, {45, 0, 0}, {200, -30, 0}, {-90, 60, 0}, {40, 10, -60}, {-60, -70, 30}, {90, 79, 0}};
        int a = int(d(7));
        l.aim = aims[a];
        l.spot = a < 4 ? 1 : 2;
        l.at = POS[d(4)];
        if (l.aim == l.at || (l.spot == 2 && a == 6))
            l.aim = {20, -31, -60};
        double A[5][2] = {{0, 0}, {60, 0}, {60, 30}, {90, 89}, {20, 5}};
        int k = int(d(5));
        l.angle = A[k][0], l.soft = A[k][1];
        l.delay = std::array<int, 3>{0, 2, 3}[d(3)];
        l.light = l.delay == 3 ? 100 : 400;
        r.s.l.push_back(l);
        r.s.b.push_back(block(d(2) ? B_DETAIL : B_MSHADOW, 0));
        return r;
    }, LIGHT));
    v.push_back(one("blockers", NB * 5 * NL * (th ? 4 : 1), [th](uint64_t i) {
        Digits d(i);
        Run r;
        int k = int(d(NB)), p = int(d(5)), l = int(d(NL));
        r.s.b.push_back(block(k, p));
        Light x = preset(l);
        if (th)
            x.at = POS[d(4)];
        r.s.l.push_back(x);
        return r;
    }, LIGHT));
    v.push_back(one("pairs of blockers", NB * NB * (th ? 4 : 2), [](uint64_t i) {
        Digits d(i);
        Run r;
        int k = int(d(NB)), k2 = int(d(NB)), q = int(d(4));
        r.s.b.push_back(block(k, 0));
        r.s.b.push_back(block(k2, q % 2 ? 2 : 1));
        r.s.l.push_back(preset(q < 2 ? 0 : 11));
        r.s.l.push_back(preset(q < 2 ? 10 : 8));
        r.s.l[1].at = POS[3];
        return r;
    }, LIGHT));
    v.push_back(one("pairs of lights", NL * NL * (th ? 4 : 1), [](uint64_t i) {
        Digits d(i);
        Run r;
        int a = int(d(NL)), b = int(d(NL)), q = int(d(4));
        r.s.l.push_back(preset(a));
        r.s.l.push_back(preset(b));
        r.s.l[1].at = POS[(b + 1 + q) % 4];
        const int K[4][2] = {{B_MSWITCH, B_MMASK2}, {B_SOLID, B_MSHADOW}, {B_MMASK3, B_WALL}, {B_MSELF, B_MWORLDONLY}};
        r.s.b.push_back(block(K[q][0], 0));
        r.s.b.push_back(block(K[q][1], 1));
        return r;
    }, LIGHT));
    v.push_back(one("sunlight", 9 * NB * 3 * 2, [](uint64_t i) {
        Digits d(i);
        Run r;
        int m = int(d(9)), k = int(d(NB)), sk = int(d(3)), w = int(d(2));
        r.s.wall[5] = SKY;
        if (sk == 1)
            r.s.wall[0] = SKY;
        if (sk == 2)
            r.s.wall[5] = SOLID, r.s.wall[3] = SKY, r.s.wall[1] = SKY;
        r.s.b.push_back(block(k, k % 4));
        if (w == 0) {
            r.s.sunlight = 200;
            r.s.sunmangle = {double(SUNM[m][0]), double(SUNM[m][1]), 0};
            if (m % 2)
                r.s.suncolor = {255, 200, 100};
        } else {
            Light l;
            l.sun = true;
            l.light = 150;
            l.at = {40, 0, 20};
            l.spot = m % 3;
            l.aim = l.spot == 1 ? I3{SUNM[m][0], SUNM[m][1], 0} : I3{-30 + m, 10 * m, -50};
            l.style = m % 2 ? 7 : 0;
            r.s.l.push_back(l);
        }
        Light l = preset(m);
        l.at = {5, 5, 50};
        if (m > 4)
            r.s.l.push_back(l);
        return r;
    }, LIGHT));
    v.push_back(one("scaling", 3 * 3 * 3 * 3 * 4 * 3, [](uint64_t i) {
        Digits d(i);
        Run r;
        double R[3] = {0.5, 1, 0.25}, G[3] = {1, 1.5, 0.75}, M[3] = {0, 60, 150}, D[3] = {1, 0.5, 2};
        r.s.range = R[d(3)];
        r.s.gamma = G[d(3)];
        r.s.maxlight = M[d(3)];
        r.s.dist = D[d(3)];
        int ml = int(d(4)), as = int(d(3));
        std::string &w = r.s.worldkeys;
        bool opt = as == 1; // as options, or keys
        auto put = [&](const char *o, const char *k, double x) {
            if (opt)
                r.lopt.insert(r.lopt.end(), {std::string("-") + o, num(x)});
            else
                w += kv(k, num(x));
        };
        if (r.s.range != 0.5)
            put("range", "_range", r.s.range);
        if (r.s.gamma != 1)
            put("gamma", "_gamma", r.s.gamma);
        if (r.s.maxlight)
            put("maxlight", "_maxlight", r.s.maxlight);
        if (r.s.dist != 1)
            put("dist", "_dist", r.s.dist);
        if (as == 2) {
            r.s.anglescale = 1;
            w += kv("_anglescale", "1");
        }
        if (ml) {
            r.s.minlight = 45;
            put("minlight", "_minlight", 45);
            if (ml == 2) {
                r.s.mincolor = {255, 100, 40};
                w += kv("_minlight_color", "255 100 40");
            }
            if (ml == 3) {
                r.s.addmin = true;
                put("addmin", "_addmin", 1);
            }
        }
        r.s.l.push_back(preset(0));
        r.s.l.push_back(preset(2));
        r.s.l.push_back(preset(5));
        r.s.l[2].at = POS[2];
        r.s.l.push_back(preset(3));
        r.s.b.push_back(block(B_MSHADOW, 0));
        r.s.b.push_back(block(B_MMIN, 1));
        return r;
    }, LIGHT));
    v.push_back(one("samples", 9 * 6 * 4 * 2, [](uint64_t i) {
        Digits d(i);
        Run r;
        int e = int(d(9)), s = int(d(6)), l = int(d(4)), k = int(d(2));
        const char *E[9] = {"", "-extra", "-extra4", "-soft 1", "-soft 2", "-extra -soft", "-extra4 -soft", "-soft 0", "-extra -soft 1"};
        const int X[9][2] = {{1, 0}, {2, 0}, {4, 0}, {1, 1}, {1, 2}, {2, 1}, {4, 2}, {1, 0}, {2, 1}};
        std::istringstream is(E[e]);
        std::string w;
        while (is >> w)
            r.lopt.push_back(w);
        r.s.extrasamp = X[e][0];
        r.s.soft = X[e][1];
        switch (s) {
            case 1: r.lopt.insert(r.lopt.end(), {"-lightmap_scale", "8"}), r.vscale = 8; break;
            case 2: r.s.worldkeys += kv("_lightmap_scale", "32"), r.vscale = 32; break;
            case 3: r.lopt.insert(r.lopt.end(), {"-lmshift", "3"}); break;
            case 4: r.lopt.insert(r.lopt.end(), {"-lmshift", "5", "-novanilla"}); break;
            case 5: r.lopt.insert(r.lopt.end(), {"-world_units_per_luxel", "12"}); break;
        }
        Light a = preset(std::array<int, 4>{0, 2, 13, 5}[l]);
        r.s.l.push_back(a);
        if (a.light < 0)
            r.s.l.push_back(preset(6)), r.s.l.push_back(preset(1));
        r.s.b.push_back(block(k ? B_SOLID : B_MSHADOW, 1));
        return r;
    }, LIGHT));
    v.push_back(one("bsp formats", 6 * NL, [](uint64_t i) {
        Digits d(i);
        Run r;
        int g = int(d(6));
        const char *G[6] = {"", "-bsp2", "-2psb", "-hexen2", "-hlbsp", "-q2bsp"};
        if (*G[g])
            r.qopt.push_back(G[g]);
        if (g == 5) {
            r.lopt = {"-bounce", "0"};
            r.s.range = 1;
            r.s.cone = 10;
        }
        r.s.b.push_back(block(B_MSHADOW, 1));
        r.s.l.push_back(preset(int(d(NL))));
        r.s.l.push_back(preset(2));
        return r;
    }, LIGHT));
    // three rooms in a row, open through doors at opposite ends; what cannot see a
    // light may be skipped, and nothing else
    v.push_back(one("rooms", 5 * 2 * 4 * 6 * NL, [](uint64_t i) {
        Digits d(i);
        Run r;
        static const char *A[5] = {"", "none", "vis", "rays", "auto"};
        int a = int(d(5));
        r.vis = d(2);
        if (*A[a])
            r.lopt = {"-visapprox", A[a]};
        for (int k = -1; k < 2; k += 2) {
            int x = 40 * k;
            r.s.extra.push_back({{x - 8, k < 0 ? -80 : -48, -64}, {x + 8, k < 0 ? 48 : 80, 64}, SOLID});
            r.s.extra.push_back({{x - 8, k < 0 ? 48 : -80, 0}, {x + 8, k < 0 ? 80 : -48, 64}, SOLID});
        }
        const I3 P[4] = {{-70, 60, -20}, {-70, -40, 30}, {3, 4, -20}, {70, -60, 10}};
        int p = int(d(4)), b = int(d(6)), l = int(d(NL));
        Light x = preset(l);
        x.at = P[p];
        if (x.spot == 2 && x.at == x.aim)
            x.aim[0] += 5;
        r.s.l.push_back(x);
        const int K[6] = {B_SOLID, B_MSHADOW, B_MSWITCH, B_MORIGIN, B_ILLUS, B_DETAIL};
        Blk k = block(K[b], 0);
        if (b == 3)
            k.mn = {10, -50, -50}, k.mx = {26, -30, 0};
        r.s.b.push_back(k);
        return r;
    }, LIGHT));
    v.push_back(one("directions", 9 * 4 * NL * 6, [](uint64_t i) {
        Digits d(i);
        Run r;
        int m = int(d(9)), at_ = int(d(4)), l = int(d(NL)), k = int(d(6));
        r.lopt = {"-lux"};
        Light x = preset(l);
        x.at = POS[at_];
        if (m) {
            r.s.wall[5] = SKY;
            r.s.sunlight = 100;
            r.s.sunmangle = {double(SUNM[m][0]), double(SUNM[m][1]), 0};
            if (!x.style)
                x.style = 11;
        }
        r.s.l.push_back(x);
        const int K[6] = {B_SOLID, B_MSHADOW, B_WALL, B_MORIGIN, B_WATER, B_GROUP};
        r.s.b.push_back(block(K[k], 1));
        return r;
    }, LIGHT));
    return v;
}
std::vector<Space> l03(Tier t)
{
    Sp v;
    static const char *S[] = {"", "-lit", "-bspx", "-bspxlit", "-lux", "-bspxlux", "-bspxonly", "-lit -lux", "-lit -bspxlux", "-novanilla", "-novanilla -bspx", "-novanilla -lux", "-lit -bspx -lux"};
    static const char *X[] = {"", "-lmshift 3", "-lmshift 4", "-lmshift 5", "-lmshift 2", "-lightmap_scale 8", "-lightmap_scale 32", "-world_units_per_luxel 16", "-world_units_per_luxel 10", "-facestyles 8", "-facestyles 2", "-facestyles 8 -lmshift 3", "-facestyles 16 -lmshift 4", "-extra -lmshift 3", "-soft 1 -world_units_per_luxel 24", "-lmshift 3 -world_units_per_luxel 16"};
    const int NS = 13, NX = 16;
    static auto opts = [](const std::string &t) {
        std::istringstream is(t);
        std::string w;
        Opts o;
        while (is >> w)
            o.push_back(w);
        return o;
    };
    static auto scene = [](Run &r, int x, int l) {
        if (x == 5)
            r.vscale = 8;
        if (x == 6)
            r.vscale = 32;
        r.s.extrasamp = x == 13 ? 2 : 1;
        r.s.soft = x == 14;
        r.s.b.push_back(block(B_MSWITCH, 0));
        r.s.b.push_back(block(B_WALL, 1));
        switch (l) {
            case 0: r.s.l = {preset(0)}; break;
            case 1: r.s.l = {preset(2), preset(3)}; break;
            case 2: r.s.l = {preset(0), preset(7), preset(8), preset(3), preset(15), preset(2)}; break;
            case 3:
                for (int k = 0; k < 10; k++) {
                    Light y = preset(0);
                    y.at = POS[k % 4];
                    y.light = 100 + 30 * k;
                    y.style = k;
                    r.s.l.push_back(y);
                }
                break;
            case 4: // dark
                r.s.l = {preset(0)};
                r.s.l[0].light = 60;
                break;
        }
    };
    v.push_back(one("storage", NS * NX * 5, [](uint64_t i) {
        Digits d(i);
        Run r;
        int s = int(d(NS)), x = int(d(NX)), l = int(d(5));
        r.lopt = opts(std::string(X[x]) + " " + S[s]);
        scene(r, x, l);
        return r;
    }, LAYOUT));
    // light is run again on what it wrote
    v.push_back(one("lit again", NX * NX * 5 * 3, [](uint64_t i) {
        Digits d(i);
        Run r;
        int x = int(d(NX)), y = int(d(NX)), s = int(d(5)), l = int(d(3));
        const int P[5][2] = {{0, 0}, {1, 9}, {2, 0}, {9, 1}, {6, 4}};
        r.pre.push_back(opts(std::string(X[x]) + " " + S[P[s][0]]));
        r.lopt = opts(std::string(X[y]) + " " + S[P[s][1]]);
        if (x == 5 || x == 6)
            scene(r, x, l);
        r.s = {};
        scene(r, y, l);
        return r;
    }, LAYOUT));
    v.push_back({"litonly", uint64_t(13) * 5 * 3, [](uint64_t i, Ctx &c) {
        Digits d(i);
        Run r;
        const int P[13] = {0, 1, 2, 3, 4, 5, 6, 9, 10, 11, 12, 13, 1};
        int x = P[d(13)], l = int(d(5)), k = int(d(3));
        scene(r, x, l);
        r.pre.push_back(opts(X[x]));
        if (k == 1)
            r.pre.push_back(r.pre.back());
        if (k == 2)
            r.pre.back().push_back("-bspx");
        judge_only(r, r.pre.front(), false, c);
    }, 16, 120});
    v.push_back({"lit2", uint64_t(13) * 5 * 3, [](uint64_t i, Ctx &c) {
        Digits d(i);
        Run r;
        const int P[13] = {0, 1, 2, 3, 4, 5, 6, 10, 13, 1, 2, 3, 4};
        int x = P[d(13)], l = int(d(5)), k = int(d(3));
        if (l == 3)
            l = 1; // no more styles than the file holds
        if (l == 2)
            l = 0;
        scene(r, x, l);
        if (k == 1)
            r.pre.push_back({});
        if (k == 2)
            r.pre.push_back(opts("-lmshift 3 -lit"));
        judge_only(r, opts(X[x]), true, c);
    }, 16, 120});
    return v;
}
