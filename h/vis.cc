// V01 soundness, V04 PHS, V06 cluster mapping and refusal, V07 ambient levels
#include "visworld.hh"
#include <algorithm>
#include <cstring>
using namespace vw;
using namespace mc;

static const bspversion_t *Q1() { return &bspver_q1; }
static const bspversion_t *Q2() { return &bspver_q2; }

struct Cfg
{
    int level = 4; // 5 = -fast
    int xf = 0;
    int game = 1;
    double ratio = -1; // targetchecks
    double visdist = 0;
    int reverse = 0; // order in the portal file
    std::vector<std::string> args() const
    {
        std::vector<std::string> a;
        if (level == 5)
            a.push_back("-fast");
        else
            a.insert(a.end(), {"-level", std::to_string(level)});
        if (ratio >= 0)
            a.insert(a.end(), {"-targetchecks", std::to_string(ratio)});
        if (visdist > 0)
            a.insert(a.end(), {"-visdist", std::to_string(visdist)});
        return a;
    }
    std::string str() const
    {
        std::string s = game == 1 ? "q1" : "q2";
        for (auto &x : args())
            s += " " + x;
        return s + " transform " + std::to_string(xf) + (reverse ? " portal order " + std::to_string(reverse) : "");
    }
};

static Result compute(const World &w, const Cfg &c)
{
    Affine f = transform(c.xf);
    auto ver = c.game == 1 ? Q1() : Q2();
    write_bsp("m.bsp", ver, w.rooms());
    spit("m.prt", prt_text(w, f, {}, c.reverse));
    std::filesystem::remove("m.vis");
    std::filesystem::remove("m.vi0");
    auto a = c.args();
    if (c.game == 1)
        a.push_back("-noambient");
    return run_vis("m", w.rooms(), a);
}

static void check_sound(const World &w, const Cfg &c, const Sight &s, Ctx &ctx, const std::string &key, Result *out = nullptr)
{
    Result r = compute(w, c);
    ctx.count("vis_runs");
    auto where = [&] { return describe(w) + "\nconfig: " + c.str() + "\nPVS: " + show(r.pvs) + "\nline of sight: " + show(s.sees); };
    if (r.threw) {
        ctx.fail("error:" + key, "vis failed: " + r.error + "\n" + where());
        return;
    }
    if (!r.bad.empty()) {
        ctx.fail("malformed:" + key, r.bad + "\n" + where());
        return;
    }
    Sight lim;
    const Sight *must = &s;
    if (c.visdist > 0) {
        Affine f = transform(c.xf);
        lim = line_of_sight(w, c.visdist, &f);
        must = &lim;
        for (int a = 0; a < w.rooms(); a++) // adjacency is not limited by a sample distance
            ;
    }
    size_t nsee = 0;
    for (int a = 0; a < w.rooms(); a++) {
        nsee += r.pvs[a].size();
        for (int b : must->sees[a])
            if (!r.pvs[a].count(b)) {
                ctx.fail("hidden:" + key, "room " + std::to_string(b) + " is in line of sight of room " + std::to_string(a) + " but not in its PVS\n" + where());
                return;
            }
        for (int b : r.pvs[a])
            if (!s.reach[a].count(b)) {
                ctx.fail("unreachable:" + key, "room " + std::to_string(b) + " cannot be reached from room " + std::to_string(a) + " but is in its PVS\n" + where());
                return;
            }
    }
    uint64_t h = 1;
    for (auto &x : r.pvs)
        for (int y : x)
            h = hcomb(h, y + 100 * (&x - r.pvs.data()));
    ctx.outcome(h);
    bool reduced = false, beyond = false;
    for (int a = 0; a < w.rooms(); a++) {
        reduced |= r.pvs[a].size() < s.reach[a].size();
        beyond |= s.sees[a].size() > 2;
    }
    if (beyond)
        ctx.nontrivial(hcomb(hstr(describe(w)), hstr(c.str())));
    if (reduced)
        ctx.count("runs_where_something_is_culled");
    if (reduced && beyond)
        ctx.sample(where());
    if (out)
        *out = std::move(r);
}

// window alphabets
static std::vector<std::array<double, 2>> win(int k)
{
    switch (k) {
        case 1: return rect(0, 0, 64, 64);
        case 2: return rect(24, 24, 40, 40);
        case 3: return rect(0, 0, 16, 64); // slit at one end
        case 4: return rect(48, 0, 64, 64); // slit at the other
        case 5: return rect(4, 40, 20, 60);
        default: return rect(0, 28, 64, 36); // horizontal slit
    }
}
static World grid(int nx, int ny, int nz, const std::vector<int> &opts, bool &any)
{
    World w;
    w.nx = nx, w.ny = ny, w.nz = nz;
    size_t e = 0;
    any = false;
    for (int ax = 0; ax < 3; ax++)
        for (int z = 0; z < nz - (ax == 2); z++)
            for (int y = 0; y < ny - (ax == 1); y++)
                for (int x = 0; x < nx - (ax == 0); x++) {
                    int k = opts[e++];
                    if (k) {
                        w.add(x, y, z, ax, win(k));
                        any = true;
                    }
                }
    return w;
}
static int edges(int nx, int ny, int nz)
{
    return (nx - 1) * ny * nz + nx * (ny - 1) * nz + nx * ny * (nz - 1);
}
static uint64_t ipow(uint64_t b, int e)
{
    uint64_t r = 1;
    while (e--)
        r *= b;
    return r;
}

static Space grid_space(const std::string &name, int nx, int ny, int nz, std::vector<int> alpha, std::vector<Cfg> cfgs, bool compare_fast = false)
{
    int E = edges(nx, ny, nz);
    Space s;
    s.name = name;
    s.size = ipow(alpha.size(), E);
    s.chunk = 16;
    s.run = [=](uint64_t i, Ctx &ctx) {
        Digits d(i);
        std::vector<int> o;
        for (int e = 0; e < E; e++)
            o.push_back(alpha[d(alpha.size())]);
        bool any;
        World w = grid(nx, ny, nz, o, any);
        Sight s = line_of_sight(w);
        std::vector<Result> res;
        for (size_t k = 0; k < cfgs.size(); k++) {
            Result r;
            check_sound(w, cfgs[k], s, ctx, name, &r);
            if (compare_fast)
                res.push_back(std::move(r));
        }
        if (compare_fast) {
            // configurations that differ only in the level: nothing may exceed the fast mode's set
            for (size_t k = 0; k < cfgs.size(); k++)
                for (size_t f = 0; f < cfgs.size(); f++)
                    if (cfgs[f].level == 5 && cfgs[k].level != 5 && cfgs[f].xf == cfgs[k].xf && cfgs[f].game == cfgs[k].game && cfgs[k].visdist == cfgs[f].visdist &&
                        res[k].pvs.size() == res[f].pvs.size())
                        for (size_t a = 0; a < res[k].pvs.size(); a++)
                            for (int b : res[k].pvs[a])
                                if (!res[f].pvs[a].count(b))
                                    ctx.fail("beyond-fast:" + name, "full vis sees room " + std::to_string(b) + " from " + std::to_string(a) + ", -fast does not\n" + describe(w) + "\n" + cfgs[k].str());
        }
    };
    return s;
}

// Rooms are the boxes of a dissection of an irregular grid, some of them solid;
// boxes that touch are joined by their whole common face.  One entry per
// dissection: the room of each cell, -1 for solid.
struct Dissection
{
    int n[3];
    std::vector<std::vector<signed char>> cells;
};
static void dissect(Dissection &d, std::vector<signed char> &g, int rooms, int minrooms)
{
    int X = d.n[0], Y = d.n[1], Z = d.n[2], i = 0;
    while (i < X * Y * Z && g[i] != -2)
        i++;
    if (i == X * Y * Z) {
        if (rooms >= minrooms)
            d.cells.push_back(g);
        return;
    }
    int x = i % X, y = i / X % Y, z = i / X / Y;
    g[i] = -1;
    dissect(d, g, rooms, minrooms);
    g[i] = -2;
    for (int dz = 1; z + dz <= Z; dz++)
        for (int dy = 1; y + dy <= Y; dy++)
            for (int dx = 1; x + dx <= X; dx++) {
                auto all = [&](auto &&fn) {
                    for (int c = z; c < z + dz; c++)
                        for (int b = y; b < y + dy; b++)
                            for (int a = x; a < x + dx; a++)
                                fn(g[(c * Y + b) * X + a]);
                };
                bool ok = true;
                all([&](signed char &v) { ok &= v == -2; });
                if (!ok)
                    break;
                all([&](signed char &v) { v = rooms; });
                dissect(d, g, rooms + 1, minrooms);
                all([&](signed char &v) { v = -2; });
            }
}
static World dissected(const Dissection &d, const std::vector<signed char> &g, int coords)
{
    static const double ats[2][3][6] = {{{0, 64, 96, 208, 248, 376}, {0, 40, 136, 176, 272, 288}, {0, 72, 120, 200, 240, 304}},
        {{0, 32, 64, 104, 128, 160}, {0, 128, 160, 352, 400, 560}, {0, 40, 200, 232, 296, 328}}};
    auto &at = ats[coords];
    int nr = 0;
    for (auto v : g)
        nr = std::max(nr, v + 1);
    std::vector<std::array<int, 3>> lo(nr, {99, 99, 99}), hi(nr, {0, 0, 0});
    for (size_t i = 0; i < g.size(); i++)
        if (g[i] >= 0) {
            int p[3] = {int(i) % d.n[0], int(i) / d.n[0] % d.n[1], int(i) / d.n[0] / d.n[1]};
            for (int k = 0; k < 3; k++) {
                lo[g[i]][k] = std::min(lo[g[i]][k], p[k]);
                hi[g[i]][k] = std::max(hi[g[i]][k], p[k] + 1);
            }
        }
    World w;
    w.nx = nr;
    for (int a = 0; a < nr; a++)
        for (int b = 0; b < nr; b++)
            for (int ax = 0; ax < 3; ax++) {
                if (hi[a][ax] != lo[b][ax])
                    continue;
                int u = (ax + 1) % 3, v = (ax + 2) % 3;
                int u0 = std::max(lo[a][u], lo[b][u]), u1 = std::min(hi[a][u], hi[b][u]);
                int v0 = std::max(lo[a][v], lo[b][v]), v1 = std::min(hi[a][v], hi[b][v]);
                if (u0 >= u1 || v0 >= v1)
                    continue;
                Opening o;
                o.a = a, o.b = b, o.axis = ax, o.at = at[ax][hi[a][ax]];
                o.pts = rect(at[u][u0], at[v][v0], at[u][u1], at[v][v1]);
                w.op.push_back(o);
            }
    return w;
}
static Space dissection_space(const std::string &name, int nx, int ny, int nz, int minrooms, std::vector<Cfg> cfgs, int coords = 0)
{
    auto d = std::make_shared<Dissection>();
    d->n[0] = nx, d->n[1] = ny, d->n[2] = nz;
    std::vector<signed char> g(nx * ny * nz, -2);
    dissect(*d, g, 0, minrooms);
    Space s;
    s.name = name;
    s.size = d->cells.size();
    s.chunk = 64;
    s.run = [=](uint64_t i, Ctx &ctx) {
        World w = dissected(*d, d->cells[i], coords);
        Sight s = line_of_sight(w);
        bool far = false; // somebody can be reached that is not next door
        for (auto &x : s.reach)
            far |= x.size() >= 4;
        if (!far)
            return;
        for (auto &c : cfgs)
            check_sound(w, c, s, ctx, name);
    };
    return s;
}

static std::vector<Space> v01(Tier t)
{
    bool T = t == Tier::thorough;
    std::vector<Space> r;
    // every level, transform, target ratio, game on all 2x2 graphs
    std::vector<Cfg> full;
    for (int lv = 0; lv <= 5; lv++)
        for (int xf = 0; xf < (T ? 5 : 3); xf++)
            for (int g = 1; g <= 2; g++)
                full.push_back({lv, xf, g, -1, 0, false});
    for (double ra : {0.0, 1.0, 100.0})
        for (int xf = 0; xf < 2; xf++)
            full.push_back({4, xf, 1, ra, 0, true});
    r.push_back(grid_space("grid2x2-all-configs", 2, 2, 1, T ? std::vector<int>{0, 1, 2, 3, 5} : std::vector<int>{0, 1, 2, 3}, full, true));
    // straight corridors of windows: 4 openings, 9 positions each
    {
        Space s;
        s.name = "corridor5";
        int P = T ? 9 : 5, N = T ? 4 : 4;
        s.size = ipow(P, N);
        s.run = [=](uint64_t i, Ctx &ctx) {
            Digits d(i);
            World w;
            w.nx = N + 1;
            for (int e = 0; e < N; e++) {
                int k = d(P);
                static const int perm[9] = {4, 0, 2, 6, 8, 1, 3, 5, 7};
                int u = perm[k] % 3, v = perm[k] / 3;
                w.add(e, 0, 0, 0, rect(2 + 21 * u, 2 + 21 * v, 2 + 21 * u + 18, 2 + 21 * v + 18));
            }
            Sight s = line_of_sight(w);
            for (int lv : {4, 2, 1})
                check_sound(w, {lv, int(i % 5), 1, -1, 0, (i & 1) != 0}, s, ctx, "corridor5");
        };
        r.push_back(s);
    }
    // polygonal openings with many corners (more than a stack winding holds), 3 in a row
    {
        Space s;
        s.name = "ngons";
        std::vector<int> ns = T ? std::vector<int>{3, 4, 7, 12, 23, 24, 25, 40, 64} : std::vector<int>{3, 5, 12, 24, 25, 64};
        int N = ns.size();
        s.size = ipow(N, 3) * 9;
        s.chunk = 4;
        s.run = [=](uint64_t i, Ctx &ctx) {
            Digits d(i);
            World w;
            w.nx = 4;
            int off = d(9);
            for (int e = 0; e < 3; e++) {
                int n = ns[d(N)];
                double cu = 32 + (e == 1 ? (off % 3 - 1) * 14 : 0), cv = 32 + (e == 2 ? (off / 3 - 1) * 14 : 0);
                w.add(e, 0, 0, 0, ngon(n, cu, cv, 16, 0.1 * e));
            }
            Sight s = line_of_sight(w);
            for (int lv : {4, 1})
                check_sound(w, {lv, int(i % 4), 1, -1, 0, (i & 1) != 0}, s, ctx, "ngons");
        };
        r.push_back(s);
    }
    r.push_back(grid_space("grid3x2", 3, 2, 1, T ? std::vector<int>{0, 1, 3, 4, 5} : std::vector<int>{0, 3, 4}, {{4, 0, 1}, {4, 2, 2}, {3, 1, 1}, {2, 3, 1}, {4, 0, 1, -1, 100}}));
    r.push_back(grid_space("grid2x2x2", 2, 2, 2, T ? std::vector<int>{0, 2, 3} : std::vector<int>{0, 5}, {{4, 0, 1}, {4, 3, 2, 1.0, 0, true}}));
    r.push_back(grid_space("grid3x3", 3, 3, 1, T ? std::vector<int>{0, 3, 4} : std::vector<int>{0, 3}, {{4, 0, 1}, {4, 1, 1}}));
    r.push_back(dissection_space("dissected3x3", 3, 3, 1, 4, {{4, 0, 1}, {4, 0, 2, -1, 0, 2}, {4, 1, 1, 100.0, 0, 3}, {3, 3, 1, -1, 0, 1}, {2, 0, 1, 1.0, 0, 2}, {1, 2, 1}}));
    r.push_back(dissection_space("dissected4x3", 4, 3, 1, 5, {{4, 0, 1}, {4, 0, 1, 2.0, 0, 2}}));
    r.push_back(dissection_space("dissected3x2x2", 3, 2, 2, 5, {{4, 0, 1, -1, 0, 2}, {4, 0, 1, 3.0, 0, 1}}));
    r.push_back(dissection_space("dissected4x3-tall", 4, 3, 1, 5, {{4, 0, 1, 1.0, 0, 0}, {4, 0, 1, 4.0, 0, 2}}, 1));
    if (T)
        r.push_back(dissection_space("dissected5x3", 5, 3, 1, 6, {{4, 0, 1, -1, 0, 2}, {4, 0, 1, 100.0}}));
    // visdist on all 3x2 graphs
    {
        std::vector<Cfg> c;
        for (double vd : {8.0, 40.0, 64.0, 90.0, 130.0, 300.0})
            c.push_back({4, 0, 1, -1, vd});
        r.push_back(grid_space("visdist3x2", 3, 2, 1, T ? std::vector<int>{0, 1, 3, 2} : std::vector<int>{0, 3}, c));
    }
    // more than 32 leaves, so that bit rows span several words: a ring and a comb
    {
        Space s;
        s.name = "long";
        s.size = T ? 200 : 60;
        s.chunk = 2;
        s.run = [=](uint64_t i, Ctx &ctx) {
            World w;
            w.nx = 24 + i;
            for (int x = 0; x + 1 < w.nx; x++)
                w.add(x, 0, 0, 0, x % 7 == 3 ? rect(0, 0, 20, 20) : x % 7 == 6 ? rect(44, 44, 64, 64) : rect(0, 0, 64, 64));
            Sight s = line_of_sight(w);
            for (int g = 1; g <= 2; g++)
                check_sound(w, {4, 0, g}, s, ctx, "long");
            check_sound(w, {1, 1, 1}, s, ctx, "long");
        };
        r.push_back(s);
    }
    return r;
}

// ---------------------------------------------------------------- V04
static std::vector<Space> v04(Tier t)
{
    bool T = t == Tier::thorough;
    std::vector<Space> r;
    auto check = [](const World &w, const Cfg &c, Ctx &ctx, const std::string &key) {
        Result v = compute(w, c);
        ctx.count("vis_runs");
        if (v.threw || !v.bad.empty()) {
            ctx.fail("error:" + key, v.error + v.bad + "\n" + describe(w));
            return;
        }
        for (int again = 0; again < 2; again++) {
            for (int a = 0; a < w.rooms(); a++) {
                std::set<int> want = v.pvs[a];
                for (int b : v.pvs[a])
                    want.insert(v.pvs[b].begin(), v.pvs[b].end());
                if (want != v.phs[a]) {
                    ctx.fail("phs:" + key, "cluster " + std::to_string(a) + " of " + std::to_string(w.rooms()) + (again ? " (-phsonly)" : "") + ": PHS is not the closure of the PVS\nPVS " + show(v.pvs) + "\nPHS " + show(v.phs) + "\n" + describe(w));
                    return;
                }
                if (want.size() > v.pvs[a].size())
                    ctx.nontrivial(hcomb(hstr(describe(w)), a));
            }
            if (again == 0) { // -phsonly recomputes the same sets and leaves the PVS alone
                auto before = v.pvs;
                v = run_vis("m", w.rooms(), {"-phsonly"});
                ctx.count("vis_runs");
                if (v.threw || !v.bad.empty() || v.pvs != before) {
                    ctx.fail("phsonly:" + key, v.error + v.bad + " PVS changed by -phsonly\n" + describe(w));
                    return;
                }
            }
        }
        uint64_t h = 1;
        for (auto &x : v.phs)
            for (int y : x)
                h = hcomb(h, y);
        ctx.outcome(h);
        ctx.sample(describe(w) + "\nPVS " + show(v.pvs) + "\nPHS " + show(v.phs));
    };
    {
        // every number of clusters: a corridor where each cluster sees its neighbours through bent windows
        Space s;
        s.name = "corridor-every-size";
        s.size = T ? 300 : 140;
        s.chunk = 2;
        s.run = [=](uint64_t i, Ctx &ctx) {
            World w;
            w.nx = i + 1;
            for (int x = 0; x + 1 < w.nx; x++)
                w.add(x, 0, 0, 0, x % 3 == 0 ? rect(0, 0, 12, 12) : x % 3 == 1 ? rect(50, 50, 62, 62) : rect(0, 50, 12, 62));
            check(w, {4, 0, 2}, ctx, "corridor");
            check(w, {5, 0, 2}, ctx, "corridor-fast");
        };
        r.push_back(s);
    }
    {
        Space s;
        s.name = "grid3x2";
        s.size = ipow(T ? 4 : 3, 7);
        s.run = [=](uint64_t i, Ctx &ctx) {
            Digits d(i);
            std::vector<int> o;
            static const int al[4] = {0, 3, 4, 2};
            for (int e = 0; e < 7; e++)
                o.push_back(al[d(T ? 4 : 3)]);
            bool any;
            World w = grid(3, 2, 1, o, any);
            check(w, {4, 0, 2}, ctx, "grid3x2");
        };
        r.push_back(s);
    }
    {
        // rows whose last byte, second last byte etc. differ: two corridors joined at every position
        Space s;
        s.name = "comb-every-size";
        s.size = T ? 120 : 70;
        s.chunk = 2;
        s.run = [=](uint64_t i, Ctx &ctx) {
            World w;
            w.nx = i + 2;
            w.ny = 2;
            for (int x = 0; x + 1 < w.nx; x++)
                w.add(x, 0, 0, 0, rect(0, 0, 64, 64));
            for (int x = 0; x < w.nx; x++)
                w.add(x, 0, 0, 1, x % 2 ? rect(0, 0, 8, 8) : rect(56, 56, 64, 64));
            check(w, {4, 0, 2}, ctx, "comb");
        };
        r.push_back(s);
    }
    return r;
}

// ---------------------------------------------------------------- V06
static std::vector<Space> v06(Tier t)
{
    bool T = t == Tier::thorough;
    std::vector<Space> r;
    {
        // every assignment of L leaves to C clusters (each used at least once not required)
        Space s;
        s.name = "assignments";
        int L = T ? 7 : 5, C = 3;
        s.size = 0;
        for (int l = 1; l <= L; l++)
            s.size += ipow(C, l) * 2;
        s.run = [=](uint64_t i, Ctx &ctx) {
            int l = 1;
            while (i >= ipow(C, l) * 2) {
                i -= ipow(C, l) * 2;
                l++;
            }
            int fmt = 2 + i % 2;
            Digits d(i / 2);
            PrtOptions po;
            po.format = fmt;
            for (int k = 0; k < l; k++)
                po.cluster_of_leaf.push_back(d(C));
            // clusters: corridor of 3 with offset windows so that 0 does not see 2 (with the windows
            // far apart), or a line where it does
            for (int kind = 0; kind < 2; kind++) {
                World w;
                w.nx = C;
                w.add(0, 0, 0, 0, rect(0, 0, 8, 8));
                w.add(1, 0, 0, 0, kind ? rect(0, 0, 8, 8) : rect(0, 0, 8, 8));
                if (!kind)
                    w.op.pop_back(); // cluster 2 unreachable
                write_bsp("m.bsp", Q1(), l);
                spit("m.prt", prt_text(w, transform(0), po));
                std::filesystem::remove("m.vis");
                Result v = run_vis("m", l, {"-noambient"});
                ctx.count("vis_runs");
                std::string key = std::string("assign:") + (fmt == 2 ? "PRT2" : "AM");
                std::string txt = "leaf clusters";
                for (int c : po.cluster_of_leaf)
                    txt += " " + std::to_string(c);
                if (v.threw || !v.bad.empty()) {
                    // every leaf belongs to some cluster, so nothing can be wrong
                    ctx.fail(key, v.error + v.bad + "\n" + txt);
                    return;
                }
                Sight s = line_of_sight(w);
                for (int a = 0; a < l; a++) {
                    std::set<int> want;
                    for (int b = 0; b < l; b++)
                        if (s.sees[po.cluster_of_leaf[a]].count(po.cluster_of_leaf[b]))
                            want.insert(b);
                    if (want != v.pvs[a]) {
                        ctx.fail(key, "leaf " + std::to_string(a) + " wrong\n" + txt + " kind " + std::to_string(kind) + "\nPVS " + show(v.pvs));
                        return;
                    }
                }
                ctx.nontrivial(hcomb(hcomb(hstr(txt), kind), fmt));
                ctx.sample(txt + " PVS " + show(v.pvs));
                uint64_t h = 7;
                for (auto &x : v.pvs)
                    for (int y : x)
                        h = hcomb(h, y + 31 * (&x - v.pvs.data()));
                ctx.outcome(h);
                // leaves of one cluster share a row
                auto &b = std::get<mbsp_t>(v.data.bsp);
                for (int a = 0; a < l; a++)
                    for (int c = 0; c < a; c++)
                        if (po.cluster_of_leaf[a] == po.cluster_of_leaf[c] && b.dleafs[a + 1].visofs != b.dleafs[c + 1].visofs)
                            ctx.fail(key + ":row", "leaves of one cluster do not share their row\n" + txt);
            }
        };
        r.push_back(s);
    }
    {
        // more leaves than fit a word, spread over few clusters
        Space s;
        s.name = "many-leaves";
        s.size = T ? 400 : 140;
        s.chunk = 4;
        s.run = [=](uint64_t i, Ctx &ctx) {
            int l = i + 3;
            for (int fmt = 2; fmt <= 3; fmt++)
                for (int stride : {1, 5}) {
                    PrtOptions po;
                    po.format = fmt;
                    for (int k = 0; k < l; k++)
                        po.cluster_of_leaf.push_back(k / stride % 3);
                    World w;
                    w.nx = 3;
                    w.add(0, 0, 0, 0, rect(0, 0, 8, 8));
                    write_bsp("m.bsp", Q1(), l);
                    spit("m.prt", prt_text(w, transform(0), po));
                    std::filesystem::remove("m.vis");
                    Result v = run_vis("m", l, {"-noambient"});
                    ctx.count("vis_runs");
                    std::string key = "many:" + std::to_string(fmt);
                    if (v.threw || !v.bad.empty()) {
                        ctx.fail(key, v.error + v.bad + " leaves " + std::to_string(l));
                        return;
                    }
                    Sight s = line_of_sight(w);
                    for (int a = 0; a < l; a++) {
                        std::set<int> want;
                        for (int b = 0; b < l; b++)
                            if (s.sees[po.cluster_of_leaf[a]].count(po.cluster_of_leaf[b]))
                                want.insert(b);
                        if (want != v.pvs[a]) {
                            ctx.fail(key, std::to_string(l) + " leaves: row of leaf " + std::to_string(a) + " is wrong\n");
                            return;
                        }
                    }
                    ctx.nontrivial(hcomb(l, fmt * 10 + stride));
                }
        };
        r.push_back(s);
    }
    // damage: every truncation and every single-token replacement of portal files of each format
    for (int fmt = 0; fmt < 4; fmt++) { // 0 = Q2 PRT1, 1..3 = Q1 formats
        World w;
        w.nx = 3;
        w.add(0, 0, 0, 0, rect(0, 0, 8, 8));
        w.add(1, 0, 0, 0, ngon(3, 32, 32, 10, 0));
        PrtOptions po;
        po.format = std::max(1, fmt);
        po.cluster_of_leaf = {0, 1, 2, 1};
        int leafs = fmt >= 2 ? 4 : 3;
        std::string text = prt_text(w, transform(0), po);
        auto run = [=](const std::string &txt, bool must_fail, Ctx &ctx, const std::string &key, const std::string &what, bool bad_ok = false) {
            write_bsp("m.bsp", fmt == 0 ? Q2() : Q1(), leafs);
            std::string before = slurp("m.bsp");
            spit("m.prt", txt);
            std::filesystem::remove("m.vis");
            Result v = run_vis("m", leafs, fmt == 0 ? std::vector<std::string>{} : std::vector<std::string>{"-noambient"});
            ctx.count("vis_runs");
            if (v.threw) {
                ctx.count("refused");
                ctx.outcome(hstr(v.error));
                if (slurp("m.bsp") != before)
                    ctx.fail(key + ":touched", what + ": refused, but the .bsp was changed\n" + txt);
            } else if (must_fail) {
                ctx.fail(key, what + ": accepted\n" + txt);
            } else if (!v.bad.empty() && !bad_ok) // (with fewer leafs than the map, some leafs get no row)
                ctx.fail(key + ":bad", what + ": " + v.bad + "\n" + txt);
            ctx.nontrivial(hstr(txt, fmt));
        };
        Space s;
        s.name = "truncated-" + std::to_string(fmt);
        s.size = text.size();
        s.case_timeout = 20;
        // what comes after the last needed token is only white space; everything shorter must be refused.
        // Cutting inside the last token can leave a shorter valid number.
        size_t last = text.find_last_not_of(" \n");
        size_t lasttok = text.find_last_of(" \n", last) + 1;
        if (fmt <= 1)
            lasttok = last; // the closing parenthesis
        s.run = [=](uint64_t i, Ctx &ctx) {
            run(text.substr(0, i), i <= lasttok, ctx, "truncated:" + std::to_string(fmt), "cut after " + std::to_string(i) + " bytes");
        };
        r.push_back(s);
        // token replacement
        std::vector<std::pair<size_t, size_t>> toks;
        for (size_t p = 0; p < text.size();) {
            while (p < text.size() && isspace(text[p]))
                p++;
            size_t e = p;
            while (e < text.size() && !isspace(text[e]))
                e++;
            if (e > p)
                toks.push_back({p, e});
            p = e;
        }
        static const std::vector<std::string> repl{"x", "-1", "-2", "3", "4", "5", "65", "1000", "99999999999", "(", ""};
        Space m;
        m.name = "damaged-" + std::to_string(fmt);
        m.size = toks.size() * repl.size();
        m.case_timeout = 20;
        m.run = [=](uint64_t i, Ctx &ctx) {
            auto [b, e] = toks[i / repl.size()];
            std::string rp = repl[i % repl.size()];
            std::string txt = text.substr(0, b) + rp + text.substr(e);
            size_t k = i / repl.size();
            // header counts and leaf numbers of portals: values out of range must be refused
            int hdr = fmt <= 1 ? 3 : 4;
            bool must = false;
            std::string old = text.substr(b, e - b);
            if (k > 0 && (int)k < hdr && rp == "-1")
                must = true; // a negative count
            if (k == 0)
                must = true;
            else if (rp == "x" || rp == "(")
                must = old != rp && (int)k < hdr; // a word where a count belongs
            else if ((int)k == hdr + 1 || (int)k == hdr + 2)
                must = rp == "-1" || rp == "-2" || rp == "3" || rp == "4" || rp == "5" || rp == "65" || rp == "1000";
            else if ((int)k == hdr)
                must = rp == "-1" || rp == "-2" || rp == "65" || rp == "1000";
            run(txt, must, ctx, "damaged:" + std::to_string(fmt), "token " + std::to_string(k) + " '" + old + "' replaced by '" + rp + "'", (int)k < hdr);
        };
        r.push_back(m);
    }
    {
        // a portal file with more leaves than the map
        Space s;
        s.name = "wrong-map";
        s.size = 3 * 4;
        s.run = [=](uint64_t i, Ctx &ctx) {
            int fmt = 1 + i % 3, have = 1 + i / 3;
            PrtOptions po;
            po.format = fmt;
            World w;
            w.nx = 6;
            po.cluster_of_leaf = {0, 1, 2, 3, 4, 5, 1};
            for (int x = 0; x < 5; x++)
                w.add(x, 0, 0, 0, rect(0, 0, 8, 8));
            write_bsp("m.bsp", Q1(), have);
            std::string before = slurp("m.bsp");
            spit("m.prt", prt_text(w, transform(0), po));
            std::filesystem::remove("m.vis");
            Result v = run_vis("m", have, {"-noambient"});
            ctx.count("vis_runs");
            if (!v.threw)
                ctx.fail("wrong-map", "a portal file with more leafs than the map was accepted");
            else if (slurp("m.bsp") != before)
                ctx.fail("wrong-map:touched", "the .bsp was changed");
            ctx.nontrivial(i);
        };
        r.push_back(s);
    }
    return r;
}

// ---------------------------------------------------------------- V07
static std::vector<Space> v07(Tier t)
{
    bool T = t == Tier::thorough;
    static const std::vector<std::string> tex{"", "sky1", "*water1", "*slime0", "*lava1", "*04water1", "wall"};
    static const int kind[] = {-1, AMBIENT_SKY, AMBIENT_WATER, AMBIENT_WATER, AMBIENT_LAVA, AMBIENT_WATER, -1};
    static const int off[] = {-1, 0, 1, 2, 3, 1, -1}; // which -noambient flag silences it
    Space s;
    s.name = "textures";
    int L = 3, K = tex.size();
    s.size = ipow(K, L) * (T ? 16 : 6) * 2;
    s.run = [=](uint64_t i, Ctx &ctx) {
        Digits d(i);
        std::vector<int> tx;
        for (int l = 0; l < L; l++)
            tx.push_back(d(K));
        int flags = d(T ? 16 : 6);
        if (!T) {
            static const int fl[] = {0, 1, 2, 4, 8, 15};
            flags = fl[flags];
        }
        int graph = d(2); // 0: 0-1 joined, 2 apart; 1: clusters {0,1},{2} via PRT2
        World w;
        PrtOptions po;
        std::vector<int> cl{0, 1, 2};
        if (graph == 0) {
            w.nx = 3;
            w.add(0, 0, 0, 0, rect(0, 0, 8, 8));
        } else {
            w.nx = 2;
            po.format = 2;
            cl = po.cluster_of_leaf = {0, 1, 0};
        }
        std::vector<std::vector<std::string>> names(L);
        for (int l = 0; l < L; l++) {
            names[l] = {"wall2"};
            if (tx[l])
                names[l].push_back(tex[tx[l]]);
        }
        write_bsp("m.bsp", Q1(), L, &names);
        spit("m.prt", prt_text(w, transform(0), po));
        std::filesystem::remove("m.vis");
        std::vector<std::string> args;
        static const char *fn[] = {"-noambientsky", "-noambientwater", "-noambientslime", "-noambientlava"};
        if (flags == 15 && (i & 1))
            args = {"-noambient"};
        else
            for (int k = 0; k < 4; k++)
                if (flags >> k & 1)
                    args.push_back(fn[k]);
        Result v = run_vis("m", L, args);
        ctx.count("vis_runs");
        std::string txt = "textures";
        for (int l = 0; l < L; l++)
            txt += " '" + tex[tx[l]] + "'";
        txt += " flags " + std::to_string(flags) + " graph " + std::to_string(graph);
        if (v.threw || !v.bad.empty()) {
            ctx.fail("error", v.error + v.bad + "\n" + txt);
            return;
        }
        for (int a = 0; a < L; a++) {
            int want[4] = {0, 0, 0, 0};
            for (int b : v.pvs[a])
                if (kind[tx[b]] >= 0 && !(flags >> off[tx[b]] & 1))
                    want[kind[tx[b]]] = 255;
            for (int k = 0; k < 4; k++)
                if (want[k] != v.ambient[a][k]) {
                    ctx.fail("ambient", "leaf " + std::to_string(a) + " channel " + std::to_string(k) + ": level " + std::to_string(v.ambient[a][k]) + ", expected " + std::to_string(want[k]) + "\n" + txt);
                    return;
                }
        }
        ctx.nontrivial(i);
        uint64_t h = 3;
        for (auto &a : v.ambient)
            for (int x : a)
                h = hcomb(h, x);
        ctx.outcome(h);
        ctx.sample(txt);
    };
    return {s};
}

int main(int argc, char **argv)
{
    logging::mask = logging::flag::NONE;
    return main_(argc, argv,
        {{"V01", "exploration", "every opening pattern of small room grids and corridors x vis options; a case is non-trivial if some room sees past its neighbours", {"line of sight is witnessed through a finite set of sample points of each opening, 0.5 units inside; rooms are affine images of boxes"}, v01},
            {"V04", "exploration", "corridors and combs of every cluster count, all 3x2 grids; non-trivial: a cluster whose PHS exceeds its PVS", {}, v04},
            {"V06", "exploration", "every assignment of leaves to clusters, every truncation and token replacement of portal files; every case is distinct", {}, v06},
            {"V07", "exploration", "every assignment of ambient textures to three leaves x options", {}, v07}});
}
