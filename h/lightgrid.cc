// L04: the LIGHTGRID_OCTREE lump.  LightGrid() runs unchanged; the three
// questions it asks about the world (is this point solid, can it be moved, what
// light is there) are answered by the case, and the lump is decoded here.
#include <mc/explore.hh>
#include <light/lightgrid.hh>
#include <light/light.hh>
#include <light/entities.hh>
#include <light/ltface.hh>
#include <common/bspfile.hh>
#include <common/bsputils.hh>
#include <common/log.hh>
#include <cmath>
#include <cstring>
#include <map>
#include <set>
using namespace mc;
namespace
{
struct P
{
    float x, y, z;
};
enum Kind : uint8_t
{
    LIT,
    SOLIDPT,
    FIXED // solid, but a point nearby is free
};
struct Grid
{
    int n[3];
    float dist[3];
    float mins[3];
    std::vector<uint8_t> kind; // Kind per grid point
    std::vector<uint16_t> val; // which light
    int at(int x, int y, int z) const { return (z * n[1] + y) * n[0] + x; }
};
Grid *cur;
std::string wild; // a question about a point that is not on the grid
std::set<int> asked;
std::vector<uint8_t> seen;
constexpr float OFF = 0.75f; // where a point is moved to
int index_of(float x, float y, float z)
{
    float p[3] = {x, y, z};
    int i[3];
    for (int a = 0; a < 3; a++) {
        float k = (p[a] - cur->mins[a]) / cur->dist[a];
        i[a] = (int)std::lround(k);
        if (i[a] < 0 || i[a] >= cur->n[a] || std::abs(cur->mins[a] + i[a] * cur->dist[a] - p[a]) > 1e-3) {
            wild = std::to_string(x) + " " + std::to_string(y) + " " + std::to_string(z);
            return 0;
        }
    }
    return cur->at(i[0], i[1], i[2]);
}
struct S
{
    int style;
    float c[3];
};
// the light of value v
std::vector<S> light(int v)
{
    std::vector<S> r;
    int n = v % 5; // 0..4 styles
    for (int i = 0; i < n; i++) {
        S s;
        s.style = (v / 5 + i * 37) % 255;
        for (int c = 0; c < 3; c++) {
            static const float t[] = {0, 0.4f, 0.5f, 1, 1.5f, 77.25f, 128, 200.75f, 254.49f, 254.5f, 255, 255.75f, 300, -3};
            s.c[c] = t[(v * 7 + i * 5 + c * 3) % 14];
        }
        r.push_back(s);
    }
    return r;
}
} // namespace
// stand-ins (linked with --wrap)
bool mc_point_in_solid(const mbsp_t *, const qvec3d &p) asm("__wrap__Z18Light_PointInWorldPK6mbsp_tRK4qvecIdLm3EE");
bool mc_point_in_solid(const mbsp_t *, const qvec3d &p) { return cur->kind[index_of(p[0], p[1], p[2])] != LIT; }
std::tuple<qvec3f, bool> mc_fix(const mbsp_t *, const qvec3f &p, bool warn, float) asm("__wrap__Z14FixLightOnFacePK6mbsp_tRK4qvecIfLm3EEbf");
std::tuple<qvec3f, bool> mc_fix(const mbsp_t *, const qvec3f &p, bool warn, float)
{
    if (cur->kind[index_of(p[0], p[1], p[2])] == FIXED)
        return {p + qvec3f(0, 0, OFF), true};
    return {p, false};
}
lightgrid_samples_t mc_calc(const mbsp_t *, const qvec3f &p) asm("__wrap__Z20CalcLightgridAtPointPK6mbsp_tRK4qvecIfLm3EE");
lightgrid_samples_t mc_calc(const mbsp_t *, const qvec3f &q)
{
    qvec3f p = q;
    float k = (p[2] - cur->mins[2]) / cur->dist[2];
    bool moved = std::abs(k - std::lround(k)) * cur->dist[2] > OFF / 2;
    if (moved)
        p[2] -= OFF;
    int i = index_of(p[0], p[1], p[2]);
    if (moved != (cur->kind[i] == FIXED))
        wild = "light is asked for at the wrong place of point " + std::to_string(i);
    lightgrid_samples_t r;
    int j = 0;
    for (auto &s : light(cur->val[i])) {
        r.samples_by_style[j].used = true;
        r.samples_by_style[j].style = s.style;
        r.samples_by_style[j].color = {s.c[0], s.c[1], s.c[2]};
        j++;
    }
    return r;
}
namespace
{
struct Reader
{
    const std::vector<uint8_t> &b;
    size_t o = 0;
    bool bad = false;
    template<class T>
    T get()
    {
        T v{};
        if (o + sizeof(T) > b.size()) {
            bad = true;
            return v;
        }
        memcpy(&v, &b[o], sizeof(T));
        o += sizeof(T);
        return v;
    }
};
// "" or what is wrong
std::string check_lump(const Grid &g, const std::vector<uint8_t> &lump, Ctx &ctx)
{
    Reader r{lump};
    for (int a = 0; a < 3; a++)
        if (r.get<float>() != g.dist[a])
            return "stores another grid distance";
    for (int a = 0; a < 3; a++)
        if (int v = r.get<int32_t>(); v != g.n[a])
            return "stores " + std::to_string(v) + " points along axis " + std::to_string(a) + " of a world with " + std::to_string(g.n[a]);
    for (int a = 0; a < 3; a++)
        if (r.get<float>() != g.mins[a])
            return "stores another origin";
    int styles = r.get<uint8_t>(), most = 0;
    for (size_t i = 0; i < g.kind.size(); i++)
        if (g.kind[i] != SOLIDPT)
            most = std::max<int>(most, light(g.val[i]).size());
    if (styles != most)
        return "stores a maximum of " + std::to_string(styles) + " styles, a point has " + std::to_string(most);
    uint32_t root = r.get<uint32_t>();
    struct Node
    {
        int32_t d[3];
        uint32_t c[8];
    };
    uint32_t nn = r.get<uint32_t>();
    if (nn > lump.size() / 44)
        return "counts " + std::to_string(nn) + " nodes";
    std::vector<Node> nodes(nn);
    for (auto &n : nodes) {
        for (auto &d : n.d)
            d = r.get<int32_t>();
        for (auto &c : n.c)
            c = r.get<uint32_t>();
    }
    struct Leaf
    {
        int32_t m[3], s[3];
        std::vector<size_t> cell; // offset of each
    };
    uint32_t nl = r.get<uint32_t>();
    if (nl > lump.size() / 24)
        return "counts " + std::to_string(nl) + " leafs";
    std::vector<Leaf> leafs(nl);
    for (auto &l : leafs) {
        for (auto &m : l.m)
            m = r.get<int32_t>();
        uint64_t n = 1;
        for (auto &s : l.s) {
            s = r.get<int32_t>();
            if (s <= 0 || s > 100000)
                return "holds a leaf of size " + std::to_string(s);
            n *= s;
        }
        if (n > lump.size())
            return "holds a leaf of " + std::to_string(n) + " points";
        for (uint64_t k = 0; k < n; k++) {
            l.cell.push_back(r.o);
            uint8_t u = r.get<uint8_t>();
            if (u != 0xff)
                r.o += 4 * (size_t)u;
        }
        if (r.bad || r.o > lump.size())
            return "ends within a leaf";
    }
    if (r.bad || r.o != lump.size())
        return "has " + std::to_string(lump.size()) + " bytes, its parts " + std::to_string(r.o);
    ctx.count("octree nodes", nodes.size());
    ctx.count("octree leafs", leafs.size());
    for (int z = 0; z < g.n[2]; z++)
        for (int y = 0; y < g.n[1]; y++)
            for (int x = 0; x < g.n[0]; x++) {
                int p[3] = {x, y, z}, i = g.at(x, y, z);
                uint32_t n = root;
                int steps = 0;
                while (!(n & 0xc0000000u)) {
                    if (n >= nodes.size())
                        return "refers to node " + std::to_string(n) + " of " + std::to_string(nodes.size());
                    if (++steps > 64)
                        return "has a cycle of nodes";
                    auto &N = nodes[n];
                    n = N.c[(p[0] >= N.d[0]) * 4 + (p[1] >= N.d[1]) * 2 + (p[2] >= N.d[2])];
                }
                std::string where = "at " + std::to_string(x) + "," + std::to_string(y) + "," + std::to_string(z) + " ";
                bool want = g.kind[i] != SOLIDPT;
                if (n & 0x40000000u) {
                    if (want)
                        return where + "has no sample, one was computed";
                    continue;
                }
                n &= 0x3fffffffu;
                if (n >= leafs.size())
                    return where + "refers to leaf " + std::to_string(n) + " of " + std::to_string(leafs.size());
                auto &l = leafs[n];
                for (int a = 0; a < 3; a++)
                    if (p[a] < l.m[a] || p[a] >= l.m[a] + l.s[a])
                        return where + "leads to a leaf that does not contain the point";
                size_t o = l.cell[(((size_t)(z - l.m[2]) * l.s[1]) + (y - l.m[1])) * l.s[0] + (x - l.m[0])];
                int u = lump[o++];
                if (u == 0xff) {
                    if (want)
                        return where + "is stored without a sample, one was computed";
                    continue;
                }
                if (!want)
                    return where + "has a sample, none was computed";
                auto L = light(g.val[i]);
                if (u != (int)L.size())
                    return where + "has " + std::to_string(u) + " styles instead of " + std::to_string(L.size());
                for (auto &s : L) {
                    if (lump[o] != s.style)
                        return where + "has style " + std::to_string(lump[o]) + " instead of " + std::to_string(s.style);
                    for (int c = 0; c < 3; c++) {
                        int e = std::min(255, std::max(0, (int)std::floor(s.c[c] + 0.5f)));
                        if (lump[o + 1 + c] != e)
                            return where + "has colour " + std::to_string(lump[o + 1 + c]) + " instead of " + std::to_string(e) + " (" + std::to_string(s.c[c]) + ")";
                    }
                    o += 4;
                }
                ctx.count("grid points looked up");
            }
    return "";
}
// a world whose faces span the grid
mbsp_t world(const Grid &g, bool hints, const float *extra)
{
    mbsp_t b{};
    b.loadversion = &bspver_q1;
    float maxs[3];
    for (int a = 0; a < 3; a++)
        maxs[a] = g.mins[a] + (g.n[a] - 1) * g.dist[a] + extra[a];
    float lo[3], hi[3];
    for (int a = 0; a < 3; a++) {
        // with hints the faces lie elsewhere
        lo[a] = hints ? g.mins[a] - 1000 : g.mins[a];
        hi[a] = hints ? maxs[a] + 1000 : maxs[a];
    }
    b.dvertexes = {qvec3f(lo[0], lo[1], lo[2]), qvec3f(hi[0], hi[1], hi[2]), qvec3f(hi[0], lo[1], lo[2])};
    b.dedges = {{0, 0}, {0, 1}, {1, 2}, {2, 0}};
    b.dsurfedges = {1, 2, 3};
    dplane_t pl{};
    pl.normal = {0, 0, 1};
    pl.type = 2;
    b.dplanes.push_back(pl);
    mtexinfo_t ti{};
    b.texinfo.push_back(ti);
    mface_t f{};
    f.numedges = 3;
    b.dfaces.push_back(f);
    dmodelh2_t m{};
    m.numfaces = 1;
    b.dmodels.push_back(m);
    b.dentdata = "{\n\"classname\" \"worldspawn\"\n}\n";
    if (hints) {
        auto ent = [&](float x, float y, float z) {
            char t[200];
            snprintf(t, sizeof t, "{\n\"classname\" \"info_null\"\n\"_lightgrid_hint\" \"1\"\n\"origin\" \"%.9g %.9g %.9g\"\n}\n", x, y, z);
            b.dentdata += t;
        };
        ent(maxs[0], g.mins[1], maxs[2]);
        ent(g.mins[0], maxs[1], g.mins[2]);
    }
    return b;
}
void run(Grid &g, const std::string &key, const std::string &what, Ctx &ctx, bool hints = false, int ex = 0)
{
    cur = &g;
    wild.clear();
    // the last row of points lies before the end of the world
    static const float part[3] = {1, 0.5f, 0.015625f};
    float extra[3];
    for (int a = 0; a < 3; a++)
        extra[a] = g.dist[a] * part[ex];
    light_options.reset();
    light_options.lightgrid.set_value(true, settings::source::COMMANDLINE);
    light_options.lightgrid_dist.set_value({g.dist[0], g.dist[1], g.dist[2]}, settings::source::COMMANDLINE);
    light_options.sourceMap = "m.map";
    bspdata_t d;
    d.version = &bspver_generic;
    d.loadversion = &bspver_q1;
    d.bsp = world(g, hints, extra);
    if (hints) {
        ResetLightEntities();
        LoadEntities(light_options, &std::get<mbsp_t>(d.bsp));
    }
    LightGrid(&d);
    if (hints)
        ResetLightEntities();
    uint64_t h = 7;
    for (size_t i = 0; i < g.kind.size(); i++)
        h = hcomb(h, g.kind[i] * 65536 + g.val[i]);
    ctx.nontrivial(hcomb(h, g.n[0] * 10000 + g.n[1] * 100 + g.n[2]));
    std::string bad;
    if (!wild.empty())
        bad = "asks about a point that is not on the grid: " + wild;
    auto it = d.bspx.entries.find("LIGHTGRID_OCTREE");
    if (bad.empty() && it == d.bspx.entries.end())
        bad = "is missing";
    if (bad.empty()) {
        bad = check_lump(g, it->second, ctx);
        ctx.outcome(hbytes(it->second.data(), it->second.size()));
    }
    if (!bad.empty()) {
        std::string t = "a grid of " + std::to_string(g.n[0]) + "x" + std::to_string(g.n[1]) + "x" + std::to_string(g.n[2]) + ", " + what + ": the lump " + bad;
        ctx.fail(key, t);
    }
}
Grid make(int x, int y, int z, float dist = 32)
{
    Grid g;
    g.n[0] = x, g.n[1] = y, g.n[2] = z;
    for (int a = 0; a < 3; a++)
        g.dist[a] = dist, g.mins[a] = -64 * (a + 1);
    g.kind.assign((size_t)x * y * z, LIT);
    g.val.resize(g.kind.size());
    for (size_t i = 0; i < g.val.size(); i++)
        g.val[i] = (uint16_t)(i * 2654435761u >> 7);
    return g;
}
// shapes of solid space
constexpr int SHAPES = 14;
bool shape(int k, int x, int y, int z, const int *n)
{
    auto edge = [&](int v, int m) { return v == 0 || v == m - 1; };
    switch (k) {
        case 0: return false;
        case 1: return true;
        case 2: return x < n[0] / 2;
        case 3: return y >= n[1] / 2;
        case 4: return z < (n[2] + 1) / 2;
        case 5: return (x + y + z) % 2;
        case 6: return edge(x, n[0]) || edge(y, n[1]) || edge(z, n[2]);
        case 7: return !(edge(x, n[0]) || edge(y, n[1]) || edge(z, n[2]));
        case 8: return !(x == 0 && y == 0 && z == 0);
        case 9: return !(x == n[0] - 1 && y == n[1] - 1 && z == n[2] - 1);
        case 10: return !(x == n[0] / 2 && y == n[1] / 2 && z == n[2] / 2);
        case 11: return x >= n[0] / 2 && y >= n[1] / 2 && z >= n[2] / 2;
        case 12: return x % 3 == 0;
        default: return x > y || z < 1;
    }
}
std::vector<Space> l04(Tier t)
{
    bool T = t == Tier::thorough;
    std::vector<Space> r;
    {
        Space s;
        s.name = "sizes";
        int n = T ? 14 : 10;
        s.size = (uint64_t)n * n * n * SHAPES;
        s.chunk = 128;
        s.run = [=](uint64_t i, Ctx &ctx) {
            int k = i % SHAPES;
            i /= SHAPES;
            int x = i % n + 1, y = i / n % n + 1, z = i / n / n + 1;
            Grid g = make(x, y, z);
            for (int c = 0; c < z; c++)
                for (int b = 0; b < y; b++)
                    for (int a = 0; a < x; a++)
                        if (shape(k, a, b, c, g.n))
                            g.kind[g.at(a, b, c)] = (k == 5 && (a + 2 * b) % 4 == 1) || (k == 12 && b == 0) ? FIXED : SOLIDPT;
            run(g, "size", "solid shape " + std::to_string(k), ctx);
        };
        r.push_back(s);
    }
    {
        // every mixture of octants of a 4^3 and an 8^3 grid
        Space s;
        s.name = "octants";
        int kinds = T ? 5 : 4;
        uint64_t n = 1;
        for (int k = 0; k < 8; k++)
            n *= kinds;
        s.size = n;
        s.chunk = 256;
        s.run = [=](uint64_t i, Ctx &ctx) {
            int o[8];
            uint64_t v = i;
            for (int k = 0; k < 8; k++) {
                o[k] = v % kinds;
                v /= kinds;
            }
            for (int m : {4, 8}) {
                if (m == 8 && !T && i % 5)
                    continue;
                Grid g = make(m, m, m);
                for (int c = 0; c < m; c++)
                    for (int b = 0; b < m; b++)
                        for (int a = 0; a < m; a++) {
                            int k = o[(a >= m / 2) * 4 + (b >= m / 2) * 2 + (c >= m / 2)];
                            bool first = a % (m / 2) == 0 && b % (m / 2) == 0 && c % (m / 2) == 0, last = (a + 1) % (m / 2) == 0 && (b + 1) % (m / 2) == 0 && (c + 1) % (m / 2) == 0;
                            bool solid = k == 1 || (k == 2 && first) || (k == 3 && !last) || (k == 4 && (a + b + c) % 2);
                            if (solid)
                                g.kind[g.at(a, b, c)] = SOLIDPT;
                        }
                run(g, "octants", "octants " + std::to_string(i) + " in base " + std::to_string(kinds), ctx);
            }
        };
        r.push_back(s);
    }
    {
        // every pattern of the points along one axis, the others solid or free
        Space s;
        s.name = "rows";
        int m = T ? 10 : 8;
        s.size = 3ull * 2 * (1u << m) * 3;
        s.chunk = 128;
        s.run = [=](uint64_t i, Ctx &ctx) {
            int axis = i % 3;
            i /= 3;
            int other = i % 2;
            i /= 2;
            unsigned pat = i % (1u << m);
            i >>= m;
            static const int W[3] = {1, 4, 5};
            int w = W[i];
            int n[3] = {w, w, w};
            n[axis] = m;
            Grid g = make(n[0], n[1], n[2]);
            for (int c = 0; c < n[2]; c++)
                for (int b = 0; b < n[1]; b++)
                    for (int a = 0; a < n[0]; a++) {
                        int p[3] = {a, b, c};
                        bool centre = p[(axis + 1) % 3] == 0 || other == 0;
                        if (centre ? pat >> p[axis] & 1 : other)
                            g.kind[g.at(a, b, c)] = SOLIDPT;
                    }
            run(g, "rows", "pattern " + std::to_string(pat) + " along axis " + std::to_string(axis), ctx);
        };
        r.push_back(s);
    }
    {
        // every kind of point on every cell of 2x2x2, with every number of styles
        Space s;
        s.name = "cells";
        s.size = 6561;
        s.chunk = 512;
        s.run = [=](uint64_t i, Ctx &ctx) {
            Grid g = make(2, 2, 2);
            uint64_t v = i;
            for (int k = 0; k < 8; k++) {
                g.kind[k] = v % 3;
                v /= 3;
            }
            for (int k = 0; k < 8; k++)
                g.val[k] = (uint16_t)(i * 5 + k * 3 + i / 9);
            run(g, "cells", "kinds " + std::to_string(i) + " in base 3", ctx);
        };
        r.push_back(s);
    }
    {
        // every light value
        Space s;
        s.name = "samples";
        s.size = T ? 5 * 255 * 14 : 5 * 255 * 4;
        s.chunk = 512;
        s.run = [=](uint64_t i, Ctx &ctx) {
            Grid g = make(2, 1, 2);
            for (int k = 0; k < 4; k++)
                g.val[k] = (uint16_t)(i + k);
            g.kind[1] = i % 3;
            run(g, "samples", "light values from " + std::to_string(i), ctx);
        };
        r.push_back(s);
    }
    {
        // distances, hint entities, remainders
        Space s;
        s.name = "placement";
        static const float D[] = {1, 8, 24.5f, 32, 128};
        s.size = 5 * 5 * 5 * 2 * 3 * 3;
        s.chunk = 64;
        s.run = [=](uint64_t i, Ctx &ctx) {
            Grid g = make(3, 4, 2);
            for (int a = 0; a < 3; a++) {
                g.dist[a] = D[i % 5];
                i /= 5;
            }
            bool hints = i % 2;
            i /= 2;
            int ex = i % 3;
            i /= 3;
            for (int a = 0; a < 3; a++)
                g.mins[a] = i == 0 ? -64 * (a + 1) : i == 1 ? 100.5f + a : 0;
            if (g.dist[2] <= 2 * OFF)
                g.dist[2] = 2;
            for (size_t k = 0; k < g.kind.size(); k++)
                g.kind[k] = k % 3;
            run(g, "placement", std::string(hints ? "hint entities, " : "") + "distance " + std::to_string(g.dist[0]) + " " + std::to_string(g.dist[1]) + " " + std::to_string(g.dist[2]) + ", origin " + std::to_string(g.mins[0]), ctx, hints, ex);
        };
        r.push_back(s);
    }
    {
        // deep trees
        Space s;
        s.name = "deep";
        static const std::vector<std::array<int, 3>> Q = {{16, 16, 16}, {17, 16, 15}, {33, 8, 8}, {64, 9, 9}, {9, 64, 9}, {9, 9, 64}, {40, 40, 10}};
        static const std::vector<std::array<int, 3>> TH = {{64, 64, 64}, {100, 64, 33}, {130, 130, 130}, {128, 128, 4}};
        std::vector<std::array<int, 3>> q = Q;
        if (T)
            q.insert(q.end(), TH.begin(), TH.end());
        s.size = q.size() * SHAPES;
        s.case_timeout = 120;
        s.run = [=](uint64_t i, Ctx &ctx) {
            auto n = q[i / SHAPES];
            int k = i % SHAPES;
            Grid g = make(n[0], n[1], n[2]);
            for (int c = 0; c < n[2]; c++)
                for (int b = 0; b < n[1]; b++)
                    for (int a = 0; a < n[0]; a++)
                        if (shape(k, a, b, c, g.n))
                            g.kind[g.at(a, b, c)] = SOLIDPT;
            run(g, "deep", "solid shape " + std::to_string(k), ctx);
        };
        r.push_back(s);
    }
    return r;
}
} // namespace
int main(int argc, char **argv)
{
    logging::mask = logging::flag::NONE;
    return main_(argc, argv,
        {{"L04", "exploration", "every grid size of the bound with each solid shape, every mixture of octants, every pattern along an axis, every kind of every point of 2x2x2, every sample value; the lump is decoded independently and every grid point looked up", {"the answers to 'is this point solid', 'can it be moved' and 'what light is there' come from the case"}, l04, 200, 3000}});
}
