// Small maps of axial boxes, compiled in-process by the real qbsp, and the cells
// of their arrangement: what each volume, surface patch and opening has to be.
#pragma once
#include <mc/explore.hh>
#include <qbsp/qbsp.hh>
#include <qbsp/map.hh>
#include <common/bspfile.hh>
#include <common/log.hh>
#include <array>
#include <cmath>
#include <algorithm>
#include <filesystem>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace qw
{
using I3 = std::array<int, 3>;
using D3 = std::array<double, 3>;
// what a brush is, as the map author sees it
enum Type : int
{
    SOLID,
    SKY,
    WATER,
    SLIME,
    LAVA,
    CLIP,
    HINT,
    SKIP, // solid, not drawn
    GROUP, // solid, in a func_group
    DETAIL,
    WALL,
    FENCE,
    ILLUS,
    VISB, // func_illusionary_visblocker
    DWATER, // water in a func_detail
    NTYPES
};
inline const char *TNAME[] = {"solid", "sky", "water", "slime", "lava", "clip", "hint", "skip", "group", "detail", "wall", "fence", "illusionary", "visblocker", "detailwater"};
inline const char *TEX[] = {"stone", "sky1", "*water", "*slime", "*lava", "clip", "hint", "skip", "stone", "stone", "stone", "{fence", "stone", "stone", "*water"};
inline const char *CLASS[] = {"", "", "", "", "", "", "", "", "func_group", "func_detail", "func_detail_wall", "func_detail_fence", "func_detail_illusionary", "func_illusionary_visblocker", "func_detail"};
struct Box
{
    I3 mn, mx;
    int type = SOLID;
    bool unique = false; // every face has its own texture
    std::string keys; // of its entity (types with a class of their own)
    std::string tex; // instead of the type's
};
struct Point
{
    std::string classname;
    I3 at;
    std::string keys;
};
struct Model
{
    std::string classname = "func_wall";
    std::string keys;
    std::vector<Box> box; // only the texture of the type counts
    std::string cls() const { return classname; }
};
struct Map
{
    std::vector<Box> box;
    std::vector<Point> pt;
    std::vector<Model> model;
    std::string worldkeys;
    bool nodetail = false; // -nodetail
};
// face order: -x +x -y +y -z +z
inline std::string texname(const Box &b, int id, int face)
{
    std::string t = TEX[b.type];
    if (!b.tex.empty())
        return b.tex;
    if (b.type == CLIP || b.type == HINT || b.type == SKIP || !b.unique)
        return t;
    return t + std::to_string(id) + "f" + std::to_string(face);
}
inline std::string boxtext(const Box &b, int id)
{
    std::string s = "{\n";
    char buf[400];
    const I3 &a = b.mn, &c = b.mx;
    int f = 0;
    auto add = [&](int x0, int y0, int z0, int x1, int y1, int z1, int x2, int y2, int z2) {
        snprintf(buf, sizeof buf, "( %d %d %d ) ( %d %d %d ) ( %d %d %d ) %s 0 0 0 1 1\n", x0, y0, z0, x1, y1, z1, x2, y2, z2, texname(b, id, f++).c_str());
        s += buf;
    };
    add(a[0], 0, 0, a[0], 1, 0, a[0], 0, 1);
    add(c[0], 0, 0, c[0], 0, 1, c[0], 1, 0);
    add(0, a[1], 0, 0, a[1], 1, 1, a[1], 0);
    add(0, c[1], 0, 1, c[1], 0, 0, c[1], 1);
    add(0, 0, a[2], 1, 0, a[2], 0, 1, a[2]);
    add(0, 0, c[2], 0, 1, c[2], 1, 0, c[2]);
    return s + "}\n";
}
inline std::string maptext(const Map &m)
{
    std::string s = "{\n\"classname\" \"worldspawn\"\n" + m.worldkeys;
    for (size_t i = 0; i < m.box.size(); i++)
        if (!*CLASS[m.box[i].type])
            s += boxtext(m.box[i], i);
    s += "}\n";
    for (size_t i = 0; i < m.box.size(); i++)
        if (*CLASS[m.box[i].type])
            s += std::string("{\n\"classname\" \"") + CLASS[m.box[i].type] + "\"\n" + m.box[i].keys + boxtext(m.box[i], i) + "}\n";
    for (auto &p : m.pt)
        s += "{\n\"classname\" \"" + p.classname + "\"\n\"origin\" \"" + std::to_string(p.at[0]) + " " + std::to_string(p.at[1]) + " " + std::to_string(p.at[2]) + "\"\n" + p.keys + "}\n";
    int id = 100;
    for (auto &e : m.model) {
        s += "{\n\"classname\" \"" + e.classname + "\"\n" + e.keys;
        for (auto &b : e.box)
            s += boxtext(b, id++);
        s += "}\n";
    }
    return s;
}

struct Prt
{
    bool present = false;
    std::string bad;
    int kind = 0, leafs = 0, clusters = 0;
    struct P
    {
        int a, b;
        std::vector<D3> w;
    };
    std::vector<P> p;
    std::vector<int> cluster; // of leaf (PRT2)
};
inline Prt read_prt(const std::string &path)
{
    Prt r;
    std::ifstream f(path);
    if (!f)
        return r;
    r.present = true;
    std::string line;
    std::getline(f, line);
    r.kind = line == "PRT1" ? 1 : line == "PRT2" ? 2 : 0;
    if (!r.kind) {
        r.bad = "kind " + line;
        return r;
    }
    int np = 0;
    f >> r.leafs;
    r.clusters = r.leafs;
    if (r.kind == 2)
        f >> r.clusters;
    f >> np;
    std::getline(f, line);
    for (int i = 0; i < np; i++) {
        if (!std::getline(f, line)) {
            r.bad = "fewer portals than stated";
            return r;
        }
        for (char &c : line)
            if (c == '(' || c == ')')
                c = ' ';
        std::istringstream l(line);
        Prt::P p;
        int n;
        l >> n >> p.a >> p.b;
        for (int k = 0; k < n; k++) {
            D3 v;
            l >> v[0] >> v[1] >> v[2];
            p.w.push_back(v);
        }
        if (!l || p.a < 0 || p.b < 0 || p.a >= r.clusters || p.b >= r.clusters || n < 3) {
            r.bad = "portal line " + line;
            return r;
        }
        r.p.push_back(p);
    }
    r.cluster.assign(r.leafs, -1);
    if (r.kind == 2) {
        int c = 0, v;
        while (c < r.clusters && f >> v) {
            if (v == -1)
                c++;
            else if (v < 0 || v >= r.leafs || r.cluster[v] != -1) {
                r.bad = "cluster list";
                return r;
            } else
                r.cluster[v] = c;
        }
        for (int x : r.cluster)
            if (x == -1)
                r.bad = "a leaf without a cluster";
    } else
        for (int i = 0; i < r.leafs; i++)
            r.cluster[i] = i;
    std::string rest;
    if (r.bad.empty() && f >> rest)
        r.bad = "text after the end: " + rest;
    return r;
}
struct Out
{
    std::string error; // refused
    mbsp_t bsp;
    Prt prt;
    bool pts = false;
    std::vector<D3> trail;
    std::string bytes; // of the .bsp
    std::string prtbytes;
};
inline std::string slurp(const std::string &p)
{
    std::ifstream f(p, std::ios::binary);
    return {std::istreambuf_iterator<char>(f), {}};
}
inline bool exists(const std::string &p) { return std::filesystem::exists(p); }
inline Out compile(const std::string &text, const std::vector<std::string> &opts)
{
    Out o;
    std::ofstream("t.map", std::ios::binary) << text;
    try {
        logging::mask = bitflags<logging::flag>(logging::flag::NONE);
        std::vector<std::string> a{"", "-noverbose", "-nopercent", "-missing_textures_as_zero_size"};
        a.insert(a.end(), opts.begin(), opts.end());
        a.push_back("t.map");
        a.push_back("t.bsp");
        InitQBSP(a);
        logging::mask = bitflags<logging::flag>(logging::flag::NONE);
        ProcessFile();
        logging::close();
    } catch (std::exception &e) {
        o.error = std::string("refused: ") + e.what();
        return o;
    }
    o.bytes = slurp("t.bsp");
    fs::path p("t.bsp");
    bspdata_t d;
    LoadBSPFile(p, &d);
    ConvertBSPFormat(&d, &bspver_generic);
    o.bsp = std::move(std::get<mbsp_t>(d.bsp));
    o.prt = read_prt("t.prt");
    o.prtbytes = slurp("t.prt");
    o.pts = exists("t.pts");
    if (o.pts) {
        std::ifstream f("t.pts");
        D3 v;
        while (f >> v[0] >> v[1] >> v[2])
            o.trail.push_back(v);
    }
    return o;
}
inline int walk(const mbsp_t &b, int node, const D3 &p)
{
    while (node >= 0) {
        auto &n = b.dnodes.at(node);
        auto &pl = b.dplanes.at(n.planenum);
        double d = p[0] * pl.normal[0] + p[1] * pl.normal[1] + p[2] * pl.normal[2] - pl.dist;
        node = n.children[d < 0];
    }
    return -1 - node;
}
inline int clipwalk(const mbsp_t &b, int node, const D3 &p)
{
    while (node >= 0) {
        auto &n = b.dclipnodes.at(node);
        auto &pl = b.dplanes.at(n.planenum);
        double d = p[0] * pl.normal[0] + p[1] * pl.normal[1] + p[2] * pl.normal[2] - pl.dist;
        node = n.children[d < 0];
    }
    return node;
}

// contents as the rules see them
enum Flag : unsigned
{
    F_SOLID = 1,
    F_SKY = 2,
    F_WALL = 4,
    F_FENCE = 8,
    F_LAVA = 16,
    F_SLIME = 32,
    F_WATER = 64,
    F_MIST = 128,
    F_VISIBLE = 255,
    F_DETAIL = 256,
    F_MIRROR = 512,
    F_VISB = 1024,
    F_LIQUID = F_LAVA | F_SLIME | F_WATER,
};
inline unsigned flags0(int t) // in hull 0
{
    switch (t) {
        case SOLID: case SKIP: case GROUP: return F_SOLID;
        case SKY: return F_SKY;
        case WATER: return F_WATER | F_MIRROR;
        case DWATER: return F_WATER | F_MIRROR;
        case SLIME: return F_SLIME | F_MIRROR;
        case LAVA: return F_LAVA | F_MIRROR;
        case DETAIL: return F_SOLID | F_DETAIL;
        case WALL: return F_WALL | F_DETAIL;
        case FENCE: return F_FENCE | F_DETAIL;
        case ILLUS: return F_MIST | F_DETAIL;
        case VISB: return F_MIST | F_VISB | F_MIRROR;
        default: return 0; // clip, hint
    }
}
inline bool in_hull0(int t) { return t != CLIP; }
inline bool blocks_hull(int t) // part of the clip hulls
{
    switch (t) {
        case SOLID: case SKIP: case GROUP: case SKY: case CLIP: case DETAIL: case WALL: case FENCE: return true;
        default: return false;
    }
}
inline unsigned combine(unsigned a, unsigned b)
{
    auto st = [](unsigned f) { return (f & F_SOLID) && !(f & F_DETAIL); };
    if (st(a) || st(b))
        return F_SOLID;
    if ((a | b) & F_SKY)
        return F_SKY;
    return a | b;
}
inline int native_q1(unsigned f)
{
    if (f & (F_SOLID | F_WALL | F_FENCE))
        return -2;
    if (f & F_SKY)
        return -6;
    if (f & F_LAVA)
        return -5;
    if (f & F_SLIME)
        return -4;
    if (f & F_WATER)
        return -3;
    return -1;
}
inline bool seals(unsigned f) { return ((f & F_SOLID) && !(f & F_DETAIL)) || (f & F_SKY); }
inline bool detail_seals(unsigned f) { return f & (F_SOLID | F_SKY); }

constexpr int FAR = 1 << 14;
struct Cells
{
    std::vector<int> c[3]; // plane coordinates, with -FAR and FAR
    int n[3];
    std::vector<unsigned> flags;
    std::vector<std::vector<int>> brushes; // ids, in the order of the compiler's list
    std::vector<char> reach; // by structural flood from entities
    std::vector<char> dreach; // by detail flood
    std::vector<unsigned> fin; // flags after filling
    std::vector<char> exact; // is the content exactly known after filling
    bool leak = false, filled = false, ambiguous = false, occupied = false;
    std::vector<int> occ; // occupied cells
    std::vector<int> occ_pt;
    int id(int x, int y, int z) const { return (z * n[1] + y) * n[0] + x; }
    int total() const { return n[0] * n[1] * n[2]; }
    void xyz(int i, int k[3]) const { k[0] = i % n[0], k[1] = i / n[0] % n[1], k[2] = i / n[0] / n[1]; }
    double lo(int a, int k) const { return k == 0 ? c[a][1] - 20.0 : c[a][k]; }
    double hi(int a, int k) const { return k == n[a] - 1 ? c[a][n[a] - 1] + 20.0 : c[a][k + 1]; }
    D3 center(int i) const
    {
        int k[3];
        xyz(i, k);
        D3 r;
        for (int a = 0; a < 3; a++)
            r[a] = (lo(a, k[a]) + hi(a, k[a])) / 2;
        return r;
    }
    template<class F>
    void nb6(int i, F f) const
    {
        int k[3];
        xyz(i, k);
        int st[3] = {1, n[0], n[0] * n[1]};
        for (int a = 0; a < 3; a++) {
            if (k[a] > 0)
                f(i - st[a]);
            if (k[a] < n[a] - 1)
                f(i + st[a]);
        }
    }
    // cells whose closure contains the point
    std::vector<int> at(const double *p) const
    {
        std::vector<int> k[3];
        for (int a = 0; a < 3; a++)
            for (int i = 0; i < n[a]; i++)
                if (p[a] >= c[a][i] && p[a] <= c[a][i + 1])
                    k[a].push_back(i);
        std::vector<int> r;
        for (int z : k[2])
            for (int y : k[1])
                for (int x : k[0])
                    r.push_back(id(x, y, z));
        return r;
    }
};
struct CB // a brush as one hull sees it
{
    I3 mn, mx;
    unsigned f;
    int id;
};
inline void arrange(Cells &g, const std::vector<CB> &b)
{
    for (int a = 0; a < 3; a++) {
        std::set<int> s{-FAR, FAR};
        for (auto &x : b)
            s.insert(x.mn[a]), s.insert(x.mx[a]);
        g.c[a].assign(s.begin(), s.end());
        g.n[a] = g.c[a].size() - 1;
    }
    g.flags.assign(g.total(), 0);
    g.brushes.assign(g.total(), {});
    for (auto &x : b) {
        int lo[3], hi[3];
        for (int a = 0; a < 3; a++) {
            lo[a] = std::lower_bound(g.c[a].begin(), g.c[a].end(), x.mn[a]) - g.c[a].begin();
            hi[a] = std::lower_bound(g.c[a].begin(), g.c[a].end(), x.mx[a]) - g.c[a].begin();
        }
        for (int z = lo[2]; z < hi[2]; z++)
            for (int y = lo[1]; y < hi[1]; y++)
                for (int w = lo[0]; w < hi[0]; w++) {
                    int i = g.id(w, y, z);
                    g.flags[i] = combine(g.flags[i], x.f);
                    g.brushes[i].push_back(x.id);
                }
    }
}
struct FillOpt
{
    bool nofill = false, filldetail = true, outside = false;
};
// where entities can get to; which cells are filled
inline void flood(Cells &g, const Map &m, int hull, const FillOpt &o = {})
{
    int T = g.total();
    g.reach.assign(T, 0);
    g.dreach.assign(T, 0);
    g.fin = g.flags;
    g.exact.assign(T, 1);
    std::vector<int> q;
    for (size_t e = 0; e < m.pt.size(); e++) {
        auto &p = m.pt[e];
        if (p.at == I3{0, 0, 0} || p.keys.find("\"_nofill\" \"1\"") != std::string::npos || p.keys.find("\"_lightgrid_hint\" \"1\"") != std::string::npos)
            continue;
        double d[3] = {(double)p.at[0], (double)p.at[1], (double)p.at[2]};
        auto cs = g.at(d);
        std::vector<int> open;
        for (int c : cs)
            if (!seals(g.flags[c]))
                open.push_back(c);
        // on a brush face: hull 0 prefers to be inside what seals, the clip hulls outside
        if (open.empty() || (hull == 0 && open.size() < cs.size()))
            continue;
        if (open.size() > 1) {
            // on a boundary between open cells: which one is taken must not matter
            std::set<int> comp(open.begin(), open.end());
            for (int c : open) {
                bool nb = false;
                g.nb6(c, [&](int x) { nb |= comp.count(x); });
                if (!nb || (hull == 0 && (g.flags[c] & F_SOLID)))
                    g.ambiguous = true;
            }
        }
        g.occupied = true;
        g.occ.push_back(open[0]);
        g.occ_pt.push_back(e);
        for (int c : open)
            if (!g.reach[c])
                g.reach[c] = 1, q.push_back(c);
    }
    std::vector<int> start = q;
    while (!q.empty()) {
        int c = q.back();
        q.pop_back();
        g.nb6(c, [&](int x) {
            if (!g.reach[x] && !seals(g.flags[x]) && !seals(g.flags[c]))
                g.reach[x] = 1, q.push_back(x);
        });
    }
    g.leak = g.reach[0];
    g.filled = g.occupied && !g.leak && !o.nofill;
    if (!g.filled)
        return;
    if (o.outside) {
        // what the void reaches
        std::vector<char> v(T, 0);
        v[0] = 1;
        q = {0};
        while (!q.empty()) {
            int c = q.back();
            q.pop_back();
            g.nb6(c, [&](int x) {
                if (!v[x] && !seals(g.flags[x]))
                    v[x] = 1, q.push_back(x);
            });
        }
        for (int i = 0; i < T; i++)
            if (v[i])
                g.fin[i] = F_SOLID;
    } else
    for (int i = 0; i < T; i++)
        if (!g.reach[i] && !seals(g.flags[i]))
            g.fin[i] = F_SOLID;
    std::erase_if(start, [&](int c) { return detail_seals(g.flags[c]); });
    if (o.filldetail && !start.empty()) {
        for (int c : start)
            g.dreach[c] = 1;
        q = start;
        while (!q.empty()) {
            int c = q.back();
            q.pop_back();
            if (detail_seals(g.flags[c]))
                continue;
            g.nb6(c, [&](int x) {
                if (!g.dreach[x] && !detail_seals(g.flags[x]))
                    g.dreach[x] = 1, q.push_back(x);
            });
        }
        for (int i = 0; i < T; i++)
            if (!g.dreach[i] && !detail_seals(g.fin[i]))
                g.fin[i] = F_SOLID | F_DETAIL;
    } else
        for (int i = 0; i < T; i++)
            g.dreach[i] = !seals(g.fin[i]);
    // away from anything reachable only "solid or sky" is promised
    for (int i = 0; i < T; i++) {
        if (g.dreach[i])
            continue;
        int k[3];
        g.xyz(i, k);
        bool near = false;
        for (int z = -1; z <= 1; z++)
            for (int y = -1; y <= 1; y++)
                for (int x = -1; x <= 1; x++) {
                    int a = k[0] + x, b = k[1] + y, c = k[2] + z;
                    if (a >= 0 && b >= 0 && c >= 0 && a < g.n[0] && b < g.n[1] && c < g.n[2] && g.dreach[g.id(a, b, c)])
                        near = true;
                }
        g.exact[i] = near;
    }
}
// the map as these options make the compiler see it
inline Map effective(const Map &m, const std::vector<std::string> &opts)
{
    auto has = [&](const char *o) { return std::find(opts.begin(), opts.end(), o) != opts.end(); };
    Map r = m;
    r.nodetail = has("-nodetail");
    r.box.clear();
    bool all = has("-omitdetail");
    for (auto b : m.box) {
        if (all && (b.type == DETAIL || b.type == WALL || b.type == FENCE || b.type == ILLUS || b.type == DWATER))
            b.type = -1;
        if ((has("-omitdetailwall") && b.type == WALL) || (has("-omitdetailfence") && b.type == FENCE) || (has("-omitdetailillusionary") && b.type == ILLUS))
            b.type = -1;
        r.box.push_back(b);
    }
    return r;
}
// the compiler's list: world brushes, then those of the entities merged into the
// world, in file order
inline std::vector<int> order(const Map &m)
{
    std::vector<int> r;
    for (int pass = 0; pass < 2; pass++)
        for (size_t i = 0; i < m.box.size(); i++)
            if (m.box[i].type >= 0 && !*CLASS[m.box[i].type] == !pass)
                r.push_back(i);
    return r;
}
inline unsigned flags_in(const Map &m, int t)
{
    if (m.nodetail && (t == DETAIL || t == WALL || t == FENCE || t == ILLUS))
        return F_SOLID;
    return flags0(t);
}
inline Cells world_cells(const Map &m)
{
    std::vector<CB> b;
    for (int i : order(m))
        if (in_hull0(m.box[i].type))
            b.push_back({m.box[i].mn, m.box[i].mx, flags_in(m, m.box[i].type), i});
    Cells g;
    arrange(g, b);
    return g;
}
inline Cells hull_cells(const Map &m, const int mn[3], const int mx[3])
{
    // the box of the player from mn to mx around the origin: a brush grows by
    // -mx downwards and -mn upwards
    std::vector<CB> b;
    for (int i : order(m))
        if (blocks_hull(m.box[i].type) || (m.nodetail && m.box[i].type == ILLUS)) {
            CB c{m.box[i].mn, m.box[i].mx, F_SOLID, i};
            for (int a = 0; a < 3; a++)
                c.mn[a] -= mx[a], c.mx[a] -= mn[a];
            b.push_back(c);
        }
    Cells g;
    arrange(g, b);
    return g;
}
inline std::string p3(const D3 &p)
{
    char b[100];
    snprintf(b, sizeof b, "(%g %g %g)", p[0], p[1], p[2]);
    return b;
}
inline std::string show(const Map &m, size_t from = 0)
{
    std::string s;
    for (size_t i = from; i < m.box.size(); i++) {
        auto &b = m.box[i];
        char t[160];
        snprintf(t, sizeof t, "%s(%d %d %d .. %d %d %d) ", TNAME[b.type], b.mn[0], b.mn[1], b.mn[2], b.mx[0], b.mx[1], b.mx[2]);
        s += t;
    }
    for (auto &p : m.pt) {
        char t[120];
        snprintf(t, sizeof t, "%s@(%d %d %d) ", p.classname.c_str(), p.at[0], p.at[1], p.at[2]);
        s += t;
    }
    return s;
}
// a sealed room with inner half size h and walls of thickness t
inline void room(Map &m, I3 lo, I3 hi, int t, const int type[6], bool unique = false)
{
    for (int a = 0; a < 3; a++)
        for (int s = 0; s < 2; s++) {
            int ty = type[2 * a + s];
            if (ty < 0)
                continue;
            Box b{lo, hi, ty, unique, ""};
            // the walls overlap at the edges only with those of later axes
            for (int k = a + 1; k < 3; k++)
                b.mn[k] -= t, b.mx[k] += t;
            if (s)
                b.mn[a] = hi[a], b.mx[a] = hi[a] + t;
            else
                b.mx[a] = lo[a], b.mn[a] = lo[a] - t;
            m.box.push_back(b);
        }
}
} // namespace qw
