// Small worlds of box rooms joined by convex openings, written as a .bsp and a
// .prt for vis; plus a witness oracle for line of sight through the openings.
#pragma once
#include <mc/explore.hh>
#include <common/bspfile.hh>
#include <common/bsputils.hh>
#include <common/cmdlib.hh>
#include <common/log.hh>
#include <vis/vis.hh>
#include <array>
#include <cmath>
#include <fstream>
#include <filesystem>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace vw
{
using V3 = std::array<double, 3>;
inline V3 operator-(const V3 &a, const V3 &b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
inline V3 operator+(const V3 &a, const V3 &b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
inline V3 operator*(const V3 &a, double s) { return {a[0] * s, a[1] * s, a[2] * s}; }
inline double len(const V3 &a) { return std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]); }

constexpr double CELL = 64;

struct Opening
{
    int a, b; // rooms; the opening is on a's +axis side
    int axis;
    double at; // coordinate along axis
    std::vector<std::array<double, 2>> pts; // convex, in the two other axes (axis+1, axis+2), counterclockwise
};

struct Affine
{
    double m[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
    V3 t{0, 0, 0};
    V3 operator()(const V3 &p) const
    {
        V3 r;
        for (int i = 0; i < 3; i++)
            r[i] = m[i][0] * p[0] + m[i][1] * p[1] + m[i][2] * p[2] + t[i];
        return r;
    }
};
inline Affine transform(int k)
{
    Affine f;
    if (k == 1) { // rotate about z by 30 degrees, offset
        double c = std::cos(M_PI / 6), s = std::sin(M_PI / 6);
        f.m[0][0] = c, f.m[0][1] = -s, f.m[1][0] = s, f.m[1][1] = c;
        f.t = {1000, -2000, 300};
    } else if (k == 2) { // generic rotation
        double a = 0.7, b = 0.4;
        double ca = std::cos(a), sa = std::sin(a), cb = std::cos(b), sb = std::sin(b);
        double r[3][3] = {{ca * cb, -sa, ca * sb}, {sa * cb, ca, sa * sb}, {-sb, 0, cb}};
        for (int i = 0; i < 3; i++)
            for (int j = 0; j < 3; j++)
                f.m[i][j] = r[i][j];
        f.t = {-511.5, 77.25, 4000};
    } else if (k == 3) { // shear (rooms become parallelepipeds)
        f.m[0][1] = 0.5, f.m[1][2] = 0.25, f.m[2][0] = -0.25;
        f.t = {-3000, 17, 5};
    } else if (k == 4) { // mirror-free axis permutation: exercises other axial planes
        double r[3][3] = {{0, 0, 1}, {1, 0, 0}, {0, 1, 0}};
        for (int i = 0; i < 3; i++)
            for (int j = 0; j < 3; j++)
                f.m[i][j] = r[i][j];
    }
    return f;
}

struct World
{
    int nx = 1, ny = 1, nz = 1;
    std::vector<Opening> op;
    int rooms() const { return nx * ny * nz; }
    int room(int x, int y, int z = 0) const { return (z * ny + y) * nx + x; }
    V3 mins(int r) const { return {CELL * (r % nx), CELL * (r / nx % ny), CELL * (r / nx / ny)}; }
    // opening between room (x,y,z) and the next one along axis
    void add(int x, int y, int z, int axis, std::vector<std::array<double, 2>> pts)
    {
        Opening o;
        o.a = room(x, y, z);
        o.b = room(x + (axis == 0), y + (axis == 1), z + (axis == 2));
        o.axis = axis;
        V3 m = mins(o.b);
        o.at = m[axis];
        int u = (axis + 1) % 3, v = (axis + 2) % 3;
        for (auto &p : pts)
            p[0] += m[u], p[1] += m[v];
        o.pts = std::move(pts);
        op.push_back(std::move(o));
    }
};
inline std::vector<std::array<double, 2>> rect(double u0, double v0, double u1, double v1)
{
    return {{u0, v0}, {u1, v0}, {u1, v1}, {u0, v1}};
}
inline std::vector<std::array<double, 2>> ngon(int n, double cu, double cv, double r, double phase)
{
    std::vector<std::array<double, 2>> p;
    for (int i = 0; i < n; i++)
        p.push_back({cu + r * std::cos(phase + 2 * M_PI * i / n), cv + r * std::sin(phase + 2 * M_PI * i / n)});
    return p;
}
inline V3 lift(const Opening &o, double u, double v)
{
    V3 p;
    p[o.axis] = o.at;
    p[(o.axis + 1) % 3] = u;
    p[(o.axis + 2) % 3] = v;
    return p;
}
inline bool inside(const Opening &o, double u, double v, double margin)
{
    size_t n = o.pts.size();
    for (size_t i = 0; i < n; i++) {
        auto &p = o.pts[i], &q = o.pts[(i + 1) % n];
        double ex = q[0] - p[0], ey = q[1] - p[1];
        double l = std::hypot(ex, ey);
        if (((u - p[0]) * -ey + (v - p[1]) * ex) / l < margin)
            return false;
    }
    return true;
}
constexpr double MARGIN = 0.5;
// sample points of an opening, at least MARGIN inside: near each corner, edge middles, centre
inline std::vector<V3> samples(const Opening &o)
{
    double cu = 0, cv = 0;
    size_t n = o.pts.size();
    for (auto &p : o.pts)
        cu += p[0] / n, cv += p[1] / n;
    std::vector<V3> r{lift(o, cu, cv)};
    size_t step = n > 8 ? n / 8 : 1;
    for (size_t i = 0; i < n; i += step) {
        for (int mid = 0; mid < 2; mid++) {
            double u = o.pts[i][0], v = o.pts[i][1];
            if (mid)
                u = (u + o.pts[(i + 1) % n][0]) / 2, v = (v + o.pts[(i + 1) % n][1]) / 2;
            // pull towards the centre until inside by the margin
            for (double t = 0.02; t < 1; t += 0.02) {
                double a = u + (cu - u) * t, b = v + (cv - v) * t;
                if (inside(o, a, b, MARGIN + 0.01)) {
                    r.push_back(lift(o, a, b));
                    break;
                }
            }
        }
    }
    return r;
}

// sees[a] has bit b: proved line of sight; limit>0: only by (transformed) segments not longer than limit
struct Sight
{
    std::vector<std::set<int>> sees;
    std::vector<std::set<int>> reach;
};
inline Sight line_of_sight(const World &w, double limit = 0, const Affine *f = nullptr)
{
    int n = w.rooms();
    Sight s;
    s.sees.resize(n);
    s.reach.resize(n);
    std::vector<std::vector<int>> exits(n); // openings of each room
    for (size_t i = 0; i < w.op.size(); i++) {
        exits[w.op[i].a].push_back(i);
        exits[w.op[i].b].push_back(i);
    }
    for (int r = 0; r < n; r++) {
        s.sees[r].insert(r);
        std::vector<int> st{r};
        s.reach[r].insert(r);
        while (!st.empty()) {
            int c = st.back();
            st.pop_back();
            for (int o : exits[c]) {
                int d = w.op[o].a == c ? w.op[o].b : w.op[o].a;
                if (s.reach[r].insert(d).second)
                    st.push_back(d);
            }
        }
    }
    std::vector<std::vector<V3>> smp;
    for (auto &o : w.op)
        smp.push_back(samples(o));
    for (auto &o : w.op) {
        s.sees[o.a].insert(o.b);
        s.sees[o.b].insert(o.a);
    }
    for (size_t i = 0; i < w.op.size(); i++)
        for (int dir = 0; dir < 2; dir++) {
            int from = dir ? w.op[i].b : w.op[i].a, first = dir ? w.op[i].a : w.op[i].b;
            for (size_t j = 0; j < w.op.size(); j++) {
                if (i == j)
                    continue;
                for (int dir2 = 0; dir2 < 2; dir2++) {
                    int last = dir2 ? w.op[j].b : w.op[j].a, to = dir2 ? w.op[j].a : w.op[j].b;
                    if (s.sees[from].count(to) || !s.reach[from].count(to))
                        continue;
                    bool found = false;
                    for (auto &a : smp[i]) {
                        for (auto &b : smp[j]) {
                            V3 d = b - a;
                            // must go forward through both openings
                            double fi = d[w.op[i].axis] * (dir ? -1 : 1), fj = d[w.op[j].axis] * (dir2 ? -1 : 1);
                            if (fi < 1 || fj < 1)
                                continue;
                            if (limit > 0 && len((*f)(b) - (*f)(a)) > limit)
                                continue;
                            int c = first;
                            bool ok = true;
                            while (c != last) {
                                // exit of the segment from room c
                                V3 mn = w.mins(c);
                                double bt = 2;
                                int bo = -1;
                                for (int o : exits[c]) {
                                    int ax = w.op[o].axis;
                                    double sgn = w.op[o].a == c ? 1 : -1;
                                    if (d[ax] * sgn <= 1e-9)
                                        continue;
                                    double t = (w.op[o].at - a[ax]) / d[ax];
                                    if (t <= 1e-9 || t >= 1)
                                        continue;
                                    V3 p = a + d * t;
                                    if (inside(w.op[o], p[(ax + 1) % 3], p[(ax + 2) % 3], MARGIN) && t < bt) {
                                        bt = t;
                                        bo = o;
                                    }
                                }
                                (void)mn;
                                if (bo < 0) {
                                    ok = false;
                                    break;
                                }
                                c = w.op[bo].a == c ? w.op[bo].b : w.op[bo].a;
                            }
                            if (ok) {
                                found = true;
                                break;
                            }
                        }
                        if (found)
                            break;
                    }
                    if (found)
                        s.sees[from].insert(to);
                }
            }
        }
    return s;
}

// ---------------------------------------------------------------- files
struct PrtOptions
{
    int format = 1; // 1 = PRT1, 2 = PRT2, 3 = PRT1-AM
    std::vector<int> cluster_of_leaf; // for 2 and 3
};
inline std::string prt_text(const World &w, const Affine &f, const PrtOptions &po = {}, int order = 0)
{
    // order: bit 0 stores each opening from its other side, bit 1 lists them backwards
    bool reverse = order & 1;
    std::ostringstream o;
    o.precision(17);
    int clusters = w.rooms();
    int leafs = po.format == 1 ? clusters : (int)po.cluster_of_leaf.size();
    if (po.format == 1)
        o << "PRT1\n" << clusters << "\n" << w.op.size() << "\n";
    else if (po.format == 2)
        o << "PRT2\n" << leafs << "\n" << clusters << "\n" << w.op.size() << "\n";
    else
        o << "PRT1-AM\n" << clusters << "\n" << w.op.size() << "\n" << leafs << "\n";
    for (size_t i = 0; i < w.op.size(); i++) {
        auto &p = w.op[order & 2 ? w.op.size() - 1 - i : i];
        // the stored winding faces leaf 0 of the pair (normal = (p0-p1)x(p2-p1)), i.e. room a
        o << p.pts.size() << " " << (reverse ? p.b : p.a) << " " << (reverse ? p.a : p.b) << " ";
        std::vector<std::array<double, 2>> q = p.pts;
        // counterclockwise in (axis+1,axis+2) seen from +axis: (p0-p1)x(p2-p1) points to -axis, towards a
        if (reverse)
            std::reverse(q.begin(), q.end());
        for (auto &x : q) {
            V3 v = f(lift(p, x[0], x[1]));
            o << "(" << v[0] << " " << v[1] << " " << v[2] << " ) ";
        }
        o << "\n";
    }
    if (po.format == 2) {
        for (int c = 0; c < clusters; c++) {
            for (int l = 0; l < leafs; l++)
                if (po.cluster_of_leaf[l] == c)
                    o << l << " ";
            o << "-1\n";
        }
    } else if (po.format == 3)
        for (int l = 0; l < leafs; l++)
            o << po.cluster_of_leaf[l] << "\n";
    return o.str();
}

struct FaceTex
{
    std::string name;
};
// a .bsp with `leafs` visible leafs; textures[l] = texture names of the faces of leaf l
inline void write_bsp(const std::string &path, const bspversion_t *ver, int leafs, const std::vector<std::vector<std::string>> *textures = nullptr)
{
    bspdata_t d;
    d.version = &bspver_generic;
    d.loadversion = ver;
    mbsp_t b;
    b.loadversion = ver;
    b.dentdata = "{\n\"classname\" \"worldspawn\"\n}\n";
    b.dplanes.push_back({qplane3f{{1, 0, 0}, 0}, 0});
    bsp2_dnode_t nd{};
    nd.planenum = 0;
    nd.children = {-2, -1};
    b.dnodes.push_back(nd);
    bool q2 = ver->game->id == GAME_QUAKE_II;
    mleaf_t solid{};
    solid.contents = q2 ? 1 : -2;
    solid.visofs = -1;
    solid.cluster = -1;
    b.dleafs.push_back(solid);
    for (int i = 0; i < leafs; i++) {
        mleaf_t l{};
        l.contents = q2 ? 0 : -1;
        l.visofs = -1;
        l.cluster = q2 ? i : 0;
        l.area = q2 ? 1 : 0;
        l.mins = {float(64 * (i % 400)), 0, 0};
        l.maxs = {float(64 * (i % 400) + 64), 64, 64};
        b.dleafs.push_back(l);
    }
    dmodelh2_t m{};
    m.visleafs = leafs;
    m.headnode = {0, 0, 0, 0};
    b.dmodels.push_back(m);
    b.dvertexes = {{0, 0, 0}, {64, 0, 0}, {64, 64, 0}};
    b.dedges = {{0, 0}, {0, 1}, {1, 2}, {2, 0}};
    b.dsurfedges = {1, 2, 3};
    if (textures) {
        std::vector<std::string> names;
        for (int l = 0; l < leafs; l++) {
            b.dleafs[l + 1].firstmarksurface = b.dleaffaces.size();
            for (auto &t : (*textures)[l]) {
                size_t k = 0;
                while (k < names.size() && names[k] != t)
                    k++;
                if (k == names.size()) {
                    names.push_back(t);
                    mtexinfo_t ti{};
                    ti.miptex = k;
                    b.texinfo.push_back(ti);
                    miptex_t mt;
                    mt.name = t;
                    mt.width = mt.height = 16;
                    mt.offsets = {0, 0, 0, 0};
                    mt.data.resize(40);
                    memcpy(mt.data.data(), t.data(), std::min<size_t>(t.size(), 15));
                    mt.data[16] = mt.data[20] = 16;
                    b.dtex.textures.push_back(mt);
                }
                mface_t f{};
                f.planenum = 0;
                f.firstedge = 0;
                f.numedges = 3;
                f.texinfo = k;
                f.styles = {255, 255, 255, 255};
                f.lightofs = -1;
                b.dleaffaces.push_back(b.dfaces.size());
                b.dfaces.push_back(f);
            }
            b.dleafs[l + 1].nummarksurfaces = b.dleaffaces.size() - b.dleafs[l + 1].firstmarksurface;
        }
    }
    if (q2) {
        b.dareas.push_back({0, 0});
        b.dareas.push_back({0, 0});
    }
    d.bsp = std::move(b);
    ConvertBSPFormat(&d, ver);
    WriteBSPFile(path, &d);
}

// own decoder of a compressed row
inline std::vector<bool> decode_row(const std::vector<uint8_t> &bits, size_t ofs, int n, bool *ok = nullptr, size_t *end = nullptr)
{
    std::vector<bool> r;
    if (ok)
        *ok = true;
    int bytes = (n + 7) / 8, got = 0;
    std::vector<uint8_t> out;
    while (got < bytes) {
        if (ofs >= bits.size()) {
            if (ok)
                *ok = false;
            break;
        }
        uint8_t c = bits[ofs++];
        if (c) {
            out.push_back(c);
            got++;
            continue;
        }
        if (ofs >= bits.size() || bits[ofs] == 0) {
            if (ok)
                *ok = false;
            break;
        }
        int k = bits[ofs++];
        out.insert(out.end(), k, 0);
        got += k;
    }
    if (got != bytes && ok)
        *ok = false;
    if (end)
        *end = ofs;
    out.resize(bytes);
    for (int i = 0; i < bytes * 8; i++)
        r.push_back(out[i / 8] >> (i % 8) & 1);
    return r;
}

struct Result
{
    bool threw = false;
    std::string error;
    std::vector<std::set<int>> pvs, phs; // per leaf (q1) or cluster (q2)
    std::vector<std::array<int, 4>> ambient;
    std::string bad; // malformed output
    bspdata_t data;
    int leafs = 0;
};
inline std::string slurp(const std::string &p)
{
    std::ifstream f(p, std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    return ss.str();
}
inline void spit(const std::string &p, const std::string &s)
{
    std::ofstream f(p, std::ios::binary);
    f << s;
}
inline Result read_back(const std::string &path, int leafs)
{
    Result r;
    r.leafs = leafs;
    bspdata_t d;
    fs::path p(path);
    LoadBSPFile(p, &d);
    ConvertBSPFormat(&d, &bspver_generic);
    auto &b = std::get<mbsp_t>(d.bsp);
    bool q2 = d.loadversion->game->id == GAME_QUAKE_II;
    auto row = [&](size_t ofs, std::vector<std::set<int>> &to) {
        bool ok;
        auto v = decode_row(b.dvis.bits, ofs, leafs, &ok);
        std::set<int> s;
        if (!ok)
            r.bad = "row does not decode to its full length";
        for (int i = 0; i < (int)v.size(); i++)
            if (v[i]) {
                if (i >= leafs)
                    r.bad = "padding bit set";
                s.insert(i);
            }
        to.push_back(s);
    };
    if (q2) {
        if ((int)b.dvis.bit_offsets.size() != leafs)
            r.bad = "wrong cluster count in the visibility lump";
        else
            for (int i = 0; i < leafs; i++) {
                row(b.dvis.get_bit_offset(VIS_PVS, i), r.pvs);
                row(b.dvis.get_bit_offset(VIS_PHS, i), r.phs);
            }
    } else {
        for (int i = 0; i < leafs; i++) {
            if (b.dleafs[i + 1].visofs < 0 || b.dleafs[i + 1].visofs >= (int)b.dvis.bits.size()) {
                r.bad = "leaf " + std::to_string(i) + " has no row (visofs " + std::to_string(b.dleafs[i + 1].visofs) + ")";
                r.pvs.emplace_back();
                continue;
            }
            row(b.dleafs[i + 1].visofs, r.pvs);
            auto &a = b.dleafs[i + 1].ambient_level;
            r.ambient.push_back({a[0], a[1], a[2], a[3]});
        }
    }
    r.data = std::move(d);
    return r;
}
inline Result run_vis(const std::string &base, int leafs, const std::vector<std::string> &args)
{
    std::vector<std::string> a{"vis", "-nopercent", "-nostat", "-noprogress"};
    a.insert(a.end(), args.begin(), args.end());
    a.push_back(base + ".bsp");
    Result r;
    try {
        vis_main(a);
    } catch (const std::exception &e) {
        r.threw = true;
        r.error = e.what();
        return r;
    }
    return read_back(base + ".bsp", leafs);
}
inline std::string show(const std::vector<std::set<int>> &s)
{
    std::string o;
    for (size_t i = 0; i < s.size(); i++) {
        o += std::to_string(i) + ":{";
        for (int x : s[i])
            o += std::to_string(x) + " ";
        o += "} ";
    }
    return o;
}
inline std::string describe(const World &w)
{
    std::ostringstream o;
    o << w.nx << "x" << w.ny << "x" << w.nz << " rooms; openings";
    for (auto &p : w.op) {
        o << " " << p.a << "-" << p.b << "[";
        for (auto &q : p.pts)
            o << "(" << q[0] << "," << q[1] << ")";
        o << "]";
    }
    return o.str();
}
} // namespace vw
