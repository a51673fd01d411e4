// Q01..Q06: maps of axial boxes through the real qbsp, judged cell by cell and
// patch by patch.
#include "qworld.hh"
using namespace mc;
using namespace qw;
namespace
{
struct Case
{
    Map m;
    std::vector<std::string> opts;
    FillOpt fill;
    std::string key;
    bool has(const char *o) const { return std::find(opts.begin(), opts.end(), o) != opts.end(); }
};
std::string fl(unsigned f) { char b[20]; snprintf(b, sizeof b, "%x", f); return b; }

// ---------------------------------------------------------------- Q01
void judge_contents(Ctx &c, const Case &k, const Out &o, const Cells &g)
{
    const mbsp_t &b = o.bsp;
    int head = b.dmodels.at(0).headnode[0];
    for (int i = 0; i < g.total(); i++) {
        D3 p = g.center(i);
        int leaf = walk(b, head, p);
        if (leaf < 0 || leaf >= (int)b.dleafs.size())
            return c.fail(k.key + " leaf", "the point " + p3(p) + " leads to leaf " + std::to_string(leaf));
        int got = b.dleafs[leaf].contents, want = native_q1(g.fin[i]);
        bool ok = g.exact[i] ? got == want : got == -2 || got == -6;
        c.outcome(hcomb(got, want));
        if (!ok)
            return c.fail(k.key + " contents", "the point " + p3(p) + " has contents " + std::to_string(got) + ", expected " + std::to_string(want) + (g.exact[i] ? "" : " or sky"));
        auto &l = b.dleafs[leaf];
        if (leaf)
            for (int a = 0; a < 3; a++)
                if (p[a] < l.mins[a] - 0.01 || p[a] > l.maxs[a] + 0.01)
                    return c.fail(k.key + " leafbounds", "the point " + p3(p) + " is outside the bounds of its leaf");
        // every node on the way contains it
        for (int n = head; n >= 0;) {
            auto &nd = b.dnodes.at(n);
            for (int a = 0; a < 3; a++)
                if (p[a] < nd.mins[a] - 0.01 || p[a] > nd.maxs[a] + 0.01)
                    return c.fail(k.key + " nodebounds", "the point " + p3(p) + " is outside the bounds of its node");
            auto &pl = b.dplanes.at(nd.planenum);
            double d = p[0] * pl.normal[0] + p[1] * pl.normal[1] + p[2] * pl.normal[2] - pl.dist;
            n = nd.children[d < 0];
        }
    }
    c.count("points", g.total());
}
struct Hulls
{
    int n;
    int b[5][2][3];
};
const Hulls Q1HULLS{2, {{{-16, -16, -24}, {16, 16, 32}}, {{-32, -32, -24}, {32, 32, 64}}}};
const Hulls HLHULLS{3, {{{-16, -16, -36}, {16, 16, 36}}, {{-32, -32, -32}, {32, 32, 32}}, {{-16, -16, -18}, {16, 16, 18}}}};
const Hulls H2HULLS{5, {{{-16, -16, -24}, {16, 16, 32}}, {{-24, -24, -20}, {24, 24, 20}}, {{-16, -16, -12}, {16, 16, 16}}, {{-8, -8, -8}, {8, 8, 8}}, {{-28, -28, -40}, {28, 28, 40}}}};
// ---------------------------------------------------------------- Q02
void judge_hulls(Ctx &c, const Case &k, const Out &o, const Cells &g0, const Hulls &H)
{
    const mbsp_t &b = o.bsp;
    bool leaked = g0.leak;
    for (int h = 0; h < H.n; h++) {
        Cells g = hull_cells(k.m, H.b[h][0], H.b[h][1]);
        if (g.total() == 1)
            continue;
        flood(g, k.m, h + 1, k.fill);
        if (g.ambiguous) {
            c.count("ambiguous");
            continue;
        }
        leaked |= g.leak;
        int head = b.dmodels.at(0).headnode[h + 1];
        for (int i = 0; i < g.total(); i++) {
            D3 p = g.center(i);
            int got = clipwalk(b, head, p);
            int want = g.fin[i] & F_SOLID ? -2 : -1;
            c.outcome(hcomb(hcomb(h, got), want));
            if (got != want)
                return c.fail(k.key + " hull" + std::to_string(h + 1), "the player box of hull " + std::to_string(h + 1) + " at " + p3(p) + " gets contents " + std::to_string(got) + ", expected " + std::to_string(want));
        }
        c.count("points", g.total());
    }
}
// ---------------------------------------------------------------- Q03
void judge_leak(Ctx &c, const Case &k, const Out &o, const Cells &g)
{
    bool leak = g.leak && !k.fill.nofill;
    if (leak != o.pts)
        return c.fail(k.key + " leak", leak ? "an entity reaches the outside but no leak is reported" : "a leak is reported but no entity reaches the outside");
    if ((leak && !k.has("-keepprt")) == o.prt.present)
        return c.fail(k.key + " prt", leak ? "a portal file is left although the map leaks" : "no portal file is written");
    c.outcome(leak ? 1 : 2);
    if (!leak)
        return;
    auto &t = o.trail;
    if (t.empty()) {
        // right in the outermost volume: one of the entities is in a box of open
        // space that reaches the edge of the world
        c.count("no_trail");
    }
    if (!t.empty()) {
        bool start = false;
        for (int e : g.occ_pt) {
            auto &a = k.m.pt[e].at;
            start |= std::abs(a[0] - t[0][0]) + std::abs(a[1] - t[0][1]) + std::abs(a[2] - t[0][2]) < 1e-3;
        }
        if (!start)
            return c.fail(k.key + " trailstart", "the leak trail starts at " + p3(t[0]) + ", where no leaking entity is");
    }
    // between consecutive points nothing seals
    for (size_t i = 0; i + 1 < t.size(); i++)
        for (int s = 0; s <= 32; s++) {
            double p[3];
            for (int a = 0; a < 3; a++)
                p[a] = t[i][a] + (t[i + 1][a] - t[i][a]) * s / 32;
            auto cs = g.at(p);
            bool open = false;
            for (int x : cs)
                open |= !seals(g.flags[x]);
            if (!open)
                return c.fail(k.key + " trail", "the leak trail passes through something sealing between " + p3(t[i]) + " and " + p3(t[i + 1]));
        }
    // the end sees the edge of the world along an axis
    D3 e{};
    bool out = false;
    std::vector<D3> ends;
    if (t.empty())
        for (int x : g.occ_pt)
            ends.push_back({(double)k.m.pt[x].at[0], (double)k.m.pt[x].at[1], (double)k.m.pt[x].at[2]});
    else
        ends.push_back(t.back());
    for (auto &q : ends) {
        e = q;
        for (int cell : g.at(q.data())) {
            if (seals(g.flags[cell]))
                continue;
            int kk[3];
            g.xyz(cell, kk);
            for (int a = 0; a < 3; a++)
                for (int d = -1; d <= 1; d += 2) {
                    int z[3] = {kk[0], kk[1], kk[2]};
                    bool free = true;
                    for (; z[a] >= 0 && z[a] < g.n[a]; z[a] += d)
                        free &= !seals(g.flags[g.id(z[0], z[1], z[2])]);
                    out |= free;
                }
        }
    }
    if (!out)
        return c.fail(k.key + " trailend", "the leak trail ends at " + p3(e) + ", which is not outside");
}

// ---------------------------------------------------------------- patches
struct Patch
{
    int axis;
    int k; // coordinate index of the plane: between slab k-1 and k
    int back, front; // cells
    double u0, u1, v0, v1; // along axis+1, axis+2
    double at;
    double area() const { return (u1 - u0) * (v1 - v0); }
    D3 center() const
    {
        D3 p;
        p[axis] = at;
        // not on a line faces are likely to be cut along
        p[(axis + 1) % 3] = u0 + (u1 - u0) * 0.3719;
        p[(axis + 2) % 3] = v0 + (v1 - v0) * 0.4337;
        return p;
    }
};
std::vector<Patch> patches(const Cells &g)
{
    std::vector<Patch> r;
    for (int a = 0; a < 3; a++) {
        int u = (a + 1) % 3, v = (a + 2) % 3;
        for (int k = 1; k < g.n[a]; k++)
            for (int i = 0; i < g.n[u]; i++)
                for (int j = 0; j < g.n[v]; j++) {
                    int z[3];
                    z[a] = k - 1, z[u] = i, z[v] = j;
                    Patch p{a, k, g.id(z[0], z[1], z[2]), 0, g.lo(u, i), g.hi(u, i), g.lo(v, j), g.hi(v, j), (double)g.c[a][k]};
                    z[a] = k;
                    p.front = g.id(z[0], z[1], z[2]);
                    r.push_back(p);
                }
    }
    return r;
}
struct Want
{
    std::string tex[2]; // seen from the front / from the back cell
    bool optional[2] = {};
    int brush[2] = {-1, -1};
};
unsigned strongest(unsigned f)
{
    f &= F_VISIBLE;
    return f & -f;
}
Want wanted(const Map &m, const Cells &g, const Patch &p)
{
    Want w;
    unsigned c0 = g.fin[p.front], c1 = g.fin[p.back];
    auto op = [](unsigned f) { return f & (F_SOLID | F_SKY); };
    if (op(c0) && op(c1))
        return w;
    unsigned vis = strongest(c0 ^ c1);
    if (!vis)
        return w;
    int cell[2] = {p.front, p.back};
    for (int j = 0; j < 2; j++) {
        auto &bl = g.brushes[cell[j]];
        for (auto it = bl.rbegin(); it != bl.rend(); ++it) {
            const Box &b = m.box[*it];
            unsigned bf = flags_in(m, b.type);
            if (!(bf & vis))
                continue;
            // a side of the brush in the plane of the patch (the brush is in cell j)
            int coord = (int)p.at;
            int face;
            if (j == 0 && b.mn[p.axis] == coord)
                face = 2 * p.axis;
            else if (j == 1 && b.mx[p.axis] == coord)
                face = 2 * p.axis + 1;
            else
                continue;
            if (w.brush[!j] < 0)
                w.brush[!j] = *it, w.tex[!j] = texname(b, *it, face);
            if ((bf & F_MIRROR) && w.brush[j] < 0)
                w.brush[j] = *it, w.tex[j] = texname(b, *it, face);
        }
    }
    for (int j = 0; j < 2; j++) {
        unsigned f = g.fin[cell[j]];
        if (w.brush[j] >= 0 && ((f & F_SOLID) || (f & F_SKY) || m.box[w.brush[j]].type == SKIP || m.box[w.brush[j]].tex == "skip"))
            w.brush[j] = -1, w.tex[j].clear();
        else if (w.brush[j] >= 0 && (f & F_WALL))
            w.optional[j] = true;
    }
    return w;
}
// ---------------------------------------------------------------- Q04
struct BF // a face of the file
{
    int axis = -1, side; // side 0: facing +axis
    double at;
    std::vector<D3> v;
    std::string tex;
    double mn[3], mx[3];
    double area;
    unsigned back = 1 << 30; // what is behind it
};
bool read_faces(Ctx &c, const Case &k, const mbsp_t &b, int first, int n, std::vector<BF> &out)
{
    for (int i = first; i < first + n; i++) {
        auto &f = b.dfaces.at(i);
        BF x;
        for (int e = 0; e < f.numedges; e++) {
            int s = b.dsurfedges.at(f.firstedge + e);
            auto &ed = b.dedges.at(std::abs(s));
            auto &v = b.dvertexes.at(s < 0 ? ed[1] : ed[0]);
            x.v.push_back({v[0], v[1], v[2]});
        }
        std::string where = "face " + std::to_string(i);
        if (x.v.size() < 3) {
            c.fail(k.key + " face", where + " has " + std::to_string(x.v.size()) + " vertices");
            return false;
        }
        auto &pl = b.dplanes.at(f.planenum);
        for (int a = 0; a < 3; a++)
            if (pl.normal[a] == 1)
                x.axis = a, x.at = pl.dist;
        if (x.axis < 0) {
            c.fail(k.key + " plane", where + " is not on an axial plane");
            return false;
        }
        x.side = f.side;
        double N[3] = {};
        for (int a = 0; a < 3; a++)
            x.mn[a] = 1e9, x.mx[a] = -1e9;
        for (size_t e = 0; e < x.v.size(); e++) {
            auto &p = x.v[e], &q = x.v[(e + 1) % x.v.size()];
            for (int a = 0; a < 3; a++) {
                int u = (a + 1) % 3, v = (a + 2) % 3;
                N[a] += (p[u] * q[v] - p[v] * q[u]) / 2;
                x.mn[a] = std::min(x.mn[a], p[a]), x.mx[a] = std::max(x.mx[a], p[a]);
            }
            if (std::abs(p[x.axis] - x.at) > 0.01) {
                c.fail(k.key + " offplane", where + " has a vertex " + p3(p) + " off its plane");
                return false;
            }
        }
        // clockwise seen from the front
        double s = -N[x.axis] * (f.side ? -1 : 1);
        x.area = std::abs(N[x.axis]);
        if (s <= 0) {
            c.fail(k.key + " winding", where + " is wound the wrong way round");
            return false;
        }
        int u = (x.axis + 1) % 3, v = (x.axis + 2) % 3;
        for (size_t e = 0; e < x.v.size(); e++) {
            auto &p = x.v[e], &q = x.v[(e + 1) % x.v.size()], &r = x.v[(e + 2) % x.v.size()];
            double cr = (q[u] - p[u]) * (r[v] - q[v]) - (q[v] - p[v]) * (r[u] - q[u]);
            if (cr * N[x.axis] < -1e-6) {
                c.fail(k.key + " convex", where + " is not convex");
                return false;
            }
            if (std::abs(p[0] - q[0]) + std::abs(p[1] - q[1]) + std::abs(p[2] - q[2]) < 0.001) {
                c.fail(k.key + " edge", where + " has an edge of length 0");
                return false;
            }
        }
        auto &ti = b.texinfo.at(f.texinfo);
        x.tex = ti.miptex >= 0 && ti.miptex < (int)b.dtex.textures.size() ? b.dtex.textures[ti.miptex].name : std::string(ti.texture.data());
        // what a lightmap of the engine can hold
        if (!(ti.flags.native & 1)) {
            for (int t = 0; t < 2; t++) {
                double lo = 1e9, hi = -1e9;
                for (auto &p : x.v) {
                    double d = p[0] * ti.vecs.at(t, 0) + p[1] * ti.vecs.at(t, 1) + p[2] * ti.vecs.at(t, 2) + ti.vecs.at(t, 3);
                    lo = std::min(lo, d), hi = std::max(hi, d);
                }
                if (std::ceil(hi / 16) * 16 - std::floor(lo / 16) * 16 > 256 && !k.has("-nosubdivide")) {
                    c.fail(k.key + " extents", where + " is too large for a lightmap");
                    return false;
                }
            }
        }
        out.push_back(std::move(x));
    }
    return true;
}
bool covers(const BF &f, const D3 &p)
{
    int u = (f.axis + 1) % 3, v = (f.axis + 2) % 3;
    int s = 0;
    for (size_t e = 0; e < f.v.size(); e++) {
        auto &a = f.v[e], &b = f.v[(e + 1) % f.v.size()];
        double cr = (b[u] - a[u]) * (p[v] - a[v]) - (b[v] - a[v]) * (p[u] - a[u]);
        if (std::abs(cr) < 1e-6)
            continue;
        int t = cr > 0 ? 1 : -1;
        if (s && t != s)
            return false;
        s = t;
    }
    return true;
}
// faces whose vertices have to meet: all those before something opaque (the compiler
// leaves e.g. water and rock apart)
unsigned weldclass(unsigned f)
{
    if (!(f & ~(F_SOLID | F_SKY | F_DETAIL)) && (f & (F_SOLID | F_SKY)))
        return 1u << 29;
    return f;
}
void tjunctions(Ctx &c, const Case &k, const std::vector<BF> &fs, unsigned want)
{
    std::map<unsigned, std::set<D3>> by;
    for (auto &f : fs)
        for (size_t e = 0; e < f.v.size(); e++) {
            // its corners (a vertex taken over from another face is not passed on)
            auto &p = f.v[e], &q = f.v[(e + 1) % f.v.size()], &r = f.v[(e + 2) % f.v.size()];
            int u = (f.axis + 1) % 3, v = (f.axis + 2) % 3;
            if (std::abs((q[u] - p[u]) * (r[v] - q[v]) - (q[v] - p[v]) * (r[u] - q[u])) > 1e-3)
                by[weldclass(f.back)].insert(q);
        }
    for (size_t i = 0; i < fs.size(); i++) {
        auto &f = fs[i];
        unsigned cls = weldclass(f.back);
        if (cls != want)
            continue;
        for (auto &p : by[cls]) {
            bool in = true;
            for (int a = 0; a < 3; a++)
                in &= p[a] >= f.mn[a] - 0.01 && p[a] <= f.mx[a] + 0.01;
            if (!in)
                continue;
            for (size_t e = 0; e < f.v.size(); e++) {
                auto &a = f.v[e], &b = f.v[(e + 1) % f.v.size()];
                double d[3], l2 = 0, t = 0;
                for (int x = 0; x < 3; x++)
                    d[x] = b[x] - a[x], l2 += d[x] * d[x], t += d[x] * (p[x] - a[x]);
                t /= l2;
                double l = std::sqrt(l2);
                if (t * l < 0.05 || t * l > l - 0.05)
                    continue;
                double off = 0;
                for (int x = 0; x < 3; x++)
                    off += std::pow(p[x] - a[x] - t * d[x], 2);
                if (off < 1e-4)
                    return c.fail(k.key + " tjunction", "the vertex " + p3(p) + " lies inside an edge of face " + std::to_string(i) + " from " + p3(a) + " to " + p3(b));
            }
        }
    }
    c.count("welded_edges", fs.size());
}
void judge_faces(Ctx &c, const Case &k, const Out &o, const Cells &g, int model = 0)
{
    const mbsp_t &b = o.bsp;
    auto &mod = b.dmodels.at(model);
    std::vector<BF> fs;
    if (!read_faces(c, k, b, mod.firstface, mod.numfaces, fs))
        return;
    double want_area = 0, opt_area = 0, got_area = 0;
    for (auto &f : fs)
        got_area += f.area;
    std::vector<char> used(fs.size(), 0);
    auto ps = patches(g);
    size_t drawn = 0;
    for (auto &p : ps) {
        Want w = wanted(k.m, g, p);
        if (!g.exact[p.front] || !g.exact[p.back]) {
            // neither side can be seen
            w = Want();
        }
        D3 ctr = p.center();
        for (int j = 0; j < 2; j++) { // j 0: seen from the front
            int hits = 0;
            const BF *hit = nullptr;
            int hi = 0;
            for (size_t i = 0; i < fs.size(); i++) {
                auto &f = fs[i];
                if (f.axis != p.axis || f.side != j || std::abs(f.at - p.at) > 0.01)
                    continue;
                if (covers(f, ctr))
                    hits++, hit = &f, hi = i;
            }
            bool want = w.brush[j] >= 0;
            if (hits > 1)
                return c.fail(k.key + " twice", "the surface at " + p3(ctr) + " is drawn " + std::to_string(hits) + " times");
            if (hits && !want)
                return c.fail(k.key + " extra", "a face with texture " + hit->tex + " is drawn at " + p3(ctr) + " where there is no surface");
            if (!hits && want && !w.optional[j])
                return c.fail(k.key + " missing", "the surface " + w.tex[j] + " at " + p3(ctr) + (j ? " seen from below" : " seen from above") + " is not drawn");
            if (want)
                (w.optional[j] ? opt_area : want_area) += p.area();
            if (hits) {
                drawn++;
                used[hi] = 1;
                unsigned back = g.fin[j ? p.front : p.back];
                if (fs[hi].back == 1u << 30)
                    fs[hi].back = back;
                else if (fs[hi].back != back)
                    fs[hi].back = 1u << 31;
                if (hit->tex != w.tex[j])
                    return c.fail(k.key + " texture", "the surface at " + p3(ctr) + " has texture " + hit->tex + " instead of " + w.tex[j]);
                // the leaf in front of it lists it
                D3 q = ctr;
                q[p.axis] += j ? -0.25 : 0.25;
                int leaf = walk(b, mod.headnode[0], q);
                auto &l = b.dleafs.at(leaf);
                int fn = mod.firstface + hi;
                bool listed = false;
                for (uint32_t s = 0; s < l.nummarksurfaces; s++)
                    listed |= (int)b.dleaffaces.at(l.firstmarksurface + s) == fn;
                if (!listed && !(w.optional[j]))
                    return c.fail(k.key + " marksurface", "the leaf at " + p3(q) + " does not list the face before it");
            }
        }
    }
    for (size_t i = 0; i < fs.size(); i++)
        if (!used[i] && fs[i].area > 1) {
            // a face no patch centre is on: allowed only as a part of a patch
            D3 q{};
            for (auto &v : fs[i].v)
                for (int a = 0; a < 3; a++)
                    q[a] += v[a] / fs[i].v.size();
            for (int a = 0; a < 3; a++) // not on a line between patches
                q[a] = 0.83 * q[a] + 0.12 * fs[i].v[0][a] + 0.05 * fs[i].v[1][a];
            bool in = false;
            for (auto &p : ps)
                if (p.axis == fs[i].axis && p.at == fs[i].at) {
                    int u = (p.axis + 1) % 3, v = (p.axis + 2) % 3;
                    if (q[u] > p.u0 && q[u] < p.u1 && q[v] > p.v0 && q[v] < p.v1)
                        in |= wanted(k.m, g, p).brush[fs[i].side] >= 0;
                }
            if (!in)
                return c.fail(k.key + " stray", "a face at " + p3(q) + " where there is no surface");
        }
    if (got_area < want_area - 0.5 || got_area > want_area + opt_area + 0.5)
        return c.fail(k.key + " area", "faces of area " + std::to_string(got_area) + " for surfaces of area " + std::to_string(want_area));
    // each face is on exactly one node, on that node's plane
    std::vector<int> on(fs.size(), 0);
    std::vector<int> q{mod.headnode[0]};
    while (!q.empty()) {
        int n = q.back();
        q.pop_back();
        if (n < 0)
            continue;
        auto &nd = b.dnodes.at(n);
        for (uint32_t i = 0; i < nd.numfaces; i++) {
            int f = (int)nd.firstface + i - mod.firstface;
            if (f < 0 || f >= (int)fs.size())
                return c.fail(k.key + " nodeface", "a node lists a face of another model");
            on[f]++;
            if (b.dfaces[f + mod.firstface].planenum != nd.planenum)
                return c.fail(k.key + " nodeplane", "a face is on a node with another plane");
        }
        q.push_back(nd.children[0]);
        q.push_back(nd.children[1]);
    }
    for (int x : on)
        if (x != 1)
            return c.fail(k.key + " nodefaces", "a face is listed by " + std::to_string(x) + " nodes");
    if (!k.has("none"))
        tjunctions(c, k, fs, model ? unsigned(F_FENCE | F_DETAIL) : 1u << 29);
    c.count("patches", ps.size());
    c.count("faces", fs.size());
    c.outcome(hcomb(drawn, fs.size()));
}
// ---------------------------------------------------------------- Q06
void judge_portals(Ctx &c, const Case &k, const Out &o, const Cells &g)
{
    const mbsp_t &b = o.bsp;
    if (!o.prt.present)
        return;
    auto &P = o.prt;
    if (!P.bad.empty())
        return c.fail(k.key + " file", "the portal file is damaged: " + P.bad);
    int head = b.dmodels.at(0).headnode[0];
    if (P.leafs != b.dmodels[0].visleafs)
        return c.fail(k.key + " leafs", "the portal file has " + std::to_string(P.leafs) + " leaves, the model " + std::to_string(b.dmodels[0].visleafs));
    std::vector<int> leaf(g.total());
    std::set<int> seen;
    for (int i = 0; i < g.total(); i++) {
        leaf[i] = walk(b, head, g.center(i));
        if (leaf[i] > P.leafs)
            return c.fail(k.key + " leafnumber", "a world leaf has a number beyond the portal file's");
        if (leaf[i])
            seen.insert(leaf[i]);
    }
    auto clu = [&](int i) { return leaf[i] ? P.cluster[leaf[i] - 1] : -1; };
    // planes that only detail brushes have
    std::set<int> structural[3];
    for (auto &x : k.m.box)
        if (x.type >= 0 && (in_hull0(x.type) || x.type == HINT)) {
            bool det = flags_in(k.m, x.type) & F_DETAIL;
            if (!det)
                for (int a = 0; a < 3; a++)
                    structural[a].insert(x.mn[a]), structural[a].insert(x.mx[a]);
        }
    bool transwater = !k.has("-notranswater"), any_detail = false;
    for (auto &x : k.m.box)
        any_detail |= x.type >= 0 && (flags_in(k.m, x.type) & F_DETAIL);
    auto through = [&](unsigned a, unsigned bb) {
        if ((a | bb) & (F_SOLID))
            return false;
        if ((a | bb) & F_VISB)
            return false;
        if (!((a ^ bb) & F_VISIBLE))
            return true;
        if ((a & F_DETAIL) || (transwater && (a & F_LIQUID)))
            a = 0;
        if ((bb & F_DETAIL) || (transwater && (bb & F_LIQUID)))
            bb = 0;
        return !((a ^ bb) & F_VISIBLE);
    };
    // a cluster is detail if one of its cells is
    std::map<int, unsigned> cf;
    for (int i = 0; i < g.total(); i++)
        if (clu(i) >= 0)
            cf[clu(i)] |= g.fin[i];
    for (auto &[id, f] : cf)
        f &= ~F_SOLID;
    double want = 0, got = 0, optional = 0;
    for (auto &p : P.p) {
        double N[3] = {};
        int axis = -1;
        for (size_t e = 0; e < p.w.size(); e++) {
            auto &q = p.w[e], &r = p.w[(e + 1) % p.w.size()];
            for (int a = 0; a < 3; a++)
                N[a] += (q[(a + 1) % 3] * r[(a + 2) % 3] - q[(a + 2) % 3] * r[(a + 1) % 3]) / 2;
        }
        for (int a = 0; a < 3; a++)
            if (std::abs(N[a]) > 1e-3)
                axis = axis < 0 ? a : 3;
        if (axis < 0 || axis > 2)
            return c.fail(k.key + " shape", "a portal is not on an axial plane");
        got += std::abs(N[axis]);
        if (p.a == p.b)
            return c.fail(k.key + " self", "a portal from a cluster to itself");
    }
    for (auto &p : patches(g)) {
        int A = clu(p.front), B = clu(p.back);
        D3 ctr = p.center();
        int hits = 0;
        const Prt::P *hit = nullptr;
        double N = 0;
        for (auto &q : P.p) {
            bool on = true;
            for (auto &v : q.w)
                on &= std::abs(v[p.axis] - p.at) < 0.01;
            if (!on)
                continue;
            BF f;
            f.axis = p.axis;
            f.v = q.w;
            if (covers(f, ctr)) {
                hits++, hit = &q;
                N = 0;
                int u = (p.axis + 1) % 3, v = (p.axis + 2) % 3;
                for (size_t e = 0; e < q.w.size(); e++) {
                    auto &x = q.w[e], &y = q.w[(e + 1) % q.w.size()];
                    N += (x[u] * y[v] - x[v] * y[u]) / 2;
                }
            }
        }
        // detail does not cut the openings between clusters
        bool det = ((g.fin[p.front] | g.fin[p.back]) & F_DETAIL) && !(seals(g.fin[p.front]) || seals(g.fin[p.back]));
        bool open = A >= 0 && B >= 0 && A != B && through(cf[A], cf[B]);
        if (det && (A < 0 || B < 0)) {
            if (hits > 1)
                return c.fail(k.key + " twice", "two portals at " + p3(ctr));
            if (hits)
                optional += p.area();
            continue;
        }
        if (open && !hits)
            return c.fail(k.key + " missing", "no portal at " + p3(ctr) + " between clusters " + std::to_string(A) + " and " + std::to_string(B));
        // a cluster that contains detail is never opaque
        if (!open && hits && !transwater && any_detail) {
            optional += p.area();
            continue;
        }
        if (!open && hits)
            return c.fail(k.key + " extra", "a portal at " + p3(ctr) + " where nothing can be seen through");
        if (hits > 1)
            return c.fail(k.key + " twice", "two portals at " + p3(ctr));
        if (hits) {
            want += p.area();
            // the first number is the side the winding is clockwise from
            bool front_first = N < 0;
            int a = front_first ? A : B, bb = front_first ? B : A;
            if (hit->a != a || hit->b != bb)
                return c.fail(k.key + " sides", "the portal at " + p3(ctr) + " names clusters " + std::to_string(hit->a) + " " + std::to_string(hit->b) + ", expected " + std::to_string(a) + " " + std::to_string(bb));
        }
        if (A >= 0 && B >= 0 && A != B && !structural[p.axis].count((int)p.at))
            return c.fail(k.key + " detailsplit", "clusters are separated at " + p3(ctr) + ", where only detail brushes have a side");
    }
    if (g.filled && std::abs(want + optional - got) > 0.5)
        return c.fail(k.key + " area", "portals of area " + std::to_string(got) + " for openings of area " + std::to_string(want));
    if ((int)seen.size() != P.leafs)
        return c.fail(k.key + " leafcount", std::to_string(P.leafs) + " leaves in the portal file, " + std::to_string(seen.size()) + " can be found");
    c.count("portals", P.p.size());
    c.outcome(hcomb(P.clusters, hcomb(P.leafs, P.p.size())));
}

// ---------------------------------------------------------------- maps
enum What
{
    CONTENTS = 1,
    HULLS = 2,
    LEAK = 4,
    FACES = 8,
    PORTALS = 16
};
void judge(Ctx &c, const Case &k0, unsigned what)
{
    std::string text = maptext(k0.m);
    Case k = k0;
    k.m = effective(k0.m, k0.opts);
    auto opts = k.opts;
    for (size_t i = 0; i < opts.size(); i++) {
        if (opts[i] == "-nofill")
            k.fill.nofill = true;
        if (opts[i] == "-filltype" && opts[i + 1] == "outside")
            k.fill.outside = true;
        if (opts[i] == "-filldetail" && opts[i + 1] == "0")
            k.fill.filldetail = false;
    }
    if (!(what & (HULLS | LEAK)))
        opts.push_back("-noclip");
    Cells g = world_cells(k.m);
    flood(g, k.m, 0, k.fill);
    if (g.ambiguous) {
        c.count("ambiguous");
        return;
    }
    c.state(hstr(text));
    c.nontrivial(hstr(text));
    c.sample(k.key);
    Out o = compile(text, opts);
    if (!o.error.empty())
        return c.fail(k.key + " refused", o.error);
    c.count(g.filled ? "sealed" : g.leak ? "leaking" : "unfilled");
    if (what & CONTENTS)
        judge_contents(c, k, o, g);
    if (what & HULLS)
        judge_hulls(c, k, o, g, k.has("-hlbsp") ? HLHULLS : k.has("-hexen2") ? H2HULLS : Q1HULLS);
    if (what & LEAK)
        judge_leak(c, k, o, g);
    if (what & FACES)
        judge_faces(c, k, o, g);
    if (what & PORTALS)
        judge_portals(c, k, o, g);
}
const int WALLS[6] = {SOLID, SOLID, SOLID, SOLID, SOLID, SOLID};
void base(Map &m, int half = 128)
{
    room(m, {-half, -half, -half}, {half, half, half}, 16, WALLS);
    m.pt.push_back({"info_player_start", {-half + 24, -half + 24, -half + 32}, ""});
}
void finish(Case &k, const std::string &name)
{
    k.key = name + ": " + show(k.m, 6);
    for (auto &o : k.opts)
        k.key += o + " ";
}
// two boxes in every relation, of every pair of types
const int REL[6][2] = {{-64, -32}, {-64, 0}, {-16, 16}, {-48, 48}, {-32, 32}, {0, 32}};
Space pairs(unsigned what, const std::string &name, std::vector<int> types, std::vector<std::string> opts, bool unique, int rels = 216)
{
    Space s;
    int n = types.size();
    s.name = name;
    s.size = (uint64_t)n * n * rels;
    s.chunk = 64;
    s.run = [=](uint64_t i, Ctx &c) {
        Digits d(i);
        int tb = types[d(n)], ta = types[d(n)], r = d(rels);
        if (rels != 216)
            r = r * 216 / rels;
        Case k;
        base(k.m);
        k.opts = opts;
        k.m.box.push_back({{-32, -32, -32}, {32, 32, 32}, ta, unique, ""});
        int x = r % 6, y = r / 6 % 6, z = r / 36;
        k.m.box.push_back({{REL[x][0], REL[y][0], REL[z][0]}, {REL[x][1], REL[y][1], REL[z][1]}, tb, unique, ""});
        finish(k, name);
        judge(c, k, what);
    };
    return s;
}
std::vector<int> all_types()
{
    std::vector<int> t;
    for (int i = 0; i < NTYPES; i++)
        t.push_back(i);
    return t;
}

using Opts = std::vector<std::string>;
std::string ostr(const Opts &o)
{
    std::string s;
    for (auto &x : o)
        s += x;
    return s.empty() ? "-default" : s;
}
// the same under every option that changes how the volume is cut up or what counts
Space options(unsigned what, const std::string &name, std::vector<Opts> opts, std::vector<int> types, int rels, bool unique)
{
    Space s;
    int n = types.size(), no = opts.size();
    s.name = name;
    s.size = (uint64_t)n * n * rels * no;
    s.chunk = 32;
    s.run = [=](uint64_t i, Ctx &c) {
        Digits d(i);
        int o = d(no), tb = types[d(n)], ta = types[d(n)], r = d(rels);
        r = (r * 216 / rels + r % 6) % 216;
        Case k;
        base(k.m);
        k.opts = opts[o];
        k.m.box.push_back({{-32, -32, -32}, {32, 32, 32}, ta, unique, ""});
        int x = r % 6, y = r / 6 % 6, z = r / 36;
        k.m.box.push_back({{REL[x][0], REL[y][0], REL[z][0]}, {REL[x][1], REL[y][1], REL[z][1]}, tb, unique, ""});
        // which of two coplanar sides shows is not promised for cut brushes
        if (k.has("-chop"))
            for (auto &b : k.m.box)
                b.unique = false;
        finish(k, name);
        judge(c, k, what);
    };
    return s;
}
// six walls, each there or not or of another kind, and where the entities are
Space walls(unsigned what, const std::string &name, std::vector<int> types, std::vector<I3> pos, std::vector<Opts> opts)
{
    Space s;
    int n = types.size(), np = pos.size(), no = opts.size();
    s.name = name;
    s.size = np * no;
    for (int i = 0; i < 6; i++)
        s.size *= n;
    s.chunk = 64;
    s.run = [=](uint64_t i, Ctx &c) {
        Digits d(i);
        Case k;
        k.opts = opts[d(no)];
        I3 at = pos[d(np)];
        int w[6];
        std::string t;
        for (int a = 0; a < 6; a++)
            w[a] = types[d(n)], t += std::string(" ") + (w[a] < 0 ? "none" : TNAME[w[a]]);
        room(k.m, {-64, -64, -64}, {64, 64, 64}, 16, w);
        if (k.m.box.empty())
            return;
        k.m.pt.push_back({"info_player_start", at, ""});
        k.key = name + ":" + t + " " + show(k.m, k.m.box.size());
        for (auto &o : k.opts)
            k.key += o + " ";
        judge(c, k, what);
    };
    return s;
}
// two chambers, what is between them, a gap in that and who is where
Space chambers(unsigned what, const std::string &name, std::vector<int> types, std::vector<Opts> opts)
{
    Space s;
    int n = types.size(), no = opts.size();
    s.name = name;
    const int GAPS = 6, WHO = 5;
    s.size = (uint64_t)n * n * GAPS * WHO * no;
    s.chunk = 64;
    s.run = [=](uint64_t i, Ctx &c) {
        Digits d(i);
        Case k;
        k.opts = opts[d(no)];
        int who = d(WHO), gap = d(GAPS), tw = types[d(n)], tg = types[d(n)];
        room(k.m, {-128, -64, -64}, {128, 64, 64}, 16, WALLS);
        // the wall between them, with the gap cut out of it
        I3 lo{-16, -64, -64}, hi{16, 64, 64};
        struct G
        {
            int y0, y1, z0, z1;
        };
        const G gs[GAPS] = {{0, 0, 0, 0}, {-32, 32, -64, 0}, {-16, 16, -16, 16}, {-64, 64, 32, 64}, {-64, 64, 0, 32}, {32, 64, 32, 64}};
        const G &g = gs[gap];
        auto add = [&](int y0, int y1, int z0, int z1, int t) {
            if (y0 < y1 && z0 < z1)
                k.m.box.push_back({{lo[0], y0, z0}, {hi[0], y1, z1}, t, false, ""});
        };
        if (g.y0 == g.y1)
            add(-64, 64, -64, 64, tw);
        else {
            add(-64, g.y0, -64, 64, tw);
            add(g.y1, 64, -64, 64, tw);
            add(g.y0, g.y1, -64, g.z0, tw);
            add(g.y0, g.y1, g.z1, 64, tw);
        }
        if (gap == 0) // something on the wall instead of a gap
            k.m.box.push_back({{0, -32, -32}, {64, 32, 32}, tg, false, ""});
        else
            add(g.y0, g.y1, g.z0, g.z1, tg);
        auto ent = [&](int x, const char *keys = "") { k.m.pt.push_back({"light", {x, -50, -50}, keys}); };
        switch (who) {
            case 0: ent(-100); break;
            case 1: ent(100); break;
            case 2: ent(-100), ent(100); break;
            case 3: ent(-100), ent(100, "\"_nofill\" \"1\"\n"); break;
            case 4: ent(8), ent(100, "\"_lightgrid_hint\" \"1\"\n"); break;
        }
        k.key = name + " gap" + std::to_string(gap) + " " + TNAME[tw] + " " + TNAME[tg] + " who" + std::to_string(who) + " " + ostr(k.opts);
        judge(c, k, what);
    };
    return s;
}
// three boxes
Space triples(unsigned what, const std::string &name, std::vector<int> types, bool unique, int step)
{
    Space s;
    int n = types.size();
    s.name = name;
    s.size = ((uint64_t)27 * n * 27 * n * n + step - 1) / step;
    s.chunk = 64;
    s.run = [=](uint64_t i, Ctx &c) {
        Digits d(i * step);
        Case k;
        base(k.m);
        const int iv[3][2] = {{-64, 0}, {-32, 32}, {0, 64}};
        int t0 = types[d(n)], t1 = types[d(n)], t2 = types[d(n)], p1 = d(27), p2 = d(27);
        k.m.box.push_back({{-48, -48, -48}, {16, 16, 16}, t0, unique, ""});
        for (int p : {p1, p2}) {
            int x = p % 3, y = p / 3 % 3, z = p / 9;
            k.m.box.push_back({{iv[x][0], iv[y][0], iv[z][0]}, {iv[x][1], iv[y][1], iv[z][1]}, p == p1 && k.m.box.size() == 7 ? t1 : t2, unique, ""});
        }
        k.m.box[8].type = t2;
        finish(k, name);
        judge(c, k, what);
    };
    return s;
}
// a larger room
Space large(unsigned what, const std::string &name, std::vector<Opts> opts, std::vector<int> types)
{
    Space s;
    int n = types.size(), no = opts.size();
    s.name = name;
    s.size = (uint64_t)n * no * 27 * 2;
    s.chunk = 8;
    s.run = [=](uint64_t i, Ctx &c) {
        Digits d(i);
        Case k;
        k.opts = opts[d(no)];
        int t = types[d(n)], sh = d(27);
        bool unique = d(2);
        room(k.m, {-640, -320, -200}, {640, 320, 200}, 16, WALLS, unique);
        k.m.pt.push_back({"info_player_start", {-600, -300, -160}, ""});
        const int iv[3][2] = {{-640, 333}, {-300, 300}, {64, 77}};
        int x = sh % 3, y = sh / 3 % 3, z = sh / 9;
        I3 lo{iv[x][0], iv[y][0] / 2, iv[z][0] / 4}, hi{iv[x][1], iv[y][1] / 2, iv[z][1] / 4};
        k.m.box.push_back({lo, hi, t, unique, ""});
        finish(k, name);
        k.key += unique ? "u" : "";
        judge(c, k, what);
    };
    return s;
}
const std::vector<int> SOME{SOLID, SKY, WATER, DETAIL, WALL, FENCE, ILLUS, HINT};
const std::vector<int> FEW{SOLID, WATER, DETAIL, FENCE};
const std::vector<int> WTYPES{-1, SOLID, SKY, DETAIL, WATER};
const std::vector<I3> POS{{8, 4, 12}, {200, 0, 0}, {64, 8, 8}, {70, 3, 5}, {80, 4, 4}, {70, 70, 70}, {64, 64, 64}, {100, -64, 7}};
const std::vector<Opts> VOPT{{"-nofill"}, {"-bsp2"}, {"-nodetail"}, {"-omitdetail"}, {"-omitdetailwall", "-omitdetailfence"}, {"-omitdetailillusionary"}, {"-chop"}, {"-chop", "-chopfragment"}, {"-filltype", "outside"}, {"-filldetail", "0"}, {"-notranswater"}, {"-forcegoodtree"}, {"-maxnodesize", "64"}, {"-maxnodesize", "0"}, {"-midsplitsurffraction", "1"}, {"-midsplitbrushfraction", "1"}, {"-splitsky"}, {"-2psb"}, {"-worldextent", "4096"}, {"-threads", "3"}};
const std::vector<Opts> FOPT{{"-nofill"}, {"-bsp2"}, {"-nodetail"}, {"-omitdetail"}, {"-chop"}, {"-filltype", "outside"}, {"-filldetail", "0"}, {"-notranswater"}, {"-forcegoodtree"}, {"-maxnodesize", "64"}, {"-nomerge"}, {"-tjunc", "none"}, {"-tjunc", "rotate"}, {"-tjunc", "retopologize"}, {"-nomergeacrossliquids"}, {"-noedgereuse"}, {"-maxedges", "4"}, {"-subdivide", "64"}, {"-subdivide", "1000"}, {"-nosubdivide"}, {"-midsplitsurffraction", "1"}, {"-splitsky"}};
const std::vector<Opts> COPT{{}, {"-nofill"}, {"-filltype", "outside"}, {"-filldetail", "0"}};
std::vector<Space> common(unsigned what, Tier t, int rels, bool unique, const std::vector<Opts> &opt)
{
    bool deep = t == Tier::thorough;
    std::vector<Space> v{pairs(what, "pairs", all_types(), {}, unique, rels)};
    v.push_back(options(what, "options", opt, deep ? SOME : FEW, deep ? 216 : 12, unique));
    v.push_back(walls(what, "walls", deep ? WTYPES : std::vector<int>{-1, SOLID, DETAIL}, deep ? POS : std::vector<I3>{POS[0], POS[1], POS[3]}, deep ? COPT : std::vector<Opts>{{}}));
    v.push_back(chambers(what, "chambers", deep ? all_types() : SOME, deep ? COPT : std::vector<Opts>{{}}));
    v.push_back(triples(what, "triples", deep ? SOME : FEW, unique, deep ? 1 : 31));
    return v;
}
std::vector<Space> q01(Tier t) { return common(CONTENTS, t, 216, false, VOPT); }
std::vector<Space> q02(Tier t)
{
    auto v = common(HULLS, t, 36, false, {{"-hexen2"}, {"-hlbsp"}, {"-bsp2"}, {"-nofill"}, {"-nodetail"}, {"-omitdetail"}, {"-chop"}, {"-filltype", "outside"}, {"-filldetail", "0"}});
    return v;
}
std::vector<Space> q03(Tier t) { return common(LEAK, t, 36, false, {{"-nofill"}, {"-filltype", "outside"}, {"-filldetail", "0"}, {"-keepprt"}, {"-noclip"}, {"-bsp2"}}); }
std::vector<Space> q04(Tier t)
{
    auto v = common(FACES, t, 216, true, FOPT);
    v.push_back(large(FACES, "large", {{}, {"-subdivide", "128"}, {"-nomerge"}, {"-maxedges", "5"}, {"-bsp2"}}, t == Tier::thorough ? SOME : FEW));
    return v;
}
std::vector<Space> q06(Tier t) { return common(PORTALS, t, 216, false, {{"-nofill"}, {"-bsp2"}, {"-nodetail"}, {"-omitdetail"}, {"-chop"}, {"-filltype", "outside"}, {"-filldetail", "0"}, {"-notranswater"}, {"-forcegoodtree"}, {"-maxnodesize", "64"}}); }

// ---------------------------------------------------------------- Q07
using KV = std::vector<std::pair<std::string, std::string>>;
struct Ent
{
    KV kv;
    std::vector<Box> box;
    bool world = false; // its brushes are part of the world
    bool model = false;
    I3 shift{0, 0, 0}; // of the written model
    bool gone = false; // not written
    bool discarded = false; // -notriggermodels
    KV extra; // keys the compiler adds
};
std::string enttext(const Ent &e, int id)
{
    std::string s = "{\n";
    for (auto &[k, v] : e.kv)
        s += "\"" + k + "\" \"" + v + "\"\n";
    for (auto &b : e.box)
        s += boxtext(b, id++);
    return s + "}\n";
}
const char *EKIND[] = {"light", "wall", "wall2", "clip", "solidclip", "door", "rotate", "group", "detail", "trigger", "omit", "water", "external", "extdetail", "originonly", "hole"};
constexpr int NEK = 16;
Ent make_ent(int kind, int slot, bool notrig)
{
    Ent e;
    int x = -80 + slot * 64;
    auto at = [&](int x0, int y0, int z0, int x1, int y1, int z1, int t = SOLID) { return Box{{x + x0, y0, z0}, {x + x1, y1, z1}, t, false, ""}; };
    auto cls = [&](const char *n) { e.kv.push_back({"classname", n}); };
    std::string tag = "tag" + std::to_string(slot);
    switch (kind) {
        case 0: cls("light"); e.kv.push_back({"origin", std::to_string(x) + " 8 8"}); e.kv.push_back({"style", "3"}); break;
        case 1: cls("func_wall"); e.box = {at(0, 0, 0, 24, 24, 24)}; e.model = true; break;
        case 2: cls("func_wall"); e.box = {at(0, 0, 0, 24, 24, 24), at(8, -8, 8, 16, 40, 16)}; e.model = true; break;
        case 3: cls("func_wall"); e.box = {at(0, 0, 0, 24, 24, 24, CLIP)}; e.model = true; break;
        case 4: cls("func_wall"); e.box = {at(0, 0, 0, 24, 24, 24, CLIP), at(4, 4, 30, 12, 12, 50)}; e.model = true; break;
        case 5: {
            cls("func_door");
            Box o = at(8, 8, 8, 16, 16, 16);
            o.tex = "origin";
            e.box = {at(0, 0, 0, 24, 24, 24), o};
            e.model = true;
            e.shift = {x + 12, 12, 12};
            e.extra.push_back({"origin", std::to_string(x + 12) + " 12 12"});
            break;
        }
        case 6:
            cls("rotate_object");
            e.kv.push_back({"target", "pivot"});
            e.box = {at(0, 0, 0, 24, 24, 24)};
            e.model = true;
            e.shift = {40, 16, -8};
            e.extra.push_back({"origin", "40 16 -8"});
            break;
        case 7: cls("func_group"); e.box = {at(0, 0, 0, 24, 24, 24)}; e.world = true, e.gone = true; break;
        case 8: cls("func_detail"); e.box = {at(0, 0, 0, 24, 24, 24)}; e.box[0].type = DETAIL; e.world = true, e.gone = true; break;
        case 9:
            cls("trigger_once");
            e.box = {at(0, 0, 0, 24, 24, 24)};
            e.box[0].tex = "trigger";
            if (notrig)
                e.discarded = true;
            else
                e.model = true;
            break;
        case 10: cls("func_wall"); e.kv.push_back({"_omitbrushes", "1"}); e.box = {at(0, 0, 0, 24, 24, 24)}; break;
        case 11: cls("func_illusionary"); e.box = {at(0, 0, 0, 24, 24, 24, WATER)}; e.model = true; break;
        case 12:
        case 13:
            cls("misc_external_map");
            e.kv.push_back({"_external_map", "ext.map"});
            e.kv.push_back({"_external_map_classname", kind == 12 ? "func_wall" : "func_detail"});
            e.kv.push_back({"origin", std::to_string(x) + " 0 0"});
            e.kv.push_back({"_external_map_scale", "2"});
            e.model = kind == 12;
            e.world = e.gone = kind == 13;
            break;
        case 14: {
            // nothing but an origin brush: a point entity
            cls("func_door");
            Box o = at(8, 8, 8, 16, 16, 16);
            o.tex = "origin";
            e.box = {o};
            e.extra.push_back({"origin", std::to_string(x + 12) + " 12 12"});
            break;
        }
        case 15: // a ring of four boxes
            cls("func_wall");
            e.box = {at(0, 0, 0, 8, 24, 24), at(16, 0, 0, 24, 24, 24), at(8, 0, 0, 16, 8, 24), at(8, 16, 0, 16, 24, 24)};
            e.model = true;
            break;
    }
    e.kv.push_back({"tag", tag});
    if (slot == 1)
        e.kv.push_back({"_tb_layer", "2"});
    return e;
}
std::vector<KV> parse_ents(const std::string &t)
{
    std::vector<KV> r;
    std::vector<std::string> q;
    for (size_t i = 0; i < t.size(); i++) {
        if (t[i] == '{')
            r.emplace_back(), q.clear();
        else if (t[i] == '"') {
            size_t e = t.find('"', i + 1);
            q.push_back(t.substr(i + 1, e - i - 1));
            i = e;
            if (q.size() == 2)
                r.back().push_back({q[0], q[1]}), q.clear();
        }
    }
    return r;
}
// what the entity has to look like in the file
KV wanted_keys(const Ent &e, int model)
{
    KV r;
    for (auto &[k, v] : e.kv)
        if (k.compare(0, 4, "_tb_"))
            r.push_back({k, v});
    if (r[0].second == "misc_external_map") {
        r[0].second = r[2].second;
        r[3].second = "0 0 0";
    }
    for (auto &x : e.extra)
        r.push_back(x);
    if (model)
        r.push_back({"model", "*" + std::to_string(model)});
    return r;
}
bool same_keys(KV a, KV b)
{
    for (auto *x : {&a, &b})
        for (auto &[key, v] : *x)
            if (key == "mins" || key == "maxs" || key == "origin")
                for (size_t i; (i = (" " + v + " ").find(" -0 ")) != std::string::npos;)
                    v.erase(i, 1);
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    return a == b;
}
std::string kvs(const KV &k)
{
    std::string s = "{";
    for (auto &[a, b] : k)
        s += a + "=" + b + " ";
    return s + "}";
}
void judge_model(Ctx &c, const Case &k, const Out &o, const std::vector<Box> &own, I3 shift, int n, const Hulls &H, bool hipnotic = false)
{
    const mbsp_t &b = o.bsp;
    Case m;
    m.key = k.key + " model" + std::to_string(n);
    m.opts = k.opts;
    I3 lo{FAR, FAR, FAR}, hi{-FAR, -FAR, -FAR};
    for (auto x : own) {
        if (x.tex == "origin")
            continue;
        for (int a = 0; a < 3; a++) {
            x.mn[a] -= shift[a], x.mx[a] -= shift[a];
            lo[a] = std::min(lo[a], x.mn[a]), hi[a] = std::max(hi[a], x.mx[a]);
        }
        m.m.box.push_back(x);
    }
    auto &mod = b.dmodels.at(n);
    if (hipnotic) {
        // room for every rotation
        int d = 0;
        for (int a = 0; a < 3; a++)
            d = std::max({d, std::abs(lo[a]), std::abs(hi[a])});
        lo = {-d, -d, -d}, hi = {d, d, d};
    }
    for (int a = 0; a < 3; a++)
        if (std::abs(mod.mins[a] - (lo[a] + 1)) > 0.01 || std::abs(mod.maxs[a] - (hi[a] - 1)) > 0.01)
            return c.fail(m.key + " bounds", "bounds " + std::to_string(mod.mins[a]) + ".." + std::to_string(mod.maxs[a]) + " on axis " + std::to_string(a) + ", expected " + std::to_string(lo[a] + 1) + ".." + std::to_string(hi[a] - 1));
    // everything in a brush entity is solid
    std::vector<CB> cb;
    for (size_t i = 0; i < m.m.box.size(); i++)
        if (m.m.box[i].type != CLIP)
            cb.push_back({m.m.box[i].mn, m.m.box[i].mx, F_FENCE | F_DETAIL, (int)i});
    Cells g;
    arrange(g, cb);
    g.fin = g.flags;
    g.exact.assign(g.total(), 1);
    for (int i = 0; i < g.total(); i++) {
        D3 p = g.center(i);
        int leaf = walk(b, mod.headnode[0], p);
        int got = b.dleafs.at(leaf).contents, want = g.fin[i] ? -2 : -1;
        if (got != want)
            return c.fail(m.key + " contents", "the point " + p3(p) + " has contents " + std::to_string(got) + ", expected " + std::to_string(want));
    }
    for (int h = 0; h < H.n; h++) {
        std::vector<CB> hb;
        for (auto &x : m.m.box) {
            CB y{x.mn, x.mx, F_SOLID, 0};
            for (int a = 0; a < 3; a++)
                y.mn[a] -= H.b[h][1][a], y.mx[a] -= H.b[h][0][a];
            hb.push_back(y);
        }
        Cells hg;
        arrange(hg, hb);
        for (int i = 0; i < hg.total(); i++) {
            D3 p = hg.center(i);
            int got = clipwalk(b, mod.headnode[h + 1], p), want = hg.flags[i] ? -2 : -1;
            if (got != want)
                return c.fail(m.key + " hull" + std::to_string(h + 1), "the player box at " + p3(p) + " gets " + std::to_string(got) + ", expected " + std::to_string(want));
        }
    }
    {
        // for the drawn surfaces a solid brush
        for (auto &x : m.m.box)
            if (x.type != CLIP)
                x.tex = texname(x, 100, 0), x.type = FENCE;
        judge_faces(c, m, o, g, n);
    }
    c.count("models");
}
Space entities(const std::string &name, int len, std::vector<int> kinds, std::vector<Opts> opts)
{
    Space s;
    s.name = name;
    int n = kinds.size(), no = opts.size();
    s.size = no;
    for (int i = 0; i < len; i++)
        s.size *= n;
    s.chunk = 32;
    s.run = [=](uint64_t i, Ctx &c) {
        Digits d(i);
        Case k;
        k.opts = opts[d(no)];
        bool notrig = k.has("-notriggermodels");
        std::vector<Ent> es;
        k.key = name + ":";
        for (int j = 0; j < len; j++) {
            int kind = kinds[d(n)];
            es.push_back(make_ent(kind, j, notrig));
            k.key += std::string(" ") + EKIND[kind];
        }
        k.key += " " + ostr(k.opts);
        Map w;
        room(w, {-128, -128, -128}, {128, 128, 128}, 16, WALLS);
        std::string text = maptext(w);
        Ent start, pivot;
        start.kv = {{"classname", "info_player_start"}, {"origin", "-100 -100 -90"}};
        pivot.kv = {{"classname", "info_rotate"}, {"targetname", "pivot"}, {"origin", "40 16 -8"}};
        es.insert(es.begin(), start);
        es.push_back(pivot);
        std::ofstream("ext.map") << maptext([] { Map m; m.box.push_back({{0, 0, 0}, {8, 8, 8}, SOLID, false, ""}); return m; }());
        int id = 1000;
        for (auto &e : es)
            text += enttext(e, id), id += 10;
        Out o = compile(text, k.opts);
        c.state(hstr(k.key));
        c.nontrivial(hstr(k.key));
        c.sample(k.key);
        if (!o.error.empty())
            return c.fail(k.key + " refused", o.error);
        auto got = parse_ents(o.bsp.dentdata);
        // the entities, in order
        std::vector<KV> want{{{"classname", "worldspawn"}}};
        int model = 0;
        std::vector<std::pair<int, Ent *>> models;
        for (auto &e : es) {
            if (e.kv[0].second == "misc_external_map") {
                int x = std::stoi(e.kv[3].second);
                e.box = {Box{{x, 0, 0}, {x + 16, 16, 16}, SOLID, false, "", "stone"}};
                if (e.world)
                    e.box[0].type = DETAIL;
            }
            if (e.gone)
                continue;
            if (e.discarded) {
                auto p = [](const I3 &v) { return std::to_string(v[0]) + " " + std::to_string(v[1]) + " " + std::to_string(v[2]); };
                e.extra.push_back({"mins", p(e.box[0].mn)});
                e.extra.push_back({"maxs", p(e.box[0].mx)});
            }
            want.push_back(wanted_keys(e, e.model ? ++model : 0));
            if (e.model)
                models.push_back({model, &e});
        }
        auto compare = [&](const std::vector<KV> &got, const char *what) {
            if (got.size() != want.size()) {
                c.fail(k.key + " " + what + "entities", std::to_string(got.size()) + " entities are written, expected " + std::to_string(want.size()));
                return false;
            }
            for (size_t i = 0; i < want.size(); i++)
                if (!same_keys(got[i], want[i])) {
                    c.fail(k.key + " " + what + "keys", "entity " + std::to_string(i) + " is written as " + kvs(got[i]) + ", expected " + kvs(want[i]));
                    return false;
                }
            return true;
        };
        if (!compare(got, ""))
            return;
        if ((int)o.bsp.dmodels.size() != model + 1)
            return c.fail(k.key + " count", std::to_string(o.bsp.dmodels.size()) + " models, expected " + std::to_string(model + 1));
        c.outcome(hcomb(model, want.size()));
        for (auto &[n, e] : models)
            judge_model(c, k, o, e->box, e->shift, n, Q1HULLS, e->kv[0].second == "rotate_object");
        // faces and leaves belong to one model each, the world being the first
        int f = 0;
        for (auto &m : o.bsp.dmodels) {
            if (m.firstface != f)
                return c.fail(k.key + " faceranges", "a model's faces start at " + std::to_string(m.firstface) + ", the last model's end at " + std::to_string(f));
            f += m.numfaces;
        }
        if (f != (int)o.bsp.dfaces.size())
            return c.fail(k.key + " faceranges", "faces beyond the last model's");
        // the world: the room, and what is merged into it
        Case wk = k;
        wk.m = w;
        wk.m.pt.push_back({"", {-100, -100, -90}, ""});
        wk.m.pt.push_back({"", {40, 16, -8}, ""});
        for (auto &e : es)
            for (auto *l : {&e.kv, &e.extra})
                for (auto &[key, v] : *l)
                    if (key == "origin") {
                        I3 p;
                        if (sscanf(v.c_str(), "%d %d %d", &p[0], &p[1], &p[2]) == 3)
                            wk.m.pt.push_back({"", p, ""});
                    }
        for (auto &e : es)
            if (e.world)
                for (auto b : e.box)
                    wk.m.box.push_back(b);
        Cells g = world_cells(wk.m);
        flood(g, wk.m, 0);
        judge_contents(c, wk, o, g);
        judge_hulls(c, wk, o, g, Q1HULLS);
        // updating only the entities of the same map changes nothing
        if (c.failed)
            return;
        auto oo = k.opts;
        oo.push_back("-onlyents");
        Out o2 = compile(text, oo);
        if (!o2.error.empty())
            return c.fail(k.key + " onlyents", o2.error);
        if (!compare(parse_ents(o2.bsp.dentdata), "onlyents "))
            return;
        for (auto *x : {&o, &o2})
            x->bsp.dentdata.clear();
        if (o.bsp.dmodels.size() != o2.bsp.dmodels.size() || o.bsp.dfaces.size() != o2.bsp.dfaces.size() || o.bytes.size() + 200 < o2.bytes.size())
            c.fail(k.key + " onlyents", "updating the entities changed the rest of the file");
    };
    return s;
}
// one model of two boxes, in every relation and of any two kinds
Space modelshapes(const std::string &name, std::vector<int> types, std::vector<Opts> opts, int rels)
{
    Space s;
    int n = types.size(), no = opts.size();
    s.name = name;
    s.size = (uint64_t)n * n * rels * no;
    s.chunk = 32;
    s.run = [=](uint64_t i, Ctx &c) {
        Digits d(i);
        Case k;
        k.opts = opts[d(no)];
        int tb = types[d(n)], ta = types[d(n)], r = d(rels);
        r = (r * 216 / rels + (rels < 216 ? r % 6 : 0)) % 216;
        int x = r % 6, y = r / 6 % 6, z = r / 36;
        std::vector<Box> bs{{{-32, -32, -32}, {32, 32, 32}, ta, false, ""}, {{REL[x][0], REL[y][0], REL[z][0]}, {REL[x][1], REL[y][1], REL[z][1]}, tb, false, ""}};
        Map m;
        base(m);
        m.model.push_back({"func_wall", "", bs});
        k.m.box = bs;
        k.key = name + ": " + show(k.m) + ostr(k.opts);
        for (auto &o : k.opts)
            if (o == "-nofill")
                k.fill.nofill = true;
        c.state(hstr(k.key));
        c.nontrivial(hstr(k.key));
        c.sample(k.key);
        Out o = compile(maptext(m), k.opts);
        if (!o.error.empty())
            return c.fail(k.key + " refused", o.error);
        if (o.bsp.dmodels.size() != 2)
            return c.fail(k.key + " count", "expected one model besides the world");
        c.outcome(hcomb(o.bsp.dfaces.size(), o.bsp.dnodes.size()));
        judge_model(c, k, o, bs, {0, 0, 0}, 1, k.has("-hlbsp") ? HLHULLS : k.has("-hexen2") ? H2HULLS : Q1HULLS);
    };
    return s;
}
std::vector<Space> q07(Tier t)
{
    bool deep = t == Tier::thorough;
    std::vector<int> all;
    for (int i = 0; i < NEK; i++)
        all.push_back(i);
    std::vector<Space> v;
    v.push_back(entities("entities", deep ? 4 : 2, all, {{}, {"-notriggermodels"}}));
    v.push_back(entities("entities3", 3, deep ? all : std::vector<int>{0, 1, 3, 5, 8, 9, 12}, {{}, {"-notriggermodels", "-bsp2"}}));
    v.push_back(modelshapes("shapes", {SOLID, WATER, SKIP, SKY, CLIP}, deep ? std::vector<Opts>{{}, {"-chop"}, {"-nomerge"}, {"-bsp2"}, {"-hexen2"}, {"-hlbsp"}, {"-forcegoodtree"}} : std::vector<Opts>{{}, {"-chop"}}, deep ? 216 : 72));
    return v;
}
} // namespace

int main(int argc, char **argv)
{
    const std::vector<std::string> as{"axial boxes on a lattice of 16 or 32 units", "Quake-family rules (default, -bsp2, -2psb, -hexen2, -hlbsp)"};
    const std::string maps = "two boxes in 216 relations of 15 x 15 kinds in a sealed room; options x kinds x relations; every choice of the six walls x entity positions; two chambers x divider x gap x entities; three boxes; ";
    return main_(argc, argv,
        {
            {"Q01", "exploration", maps + "every cell of the brush planes' arrangement is probed for contents, leaf and node bounds", as, q01, 120, 1500},
            {"Q02", "exploration", maps + "every cell of each hull's arrangement of expanded brushes is probed", as, q02, 120, 1500},
            {"Q03", "exploration", maps + "leak verdict, portal file and leak path are compared with a flood of the cells", as, q03, 120, 1500},
            {"Q04", "exploration", maps + "rooms of 1280 units; every patch between cells is looked up in the faces: once, on the right side, with the right texture, listed by leaf and node; no T-junctions between opaque surfaces", as, q04, 120, 1500},
            {"Q06", "exploration", maps + "every patch between cells is looked up in the portals: presence, sides, area, cluster membership", as, q06, 120, 1500},
            {"Q07", "exploration", "every sequence of two (three) entities of 16 kinds, with and without -notriggermodels, then an -onlyents run; one model of two boxes of 5 x 5 kinds in 72 (216) relations", as, q07, 120, 1500},
        });
}
