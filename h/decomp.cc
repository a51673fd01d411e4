// U01: what the decompiler writes is the map it was given
#include "qworld.hh"
#include "mapref.hh"
#include <common/decompile.hh>
#include <common/fs.hh>
#include <common/entdata.h>
using namespace qw;
using namespace mc;
using Opts = std::vector<std::string>;
namespace
{
std::string vs(V3 p) { return "(" + n2s(p.x) + " " + n2s(p.y) + " " + n2s(p.z) + ")"; }
V3 unit(V3 v) { return v * (1 / sqrt(dot(v, v))); }
// ---------------------------------------------------------------- maps
struct Item // a convex brush: a box cut by planes through three of its corners
{
    I3 mn, mx;
    std::string tex = "stone";
    int shape = 0;
    long e[3] = {0, 0, 0}; // Quake II surface info
    int page = -1; // texture parameters
    bool multi = false; // every side has its own texture
    int ent = 0; // index into Spec::ent
};
struct EntSpec
{
    std::string keys; // with classname
    bool brushes = false;
    bool origin = false; // with an origin brush
    I3 at{0, 0, 0};
};
struct Spec
{
    std::vector<Item> b;
    std::vector<EntSpec> e; // e[0] is worldspawn's
    bool room = true;
    Opts opts;
    bool q2 = false;
    std::string name;
    // after compiling
    std::string ents; // replaces the entities
    struct Wal
    {
        std::string name;
        int flags, contents, value;
    };
    std::vector<Wal> wal; // texture files
    bool model_first = false; // the keys of brush entities in another order
};
const double VAX[8][6] = {{1, 0, 0, 0, -1, 0}, {1, 0, 0, 0, 0, -1}, {0, 1, 0, 0, 0, -1}, {0.6, 0.8, 0, 0, 0, -1}, {1, 1, 0, 0, 0, 1}, {0.36, 0.48, -0.8, -0.8, 0.6, 0}, {0.5, -0.25, 1, 1, 0.5, -0.5}, {-1, 0, 0, 0, 0, 2}};
const double VSC[5][2] = {{1, 1}, {0.5, 2}, {-1, 1}, {3, -0.25}, {0.125, 0.75}};
const double VSH[4][2] = {{0, 0}, {13, -5.5}, {-40, 71}, {0.25, 1000}};
void set_params(Face &f, int q)
{
    f.kind = 1;
    for (auto &x : f.num)
        x = 0;
    const double *ax;
    if (q < 0) { // plain: along the plane
        V3 n = normal_of(f);
        int a = fabs(n.x) >= fabs(n.y) && fabs(n.x) >= fabs(n.z) ? 0 : fabs(n.y) >= fabs(n.z) ? 1 : 2;
        static const double base[3][6] = {{0, 1, 0, 0, 0, -1}, {1, 0, 0, 0, 0, -1}, {1, 0, 0, 0, -1, 0}};
        ax = base[a];
        f.num[3] = f.num[4] = 1;
    } else {
        V3 n = unit(normal_of(f));
        for (int k = 0;; k++) { // not edge-on
            ax = VAX[(q + k) % 8];
            V3 c = cross({ax[0], ax[1], ax[2]}, {ax[3], ax[4], ax[5]});
            if (fabs(dot(unit(c), n)) > 0.05)
                break;
        }
        f.num[0] = VSH[q / 8 % 4][0], f.num[1] = VSH[q / 8 % 4][1];
        f.num[3] = VSC[q % 5][0], f.num[4] = VSC[q % 5][1];
    }
    for (int i = 0; i < 6; i++)
        f.num[5 + i] = ax[i];
}
std::vector<Face> faces_of(const Item &it, bool q2, int id)
{
    std::vector<Face> r;
    I3 a = it.mn, c = it.mx;
    auto P = [](int x, int y, int z) { return V3{double(x), double(y), double(z)}; };
    V3 mid = P(a[0] + c[0], a[1] + c[1], a[2] + c[2]) * 0.5;
    auto add = [&](V3 x, V3 y, V3 z) {
        Face f;
        f.p[0] = x, f.p[1] = y, f.p[2] = z;
        if (dot(normal_of(f), mid - x) > 0)
            std::swap(f.p[1], f.p[2]);
        f.tex = it.tex;
        if (it.multi)
            f.tex += std::to_string(id) + "f" + std::to_string(r.size());
        set_params(f, it.page < 0 ? -1 : it.page * 7 + int(r.size()) * 3);
        if (q2 && it.e[0] >= 0) {
            f.ext = true;
            for (int i = 0; i < 3; i++)
                f.e[i] = it.e[i];
        }
        r.push_back(f);
    };
    for (int k = 0; k < 3; k++)
        for (int s = 0; s < 2; s++) {
            V3 o = P(a[0], a[1], a[2]);
            o[k] = s ? c[k] : a[k];
            V3 u = o, v = o;
            u[(k + 1) % 3] += 32, v[(k + 2) % 3] += 32;
            add(o, u, v);
        }
    switch (it.shape) {
        case 1: add(P(a[0], a[1], c[2]), P(a[0], c[1], c[2]), P(c[0], a[1], (a[2] + c[2]) / 2)); break; // a ramp
        case 2: add(P(c[0], a[1], (a[2] + c[2]) / 2), P((a[0] + c[0]) / 2, a[1], c[2]), P(c[0], (3 * a[1] + c[1]) / 4, c[2])); break; // a corner cut off
        case 3: // a ridge
            add(P(a[0], a[1], (a[2] + c[2]) / 2), P(a[0], c[1], (a[2] + c[2]) / 2), P((a[0] + c[0]) / 2, a[1], c[2]));
            add(P(c[0], a[1], (a[2] + c[2]) / 2), P(c[0], c[1], (a[2] + c[2]) / 2), P((a[0] + c[0]) / 2, a[1], c[2]));
            break;
        case 4: // eight sides
            add(P(a[0], (3 * a[1] + c[1]) / 4, 0), P((3 * a[0] + c[0]) / 4, a[1], 0), P(a[0], (3 * a[1] + c[1]) / 4, 7));
            add(P(c[0], (3 * c[1] + a[1]) / 4, 0), P((3 * c[0] + a[0]) / 4, c[1], 0), P(c[0], (3 * c[1] + a[1]) / 4, 7));
            break;
    }
    return r;
}
std::string text_of(const Spec &s)
{
    std::string r;
    for (size_t i = 0; i < s.e.size(); i++) {
        r += "{\n" + s.e[i].keys;
        if (i == 0 && s.room)
            for (int k = 0; k < 6; k++) {
                Item w;
                w.mn = {-80, -80, -80}, w.mx = {80, 80, 80};
                if (k % 2)
                    w.mn[k / 2] = 64;
                else
                    w.mx[k / 2] = -64;
                w.tex = "wall";
                w.e[0] = 1;
                r += brush_text(faces_of(w, s.q2, 100 + k));
            }
        for (size_t k = 0; k < s.b.size(); k++)
            if (s.b[k].ent == int(i))
                r += brush_text(faces_of(s.b[k], s.q2, k));
        if (s.e[i].origin) {
            Item o;
            auto &a = s.e[i].at;
            o.mn = {a[0] - 4, a[1] - 4, a[2] - 4}, o.mx = {a[0] + 4, a[1] + 4, a[2] + 4};
            o.tex = "origin";
            o.e[0] = 16777216;
            r += brush_text(faces_of(o, s.q2, 0));
        }
        r += "}\n";
    }
    return r;
}
EntSpec ent(const std::string &cls, const std::string &keys = "")
{
    EntSpec e;
    e.keys = "\"classname\" \"" + cls + "\"\n" + keys;
    return e;
}
Spec base(const std::string &game)
{
    Spec s;
    s.e = {ent("worldspawn"), ent("info_player_start", "\"origin\" \"-56 -56 -40\"\n")};
    if (game == "q2bsp" || game == "qbism")
        s.q2 = true;
    if (game != "bsp29")
        s.opts.push_back("-" + game);
    s.name = game;
    return s;
}
// ---------------------------------------------------------------- judging
struct Plane
{
    V3 n;
    double d;
};
struct DBrush
{
    std::vector<Plane> p;
    const Brush *src;
    bool origin = false;
    int inside(V3 v) const // 1 yes, 0 no, -1 too close to say
    {
        int r = 1;
        for (auto &q : p) {
            double x = dot(q.n, v) - q.d;
            if (x > 0.1)
                return 0;
            if (x > -0.1)
                r = -1;
        }
        return r;
    }
};
struct Model
{
    int num;
    V3 off; // the decompiled brushes are the model's moved by this
    std::vector<DBrush> b;
};
struct Mode
{
    std::string name;
    decomp_options o;
};
std::vector<Mode> modes(bool q2, const std::string &game)
{
    std::vector<Mode> r;
    Mode m;
    m.name = "full";
    r.push_back(m);
    m.name = "geomonly", m.o.geometryOnly = true;
    r.push_back(m);
    m.o = {};
    m.name = "ignore-brushes", m.o.ignoreBrushes = true;
    r.push_back(m);
    m.o = {};
    if (!q2)
        for (int h = 1; h <= (game == "hlbsp" ? 3 : game == "hexen2" ? 5 : 2); h++) {
            m.name = "hull" + std::to_string(h), m.o.hullnum = h;
            r.push_back(m);
        }
    return r;
}
std::string key(const Ent &e, const std::string &k)
{
    for (auto &x : e.kv)
        if (x.first == k)
            return x.second;
    return "";
}
V3 vec(const std::string &s)
{
    V3 v;
    sscanf(s.c_str(), "%lf %lf %lf", &v.x, &v.y, &v.z);
    return v;
}
int native_at(const mbsp_t &b, int model, int hull, V3 p)
{
    D3 q{p.x, p.y, p.z};
    if (hull)
        return clipwalk(b, b.dmodels[model].headnode[hull], q);
    return b.dleafs.at(walk(b, b.dmodels[model].headnode[0], q)).contents;
}
// distance to the nearest plane on the way down
double margin(const mbsp_t &b, int model, int hull, V3 p)
{
    double m = 1e9;
    int node = b.dmodels[model].headnode[hull];
    while (node >= 0) {
        int pn = hull ? b.dclipnodes.at(node).planenum : b.dnodes.at(node).planenum;
        auto &pl = b.dplanes.at(pn);
        double d = p.x * pl.normal[0] + p.y * pl.normal[1] + p.z * pl.normal[2] - pl.dist;
        m = std::min(m, fabs(d));
        node = hull ? b.dclipnodes.at(node).children[d < 0] : b.dnodes.at(node).children[d < 0];
    }
    return m;
}
std::vector<V3> lattice(V3 mn, V3 mx)
{
    std::vector<V3> r;
    double st[3];
    for (int k = 0; k < 3; k++)
        st[k] = mx[k] - mn[k] > 80 ? 10.7 : 5.3;
    for (double x = mn.x + 1.93; x < mx.x; x += st[0])
        for (double y = mn.y + 2.11; y < mx.y; y += st[1])
            for (double z = mn.z + 2.37; z < mx.z; z += st[2])
                r.push_back({x, y, z});
    return r;
}
// the dbrushes of a Quake II model
std::vector<int> brushes_of(const mbsp_t &b, int model)
{
    std::set<int> r;
    std::vector<int> st{b.dmodels[model].headnode[0]};
    while (!st.empty()) {
        int n = st.back();
        st.pop_back();
        if (n < 0) {
            auto &l = b.dleafs.at(-1 - n);
            for (uint32_t k = 0; k < l.numleafbrushes; k++)
                r.insert(b.dleafbrushes.at(l.firstleafbrush + k));
        } else
            st.push_back(b.dnodes[n].children[0]), st.push_back(b.dnodes[n].children[1]);
    }
    return {r.begin(), r.end()};
}
std::string unquote(std::string s) { return s; }
std::string judge(Ctx &c, const Spec &s, const mbsp_t &b, const Mode &mo, const std::string &dec)
{
    std::vector<Ent> got, in;
    try {
        got = read_map(dec);
    } catch (Bad &) {
        return "the map written is not one:\n" + dec.substr(0, 600);
    }
    in = read_map(b.dentdata);
    for (size_t i = in.size(); i--;)
        if (key(in[i], "classname") == "func_group")
            in.erase(in.begin() + i);
    if (got.size() != in.size())
        return std::to_string(in.size()) + " entities became " + std::to_string(got.size());
    std::vector<Model> models;
    std::vector<std::pair<int, int>> portals; // entity, style
    for (size_t i = 0; i < in.size(); i++) {
        int m = i == 0 ? 0 : -1;
        std::string ms = key(in[i], "model");
        if (ms.size() > 1 && ms[0] == '*')
            m = atoi(ms.c_str() + 1);
        Model M;
        M.num = m;
        for (auto &br : got[i].b) {
            DBrush d;
            d.src = &br;
            d.origin = br.f[0].tex == "origin" || br.f[0].tex == "e1u1/origin";
            for (auto &f : br.f) {
                V3 n = normal_of(f);
                if (!(dot(n, n) > 1e-12))
                    return "a side has no plane: " + face_text(f);
                n = unit(n);
                d.p.push_back({n, dot(n, f.p[0])});
            }
            M.b.push_back(d);
        }
        bool ap = key(in[i], "classname") == "func_areaportal" && in[i].kv.size() && !key(in[i], "style").empty() && !M.b.empty();
        V3 org = vec(key(in[i], "origin"));
        auto want = in[i].kv;
        auto drop = [&](const std::string &k) { std::erase_if(want, [&](auto &x) { return x.first == k; }); };
        bool origin_gone = m > 0 && key(got[i], "origin").empty();
        if (ms.size() > 1 && ms[0] == '*')
            drop("model");
        if (ap)
            drop("style");
        if (origin_gone)
            drop("origin");
        if (got[i].kv != want) {
            std::string o = "entity " + std::to_string(i) + " has other keys:";
            for (auto &x : got[i].kv)
                o += " " + x.first + "=" + x.second;
            o += "; expected";
            for (auto &x : want)
                o += " " + x.first + "=" + x.second;
            return o;
        }
        if (m >= 0) {
            // moved back by its origin brush
            int no = 0;
            V3 centre{};
            for (auto &d : M.b)
                if (d.origin) {
                    no++;
                    for (int k = 0; k < 3; k++) {
                        double lo = -1e9, hi = 1e9;
                        for (auto &q : d.p) {
                            if (q.n[k] > 0.99)
                                hi = std::min(hi, q.d);
                            if (q.n[k] < -0.99)
                                lo = std::max(lo, -q.d);
                        }
                        centre[k] = (lo + hi) / 2;
                    }
                }
            if (no > 1)
                return "more than one origin brush";
            V3 eff = no ? centre : origin_gone ? V3{0, 0, 0} : org;
            V3 dd = eff - org;
            if (m > 0 && dot(dd, dd) > 1e-4)
                return "entity " + std::to_string(i) + " moves from " + vs(org) + " to " + vs(eff);
            M.off = no ? centre : V3{0, 0, 0};
            models.push_back(M);
        } else if (ap) {
            portals.emplace_back(i, atoi(key(in[i], "style").c_str()));
            models.push_back(M);
        } else if (!M.b.empty())
            return "entity " + std::to_string(i) + " has brushes";
        else if (key(in[i], "classname") == "func_areaportal" && !key(in[i], "style").empty() && s.q2)
        {
            int st = atoi(key(in[i], "style").c_str()), n = 0;
            for (auto &x : b.dbrushes)
                n += !!(x.contents & 0x8000);
            if (st >= 1 && st <= n)
                return "the area portal of entity " + std::to_string(i) + " has no brush";
        }
    }
    int apk = 0;
    for (auto &M : models) {
        bool brushmode = s.q2 && !mo.o.ignoreBrushes;
        std::vector<int> db;
        if (M.num < 0) {
            int st = portals[apk++].second, k = 0;
            for (size_t i = 0; i < b.dbrushes.size(); i++)
                if ((b.dbrushes[i].contents & 0x8000) && ++k == st)
                    db = {int(i)};
        } else if (brushmode)
            for (int i : brushes_of(b, M.num))
                if (!(b.dbrushes[i].contents & 0x8000))
                    db.push_back(i);
        V3 mn, mx;
        for (int k = 0; k < 3; k++)
            if (M.num < 0)
                mn[k] = -70, mx[k] = 70;
            else if (brushmode || mo.o.hullnum || b.dmodels[M.num].headnode[0] < 0)
                mn[k] = b.dmodels[M.num].mins[k], mx[k] = b.dmodels[M.num].maxs[k];
            else
                mn[k] = b.dnodes[b.dmodels[M.num].headnode[0]].mins[k], mx[k] = b.dnodes[b.dmodels[M.num].headnode[0]].maxs[k];
        if (brushmode || M.num < 0) {
            size_t n = 0;
            for (auto &d : M.b)
                n += !d.origin;
            if (n != db.size())
                return "model " + std::to_string(M.num) + " has " + std::to_string(db.size()) + " brushes, " + std::to_string(n) + " were written";
        }
        for (V3 p : lattice(mn, mx)) {
            std::vector<long> cover;
            bool unsure = false;
            const DBrush *last = nullptr;
            for (auto &d : M.b)
                if (!d.origin) {
                    int r = d.inside(p + M.off);
                    unsure |= r < 0;
                    if (r > 0) {
                        cover.push_back(d.src->f[0].e[0]);
                        last = &d;
                    }
                }
            if (unsure)
                continue;
            (void)last;
            if (brushmode || M.num < 0) {
                std::vector<long> want;
                bool near = false;
                for (int i : db) {
                    auto &br = b.dbrushes[i];
                    bool in2 = true, nr = true;
                    for (int k = 0; k < br.numsides; k++) {
                        auto &pl = b.dplanes.at(b.dbrushsides.at(br.firstside + k).planenum);
                        double d = p.x * pl.normal[0] + p.y * pl.normal[1] + p.z * pl.normal[2] - pl.dist;
                        in2 &= d < 0;
                        nr &= d < 0.1;
                        near |= fabs(d) < 0.1;
                    }
                    if (in2)
                        want.push_back(br.contents);
                    (void)nr;
                }
                if (near)
                    continue;
                std::sort(want.begin(), want.end());
                std::sort(cover.begin(), cover.end());
                if (want.size() != cover.size())
                    return "model " + std::to_string(M.num) + ": " + std::to_string(want.size()) + " brushes at " + vs(p) + ", " + std::to_string(cover.size()) + " written";
                c.count("points");
                continue;
            }
            if (margin(b, M.num, mo.o.hullnum, p) < 0.1)
                continue;
            int n = native_at(b, M.num, mo.o.hullnum, p);
            bool full = s.q2 ? n != 0 : n != -1;
            // empty leafs may be shown as hint brushes there
            if (!full && s.q2 && mo.o.ignoreBrushes && cover.size() == 1 && last->src->f[0].e[0] == 0)
                full = true;
            if (cover.size() != size_t(full))
                return "model " + std::to_string(M.num) + ": contents " + std::to_string(n) + " at " + vs(p) + " lie in " + std::to_string(cover.size()) + " of the brushes written";
            c.count("points");
        }
    }
    return "";
}
struct FaceInfo
{
    V3 n, mid;
    std::vector<V3> v;
    std::string tex;
    int flags, value;
    V3 sv[2];
    double sh[2];
    int model;
};
std::vector<FaceInfo> drawn(const mbsp_t &b, bool q2)
{
    std::vector<FaceInfo> r;
    for (size_t m = 0; m < b.dmodels.size(); m++)
        for (int i = b.dmodels[m].firstface; i < b.dmodels[m].firstface + b.dmodels[m].numfaces; i++) {
            auto &f = b.dfaces.at(i);
            FaceInfo x;
            x.model = m;
            x.mid = {0, 0, 0};
            for (int k = 0; k < f.numedges; k++) {
                int e = b.dsurfedges.at(f.firstedge + k);
                auto &p = b.dvertexes.at(e < 0 ? b.dedges.at(-e)[1] : b.dedges.at(e)[0]);
                x.v.push_back({p[0], p[1], p[2]});
                x.mid = x.mid + x.v.back() * (1. / f.numedges);
            }
            auto &pl = b.dplanes.at(f.planenum);
            x.n = V3{pl.normal[0], pl.normal[1], pl.normal[2]} * (f.side ? -1 : 1);
            V3 area{};
            for (size_t k = 0; k < x.v.size(); k++)
                area = area + cross(x.v[(k + 1) % x.v.size()] - x.mid, x.v[k] - x.mid);
            if (dot(area, area) < 1)
                continue;
            auto &ti = b.texinfo.at(f.texinfo);
            x.tex = q2 ? std::string(ti.texture.data()) : ti.miptex >= 0 && ti.miptex < int(b.dtex.textures.size()) ? b.dtex.textures[ti.miptex].name : "?";
            x.flags = ti.flags.native;
            x.value = ti.value;
            for (int k = 0; k < 2; k++) {
                x.sv[k] = {ti.vecs.at(k, 0), ti.vecs.at(k, 1), ti.vecs.at(k, 2)};
                x.sh[k] = ti.vecs.at(k, 3);
            }
            r.push_back(x);
        }
    return r;
}
bool in_face(const FaceInfo &f, V3 p)
{
    if (fabs(dot(f.n, p - f.v[0])) > 0.1)
        return false;
    for (size_t k = 0; k < f.v.size(); k++) {
        V3 e = f.v[(k + 1) % f.v.size()] - f.v[k];
        V3 o = cross(e, f.n); // clockwise: inside is on this side or the other, the same for all
        double d = dot(o, p - f.v[k]), dm = dot(o, f.mid - f.v[k]);
        if (d * (dm > 0 ? 1 : -1) < -0.05 * sqrt(dot(o, o)))
            return false;
    }
    return true;
}
std::string compare(Ctx &c, const Spec &s, const mbsp_t &a, const Mode &mo, const mbsp_t &b)
{
    if (a.dmodels.size() != b.dmodels.size())
        return std::to_string(a.dmodels.size()) + " models became " + std::to_string(b.dmodels.size());
    for (size_t m = 0; m < a.dmodels.size(); m++) {
        V3 mn, mx;
        for (int k = 0; k < 3; k++)
            mn[k] = a.dmodels[m].mins[k], mx[k] = a.dmodels[m].maxs[k];
        for (V3 p : lattice(mn, mx)) {
            if (margin(a, m, mo.o.hullnum, p) < 0.1 || margin(b, m, 0, p) < 0.1)
                continue;
            int x = native_at(a, m, mo.o.hullnum, p), y = native_at(b, m, 0, p);
            if (s.q2 && mo.name != "full") // comes from the surface flags, which are not kept
                x &= ~0x10000000, y &= ~0x10000000;
            if (x != y)
                return "model " + std::to_string(m) + ": contents " + std::to_string(x) + " at " + vs(p) + " became " + std::to_string(y);
            c.count("recompiled points");
        }
    }
    if (mo.name != "full")
        return "";
    auto fa = drawn(a, s.q2), fb = drawn(b, s.q2);
    std::set<int> trigger;
    for (auto &e : read_map(a.dentdata))
        if (key(e, "classname").compare(0, 8, "trigger_") == 0 && key(e, "model")[0] == '*')
            trigger.insert(atoi(key(e, "model").c_str() + 1));
    for (auto &f : fa) {
        if (trigger.count(f.model)) // get the trigger texture
            continue;
        // Quake's leafs don't tell illusionary brushes from air, or walls drawn inside others
        std::vector<V3> pts{f.mid};
        for (auto &v : f.v)
            pts.push_back(v * 0.9 + f.mid * 0.1);
        for (V3 p : pts) {
            int front = native_at(a, f.model, 0, p + f.n * 0.5), back = native_at(a, f.model, 0, p - f.n * 0.5);
            if (!s.q2 && (front == back || front == -2))
                continue;
            if (s.q2) { // the lump does not say which of overlapping brushes wins
                int n = 0;
                for (V3 in : {p - f.n * 0.5, p + f.n * 0.5}) {
                    int m = 0;
                    for (auto &br : a.dbrushes) {
                        bool r = true;
                        for (int k = 0; k < br.numsides; k++) {
                            auto &pl = a.dplanes.at(a.dbrushsides.at(br.firstside + k).planenum);
                            r &= in.x * pl.normal[0] + in.y * pl.normal[1] + in.z * pl.normal[2] - pl.dist < 0.1;
                        }
                        m += r;
                    }
                    n = std::max(n, m);
                }
                if (n > 1)
                    continue;
            }
            const FaceInfo *g = nullptr;
            bool exact = false;
            for (auto &x : fb)
                if (x.model == f.model && dot(x.n, f.n) > 0.99 && in_face(x, p)) {
                    bool same = x.tex == f.tex;
                    if (!g || (same && !exact))
                        g = &x, exact = same;
                }
            if (!g)
                return "the face of texture " + f.tex + " around " + vs(f.mid) + " is gone at " + vs(p);
            if (g->tex != f.tex)
                return "the face around " + vs(f.mid) + " has texture " + g->tex + " instead of " + f.tex + " at " + vs(p);
            if (s.q2 && (g->flags != f.flags || g->value != f.value))
                return "the face around " + vs(f.mid) + " has flags " + std::to_string(g->flags) + " value " + std::to_string(g->value) + " instead of " + std::to_string(f.flags) + " " + std::to_string(f.value);
            for (int k = 0; k < 2; k++) {
                double u = dot(f.sv[k], p) + f.sh[k], w = dot(g->sv[k], p) + g->sh[k];
                if (fabs(u - w) > 0.1 + 0.002 * (sqrt(dot(f.sv[k], f.sv[k])) * 100))
                    return std::string(k ? "t" : "s") + " of " + f.tex + " at " + vs(p) + " became " + n2s(w) + " instead of " + n2s(u);
            }
            c.count("texture points");
        }
    }
    return "";
}
std::string show(const Spec &s)
{
    std::string o = s.name;
    for (auto &b : s.b) {
        o += " " + b.tex + "(" + std::to_string(b.mn[0]) + " " + std::to_string(b.mn[1]) + " " + std::to_string(b.mn[2]) + " / " + std::to_string(b.mx[0]) + " " + std::to_string(b.mx[1]) + " " + std::to_string(b.mx[2]) + " shape " + std::to_string(b.shape);
        if (s.q2)
            o += " info " + std::to_string(b.e[0]) + " " + std::to_string(b.e[1]) + " " + std::to_string(b.e[2]);
        if (b.page >= 0)
            o += " page " + std::to_string(b.page);
        if (b.ent)
            o += " entity " + std::to_string(b.ent);
        o += ")";
    }
    for (size_t i = 2; i < s.e.size(); i++) {
        o += " {" + s.e[i].keys + "}";
        if (s.e[i].origin)
            o += " origin brush";
    }
    for (auto &w : s.wal)
        o += " wal " + w.name + " flags " + std::to_string(w.flags) + " contents " + std::to_string(w.contents) + " value " + std::to_string(w.value);
    if (s.model_first)
        o += " model key first";
    if (!s.ents.empty())
        o += " entities: " + s.ents;
    for (auto &c : o)
        if (c == '\n')
            c = ' ';
    return o;
}
void run(Ctx &c, const Spec &s, const std::string &space)
{
    std::string k = space + " " + s.name;
    for (auto &w : s.wal) {
        std::filesystem::create_directories("textures");
        std::string f(100 + 64 * 64 * 85 / 64, '\0');
        memcpy(f.data(), w.name.c_str(), std::min<size_t>(31, w.name.size()));
        auto put = [&](size_t at, int v) { memcpy(&f[at], &v, 4); };
        put(32, 64), put(36, 64), put(40, 100), put(44, 100 + 4096), put(48, 100 + 4096 + 1024), put(52, 100 + 4096 + 1024 + 256);
        put(88, w.flags), put(92, w.contents), put(96, w.value);
        std::ofstream("textures/" + w.name + ".wal", std::ios::binary) << f;
    }
    fs::clear();
    Out q = compile(text_of(s), s.opts);
    if (!q.error.empty())
        return c.fail(k + " qbsp", q.error + "\n" + show(s));
    mbsp_t bsp = q.bsp;
    if (!s.ents.empty())
        bsp.dentdata = s.ents + '\0';
    if (s.model_first) {
        std::string t;
        for (auto &e : read_map(bsp.dentdata)) {
            std::stable_sort(e.kv.begin(), e.kv.end(), [](auto &x, auto &y) { return (x.first == "model") > (y.first == "model"); });
            t += "{\n";
            for (auto &x : e.kv)
                t += "\"" + x.first + "\" \"" + x.second + "\"\n";
            t += "}\n";
        }
        bsp.dentdata = t + '\0';
    }
    bool noclip = std::find(s.opts.begin(), s.opts.end(), "-noclip") != s.opts.end();
    for (auto &mo : modes(s.q2, s.name)) {
        if (noclip && mo.o.hullnum)
            continue;
        {
            std::ofstream f("d.map");
            DecompileBSP(&bsp, mo.o, f);
        }
        std::string dec = slurp("d.map");
        if (getenv("DECOMP_DEBUG"))
            fprintf(stderr, "%s\n---- %s\n%s\n", text_of(s).c_str(), mo.name.c_str(), dec.c_str());
        std::string e = judge(c, s, bsp, mo, dec);
        if (!e.empty()) {
            c.fail(k + " " + mo.name, e + "\n" + show(s));
            continue;
        }
        c.outcome(hstr(dec));
        if (!s.ents.empty() || (s.q2 && mo.o.ignoreBrushes)) // leafs may combine what no brush can
            continue;
        Opts o = s.opts;
        o.push_back("-nofill");
        fs::clear();
        Out r = compile(dec, o);
        if (!r.error.empty()) {
            c.fail(k + " " + mo.name + " recompile", r.error + "\n" + show(s));
            continue;
        }
        e = compare(c, s, bsp, mo, r.bsp);
        if (!e.empty())
            c.fail(k + " " + mo.name + " recompiled", e + "\n" + show(s));
    }
    c.nontrivial(hstr(show(s)));
}
#include "decomp_spaces.inc"
} // namespace
int main(int argc, char **argv)
{
    return main_(argc, argv, {{"U01", "exploration",
        "every map of the lattices (one brush of every kind, shape and place; pairs of brushes; texture parameters; brush entities with and without origin; area portals; entity keys), for each BSP format, compiled by the real qbsp, decompiled in each mode (full, geometry only, ignoring brushes, each clip hull) and judged point by point against the BSP; the result is compiled again and its contents, and in full mode the texture, flags and texture coordinates of every face, compared with the original",
        {"points within 0.1 units of a plane are not judged"}, u01, 200, 1500}});
}
