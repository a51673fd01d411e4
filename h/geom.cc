// G01: polygon clipping and the polygon storage classes
#include <mc/explore.hh>
#include <common/polylib.hh>
#include <common/aabb.hh>
#include <common/log.hh>
#include <algorithm>
#include <cmath>
#include <sstream>
#include <set>
using namespace mc;
namespace
{
using P3 = std::array<double, 3>;
using Poly = std::vector<P3>;
P3 sub(const P3 &a, const P3 &b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
P3 add(const P3 &a, const P3 &b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
P3 mul(const P3 &a, double s) { return {a[0] * s, a[1] * s, a[2] * s}; }
double dot(const P3 &a, const P3 &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
P3 cross(const P3 &a, const P3 &b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
double len(const P3 &a) { return std::sqrt(dot(a, a)); }
// area vector: half the sum of cross products (length = area, direction = normal)
P3 areavec(const Poly &p)
{
    P3 s{};
    for (size_t i = 1; i + 1 < p.size(); i++)
        s = add(s, cross(sub(p[i], p[0]), sub(p[i + 1], p[0])));
    return mul(s, 0.5);
}
double perimeter(const Poly &p)
{
    double s = 0;
    for (size_t i = 0; i < p.size(); i++)
        s += len(sub(p[(i + 1) % p.size()], p[i]));
    return s;
}
std::string str(const Poly &p)
{
    std::ostringstream o;
    for (auto &v : p)
        o << "(" << v[0] << " " << v[1] << " " << v[2] << ")";
    return o.str();
}
template<class W>
Poly read(const W &w)
{
    Poly r;
    for (size_t i = 0; i < w.size(); i++)
        r.push_back({(double)w[i][0], (double)w[i][1], (double)w[i][2]});
    return r;
}
template<class W>
W make(const Poly &p)
{
    W w;
    for (auto &v : p)
        w.emplace_back(v[0], v[1], v[2]);
    return w;
}

// ---- all convex polygons over a g x g lattice (counter-clockwise in (u,v));
// with `flat` also those with vertices in the middle of a side
std::vector<std::vector<std::array<int, 2>>> convex(int g, size_t maxn, bool flat)
{
    std::vector<std::array<int, 2>> pts;
    for (int x = 0; x < g; x++)
        for (int y = 0; y < g; y++)
            pts.push_back({x, y});
    std::vector<std::vector<std::array<int, 2>>> out;
    auto turn = [](auto &a, auto &b, auto &c) { return (b[0] - a[0]) * (c[1] - b[1]) - (b[1] - a[1]) * (c[0] - b[0]); };
    // canonical start: smallest index of the vertices; the rest follows in ccw order
    std::vector<std::array<int, 2>> cur;
    std::function<void()> rec = [&]() {
        size_t n = cur.size();
        if (n >= 3) {
            auto &a = cur[n - 2], &b = cur[n - 1], &c = cur[0], &d = cur[1];
            int t1 = turn(a, b, c), t2 = turn(b, c, d);
            bool anyturn = false;
            for (size_t i = 0; i < n; i++)
                anyturn |= turn(cur[i], cur[(i + 1) % n], cur[(i + 2) % n]) > 0;
            if ((flat ? t1 >= 0 && t2 >= 0 : t1 > 0 && t2 > 0) && anyturn)
                out.push_back(cur);
        }
        if (n >= maxn)
            return;
        for (auto &p : pts) {
            if (p <= cur[0] || std::find(cur.begin(), cur.end(), p) != cur.end())
                continue;
            if (n >= 2) {
                int t = turn(cur[n - 2], cur[n - 1], p);
                if (flat ? t < 0 : t <= 0)
                    continue;
                // straight on, not back
                if (t == 0 && (p[0] - cur[n - 1][0]) * (cur[n - 1][0] - cur[n - 2][0]) + (p[1] - cur[n - 1][1]) * (cur[n - 1][1] - cur[n - 2][1]) <= 0)
                    continue;
                // stay left of the chord back to the start (no second loop around)
                if (turn(cur[0], cur[n - 1], p) < 0)
                    continue;
            }
            cur.push_back(p);
            rec();
            cur.pop_back();
        }
    };
    for (auto &p : pts) {
        cur = {p};
        rec();
    }
    std::sort(out.begin(), out.end());
    out.erase(std::unique(out.begin(), out.end()), out.end());
    return out;
}
struct Basis
{
    P3 o, u, v;
};
const std::vector<Basis> &bases()
{
    static const std::vector<Basis> b = {
        {{0, 0, 0}, {16, 0, 0}, {0, 16, 0}},
        {{-24, 8, 40}, {0, 16, 0}, {0, 0, 16}},
        {{8, -32, -8}, {0, 0, 24}, {8, 0, 0}},
        {{0, 0, 0}, {16, 0, 16}, {0, 16, 0}},
        {{16, 0, -16}, {16, -16, 0}, {0, 0, 16}},
        {{-16, -16, -16}, {16, -16, 0}, {16, 16, -32}},
        {{4096, -4096, 2048}, {64, 0, 0}, {0, 64, 32}},
        {{1, 2, 3}, {2, 0, 1}, {0, 3, 1}},
    };
    return b;
}
struct Pl
{
    P3 n;
    double d;
};
// normals: all sign patterns of axial, edge and corner directions and some skew ones
const std::vector<P3> &normals(bool more)
{
    static std::vector<P3> a, b;
    if (a.empty()) {
        for (int x = -1; x <= 1; x++)
            for (int y = -1; y <= 1; y++)
                for (int z = -1; z <= 1; z++)
                    if (x || y || z)
                        a.push_back({(double)x, (double)y, (double)z});
        b = a;
        for (int x = -2; x <= 2; x++)
            for (int y = -2; y <= 2; y++)
                for (int z = -2; z <= 2; z++)
                    if (std::max({std::abs(x), std::abs(y), std::abs(z)}) == 2 && (std::abs(x) == 1 || std::abs(y) == 1 || std::abs(z) == 1))
                        b.push_back({(double)x, (double)y, (double)z});
        for (auto *l : {&a, &b})
            for (auto &n : *l)
                n = mul(n, 1 / len(n));
    }
    return more ? b : a;
}
double pdist(const Pl &p, const P3 &x)
{
    return dot(p.n, x) - p.d;
}
bool same(const Poly &a, const Poly &b, double tol)
{
    if (a.size() != b.size())
        return false;
    for (size_t i = 0; i < a.size(); i++)
        for (int k = 0; k < 3; k++)
            if (!(std::fabs(a[i][k] - b[i][k]) <= tol))
                return false;
    return true;
}
// everything clip promises; returns "" or what is wrong.
std::string judge(const Poly &w, const Pl &pl, double eps, bool keepon, const Poly *fr, const Poly *bk, double tol)
{
    size_t nf = 0, nb = 0;
    bool grey = false;
    std::vector<double> d;
    for (auto &v : w) {
        double x = pdist(pl, v);
        d.push_back(x);
        if (std::fabs(std::fabs(x) - eps) <= tol)
            return ""; // at the edge of the tolerance: either answer is right
        nf += x > eps;
        nb += x < -eps;
        grey |= std::fabs(x) > tol && std::fabs(x) < eps;
    }
    if (!nf && !nb) {
        // a polygon in the plane: whole, in front if asked to keep it, else behind
        if (keepon ? !fr || bk : fr || !bk)
            return "polygon in the plane on the wrong side";
        return same(w, keepon ? *fr : *bk, 0) ? "" : "polygon in the plane comes back changed";
    }
    if (!nf || !nb) {
        if (!!fr != !!nf || !!bk != !!nb)
            return "polygon on one side comes back on the wrong side or twice";
        return same(w, nf ? *fr : *bk, 0) ? "" : "polygon on one side comes back changed";
    }
    if (!fr || !bk)
        return "polygon on both sides loses a part";
    P3 a = areavec(w);
    double A = len(a);
    P3 n = mul(a, 1 / A);
    double pd = dot(n, w[0]);
    P3 sum{};
    for (auto *part : {fr, bk}) {
        if (part->size() < 3)
            return "part with fewer than three points";
        double sgn = part == fr ? 1 : -1;
        for (auto &v : *part) {
            if (sgn * pdist(pl, v) < -eps - tol)
                return "point of a part on the other side";
            if (std::fabs(dot(n, v) - pd) > tol)
                return "point off the polygon's plane";
            for (size_t i = 0; i < w.size(); i++) {
                P3 e = sub(w[(i + 1) % w.size()], w[i]);
                P3 in = cross(n, e);
                if (dot(sub(v, w[i]), in) / len(e) < -tol)
                    return "point outside the polygon";
            }
        }
        P3 pa = areavec(*part);
        if (dot(pa, n) < -tol * 10 || len(sub(pa, mul(n, dot(pa, n)))) > tol * perimeter(w))
            return "part with the opposite winding order";
        sum = add(sum, pa);
        // consecutive points turn one way (convex); collinear allowed
        for (size_t i = 0; i < part->size(); i++) {
            P3 e1 = sub((*part)[(i + 1) % part->size()], (*part)[i]), e2 = sub((*part)[(i + 2) % part->size()], (*part)[(i + 1) % part->size()]);
            double l = len(e1) * len(e2);
            if (dot(cross(e1, e2), n) < -(grey ? 2 * eps * (len(e1) + len(e2)) : 0) - tol * (1 + len(e1) + len(e2)))
                return "part is not convex";
            (void)l;
        }
        // every vertex of the polygon on this side is there
        for (size_t i = 0; i < w.size(); i++)
            if (sgn * d[i] > eps) {
                bool found = false;
                for (auto &v : *part)
                    found |= v == w[i];
                if (!found)
                    return "vertex of the polygon lost";
            }
        // the points on the cut are common to both parts
        const Poly &other = part == fr ? *bk : *fr;
        for (auto &v : *part)
            if (std::fabs(pdist(pl, v)) <= eps) {
                bool found = false;
                for (auto &v2 : other)
                    found |= v2 == v;
                if (!found)
                    return "the parts do not share the cut";
            } 
    }
    double slack = tol * perimeter(w) + (grey ? 2 * eps * perimeter(w) : 0);
    if (len(sub(sum, a)) > slack)
        return "the parts' areas do not add up to the polygon's";
    // without points close to the plane the cut is two exact crossings
    if (!grey) {
        for (auto *part : {fr, bk}) {
            size_t on = 0;
            for (auto &v : *part)
                on += std::fabs(pdist(pl, v)) <= tol;
            if (on < 2)
                return "cut edge missing";
        }
    }
    return "";
}
template<class W>
void clip_one(const Poly &p0, const Pl &pl, double eps, Ctx &ctx, const char *what, const std::string &key, double tol, std::vector<Poly> *out = nullptr)
{
    W w = make<W>(p0);
    Poly p = read(w); // rounded to the storage's precision
    qplane3d qp{qvec3d(pl.n[0], pl.n[1], pl.n[2]), pl.d};
    auto describe = [&]() {
        std::ostringstream o;
        o.precision(17);
        o << what << ": polygon " << str(p) << " plane (" << pl.n[0] << " " << pl.n[1] << " " << pl.n[2] << ") " << pl.d << " epsilon " << eps;
        return o.str();
    };
    for (bool keep : {false, true}) {
        auto res = w.clip(qp, eps, keep);
        ctx.count("clips");
        Poly f, b;
        bool hf = res[0].has_value(), hb = res[1].has_value();
        if (hf)
            f = read(*res[0]);
        if (hb)
            b = read(*res[1]);
        std::string e = judge(p, pl, eps, keep, hf ? &f : nullptr, hb ? &b : nullptr, tol);
        if (!e.empty())
            ctx.fail(key + e, describe() + (keep ? " keepon" : "") + ": " + e + "; front " + (hf ? str(f) : "none") + " back " + (hb ? str(b) : "none"));
        if (read(w) != p)
            ctx.fail(key + "self", describe() + ": clip changed the polygon itself");
        ctx.outcome(hcomb(hf * 64 + f.size(), hb * 64 + b.size()));
        auto w1 = w.clone();
        auto r1 = w1.clip_front(qp, eps, keep);
        if (r1.has_value() != hf || (hf && read(*r1) != f))
            ctx.fail(key + "clip_front", describe() + ": clip_front differs from clip: " + (r1 ? str(read(*r1)) : "none") + " instead of " + (hf ? str(f) : "none"));
        auto w2 = w.clone();
        auto r2 = w2.clip_back(qp, eps, keep);
        if (r2.has_value() != hb || (hb && read(*r2) != b))
            ctx.fail(key + "clip_back", describe() + ": clip_back differs from clip: " + (r2 ? str(read(*r2)) : "none") + " instead of " + (hb ? str(b) : "none"));
        if (out && !keep) {
            if (hf)
                out->push_back(f);
            if (hb)
                out->push_back(b);
        }
    }
}
using Whybrid2 = polylib::winding_base_t<polylib::winding_storage_hybrid_t<double, 2>>;
using Whybrid4 = polylib::winding_base_t<polylib::winding_storage_hybrid_t<double, 4>>;
using Whybrid16 = polylib::winding_base_t<polylib::winding_storage_hybrid_t<double, 16>>;
using Wstack = polylib::winding_base_t<polylib::winding_storage_stack_t<double, 64>>;
using W = polylib::winding_t;
using Wf = polylib::winding3f_t;

struct ClipSpace
{
    std::vector<std::vector<std::array<int, 2>>> polys;
    std::vector<P3> ns;
    std::vector<double> eps;
    bool pairs;
};
Poly place(const std::vector<std::array<int, 2>> &p, const Basis &b, bool rev, size_t rot)
{
    Poly r;
    for (auto &c : p)
        r.push_back(add(b.o, add(mul(b.u, c[0]), mul(b.v, c[1]))));
    if (rev)
        std::reverse(r.begin(), r.end());
    std::rotate(r.begin(), r.begin() + rot % r.size(), r.end());
    return r;
}
// the plane distances worth trying for a polygon and a normal: through each vertex
// (exactly, and just inside/outside of the tolerance), half-way between, one third, and clear of it
std::vector<double> dists(const Poly &p, const P3 &n, double eps)
{
    std::vector<double> d;
    for (auto &v : p)
        d.push_back(dot(n, v));
    std::sort(d.begin(), d.end());
    d.erase(std::unique(d.begin(), d.end(), [](double a, double b) { return std::fabs(a - b) < 1e-9; }), d.end());
    std::vector<double> r;
    for (size_t i = 0; i < d.size(); i++) {
        for (double o : {0., 0.5 * eps, -0.5 * eps, 1.5 * eps, -1.5 * eps})
            r.push_back(d[i] + o);
        if (i + 1 < d.size()) {
            r.push_back((d[i] + d[i + 1]) / 2);
            r.push_back(d[i] + (d[i + 1] - d[i]) / 3);
        }
    }
    r.push_back(d.front() - 10);
    r.push_back(d.back() + 10);
    return r;
}
std::vector<Space> g01(Tier t)
{
    bool th = t == Tier::thorough;
    std::vector<Space> out;
    auto sp = std::make_shared<ClipSpace>();
    sp->polys = convex(th ? 4 : 3, 8, false);
    {
        auto fl = convex(3, 8, true);
        sp->polys.insert(sp->polys.end(), fl.begin(), fl.end());
        std::sort(sp->polys.begin(), sp->polys.end());
        sp->polys.erase(std::unique(sp->polys.begin(), sp->polys.end()), sp->polys.end());
    }
    sp->ns = normals(th);
    sp->eps = th ? std::vector<double>{0, 0.0001, 0.1, 1} : std::vector<double>{0, 0.1};
    uint64_t NB = bases().size();
    out.push_back({"clip", sp->polys.size() * NB * 2 * 8, [sp, NB](uint64_t i, Ctx &ctx) {
        Digits D(i);
        size_t rot = D(8);
        bool rev = D(2);
        const Basis &b = bases()[D(NB)];
        auto &pp = sp->polys[D(sp->polys.size())];
        if (rot >= pp.size())
            return;
        Poly p = place(pp, b, rev, rot);
        ctx.nontrivial(hbytes(p.data(), p.size() * sizeof(P3)));
        for (auto &n : sp->ns)
            for (double eps : sp->eps)
                for (double d : dists(p, n, eps ? eps : 0.25)) {
                    Pl pl{n, d};
                    std::string key = "clip ";
                    double tol = 1e-7;
                    clip_one<W>(p, pl, eps, ctx, "winding_t", key, tol);
                    if (rot == 0 && !rev) {
                        clip_one<Wf>(p, pl, eps, ctx, "winding3f_t", key, 0.01);
                        clip_one<Whybrid2>(p, pl, eps, ctx, "hybrid<2>", key, tol);
                        clip_one<Whybrid4>(p, pl, eps, ctx, "hybrid<4>", key, tol);
                        clip_one<Wstack>(p, pl, eps, ctx, "stack", key, tol);
                    }
                }
    }, 16});
    // sequences of two and three cuts
    auto sp2 = std::make_shared<ClipSpace>();
    sp2->polys = convex(3, 8, false);
    sp2->ns = normals(false);
    if (!th) // one of each pair of opposite normals
        sp2->ns.erase(sp2->ns.begin() + sp2->ns.size() / 2, sp2->ns.end());
    out.push_back({"cuts", sp2->polys.size() * NB * sp2->ns.size(), [sp2, NB, th](uint64_t i, Ctx &ctx) {
        Digits D(i);
        const P3 &n1 = sp2->ns[D(sp2->ns.size())];
        const Basis &b = bases()[D(NB)];
        Poly p = place(sp2->polys[D(sp2->polys.size())], b, false, 0);
        double eps = 0.0001;
        auto dl = [&](const Poly &q, const P3 &n) {
            double lo = 1e30, hi = -1e30;
            for (auto &v : q)
                lo = std::min(lo, dot(n, v)), hi = std::max(hi, dot(n, v));
            return std::vector<double>{lo + (hi - lo) / 4, lo + (hi - lo) / 2, lo + 2 * (hi - lo) / 3};
        };
        for (double d1 : dl(p, n1))
            for (auto &n2 : sp2->ns)
                for (double d2 : dl(p, n2)) {
                    std::vector<Poly> l1, l2;
                    clip_one<Whybrid4>(p, {n1, d1}, eps, ctx, "hybrid<4>", "cuts ", 1e-6, &l1);
                    for (auto &q : l1)
                        clip_one<Whybrid4>(q, {n2, d2}, eps, ctx, "hybrid<4>", "cuts ", 1e-6, &l2);
                    ctx.count("sequences");
                    P3 s{};
                    for (auto &q : l2)
                        s = add(s, areavec(q));
                    if (len(sub(s, areavec(p))) > 1e-6 * (1 + perimeter(p)) + 4 * eps * perimeter(p))
                        ctx.fail("cuts area", "polygon " + str(p) + " cut twice: the pieces' areas do not add up");
                    if (th && l2.size() >= 3) {
                        std::vector<Poly> l3;
                        P3 n3 = mul(cross(n1, n2), 1);
                        if (len(n3) > 0.1) {
                            n3 = mul(n3, 1 / len(n3));
                            for (auto &q : l2)
                                clip_one<W>(q, {n3, dl(p, n3)[1]}, eps, ctx, "winding_t", "cuts ", 1e-6, &l3);
                        }
                    }
                }
    }, 16});
    // the measuring and copying functions
    auto sp3 = std::make_shared<ClipSpace>();
    sp3->polys = convex(3, 8, true);
    out.push_back({"measure", sp3->polys.size() * NB * 2 * 8, [sp3, NB](uint64_t i, Ctx &ctx) {
        Digits D(i);
        size_t rot = D(8);
        bool rev = D(2);
        const Basis &bs = bases()[D(NB)];
        auto &pp = sp3->polys[D(sp3->polys.size())];
        if (rot >= pp.size())
            return;
        Poly p = place(pp, bs, rev, rot);
        W w = make<W>(p);
        std::string ps = str(p);
        P3 av = areavec(p);
        double A = len(av);
        P3 n = mul(av, 1 / A);
        if (std::fabs(w.area() - A) > 1e-6 * A)
            ctx.fail("area", "area of " + ps + " is " + std::to_string(w.area()));
        // three corners in a line at the start: plane() is undefined there
        bool cornered = len(cross(sub(p[0], p[1]), sub(p[2], p[1]))) > 1e-9;
        if (cornered) {
            auto pl = w.plane();
            // plane() of a counter-clockwise polygon faces away (clockwise is the front)
            P3 pn{pl.normal[0], pl.normal[1], pl.normal[2]};
            if (len(add(pn, n)) > 1e-6)
                ctx.fail("plane", "plane of " + ps + " has the wrong normal");
            for (auto &v : p)
                if (std::fabs(dot(pn, v) - pl.dist) > 1e-6)
                    ctx.fail("plane", "plane of " + ps + " misses a vertex");
            auto ed = w.winding_edges();
            // points of the finer lattice: inside or outside of the edges
            for (int x = -1; x <= 5; x++)
                for (int y = -1; y <= 5; y++) {
                    P3 q = add(bs.o, add(mul(bs.u, x / 2.0 + 0.25), mul(bs.v, y / 2.0 + 0.125)));
                    double m = 1e9;
                    for (size_t k = 0; k < p.size(); k++) {
                        P3 e = sub(p[(k + 1) % p.size()], p[k]);
                        m = std::min(m, dot(sub(q, p[k]), cross(n, e)) / len(e));
                    }
                    if (std::fabs(m) < 1e-6)
                        continue;
                    if (polylib::PointInWindingEdges(ed, qvec3d(q[0], q[1], q[2])) != (m > 0))
                        ctx.fail("edges", "point " + str({q}) + " against the edges of " + ps);
                    ctx.count("points");
                }
        }
        auto bb = w.bounds();
        for (int k = 0; k < 3; k++) {
            double lo = 1e30, hi = -1e30, c = 0;
            for (auto &v : p)
                lo = std::min(lo, v[k]), hi = std::max(hi, v[k]), c += v[k];
            if (bb.mins()[k] != lo || bb.maxs()[k] != hi)
                ctx.fail("bounds", "bounds of " + ps);
            if (std::fabs(w.center()[k] - c / p.size()) > 1e-6)
                ctx.fail("center", "centre of " + ps);
        }
        Poly fl = read(w.flip()), rp(p.rbegin(), p.rend());
        if (fl != rp)
            ctx.fail("flip", "flip of " + ps + " is " + str(fl));
        Poly tr = read(w.translate(qvec3d(3, -5, 7))), tp;
        for (auto &v : p)
            tp.push_back(add(v, {3, -5, 7}));
        if (tr != tp)
            ctx.fail("translate", "translate of " + ps + " is " + str(tr));
        // all rotations are the same polygon, mirrored ones only undirected
        W wr = make<W>(rp);
        for (size_t k = 0; k < p.size(); k++) {
            Poly q = p;
            std::rotate(q.begin(), q.begin() + k, q.end());
            W wq = make<W>(q);
            if (!w.directional_equal(wq) || !w.undirectional_equal(wq) || !wr.undirectional_equal(wq) || wr.directional_equal(wq))
                ctx.fail("equal", "equality of " + ps + " and " + str(q));
            q[k][1] += 1;
            W wd = make<W>(q);
            if (w.directional_equal(wd) || w.undirectional_equal(wd))
                ctx.fail("equal", ps + " equals the different " + str(q));
        }
        // collinear points go, corners stay in order
        Poly want;
        for (size_t k = 0; k < p.size(); k++)
            if (len(cross(sub(p[k], p[(k + p.size() - 1) % p.size()]), sub(p[(k + 1) % p.size()], p[k]))) > 1e-6)
                want.push_back(p[k]);
        W wc = w.clone();
        wc.remove_colinear();
        if (read(wc) != want)
            ctx.fail("colinear", "removing collinear points of " + ps + " gives " + str(read(wc)));
        for (auto v : {read(w.clone<polylib::winding_storage_hybrid_t<double, 2>>()), read(w.clone<polylib::winding_storage_hybrid_t<double, 4>>()),
                 read(w.clone<polylib::winding_storage_stack_t<double, 64>>()), read(w.clone())})
            if (v != p)
                ctx.fail("clone", "clone of " + ps + " is " + str(v));
        // dice into squares of several sizes
        for (double subdiv : {8., 16., 20., 33., 64.}) {
            W wd = w.clone();
            double sum = 0;
            size_t pieces = 0;
            P3 sv{};
            if (A / (subdiv * subdiv) > 4000)
                continue;
            wd.dice(subdiv, [&](W &piece) {
                pieces++;
                Poly q = read(piece);
                sum += len(areavec(q));
                sv = add(sv, areavec(q));
                auto pb = piece.bounds();
                for (int k = 0; k < 3; k++)
                    if (pb.maxs()[k] - pb.mins()[k] > subdiv + 2 + 1e-6)
                        ctx.fail("dice size", "dicing " + ps + " by " + std::to_string(subdiv) + " leaves a piece " + str(q));
                for (auto &v : q)
                    for (size_t k = 0; k < p.size(); k++) {
                        P3 e = sub(p[(k + 1) % p.size()], p[k]);
                        if (dot(sub(v, p[k]), cross(n, e)) / len(e) < -1e-6)
                            ctx.fail("dice outside", "dicing " + ps + " by " + std::to_string(subdiv) + " makes a piece outside: " + str(q));
                    }
            });
            ctx.count("dice pieces", pieces);
            double grey = pieces > 1 ? 0.2 * perimeter(p) * pieces : 0;
            if (std::fabs(sum - A) > 1e-6 * A + grey * 0.05 || len(sub(sv, av)) > 1e-6 * A + grey * 0.05)
                ctx.fail("dice area", "dicing " + ps + " by " + std::to_string(subdiv) + ": areas do not add up");
        }
    }, 64});
    // big polygons and boxes
    out.push_back({"from_plane", normals(true).size() * 7 * 3, [](uint64_t i, Ctx &ctx) {
        Digits D(i);
        double ext = std::array<double, 3>{64, 4096, 65536}[D(3)];
        double dist = std::array<double, 7>{0, 1, -1, 0.5, 100, -100, 3000}[D(7)];
        P3 n = normals(true)[D(normals(true).size())];
        for (int f = 0; f < 2; f++) {
            Poly p = f ? read(Wf::from_plane(qplane3d{qvec3d(n[0], n[1], n[2]), dist}, ext)) : read(W::from_plane(qplane3d{qvec3d(n[0], n[1], n[2]), dist}, ext));
            double tol = f ? 0.05 * (1 + ext / 4096) : 1e-6 * (1 + ext / 4096);
            P3 a = areavec(p);
            if (p.size() != 4 || std::fabs(len(a) - 4 * ext * ext) > 1e-4 * ext * ext)
                ctx.fail("from_plane size", "polygon for a plane has the wrong size: " + str(p));
            if (len(add(mul(a, 1 / len(a)), n)) > 1e-4)
                ctx.fail("from_plane normal", "polygon for a plane faces the wrong way: " + str(p));
            for (auto &v : p)
                if (std::fabs(dot(n, v) - dist) > tol)
                    ctx.fail("from_plane plane", "polygon for a plane is off the plane: " + str(p));
            // centred on the plane's origin
            P3 c{};
            for (auto &v : p)
                c = add(c, mul(v, 0.25));
            if (len(sub(c, mul(n, dist))) > tol)
                ctx.fail("from_plane centre", "polygon for a plane is not centred: " + str(p));
            ctx.nontrivial(hcomb(i, f));
        }
    }, 64});
    out.push_back({"boxes", 6 * 6 * 6 * 6 * 6 * 6, [](uint64_t i, Ctx &ctx) {
        Digits D(i);
        static const double c[6] = {-4096, -16, 0, 1, 24, 1024};
        P3 lo, hi;
        for (int k = 0; k < 3; k++) {
            lo[k] = c[D(6)], hi[k] = c[D(6)];
            if (lo[k] >= hi[k])
                return;
        }
        auto ws = W::aabb_windings(aabb3d(qvec3d(lo[0], lo[1], lo[2]), qvec3d(hi[0], hi[1], hi[2])));
        std::set<int> seen;
        for (auto &w : ws) {
            Poly p = read(w);
            P3 a = areavec(p);
            int ax = 0;
            for (int k = 1; k < 3; k++)
                if (std::fabs(a[k]) > std::fabs(a[ax]))
                    ax = k;
            int k1 = (ax + 1) % 3, k2 = (ax + 2) % 3;
            double want = (hi[k1] - lo[k1]) * (hi[k2] - lo[k2]);
            bool outer = a[ax] < 0; // clockwise seen from the front
            double pos = outer ? hi[ax] : lo[ax];
            bool ok = p.size() == 4 && std::fabs(std::fabs(a[ax]) - want) < 1e-6 * want;
            for (auto &v : p) {
                ok &= std::fabs(v[ax] - pos) < 1e-6;
                for (int k = 0; k < 3; k++)
                    ok &= v[k] >= lo[k] - 1e-6 && v[k] <= hi[k] + 1e-6;
            }
            if (!ok)
                ctx.fail("box", "side of a box: " + str(p));
            seen.insert(ax * 2 + outer);
        }
        if (seen.size() != 6)
            ctx.fail("box sides", "a box without six different sides");
        ctx.nontrivial(i);
    }, 512});
    // the storage classes: every sequence of operations against a plain list
    int depth = th ? 7 : 5;
    uint64_t total = 1;
    const int OPS = 9;
    for (int k = 0; k < depth; k++)
        total *= OPS;
    out.push_back({"storage", total, [depth](uint64_t i, Ctx &ctx) {
        auto go = [&](auto tag, const char *name) {
            using WW = typename decltype(tag)::type;
            WW a, b;
            Poly ma, mb;
            double nextv = 1;
            std::string trace;
            Digits D(i);
            for (int k = 0; k < depth; k++) {
                int op = D(OPS);
                switch (op) {
                    case 0: a.emplace_back(nextv, nextv, nextv), ma.push_back({nextv, nextv, nextv}), nextv++, trace += "push "; break;
                    case 1:
                        for (int q = 0; q < 3; q++)
                            a.push_back(qvec3d(nextv, 0, -nextv)), ma.push_back({nextv, 0, -nextv}), nextv++;
                        trace += "push3 ";
                        break;
                    case 2: a.clear(), ma.clear(), trace += "clear "; break;
                    case 3:
                        if (ma.size() > 1)
                            a.resize(1), ma.resize(1);
                        trace += "shrink1 ";
                        break;
                    case 4: {
                        size_t old = ma.size();
                        a.resize(old + 2);
                        ma.resize(old + 2);
                        for (size_t q = old; q < old + 2; q++)
                            a[q] = qvec3d(nextv, nextv, 0), ma[q] = {nextv, nextv, 0}, nextv++;
                        trace += "grow2 ";
                        break;
                    }
                    case 5: b = std::move(a), mb = ma, ma.clear(), a.clear(), trace += "move "; break;
                    case 6: std::swap(a, b), std::swap(ma, mb), trace += "swap "; break;
                    case 7: b = a.clone(), mb = ma, trace += "copy "; break;
                    case 8: {
                        WW c(std::move(b));
                        b = WW(c.begin(), c.end());
                        trace += "rebuild ";
                        break;
                    }
                }
                ctx.count("steps");
                auto bad = [&](const WW &w, const Poly &m) {
                    if (w.size() != m.size() || w.empty() != m.empty())
                        return true;
                    size_t q = 0;
                    for (auto &v : w) {
                        if (v[0] != m[q][0] || v[1] != m[q][1] || v[2] != m[q][2] || w.at(q)[0] != m[q][0])
                            return true;
                        q++;
                    }
                    return q != m.size();
                };
                if (bad(a, ma) || bad(b, mb)) {
                    ctx.fail(std::string("storage ") + name, std::string(name) + " after " + trace + ": points " + str(read(a)) + " | " + str(read(b)) + " instead of " + str(ma) + " | " + str(mb));
                    return;
                }
            }
            ctx.state(hcomb(ma.size(), mb.size()));
        };
        ctx.nontrivial(i);
        go(std::common_type<Whybrid2>{}, "hybrid<2>");
        go(std::common_type<Whybrid4>{}, "hybrid<4>");
        go(std::common_type<Wstack>{}, "stack");
        go(std::common_type<W>{}, "heap");
    }, 1024});
    return out;
}
} // namespace
int main(int argc, char **argv)
{
    logging::mask = logging::flag::NONE;
    return main_(argc, argv, {{"G01", "exploration",
        "every convex polygon over the lattice (every start vertex, both orders, eight placements in space) clipped by every listed plane normal at every distance class (through each vertex, half and one and a half tolerances off it, between vertices, clear of it); every pair of cuts; every operation sequence on the point storages",
        {"polygons: convex, 3x3 lattice (4x4 thorough) times eight affine placements", "planes: the listed unit normals and distances; tolerances 0, 0.0001, 0.1, 1"},
        g01}});
}
