// Q09: the texture coordinates of every compiled face
#include "qworld.hh"
#include "mapref.hh"
#include <common/fs.hh>
#include <mc/explore.hh>
#include <numeric>
using namespace qw;
using namespace mc;
using Opts = std::vector<std::string>;




namespace
{
// ---------------------------------------------------------------- orientations
std::vector<V3> orientations(int m)
{
    std::vector<V3> r;
    for (int x = -m; x <= m; x++)
        for (int y = -m; y <= m; y++)
            for (int z = -m; z <= m; z++) {
                int nz = !!x + !!y + !!z, g = std::gcd(std::gcd(x, y), z);
                if (nz >= 2 && g == 1)
                    r.push_back({double(x), double(y), double(z)});
            }
    return r;
}
const V3 AX[6] = {{-1, 0, 0}, {1, 0, 0}, {0, -1, 0}, {0, 1, 0}, {0, 0, -1}, {0, 0, 1}};
// two integer vectors that span the plane of n; a x b points along n
void basis(V3 n, V3 &a, V3 &b)
{
    V3 e = fabs(n.x) <= fabs(n.y) && fabs(n.x) <= fabs(n.z) ? V3{1, 0, 0} : fabs(n.y) <= fabs(n.z) ? V3{0, 1, 0} : V3{0, 0, 1};
    a = cross(e, n);
    b = cross(n, a);
    double g = 0;
    for (int i = 0; i < 3; i++)
        g = std::gcd(int(g), int(b[i]));
    if (g > 1)
        b = b * (1 / g);
}
// ---------------------------------------------------------------- parameters
enum Kind
{
    STD,
    VALVE,
    TX1,
    TX2,
    BP,
    NKIND
};
const char *KN[] = {"standard", "valve", "quark1", "quark2", "brushdef"};
const double SHIFT[3][2] = {{0, 0}, {13, -5.5}, {-40, 71}};
const double ROT[8] = {0, 90, 45, 180, 270, 30, -17.25, 360};
const double SCALE[6][2] = {{1, 1}, {0.5, 2}, {-1, 1}, {3, -0.25}, {0, 0}, {1, 0.125}};
const double VAX[10][6] = {{1, 0, 0, 0, -1, 0}, {1, 0, 0, 0, 0, -1}, {0, 1, 0, 0, 0, -1}, {0.6, 0.8, 0, 0, 0, -1}, {1, 1, 0, 0, 0, 1}, {0, -1, 0, 1, 0, 0}, {0.36, 0.48, -0.8, -0.8, 0.6, 0}, {0.5, -0.25, 1, 1, 0.5, -0.5}, {-1, 0, 0, 0, 0, 2}, {1, 0, 0, 0.5, 0, 1}};
const int TRI[12][4] = {{1, 0, 0, 1}, {2, 0, 0, 1}, {1, 1, 0, 1}, {1, 0, 1, 2}, {0, 1, -1, 0}, {3, 1, -1, 2}, {-1, 0, 0, -1}, {4, 0, 0, 4}, {2, 1, 1, 3}, {1, -1, 1, 1}, {5, 0, 0, 2}, {-2, 1, -1, -1}};
const double BPM[12][6] = {{1 / 64., 0, 0, 0, 1 / 64., 0}, {1 / 32., 0, 0.5, 0, 1 / 128., 0.25}, {0, 1 / 64., 0, -1 / 64., 0, 0}, {0.01, 0.02, -0.75, 0.015, -0.01, 0.125}, {-1 / 64., 0, 3.5, 0, 1 / 64., -2}, {0.0625, 0.03125, 0, 0.015625, 0.0625, 0}, {0.02, 0, 0.1, 0, -0.02, 0.2}, {0.011048543, 0.011048543, 0, -0.011048543, 0.011048543, 0}, {0.125, 0, 0, 0, 0.125, 0}, {0.015625, 0.0078125, 1, 0, 0.015625, 1}, {-0.0078125, 0, -0.5, 0, -0.0078125, 0.5}, {0.005, -0.012, 0.33, 0.02, 0.007, -0.66}};
int nparam(int k)
{
    return k == STD ? 144 : k == VALVE ? 180 : k == BP ? 12 : 12;
}
struct TF : Face // with brush primitives
{
    double bp[6];
    int k = 0;
};
// the face with plane point base + u*A + v*B and parameter set q
TF face(int kind, int q, V3 n, V3 at, const std::string &tex)
{
    TF f;
    V3 a, b;
    basis(n, a, b);
    const int *t = kind == TX1 || kind == TX2 ? TRI[q % 12] : TRI[(q * 5) % 4];
    // p0-p1 x p2-p1 points outwards: p2-p0, p1-p0 span with (p2-p0) x (p1-p0) along n
    V3 d2 = a * (16 * t[0]) + b * (16 * t[1]), d1 = a * (16 * t[2]) + b * (16 * t[3]);
    f.p[0] = at;
    f.p[2] = at + d2;
    f.p[1] = at + d1;
    if (dot(normal_of(f), n) < 0)
        std::swap(f.p[1], f.p[2]);
    f.tex = tex;
    f.k = kind;
    f.kind = kind == BP ? 0 : kind;
    for (auto &x : f.num)
        x = 0;
    f.num[3] = f.num[4] = 1;
    f.ext = false;
    if (kind == STD) {
        auto *sh = SHIFT[q % 3];
        auto *sc = SCALE[q / 24 % 6];
        f.num[0] = sh[0], f.num[1] = sh[1], f.num[2] = ROT[q / 3 % 8], f.num[3] = sc[0], f.num[4] = sc[1];
    } else if (kind == VALVE) {
        auto *sh = SHIFT[q % 3];
        auto *sc = SCALE[q / 30 % 6];
        f.num[0] = sh[0], f.num[1] = sh[1], f.num[3] = sc[0] ? sc[0] : 0.75, f.num[4] = sc[1] ? sc[1] : 1.5;
        f.num[2] = ROT[q % 8]; // not used by the projection
        for (int i = 0; i < 6; i++)
            f.num[5 + i] = VAX[q / 3 % 10][i];
    } else if (kind == BP)
        for (int i = 0; i < 6; i++)
            f.bp[i] = BPM[q % 12][i];
    return f;
}
std::string text(const TF &f)
{
    if (f.k != BP)
        return face_text(f);
    std::string r;
    for (int i = 0; i < 3; i++)
        r += "( " + n2s(f.p[i].x) + " " + n2s(f.p[i].y) + " " + n2s(f.p[i].z) + " ) ";
    r += "( ( " + n2s(f.bp[0]) + " " + n2s(f.bp[1]) + " " + n2s(f.bp[2]) + " ) ( " + n2s(f.bp[3]) + " " + n2s(f.bp[4]) + " " + n2s(f.bp[5]) + " ) ) " + f.tex;
    return r + (f.ext ? " " + std::to_string(f.e[0]) + " " + std::to_string(f.e[1]) + " " + std::to_string(f.e[2]) : " 0 0 0") + "\n";
}
V3 unit(V3 v) { return v * (1 / sqrt(dot(v, v))); }
// coordinates by definition; false: too close to undefined to say
bool defined(const TF &f, int tw, int th, V3 v[2], double sh[2])
{
    V3 n = unit(normal_of(f));
    if (f.k == BP) {
        // x is turned onto the normal by a rotation around y, then z; y and z give the texture axes
        double flat = sqrt(n.x * n.x + n.y * n.y), rz = atan2(fabs(n.y) < 1e-6 ? 0 : n.y, fabs(n.x) < 1e-6 ? 0 : n.x), ry = -atan2(n.z, flat);
        V3 tx{-sin(rz), cos(rz), 0}, ty{-sin(ry) * cos(rz), -sin(ry) * sin(rz), -cos(ry)};
        v[0] = (tx * f.bp[0] + ty * f.bp[1]) * tw;
        v[1] = (tx * f.bp[3] + ty * f.bp[4]) * th;
        sh[0] = f.bp[2] * tw;
        sh[1] = f.bp[5] * th;
    } else
        projection(f, v, sh);
    V3 c = cross(v[0], v[1]);
    double l = sqrt(dot(c, c)), s = l > 1e-12 ? fabs(dot(c, n)) / l : 0;
    if (s > 1e-5 && s < 1e-3)
        return false;
    if (s <= 1e-5) { // a face seen edge-on by its projection gets the default one
        TF d = f;
        d.k = d.kind = 0;
        d.num[0] = d.num[1] = d.num[2] = 0;
        d.num[3] = d.num[4] = 1;
        projection(d, v, sh);
    }
    return true;
}
// ---------------------------------------------------------------- placements
struct Place
{
    std::string name;
    int how = 0; // 0 world, 1 func_wall, 2 hipnotic rotation, 3 origin brush, 4 external map
    V3 origin{0, 0, 0}, angles{0, 0, 0}, scale{1, 1, 1};
    Opts opts;
    double global = 1;
    int game = 0; // 1: Quake II
    std::string angletext, scaletext;
    V3 out(V3 p) const
    {
        if (how == 2 || how == 3)
            p = p - origin;
        if (how == 4) {
            for (int i = 0; i < 3; i++)
                p[i] *= scale[i];
            p = turn(p, 1) + origin;
        }
        return p * global;
    }
    V3 in(V3 p) const
    {
        p = p * (1 / global);
        if (how == 2 || how == 3)
            p = p + origin;
        if (how == 4) {
            p = turn(p - origin, -1);
            for (int i = 0; i < 3; i++)
                p[i] /= scale[i];
        }
        return p;
    }
    V3 turn(V3 p, int dir) const
    {
        auto rot = [](V3 v, int axis, double deg) {
            double a = deg * M_PI / 180, c = cos(a), s = sin(a);
            int i = (axis + 1) % 3, j = (axis + 2) % 3;
            double x = v[i] * c - v[j] * s, y = v[i] * s + v[j] * c;
            v[i] = x;
            v[j] = y;
            return v;
        };
        // roll about x, pitch about y (down is positive), yaw about z
        if (dir > 0)
            return rot(rot(rot(p, 0, angles.z), 1, angles.x), 2, angles.y);
        return rot(rot(rot(p, 2, -angles.y), 1, -angles.x), 0, -angles.z);
    }
};
std::vector<Place> places()
{
    std::vector<Place> v;
    auto add = [&](Place p) { v.push_back(p); };
    add({"world"});
    add({"func_wall", 1});
    add({"hipnotic", 2, {40, -24, 16}});
    add({"originbrush", 3, {-48, 72, 8}});
    add({"hipnotic-scale", 2, {40, -24, 16}, {0, 0, 0}, {1, 1, 1}, {"-scale", "2"}, 2});
    add({"originbrush-scale", 3, {-48, 72, 8}, {0, 0, 0}, {1, 1, 1}, {"-scale", "2"}, 2});
    add({"scale2", 0, {0, 0, 0}, {0, 0, 0}, {1, 1, 1}, {"-scale", "2"}, 2});
    add({"scale16", 0, {0, 0, 0}, {0, 0, 0}, {1, 1, 1}, {"-scale", "16", "-nosubdivide"}, 16});
    add({"scale.75", 1, {0, 0, 0}, {0, 0, 0}, {1, 1, 1}, {"-scale", "0.75"}, 0.75});
    auto ext = [&](const char *n, V3 o, V3 a, V3 s, std::string at, std::string st, Opts op = {}, double g = 1) {
        Place p{n, 4, o, a, s, op, g};
        p.angletext = at;
        p.scaletext = st;
        add(p);
    };
    ext("external", {16, -32, 48}, {0, 0, 0}, {1, 1, 1}, "", "");
    ext("external-yaw", {0, 0, 0}, {0, 90, 0}, {1, 1, 1}, "\"_external_map_angle\" \"90\"\n", "");
    ext("external-yaw30", {8, 0, -8}, {0, 30, 0}, {1, 1, 1}, "\"_external_map_angles\" \"0 30 0\"\n", "");
    ext("external-pitch", {0, 16, 0}, {90, 0, 0}, {1, 1, 1}, "\"_external_map_angles\" \"90 0 0\"\n", "");
    ext("external-roll", {0, 16, 0}, {0, 0, 45}, {1, 1, 1}, "\"_external_map_angles\" \"0 0 45\"\n", "");
    ext("external-all", {-16, 16, 32}, {20, 135, -60}, {1, 1, 1}, "\"_external_map_angles\" \"20 135 -60\"\n", "");
    ext("external-scale", {0, 0, 0}, {0, 0, 0}, {1.5, 1.5, 1.5}, "", "\"_external_map_scale\" \"1.5\"\n");
    ext("external-scale3", {32, 0, 0}, {0, 180, 0}, {0.5, 2, 1}, "\"_external_map_angle\" \"180\"\n", "\"_external_map_scale\" \"0.5 2 1\"\n");
    ext("external-scale3-turn", {32, 0, 0}, {45, 30, 0}, {0.5, 2, 1.25}, "\"_external_map_angles\" \"45 30 0\"\n", "\"_external_map_scale\" \"0.5 2 1.25\"\n");
    ext("external-twice", {32, 0, 0}, {0, 90, 0}, {1, 1, 1}, "\"_external_map_angle\" \"90\"\n", "", {"-scale", "0.5"}, 0.5);
    for (const char *o : {"-bsp2", "-hexen2", "-hlbsp"}) {
        Place p{o};
        p.opts = {o};
        add(p);
    }
    Place q{"quake2"};
    q.opts = {"-q2bsp"};
    q.game = 1;
    add(q);
    q.name = "qbism";
    q.opts = {"-qbism"};
    q.how = 3;
    q.origin = {16, 8, -24};
    add(q);
    return v;
}
constexpr int PER = 8; // brushes of a map
constexpr int R = 20, PITCH = 96;
V3 centre(int i) { return {double(PITCH * (i % 2) - PITCH / 2), double(PITCH * (i / 2 % 2) - PITCH / 2), double(PITCH * (i / 4) - PITCH / 2)}; }
struct Set
{
    std::vector<std::array<TF, 7>> brush;
    std::string text() const
    {
        std::string r;
        for (auto &b : brush) {
            r += "{\n";
            bool bp = b[0].k == BP;
            if (bp)
                r += "brushDef\n{\n";
            for (auto &f : b)
                r += ::text(f);
            if (bp)
                r += "}\n";
            r += "}\n";
        }
        return r;
    }
};
Set make(int kind, V3 n, int page, int game)
{
    Set s;
    const char *names[] = {"stone", "brick", "wood"};
    for (int i = 0; i < PER; i++) {
        std::array<TF, 7> b;
        V3 c = centre(i);
        for (int k = 0; k < 7; k++) {
            int q = k == 6 ? page * PER + i : (page * PER + i) * 7 + k * 11 + 3;
            V3 d = k < 6 ? AX[k] : n;
            b[k] = face(kind, q % nparam(kind), d, c + (k < 6 ? d * R : d * 4), names[(i + k) % 3]);
            if (game) {
                b[k].ext = true;
                b[k].e[0] = 1;
                const int fl[] = {0, 1, 2, 64};
                b[k].e[1] = fl[(q + k) % 4];
                b[k].e[2] = q % 3 ? q % 500 : 0;
            }
        }
        s.brush.push_back(b);
    }
    return s;
}
double side_area(const std::array<TF, 7> &b, int side)
{
    V3 n[7];
    double d[7];
    for (int i = 0; i < 7; i++) {
        n[i] = unit(normal_of(b[i]));
        d[i] = dot(n[i], b[i].p[0]);
    }
    // vertices on this side
    std::vector<V3> v;
    for (int i = 0; i < 7; i++)
        for (int j = i + 1; j < 7; j++) {
            if (i == side || j == side)
                continue;
            V3 c = cross(n[i], n[j]);
            double det = dot(c, n[side]);
            if (fabs(det) < 1e-6)
                continue;
            V3 p = (cross(n[j], n[side]) * d[i] + cross(n[side], n[i]) * d[j] + c * d[side]) * (1 / det);
            bool ok = true;
            for (int k = 0; k < 7; k++)
                ok &= dot(n[k], p) <= d[k] + 1e-6;
            for (auto &x : v)
                ok &= dot(x - p, x - p) > 1e-6;
            if (ok)
                v.push_back(p);
        }
    if (v.size() < 3)
        return 0;
    V3 m{0, 0, 0};
    for (auto &x : v)
        m = m + x * (1. / v.size());
    V3 a, e;
    a = unit(v[0] - m);
    e = cross(n[side], a);
    std::sort(v.begin(), v.end(), [&](V3 x, V3 y) { return atan2(dot(x - m, e), dot(x - m, a)) < atan2(dot(y - m, e), dot(y - m, a)); });
    V3 s{0, 0, 0};
    for (size_t i = 0; i < v.size(); i++)
        s = s + cross(v[i] - m, v[(i + 1) % v.size()] - m);
    return sqrt(dot(s, s)) / 2;
}
// ---------------------------------------------------------------- the file
const char *WAD = "tx.wad";
void put32(std::string &s, uint32_t v)
{
    for (int i = 0; i < 4; i++)
        s += char(v >> 8 * i);
}
const int SIZE[3][2] = {{64, 64}, {32, 128}, {256, 16}}; // stone, brick, wood
void write_wad()
{
    std::string data, dir;
    const char *names[] = {"stone", "brick", "wood"};
    for (int i = 0; i < 3; i++) {
        int w = SIZE[i][0], h = SIZE[i][1];
        std::string m = names[i];
        m.resize(16);
        put32(m, w);
        put32(m, h);
        int off = 40;
        for (int l = 0; l < 4; l++) {
            put32(m, off);
            off += (w >> l) * (h >> l);
        }
        m.resize(off, 7);
        std::string n = names[i];
        n.resize(16);
        put32(dir, 12 + data.size());
        put32(dir, m.size());
        put32(dir, m.size());
        dir += 'D';
        dir += '\0';
        dir += '\0';
        dir += '\0';
        dir += n;
        data += m;
    }
    std::string f = "WAD2";
    put32(f, 3);
    put32(f, 12 + data.size());
    std::ofstream(WAD, std::ios::binary) << f << data << dir;
}
std::string maptext(const Set &s, const Place &pl, bool wad)
{
    std::string r = "{\n\"classname\" \"worldspawn\"\n";
    if (wad)
        r += "\"wad\" \"tx.wad\"\n";
    if (pl.how == 0)
        r += s.text();
    else
        r += boxtext(Box{{-800, -800, -800}, {-784, -784, -784}, SOLID, false, ""}, 0);
    r += "}\n{\n\"classname\" \"info_player_start\"\n\"origin\" \"0 0 0\"\n}\n";
    std::string org = n2s(pl.origin.x) + " " + n2s(pl.origin.y) + " " + n2s(pl.origin.z);
    if (pl.how == 1)
        r += "{\n\"classname\" \"func_wall\"\n" + s.text() + "}\n";
    if (pl.how == 2)
        r += "{\n\"classname\" \"rotate_object\"\n\"target\" \"tt\"\n" + s.text() + "}\n{\n\"classname\" \"info_rotate\"\n\"targetname\" \"tt\"\n\"origin\" \"" + org + "\"\n}\n";
    if (pl.how == 3) {
        I3 lo, hi;
        for (int i = 0; i < 3; i++)
            lo[i] = int(pl.origin[i]) - 8, hi[i] = int(pl.origin[i]) + 8;
        Box b{lo, hi, SOLID, false, ""};
        b.tex = "origin";
        std::string t = boxtext(b, 0);
        if (pl.game) // the contents say what it is
            for (size_t at = 0; (at = t.find("\n", at)) != std::string::npos; at += 1)
                if (at && (isdigit(t[at - 1]) || t[at - 1] == ']')) {
                    t.insert(at, " 16777216 0 0");
                    at += 13;
                }
        r += "{\n\"classname\" \"func_rotating\"\n" + s.text() + t + "}\n";
    }
    if (pl.how == 4) {
        r += "{\n\"classname\" \"misc_external_map\"\n\"_external_map\" \"e.map\"\n\"_external_map_classname\" \"func_wall\"\n\"origin\" \"" + org + "\"\n" + pl.angletext + pl.scaletext + "}\n";
        std::ofstream("e.map", std::ios::binary) << "{\n\"classname\" \"worldspawn\"\n" + s.text() + "}\n";
    }
    return r;
}
std::string vs(V3 p) { return "(" + n2s(p.x) + " " + n2s(p.y) + " " + n2s(p.z) + ")"; }
int texid(const std::string &n) { return n == "stone" ? 0 : n == "brick" ? 1 : n == "wood" ? 2 : -1; }
std::string params(const TF &f)
{
    std::string t = text(f);
    t.pop_back();
    return t;
}
void judge(Ctx &c, const std::string &key, const Set &s, const Place &pl, const mbsp_t &b, bool wad)
{
    int mi = pl.how == 0 ? 0 : 1;
    if (int(b.dmodels.size()) <= mi)
        return c.fail(key + " model", "no model was written");
    auto &m = b.dmodels[mi];
    std::vector<std::array<double, 7>> got(s.brush.size());
    for (auto &g : got)
        g.fill(0);
    double cell = pl.global;
    for (int fi = m.firstface; fi < m.firstface + m.numfaces; fi++) {
        auto &f = b.dfaces.at(fi);
        std::vector<V3> raw, v;
        V3 mid{0, 0, 0};
        for (int k = 0; k < f.numedges; k++) {
            int e = b.dsurfedges.at(f.firstedge + k);
            auto &p = b.dvertexes.at(e < 0 ? b.dedges.at(-e)[1] : b.dedges.at(e)[0]);
            raw.push_back({p[0], p[1], p[2]});
            v.push_back(pl.in(raw.back()));
            mid = mid + v.back() * (1. / f.numedges);
        }
        int best = -1;
        for (int i = 0; i < int(s.brush.size()); i++) {
            V3 d = mid - centre(i);
            if (std::max({fabs(d.x), fabs(d.y), fabs(d.z)}) < PITCH / 2)
                best = i;
        }
        if (best < 0)
            return c.fail(key + " stray", "a face around " + vs(mid) + " (map coordinates) belongs to no brush");
        // outward normal of the drawn side: clockwise seen from the front
        V3 area{0, 0, 0};
        for (size_t k = 0; k < v.size(); k++)
            area = area + cross(v[(k + 1) % v.size()] - v[0], v[k] - v[0]);
        // filler without area, which closes the seam of a T-junction
        double longest = 0;
        for (auto &p : v)
            longest = std::max(longest, dot(p - v[0], p - v[0]));
        if (sqrt(dot(area, area)) < 0.2 * sqrt(longest)) { // narrower than the distance at which vertices are merged
            c.count("flat_fillers");
            continue;
        }
        V3 an = unit(area);
        int side = -1;
        for (int k = 0; k < 7; k++) {
            auto &F = s.brush[best][k];
            V3 n = unit(normal_of(F));
            bool on = dot(n, an) > 0.99;
            for (auto &p : v)
                on &= fabs(dot(n, p - F.p[0])) < 0.2;
            if (on)
                side = k;
        }
        if (side < 0) {
            std::string l;
            for (auto &p : v)
                l += " " + vs(p);
            return c.fail(key + " stray", "a face around " + vs(mid) + " lies on no side of its brush:" + l);
        }
        auto &F = s.brush[best][side];
        got[best][side] += sqrt(dot(area, area)) / 2;
        auto &ti = b.texinfo.at(f.texinfo);
        std::string name = pl.game ? std::string(ti.texture.data()) : ti.miptex >= 0 && ti.miptex < int(b.dtex.textures.size()) ? b.dtex.textures[ti.miptex].name : "?";
        if (name != F.tex)
            return c.fail(key + " texture", "face around " + vs(mid) + " has texture " + name + ", the map says " + F.tex);
        if (pl.game && (ti.flags.native != F.e[1] || ti.value != F.e[2]))
            return c.fail(key + " flags", "face around " + vs(mid) + " has flags " + std::to_string(ti.flags.native) + " value " + std::to_string(ti.value) + ", the map says " + std::to_string(F.e[1]) + " " + std::to_string(F.e[2]));
        V3 pv[2];
        double sh[2];
        int id = wad ? texid(F.tex) : -1;
        if (!defined(F, id < 0 ? 64 : SIZE[id][0], id < 0 ? 64 : SIZE[id][1], pv, sh)) {
            c.count("undetermined");
            continue;
        }
        double mag = std::max(sqrt(dot(pv[0], pv[0])), sqrt(dot(pv[1], pv[1])));
        for (size_t k = 0; k < v.size(); k++) {
            UV w = at(pv, sh, v[k]);
            for (int a = 0; a < 2; a++) {
                double have = ti.vecs.at(a, 0) * raw[k].x + ti.vecs.at(a, 1) * raw[k].y + ti.vecs.at(a, 2) * raw[k].z + ti.vecs.at(a, 3);
                double want = a ? w.t : w.s;
                if (!(fabs(have - want) < 0.02 + 0.02 * mag))
                    return c.fail(key + " coordinates", std::string(a ? "t" : "s") + " at " + vs(v[k]) + " (map coordinates) is " + n2s(have) + ", the map says " + n2s(want) + ": " + params(F));
            }
        }
        c.count("faces");
    }
    for (size_t i = 0; i < s.brush.size(); i++)
        for (int k = 0; k < 7; k++) {
            double want = side_area(s.brush[i], k);
            if (fabs(want - got[i][k]) > 0.02 * cell + want * 0.002 + (want < 4 ? 1 : 0))
                return c.fail(key + " area", "side " + std::to_string(k) + " of brush " + std::to_string(i) + " has area " + n2s(want) + " in the map, " + n2s(got[i][k]) + " is drawn: " + params(s.brush[i][k]));
        }
}
Space compiled(const std::string &name, int m, std::vector<Place> pls, bool wad)
{
    Space s;
    auto os = orientations(m);
    // kinds and pages
    std::vector<std::pair<int, int>> kp;
    for (int k = 0; k < NKIND; k++)
        for (int p = 0; p * PER < nparam(k); p++)
            kp.push_back({k, p});
    s.name = name;
    s.size = os.size() * kp.size() * pls.size();
    s.chunk = 8;
    s.run = [=](uint64_t i, Ctx &c) {
        Digits d(i);
        auto &pl = pls[d(pls.size())];
        auto [kind, page] = kp[d(kp.size())];
        V3 n = os[d(os.size())];
        std::string key = name + " " + pl.name + " " + KN[kind] + " normal " + vs(n) + " page " + std::to_string(page);
        Set st = make(kind, n, page, pl.game);
        c.nontrivial(hstr(key));
        c.state(hstr(key));
        c.sample(key);
        fs::clear();
        if (wad)
            write_wad();
        else
            std::filesystem::remove(WAD);
        Opts o = pl.opts;
        for (auto x : {"-nofill", "-noclip", "-nopercent"})
            o.push_back(x);
        Out r = compile(maptext(st, pl, wad), o);
        if (!r.error.empty())
            return c.fail(key + " refused", r.error);
        judge(c, key, st, pl, r.bsp, wad);
        c.outcome(hcomb(r.bsp.texinfo.size(), r.bsp.dfaces.size()));
    };
    return s;
}
// ---------------------------------------------------------------- -convert
struct Conv
{
    const char *arg, *suffix;
    int kind;
};
const Conv CONV[] = {{"quake", "-quake", STD}, {"quake2", "-quake2", STD}, {"valve", "-valve", VALVE}, {"bp", "-bp", BP}};
Space converted(const std::string &name, int m, bool wad)
{
    Space s;
    auto os = orientations(m);
    std::vector<std::pair<int, int>> kp;
    for (int k = 0; k < NKIND; k++)
        for (int p = 0; p * PER < nparam(k); p++)
            kp.push_back({k, p});
    s.name = name;
    s.size = os.size() * kp.size() * 4;
    s.chunk = 8;
    s.run = [=](uint64_t i, Ctx &c) {
        Digits d(i);
        auto &cv = CONV[d(4)];
        auto [kind, page] = kp[d(kp.size())];
        V3 n = os[d(os.size())];
        std::string key = name + " " + KN[kind] + " to " + cv.arg + " normal " + vs(n) + " page " + std::to_string(page);
        Set st = make(kind, n, page, 0);
        c.nontrivial(hstr(key));
        c.sample(key);
        fs::clear();
        if (wad)
            write_wad();
        else
            std::filesystem::remove(WAD);
        std::string out = std::string("t") + cv.suffix + ".map";
        std::filesystem::remove(out);
        std::ofstream("t.map", std::ios::binary) << maptext(st, {}, wad);
        try {
            logging::mask = bitflags<logging::flag>(logging::flag::NONE);
            InitQBSP({"", "-noverbose", "-nopercent", "-missing_textures_as_zero_size", "-convert", cv.arg, "t.map", "t.bsp"});
            logging::mask = bitflags<logging::flag>(logging::flag::NONE);
            ProcessFile();
            logging::close();
        } catch (const std::exception &e) {
            return c.fail(key + " refused", e.what());
        }
        std::string txt = slurp(out);
        // read it back
        std::istringstream in(txt);
        std::string tok;
        std::vector<std::vector<TF>> bs;
        std::vector<std::pair<std::string, std::string>> kv;
        int depth = 0, ents = 0;
        auto bad = [&](const std::string &w) { c.fail(key + " unreadable", w + " in " + txt.substr(0, 2000)); };
        auto num = [&](double &x) { return bool(in >> x); };
        while (in >> tok) {
            if (tok == "{") {
                if (++depth == 1)
                    ents++;
                if (depth == 2)
                    bs.emplace_back();
            } else if (tok == "}")
                depth--;
            else if (tok == "brushDef" && depth == 2)
                ;
            else if (tok[0] == '"' && depth == 1) {
                std::string rest;
                getline(in, rest);
                kv.push_back({tok, rest});
            } else if (tok == "(" && depth >= 2) {
                TF f;
                f.k = cv.kind;
                f.kind = cv.kind == BP ? 0 : cv.kind;
                for (auto &x : f.num)
                    x = 0;
                f.num[3] = f.num[4] = 1;
                for (int p = 0; p < 3; p++) {
                    if (p && (!(in >> tok) || tok != "("))
                        return bad("plane");
                    for (int a = 0; a < 3; a++)
                        if (!num(f.p[p][a]))
                            return bad("plane");
                    in >> tok;
                }
                if (cv.kind == BP) {
                    in >> tok;
                    for (int r = 0; r < 2; r++) {
                        in >> tok;
                        for (int a = 0; a < 3; a++)
                            if (!num(f.bp[r * 3 + a]))
                                return bad("matrix");
                        in >> tok;
                    }
                    in >> tok >> f.tex;
                } else if (cv.kind == VALVE) {
                    in >> f.tex;
                    for (int r = 0; r < 2; r++) {
                        in >> tok;
                        for (int a = 0; a < 3; a++)
                            if (!num(f.num[5 + r * 3 + a]))
                                return bad("axes");
                        if (!num(f.num[r]))
                            return bad("shift");
                        in >> tok;
                    }
                    for (int a = 2; a < 5; a++)
                        if (!num(f.num[a]))
                            return bad("scale");
                } else {
                    in >> f.tex;
                    for (int a = 0; a < 5; a++)
                        if (!num(f.num[a]))
                            return bad("numbers");
                }
                std::string rest;
                getline(in, rest);
                bs.back().push_back(f);
            } else
                return bad("unexpected " + tok);
        }
        if (depth || ents != 2)
            return bad("structure");
        size_t want = kv.size();
        if (want != (wad ? 4u : 3u))
            return c.fail(key + " keys", "the converted file has " + std::to_string(want) + " entity keys");
        if (bs.size() != st.brush.size())
            return c.fail(key + " brushes", "the converted file has " + std::to_string(bs.size()) + " brushes");
        for (size_t b = 0; b < bs.size(); b++) {
            if (bs[b].size() != 7)
                return c.fail(key + " sides", "brush with " + std::to_string(bs[b].size()) + " sides");
            for (int k = 0; k < 7; k++) {
                auto &F = st.brush[b][k];
                // which side
                TF *g = nullptr;
                for (auto &x : bs[b]) {
                    V3 a = unit(normal_of(x)), e = unit(normal_of(F));
                    if (dot(a, e) > 0.99999 && fabs(dot(e, x.p[0] - F.p[0])) < 0.01)
                        g = &x;
                }
                if (!g)
                    return c.fail(key + " plane", "the side " + params(F) + " has no counterpart");
                if (g->tex != F.tex)
                    return c.fail(key + " name", "texture name changed from " + F.tex + " to " + g->tex);
                V3 v[2], w[2];
                double sh[2], th[2];
                int id = wad ? texid(F.tex) : -1, tw = id < 0 ? 64 : SIZE[id][0], tt = id < 0 ? 64 : SIZE[id][1];
                if (!defined(F, tw, tt, v, sh))
                    continue;
                // standard faces can only shear along the axis plane: judged if the source is one
                if (cv.kind == STD && kind != STD)
                    continue;
                if (!defined(*g, tw, tt, w, th))
                    return c.fail(key + " edge-on", "the converted side " + params(*g) + " is seen edge-on; source " + params(F));
                V3 n = unit(normal_of(F)), a, e;
                basis(normal_of(F), a, e);
                a = unit(a), e = unit(e);
                double mag = std::max(sqrt(dot(v[0], v[0])), sqrt(dot(v[1], v[1])));
                V3 cen = centre(b);
                cen = cen - n * dot(n, cen - F.p[0]);
                double base[2] = {0, 0};
                for (int q = 0; q < 3; q++) {
                    V3 p = cen + (q == 1 ? a * R : q == 2 ? e * R : V3{0, 0, 0});
                    UV x = at(v, sh, p), y = at(w, th, p);
                    double dd[2] = {y.s - x.s, y.t - x.t};
                    for (int r = 0; r < 2; r++) {
                        double sz = r ? tt : tw;
                        if (!q) // whole repetitions may be dropped
                            base[r] = cv.kind == STD && wad ? std::round(dd[r] / sz) * sz : 0;
                        if (!(fabs(dd[r] - base[r]) < 0.05 + 0.02 * mag))
                            return c.fail(key + " coordinates", std::string(r ? "t" : "s") + " at " + vs(p) + " becomes " + n2s(r ? y.t : y.s) + " instead of " + n2s(r ? x.t : x.s) + ":\n" + params(F) + "\n" + params(*g));
                    }
                }
                c.count("faces");
            }
        }
    };
    return s;
}
std::vector<Space> q09(Tier t)
{
    bool deep = t == Tier::thorough;
    auto pls = places();
    std::vector<Space> v;
    v.push_back(compiled("faces", deep ? 3 : 2, {pls[0]}, false));
    v.push_back(compiled("sizes", deep ? 2 : 1, {pls[0], pls[1]}, true));
    v.push_back(compiled("placed", deep ? 2 : 1, std::vector<Place>(pls.begin() + 1, pls.end()), false));
    v.push_back(converted("convert", deep ? 2 : 1, false));
    v.push_back(converted("convert-sizes", deep ? 2 : 1, true));
    return v;
}
} // namespace
int main(int argc, char **argv)
{
    return main_(argc, argv, {{"Q09", "exploration", "every plane orientation with components up to 2 (3) x every parameter set of each notation (standard, Valve 220, QuArK, brush primitives) x placements (world, brush entity, rotation origin, prefab with rotation and scale, global scale, games), and -convert between notations; every vertex of every face is compared with the definition of its notation, and every side's drawn area with the map's", {"texture sizes 64 where no texture is found, as documented by the notation's users"}, q09, 120, 1500}});
}
