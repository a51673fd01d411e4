// an independent reader and writer of .map text and the definition of its texture projections
#pragma once
#include "lexref.hh"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <string>
#include <vector>
struct V3
{
    double x = 0, y = 0, z = 0;
    double &operator[](int i) { return i == 0 ? x : i == 1 ? y : z; }
    double operator[](int i) const { return i == 0 ? x : i == 1 ? y : z; }
    bool operator==(const V3 &) const = default;
};
inline V3 operator+(V3 a, V3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
inline V3 operator-(V3 a, V3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline V3 operator*(V3 a, double s) { return {a.x * s, a.y * s, a.z * s}; }
inline double dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V3 cross(V3 a, V3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }

// ---------------------------------------------------------------- an independent reader of .map text
struct Face
{
    V3 p[3];
    std::string tex;
    int kind = 0; // 0 quaked, 1 valve, 2 TX1, 3 TX2
    double num[13] = {}; // shift x, y, rotate, scale x, y; valve: axis s (3) t (3)
    bool ext = false;
    long e[3] = {};
};
struct Brush
{
    std::vector<Face> f;
};
struct Ent
{
    std::vector<std::pair<std::string, std::string>> kv;
    std::vector<Brush> b;
};
struct Bad : std::exception
{
};
inline std::vector<Ent> read_map(const std::string &s)
{
    ref::Lexer l{s};
    std::vector<Ent> r;
    auto tok = [&](int fl = 0) {
        ref::Tok t = l.next(fl);
        if (t.kind != 1)
            throw Bad();
        return t;
    };
    auto num = [&](int fl) {
        std::string t = tok(fl).text;
        char *e;
        double v = strtod(t.c_str(), &e);
        if (e == t.c_str())
            throw Bad();
        return v;
    };
    for (;;) {
        ref::Tok t = l.next(0);
        if (t.kind == 0)
            return r;
        if (t.kind == 2 || t.text != "{")
            throw Bad();
        Ent e;
        for (;;) {
            t = tok();
            if (t.text == "}")
                break;
            if (t.text != "{") {
                std::string k = t.text;
                while (!k.empty() && strchr(" \t\n\r\v\f", k[0]))
                    k.erase(0, 1);
                while (!k.empty() && strchr(" \t\n\r\v\f", k.back()))
                    k.pop_back();
                std::string v = tok(PARSE_SAMELINE).text;
                bool found = false;
                for (auto &p : e.kv)
                    if (p.first == k)
                        p.second = v, found = true;
                if (!found)
                    e.kv.emplace_back(k, v);
                continue;
            }
            Brush b;
            for (;;) {
                t = tok();
                if (t.text == "}")
                    break;
                Face f;
                for (int i = 0; i < 3; i++) {
                    if (i)
                        t = tok();
                    if (t.text != "(")
                        throw Bad();
                    for (int j = 0; j < 3; j++)
                        f.p[i][j] = num(PARSE_SAMELINE);
                    if (tok(PARSE_SAMELINE).text != ")")
                        throw Bad();
                }
                f.tex = tok(PARSE_SAMELINE).text;
                ref::Lexer save = l;
                if (tok(PARSE_SAMELINE).text == "[") {
                    l = save;
                    f.kind = 1;
                    for (int i = 0; i < 2; i++) {
                        if (tok(PARSE_SAMELINE).text != "[")
                            throw Bad();
                        for (int j = 0; j < 3; j++)
                            f.num[5 + 3 * i + j] = num(PARSE_SAMELINE);
                        f.num[i] = num(PARSE_SAMELINE);
                        if (tok(PARSE_SAMELINE).text != "]")
                            throw Bad();
                    }
                    for (int j = 2; j < 5; j++)
                        f.num[j] = num(PARSE_SAMELINE);
                } else {
                    l = save;
                    for (int j = 0; j < 5; j++)
                        f.num[j] = num(PARSE_SAMELINE);
                }
                auto tx = [&] {
                    ref::Tok c = l.next(PARSE_COMMENT | PARSE_OPTIONAL);
                    if (c.kind == 1 && c.text.size() > 4 && c.text.compare(0, 4, "//TX") == 0 && (c.text[4] == '1' || c.text[4] == '2'))
                        f.kind = c.text[4] == '1' ? 2 : 3;
                };
                tx();
                if (f.kind < 2) {
                    for (int j = 0; j < 3; j++) {
                        ref::Tok x = l.next(PARSE_OPTIONAL);
                        if (x.kind != 1)
                            break;
                        f.ext = true;
                        f.e[j] = strtol(x.text.c_str(), nullptr, 10);
                    }
                    if (f.ext)
                        tx();
                }
                b.f.push_back(f);
            }
            if (!b.f.empty())
                e.b.push_back(b);
        }
        r.push_back(e);
    }
}
// ---------------------------------------------------------------- texture projection by definition
inline void axes(V3 n, V3 &xv, V3 &yv) // n: any multiple of the normal (integers: ties are exact)
{
    static const double t[6][9] = {{0, 0, 1, 1, 0, 0, 0, -1, 0}, {0, 0, -1, 1, 0, 0, 0, -1, 0}, {1, 0, 0, 0, 1, 0, 0, 0, -1}, {-1, 0, 0, 0, 1, 0, 0, 0, -1}, {0, 1, 0, 1, 0, 0, 0, 0, -1}, {0, -1, 0, 1, 0, 0, 0, 0, -1}};
    double best = 0;
    int w = 0;
    for (int i = 0; i < 6; i++) {
        double d = dot(n, {t[i][0], t[i][1], t[i][2]});
        if (d > best + 1e-9)
            best = d, w = i;
    }
    xv = {t[w][3], t[w][4], t[w][5]};
    yv = {t[w][6], t[w][7], t[w][8]};
}
inline V3 normal_of(const Face &f)
{
    return cross(f.p[0] - f.p[1], f.p[2] - f.p[1]);
}
struct UV
{
    double s, t;
};
inline void projection(const Face &f, V3 v[2], double sh[2])
{
    if (f.kind == 0) {
        V3 x, y;
        axes(normal_of(f), x, y);
        double a = f.num[2] / 180 * M_PI, c = cos(a), s = sin(a);
        int sv = x.x ? 0 : x.y ? 1 : 2, tv = y.x ? 0 : y.y ? 1 : 2;
        V3 w[2] = {x, y};
        for (int i = 0; i < 2; i++) {
            V3 o = w[i];
            o[sv] = c * w[i][sv] - s * w[i][tv];
            o[tv] = s * w[i][sv] + c * w[i][tv];
            v[i] = o * (1 / (f.num[3 + i] ? f.num[3 + i] : 1));
            sh[i] = f.num[i];
        }
    } else if (f.kind == 1) {
        for (int i = 0; i < 2; i++) {
            v[i] = V3{f.num[5 + 3 * i], f.num[6 + 3 * i], f.num[7 + 3 * i]} * (1 / f.num[3 + i]);
            sh[i] = f.num[i];
        }
    } else {
        // QuArK: the points themselves carry the projection; one edge of the triangle is 128 texels
        V3 a = f.kind == 2 ? f.p[2] - f.p[0] : f.p[1] - f.p[0], b = f.kind == 2 ? f.p[1] - f.p[0] : f.p[2] - f.p[0];
        // dual basis: da.a=128 da.b=0; db.b=-128 db.a=0
        double aa = dot(a, a), bb = dot(b, b), ab = dot(a, b), det = aa * bb - ab * ab;
        v[0] = (a * bb - b * ab) * (128 / det);
        v[1] = (b * aa - a * ab) * (-128 / det);
        sh[0] = -dot(v[0], f.p[0]);
        sh[1] = -dot(v[1], f.p[0]);
    }
}
inline UV at(const V3 v[2], const double sh[2], V3 p)
{
    return {dot(v[0], p) + sh[0], dot(v[1], p) + sh[1]};
}
// ---------------------------------------------------------------- text generation
inline std::string n2s(double v)
{
    char b[40];
    snprintf(b, 40, "%.17g", v);
    if (strtod(b, nullptr) == v) {
        for (int p = 1; p < 17; p++) {
            snprintf(b, 40, "%.*g", p, v);
            if (strtod(b, nullptr) == v)
                break;
        }
    }
    return b;
}
inline std::string face_text(const Face &f, int style = 0)
{
    std::string r;
    for (int i = 0; i < 3; i++)
        r += "( " + n2s(f.p[i].x) + " " + n2s(f.p[i].y) + " " + n2s(f.p[i].z) + " ) ";
    r += f.tex + " ";
    if (f.kind == 1)
        for (int i = 0; i < 2; i++)
            r += "[ " + n2s(f.num[5 + 3 * i]) + " " + n2s(f.num[6 + 3 * i]) + " " + n2s(f.num[7 + 3 * i]) + " " + n2s(f.num[i]) + " ] ";
    else
        r += n2s(f.num[0]) + " " + n2s(f.num[1]) + " ";
    r += n2s(f.num[2]) + " " + n2s(f.num[3]) + " " + n2s(f.num[4]);
    if (f.ext)
        r += " " + std::to_string(f.e[0]) + " " + std::to_string(f.e[1]) + " " + std::to_string(f.e[2]);
    if (f.kind >= 2)
        r += f.kind == 2 ? " //TX1" : " //TX2";
    return r + "\n";
}
inline std::string brush_text(const std::vector<Face> &fs)
{
    std::string r = "{\n";
    for (auto &f : fs)
        r += face_text(f);
    return r + "}\n";
}
inline std::string world(const std::string &brushes)
{
    return "{\n\"classname\" \"worldspawn\"\n" + brushes + "}\n";
}
inline std::string same_text(const std::vector<Ent> &a, const std::vector<Ent> &b)
{
    if (a.size() != b.size())
        return "number of entities";
    for (size_t i = 0; i < a.size(); i++) {
        if (a[i].kv != b[i].kv)
            return "entity keys";
        if (a[i].b.size() != b[i].b.size())
            return "number of brushes";
        for (size_t j = 0; j < a[i].b.size(); j++) {
            auto &x = a[i].b[j].f, &y = b[i].b[j].f;
            if (x.size() != y.size())
                return "number of faces";
            for (size_t k = 0; k < x.size(); k++) {
                for (int c = 0; c < 3; c++)
                    if (!(x[k].p[c] == y[k].p[c]))
                        return "plane points";
                if (x[k].tex != y[k].tex)
                    return "texture name";
                if (x[k].kind != y[k].kind)
                    return "notation";
                for (int c = 0; c < 11; c++)
                    if (x[k].num[c] != y[k].num[c])
                        return "texture numbers";
                if (x[k].ext != y[k].ext || memcmp(x[k].e, y[k].e, sizeof x[k].e))
                    return "surface flags";
            }
        }
    }
    return "";
}
