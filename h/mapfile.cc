// T03: .map files through load, convert and save (common/mapfile.cc)
#include <mc/explore.hh>
#include "lexref.hh"
#include <common/mapfile.hh>
#include <common/settings.hh>
#include <common/log.hh>
#include <cmath>
#include <sstream>
#include <optional>
using namespace mc;
#include "mapref.hh"
static std::optional<map_file_t> load(const std::string &s)
{
    std::unique_ptr<char[]> mem(new char[s.size()]);
    memcpy(mem.get(), s.data(), s.size());
    try {
        map_file_t m;
        parser_t p{std::string_view(mem.get(), s.size()), {"test.map"}};
        m.parse(p);
        return m;
    } catch (std::exception &) {
        return std::nullopt;
    }
}
static std::string save(map_file_t &m)
{
    std::ostringstream o;
    m.write(o);
    return o.str();
}
static settings::common_settings opts;
// a failed internal assertion ends the tool with a message and exit(1): a refusal
static bool exit_refuses = false;
extern "C" void __real_exit(int);
extern "C" void __wrap_exit(int rc)
{
    if (exit_refuses)
        throw Bad();
    __real_exit(rc);
}

static bool parallel(V3 a, V3 b) { return std::fabs(dot(cross(a, b), cross(a, b))) < 1e-18 * dot(a, a) * dot(b, b) + 1e-12; }
// the loaded map equals what the text says; says why not
static std::string same_content(const map_file_t &m, const std::vector<Ent> &w, bool uv = true)
{
    if (m.entities.size() != w.size())
        return "number of entities";
    for (size_t i = 0; i < w.size(); i++) {
        std::vector<std::pair<std::string, std::string>> kv(m.entities[i].epairs.begin(), m.entities[i].epairs.end());
        if (kv != w[i].kv)
            return "entity keys";
        if (m.entities[i].brushes.size() != w[i].b.size())
            return "number of brushes";
        for (size_t j = 0; j < w[i].b.size(); j++) {
            auto &bm = m.entities[i].brushes[j];
            auto &bw = w[i].b[j];
            if (bm.faces.size() != bw.f.size())
                return "number of faces";
            for (size_t k = 0; k < bw.f.size(); k++) {
                auto &f = bw.f[k];
                auto &g = bm.faces[k];
                for (int a = 0; a < 3; a++)
                    for (int c = 0; c < 3; c++)
                        if (g.planepts[a][c] != f.p[a][c])
                            return "plane points";
                V3 n = normal_of(f);
                n = n * (1 / sqrt(dot(n, n)));
                for (int c = 0; c < 3; c++)
                    if (fabs(g.plane.normal[c] - n[c]) > 1e-9)
                        return "plane normal";
                if (fabs(g.plane.dist - dot(n, f.p[0])) > 1e-6)
                    return "plane distance";
                if (g.texture != f.tex)
                    return "texture name";
                if (g.extended_info.has_value() != f.ext)
                    return "surface flags";
                if (f.ext && (g.extended_info->contents != f.e[0] || g.extended_info->flags.native != f.e[1] || g.extended_info->value != f.e[2]))
                    return "surface flags";
                if (!uv)
                    continue;
                V3 v[2];
                double sh[2];
                projection(f, v, sh);
                for (int a = 0; a < 3; a++) {
                    UV e = at(v, sh, f.p[a]);
                    double gs = g.vecs.at(0, 3), gt = g.vecs.at(1, 3);
                    for (int c = 0; c < 3; c++)
                        gs += g.vecs.at(0, c) * f.p[a][c], gt += g.vecs.at(1, c) * f.p[a][c];
                    if (!(fabs(gs - e.s) < 0.02 + 1e-5 * fabs(e.s)) || !(fabs(gt - e.t) < 0.02 + 1e-5 * fabs(e.t)))
                        return "texture projection";
                }
            }
        }
    }
    return "";
}
static void roundtrip(const std::string &text, Ctx &ctx, const char *key, bool uv = true)
{
    ctx.count("maps");
    ctx.nontrivial(hstr(text));
    std::vector<Ent> w = read_map(text);
    auto m = load(text);
    if (!m) {
        ctx.fail(key, "a well formed map is refused:\n" + text);
        return;
    }
    if (auto why = same_content(*m, w, uv); !why.empty()) {
        ctx.fail(key, why + " wrong after loading\n" + text);
        return;
    }
    std::string out = save(*m);
    std::vector<Ent> w2;
    try {
        w2 = read_map(out);
    } catch (std::exception &) {
        ctx.fail(key, "saved map is malformed: loaded\n" + text + "saved\n" + out);
        return;
    }
    if (auto why = same_text(w, w2); !why.empty()) {
        ctx.fail(key, why + " changed by load and save: loaded\n" + text + "saved\n" + out);
        return;
    }
    auto m2 = load(out);
    if (!m2 || !same_content(*m2, w, uv).empty() || save(*m2) != out)
        ctx.fail(key, "saved map does not load to the same map:\n" + out);
    ctx.outcome(hstr(out));
}
static void convert_case(const std::string &text, texcoord_style_t style, bool expressible, Ctx &ctx, const char *key, bool sized = false)
{
    // with the texture's size known, whole repetitions may be dropped
    constexpr int WIDTH = 32, HEIGHT = 128;
    static bool once = false;
    if (!once) {
        once = true;
        std::ofstream("wall.wal_json") << "{\"width\": " << WIDTH << ", \"height\": " << HEIGHT << "}";
    }
    if (!sized && style == texcoord_style_t::quaked)
        convert_case(text, style, expressible, ctx, key, true);
    ctx.count("conversions");
    std::vector<Ent> w = read_map(text);
    auto m = load(text);
    if (!m) {
        ctx.fail(key, "a well formed map is refused:\n" + text);
        return;
    }
    std::string out;
    try {
        m->convert_to(style, sized ? bspver_q1.game : nullptr, opts);
        out = save(*m);
    } catch (std::exception &e) {
        if (expressible)
            ctx.fail(key, std::string("conversion refused: ") + e.what() + "\n" + text);
        return;
    }
    std::vector<Ent> w2;
    try {
        w2 = read_map(out);
    } catch (std::exception &) {
        ctx.fail(key, "converted map is malformed:\n" + text + out);
        return;
    }
    int want = style == texcoord_style_t::quaked ? 0 : 1;
    if (w2.size() != w.size() || w2[0].kv != w[0].kv || w2[0].b.size() != w[0].b.size() || w2[0].b[0].f.size() != w[0].b[0].f.size()) {
        ctx.fail(key, "conversion loses entities, brushes or faces:\n" + text + out);
        return;
    }
    for (size_t k = 0; k < w[0].b[0].f.size(); k++) {
        Face &a = w[0].b[0].f[k], &b = w2[0].b[0].f[k];
        std::string why;
        for (int c = 0; c < 3; c++)
            if (!(a.p[c] == b.p[c]))
                why = "plane points";
        if (a.tex != b.tex)
            why = "texture name";
        if (b.kind != want)
            why = "notation";
        if (a.ext != b.ext || memcmp(a.e, b.e, sizeof a.e))
            why = "surface flags";
        if (expressible && why.empty()) {
            V3 v[2], u[2];
            double sh[2], sk[2];
            projection(a, v, sh);
            projection(b, u, sk);
            V3 more[4] = {a.p[0], a.p[1], a.p[2], a.p[1] + (a.p[1] - a.p[0]) * 2 + (a.p[2] - a.p[0]) * -3};
            double ds = 0, dt = 0;
            if (sized && a.tex == "wall") {
                UV x = at(v, sh, more[0]), y = at(u, sk, more[0]);
                ds = std::round((y.s - x.s) / WIDTH) * WIDTH;
                dt = std::round((y.t - x.t) / HEIGHT) * HEIGHT;
            }
            for (V3 p : more) {
                UV x = at(v, sh, p), y = at(u, sk, p);
                y.s -= ds;
                y.t -= dt;
                if (!(fabs(sk[0]) < 100000 && fabs(sk[1]) < 100000))
                    y.s = 1e30;
                if (!(fabs(x.s - y.s) < 0.1 && fabs(x.t - y.t) < 0.1)) {
                    char c[200];
                    snprintf(c, 200, "texture coordinate of (%g %g %g): %g %g became %g %g", p.x, p.y, p.z, x.s, x.t, y.s, y.t);
                    why = c;
                    break;
                }
            }
        }
        if (!why.empty()) {
            ctx.fail(key, "conversion to " + std::string(want ? "Valve 220" : "standard") + " changes the " + why + "\n" + face_text(a) + face_text(b));
            return;
        }
    }
    ctx.nontrivial(hstr(text, want));
    ctx.outcome(hstr(out));
}
// ---------------------------------------------------------------- the face lattice
static std::vector<V3> normals()
{
    std::vector<V3> r;
    for (int x = -2; x <= 2; x++)
        for (int y = -2; y <= 2; y++)
            for (int z = -2; z <= 2; z++) {
                int nz = !!x + !!y + !!z;
                if (!nz)
                    continue;
                int m = std::max({abs(x), abs(y), abs(z)});
                if (m == 2) {
                    int g = 0;
                    for (int v : {x, y, z})
                        if (v)
                            g = g ? std::__gcd(g, abs(v)) : abs(v);
                    if (g == 2)
                        continue;
                }
                r.push_back({(double)x, (double)y, (double)z});
            }
    return r;
}
// three lattice points of a plane with this normal, in map-file order; variant changes position and spacing
static void plane_points(V3 n, int variant, V3 p[3])
{
    V3 a = fabs(n.x) > fabs(n.z) ? V3{-n.y, n.x, 0} : V3{0, -n.z, n.y};
    V3 b = cross(n, a);
    static const V3 base[3] = {{0, 0, 0}, {64, -32, 16}, {-8, 24, 40}};
    static const double s1[3] = {16, 8, 4}, s2[3] = {16, 4, -8};
    V3 o = base[variant % 3];
    V3 q1 = o + a * s1[variant % 3], q2 = o + b * s2[variant % 3];
    if (variant == 1)
        q1 = q1 + b; // not perpendicular
    // orientation: normal = cross(p0-p1, p2-p1)
    p[0] = q1;
    p[1] = o;
    p[2] = q2;
    if (dot(cross(p[0] - p[1], p[2] - p[1]), n) < 0)
        std::swap(p[0], p[2]);
}
static const double rots[] = {0, 90, 30, -45, 180, 135, 1.5}, scales[] = {1, -1, 0.5, 2, -0.25}, shifts[][2] = {{0, 0}, {16, -7.5}, {-100.25, 1000}};
static std::vector<Space> t03(Tier t)
{
    bool T = t == Tier::thorough;
    std::vector<Space> r;
    static std::vector<V3> N = normals();
    int NR = T ? 7 : 6, NS = 5;
    {
        Space s;
        s.name = "standard-faces";
        s.size = N.size() * 3;
        s.chunk = 4;
        s.run = [=](uint64_t i, Ctx &ctx) {
            V3 n = N[i / 3];
            for (int ro = 0; ro < NR; ro++)
                for (int sx = 0; sx <= NS; sx++)
                    for (int sy = 0; sy <= NS; sy++)
                        for (auto &sf : shifts) {
                            Face f;
                            plane_points(n, i % 3, f.p);
                            f.tex = "wall";
                            f.num[0] = sf[0];
                            f.num[1] = sf[1];
                            f.num[2] = rots[ro];
                            f.num[3] = sx < NS ? scales[sx] : 0;
                            f.num[4] = sy < NS ? scales[sy] : 0;
                            std::string x = world(brush_text({f}));
                            roundtrip(x, ctx, "standard-faces");
                            convert_case(x, texcoord_style_t::valve_220, true, ctx, "standard-to-valve");
                            convert_case(x, texcoord_style_t::quaked, true, ctx, "standard-to-standard");
                            // the same projection as Valve 220, and back to standard
                            Face g = f;
                            V3 v[2];
                            double sh[2];
                            projection(f, v, sh);
                            g.kind = 1;
                            for (int k = 0; k < 2; k++) {
                                double sc = f.num[3 + k] ? f.num[3 + k] : 1;
                                V3 ax = v[k] * sc;
                                for (int c = 0; c < 3; c++)
                                    g.num[5 + 3 * k + c] = ax[c];
                                g.num[3 + k] = sc;
                            }
                            std::string y = world(brush_text({g}));
                            roundtrip(y, ctx, "valve-faces");
                            convert_case(y, texcoord_style_t::quaked, true, ctx, "valve-to-standard");
                            convert_case(y, texcoord_style_t::valve_220, true, ctx, "valve-to-valve");
                        }
            ctx.sample(face_text([&] { Face f; plane_points(n, i % 3, f.p); f.tex = "wall"; return f; }()));
        };
        r.push_back(s);
    }
    {
        // Valve 220 axes of any direction: kept as they are; conversion keeps planes and names even where the target cannot express the projection
        Space s;
        s.name = "valve-axes";
        s.size = N.size() * N.size();
        s.chunk = 64;
        s.run = [=](uint64_t i, Ctx &ctx) {
            V3 n = N[i / N.size()], ax = N[i % N.size()];
            for (size_t j = 0; j < N.size(); j += T ? 1 : 7) {
                V3 ay = N[j];
                // a projection that maps the face plane onto a line is repaired on loading
                V3 tn = cross(ax, ay);
                bool ok = fabs(dot(tn, n)) > 1e-6;
                Face f;
                plane_points(n, j % 3, f.p);
                f.tex = "{grate";
                f.kind = 1;
                double q[11] = {16, -8, 30, 0.5, -2, ax.x, ax.y, ax.z, ay.x, ay.y, ay.z};
                memcpy(f.num, q, sizeof q);
                f.ext = j & 1;
                f.e[0] = 1;
                f.e[1] = 2;
                f.e[2] = 300;
                std::string x = world(brush_text({f}));
                roundtrip(x, ctx, "valve-axes", ok);
                if (ok) {
                    convert_case(x, texcoord_style_t::valve_220, true, ctx, "valve-axes");
                    convert_case(x, texcoord_style_t::quaked, false, ctx, "valve-axes-to-standard");
                }
            }
        };
        r.push_back(s);
    }
    {
        // QuArK faces
        Space s;
        s.name = "quark-faces";
        s.size = N.size() * 3;
        s.chunk = 16;
        s.run = [=](uint64_t i, Ctx &ctx) {
            V3 n = N[i / 3];
            for (int k = 2; k < 4; k++)
                for (int e = 0; e < 2; e++)
                    for (int sc = 1; sc <= 5; sc++) {
                        Face f;
                        plane_points(n, i % 3, f.p);
                        for (auto &p : f.p)
                            p = p * sc;
                        {
                            // tiny triangles are announced as degenerate and get default texturing
                            V3 a = (f.p[1] - f.p[0]) * (1 / 128.0), b = (f.p[2] - f.p[0]) * (1 / 128.0);
                            if (dot(a, a) * dot(b, b) - dot(a, b) * dot(a, b) < 0.0002)
                                continue;
                        }
                        f.tex = "wall";
                        f.kind = k;
                        double q[5] = {0, 0, 0, 1, 1};
                        memcpy(f.num, q, sizeof q);
                        f.ext = e;
                        f.e[0] = 134217728;
                        std::string x = world(brush_text({f}));
                        roundtrip(x, ctx, "quark-faces");
                        convert_case(x, texcoord_style_t::valve_220, true, ctx, "quark-to-valve");
                        convert_case(x, texcoord_style_t::quaked, false, ctx, "quark-to-standard");
                    }
        };
        r.push_back(s);
    }
    {
        // structure: entities, brushes, keys, flags, comments, odd texture names, every order
        static const std::vector<std::string> names = {"wall", "{grate", "*water", "+0button", "e1u1/floor_1", "sky!", "a;b", "a//b", "1x", "#", "\"two words\"", "\"\""};
        static const std::vector<std::string> tails = {"", " 1", " 1 2", " 1 2 3", " -1 0 -5", " 0 0 0", " 2147483647 -2147483648 7", " 1 2 3 // note", " // note", " 0 0 0 //TX1", " //TX2"};
        Space s;
        s.name = "surface-info";
        s.size = names.size() * tails.size() * 2;
        s.chunk = 32;
        s.run = [=](uint64_t i, Ctx &ctx) {
            Digits d(i);
            int valve = d(2);
            std::string nm = names[d(names.size())], tl = tails[d(tails.size())];
            if (valve && tl.find("TX") != std::string::npos)
                return;
            std::string x = "( 0 0 64 ) ( 0 64 64 ) ( 64 0 64 ) " + nm + (valve ? " [ 1 0 0 4 ] [ 0 -1 0 5 ] 0 1 1" : " 4 5 0 1 1") + tl + "\n";
            roundtrip(world("{\n" + x + "}\n"), ctx, "surface-info");
        };
        r.push_back(s);
        static const std::string faces[] = {"( 0 0 64 ) ( 0 64 64 ) ( 64 0 64 ) a 0 0 0 1 1\n", "( 0 0 -64 ) ( 64 0 -64 ) ( 0 64 -64 ) b [ 1 0 0 0 ] [ 0 -1 0 0 ] 0 1 1\n", "( 0.125 -64 0 ) ( 64 -64 0 ) ( 0 -64 64.5 ) c 1.25 -2 45 0.333333 3 4 5 6\n"};
        static const std::string parts[] = {"\"a\" \"b\"\n", "\"a\" \"c d\"\n", "\" k \" \"\"\n", "\"x\\n\" \"y\\\\\"\n", "{\n" + faces[0] + "}\n", "{\n" + faces[1] + faces[2] + "}\n", "// comment\n", "}\n{\n", "{\n" + faces[2] + "// in\n" + faces[0] + faces[1] + "}\n", "{\n}\n", "\"\" \"empty\"\n"};
        Space u;
        u.name = "structure";
        int L = T ? 5 : 4;
        u.size = 11 * 11 * 11;
        u.chunk = 32;
        u.run = [=](uint64_t i, Ctx &ctx) {
            uint64_t rest = 1;
            for (int k = 3; k < L; k++)
                rest *= 11;
            for (uint64_t j = 0; j < rest; j++) {
                std::string x = "{\n";
                uint64_t v = i + j * 1331;
                for (int k = 0; k < L; k++, v /= 11)
                    x += parts[v % 11];
                x += "}\n";
                roundtrip(x, ctx, "structure");
            }
        };
        r.push_back(u);
    }
    {
        // damaged text: every truncation, every token dropped or replaced, is refused or loaded, never worse
        static std::vector<std::string> src = {
            world("{\n( 0 0 64 ) ( 0 64 64 ) ( 64 0 64 ) a 0 0 0 1 1\n( 0 0 -64 ) ( 64 0 -64 ) ( 0 64 -64 ) b [ 1 0 0 0 ] [ 0 -1 0 0 ] 0 1 1 4 5 6\n}\n"),
            world("{\nbrushDef\n{\n( 0 0 64 ) ( 0 64 64 ) ( 64 0 64 ) ( ( 0.1 0 0 ) ( 0 0.1 0 ) ) a 0 0 0\n}\n}\n"),
            world("{\n( 0 0 64 ) ( 0 64 64 ) ( 64 0 64 ) a 0 0 0 1 1 //TX1\n}\n") + "{\n\"classname\" \"light\"\n\"origin\" \"0 0 0\"\n}\n"};
        static std::vector<std::vector<std::string>> toks;
        if (toks.empty())
            for (auto &x : src) {
                ref::Lexer l{x};
                std::vector<std::string> v;
                size_t from = 0;
                for (;;) {
                    auto q = l.next(0);
                    if (q.kind != 1)
                        break;
                    v.push_back(x.substr(from, l.p - from));
                    from = l.p;
                }
                v.push_back(x.substr(from));
                toks.push_back(v);
            }
        Space s;
        s.name = "damage";
        s.size = src.size() * 512;
        s.chunk = 64;
        s.run = [=](uint64_t i, Ctx &ctx) {
            int w = i / 512;
            size_t k = i % 512;
            std::vector<std::string> xs;
            if (k < src[w].size())
                xs.push_back(src[w].substr(0, k));
            if (k < toks[w].size())
                for (const char *rep : {"", " {", " }", " (", " )", " [", " ]", " x", " \"", " 1e999", " nan", "\n", " //", " \"\"", " 99999999999"}) {
                    std::string x;
                    for (size_t q = 0; q < toks[w].size(); q++)
                        x += q == k ? rep : toks[w][q];
                    xs.push_back(x);
                }
            for (auto &x : xs) {
                ctx.count("damaged maps");
                exit_refuses = true;
                ctx.nontrivial(hstr(x));
                auto m = load(x);
                if (m) {
                    try {
                        std::string o = save(*m);
                        auto m2 = load(o);
                        ctx.outcome(hstr(o));
                        for (auto st : {texcoord_style_t::quaked, texcoord_style_t::valve_220}) {
                            auto m3 = *m;
                            m3.convert_to(st, nullptr, opts);
                            save(m3);
                        }
                    } catch (std::exception &) {
                    }
                }
                exit_refuses = false;
            }
        };
        r.push_back(s);
    }
    return r;
}
int main(int argc, char **argv)
{
    logging::mask = logging::flag::NONE;
    return main_(argc, argv, {{"T03", "exploration", "the saved text, read by an independent reader, has the same entities, plane points, names, flags and (by the notations' definitions) texture coordinates", {"brush primitives are refused by this library and covered by Q09 through qbsp"}, t03}});
}
