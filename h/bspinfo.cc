// U04: what bspinfo reports about a file.  The whole tool runs; its JSON report,
// its .obj/.png preview and its text output are compared with the bytes of the file.
#include <common/cmdlib.hh>
#include <common/log.hh>
#define main bspinfo_main
#define exit_on_exception(e) throw
#include "../bspinfo/main.cc"
#undef main
#undef exit_on_exception
#include "bspspec.hh"
#define STB_IMAGE_STATIC
#define STB_IMAGE_IMPLEMENTATION
#define STBI_ONLY_PNG
#include "../3rdparty/stb_image.h"
#include <algorithm>
#include <fcntl.h>
#include <unistd.h>
#include <csignal>
#include <sys/wait.h>
using namespace bs;
using namespace mc;
namespace
{
struct Digits
{
    uint64_t v;
    int operator()(int n)
    {
        int r = v % n;
        v /= n;
        return r;
    }
};
struct F
{
    int w, h; // luxels
    std::array<int, 4> styles{0, 255, 255, 255};
    bool lit = true;
    int axis = 2; // plane normal
    int texinfo = 0;
};
struct World
{
    std::vector<F> faces;
    bool decoupled = false;
    int n = 2; // elements of the other lumps
    int scale = 16;
    bool light = true;
};
uint8_t lux(int face, int layer, int x, int y, int c) { return (uint8_t)(face * 61 + layer * 97 + x * 7 + y * 29 + c * 83 + 3); }
bool rgb(const Format &f) { return f.q2 || f.family == "hl"; }
// the raw file of a world; lightofs of each face in `ofs`
Raw raw_of(const Format &f, const World &w, std::vector<int> &ofs)
{
    Raw r = base_raw(f, w.n, 1);
    auto L = [&](const char *n) -> std::string & { return r.lumps[f.lumpnum.at(n)]; };
    auto setf = [&](const char *lump, size_t e, const char *field, int idx, Val v) {
        auto *s = find_struct(f, lump);
        auto &b = r.lumps[s->lumpnum];
        if (b.size() < (e + 1) * s->size)
            b.resize((e + 1) * s->size);
        for (auto &c : s->comps)
            if (c.field == field && c.index == idx)
                put(b, e * s->size + c.ofs, c.type, v);
    };
    size_t nf = w.faces.size();
    for (const char *l : {"planes", "vertexes", "edges", "surfedges", "faces"})
        L(l).clear();
    for (int a = 0; a < 3; a++) {
        for (int i = 0; i < 3; i++)
            setf("planes", a, "normal", i, i == a);
        setf("planes", a, "dist", 0, 10 * a);
        setf("planes", a, "type", 0, a);
    }
    for (int e = 0; e < w.n; e++)
        setf("nodes", e, "planenum", 0, e % 3);
    // texinfo 0..2: projections along each axis; then copies
    for (int e = 0; e < std::max(3, w.n); e++) {
        int a = e % 3;
        for (int i = 0; i < 8; i++)
            setf("texinfo", e, "vecs", i, 0);
        setf("texinfo", e, "vecs", (a + 1) % 3, 1);
        setf("texinfo", e, "vecs", 4 + (a + 2) % 3, -1);
        setf("texinfo", e, "miptex", 0, e % 2);
        setf("texinfo", e, "next", 0, -1);
        setf("texinfo", e, "value", 0, 40 + e);
        setf("texinfo", e, "flags", 0, e % 2);
        for (int i = 0; i < 31; i++)
            setf("texinfo", e, "texture", i, i < 4 ? "abcd"[(i + e) % 4] : 0);
    }
    setf("edges", 0, "v", 0, 0);
    setf("edges", 0, "v", 1, 0);
    ofs.clear();
    std::string light, dec;
    int at = 0;
    for (size_t k = 0; k < nf; k++) {
        auto &F = w.faces[k];
        int a = F.axis, u = (a + 1) % 3, v = (a + 2) % 3;
        // corner in world: u from u0 to u0+W, v from -v0 to -(v0+H)   (t = -v)
        int u0 = 16 * (int)(k * 3), v0 = 16 * (int)(k * 5);
        int W = (F.w - 1) * w.scale, H = (F.h - 1) * w.scale;
        int cu[4] = {u0, u0 + W, u0 + W, u0}, cv[4] = {-v0, -v0, -v0 - H, -v0 - H};
        for (int i = 0; i < 4; i++) {
            setf("vertexes", 4 * k + i, "pos", a, 10 * a);
            setf("vertexes", 4 * k + i, "pos", u, cu[i]);
            setf("vertexes", 4 * k + i, "pos", v, cv[i]);
        }
        for (int i = 0; i < 4; i++) {
            bool flip = (i + k) % 2;
            setf("edges", 1 + 4 * k + i, "v", flip ? 1 : 0, 4 * k + i);
            setf("edges", 1 + 4 * k + i, "v", flip ? 0 : 1, 4 * k + (i + 1) % 4);
            setf("surfedges", 4 * k + i, "v", 0, flip ? -(int)(1 + 4 * k + i) : (int)(1 + 4 * k + i));
        }
        setf("faces", k, "planenum", 0, a);
        setf("faces", k, "side", 0, k % 2);
        setf("faces", k, "firstedge", 0, 4 * k);
        setf("faces", k, "numedges", 0, 4);
        setf("faces", k, "texinfo", 0, a);
        for (int i = 0; i < 4; i++)
            setf("faces", k, "styles", i, F.styles[i]);
        int o = -1;
        if (F.lit && w.light) {
            o = at;
            int layers = 0;
            for (int s : F.styles)
                if (s != 255)
                    layers++;
            for (int l = 0; l < layers; l++)
                for (int y = 0; y < F.h; y++)
                    for (int x = 0; x < F.w; x++)
                        for (int c = 0; c < (rgb(f) ? 3 : 1); c++)
                            light += (char)lux(k, l, x, y, c);
            at = light.size();
        }
        ofs.push_back(o);
        setf("faces", k, "lightofs", 0, w.decoupled ? -1 : o);
        // decoupled entry
        std::string d(40, 0);
        uint16_t lw = F.lit ? F.w : 0, lh = F.lit ? F.h : 0;
        memcpy(&d[0], &lw, 2);
        memcpy(&d[2], &lh, 2);
        put32(d, 4, o);
        float m[8] = {};
        m[u] = 1.f / w.scale, m[3] = -(float)u0 / w.scale;
        m[4 + v] = -1.f / w.scale, m[7] = -(float)v0 / w.scale;
        memcpy(&d[8], m, 32);
        dec += d;
    }
    L("lighting") = w.light ? light : "";
    if (!f.q2) {
        // whole textures
        Miptex t[2] = {miptex("first", 16, 16), miptex("second", 64, 32)};
        for (int q = 0; q < 2; q++) {
            int at = 40;
            for (int l = 0; l < 4; l++) {
                put32(t[q].data, 24 + 4 * l, at);
                at += q ? (64 >> l) * (32 >> l) : (16 >> l) * (16 >> l);
            }
            t[q].data.resize(at, (char)(7 + q));
            if (f.family == "hl") {
                t[q].data += std::string("\0\1", 2);
                t[q].data.resize(at + 2 + 768 + 2, (char)9);
            }
        }
        L("textures") = miptex_lump({t[0], t[1]});
    }
    if (w.decoupled)
        r.bspx.push_back({"DECOUPLED_LM", dec});
    return r;
}
struct Run
{
    json j;
    bool ok = false;
    std::string out, why;
};
void clean()
{
    std::error_code ec;
    for (auto &e : std::filesystem::directory_iterator(".", ec))
        if (e.path().filename().string().rfind("m.", 0) == 0)
            std::filesystem::remove(e.path(), ec);
}
std::string quote(const std::string &s)
{
    std::string r;
    for (unsigned char c : s)
        r += c >= 32 && c < 127 ? std::string(1, c) : "\\x" + std::to_string((int)c);
    return r;
}
Run run(const std::string &file)
{
    clean();
    Run r;
    spit("m.bsp", file);
    fflush(stdout);
    std::cout.flush();
    int keep = dup(1), fd = open("m.out", O_CREAT | O_TRUNC | O_WRONLY, 0644);
    dup2(fd, 1);
    close(fd);
    fs::clear();
    logging::mask = logging::flag::ALL;
    try {
        char a0[] = "bspinfo", a1[] = "m.bsp", *av[] = {a0, a1, nullptr};
        int rc = bspinfo_main(2, av);
        if (rc)
            r.why = "ends with " + std::to_string(rc);
    } catch (const std::exception &e) {
        r.why = std::string("fails: ") + e.what();
    }
    fflush(stdout);
    std::cout.flush();
    logging::mask = logging::flag::NONE;
    dup2(keep, 1);
    close(keep);
    r.out = slurp("m.out");
    if (!r.why.empty())
        return r;
    if (slurp("m.bsp") != file) {
        r.why = "changes the file it reports on";
        return r;
    }
    try {
        r.j = json::parse(slurp("m.bsp.json"));
        r.ok = true;
    } catch (const std::exception &e) {
        r.why = std::string("writes a report that is not JSON: ") + e.what();
    }
    return r;
}
std::string hexs(const std::string &b)
{
    std::string r;
    char t[3];
    for (unsigned char c : b) {
        snprintf(t, 3, "%02x", c);
        r += t;
    }
    return r;
}
std::string show(const json &j)
{
    std::string s = j.dump();
    return s.size() > 120 ? s.substr(0, 120) + "..." : s;
}
// name of the report's array and field for a lump field
const std::map<std::string, std::string> ARR = {{"models", "models"}, {"leafs", "leafs"}, {"planes", "planes"}, {"vertexes", "vertexes"}, {"nodes", "nodes"}, {"texinfo", "texinfo"}, {"faces", "faces"},
    {"clipnodes", "clipnodes"}, {"edges", "edges"}, {"marksurfaces", "leaffaces"}, {"surfedges", "surfedges"}, {"brushsides", "brushsides"}, {"brushes", "brushes"}, {"leafbrushes", "leafbrushes"}};
const std::map<std::string, std::string> FLD = {{"firstmark", "firstmarksurface"}, {"nummark", "nummarksurfaces"}, {"ambient", "ambient_level"}, {"firstbrush", "firstleafbrush"}, {"numbrush", "numleafbrushes"}, {"next", "nexttexinfo"}};

std::string check_structs(const Format &f, const Raw &raw, const json &j, Ctx &ctx)
{
    for (auto &s : f.structs) {
        auto a = ARR.find(s.lump);
        if (a == ARR.end())
            continue;
        size_t n = raw.lumps[s.lumpnum].size() / s.size;
        if (!n) {
            if (j.contains(a->second) && !j[a->second].empty())
                return "lists " + a->second + " of an empty lump";
            continue;
        }
        if (!j.contains(a->second))
            return "does not list the " + a->second;
        auto &arr = j[a->second];
        if (arr.size() != n)
            return "lists " + std::to_string(arr.size()) + " of " + std::to_string(n) + " " + a->second;
        std::map<std::string, int> comps;
        for (auto &c : s.comps)
            comps[c.field]++;
        for (size_t e = 0; e < n; e++) {
            std::string tex;
            for (auto &c : s.comps) {
                Val w = get(raw.lumps[s.lumpnum], e * s.size + c.ofs, c.type);
                if (s.lump == "clipnodes" && c.field == "children" && c.type == 'h') {
                    w = (double)(uint16_t)(int16_t)w;
                    if (w > 65520)
                        w -= 65536;
                }
                if (c.field == "texture") {
                    tex += (char)(uint8_t)w;
                    if (c.index == 31) {
                        tex = tex.substr(0, tex.find('\0'));
                        bool ascii = std::all_of(tex.begin(), tex.end(), [](char ch) { return (signed char)ch > 0; });
                        auto got = arr[e]["texture"].get<std::string>();
                        if (ascii ? got != tex : got.empty())
                            return "texture of texinfo[" + std::to_string(e) + "] is \"" + quote(got) + "\", the file has \"" + quote(tex) + "\"";
                    }
                    continue;
                }
                json v = arr[e];
                try {
                    if (c.field == "pos" || c.field == "v") {
                        if (comps[c.field] > 1)
                            v = v.at(c.index);
                    } else if (c.field == "vecs")
                        v = v.at("vecs").at(c.index / 4).at(c.index % 4);
                    else {
                        auto it = FLD.find(c.field);
                        v = v.at(it == FLD.end() ? c.field : it->second);
                        if (c.field == "headnode" && v.is_array())
                            v = v.at(c.index);
                        else if (comps[c.field] > 1)
                            v = v.at(c.index);
                    }
                } catch (const std::exception &ex) {
                    return a->second + "[" + std::to_string(e) + "] has no " + c.field + ": " + show(arr[e]);
                }
                ctx.count("values compared");
                if (!v.is_number() || v.get<double>() != w)
                    return a->second + "[" + std::to_string(e) + "]." + c.field + "[" + std::to_string(c.index) + "] is " + show(v) + ", the file has " + std::to_string(w);
            }
            // derived values
            auto val = [&](const char *lump, size_t el, const char *fld, int ix) {
                auto *t = find_struct(f, lump);
                for (auto &c : t->comps)
                    if (c.field == fld && c.index == ix)
                        return get(raw.lumps[t->lumpnum], el * t->size + c.ofs, c.type);
                return Val(0);
            };
            if (s.lump == "nodes") {
                size_t p = (size_t)val("nodes", e, "planenum", 0);
                for (int i = 0; i < 4; i++) {
                    Val w = i < 3 ? val("planes", p, "normal", i) : val("planes", p, "dist", 0);
                    if (arr[e]["plane"].at(i).get<double>() != w)
                        return "plane of nodes[" + std::to_string(e) + "] is " + show(arr[e]["plane"]);
                }
            }
            if (s.lump == "faces") {
                size_t ne = (size_t)val("faces", e, "numedges", 0);
                auto &vs = arr[e]["vertices"];
                if (vs.size() != ne)
                    return "faces[" + std::to_string(e) + "] has " + std::to_string(vs.size()) + " vertices";
                for (size_t i = 0; i < ne; i++) {
                    int se = (int)val("surfedges", (size_t)val("faces", e, "firstedge", 0) + i, "v", 0);
                    size_t vn = (size_t)(se < 0 ? val("edges", -se, "v", 1) : val("edges", se, "v", 0));
                    for (int c = 0; c < 3; c++)
                        if (vs[i].at(c).get<double>() != val("vertexes", vn, "pos", c))
                            return "vertex " + std::to_string(i) + " of faces[" + std::to_string(e) + "] is " + show(vs[i]);
                }
            }
        }
    }
    return "";
}
std::string check_blobs(const Format &f, const Raw &raw, const json &j)
{
    auto L = [&](const char *n) -> const std::string & { return raw.lumps[f.lumpnum.at(n)]; };
    // light
    std::string want = hexs(L("lighting")), got = j.value("lightdata", "");
    if (got != want)
        return "lightdata is " + got.substr(0, 60) + " instead of " + want.substr(0, 60);
    // vis
    if (!f.q2) {
        got = j.contains("visdata") ? j["visdata"].get<std::string>() : "";
        if (got != hexs(L("visibility")))
            return "visdata is " + got.substr(0, 60) + " instead of " + hexs(L("visibility")).substr(0, 60);
    } else if (L("visibility").size() > 4) {
        auto &v = L("visibility");
        uint32_t n = get32(v, 0);
        if (n && v.size() > 4 + 8 * n) {
            if (!j.contains("visdata"))
                return "has no visdata";
            auto &jv = j["visdata"];
            for (int k = 0; k < 2; k++) {
                const char *nm = k ? "phs" : "pvs";
                if (!jv.contains(nm))
                    return std::string("visdata has no ") + nm + " offsets";
                if (jv[nm].size() != n)
                    return std::string("visdata lists ") + std::to_string(jv[nm].size()) + " " + nm + " offsets of " + std::to_string(n) + " clusters";
                for (uint32_t i = 0; i < n; i++) {
                    // stored relative to the start of the lump or of the bits
                    int64_t o = (int32_t)get32(v, 4 + 8 * i + 4 * k), g = jv[nm][i].get<int64_t>();
                    if (g != o && g != o - (int64_t)(4 + 8 * n))
                        return std::string(nm) + " offset of cluster " + std::to_string(i) + " is " + std::to_string(g) + ", the file has " + std::to_string(o);
                }
            }
            if (jv["bits"].get<std::string>() != hexs(v.substr(4 + 8 * n)))
                return "vis bits are " + jv["bits"].get<std::string>().substr(0, 60);
        }
    }
    // entities
    {
        std::string e = L("entities");
        while (!e.empty() && !e.back())
            e.pop_back();
        std::string g = j.contains("entdata") ? j["entdata"].get<std::string>() : "";
        while (!g.empty() && !g.back())
            g.pop_back();
        bool ascii = std::all_of(e.begin(), e.end(), [](char c) { return (signed char)c >= 0; });
        if (ascii) {
            if (g != e)
                return "entdata is \"" + quote(g) + "\", the file has \"" + quote(e) + "\"";
        } else {
            // bytes that are not text by themselves may be shown as something else, the rest may not
            std::string a, b;
            for (char c : e)
                if ((signed char)c >= 0)
                    a += c;
            for (char c : g)
                if ((signed char)c >= 0)
                    b += c;
            if (a != b)
                return "the plain part of entdata is \"" + quote(b) + "\", the file has \"" + quote(a) + "\"";
        }
    }
    return "";
}
std::vector<uint8_t> b64(const std::string &s, std::string &bad)
{
    std::vector<uint8_t> r;
    auto val = [](char c) { return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1; };
    if (s.size() % 4)
        bad = "base64 text has " + std::to_string(s.size()) + " characters";
    for (size_t i = 0; i + 3 < s.size(); i += 4) {
        uint32_t v = 0;
        int n = 3;
        for (int k = 0; k < 4; k++) {
            int x = val(s[i + k]);
            if (s[i + k] == '=' && i + 4 == s.size() && k >= 2) {
                n = std::min(n, k - 1);
                x = 0;
            } else if (x < 0)
                bad = "base64 text has a foreign character";
            v = v << 6 | (x & 63);
        }
        for (int k = 0; k < n; k++)
            r.push_back(v >> (16 - 8 * k));
    }
    return r;
}
// a whole PNG file: every chunk with its check sum, the end chunk last, nothing after it
bool png_ok(const std::vector<uint8_t> &b)
{
    static const uint8_t sig[8] = {0x89, 'P', 'N', 'G', 13, 10, 26, 10};
    if (b.size() < 8 || memcmp(b.data(), sig, 8))
        return false;
    auto be = [&](size_t p) { return (uint32_t)b[p] << 24 | b[p + 1] << 16 | b[p + 2] << 8 | b[p + 3]; };
    for (size_t p = 8; p + 12 <= b.size();) {
        uint32_t len = be(p), crc = ~0u;
        if (len > b.size() - p - 12)
            return false;
        for (size_t k = p + 4; k < p + 8 + len; k++) {
            crc ^= b[k];
            for (int i = 0; i < 8; i++)
                crc = crc >> 1 ^ (crc & 1 ? 0xedb88320u : 0);
        }
        if (~crc != be(p + 8 + len))
            return false;
        bool end = !memcmp(&b[p + 4], "IEND", 4);
        p += 12 + len;
        if (end)
            return p == b.size();
    }
    return false;
}
// the .obj and .png preview
std::string check_preview(const Format &f, const World &w, const std::vector<int> &ofs, const Raw &raw, Ctx &ctx)
{
    if (w.faces.empty())
        return "";
    std::ifstream o("m.bsp.geometry.obj");
    if (!o)
        return "no .obj is written";
    struct V
    {
        double p[3], n[3], t[2];
    };
    std::vector<V> vs;
    std::vector<std::vector<int>> fcs;
    std::string line;
    size_t nv = 0, nn = 0, nt = 0;
    while (std::getline(o, line)) {
        std::istringstream in(line);
        std::string k;
        in >> k;
        auto at = [&](size_t i) -> V & {
            if (vs.size() <= i)
                vs.resize(i + 1);
            return vs[i];
        };
        if (k == "v") {
            auto &v = at(nv++);
            in >> v.p[0] >> v.p[1] >> v.p[2];
        } else if (k == "vn") {
            auto &v = at(nn++);
            in >> v.n[0] >> v.n[1] >> v.n[2];
        } else if (k == "vt") {
            auto &v = at(nt++);
            in >> v.t[0] >> v.t[1];
        } else if (k == "f") {
            std::vector<int> ix;
            std::string tok;
            while (in >> tok) {
                int a, b, c;
                if (sscanf(tok.c_str(), "%d/%d/%d", &a, &b, &c) != 3 || a != b || b != c)
                    return "face corner \"" + tok + "\" in the .obj";
                ix.push_back(a - 1);
            }
            fcs.push_back(ix);
        }
    }
    if (fcs.size() != w.faces.size())
        return "the .obj has " + std::to_string(fcs.size()) + " faces of " + std::to_string(w.faces.size());
    // pictures
    std::map<int, std::tuple<int, int, std::vector<uint8_t>>> pics;
    for (auto &e : std::filesystem::directory_iterator(".")) {
        auto n = e.path().filename().string();
        int st;
        if (sscanf(n.c_str(), "m.bsp.lm_%d.png", &st) == 1) {
            int pw, ph, pc;
            auto s = slurp(n);
            auto *px = stbi_load_from_memory((const uint8_t *)s.data(), s.size(), &pw, &ph, &pc, 4);
            if (!px)
                return n + " is not a PNG";
            pics[st] = {pw, ph, std::vector<uint8_t>(px, px + (size_t)pw * ph * 4)};
            stbi_image_free(px);
        }
    }
    std::set<int> want;
    for (size_t k = 0; k < w.faces.size(); k++)
        if (ofs[k] >= 0)
            for (int s : w.faces[k].styles)
                if (s != 255)
                    want.insert(s);
    for (int s : want)
        if (!pics.count(s))
            return "no picture for light style " + std::to_string(s);
    for (auto &[s, p] : pics)
        if (!want.count(s))
            return "a picture for light style " + std::to_string(s) + ", which no face has";
    int W = 0, H = 0;
    for (auto &[s, p] : pics) {
        if (W && (std::get<0>(p) != W || std::get<1>(p) != H))
            return "pictures of different sizes";
        W = std::get<0>(p), H = std::get<1>(p);
    }
    struct R
    {
        int x, y, w, h;
    };
    std::vector<R> rects;
    for (size_t k = 0; k < w.faces.size(); k++) {
        auto &F = w.faces[k];
        if (fcs[k].size() != 4)
            return "a face of the .obj with " + std::to_string(fcs[k].size()) + " corners";
        int x0 = 0, y0 = 0;
        for (int i = 0; i < 4; i++) {
            int ix = fcs[k][i];
            if (ix < 0 || ix >= (int)vs.size())
                return "a face of the .obj refers to a missing vertex";
            auto &v = vs[ix];
            // corners are written in reverse
            int c = 3 - i;
            auto *vt = find_struct(f, "vertexes");
            for (int q = 0; q < 3; q++)
                if (v.p[q] != get(raw.lumps[vt->lumpnum], (4 * k + c) * vt->size + 4 * q, 'f'))
                    return "corner " + std::to_string(i) + " of face " + std::to_string(k) + " in the .obj is elsewhere";
            for (int q = 0; q < 3; q++)
                if (v.n[q] != (q == F.axis))
                    return "normal of face " + std::to_string(k) + " in the .obj is not that of its plane";
            if (ofs[k] < 0 || pics.empty())
                continue;
            int lx = c == 1 || c == 2 ? F.w - 1 : 0, ly = c >= 2 ? F.h - 1 : 0;
            double px = v.t[0] * W - 0.5 - lx, py = (1 - v.t[1]) * H - 0.5 - ly;
            int rx = (int)std::lround(px), ry = (int)std::lround(py);
            double tol = 2e-6 * std::max(W, H) + 1e-3;
            if (std::abs(px - rx) > tol || std::abs(py - ry) > tol)
                return "texture coordinate of face " + std::to_string(k) + " is not at the middle of a pixel: " + std::to_string(px) + " " + std::to_string(py);
            if (i == 0)
                x0 = rx, y0 = ry;
            else if (rx != x0 || ry != y0)
                return "texture coordinates of face " + std::to_string(k) + " stretch its lightmap";
        }
        if (ofs[k] < 0 || pics.empty())
            continue;
        if (x0 < 0 || y0 < 0 || x0 + F.w > W || y0 + F.h > H)
            return "lightmap of face " + std::to_string(k) + " lies outside the picture";
        for (auto &q : rects)
            if (x0 < q.x + q.w && q.x < x0 + F.w && y0 < q.y + q.h && q.y < y0 + F.h)
                return "lightmaps of two faces overlap in the picture";
        rects.push_back({x0, y0, F.w, F.h});
        for (auto &[s, p] : pics) {
            int layer = -1, n = 0;
            for (int q = 0; q < 4; q++)
                if (F.styles[q] == s && layer < 0)
                    layer = q;
            (void)n;
            auto &px = std::get<2>(p);
            for (int y = 0; y < F.h; y++)
                for (int x = 0; x < F.w; x++) {
                    const uint8_t *g = &px[4 * ((size_t)(y0 + y) * W + x0 + x)];
                    uint8_t e[4] = {0, 0, 0, 0};
                    if (layer >= 0) {
                        for (int c = 0; c < 3; c++)
                            e[c] = lux(k, layer, x, y, rgb(f) ? c : 0);
                        e[3] = 255;
                    }
                    if (memcmp(g, e, 4))
                        return "luxel " + std::to_string(x) + "," + std::to_string(y) + " of face " + std::to_string(k) + " style " + std::to_string(s) + " is shown as " + std::to_string(g[0]) + " " + std::to_string(g[1]) + " " + std::to_string(g[2]) + " " + std::to_string(g[3]) + ", the file has " + std::to_string(e[0]) + " " + std::to_string(e[1]) + " " + std::to_string(e[2]);
                    ctx.count("luxels compared");
                }
        }
    }
    return "";
}
// the text: one line per lump, and the texture usage
std::string check_text(const Format &f, const Raw &raw, const World *w, const std::string &out)
{
    std::map<std::string, std::pair<long, long>> seen; // name -> count, bytes
    std::istringstream in(out);
    std::string line;
    std::map<std::string, double> usage;
    std::vector<double> order;
    while (std::getline(in, line)) {
        std::istringstream l(line);
        std::vector<std::string> t;
        std::string x;
        while (l >> x)
            t.push_back(x);
        auto isnum = [](const std::string &s) { return !s.empty() && std::all_of(s.begin(), s.end(), [](char c) { return isdigit((unsigned char)c); }); };
        if (t.size() == 3 && isnum(t[0]) && isnum(t[2]))
            seen[t[1]] = {std::stol(t[0]), std::stol(t[2])};
        else if (t.size() == 2 && !isnum(t[0]) && isnum(t[1]))
            seen[t[0]] = {-1, std::stol(t[1])};
        auto c = line.rfind(',');
        if (c != std::string::npos && isnum(line.substr(c + 1)) && line.find(' ') == std::string::npos) {
            usage[line.substr(0, c)] = std::stod(line.substr(c + 1));
            order.push_back(std::stod(line.substr(c + 1)));
        }
    }
    static const std::map<std::string, std::vector<std::string>> names = {{"models", {"models"}}, {"planes", {"planes"}}, {"vertexes", {"vertexes"}}, {"nodes", {"nodes"}}, {"texinfo", {"texinfos", "texinfo"}}, {"faces", {"faces"}}, {"clipnodes", {"clipnodes"}}, {"leafs", {"leafs"}},
        {"marksurfaces", {"marksurfaces", "leaffaces"}}, {"edges", {"edges"}}, {"surfedges", {"surfedges"}}, {"brushes", {"brushes"}}, {"brushsides", {"brushsides"}}, {"leafbrushes", {"leafbrushes"}}, {"areas", {"areas"}}, {"areaportals", {"areaportals"}}};
    for (auto &s : f.structs) {
        auto it = names.find(s.lump);
        if (it == names.end())
            continue;
        long n = raw.lumps[s.lumpnum].size() / s.size;
        bool found = false;
        for (auto &nm : it->second)
            if (auto q = seen.find(nm); q != seen.end()) {
                found = true;
                if (q->second.first != n || q->second.second != n * s.size)
                    return "prints " + std::to_string(q->second.first) + " " + nm + " of " + std::to_string(q->second.second) + " bytes, the file has " + std::to_string(n) + " of " + std::to_string(n * s.size);
            }
        if (!found)
            return "prints no line for the " + s.lump;
    }
    if (auto q = seen.find("lightdata"); q == seen.end() || q->second.second != (long)raw.lumps[f.lumpnum.at("lighting")].size())
        return "prints a wrong size of the light data";
    for (auto &[n, d] : raw.bspx) {
        auto q = seen.find(n);
        if (q == seen.end() || q->second.second != (long)d.size())
            return "prints a wrong size of the extension lump " + n;
    }
    if (w) {
        std::map<std::string, double> want;
        for (auto &F : w->faces) {
            std::string nm = f.q2 ? std::string() + "abcd"[F.axis % 4] + "abcd"[(1 + F.axis) % 4] + "abcd"[(2 + F.axis) % 4] + "abcd"[(3 + F.axis) % 4] : F.axis % 2 ? "second" : "first";
            want[nm] += (double)(F.w - 1) * (F.h - 1) * w->scale * w->scale;
        }
        for (auto &[n, a] : want)
            if (!usage.count(n) || std::abs(usage[n] - a) > 1 + 1e-6 * a)
                return "prints area " + (usage.count(n) ? std::to_string(usage[n]) : std::string("nothing")) + " for texture " + n + ", its faces have " + std::to_string(a);
        for (auto &[n, a] : usage)
            if (!want.count(n))
                return "prints the area of a texture no face has: " + n;
        for (size_t i = 1; i < order.size(); i++)
            if (order[i] > order[i - 1])
                return "texture areas are not printed in descending order";
    }
    return "";
}
bool check_all(const Format &f, const Raw &raw, const World *w, const std::vector<int> &ofs, const std::string &key, const std::string &what, Ctx &ctx, Run *outr = nullptr)
{
    ctx.nontrivial(hstr(to_file(f, raw)));
    ctx.count("files reported");
    auto r = run(to_file(f, raw));
    std::string bad = r.ok ? "" : r.why;
    try {
        if (bad.empty())
            bad = check_structs(f, raw, r.j, ctx);
        if (bad.empty())
            bad = check_blobs(f, raw, r.j);
        if (bad.empty() && w)
            bad = check_preview(f, *w, ofs, raw, ctx);
        if (bad.empty())
            bad = check_text(f, raw, w, r.out);
    } catch (const std::exception &e) {
        bad = std::string("has a report of another shape: ") + e.what();
    }
    if (outr)
        *outr = r;
    ctx.outcome(hstr(r.j.dump(-1, ' ', false, json::error_handler_t::replace)));
    if (bad.empty())
        return true;
    ctx.fail(key, f.name + ", " + what + ": bspinfo " + bad);
    return false;
}
World plain()
{
    World w;
    w.faces = {{3, 2}, {2, 4}};
    w.faces[1].axis = 0;
    w.n = 3;
    return w;
}
std::vector<Val> vals(char t)
{
    switch (t) {
        case 'b': return {0, 1, 127, 128, 255};
        case 'h': return {-32768, -1, 0, 1, 255, 32767};
        case 'H': return {0, 1, 32767, 32768, 65535};
        case 'i': return {-2147483648., -65536, -2, -1, 0, 1, 65535, 65536, 16777217, 2147483647.};
        case 'I': return {0, 1, 65536, 2147483647., 2147483648., 4294967295.};
        default: return {0, 1, -1, 0.5, (double)0.1f, 1e-30f, -32769, 65536, 1e9f, 16777217, (double)std::numeric_limits<float>::max(), -(double)std::numeric_limits<float>::max()};
    }
}
std::vector<Space> u04(Tier t)
{
    bool T = t == Tier::thorough;
    std::vector<Space> r;
    {
        struct Fl
        {
            size_t f, s, c;
        };
        std::vector<Fl> fl;
        auto &A = formats();
        for (size_t f = 0; f < A.size(); f++)
            for (size_t s = 0; s < A[f].structs.size(); s++)
                for (size_t c = 0; c < A[f].structs[s].comps.size(); c++) {
                    auto &st = A[f].structs[s];
                    auto &cm = st.comps[c];
                    // indices that other parts of the report follow
                    if ((st.lump == "nodes" && cm.field == "planenum") || (st.lump == "faces" && cm.field != "side" && cm.field != "lightofs" && cm.field != "styles") || st.lump == "edges" || st.lump == "surfedges" || (st.lump == "texinfo" && (cm.field == "next" || cm.field == "miptex" || cm.field == "texture")))
                        continue;
                    // bound to the preview
                    if (st.lump == "faces" && cm.field == "lightofs")
                        continue;
                    fl.push_back({f, s, c});
                }
        Space s;
        s.name = "fields";
        s.size = fl.size();
        s.chunk = 8;
        s.run = [=](uint64_t i, Ctx &ctx) {
            auto &f = formats()[fl[i].f];
            auto &st = f.structs[fl[i].s];
            auto &c = st.comps[fl[i].c];
            World w = plain();
            std::vector<int> ofs;
            Raw base = raw_of(f, w, ofs);
            bool geo = st.lump == "planes" || st.lump == "vertexes" || (st.lump == "texinfo" && c.field == "vecs") || (st.lump == "faces" && c.field == "styles") || (st.lump == "faces" && c.field == "side");
            size_t n = base.lumps[st.lumpnum].size() / st.size;
            auto vs = vals(c.type);
            std::vector<size_t> el{0, n - 1};
            if (n == 1)
                el = {0};
            if (!T)
                el = {n - 1};
            for (size_t e : el)
                for (Val v : vs) {
                    Raw raw = base;
                    if (st.lump == "faces" && c.field == "styles" && v != 255 && c.index)
                        continue;
                    // huge geometry makes the preview of faces meaningless (and large)
                    if (geo && st.lump != "faces" && std::abs(v) > 100 && !(st.lump == "planes" && c.field == "type")) {
                        w.light = false;
                        v = v > 0 ? 100 : -100;
                    }
                    if (st.lump == "planes" && c.field == "normal" && v != 0 && v != 1 && v != -1)
                        continue;
                    if (st.lump == "planes" && c.field == "normal" && e < 3 && c.index == (int)e && v == 0)
                        continue; // a plane without a normal
                    if (st.lump == "texinfo" && c.field == "vecs" && std::abs(v) < 1e-6 && v != 0)
                        continue;
                    if (st.lump == "texinfo" && c.field == "vecs" && v == 0)
                        continue; // a degenerate projection
                    put(raw.lumps[st.lumpnum], e * st.size + c.ofs, c.type, v);
                    check_all(f, raw, geo ? nullptr : &w, ofs, "field " + st.lump + "." + c.field, st.lump + "[" + std::to_string(e) + "]." + c.field + "[" + std::to_string(c.index) + "] = " + std::to_string(v), ctx);
                }
        };
        r.push_back(s);
    }
    {
        Space s;
        s.name = "population";
        size_t maxs = 0;
        for (auto &f : formats())
            maxs = std::max(maxs, f.structs.size());
        s.size = formats().size() * (maxs + 1) * 4;
        s.chunk = 4;
        s.run = [=](uint64_t i, Ctx &ctx) {
            Digits d{i};
            auto &f = formats()[d(formats().size())];
            size_t si = d(maxs + 1);
            static const int ns[4] = {0, 1, 2, 7};
            int n = ns[d(4)];
            World w = plain();
            std::vector<int> ofs;
            std::string what;
            Raw raw;
            if (si == maxs) {
                w.n = n;
                raw = raw_of(f, w, ofs);
                what = std::to_string(n) + " elements in every lump";
            } else {
                if (si >= f.structs.size())
                    return;
                auto &st = f.structs[si];
                for (const char *fixed : {"planes", "texinfo", "faces", "edges", "surfedges", "vertexes", "models"})
                    if (st.lump == fixed)
                        return;
                raw = raw_of(f, w, ofs);
                auto &b = raw.lumps[st.lumpnum];
                b.assign((size_t)n * st.size, 0);
                for (int e = 0; e < n; e++)
                    for (auto &c : st.comps)
                        put(b, st.size * e + c.ofs, c.type, st.lump == "nodes" && c.field == "planenum" ? e % 3 : base_value(st.lump, c.field, c.index, c.type, e));
                what = std::to_string(n) + " " + st.lump;
            }
            check_all(f, raw, &w, ofs, "population", what, ctx);
        };
        r.push_back(s);
    }
    {
        // no faces at all, models
        Space s;
        s.name = "faces-models";
        s.size = formats().size() * 3 * 4;
        s.run = [=](uint64_t i, Ctx &ctx) {
            Digits d{i};
            auto &f = formats()[d(formats().size())];
            int nf = d(3), nm = d(4) + 1;
            if (nm == 4 && f.family != "q2" && f.family != "hl")
                return; // four Hexen II models have the size of five Quake ones: see B01
            World w = plain();
            w.faces.resize(nf, F{2, 2});
            std::vector<int> ofs;
            Raw raw = raw_of(f, w, ofs);
            auto *st = find_struct(f, "models");
            auto &b = raw.lumps[st->lumpnum];
            b.assign((size_t)nm * st->size, 0);
            for (int e = 0; e < nm; e++)
                for (auto &c : st->comps)
                    put(b, st->size * e + c.ofs, c.type, base_value("models", c.field, c.index, c.type, e));
            check_all(f, raw, &w, ofs, "models", std::to_string(nf) + " faces, " + std::to_string(nm) + " models", ctx);
        };
        r.push_back(s);
    }
    {
        // bytes
        Space s;
        s.name = "bytes";
        s.size = formats().size() * 256;
        s.chunk = 32;
        s.run = [=](uint64_t i, Ctx &ctx) {
            Digits d{i};
            auto &f = formats()[d(formats().size())];
            int b = d(256);
            if (!T && f.name != "bsp29" && f.name != "q2bsp" && f.name != "hl" && b % 16 != 15 && b % 16)
                return;
            World w = plain();
            w.faces.clear();
            std::vector<int> ofs;
            Raw raw = raw_of(f, w, ofs);
            char c = (char)b;
            auto &vis = raw.lumps[f.lumpnum.at("visibility")];
            vis += c;
            vis += (char)(b / 16);
            vis += c;
            raw.lumps[f.lumpnum.at("lighting")] = std::string(1, c) + (char)(b ^ 1) + std::string(3, (char)(b % 16)) + c;
            if (b)
                raw.lumps[f.lumpnum.at("entities")] = "{ \"classname\" \"worldspawn\" \"message\" \"x" + std::string(1, c) + "y\" }\n";
            else
                raw.lumps[f.lumpnum.at("entities")] = "";
            if (b && f.q2)
                put(raw.lumps[f.lumpnum.at("texinfo")], find_struct(f, "texinfo")->comps[10].ofs + 2, 'b', b);
            raw.bspx.push_back({"X_" + std::to_string(b % 3), std::string(b % 5, c)});
            Run run;
            if (!check_all(f, raw, nullptr, ofs, b < 128 ? "bytes" : "bytes above 127", "byte " + std::to_string(b) + " in entity text, names and data", ctx, &run))
                return;
            // extension lumps
            auto &x = run.j["bspxentries"];
            if (x.size() != 1 || x[0]["lumpname"] != raw.bspx[0].first || x[0]["lumpdata"] != hexs(raw.bspx[0].second))
                ctx.fail("bspx", f.name + ": extension lump " + raw.bspx[0].first + " = " + hexs(raw.bspx[0].second) + " is reported as " + show(x));
        };
        r.push_back(s);
    }
    {
        // texture names that fill their field
        Space s;
        s.name = "names";
        s.size = formats().size() * 33;
        s.chunk = 16;
        s.run = [=](uint64_t i, Ctx &ctx) {
            Digits d{i};
            auto &f = formats()[d(formats().size())];
            int n = d(33);
            if (!f.q2 && n > 16)
                return;
            World w = plain();
            w.faces.clear();
            std::vector<int> ofs;
            Raw raw = raw_of(f, w, ofs);
            std::string name;
            for (int k = 0; k < n; k++)
                name += "abcdefghijklmnopqrstuvwxyz0123456789"[k];
            if (f.q2) {
                auto *st = find_struct(f, "texinfo");
                for (auto &c : st->comps)
                    if (c.field == "texture")
                        for (int e = 0; e < 3; e++)
                            put(raw.lumps[st->lumpnum], e * st->size + c.ofs, 'b', c.index < n ? name[c.index] : 0);
            } else
                raw.lumps[f.lumpnum.at("textures")] = miptex_lump({miptex(name, 16, 16, 0)});
            Run run;
            if (!check_all(f, raw, nullptr, ofs, "names", "a texture name of " + std::to_string(n) + " characters", ctx, &run))
                return;
            if (!f.q2 && run.j["textures"].at(0)["name"] != name)
                ctx.fail("names", f.name + ": texture " + name + " is reported as " + show(run.j["textures"]));
        };
        r.push_back(s);
    }
    {
        // texture lists
        Space s;
        s.name = "textures";
        s.size = formats().size() * 5 * 5 * 5;
        s.chunk = 8;
        s.run = [=](uint64_t i, Ctx &ctx) {
            Digits d{i};
            auto &f = formats()[d(formats().size())];
            if (f.q2)
                return;
            int k[3] = {d(5), d(5), d(5)};
            std::vector<Miptex> v;
            std::string what;
            std::vector<std::array<int, 2>> size;
            std::vector<int> kinds;
            for (int q = 0; q < 3; q++) {
                static const char *nm[5] = {"none", "null", "external", "16x16", "8x24"};
                what += std::string(q ? ", " : "") + nm[k[q]];
                if (!k[q])
                    continue;
                Miptex m;
                int W = k[q] == 4 ? 8 : 16, H = k[q] == 4 ? 24 : 16;
                if (k[q] == 1)
                    m.null = true;
                else if (k[q] == 2) {
                    m = miptex("ext" + std::to_string(q), W, H);
                    for (int l = 0; l < 4; l++)
                        put32(m.data, 24 + 4 * l, 0);
                } else {
                    m = miptex("tex" + std::to_string(q), W, H);
                    int at = 40;
                    for (int l = 0; l < 4; l++) {
                        put32(m.data, 24 + 4 * l, at);
                        at += (W >> l) * (H >> l);
                    }
                    for (int p = 40; p < at; p++)
                        m.data += (char)((p * 5 + q) % 250);
                    if (f.family == "hl") {
                        m.data += (char)0;
                        m.data += (char)1;
                        for (int p = 0; p < 768; p++)
                            m.data += (char)(p * 11 + q);
                        m.data += std::string(2, '\0');
                    }
                }
                v.push_back(m);
                size.push_back({W, H});
                kinds.push_back(k[q]);
            }
            World w = plain();
            w.faces.clear();
            std::vector<int> ofs;
            Raw raw = raw_of(f, w, ofs);
            raw.lumps[f.lumpnum.at("textures")] = miptex_lump(v);
            Run run;
            if (!check_all(f, raw, nullptr, ofs, "textures", "textures " + what, ctx, &run))
                return;
            std::string bad;
            json x = run.j.contains("textures") ? run.j["textures"] : json::array();
            if (x.size() != v.size())
                bad = "lists " + std::to_string(x.size());
            // palette of the game
            for (size_t q = 0; q < v.size() && bad.empty(); q++) {
                if (kinds[q] == 1) {
                    if (!x[q].is_null())
                        bad = "a missing texture is " + show(x[q]);
                    continue;
                }
                std::string nm(v[q].data.c_str());
                if (x[q]["name"] != nm || x[q]["width"] != size[q][0] || x[q]["height"] != size[q][1])
                    bad = "texture " + nm + " is " + show(x[q]);
                if (kinds[q] == 2) {
                    if (x[q].contains("mips"))
                        bad = "pixels for a texture without";
                    continue;
                }
                std::string pre = "data:image/png;base64,", im = x[q].contains("mips") && x[q]["mips"].size() ? x[q]["mips"][0].get<std::string>() : "";
                if (im.rfind(pre, 0)) {
                    bad = "no picture of texture " + nm;
                    break;
                }
                auto by = b64(im.substr(pre.size()), bad);
                if (!bad.empty())
                    break;
                int pw, ph, pc;
                auto *px = stbi_load_from_memory(by.data(), by.size(), &pw, &ph, &pc, 4);
                if (!px || !png_ok(by)) {
                    bad = "picture of texture " + nm + " is not a PNG";
                    break;
                }
                if (pw != size[q][0] || ph != size[q][1])
                    bad = "picture of texture " + nm + " is " + std::to_string(pw) + "x" + std::to_string(ph);
                else
                    for (int p = 0; p < pw * ph && bad.empty(); p++) {
                        int ix = (uint8_t)v[q].data[40 + p];
                        for (int c = 0; c < 3; c++) {
                            uint8_t e;
                            if (f.family == "hl")
                                e = (uint8_t)v[q].data[v[q].data.size() - 770 + 3 * ix + c];
                            else {
                                static std::map<std::string, std::vector<qvec3b>> pals;
                                auto *g = f.ver->game;
                                e = g->get_default_palette()[ix][c];
                            }
                            if (px[4 * p + c] != e) {
                                bad = "pixel " + std::to_string(p) + " of texture " + nm + " has a wrong colour";
                                break;
                            }
                        }
                    }
                stbi_image_free(px);
                ctx.count("texture pictures compared");
            }
            if (!bad.empty())
                ctx.fail("textures", f.name + ", textures " + what + ": " + bad);
        };
        r.push_back(s);
    }
    {
        // Quake II visibility
        Space s;
        s.name = "clusters";
        s.size = 2 * 6 * 3;
        s.run = [=](uint64_t i, Ctx &ctx) {
            Digits d{i};
            auto &f = formats()[7 + d(2)];
            int n = d(6), var = d(3);
            World w = plain();
            std::vector<int> ofs;
            Raw raw = raw_of(f, w, ofs);
            std::string v;
            add32(v, n);
            for (int k = 0; k < n; k++)
                for (int q = 0; q < 2; q++)
                    add32(v, var == 2 && q ? (uint32_t)-1 : 4 + 8 * n + k + (q ? (var ? n : 0) : 0));
            for (int k = 0; k < 2 * n + 1; k++)
                v += (char)(k * 19 + 1);
            raw.lumps[f.lumpnum.at("visibility")] = v;
            check_all(f, raw, &w, ofs, "clusters", std::to_string(n) + " clusters", ctx);
        };
        r.push_back(s);
    }
    {
        // structured extension lumps
        Space s;
        s.name = "structured-bspx";
        s.size = formats().size() * 3 * 4 * 4;
        s.chunk = 8;
        s.run = [=](uint64_t i, Ctx &ctx) {
            Digits d{i};
            auto &f = formats()[d(formats().size())];
            int models = d(3), brushes = d(4), faces = d(4);
            World w = plain();
            w.decoupled = brushes % 2;
            std::vector<int> ofs;
            Raw raw = raw_of(f, w, ofs);
            std::string b;
            auto addf = [&](float x) { b.append((char *)&x, 4); };
            auto addh = [&](int x) { b.append((char *)&x, 2); };
            for (int m = 0; m < models; m++) {
                add32(b, 1);
                add32(b, m * 5);
                add32(b, brushes);
                add32(b, brushes * faces);
                for (int q = 0; q < brushes; q++) {
                    for (int c = 0; c < 6; c++)
                        addf((float)(m * 100 + q * 10 + c + (c > 2 ? 20 : 0)));
                    addh(-2 - q);
                    addh(faces);
                    for (int c = 0; c < faces; c++) {
                        addf(c == 0), addf(c == 1), addf(c == 2);
                        addf(c * 8.5f + q);
                    }
                }
            }
            raw.bspx.push_back({"BRUSHLIST", b});
            Run run;
            std::string what = std::to_string(models) + " models of " + std::to_string(brushes) + " brushes of " + std::to_string(faces) + " faces";
            if (!check_all(f, raw, &w, ofs, "bspx", what, ctx, &run))
                return;
            std::string bad;
            try {
                for (auto &e : run.j.at("bspxentries")) {
                    if (e["lumpname"] == "BRUSHLIST") {
                        auto &ms = e.at("models");
                        if ((int)ms.size() != models)
                            bad = "lists " + std::to_string(ms.size()) + " models";
                        for (int m = 0; m < models && bad.empty(); m++) {
                            if (ms[m].at("ver") != 1 || ms[m].at("modelnum") != m * 5 || ms[m].at("numbrushes") != brushes || ms[m].at("numfaces") != brushes * faces || (int)ms[m].at("brushes").size() != brushes) {
                                bad = "model " + show(ms[m]);
                                break;
                            }
                            for (int q = 0; q < brushes && bad.empty(); q++) {
                                auto &x = ms[m]["brushes"][q];
                                for (int c = 0; c < 3; c++)
                                    if (x.at("mins").at(c) != m * 100 + q * 10 + c || x.at("maxs").at(c) != m * 100 + q * 10 + c + 23)
                                        bad = "brush " + show(x);
                                if (x.at("contents") != -2 - q || (int)x.at("faces").size() != faces)
                                    bad = "brush " + show(x);
                                for (int c = 0; c < faces && bad.empty(); c++)
                                    if (x["faces"][c].at("dist") != c * 8.5 + q || x["faces"][c].at("normal").at(0) != int(c == 0) || x["faces"][c].at("normal").at(1) != int(c == 1) || x["faces"][c].at("normal").at(2) != int(c == 2))
                                        bad = "brush face " + show(x["faces"][c]);
                            }
                        }
                    } else if (e["lumpname"] == "DECOUPLED_LM") {
                        auto &fs_ = e.at("faces");
                        auto &l = raw.bspx[0].second;
                        if (fs_.size() != l.size() / 40)
                            bad = "lists " + std::to_string(fs_.size()) + " faces";
                        for (size_t k = 0; k < fs_.size() && bad.empty(); k++) {
                            if (fs_[k].at("lmwidth") != get(l, 40 * k, 'H') || fs_[k].at("lmheight") != get(l, 40 * k + 2, 'H') || fs_[k].at("offset") != get(l, 40 * k + 4, 'i'))
                                bad = "face " + show(fs_[k]);
                            for (int c = 0; c < 8; c++)
                                if (fs_[k].at("world_to_lm_space").at(c / 4).at(c % 4) != get(l, 40 * k + 8 + 4 * c, 'f'))
                                    bad = "face " + show(fs_[k]);
                        }
                    } else
                        bad = "an extension lump " + show(e);
                }
                if (run.j.at("bspxentries").size() != raw.bspx.size())
                    bad = "extension lumps " + show(run.j["bspxentries"]);
            } catch (const std::exception &e) {
                bad = e.what();
            }
            if (!bad.empty())
                ctx.fail("bspx", f.name + ", " + what + ": " + bad);
        };
        r.push_back(s);
    }
    {
        // lightmap preview: sizes and styles of up to three faces
        static const std::vector<std::array<int, 2>> SZ = {{1, 1}, {2, 3}, {5, 2}, {17, 18}};
        static const std::vector<std::array<int, 4>> ST = {{0, 255, 255, 255}, {0, 7, 255, 255}, {3, 0, 12, 1}, {255, 255, 255, 255}, {253, 254, 255, 255}};
        Space s;
        s.name = "preview";
        int nf = T ? 3 : 2, per = SZ.size() * ST.size() * 2;
        uint64_t n = 1;
        for (int k = 0; k < nf; k++)
            n *= per;
        s.size = n * 2 * 3;
        s.chunk = 64;
        s.run = [=](uint64_t i, Ctx &ctx) {
            Digits d{i};
            static const int fm[3] = {0, 3, 7};
            auto &f = formats()[fm[d(3)]];
            World w = plain();
            w.decoupled = d(2);
            w.faces.clear();
            std::string what = w.decoupled ? "decoupled " : "";
            for (int k = 0; k < nf; k++) {
                F q{2, 2};
                auto sz = SZ[d(SZ.size())];
                q.w = sz[0], q.h = sz[1];
                q.styles = ST[d(ST.size())];
                q.lit = d(2);
                q.axis = k % 3;
                if (q.lit && q.styles[0] == 255)
                    return; // lit without styles: nothing is stored
                what += std::to_string(q.w) + "x" + std::to_string(q.h) + (q.lit ? " lit" : " unlit") + " styles " + std::to_string(q.styles[0]) + " " + std::to_string(q.styles[1]) + " " + std::to_string(q.styles[2]) + "; ";
                w.faces.push_back(q);
            }
            std::vector<int> ofs;
            Raw raw = raw_of(f, w, ofs);
            check_all(f, raw, &w, ofs, "preview", what, ctx);
        };
        r.push_back(s);
    }
    {
        // packing: many faces of one of a few sizes, and faces as large as the sheet
        struct P
        {
            std::vector<std::array<int, 2>> sz;
        };
        std::vector<P> ps;
        for (int n : {1, 2, 5, 12, 30, 60})
            for (auto a : {std::array<int, 2>{60, 60}, {100, 30}, {170, 170}, {256, 256}, {255, 10}})
                ps.push_back({std::vector<std::array<int, 2>>(n, a)});
        for (int big : {510, 511, 512, 513, 700})
            for (int v = 0; v < 3; v++) {
                P p;
                p.sz = {{5, 5}, {v == 1 ? 20 : big, v == 0 ? 20 : big}, {30, 4}, {9, 9}};
                ps.push_back(p);
            }
        Space s;
        s.name = "packing";
        s.size = ps.size() * 4;
        s.case_timeout = 60;
        s.run = [=](uint64_t i, Ctx &ctx) {
            Digits d{i};
            int k = d(4);
            auto &f = formats()[k < 2 ? 0 : 7];
            auto &p = ps[d(ps.size())];
            World w = plain();
            w.decoupled = k % 2;
            w.scale = w.decoupled ? 1 : 16;
            w.faces.clear();
            for (auto &a : p.sz)
                w.faces.push_back(F{a[0], a[1]});
            std::vector<int> ofs;
            Raw raw = raw_of(f, w, ofs);
            check_all(f, raw, &w, ofs, "packing", std::to_string(p.sz.size()) + " faces, the second of " + std::to_string(p.sz[p.sz.size() > 1][0]) + "x" + std::to_string(p.sz[p.sz.size() > 1][1]) + (w.decoupled ? " decoupled" : ""), ctx);
        };
        r.push_back(s);
    }
    return r;
}
} // namespace
int main(int argc, char **argv)
{
    logging::mask = logging::flag::NONE;
    return main_(argc, argv,
        {{"U04", "exploration", "bspinfo is run on every file of a bounded family (each field of each format at boundary values, each lump population, each byte value in text, every short texture list, lightmap layouts and packings); the JSON report, the .obj/.png preview and the printed sizes are compared with the bytes of the file through an independent description of the formats", {"areas and area portals are not part of the JSON report"}, u04, 200, 3000}});
}
