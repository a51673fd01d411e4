// U02: bsputil's operations change exactly what they are asked to change.  The
// real tool runs on every sequence of operations; every file of the directory is
// then compared with an independent model of what each operation does to the lumps.
#include "bspspec.hh"
#include <common/fs.hh>
#include <common/imglib.hh>
#include <common/log.hh>
#include <algorithm>
#include <cmath>
#include <fcntl.h>
#include <filesystem>
#include <set>
#include <sys/wait.h>
#include <unistd.h>
using namespace bs;
using namespace mc;
int bsputil_main(int argc, char **argv);
namespace
{
std::string said; // what the last run printed
// "" or the reason of a refusal
std::string tool(std::vector<std::string> a)
{
    a.insert(a.begin(), "bsputil");
    std::vector<char *> v;
    for (auto &x : a)
        v.push_back(x.data());
    v.push_back(nullptr);
    fflush(stdout);
    // a failed assertion exits
    pid_t pid = fork();
    if (!pid) {
        int to = open("../said", O_WRONLY | O_CREAT | O_TRUNC, 0644);
        dup2(to, 1);
        close(to);
        int rc = 0;
        try {
            rc = bsputil_main(a.size(), v.data());
        } catch (std::exception &e) {
            printf("%s\n", e.what());
            rc = 1;
        }
        fflush(stdout);
        _exit(rc);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    std::string r;
    if (!WIFEXITED(st))
        r = "crash: signal " + std::to_string(WTERMSIG(st));
    else if (WEXITSTATUS(st) > 1)
        r = "crash: status " + std::to_string(WEXITSTATUS(st));
    else if (WEXITSTATUS(st))
        r = "refused";
    said = slurp("../said");
    if (r == "refused") {
        auto t = said;
        while (!t.empty() && t.back() == '\n')
            t.pop_back();
        r += ": " + t.substr(t.rfind('\n') + 1);
    }
    return r;
}
// ---------------------------------------------------------------- a small valid world
struct V3
{
    double v[3];
    double &operator[](int i) { return v[i]; }
    double operator[](int i) const { return v[i]; }
};
V3 operator+(V3 a, V3 b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
V3 operator-(V3 a, V3 b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
V3 operator*(V3 a, double b) { return {a[0] * b, a[1] * b, a[2] * b}; }
double dot(V3 a, V3 b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
V3 cross(V3 a, V3 b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
V3 unit(V3 a) { return a * (1 / std::sqrt(dot(a, a))); }
struct Pl
{
    V3 n;
    double d;
};
const std::vector<Pl> PL{
    {{1, 0, 0}, 16},
    {{0, 0, 1}, -4},
    {{0.6, 0.8, 0}, 8},
    {{-0.8, 0, 0.6}, 5},
    {{0, 1, 0}, 8},
    {unit({2, 3, -6}), -7},
};
int type_of(V3 n)
{
    for (int i = 0; i < 3; i++)
        if (std::abs(n[i]) > 1 - 1e-7)
            return i;
    int b = 0;
    for (int i = 1; i < 3; i++)
        if (std::abs(n[i]) > std::abs(n[b]) + 1e-9)
            b = i;
    return 3 + b;
}
struct Tree
{
    int plane[3];
    int flip; // bit per node
};
struct Setter
{
    const Format &f;
    Raw &r;
    void operator()(const char *lump, size_t e, const char *field, int idx, Val v)
    {
        auto *s = find_struct(f, lump);
        if (!s)
            return;
        auto &b = r.lumps[s->lumpnum];
        if (b.size() < (e + 1) * s->size)
            b.resize((e + 1) * s->size);
        for (auto &c : s->comps)
            if (c.field == field && c.index == idx)
                put(b, e * s->size + c.ofs, c.type, v);
    }
};
Val at(const Format &f, const Raw &r, const char *lump, size_t e, const char *field, int idx = 0)
{
    auto *s = find_struct(f, lump);
    auto &b = r.lumps[s->lumpnum];
    if ((e + 1) * s->size > b.size())
        throw std::runtime_error(std::string(lump) + " " + std::to_string(e) + " is outside the lump");
    for (auto &c : s->comps)
        if (c.field == field && c.index == idx)
            return get(b, e * s->size + c.ofs, c.type);
    throw std::runtime_error(std::string("no field ") + field);
}
size_t count(const Format &f, const Raw &r, const char *lump)
{
    auto *s = find_struct(f, lump);
    return r.lumps[s->lumpnum].size() / s->size;
}
template<typename T>
void app(std::string &s, T v)
{
    s.append((char *)&v, sizeof v);
}
const char *ENTS = "{\n\"classname\" \"worldspawn\"\n\"message\" \"a \\\"b\"\n}\n{\n\"classname\" \"item\"\n\"origin\" \"16 -8.5 4\"\n}\n{\n\"classname\" \"func_door\"\n\"lip\" \"4\"\n\"height\" \"10\"\n\"netname\" \"*1\"\n}\n";
std::string pixels(const std::string &name, int w, int h, int salt, bool palette)
{
    Miptex m = miptex(name, w, h, 0);
    int o = 40;
    for (int i = 0; i < 4; i++) {
        put32(m.data, 24 + 4 * i, o);
        for (int k = 0; k < (w >> i) * (h >> i); k++)
            m.data += (char)(k * 7 + i * 31 + salt);
        o += (w >> i) * (h >> i);
    }
    if (palette) {
        m.data += std::string("\0\1", 2);
        for (int k = 0; k < 768; k++)
            m.data += (char)(k * 5 + salt);
        m.data += std::string("\0\0", 2);
    }
    return m.data;
}
Raw world(const Format &f, const Tree &t)
{
    Raw r;
    r.lumps.resize(f.nlumps);
    Setter set{f, r};
    auto pl = [&](int k) { return f.q2 ? 2 * k : k; };
    for (int k = 0; k < (int)PL.size(); k++)
        for (int s = 0; s < (f.q2 ? 2 : 1); s++) {
            for (int i = 0; i < 3; i++)
                set("planes", pl(k) + s, "normal", i, (s ? -1 : 1) * PL[k].n[i]);
            set("planes", pl(k) + s, "dist", 0, (s ? -1 : 1) * PL[k].d);
            set("planes", pl(k) + s, "type", 0, type_of(PL[k].n));
        }
    for (int i = 0; i < 5; i++) {
        set("leafs", i, "contents", 0, f.q2 ? (i == 0 ? 1 : i == 1 ? 0 : i == 2 ? 32 : i == 3 ? 16 : 8) : (i == 0 ? -2 : i == 1 ? -1 : i == 2 ? -3 : i == 3 ? -4 : -5));
        set("leafs", i, "visofs", 0, -1);
        set("leafs", i, "cluster", 0, i - 1);
        for (int k = 0; k < 3; k++) {
            set("leafs", i, "mins", k, i ? -30 - 3 * i - k : 0);
            set("leafs", i, "maxs", k, i ? 40 + i + 3 * k : 0);
        }
        if (!f.q2)
            for (int k = 0; k < 4; k++)
                set("leafs", i, "ambient", k, 10 * i + k);
    }
    // node 0 over nodes 1 and 2 over leafs 1..4
    for (int n = 0; n < 3; n++) {
        int c[2] = {n == 0 ? 1 : n == 1 ? -1 - 1 : -1 - 3, n == 0 ? 2 : n == 1 ? -1 - 2 : -1 - 4};
        if (t.flip >> n & 1)
            std::swap(c[0], c[1]);
        set("nodes", n, "planenum", 0, pl(t.plane[n]));
        for (int s = 0; s < 2; s++)
            set("nodes", n, "children", s, c[s]);
        for (int k = 0; k < 3; k++) {
            set("nodes", n, "mins", k, -31 - n - 2 * k);
            set("nodes", n, "maxs", k, 41 + n + k);
        }
        set("nodes", n, "firstface", 0, n);
        set("nodes", n, "numfaces", 0, 1);
    }
    // two clip hulls
    for (int h = 0; h < 2; h++)
        for (int n = 0; n < 3; n++) {
            int c[2] = {n == 0 ? 3 * h + 1 : n == 1 ? -1 : -3, n == 0 ? 3 * h + 2 : n == 1 ? -2 : -4};
            if ((t.flip >> n & 1) != h)
                std::swap(c[0], c[1]);
            set("clipnodes", 3 * h + n, "planenum", 0, pl(t.plane[h ? 2 - n : n]));
            for (int s = 0; s < 2; s++)
                set("clipnodes", 3 * h + n, "children", s, c[s]);
        }
    for (int x = 0; x < 2; x++) {
        double v[8] = {0.5, 0.25 * x, -0.125, 3, 0.0, -1, 0.75, -5 + x};
        for (int i = 0; i < 8; i++)
            set("texinfo", x, "vecs", i, v[i]);
        set("texinfo", x, f.q2 ? "value" : "miptex", 0, x);
        set("texinfo", x, "flags", 0, 0);
        if (f.q2) {
            std::string name = x ? "second" : "first";
            for (int i = 0; i < 32; i++)
                set("texinfo", x, "texture", i, i < (int)name.size() ? name[i] : 0);
            set("texinfo", x, "next", 0, -1);
        }
    }
    // a face on each node's plane; edge 0 is unused
    set("edges", 0, "v", 0, 0);
    set("edges", 0, "v", 1, 0);
    for (int n = 0; n < 3; n++) {
        Pl p = PL[t.plane[n]];
        int side = t.flip >> n & 1;
        V3 q = side ? p.n * -1 : p.n;
        V3 a = unit(cross(q, std::abs(q[0]) > 0.7 ? V3{0, 1, 0} : V3{1, 0, 0})), b = cross(q, a), m = p.n * p.d + a * 3.0;
        // clockwise seen from the front
        V3 w[4] = {m + a * 6 + b * 5, m + a * 6 - b * 5, m - a * 6 - b * 5, m - a * 6 + b * 7};
        for (int i = 0; i < 4; i++)
            for (int k = 0; k < 3; k++)
                set("vertexes", 4 * n + i, "pos", k, w[i][k]);
        for (int i = 0; i < 4; i++) {
            bool back = (n + i) % 2;
            set("edges", 1 + 4 * n + i, "v", back, 4 * n + i);
            set("edges", 1 + 4 * n + i, "v", !back, 4 * n + (i + 1) % 4);
            set("surfedges", 4 * n + i, "v", 0, back ? -(1 + 4 * n + i) : 1 + 4 * n + i);
        }
        set("faces", n, "planenum", 0, pl(t.plane[n]) + (f.q2 ? side : 0));
        set("faces", n, "side", 0, side);
        if (f.q2)
            set("faces", n, "planenum", 0, pl(t.plane[n]));
        set("faces", n, "firstedge", 0, 4 * n);
        set("faces", n, "numedges", 0, 4);
        set("faces", n, "texinfo", 0, n % 2);
        for (int i = 0; i < 4; i++)
            set("faces", n, "styles", i, i ? 255 : 0);
        set("faces", n, "lightofs", 0, n);
        set("marksurfaces", n, "v", 0, n);
    }
    for (int k = 0; k < 3; k++) {
        set("models", 0, "mins", k, -33.5 - k);
        set("models", 0, "maxs", k, 44.25 + k);
        set("models", 0, "origin", k, 2 * k);
    }
    set("models", 0, "headnode", 0, 0);
    if (!f.q2) {
        set("models", 0, "headnode", 1, 0);
        set("models", 0, "headnode", 2, 3);
        set("models", 0, "visleafs", 0, 4);
    }
    set("models", 0, "firstface", 0, 0);
    set("models", 0, "numfaces", 0, 3);
    if (f.q2) {
        set("brushes", 0, "firstside", 0, 0);
        set("brushes", 0, "numsides", 0, 6);
        set("brushes", 0, "contents", 0, 1);
        for (int i = 0; i < 6; i++) {
            set("brushsides", i, "planenum", 0, 2 * i + i % 2);
            set("brushsides", i, "texinfo", 0, i % 2);
        }
        set("leafbrushes", 0, "v", 0, 0);
        set("areas", 0, "num", 0, 0);
        std::string v;
        add32(v, 2);
        for (int i = 0; i < 4; i++)
            add32(v, 20 + i);
        v += "\1\2\3\4";
        r.lumps[f.lumpnum.at("visibility")] = v;
    } else {
        r.lumps[f.lumpnum.at("visibility")] = "\1\2\3";
        bool pal = f.family == "hl";
        Miptex a{false, pixels("first", 16, 16, 1, pal)}, b{false, pixels("sixteenletters16", 32, 16, 9, pal)}, nul{true, ""}, head{false, miptex("second", 64, 32, 0).data};
        for (int i = 0; i < 4; i++)
            put32(head.data, 24 + 4 * i, 0);
        r.lumps[f.lumpnum.at("textures")] = miptex_lump({a, head, nul, b});
    }
    r.lumps[f.lumpnum.at("entities")] = std::string(ENTS) + '\0';
    r.lumps[f.lumpnum.at("lighting")] = std::string("\1\2\3\4\5\6\7\10\11", 9);
    std::string dl;
    for (int n = 0; n < 3; n++) {
        app<uint16_t>(dl, 3 + n);
        app<uint16_t>(dl, 4);
        app<int32_t>(dl, n);
        for (int i = 0; i < 8; i++)
            app<float>(dl, (i % 4 == 3 ? 7 : 0.25f * (i + 1)) * (n + 1));
    }
    std::string lg;
    for (float v : {32.f, 16.f, 8.f})
        app(lg, v);
    for (int v : {3, 2, 4})
        app(lg, v);
    for (float v : {-40.f, -16.f, 24.f})
        app(lg, v);
    lg += std::string("\1\2\3\4rest", 8);
    r.bspx = {{"DECOUPLED_LM", dl}, {"LIGHTGRID_OCTREE", lg}, {"OTHER", std::string("a\0b", 3)}};
    return r;
}
// ---------------------------------------------------------------- operations
struct State
{
    std::map<std::string, std::string> files;
    Raw raw; // a.bsp
    std::map<std::string, Raw> converted; // what conversions started from
};
using Apply = std::function<bool(const Format &, State &)>; // false: must be refused and change nothing
struct Op
{
    std::string name;
    std::vector<std::string> args;
    Apply apply;
    bool any = false; // may also be refused
};
std::string *lump(State &s, const std::string &n)
{
    for (auto &p : s.raw.bspx)
        if (p.first == n)
            return &p.second;
    return nullptr;
}
std::vector<Miptex> textures(const std::string &l)
{
    std::vector<Miptex> r;
    if (l.empty())
        return r;
    int n = get32(l, 0);
    for (int i = 0; i < n; i++) {
        Miptex m;
        int32_t o = get32(l, 4 + 4 * i), e = l.size();
        m.null = o < 0;
        for (int j = i + 1; j < n; j++)
            if ((int32_t)get32(l, 4 + 4 * j) >= 0) {
                e = get32(l, 4 + 4 * j);
                break;
            }
        if (!m.null)
            m.data = l.substr(o, e - o);
        r.push_back(m);
    }
    return r;
}
std::string wad(bool three, const std::vector<std::string> &texs)
{
    std::string s = three ? "WAD3" : "WAD2", dir;
    std::string body;
    add32(s, texs.size());
    add32(s, 12);
    size_t o = 12 + 32 * texs.size();
    for (auto &t : texs) {
        add32(dir, o);
        add32(dir, t.size());
        add32(dir, t.size());
        dir += three ? 'C' : 'D';
        dir += std::string(3, '\0');
        dir += t.substr(0, 16);
        o += t.size();
        body += t;
    }
    return s + dir + body;
}
uint16_t crc(const std::string &s)
{
    uint16_t c = 0xffff;
    for (unsigned char x : s) {
        c ^= x << 8;
        for (int i = 0; i < 8; i++)
            c = c & 0x8000 ? c << 1 ^ 0x1021 : c << 1;
    }
    return c;
}
std::string ent_text(const Format &f, const Raw &r)
{
    std::string e = r.lumps[f.lumpnum.at("entities")];
    if (!e.empty() && e.back() == 0)
        e.pop_back();
    return e;
}
const std::string NEWENT = "{\n\"classname\" \"worldspawn\"\n\"wad\" \"x\"\n}\n";
const std::vector<Op> &ops()
{
    static const std::vector<Op> all = [] {
        std::vector<Op> r;
        auto ents = [](std::string t) {
            return [t](const Format &f, State &s) {
                s.raw.lumps[f.lumpnum.at("entities")] = t + '\0';
                return true;
            };
        };
        r.push_back({"replace entities", {"--replace-entities", "new.ent"}, ents(NEWENT)});
        r.push_back({"replace entities by nothing", {"--replace-entities", "empty"}, ents("")});
        r.push_back({"replace entities by a missing file", {"--replace-entities", "missing"}, [](const Format &, State &) { return false; }});
        r.push_back({"extract entities", {"--extract-entities"}, [](const Format &f, State &s) {
                         s.files["a.ent"] = ent_text(f, s.raw);
                         return true;
                     }});
        r.push_back({"put extracted entities back", {"--replace-entities", "a.ent"}, [](const Format &f, State &s) {
                         if (!s.files.count("a.ent"))
                             return false;
                         s.raw.lumps[f.lumpnum.at("entities")] = s.files["a.ent"] + '\0';
                         return true;
                     }});
        r.push_back({"extract textures", {"--extract-textures"}, [](const Format &f, State &s) {
                         std::vector<std::string> t;
                         if (!f.q2)
                             for (auto &m : textures(s.raw.lumps[f.lumpnum.at("textures")]))
                                 if (m.data.size() > 40)
                                     t.push_back(m.data);
                         s.files["a.wad"] = wad(f.family == "hl", t);
                         return true;
                     }});
        auto put_textures = [](std::string file) {
            return [file](const Format &f, State &s) {
                if (!s.files.count(file))
                    return false;
                if (f.q2)
                    return true;
                auto &w = s.files[file];
                auto &l = s.raw.lumps[f.lumpnum.at("textures")];
                auto have = textures(l);
                int n = get32(w, 4);
                for (auto &m : have)
                    for (int k = 0; k < n; k++) {
                        size_t e = 12 + 32 * k;
                        std::string nm = w.substr(e + 16, 16);
                        if (!m.null && m.data.substr(0, 16) == nm && m.data.substr(16, 8) == w.substr(get32(w, e) + 16, 8))
                            m.data = w.substr(get32(w, e), get32(w, e + 4));
                    }
                l = miptex_lump(have);
                return true;
            };
        };
        r.push_back({"replace textures", {"--replace-textures", "new.wad"}, put_textures("new.wad")});
        r.push_back({"put extracted textures back", {"--replace-textures", "a.wad"}, put_textures("a.wad")});
        r.push_back({"replace textures from a missing file", {"--replace-textures", "missing.wad"}, [](const Format &, State &) { return false; }});
        auto extract = [](std::string n) {
            return [n](const Format &, State &s) {
                auto *l = lump(s, n);
                if (l)
                    s.files["out"] = *l;
                return l != nullptr;
            };
        };
        r.push_back({"extract lump", {"--extract-bspx-lump", "OTHER", "out"}, extract("OTHER")});
        r.push_back({"extract another lump", {"--extract-bspx-lump", "NEW", "out"}, extract("NEW")});
        auto insert = [](std::string n, std::string file) {
            return [=](const Format &, State &s) {
                if (!s.files.count(file))
                    return false;
                if (auto *l = lump(s, n))
                    *l = s.files[file];
                else
                    s.raw.bspx.push_back({n, s.files[file]});
                return true;
            };
        };
        r.push_back({"insert lump", {"--insert-bspx-lump", "NEW", "new.ent"}, insert("NEW", "new.ent")});
        r.push_back({"insert existing lump", {"--insert-bspx-lump", "OTHER", "new.ent"}, insert("OTHER", "new.ent")});
        r.push_back({"insert empty lump", {"--insert-bspx-lump", "NEW", "empty"}, insert("NEW", "empty")});
        r.push_back({"insert extracted lump", {"--insert-bspx-lump", "OTHER", "out"}, insert("OTHER", "out")});
        auto remove = [](std::string n) {
            return [n](const Format &, State &s) {
                for (size_t i = 0; i < s.raw.bspx.size(); i++)
                    if (s.raw.bspx[i].first == n) {
                        s.raw.bspx.erase(s.raw.bspx.begin() + i);
                        return true;
                    }
                return false;
            };
        };
        r.push_back({"remove lump", {"--remove-bspx-lump", "OTHER"}, remove("OTHER")});
        r.push_back({"remove another lump", {"--remove-bspx-lump", "NEW"}, remove("NEW")});
        auto texinfo = [](int face, int ti) {
            return [=](const Format &f, State &s) {
                if (face < 0 || face >= (int)count(f, s.raw, "faces"))
                    return false;
                auto *st = find_struct(f, "faces");
                for (auto &c : st->comps)
                    if (c.field == "texinfo") {
                        if (c.type == 'h' && ti > 32767)
                            return false;
                        put(s.raw.lumps[st->lumpnum], face * st->size + c.ofs, c.type, ti);
                    }
                return true;
            };
        };
        r.push_back({"set texinfo", {"--settexinfo", "2", "1"}, texinfo(2, 1)});
        r.push_back({"set texinfo of no face", {"--settexinfo", "3", "0"}, texinfo(3, 0)});
        r.push_back({"set texinfo of face -1", {"--settexinfo", "-1", "0"}, texinfo(-1, 0)});
        r.push_back({"set large texinfo", {"--settexinfo", "0", "40000"}, texinfo(0, 40000)});
        r.push_back({"set texinfo to a word", {"--settexinfo", "0", "x"}, [](const Format &, State &) { return false; }});
        for (const char *o : {"--check", "--modelinfo"})
            r.push_back({o + 2, {o}, [](const Format &, State &) { return true; }});
        r.push_back({"find leaf", {"--findleaf", "1", "2", "3"}, [](const Format &, State &) { return true; }});
        r.push_back({"find faces", {"--findfaces", "1", "2", "3", "1", "0", "0"}, [](const Format &, State &) { return true; }});
        r.push_back({"compare", {"--compare", "b.bsp"}, [](const Format &, State &) { return true; }});
        r.push_back({"svg", {"--svg"}, [](const Format &, State &s) {
                         s.files["a.svg"] = "*";
                         return true;
                     }});
        for (auto &g : formats())
            r.push_back({"convert to " + g.name, {"--convert", g.name}, [g](const Format &f, State &s) {
                             s.files["a-" + g.name] = std::string("*") + (f.q2 == g.q2 ? "must" : "");
                             s.converted["a-" + g.name] = s.raw;
                             return true;
                         }});
        r.push_back({"convert to nothing", {"--convert", "mbsp"}, [](const Format &, State &) { return false; }});
        return r;
    }();
    return all;
}
State start(const Format &f)
{
    State s;
    s.raw = world(f, Tree{{0, 2, 3}, 2});
    s.files["new.ent"] = NEWENT;
    s.files["empty"] = "";
    bool pal = f.family == "hl";
    s.files["new.wad"] = wad(pal, {pixels("third", 16, 16, 50, pal), pixels("sixteenletters16", 16, 16, 60, pal), pixels("second", 64, 32, 70, pal), pixels("first", 16, 16, 80, pal)});
    Raw b = world(f, Tree{{0, 4, 3}, 5});
    s.files["b.bsp"] = to_file(f, b);
    return s;
}
void lay(const Format &f, const State &s)
{
    std::filesystem::remove_all("w");
    std::filesystem::create_directory("w");
    for (auto &[n, d] : s.files)
        spit("w/" + n, d);
    spit("w/a.bsp", to_file(f, s.raw));
}
// fields both formats have
std::string same_values(const Format &f, const Raw &a, const Format &g, const Raw &b)
{
    for (auto &s : f.structs) {
        auto *t = find_struct(g, s.lump);
        if (!t)
            continue;
        size_t n = a.lumps[s.lumpnum].size() / s.size;
        if (b.lumps[t->lumpnum].size() != n * t->size)
            return s.lump + ": the number of elements changed";
        for (size_t e = 0; e < n; e++)
            for (auto &c : s.comps) {
                if (c.field == "headnode" && c.index > 3 && f.h2 != g.h2)
                    continue;
                for (auto &d : t->comps)
                    if (d.field == c.field && d.index == c.index) {
                        Val x = get(a.lumps[s.lumpnum], e * s.size + c.ofs, c.type), y = get(b.lumps[t->lumpnum], e * t->size + d.ofs, d.type);
                        if (x != y)
                            return s.lump + " " + std::to_string(e) + ": " + c.field + "[" + std::to_string(c.index) + "] " + std::to_string(x) + " became " + std::to_string(y);
                    }
            }
    }
    for (auto &[n, i] : f.lumpnum)
        if (g.lumpnum.count(n) && !find_struct(f, n) && n != "textures" && a.lumps[i] != b.lumps[g.lumpnum.at(n)])
            return "lump " + n + " changed";
    auto x = a.bspx, y = b.bspx;
    std::sort(x.begin(), x.end());
    std::sort(y.begin(), y.end());
    return x != y ? "extension lumps changed" : "";
}
// the directory holds what the model says
std::string judge(const Format &f, State &s)
{
    std::set<std::string> seen;
    for (auto &e : std::filesystem::directory_iterator("w")) {
        std::string n = e.path().filename().string(), d = slurp("w/" + n);
        seen.insert(n);
        if (n == "a.bsp") {
            Raw now;
            std::string err = from_file(f, d, now);
            if (err.size())
                return "the map is not a " + f.name + " file any more: " + err;
            err = difference(f, s.raw, now);
            if (err.size())
                return "the map: " + err;
            continue;
        }
        if (!s.files.count(n))
            return "a file " + n + " appeared";
        std::string &w = s.files[n];
        if (w[0] == '*') {
            if (d.empty())
                return n + " is empty";
            if (n.rfind("a-", 0) == 0)
                for (auto &g : formats())
                    if (n == "a-" + g.name && f.q2 == g.q2) {
                        Raw now;
                        std::string err = from_file(g, d, now);
                        if (err.size())
                            return n + " is not a " + g.name + " file: " + err;
                        err = same_values(f, s.converted[n], g, now);
                        if (err.size())
                            return n + ": " + err;
                    }
            // judged as of its writing
            w = d;
            continue;
        }
        if (d != w) {
            size_t k = 0;
            while (k < std::min(d.size(), w.size()) && d[k] == w[k])
                k++;
            return n + ": " + std::to_string(w.size()) + " bytes expected, it has " + std::to_string(d.size()) + ", first difference at byte " + std::to_string(k);
        }
    }
    for (auto &[n, d] : s.files)
        if (!seen.count(n)) {
            if (d == "*")
                continue; // a conversion between families may be refused
            return "no file " + n;
        }
    return seen.count("a.bsp") ? "" : "the map is gone";
}
// runs them each in a command of its own, or all in one
void sequence(const Format &f, const std::vector<int> &seq, bool together, const std::string &key, Ctx &ctx)
{
    State s = start(f);
    lay(f, s);
    auto &O = ops();
    ctx.state(hstr(f.name + (together ? "1" : "0") + [&] {
        std::string t;
        for (int o : seq)
            t += " " + O[o].name;
        return t;
    }()));
    std::string what = f.name + (together ? " in one command:" : ":");
    for (int o : seq)
        what += " " + O[o].name + ";";
    std::filesystem::current_path("w");
    std::string bad;
    std::vector<std::string> line;
    bool all_ok = true;
    for (size_t i = 0; i < seq.size() && bad.empty(); i++) {
        auto &op = O[seq[i]];
        State t = s;
        bool ok = op.apply(f, t);
        bool cross = op.args[0] == "--convert" && ok && s.files.count("a-" + op.args[1]) == 0 && t.files["a-" + op.args[1]] == "*";
        if (cross && together)
            all_ok = true; // judged below: only in single commands
        if (ok)
            s = t;
        for (auto &a : op.args)
            line.push_back(a);
        if (together) {
            if (!ok) {
                all_ok = false;
                break;
            }
            continue;
        }
        auto a = op.args;
        a.push_back("a.bsp");
        std::string no = tool(a);
        if (no.rfind("crash", 0) == 0)
            bad = op.name + ": " + no;
        else if (ok && no.size() && !cross)
            bad = op.name + " is refused: " + no;
        else if (!ok && no.empty())
            bad = op.name + " is not refused";
        else if (op.args[0] == "--extract-entities") {
            char b[32];
            snprintf(b, sizeof b, "CRC: %04x]", crc(ent_text(f, s.raw)));
            if (said.find(b) == std::string::npos)
                bad = std::string("the CRC is not ") + b;
        }
        std::filesystem::current_path("..");
        if (bad.empty())
            bad = judge(f, s);
        std::filesystem::current_path("w");
    }
    if (together) {
        line.push_back("a.bsp");
        std::string no = tool(line);
        if (no.rfind("crash", 0) == 0 || (all_ok && no.size()))
            bad = no;
        else if (!all_ok && no.empty())
            bad = "not refused";
        std::filesystem::current_path("..");
        if (bad.empty())
            bad = judge(f, s);
    } else
        std::filesystem::current_path("..");
    ctx.nontrivial(hstr(what));
    std::string end;
    for (auto &[n, d] : s.files)
        end += n + d;
    ctx.outcome(hstr(end + to_file(f, s.raw)));
    ctx.count(together ? "commands" : "runs", together ? 1 : seq.size());
    if (bad.size())
        ctx.fail(key, what + " " + bad);
}
// ---------------------------------------------------------------- geometry
int walk(const Format &f, const Raw &r, bool clip, int n, V3 p, double *nearest = nullptr)
{
    const char *l = clip ? "clipnodes" : "nodes";
    for (int guard = 0; n >= 0; guard++) {
        if (guard > 100)
            throw std::runtime_error("the tree has a loop");
        int k = at(f, r, l, n, "planenum");
        V3 q{at(f, r, "planes", k, "normal", 0), at(f, r, "planes", k, "normal", 1), at(f, r, "planes", k, "normal", 2)};
        double d = dot(p, q) - at(f, r, "planes", k, "dist");
        if (nearest)
            *nearest = std::min(*nearest, std::abs(d));
        n = at(f, r, l, n, "children", d < 0);
    }
    return n;
}
// the corners of a face in order; empty if the edges don't form a loop
std::vector<V3> corners(const Format &f, const Raw &r, int n)
{
    std::vector<V3> v;
    int first = at(f, r, "faces", n, "firstedge"), num = at(f, r, "faces", n, "numedges"), last = -1, start = -1;
    for (int i = 0; i < num; i++) {
        int e = at(f, r, "surfedges", first + i, "v");
        int a = at(f, r, "edges", std::abs(e), "v", e < 0), b = at(f, r, "edges", std::abs(e), "v", e >= 0);
        if (i && a != last)
            return {};
        if (!i)
            start = a;
        last = b;
        v.push_back({at(f, r, "vertexes", a, "pos", 0), at(f, r, "vertexes", a, "pos", 1), at(f, r, "vertexes", a, "pos", 2)});
    }
    return last == start ? v : std::vector<V3>{};
}
V3 newell(const std::vector<V3> &v)
{
    V3 n{0, 0, 0};
    for (size_t i = 1; i + 1 < v.size(); i++)
        n = n + cross(v[i] - v[0], v[i + 1] - v[0]);
    return n;
}
template<typename T>
T rd(const std::string &s, size_t o)
{
    T v;
    if (o + sizeof v > s.size())
        throw std::runtime_error("extension lump is too short");
    memcpy(&v, &s[o], sizeof v);
    return v;
}
std::string near_(double a, double b, const std::string &what, double eps = 1e-4)
{
    if (std::abs(a - b) <= eps * std::max({1.0, std::abs(a), std::abs(b)}))
        return "";
    std::ostringstream o;
    o << what << " is " << a << " instead of " << b;
    return o.str();
}
std::string scaled(const Format &f, const Raw &a, const Raw &b, V3 k)
{
    auto S = [&](V3 p) { return V3{p[0] * k[0], p[1] * k[1], p[2] * k[2]}; };
    std::string e;
    int np = count(f, b, "planes");
    for (int i = 0; i < np; i++) {
        V3 n{at(f, b, "planes", i, "normal", 0), at(f, b, "planes", i, "normal", 1), at(f, b, "planes", i, "normal", 2)};
        std::string w = "plane " + std::to_string(i);
        if ((e = near_(dot(n, n), 1, w + "'s squared length")).size())
            return e;
        int t = at(f, b, "planes", i, "type"), tt = type_of(n);
        bool tie = false;
        if (tt >= 3 && t >= 3 && t <= 5)
            tie = std::abs(std::abs(n[t - 3]) - std::abs(n[tt - 3])) < 1e-5;
        if (t != tt && !tie)
            return w + " has type " + std::to_string(t) + " instead of " + std::to_string(tt);
        if (f.q2) {
            int j = i ^ 1;
            if (j >= np)
                return w + " has no opposite";
            for (int x = 0; x < 3; x++)
                if ((e = near_(at(f, b, "planes", j, "normal", x), -n[x], "the opposite of " + w)).size())
                    return e;
            if ((e = near_(at(f, b, "planes", j, "dist"), -at(f, b, "planes", i, "dist"), "distance of the opposite of " + w)).size())
                return e;
        }
    }
    for (const char *l : {"nodes", "clipnodes"}) {
        if (!find_struct(f, l))
            continue;
        for (size_t i = 0; i < count(f, b, l); i++) {
            int p = at(f, b, l, i, "planenum");
            int t = at(f, b, "planes", p, "type");
            if (t < 3 && at(f, b, "planes", p, "normal", t) < 0)
                return std::string(l) + " " + std::to_string(i) + " splits by an axial plane that faces backwards";
            if (f.q2 && p % 2)
                return "node " + std::to_string(i) + " uses the second plane of a pair";
        }
    }
    for (double x : {-30., -10., -3., 5., 13., 21., 40.})
        for (double y : {-30., -10., -3., 5., 13., 21., 40.})
            for (double z : {-30., -10., -3., 5., 13., 21., 40.}) {
                V3 p{x, y, z};
                for (int h = 0; h < (f.q2 ? 1 : 3); h++) {
                    double d = 1e9;
                    int m = walk(f, a, h > 0, at(f, a, "models", 0, "headnode", h), p, &d);
                    if (d < 0.05)
                        continue;
                    int n = walk(f, b, h > 0, at(f, b, "models", 0, "headnode", h), S(p));
                    if (m != n) {
                        std::ostringstream o;
                        o << "hull " << h << ": the point that was " << x << " " << y << " " << z << " in " << m << " is now in " << n;
                        return o.str();
                    }
                }
            }
    if (count(f, a, "faces") != count(f, b, "faces"))
        return "the number of faces changed";
    std::string dla, dlb, lga, lgb;
    for (auto &p : a.bspx)
        (p.first == "DECOUPLED_LM" ? dla : p.first == "LIGHTGRID_OCTREE" ? lga : e) = p.second;
    e = "";
    std::string other;
    for (auto &p : b.bspx)
        (p.first == "DECOUPLED_LM" ? dlb : p.first == "LIGHTGRID_OCTREE" ? lgb : other) = p.second;
    if (other != std::string("a\0b", 3))
        return "an unrelated extension lump changed";
    if (dla.size() != dlb.size() || lga.size() != lgb.size())
        return "the size of an extension lump changed";
    for (size_t i = 0; i < count(f, a, "faces"); i++) {
        auto va = corners(f, a, i), vb = corners(f, b, i);
        std::string w = "face " + std::to_string(i);
        if (va.empty() || vb.size() != va.size())
            return w + " is no loop of edges any more";
        auto plane = [&](const Raw &r) {
            int p = at(f, r, "faces", i, "planenum");
            double s = at(f, r, "faces", i, "side") ? -1 : 1;
            Pl q{{s * at(f, r, "planes", p, "normal", 0), s * at(f, r, "planes", p, "normal", 1), s * at(f, r, "planes", p, "normal", 2)}, s * at(f, r, "planes", p, "dist")};
            return q;
        };
        Pl pa = plane(a), pb = plane(b);
        if ((dot(newell(va), pa.n) < 0) != (dot(newell(vb), pb.n) < 0))
            return w + " is wound the other way round";
        for (auto &v : vb)
            if (std::abs(dot(v, pb.n) - pb.d) > 0.01)
                return w + " doesn't lie on its plane";
        // in front stays in front
        V3 front = S(va[0] + pa.n * 2);
        if (dot(front, pb.n) - pb.d <= 0)
            return w + " faces the other way";
        int ta = at(f, a, "faces", i, "texinfo");
        if (at(f, b, "faces", i, "texinfo") != ta)
            return w + ": other texinfo";
        for (auto &v : va) {
            bool found = false;
            for (auto &u : vb) {
                V3 d = u - S(v);
                found |= dot(d, d) < 1e-4;
            }
            if (!found)
                return w + " lost a corner";
            for (int r = 0; r < 2; r++)
                for (int dl = 0; dl < 2; dl++) {
                    auto coord = [&](const Raw &q, const std::string &l, V3 p) {
                        double c = 0;
                        for (int x = 0; x < 4; x++)
                            c += (x == 3 ? 1 : p[x]) * (dl ? rd<float>(l, 40 * i + 8 + 16 * r + 4 * x) : at(f, q, "texinfo", ta, "vecs", 4 * r + x));
                        return c;
                    };
                    if ((e = near_(coord(b, dlb, S(v)), coord(a, dla, v), w + (dl ? ": lightmap coordinate" : ": texture coordinate"), 1e-3)).size())
                        return e;
                }
        }
        if (dla.substr(40 * i, 8) != dlb.substr(40 * i, 8))
            return w + ": other lightmap";
        for (const char *c : {"lightofs", "numedges"})
            if (at(f, a, "faces", i, c) != at(f, b, "faces", i, c))
                return w + ": other " + c;
    }
    for (const char *l : {"models", "nodes", "leafs"})
        for (size_t i = 0; i < count(f, a, l); i++)
            for (int x = 0; x < 3; x++) {
                double lo = at(f, a, l, i, "mins", x) * k[x], hi = at(f, a, l, i, "maxs", x) * k[x];
                if (lo > hi)
                    std::swap(lo, hi);
                if (*l != 'm')
                    lo = std::floor(lo), hi = std::ceil(hi);
                std::string w = std::string(l) + " " + std::to_string(i) + ": ";
                if ((e = near_(at(f, b, l, i, "mins", x), lo, w + "mins")).size() || (e = near_(at(f, b, l, i, "maxs", x), hi, w + "maxs")).size())
                    return e;
                if (*l == 'm' && (e = near_(at(f, b, l, i, "origin", x), at(f, a, l, i, "origin", x) * k[x], w + "origin")).size())
                    return e;
            }
    // the sample (i, j, k) of the light grid is at the scaled place
    for (int x = 0; x < 3; x++) {
        for (int n = 0; n < 2; n++)
            if ((e = near_(rd<float>(lgb, 24 + 4 * x) + n * rd<float>(lgb, 4 * x), k[x] * (rd<float>(lga, 24 + 4 * x) + n * rd<float>(lga, 4 * x)), "place of a light grid sample")).size())
                return e;
    }
    if (lga.substr(12, 12) != lgb.substr(12, 12) || lga.substr(36) != lgb.substr(36))
        return "the samples of the light grid changed";
    if (f.q2)
        for (size_t i = 0; i < count(f, a, "brushsides"); i++) {
            auto plane = [&](const Raw &r) {
                int p = at(f, r, "brushsides", i, "planenum");
                return Pl{{at(f, r, "planes", p, "normal", 0), at(f, r, "planes", p, "normal", 1), at(f, r, "planes", p, "normal", 2)}, at(f, r, "planes", p, "dist")};
            };
            Pl pa = plane(a), pb = plane(b);
            V3 in = S(pa.n * (pa.d - 1)), out = S(pa.n * (pa.d + 1)), on = S(pa.n * pa.d);
            if (dot(in, pb.n) >= pb.d || dot(out, pb.n) <= pb.d || std::abs(dot(on, pb.n) - pb.d) > 0.01)
                return "brush side " + std::to_string(i) + " has another plane";
        }
    // untouched lumps
    for (const char *l : {"lighting", "visibility", "textures", "marksurfaces", "edges", "leafbrushes", "brushes", "areas", "areaportals"})
        if (f.lumpnum.count(l) && a.lumps[f.lumpnum.at(l)] != b.lumps[f.lumpnum.at(l)])
            return std::string(l) + " changed";
    // entities
    std::ostringstream o;
    auto num = [](double v) {
        std::ostringstream s;
        s.precision(9);
        s << v;
        return s.str();
    };
    std::vector<std::string> want{"{", "classname", "worldspawn", "message", "a \\\"b", "}", "{", "classname", "item", "origin", num(16 * k[0]) + " " + num(-8.5 * k[1]) + " " + num(4 * k[2]), "}", "{", "classname", "func_door", "lip", num(2 * k[2] + 2), "height", num(10 * k[2]), "netname", "*1", "}"};
    std::vector<std::string> got;
    std::string t = ent_text(f, b);
    for (size_t i = 0; i < t.size(); i++) {
        if (t[i] == '{' || t[i] == '}')
            got.push_back(std::string(1, t[i]));
        else if (t[i] == '"') {
            std::string w;
            for (i++; i < t.size() && t[i] != '"'; i++) {
                if (t[i] == '\\' && i + 1 < t.size())
                    w += t[i++];
                w += t[i];
            }
            got.push_back(w);
        }
    }
    if (got != want) {
        std::string m = "entities:";
        for (auto &x : got)
            m += " " + x;
        return m;
    }
    return "";
}
std::string n2s(double v)
{
    std::ostringstream o;
    o << v;
    return o.str();
}
std::vector<Tree> trees(bool deep)
{
    std::vector<Tree> t;
    int n = deep ? 6 : 4;
    for (int a = 0; a < n; a++)
        for (int b = 0; b < n; b++)
            for (int c = 0; c < n; c++)
                for (int x = 0; x < (deep ? 8 : 1); x++)
                    if (a != b && a != c && (deep || (a + 2 * b + 3 * c) % 2 == 0))
                        t.push_back({{a, b, c}, deep ? x : (a * 3 + b * 5 + c) % 8});
    return t;
}
std::vector<Space> u02(Tier tier)
{
    bool deep = tier == Tier::thorough;
    std::vector<Space> r;
    int nf = formats().size(), no = ops().size();
    auto last_only = [](int o) { return ops()[o].name == "set large texinfo"; };
    {
        Space s;
        s.name = "one operation";
        s.size = nf * no;
        s.run = [=](uint64_t i, Ctx &ctx) { sequence(formats()[i % nf], {int(i / nf)}, false, "one operation", ctx); };
        r.push_back(s);
    }
    {
        // a missing last argument: the map's name is no argument of the option
        Space s;
        s.name = "arguments missing";
        s.size = no * 3;
        s.run = [=](uint64_t i, Ctx &ctx) {
            auto op = ops()[i / 3];
            auto &f = formats()[i % 3 == 0 ? 0 : i % 3 == 1 ? 3 : 7];
            if (op.args.size() < 2)
                return;
            for (size_t n = 1; n < op.args.size(); n++) {
                State s = start(f);
                lay(f, s);
                std::filesystem::current_path("w");
                auto a = std::vector<std::string>(op.args.begin(), op.args.begin() + n);
                a.push_back("a.bsp");
                std::string no = tool(a);
                std::filesystem::current_path("..");
                std::string bad = no.empty() ? "is not refused" : no.rfind("crash", 0) == 0 ? no : judge(f, s);
                if (bad.size())
                    ctx.fail("arguments", f.name + ": " + op.args[0] + " with " + std::to_string(n - 1) + " arguments: " + bad);
            }
        };
        r.push_back(s);
    }
    for (int tog = 0; tog < 2; tog++) {
        Space s;
        s.name = tog ? "two in one command" : "two operations";
        s.size = (uint64_t)nf * no * no;
        s.run = [=](uint64_t i, Ctx &ctx) {
            auto &f = formats()[i % nf];
            int a = i / nf % no, b = i / nf / no;
            if (last_only(a))
                return;
            auto &O = ops();
            // crossing families in one command: whether it is refused is B02's matter
            if (tog)
                for (int x : {a, b})
                    if (O[x].args[0] == "--convert")
                        for (auto &g : formats())
                            if (g.name == O[x].args[1] && g.q2 != f.q2)
                                return;
            sequence(f, {a, b}, tog, tog ? "two in one command" : "two operations", ctx);
        };
        r.push_back(s);
    }
    {
        // three operations out of those that change files
        static std::vector<int> edits;
        if (edits.empty())
            for (int o = 0; o < no; o++) {
                auto &n = ops()[o].name;
                if (n.find("missing") == std::string::npos && (n.find("entities") != std::string::npos || n.find("textures") != std::string::npos || n.find("lump") != std::string::npos || n == "set texinfo"))
                    edits.push_back(o);
            }
        Space s;
        s.name = "three edits";
        int k = edits.size();
        std::vector<int> fs = deep ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8} : std::vector<int>{0};
        s.size = (uint64_t)fs.size() * k * k * k * (deep ? 2 : 1);
        s.run = [=](uint64_t i, Ctx &ctx) {
            auto &f = formats()[fs[i % fs.size()]];
            i /= fs.size();
            int a = i % k, b = i / k % k, c = i / k / k % k;
            bool tog = deep ? i / k / k / k : (a + b + c) % 2;
            sequence(f, {edits[a], edits[b], edits[c]}, tog, "three edits", ctx);
        };
        r.push_back(s);
    }
    {
        auto T = trees(deep);
        std::vector<double> K = deep ? std::vector<double>{1, -1, 2, 0.5, -3} : std::vector<double>{1, -2, 0.5};
        Space s;
        s.name = "scale";
        int nk = K.size(), nt = T.size();
        s.size = (uint64_t)nf * nk * nk * nk * nt;
        s.run = [=](uint64_t i, Ctx &ctx) {
            auto &f = formats()[i % nf];
            i /= nf;
            V3 k{K[i % nk], K[i / nk % nk], K[i / nk / nk % nk]};
            Tree t = T[i / nk / nk / nk];
            State s;
            s.raw = world(f, t);
            lay(f, s);
            std::filesystem::current_path("w");
            std::string bad = tool({"--scale", n2s(k[0]), n2s(k[1]), n2s(k[2]), "a.bsp"});
            std::filesystem::current_path("..");
            if (bad.size())
                bad = "refused: " + bad;
            Raw b;
            if (bad.empty())
                bad = from_file(f, slurp("w/a-scaled.bsp"), b);
            try {
                if (bad.empty())
                    bad = scaled(f, s.raw, b, k);
            } catch (std::exception &e) {
                bad = e.what();
            }
            std::filesystem::remove("w/a-scaled.bsp");
            if (bad.empty())
                bad = judge(f, s);
            ctx.nontrivial(hstr(to_file(f, s.raw), i));
            if (bad.size())
                ctx.fail("scale", f.name + " by " + n2s(k[0]) + " " + n2s(k[1]) + " " + n2s(k[2]) + ", tree " + std::to_string(t.plane[0]) + std::to_string(t.plane[1]) + std::to_string(t.plane[2]) + "/" + std::to_string(t.flip) + ": " + bad);
        };
        r.push_back(s);
    }
    {
        // --findleaf and --findfaces
        auto T = trees(deep);
        Space s;
        s.name = "find";
        int nt = T.size();
        s.size = (uint64_t)nf * nt;
        s.run = [=](uint64_t i, Ctx &ctx) {
            auto &f = formats()[i % nf];
            State s;
            s.raw = world(f, T[i / nf]);
            lay(f, s);
            std::string bad;
            std::filesystem::current_path("w");
            for (double x : {-10., 5., 21.})
                for (double y : {-10., 3., 13.})
                    for (double z : {-11., -1., 7.}) {
                        V3 p{x, y, z};
                        double d = 1e9;
                        int l = walk(f, s.raw, false, 0, p, &d);
                        if (d < 0.05)
                            continue;
                        std::string no = tool({"--findleaf", n2s(x), n2s(y), n2s(z), "a.bsp"});
                        if (no.size() || said.find("leaf " + std::to_string(-1 - l) + ": contents " + std::to_string((int)at(f, s.raw, "leafs", -1 - l, "contents")) + " (") == std::string::npos)
                            bad = "the leaf at " + n2s(x) + " " + n2s(y) + " " + n2s(z) + " is " + std::to_string(-1 - l) + no;
                    }
            for (int n = 0; n < 3; n++) {
                auto v = corners(f, s.raw, n);
                V3 m{0, 0, 0};
                for (auto &c : v)
                    m = m + c * (1.0 / v.size());
                Pl p = PL[T[i / nf].plane[n]];
                V3 q = T[i / nf].flip >> n & 1 ? p.n * -1 : p.n;
                // reached by the tree?
                if (n) {
                    Pl r0 = PL[T[i / nf].plane[0]];
                    double d = dot(m, r0.n) - r0.d;
                    if (std::abs(d) < 0.5 || at(f, s.raw, "nodes", 0, "children", d < 0) != n)
                        continue;
                }
                std::vector<std::string> a{"--findfaces"};
                for (int x = 0; x < 3; x++)
                    a.push_back(n2s(m[x]));
                for (int x = 0; x < 3; x++)
                    a.push_back(n2s(q[x]));
                a.push_back("a.bsp");
                std::string no = tool(a), tex = f.q2 ? (n % 2 ? "second" : "first") : (n % 2 ? "second" : "first");
                if (no.size() || said.find("model 0 face " + std::to_string(n) + ": texture '" + tex + "' texinfo " + std::to_string(n % 2)) == std::string::npos)
                    bad = "face " + std::to_string(n) + " is not found at its centre " + no + said.substr(said.rfind("model") == std::string::npos ? 0 : said.rfind("model"));
                for (int x = 0; x < 3; x++)
                    a[4 + x] = n2s(-q[x]);
                no = tool(a);
                if (no.size() || said.find("model 0 face") != std::string::npos)
                    bad = "face " + std::to_string(n) + " is found from behind " + no;
            }
            std::filesystem::current_path("..");
            if (bad.empty())
                bad = judge(f, s);
            ctx.nontrivial(hstr(to_file(f, s.raw), i));
            if (bad.size())
                ctx.fail("find", f.name + ": " + bad);
        };
        r.push_back(s);
    }
    {
        // textures of every size, with and without data, out to a WAD and back
        struct X
        {
            int w, h, kind; // 0 none, 1 header, 2 pixels, 3 pixels and something behind
        };
        std::vector<X> X_;
        for (int w : {8, 16, 24, 64})
            for (int h : {8, 16, 40})
                for (int k = 1; k < 4; k++)
                    X_.push_back({w, h, k});
        X_.push_back({0, 0, 0});
        Space s;
        s.name = "textures";
        int n = X_.size();
        s.size = (uint64_t)7 * n * n;
        s.run = [=](uint64_t i, Ctx &ctx) {
            auto &f = formats()[i % 7];
            bool pal = f.family == "hl";
            State s;
            s.raw = world(f, Tree{{0, 2, 3}, 0});
            std::vector<Miptex> v;
            std::vector<std::string> out, changed;
            std::vector<Miptex> after;
            int c[2] = {int(i / 7 % n), int(i / 7 / n)};
            for (int k = 0; k < 2; k++) {
                auto &x = X_[c[k]];
                std::string name = k ? "*lava" : "Brick_1";
                Miptex m;
                m.null = !x.kind;
                if (x.kind == 1)
                    m = miptex(name, x.w, x.h);
                if (x.kind >= 2)
                    m.data = pixels(name, x.w, x.h, 7 + k, pal);
                if (x.kind == 3)
                    m.data += std::string(8, 'x');
                v.push_back(m);
                Miptex m2 = m;
                if (x.kind >= 2) {
                    out.push_back(m.data);
                }
                if (x.kind) {
                    m2.data = pixels(name, x.w, x.h, 99 + k, pal);
                    changed.push_back(m2.data);
                }
                after.push_back(m2);
            }
            auto &l = s.raw.lumps[f.lumpnum.at("textures")];
            l = miptex_lump(v);
            lay(f, s);
            std::filesystem::current_path("w");
            std::string bad = tool({"--extract-textures", "a.bsp"}), got;
            if (bad.empty()) {
                got = slurp("a.wad");
                // the data may be padded to a multiple of four
                auto t = textures(miptex_lump(v));
                std::vector<std::string> padded;
                for (auto &m : t)
                    if (m.data.size() > 40)
                        padded.push_back(m.data);
                if (got != wad(pal, padded))
                    bad = "the WAD is not as expected";
                s.files["a.wad"] = got;
            }
            if (bad.empty())
                bad = tool({"--replace-textures", "a.wad", "a.bsp"});
            std::filesystem::current_path("..");
            if (bad.empty())
                bad = judge(f, s);
            if (bad.empty()) {
                spit("w/n.wad", wad(pal, changed));
                s.files["n.wad"] = wad(pal, changed);
                l = miptex_lump(after);
                std::filesystem::current_path("w");
                bad = tool({"--replace-textures", "n.wad", "a.bsp"});
                std::filesystem::current_path("..");
                if (bad.empty())
                    bad = judge(f, s);
            }
            ctx.nontrivial(hstr(to_file(f, s.raw), i));
            if (bad.size())
                ctx.fail("textures", f.name + ": textures of kind " + std::to_string(X_[c[0]].kind) + " " + std::to_string(X_[c[0]].w) + "x" + std::to_string(X_[c[0]].h) + ", " + std::to_string(X_[c[1]].kind) + " " + std::to_string(X_[c[1]].w) + "x" + std::to_string(X_[c[1]].h) + ": " + bad);
        };
        r.push_back(s);
    }
    return r;
}
} // namespace
int main(int argc, char **argv)
{
    logging::mask = logging::flag::NONE;
    return main_(argc, argv,
        {{"U02", "exploration", "bsputil runs on small valid maps of every format with every operation, every pair of operations in two commands and in one, and every triple of edits; after each the whole directory is compared with an independent model of what the operation does to each lump. Scaling is judged on every tree of a family by point location in all hulls, faces, texture and lightmap coordinates, bounds and the light grid; textures go out to a WAD and back in every combination of sizes", {"scaling leaves FACENORMALS and BRUSHLIST lumps alone (experimental option)", "--replace-entities on a .map is not covered"}, u02, 200, 3000}});
}
