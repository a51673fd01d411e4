// U03: maputil's Lua scripts, queries and commands on the real tool (maputil/maputil.cc)
#include <mc/explore.hh>
#include "mapref.hh"
#include <common/log.hh>
#include <common/fs.hh>
#include <common/mapfile.hh>
#include <common/bspfile.hh>
#include <fstream>
#include <functional>
#include <memory>
#include <set>
#include <sstream>
#include <unistd.h>
using namespace mc;
int maputil_main(int argc, char **argv);
extern const gamedef_t *current_game;

namespace
{
void put(const std::string &name, const std::string &s)
{
    std::ofstream(name, std::ios::binary) << s;
}
std::string get(const std::string &name)
{
    std::ifstream f(name, std::ios::binary);
    std::ostringstream o;
    o << f.rdbuf();
    return o.str();
}
std::vector<std::string> matched;
// false: refused
bool tool(std::vector<std::string> a)
{
    a.insert(a.begin(), "maputil");
    std::vector<char *> v;
    for (auto &x : a)
        v.push_back(x.data());
    v.push_back(nullptr);
    matched.clear();
    current_game = nullptr;
    logging::set_print_callback([](logging::flag, const char *s) {
        if (!strncmp(s, "MATCHED: ", 9))
            matched.push_back(s + 9);
    });
    logging::mask = logging::flag::DEFAULT;
    bool ok = true;
    try {
        maputil_main(a.size(), v.data());
    } catch (std::exception &e) {
        printf("refused: %s\n", e.what());
        ok = false;
    }
    logging::mask = logging::flag::NONE;
    logging::set_print_callback(nullptr);
    return ok;
}
// ---------------------------------------------------------------- what a script works on
struct Pair
{
    std::string k, v;
};
struct MBrush
{
    std::vector<std::shared_ptr<Face>> s;
};
struct MEnt
{
    bool hasdict = false, hasb = false;
    std::vector<std::shared_ptr<Pair>> d;
    std::vector<std::shared_ptr<MBrush>> b;
};
struct Model
{
    std::vector<std::shared_ptr<MEnt>> e;
    std::vector<Ent> committed;
    std::shared_ptr<MEnt> ent(size_t i) { return i < e.size() ? e[i] : nullptr; }
    std::shared_ptr<MBrush> brush(size_t i, size_t j)
    {
        auto x = ent(i);
        return x && x->hasb && j < x->b.size() ? x->b[j] : nullptr;
    }
    std::shared_ptr<Face> side(size_t i, size_t j, size_t k)
    {
        auto x = brush(i, j);
        return x && k < x->s.size() ? x->s[k] : nullptr;
    }
};
void load_model(Model &m, const std::vector<Ent> &w)
{
    m.e.clear();
    for (auto &x : w) {
        auto e = std::make_shared<MEnt>();
        e->hasdict = !x.kv.empty();
        e->hasb = !x.b.empty();
        for (auto &p : x.kv)
            e->d.push_back(std::make_shared<Pair>(Pair{p.first, p.second}));
        for (auto &b : x.b) {
            auto n = std::make_shared<MBrush>();
            for (auto &f : b.f)
                n->s.push_back(std::make_shared<Face>(f));
            e->b.push_back(n);
        }
        m.e.push_back(e);
    }
}
void commit(Model &m)
{
    m.committed.clear();
    for (auto &x : m.e) {
        Ent e;
        if (x->hasdict)
            for (auto &p : x->d) {
                bool found = false;
                for (auto &q : e.kv)
                    if (q.first == p->k)
                        q.second = p->v, found = true;
                if (!found)
                    e.kv.emplace_back(p->k, p->v);
            }
        if (x->hasb)
            for (auto &b : x->b) {
                Brush n;
                for (auto &f : b->s)
                    n.f.push_back(*f);
                e.b.push_back(n);
            }
        m.committed.push_back(e);
    }
}
std::string g17(double v)
{
    char b[40];
    snprintf(b, 40, "%.17g", v);
    return b;
}
std::string q(const std::string &s) { return "\"" + s + "\""; }
std::string list(std::initializer_list<double> l)
{
    std::string r = "{";
    int k = 1;
    for (double v : l)
        r += std::to_string(k++) + "=" + g17(v) + ";";
    return r + "}";
}
// the text the dump script writes for a map
std::string expected_dump(const std::vector<Ent> &w)
{
    std::string r = "{";
    int n = 1;
    for (auto &x : w) {
        r += std::to_string(n++) + "={";
        if (!x.b.empty()) {
            r += "brushes={";
            int bn = 1;
            for (auto &b : x.b) {
                r += std::to_string(bn++) + "={";
                int sn = 1;
                for (auto &f : b.f) {
                    r += std::to_string(sn++) + "={";
                    if (f.ext)
                        r += "info={contents=" + g17(f.e[0]) + ";flags=" + g17(f.e[1]) + ";value=" + g17(f.e[2]) + ";};";
                    r += "plane_points={";
                    for (int i = 0; i < 3; i++)
                        r += std::to_string(i + 1) + "=" + list({f.p[i].x, f.p[i].y, f.p[i].z}) + ";";
                    r += "};raw={";
                    r += f.kind == 0 ? "quaked={" : f.kind == 1 ? "valve={" : "etp={";
                    if (f.kind == 1)
                        r += "axis={1=" + list({f.num[5], f.num[6], f.num[7]}) + ";2=" + list({f.num[8], f.num[9], f.num[10]}) + ";};";
                    r += "rotate=" + g17(f.num[2]) + ";scale=" + list({f.num[3], f.num[4]}) + ";shift=" + list({f.num[0], f.num[1]}) + ";";
                    if (f.kind >= 2)
                        r += std::string("tx2=") + (f.kind == 3 ? "true" : "false") + ";";
                    r += "};};texture=" + q(f.tex) + ";};";
                }
                r += "};";
            }
            r += "};";
        }
        if (!x.kv.empty()) {
            r += "dict={";
            int k = 1;
            for (auto &p : x.kv)
                r += std::to_string(k++) + "={1=" + q(p.first) + ";2=" + q(p.second) + ";};";
            r += "};";
        }
        r += "};";
    }
    return r + "}";
}
const char *PRELUDE = R"LUA(
local function ser(v, top)
  if type(v) == "number" then return string.format("%.17g", v) end
  if type(v) == "string" then return '"' .. v .. '"' end
  if type(v) ~= "table" then return tostring(v) end
  local n, s = {}, {}
  for k in pairs(v) do
    if type(k) == "number" then n[#n+1] = k
    elseif k ~= "plane" and k ~= "vecs" then s[#s+1] = k end
  end
  table.sort(n) table.sort(s)
  local r = "{"
  for _, k in ipairs(n) do r = r .. string.format("%d=", k) .. ser(v[k]) .. ";" end
  for _, k in ipairs(s) do r = r .. k .. "=" .. ser(v[k]) .. ";" end
  return r .. "}"
end
function dump(path)
  local f = io.open(path, "wb")
  f:write(ser(entities), "\n")
  for _, e in ipairs(entities) do for _, b in ipairs(e.brushes or {}) do for _, s in ipairs(b) do
    for i = 1, 4 do f:write(string.format("%.17g ", s.plane[i])) end
    for j = 1, 2 do for i = 1, 4 do f:write(string.format("%.17g ", s.vecs[j][i])) end end
    f:write("\n")
  end end end
  f:close()
end
function dumpv(path, v)
  local f = io.open(path, "wb")
  f:write(ser(v))
  f:close()
end
function ent(e) return entities[e] end
function brush(e, b) local x = entities[e]; return x and x.brushes and x.brushes[b] end
function side(e, b, s) local x = brush(e, b); return x and x[s] end
function raw(e, b, s) local x = side(e, b, s); if x then return select(2, next(x.raw)) end end
)LUA";
// planes and texture vectors the script sees, by definition
std::string check_derived(const std::string &dump, const std::vector<Ent> &w)
{
    std::istringstream in(dump);
    std::string line;
    std::getline(in, line);
    for (auto &e : w)
        for (auto &b : e.b)
            for (auto &f : b.f) {
                double pl[4], v[8];
                for (double &x : pl)
                    in >> x;
                for (double &x : v)
                    in >> x;
                if (!in)
                    return "planes are missing";
                V3 n = normal_of(f);
                n = n * (1 / sqrt(dot(n, n)));
                for (int c = 0; c < 3; c++)
                    if (!(fabs(pl[c] - n[c]) < 1e-9))
                        return "plane normal";
                if (!(fabs(pl[3] - dot(n, f.p[0])) < 1e-6))
                    return "plane distance";
                V3 pv[2];
                double sh[2];
                projection(f, pv, sh);
                for (int a = 0; a < 3; a++) {
                    UV e = at(pv, sh, f.p[a]);
                    double s = v[3], t = v[7];
                    for (int c = 0; c < 3; c++)
                        s += v[c] * f.p[a][c], t += v[4 + c] * f.p[a][c];
                    if (!(fabs(s - e.s) < 0.02 + 1e-5 * fabs(e.s)) || !(fabs(t - e.t) < 0.02 + 1e-5 * fabs(e.t)))
                        return "texture vectors";
                }
            }
    return "";
}
// ---------------------------------------------------------------- operations of a script
struct Op
{
    std::string lua;
    std::function<void(Model &)> f;
};
std::vector<Op> make_ops()
{
    std::vector<Op> r;
    auto S = [](int v) { return std::to_string(v); };
    auto add = [&](std::string l, std::function<void(Model &)> f) { r.push_back({l, f}); };
    add("commit_map()", [](Model &m) { commit(m); });
    for (int e = 0; e < 3; e++) {
        std::string E = S(e + 1), x = "do local e=ent(" + E + ") if e then ", X = " end end";
        add(x + "if e.dict and e.dict[1] then e.dict[1][2]='v " + E + "' end" + X, [=](Model &m) { auto p = m.ent(e); if (p && p->hasdict && p->d.size()) p->d[0]->v = "v " + S(e + 1); });
        add(x + "if e.dict and e.dict[2] then e.dict[2][1]='k" + E + "' end" + X, [=](Model &m) { auto p = m.ent(e); if (p && p->hasdict && p->d.size() > 1) p->d[1]->k = "k" + S(e + 1); });
        add(x + "e.dict=e.dict or {} table.insert(e.dict,{'new','1 2 3'})" + X, [=](Model &m) { auto p = m.ent(e); if (p) { if (!p->hasdict) p->d.clear(); p->hasdict = true; p->d.push_back(std::make_shared<Pair>(Pair{"new", "1 2 3"})); } });
        add(x + "if e.dict then table.remove(e.dict,1) end" + X, [=](Model &m) { auto p = m.ent(e); if (p && p->hasdict && p->d.size()) p->d.erase(p->d.begin()); });
        add("if ent(" + E + ") then table.remove(entities," + E + ") end", [=](Model &m) { if (m.ent(e)) m.e.erase(m.e.begin() + e); });
        add("if ent(" + E + ") then table.insert(entities, ent(" + E + ")) end", [=](Model &m) { if (m.ent(e)) m.e.push_back(m.ent(e)); });
        add("if ent(" + E + ") and ent(1) then entities[" + E + "],entities[1]=entities[1],entities[" + E + "] end", [=](Model &m) { if (m.ent(e) && m.ent(0)) std::swap(m.e[e], m.e[0]); });
        add(x + "e.brushes=nil" + X, [=](Model &m) { auto p = m.ent(e); if (p) p->hasb = false, p->b.clear(); });
        add(x + "if brush(1,1) then e.brushes=e.brushes or {} table.insert(e.brushes,1,brush(1,1)) end" + X, [=](Model &m) { auto p = m.ent(e); auto b = m.brush(0, 0); if (p && b) { p->hasb = true; p->b.insert(p->b.begin(), b); } });
    }
    add("table.insert(entities,1,{dict={{'classname','light'},{'light','300'},{'classname','light2'}}})", [](Model &m) { auto e = std::make_shared<MEnt>(); e->hasdict = true; for (auto &p : {Pair{"classname", "light"}, Pair{"light", "300"}, Pair{"classname", "light2"}}) e->d.push_back(std::make_shared<Pair>(p)); m.e.insert(m.e.begin(), e); });
    add("table.insert(entities,{})", [](Model &m) { m.e.push_back(std::make_shared<MEnt>()); });
    add("entities={}", [](Model &m) { m.e.clear(); });
    add("if ent(1) then ent(1).dict=nil end", [](Model &m) { auto p = m.ent(0); if (p) p->hasdict = false, p->d.clear(); });
    // a brush built from nothing, one side in every notation
    add("if ent(2) then ent(2).brushes={{{texture='n0',plane_points={{0,0,64},{0,64,64},{64,0,64}},raw={quaked={shift={1,2},rotate=3,scale={4,5}}}},"
        "{texture='n1',plane_points={{0,0,-64},{64,0,-64},{0,64,-64}},raw={valve={axis={{1,0,0},{0,-1,0.5}},shift={6,7},rotate=8,scale={9,10}}},info={contents=1,value=3,flags=2}},"
        "{texture='n2',plane_points={{0.5,-64,0},{64,-64,0},{0.5,-64,64}},raw={etp={shift={0,0},rotate=0,scale={1,1},tx2=true}}},"
        "{texture='n3',plane_points={{0,64,0},{0,64,64},{64,64,0}},raw={etp={shift={0,0},rotate=0,scale={1,1},tx2=false}}}}} end",
        [](Model &m) {
            auto p = m.ent(1);
            if (!p)
                return;
            p->hasb = true;
            p->b.clear();
            auto b = std::make_shared<MBrush>();
            static const double P[4][9] = {{0, 0, 64, 0, 64, 64, 64, 0, 64}, {0, 0, -64, 64, 0, -64, 0, 64, -64}, {0.5, -64, 0, 64, -64, 0, 0.5, -64, 64}, {0, 64, 0, 0, 64, 64, 64, 64, 0}};
            static const double N[4][11] = {{1, 2, 3, 4, 5}, {6, 7, 8, 9, 10, 1, 0, 0, 0, -1, 0.5}, {0, 0, 0, 1, 1}, {0, 0, 0, 1, 1}};
            for (int k = 0; k < 4; k++) {
                Face f;
                for (int i = 0; i < 9; i++)
                    f.p[i / 3][i % 3] = P[k][i];
                f.tex = "n" + std::to_string(k);
                f.kind = k == 2 ? 3 : k == 3 ? 2 : k;
                for (int i = 0; i < 11; i++)
                    f.num[i] = N[k][i];
                if (k == 1)
                    f.ext = true, f.e[0] = 1, f.e[1] = 2, f.e[2] = 3;
                b->s.push_back(std::make_shared<Face>(f));
            }
            p->b.push_back(b);
        });
    for (int e : {0, 2})
        for (int b = 0; b < 2; b++) {
            if (e == 2 && b)
                continue;
            std::string EB = S(e + 1) + "," + S(b + 1), x = "do local b=brush(" + EB + ") if b then ", X = " end end";
            add("if brush(" + EB + ") then table.remove(entities[" + S(e + 1) + "].brushes," + S(b + 1) + ") end", [=](Model &m) { if (m.brush(e, b)) m.e[e]->b.erase(m.e[e]->b.begin() + b); });
            add(x + "if b[1] then table.remove(b,1) end" + X, [=](Model &m) { auto p = m.brush(e, b); if (p && p->s.size()) p->s.erase(p->s.begin()); });
            add(x + "if b[2] then b[1],b[2]=b[2],b[1] end" + X, [=](Model &m) { auto p = m.brush(e, b); if (p && p->s.size() > 1) std::swap(p->s[0], p->s[1]); });
            add(x + "if b[2] then b[1]=b[2] end" + X, [=](Model &m) { auto p = m.brush(e, b); if (p && p->s.size() > 1) p->s[0] = p->s[1]; });
            for (int s = 0; s < 2; s++) {
                std::string EBS = EB + "," + S(s + 1), y = "do local s=side(" + EBS + ") if s then ", z = "do local r=raw(" + EBS + ") if r then ";
                auto one = [&](std::string lua, std::function<void(Face &)> f) { add(lua, [=](Model &m) { auto p = m.side(e, b, s); if (p) f(*p); }); };
                one(y + "s.texture='t" + S(s) + "'" + X, [=](Face &f) { f.tex = "t" + S(s); });
                one(z + "r.shift[2]=r.shift[1]+0.25" + X, [](Face &f) { f.num[1] = f.num[0] + 0.25; });
                one(z + "r.scale[1]=r.scale[2]*2" + X, [](Face &f) { f.num[3] = f.num[4] * 2; });
                one(y + "s.info={contents=268435463,value=-80000,flags=16777225}" + X, [](Face &f) { f.ext = true; f.e[0] = 268435463; f.e[1] = 16777225; f.e[2] = -80000; });
                if (s == 0) {
                    one(z + "r.rotate=15" + X, [](Face &f) { f.num[2] = 15; });
                    one(z + "if r.axis then r.axis[1],r.axis[2]=r.axis[2],r.axis[1] end" + X, [](Face &f) { if (f.kind == 1) for (int i = 0; i < 3; i++) std::swap(f.num[5 + i], f.num[8 + i]); });
                    one(z + "if r.tx2~=nil then r.tx2=not r.tx2 end" + X, [](Face &f) { if (f.kind >= 2) f.kind = 5 - f.kind; });
                    one(y + "s.info=nil" + X, [](Face &f) { f.ext = false; f.e[0] = f.e[1] = f.e[2] = 0; });
                    one(y + "if s.info then s.info.flags=128 end" + X, [](Face &f) { if (f.ext) f.e[1] = 128; });
                    one(y + "for i=1,3 do s.plane_points[i][1]=s.plane_points[i][1]+8.5 end" + X, [](Face &f) { for (auto &p : f.p) p.x += 8.5; });
                    one(y + "s.plane_points[1][3]=s.plane_points[1][3]+4" + X, [](Face &f) { f.p[0].z += 4; });
                    one(y + "s.raw={quaked={shift={1,-2},rotate=90,scale={0.5,2}}}" + X, [](Face &f) { f.kind = 0; double n[13] = {1, -2, 90, 0.5, 2}; memcpy(f.num, n, sizeof n); });
                    one(y + "s.plane={0,0,0,0} s.vecs={{0,0,0,0},{0,0,0,0}}" + X, [](Face &) {});
                }
            }
        }
    return r;
}
const std::vector<Op> &ops()
{
    static const std::vector<Op> o = make_ops();
    return o;
}
// ---------------------------------------------------------------- maps
Face face(int which, int kind, int ext)
{
    static const double P[6][9] = {{0, 0, 64, 0, 64, 64, 64, 0, 64}, {0, 0, -64, 64, 0, -64, 0, 64, -64}, {-32, 0, 0, -32, 64, 0, -32, 0, 64}, {96, 0, 0, 96, 0, 64, 96, 64, 0}, {0, -48.5, 0, 0, -48.5, 64, 64, -48.5, 0}, {0, 48, 0, 64, 48, 0, 0, 48, 64}};
    Face f;
    for (int i = 0; i < 9; i++)
        f.p[i / 3][i % 3] = P[which][i];
    f.tex = std::string(1, 'a' + which);
    f.kind = kind;
    double n[13] = {16, -7.5, kind >= 2 ? 0 : 30, kind >= 2 ? 1 : 0.5, kind >= 2 ? 1 : 2};
    if (kind >= 2)
        n[0] = n[1] = 0;
    if (kind == 1) {
        int ax = which / 2; // 0: z faces, 1: x faces, 2: y faces
        double a[3][6] = {{1, 0, 0, 0, -1, 0.25}, {0, 1, 0, 0, 0.25, -1}, {1, 0, 0, 0.25, 0, -1}};
        memcpy(n + 5, a[ax], sizeof a[ax]);
    }
    memcpy(f.num, n, sizeof n);
    if (ext)
        f.ext = true, f.e[0] = (ext == 1 ? 0x8000000 : 0) + which + 1, f.e[1] = ext == 1 ? 64 : 0x40000041, f.e[2] = which % 2 ? (ext == 1 ? -5 : 100) : (ext == 1 ? 70000 : -2147483647);
    return f;
}
std::string map_text(int variant)
{
    // 0..3: one notation; 4: mixed; +5: surface info on every, 10..14: on some
    if (variant == 15)
        return "";
    if (variant == 16)
        return "{\n}\n{\n\"classname\" \"light\"\n\"origin\" \"1 2 3\"\n}\n{\n" + brush_text({face(0, 0, 0), face(1, 1, 0)}) + "}\n";
    int k = variant % 5, x = variant / 5;
    int n = 0;
    auto F = [&](int w) { int i = n++; return face(w, k < 4 ? k : i % 4, x == 0 ? 0 : x == 1 ? 1 : i % 2 * 2); };
    std::string a = brush_text({F(0), F(1), F(2)}), b = brush_text({F(3), F(4)}), c = brush_text({F(5), F(0)});
    return "{\n\"classname\" \"worldspawn\"\n\"message\" \"a b\"\n" + a + b + "}\n{\n\"classname\" \"light\"\n\"origin\" \"1 2 3\"\n\"_x\" \"\\n\"\n}\n{\n\"classname\" \"func_wall\"\n\"angle\" \"90\"\n" + c + "}\n";
}
constexpr int MAPS = 17;
std::vector<Ent> drop_empty(std::vector<Ent> w)
{
    for (auto &e : w)
        e.b.erase(std::remove_if(e.b.begin(), e.b.end(), [](auto &b) { return b.f.empty(); }), e.b.end());
    return w;
}
bool read(const std::string &t, std::vector<Ent> &w)
{
    try {
        w = read_map(t);
        return true;
    } catch (std::exception &) {
        return false;
    }
}
// `out` is `w` with every face in the Valve notation; "" or why not
std::string valve_of(const std::vector<Ent> &w, const std::vector<Ent> &out)
{
    if (out.size() != w.size())
        return "number of entities";
    for (size_t i = 0; i < w.size(); i++) {
        if (w[i].kv != out[i].kv)
            return "entity keys";
        if (w[i].b.size() != out[i].b.size())
            return "number of brushes";
        for (size_t j = 0; j < w[i].b.size(); j++) {
            if (w[i].b[j].f.size() != out[i].b[j].f.size())
                return "number of faces";
            for (size_t k = 0; k < w[i].b[j].f.size(); k++) {
                Face a = w[i].b[j].f[k], b = out[i].b[j].f[k];
                for (int c = 0; c < 3; c++)
                    if (!(a.p[c] == b.p[c]))
                        return "plane points";
                if (a.tex != b.tex)
                    return "texture name";
                if (b.kind != 1)
                    return "notation";
                if (a.ext != b.ext || memcmp(a.e, b.e, sizeof a.e))
                    return "surface flags";
                V3 v[2], u[2];
                double sh[2], sk[2];
                projection(a, v, sh);
                projection(b, u, sk);
                for (int c = 0; c < 3; c++) {
                    UV x = at(v, sh, a.p[c]), y = at(u, sk, a.p[c]);
                    if (!(fabs(x.s - y.s) < 0.1 && fabs(x.t - y.t) < 0.1))
                        return "texture coordinates of " + face_text(a) + " became " + face_text(b);
                }
            }
        }
    }
    return "";
}
void run_script(int map, const std::vector<int> &prog, bool final_commit, const char *key, Ctx &ctx)
{
    std::string text = map_text(map), script = PRELUDE;
    Model m;
    std::vector<Ent> w = read_map(text);
    load_model(m, w);
    m.committed = w;
    script += "dump('d0')\n";
    std::string shown;
    for (int o : prog) {
        shown += ops()[o].lua + "\n";
        ops()[o].f(m);
    }
    if (final_commit) {
        shown += "commit_map()\n";
        commit(m);
    }
    script += shown;
    put("in.map", text);
    put("s.lua", script);
    put("d.lua", std::string(PRELUDE) + "dump('d1')\n");
    for (const char *f : {"d0", "d1", "out.map", "valve.map"})
        unlink(f);
    ctx.count("scripts");
    ctx.nontrivial(hstr(text + shown));
    auto bad = [&](const std::string &why) { ctx.fail(key, why + "\nscript:\n" + shown + "map:\n" + text); };
    if (!tool({"in.map", "--script", "s.lua", "--script", "d.lua", "--save", "out.map", "--convert", "valve", "--save", "valve.map", ""}))
        return bad("the tool refuses");
    if (get("in.map") != text)
        return bad("the input file was changed");
    std::string d0 = get("d0"), d1 = get("d1");
    if (d0.substr(0, d0.find('\n')) != expected_dump(w))
        return bad("the script does not see the map: expected\n" + expected_dump(w) + "\nsaw\n" + d0);
    if (auto s = check_derived(d0, w); !s.empty())
        return bad("the script sees a wrong " + s);
    std::vector<Ent> &c = m.committed;
    std::vector<Ent> o;
    if (!read(get("out.map"), o))
        return bad("the saved map is malformed:\n" + get("out.map"));
    if (auto s = same_text(drop_empty(c), o); !s.empty())
        return bad("the saved map differs (" + s + "):\n" + get("out.map"));
    if (d1.substr(0, d1.find('\n')) != expected_dump(c))
        return bad("the next script does not see the changed map: expected\n" + expected_dump(c) + "\nsaw\n" + d1);
    if (auto s = check_derived(d1, c); !s.empty())
        return bad("the next script sees a wrong " + s);
    std::vector<Ent> v;
    if (!read(get("valve.map"), v))
        return bad("the converted map is malformed:\n" + get("valve.map"));
    if (auto s = valve_of(drop_empty(c), v); !s.empty())
        return bad("conversion after the script is wrong: " + s + "\n" + get("valve.map"));
    ctx.outcome(hstr(get("out.map")));
}
// ---------------------------------------------------------------- commands in any order
struct Cmd
{
    std::vector<std::string> args;
    std::function<void(std::vector<Ent> &, bool &)> f; // second: the projection is now only equal, not identical
};
const std::vector<Cmd> &cmds()
{
    static std::vector<Cmd> r;
    if (!r.empty())
        return r;
    auto tex = [](const char *t) {
        return [t](std::vector<Ent> &w, bool &) {
            for (auto &e : w)
                if (!e.b.empty() && !e.b[0].f.empty())
                    e.b[0].f[0].tex = t;
        };
    };
    auto lua = [](const char *t) { return "for _,e in ipairs(entities) do if e.brushes then e.brushes[1][1].texture='" + std::string(t) + "' end end "; };
    auto none = [](std::vector<Ent> &, bool &) {};
    r = {{{"--script", "same.lua"}, none}, {{"--script", "edit.lua"}, tex("edited")}, {{"--script", "look.lua"}, none}, {{"--script", "fail.lua"}, none}, {{"--script", "syntax.lua"}, none}, {{"--script", "late.lua"}, tex("late")},
        {{"--query", "return entity.classname == 'light'"}, none}, {{"--query", lua("q") + "commit_map() return true"}, tex("q")}, {{"--query", lua("q") + "return true"}, none}, {{"--query", "return ="}, none}, {{"--query", "error('x')"}, none},
        {{"--strip_extended_info"}, [](std::vector<Ent> &w, bool &) { for (auto &e : w) for (auto &b : e.b) for (auto &f : b.f) f.ext = false, f.e[0] = f.e[1] = f.e[2] = 0; }},
        {{"--convert", "valve"}, [](std::vector<Ent> &w, bool &x) { for (auto &e : w) for (auto &b : e.b) for (auto &f : b.f) if (f.kind != 1) {
            V3 v[2]; double sh[2]; projection(f, v, sh); x = true; f.kind = 1;
            for (int k = 0; k < 2; k++) { double l = sqrt(dot(v[k], v[k])); f.num[k] = sh[k]; f.num[3 + k] = 1 / l; for (int c = 0; c < 3; c++) f.num[5 + 3 * k + c] = v[k][c] / l; } } }},
        {{"--save", "mid.map"}, none}};
    return r;
}
void write_cmd_scripts()
{
    auto lua = [](const char *t) { return "for _,e in ipairs(entities) do if e.brushes then e.brushes[1][1].texture='" + std::string(t) + "' end end "; };
    put("same.lua", "commit_map()\n");
    put("edit.lua", lua("edited") + "commit_map()\n");
    put("look.lua", lua("looked"));
    put("fail.lua", lua("failed") + "error('stop') commit_map()\n");
    put("syntax.lua", "commit_map( = \n");
    put("late.lua", lua("late") + "commit_map() error('stop')\n");
}
std::string same_enough(std::vector<Ent> a, const std::vector<Ent> &b, bool approx)
{
    if (!approx)
        return same_text(a, b);
    // projections equal, everything else identical
    if (a.size() != b.size())
        return "number of entities";
    for (size_t i = 0; i < a.size(); i++)
        for (size_t j = 0; j < a[i].b.size() && j < b[i].b.size(); j++)
            for (size_t k = 0; k < a[i].b[j].f.size() && k < b[i].b[j].f.size(); k++) {
                Face &x = a[i].b[j].f[k];
                const Face &y = b[i].b[j].f[k];
                V3 v[2], u[2];
                double sh[2], sk[2];
                projection(x, v, sh);
                projection(y, u, sk);
                for (int c = 0; c < 3; c++) {
                    UV p = at(v, sh, x.p[c]), q = at(u, sk, x.p[c]);
                    if (!(fabs(p.s - q.s) < 0.1 && fabs(p.t - q.t) < 0.1))
                        return "texture coordinates";
                }
                memcpy(x.num, y.num, sizeof x.num);
            }
    return same_text(a, b);
}
void run_cmds(int map, const std::vector<int> &seq, Ctx &ctx)
{
    std::string text = map_text(map), shown;
    std::vector<Ent> w = read_map(text), mid;
    bool approx = false, mid_approx = false, mid_set = false;
    std::vector<std::string> a = {"in.map"};
    put("in.map", text);
    unlink("out.map");
    unlink("mid.map");
    for (int c : seq) {
        auto &x = cmds()[c];
        a.insert(a.end(), x.args.begin(), x.args.end());
        for (auto &s : x.args)
            shown += s + " ";
        x.f(w, approx);
        if (x.args[0] == "--save")
            mid = w, mid_approx = approx, mid_set = true;
    }
    for (auto s : {"--save", "out.map", "--strip_extended_info"})
        a.push_back(s);
    ctx.count("command sequences");
    ctx.nontrivial(hstr(text + shown));
    auto bad = [&](const std::string &why) { ctx.fail("commands", why + "\ncommands: " + shown + "\nmap:\n" + text); };
    if (!tool(a))
        return bad("the tool refuses");
    std::vector<Ent> o;
    if (!read(get("out.map"), o))
        return bad("the saved map is malformed:\n" + get("out.map"));
    if (auto s = same_enough(w, o, approx); !s.empty())
        return bad("the saved map differs (" + s + "):\n" + get("out.map"));
    if (mid_set && (!read(get("mid.map"), o) || !same_enough(mid, o, mid_approx).empty()))
        return bad("the map saved in between differs:\n" + get("mid.map"));
    ctx.outcome(hstr(get("out.map")));
}
// ---------------------------------------------------------------- queries
struct Query
{
    const char *lua;
    std::function<bool(const std::vector<Ent> &, size_t)> f;
};
std::string val(const Ent &e, const char *k)
{
    for (auto &p : e.kv)
        if (p.first == k)
            return p.second;
    return "\1";
}
const std::vector<Query> &queries()
{
    static const std::vector<Query> r = {
        {"return true", [](auto &, size_t) { return true; }}, {"return false", [](auto &, size_t) { return false; }}, {"return nil", [](auto &, size_t) { return false; }}, {"return", [](auto &, size_t) { return false; }}, {"return 0", [](auto &, size_t) { return true; }},
        {"return entity.classname == 'light'", [](auto &w, size_t i) { return val(w[i], "classname") == "light"; }},
        {"return entity.origin", [](auto &w, size_t i) { return val(w[i], "origin") != "\1"; }},
        {"return entity._x == '\\\\n'", [](auto &w, size_t i) { return val(w[i], "_x") == "\\n"; }},
        {"return entity.angle == '90' or entity.message == 'a b'", [](auto &w, size_t i) { return val(w[i], "angle") == "90" || val(w[i], "message") == "a b"; }},
        {"n = (n or 0) + 1 return entities[n].dict and entities[n].dict[1][2] == entity[entities[n].dict[1][1]]", [](auto &w, size_t i) { return !w[i].kv.empty(); }},
        {"n = (n or 0) + 1 return entities[n].brushes and #entities[n].brushes > 1", [](auto &w, size_t i) { return w[i].b.size() > 1; }},
        {"n = (n or 0) + 1 if n == 2 then error('x') end return true", [](auto &, size_t i) { return i != 1; }},
        {"return #entities > 0 and next(entity) == nil", [](auto &w, size_t i) { return w[i].kv.empty(); }},
        {"local c = 0 for _ in pairs(entity) do c = c + 1 end return c == 2", [](auto &w, size_t i) { return w[i].kv.size() == 2; }},
        {"table.remove(entities) return true", [](auto &, size_t) { return true; }},
        {"table.remove(entities) commit_map() return true", [](auto &, size_t) { return true; }},
    };
    return r;
}
// ---------------------------------------------------------------- JSON
struct J
{
    std::string text, dump;
    bool nil = false;
};
std::vector<J> leaves()
{
    return {{"null", "", true}, {"true", "true"}, {"false", "false"}, {"0", "0"}, {"-1", "-1"}, {"4294967297", "4294967297"}, {"-2147483649", "-2147483649"}, {"1.5", "1.5"}, {"-1e300", g17(-1e300)}, {"\"\"", "\"\""}, {"\"a b\"", "\"a b\""}, {"\"\\u00e9\\n\"", "\"\xc3\xa9\n\""}, {"18446744073709551615", g17(18446744073709551615.0)}, {"{}", "{}"}, {"[]", "{}"}};
}
J array(const std::vector<J> &v)
{
    J r{"[", "{"};
    for (size_t i = 0; i < v.size(); i++) {
        r.text += (i ? ", " : "") + v[i].text;
        if (!v[i].nil)
            r.dump += std::to_string(i + 1) + "=" + v[i].dump + ";";
    }
    r.text += "]";
    r.dump += "}";
    return r;
}
J object(const std::vector<std::string> &keys, const std::vector<J> &v) // keys sorted
{
    J r{"{", "{"};
    for (size_t i = 0; i < v.size(); i++) {
        r.text += (i ? ", \"" : "\"") + keys[i] + "\": " + v[i].text;
        if (!v[i].nil)
            r.dump += keys[i] + "=" + v[i].dump + ";";
    }
    r.text += "}";
    r.dump += "}";
    return r;
}
// ---------------------------------------------------------------- windings
struct Pl
{
    V3 n;
    double d;
};
std::string wind_text(const Pl &p, const std::string &tex)
{
    // three points of the plane, far apart
    V3 n = p.n * (1 / sqrt(dot(p.n, p.n)));
    (void)n;
    V3 a = fabs(p.n.x) > fabs(p.n.z) ? V3{-p.n.y, p.n.x, 0} : V3{0, -p.n.z, p.n.y};
    V3 b = cross(p.n, a);
    V3 o = p.n * (p.d / dot(p.n, p.n));
    Face f;
    f.p[0] = o + a * 32;
    f.p[1] = o;
    f.p[2] = o + b * 32;
    if (dot(normal_of(f), p.n) < 0)
        std::swap(f.p[0], f.p[2]);
    f.tex = tex;
    double num[5] = {0, 0, 0, 1, 1};
    memcpy(f.num, num, sizeof num);
    return face_text(f);
}
// corners of face i of the brush, any order
std::vector<V3> corners(const std::vector<Pl> &b, size_t i, std::vector<std::pair<int, int>> *who = nullptr)
{
    std::vector<V3> r;
    for (size_t j = 0; j < b.size(); j++)
        for (size_t k = j + 1; k < b.size(); k++) {
            if (j == i || k == i)
                continue;
            V3 c = cross(b[j].n, b[k].n);
            double det = dot(b[i].n, c);
            if (fabs(det) < 1e-9)
                continue;
            V3 p = (c * b[i].d + cross(b[k].n, b[i].n) * b[j].d + cross(b[i].n, b[j].n) * b[k].d) * (1 / det);
            bool in = true;
            for (auto &q : b)
                if (dot(q.n, p) > q.d + 1e-7 * (1 + fabs(q.d)))
                    in = false;
            if (!in)
                continue;
            bool dup = false;
            for (auto &v : r)
                if (dot(v - p, v - p) < 1e-8)
                    dup = true;
            if (!dup)
                r.push_back(p);
        }
    return r;
}
std::vector<Space> u03(Tier t)
{
    bool T = t == Tier::thorough;
    std::vector<Space> r;
    uint64_t N = ops().size();
    {
        Space s;
        s.name = "scripts";
        s.size = N * N * (T ? N : 5);
        s.chunk = 256;
        s.run = [=](uint64_t i, Ctx &ctx) {
            int a = i % N, b = i / N % N, c = i / N / N;
            if (T) {
                run_script((a * 7 + b * 3 + c) % 15, {a, b, c}, true, "scripts", ctx);
            } else
                run_script(c + 5 * ((a + b) % 3), {a, b}, true, "scripts", ctx);
        };
        r.push_back(s);
    }
    {
        Space s;
        s.name = "single-operations";
        s.size = N * MAPS * 2 + MAPS * 2;
        s.chunk = 64;
        s.run = [=](uint64_t i, Ctx &ctx) {
            if (i >= N * MAPS * 2) {
                i -= N * MAPS * 2;
                run_script(i / 2, {}, i % 2, "identity", ctx);
                return;
            }
            run_script(i / 2 % MAPS, {(int)(i / 2 / MAPS)}, i % 2, "single-operations", ctx);
        };
        r.push_back(s);
    }
    {
        Space s;
        s.name = "commands";
        uint64_t C = cmds().size();
        s.size = C * C * C * (T ? C : 1);
        s.chunk = 256;
        s.run = [=](uint64_t i, Ctx &ctx) {
            std::vector<int> q;
            uint64_t v = i;
            for (int k = 0; k < (T ? 4 : 3); k++, v /= C)
                q.push_back(v % C);
            write_cmd_scripts();
            for (int m : {4, 9, (int)(i % MAPS)})
                run_cmds(m, q, ctx);
        };
        r.push_back(s);
    }
    {
        Space s;
        s.name = "queries";
        s.size = queries().size() * MAPS;
        s.run = [=](uint64_t i, Ctx &ctx) {
            auto &qu = queries()[i / MAPS];
            std::string text = map_text(i % MAPS);
            std::vector<Ent> w = read_map(text);
            put("in.map", text);
            ctx.count("queries");
            ctx.nontrivial(hstr(text, i));
            std::vector<std::string> want;
            for (size_t k = 0; k < w.size(); k++)
                if (qu.f(w, k)) {
                    std::string c = val(w[k], "classname");
                    want.push_back(c == "\1" ? "" : c);
                }
            std::string saw;
            bool ok = tool({"in.map", "--query", qu.lua, ""}) && matched.size() == want.size();
            for (size_t k = 0; ok && k < want.size(); k++)
                ok = matched[k].substr(0, matched[k].find(" @ ")) == want[k];
            for (auto &x : matched)
                saw += x;
            if (!ok)
                ctx.fail("queries", std::string("query ") + qu.lua + " matched\n" + saw + "of map\n" + text);
            ctx.outcome(hstr(saw));
        };
        r.push_back(s);
    }
    {
        Space s;
        s.name = "json";
        static const std::vector<J> L = leaves();
        uint64_t n = L.size();
        s.size = n * n * n;
        s.chunk = 256;
        s.run = [=](uint64_t i, Ctx &ctx) {
            const J &a = L[i % n], &b = L[i / n % n], &c = L[i / n / n];
            std::vector<J> js = {array({a, b, c}), object({"a", "b", "c"}, {a, b, c}), array({a, array({b}), object({"k"}, {c})}), object({"x", "y"}, {array({a, b}), object({"z"}, {c})})};
            if (i < n)
                js.push_back(a);
            for (auto &j : js) {
                put("v.json", j.text);
                put("in.map", map_text(0));
                put("s.lua", std::string(PRELUDE) + "local v = load_json('v.json') dumpv('d', v)\n");
                unlink("d");
                ctx.count("JSON values");
                ctx.nontrivial(hstr(j.text));
                tool({"in.map", "--script", "s.lua", ""});
                if (get("d") != (j.nil ? "nil" : j.dump))
                    ctx.fail("json", "the script sees " + get("d") + " for " + j.text);
                ctx.outcome(hstr(j.dump));
            }
        };
        r.push_back(s);
    }
    {
        Space s;
        s.name = "windings";
        // boxes of the lattice, cut by no, one or two planes
        static std::vector<Pl> cuts;
        if (cuts.empty())
            for (int x = -2; x <= 2; x++)
                for (int y = -2; y <= 2; y++)
                    for (int z = -2; z <= 2; z++)
                        if ((x || y || z) && !!x + !!y + !!z > 1)
                            cuts.push_back({{(double)x, (double)y, (double)z}, 0});
        s.size = cuts.size() * (T ? cuts.size() : 6) * 3;
        s.chunk = 64;
        s.run = [=](uint64_t i, Ctx &ctx) {
            static const double box[3][6] = {{-64, -32, -16, 64, 32, 16}, {16, 32, 48, 144, 64, 80.5}, {-1024, -8, 0, 1024, 8, 512}};
            const double *bx = box[i % 3];
            i /= 3;
            V3 mid{(bx[0] + bx[3]) / 2, (bx[1] + bx[4]) / 2, (bx[2] + bx[5]) / 2};
            std::vector<Pl> b;
            for (int a = 0; a < 3; a++) {
                V3 n;
                n[a] = 1;
                b.push_back({n, bx[3 + a]});
                n[a] = -1;
                b.push_back({n, -bx[a]});
            }
            Pl p = cuts[i % cuts.size()];
            p.d = dot(p.n, mid) + 4;
            b.push_back(p);
            i /= cuts.size();
            if (i % (T ? cuts.size() : 6)) {
                Pl p2 = cuts[(i * 11 + 5) % cuts.size()];
                p2.d = dot(p2.n, mid) + 7;
                if (dot(cross(p.n, p2.n), cross(p.n, p2.n)) > 1e-9)
                    b.push_back(p2);
            }
            std::string text = "{\n";
            for (size_t k = 0; k < b.size(); k++)
                text += wind_text(b[k], "f" + std::to_string(k));
            text = world(text + "}\n");
            put("in.map", text);
            put("s.lua", std::string(PRELUDE) + "local f=io.open('w','wb') for i,s in ipairs(brush(1,1)) do local w=create_winding(s,brush(1,1),8192) f:write(w and #w or 0,' ') for _,p in ipairs(w or {}) do f:write(string.format('%.17g %.17g %.17g ',p[1],p[2],p[3])) end f:write('\\n') end f:close()\n");
            unlink("w");
            ctx.count("brushes");
            ctx.nontrivial(hstr(text));
            tool({"in.map", "--script", "s.lua", ""});
            std::istringstream in(get("w"));
            for (size_t k = 0; k < b.size(); k++) {
                size_t n;
                if (!(in >> n)) {
                    ctx.fail("windings", "no winding written\n" + text);
                    return;
                }
                std::vector<V3> w(n), c = corners(b, k);
                for (auto &v : w)
                    in >> v.x >> v.y >> v.z;
                if (c.size() < 3) {
                    // the face has no area: nothing, or a sliver
                    continue;
                }
                auto dist = [](V3 a, V3 b) { V3 d = a - b; return sqrt(dot(d, d)); };
                bool ok = true;
                for (auto &x : c) { // every corner is there
                    bool f = false;
                    for (auto &y : w)
                        f |= dist(x, y) < 0.01;
                    ok &= f;
                }
                for (auto &y : w) {
                    bool f = false;
                    for (auto &x : c)
                        f |= dist(x, y) < 0.01;
                    ok &= f;
                }
                // and the polygon has the area of their hull, with the face's direction
                V3 sum;
                for (size_t q = 0; q < n; q++)
                    sum = sum + cross(w[q], w[(q + 1) % n]);
                V3 cen;
                for (auto &x : c)
                    cen = cen + x * (1.0 / c.size());
                V3 u = c[0] - cen, vv = cross(b[k].n, u);
                std::sort(c.begin(), c.end(), [&](V3 a, V3 d) { return atan2(dot(a - cen, vv) * sqrt(dot(u, u)) / sqrt(dot(vv, vv)), dot(a - cen, u)) < atan2(dot(d - cen, vv) * sqrt(dot(u, u)) / sqrt(dot(vv, vv)), dot(d - cen, u)); });
                V3 hull;
                for (size_t q = 0; q < c.size(); q++)
                    hull = hull + cross(c[q], c[(q + 1) % c.size()]);
                double A = sqrt(dot(sum, sum)), H = sqrt(dot(hull, hull));
                ok &= fabs(A - H) < 0.01 * (1 + H);
                if (!ok) {
                    std::ostringstream o;
                    for (auto &y : w)
                        o << " (" << y.x << " " << y.y << " " << y.z << ")";
                    ctx.fail("windings", "face " + std::to_string(k) + " of the brush has the wrong outline" + o.str() + "\n" + text);
                }
                ctx.outcome(hbytes(w.data(), w.size() * sizeof(V3)));
            }
        };
        r.push_back(s);
    }
    {
        // what a script learns about a texture is what its file says
        Space s;
        s.name = "textures";
        s.size = 33 * 4;
        s.chunk = 33;
        s.run = [=](uint64_t i, Ctx &ctx) {
            uint32_t bit = i / 4 < 32 ? 1u << i / 4 : 0;
            uint32_t wal[25] = {}; // name 0-7, size 8 9, offsets 10-13, next 14-21, flags contents value
            memcpy(wal, "tx", 2);
            wal[8] = 16u << i % 4;
            wal[9] = 32;
            for (int k = 0; k < 4; k++)
                wal[10 + k] = 100;
            wal[22] = i % 2 ? bit : 5;
            wal[23] = i % 2 ? 9 : bit;
            wal[24] = i % 3 ? 77 + i : -(int)i;
            std::string d = ctx.scratch;
            std::string g = "q2/baseq2";
            fs::create_directories(g + "/textures");
            fs::create_directories(g + "/maps");
            put(g + "/textures/tx.wal", std::string((char *)wal, 100) + std::string(128 * 128 * 2, '\1'));
            std::vector<Ent> w;
            put(g + "/maps/in.map", map_text(0));
            put("s.lua", std::string(PRELUDE) + "dumpv('d', load_texture_meta('tx'))\n");
            unlink("d");
            ctx.count("textures");
            ctx.nontrivial(i);
            tool({d + "/" + g + "/maps/in.map", "--game", "quake2", "--script", d + "/s.lua", ""});
            std::string want = "{contents=" + g17((int)wal[23]) + ";flags=" + g17((int)wal[22]) + ";height=" + g17(wal[9]) + ";value=" + g17((int)wal[24]) + ";width=" + g17(wal[8]) + ";}";
            std::string got = get("d"), unsig = "contents=" + g17(wal[23]), sig = "contents=" + g17((int)wal[23]);
            if (auto at = got.find(unsig); at != std::string::npos) // the top bit of the contents is no flag; either sign is fine
                got.replace(at, unsig.size(), sig);
            if (got != want)
                ctx.fail("textures", "the script sees " + get("d") + ", the file says " + want);
            ctx.outcome(hstr(want));
        };
        r.push_back(s);
    }
    return r;
}
} // namespace
int main(int argc, char **argv)
{
    logging::mask = logging::flag::NONE;
    return main_(argc, argv, {{"U03", "exploration", "every sequence of script operations of the bound on maps of each notation, commands in every order, queries, JSON values and brush outlines, against a model of the documented layout and an independent reader of the saved map", {"brush primitives are refused by this library", "the operations of a script are the listed alphabet"}, u03, 240, 3000}});
}
