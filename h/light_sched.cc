// L02: light's result does not depend on how its threads interleave
#include "lightworld.hh"
#include <mc/explore.hh>
#include <mc/sched.hh>
using namespace lw;
using namespace mc;
using Opts = std::vector<std::string>;
namespace
{
void spit(const std::string &f, const std::string &s)
{
    std::ofstream(f, std::ios::binary) << s;
}
struct Scenario
{
    std::string name;
    Scene s;
    Opts opts;
    std::string rad; // surface lights
    bool vis = false;
};
struct Lm
{
    std::string where;
    std::map<int, std::vector<uint8_t>> v[3]; // by style: grey, colour, direction
    int w = 0, h = 0;
};
struct Res
{
    std::string bad, ents, grid;
    std::vector<Lm> lm;
    std::map<std::string, size_t> size; // of the stores
};
Res read(double vscale)
{
    Res r;
    Bx b = load_lit("t");
    auto fv = faces(b, [&](int) { return vscale; }, r.bad);
    if (!r.bad.empty())
        return r;
    r.ents = b.bsp.dentdata;
    r.size["lightdata"] = b.bsp.dlightdata.size();
    r.size["lit"] = b.lit.size();
    r.size["lux"] = b.lux.size();
    for (auto &[k, x] : b.x)
        r.size[k] = x.size();
    if (b.x.count("LIGHTGRID_OCTREE"))
        r.grid = std::string(b.x["LIGHTGRID_OCTREE"].begin(), b.x["LIGHTGRID_OCTREE"].end());
    size_t nl = b.bsp.dlightdata.size();
    for (size_t i = 0; i < fv.size(); i++)
        for (auto &w : fv[i].view) {
            Lm l;
            l.where = "face " + std::to_string(i) + " " + w.name;
            l.w = w.w, l.h = w.h;
            if (w.ofs != -1)
                for (size_t k = 0; k < w.styles.size(); k++) {
                    size_t n = size_t(w.w) * w.h, at = w.ofs + k * n;
                    if (w.ofs < 0 || at + n > nl) {
                        r.bad = l.where + " lies outside the lump";
                        return r;
                    }
                    auto &d = b.bsp.dlightdata;
                    l.v[0][w.styles[k]].assign(d.begin() + at, d.begin() + at + n);
                    if (b.lit.size() == 8 + nl * 3)
                        l.v[1][w.styles[k]].assign(b.lit.begin() + 8 + at * 3, b.lit.begin() + 8 + (at + n) * 3);
                    if (b.lux.size() == 8 + nl * 3)
                        l.v[2][w.styles[k]].assign(b.lux.begin() + 8 + at * 3, b.lux.begin() + 8 + (at + n) * 3);
                }
            r.lm.push_back(l);
        }
    return r;
}
std::string differ(const Res &a, const Res &b)
{
    if (!b.bad.empty())
        return b.bad;
    if (a.ents != b.ents)
        return "the entities differ";
    if (a.size != b.size) {
        std::string o = "the stores have other sizes:";
        for (auto &[k, x] : b.size)
            o += " " + k + " " + std::to_string(x) + "/" + std::to_string(a.size.count(k) ? a.size.at(k) : 0);
        return o;
    }
    if (a.grid != b.grid)
        return "the light grid differs";
    if (a.lm.size() != b.lm.size())
        return "another number of lightmaps";
    for (size_t i = 0; i < a.lm.size(); i++)
        for (int c = 0; c < 3; c++) {
            auto &x = a.lm[i].v[c], &y = b.lm[i].v[c];
            for (auto &[st, v] : x)
                if (!y.count(st))
                    return a.lm[i].where + " lost style " + std::to_string(st);
            for (auto &[st, v] : y) {
                if (!x.count(st))
                    return a.lm[i].where + " has style " + std::to_string(st) + " too";
                auto &u = x.at(st);
                if (u.size() != v.size())
                    return a.lm[i].where + " has another size";
                for (size_t k = 0; k < u.size(); k++)
                    if (abs(int(u[k]) - int(v[k])) > (c == 2 ? 2 : 1))
                        return a.lm[i].where + " style " + std::to_string(st) + " " + (c == 0 ? "grey" : c == 1 ? "colour" : "direction") + " byte " + std::to_string(k) + " is " + std::to_string(v[k]) + ", not " + std::to_string(u[k]);
            }
        }
    return "";
}
Light lt(I3 at, double v = 300, int style = 0)
{
    Light l;
    l.at = at, l.light = v, l.style = style;
    return l;
}
Blk bx(I3 a, I3 b, Type t = SOLID)
{
    Blk k;
    k.mn = a, k.mx = b, k.type = t;
    return k;
}
std::vector<Scenario> scenarios()
{
    std::vector<Scenario> r;
    Scenario s;
    s.name = "direct";
    s.s.l = {lt({0, 0, 0}), lt({40, 30, 20}, 200, 3)};
    s.s.l[1].color = {255, 128, 30};
    s.opts = {"-lit", "-lux"};
    r.push_back(s);
    s.name = "bounce";
    s.s.l = {lt({0, 0, 0}, 200)};
    s.s.b = {bx({-96, -80, -64}, {96, 80, -40})};
    s.opts = {"-lit", "-bounce", "1"};
    r.push_back(s);
    s.name = "one lit face"; // only the floor gets direct light
    {
        Light l = lt({0, 0, -50}, 300);
        l.spot = 1, l.aim = {0, -90, 0}, l.angle = 60;
        s.s.b.clear();
        s.s.l = {l};
    }
    s.opts = {"-bounce", "1", "-bouncescale", "4"};
    r.push_back(s);
    s.name = "bounce twice, styles";
    s.s.l = {lt({10, 0, 0}, 200), lt({-40, 10, 20}, 200, 5)};
    s.opts = {"-lit", "-bounce", "2", "-bouncestyled", "-bouncecolorscale", "0.5"};
    r.push_back(s);
    s = {};
    s.name = "storage";
    for (int k = 0; k < 5; k++)
        s.s.l.push_back(lt({-50 + 25 * k, 10 * k, 5 * k}, 150 + 40 * k, k));
    s.opts = {"-lit", "-lux", "-facestyles", "8", "-lmshift", "5"};
    r.push_back(s);
    s.name = "decoupled";
    s.opts = {"-lit", "-world_units_per_luxel", "48"};
    r.push_back(s);
    s = {};
    s.name = "switchable shadow";
    s.s.l = {lt({0, 0, 20}), lt({30, 0, 50}, 200)};
    s.s.l[1].targetname = "t";
    {
        Blk k = bx({-20, -20, -30}, {20, 20, -20});
        k.bmodel = true;
        k.kind = K_SWITCH;
        s.s.b = {k};
        k.kind = K_SELF;
        k.mn[0] += 50, k.mx[0] += 50;
        s.s.b.push_back(k);
    }
    s.opts = {"-lux"};
    r.push_back(s);
    s = {};
    s.name = "phong and dirt";
    {
        Blk k = bx({-30, -30, -64}, {30, 30, 0}, GROUP);
        s.s.b = {k};
    }
    s.s.l = {lt({60, 50, 40})};
    s.s.worldkeys = kv("_phong", "1") + kv("_dirt", "1");
    s.opts = {"-dirt", "-phong_angle", "100"};
    r.push_back(s);
    s = {};
    s.name = "sky";
    s.s.wall[5] = SKY;
    s.s.sunlight = 150;
    s.s.sunmangle = {30, -60, 0};
    s.s.worldkeys = kv("_sunlight2", "60");
    s.opts = {"-lux", "-sunsamples", "8"};
    r.push_back(s);
    s = {};
    s.name = "light grid";
    s.s.l = {lt({0, 0, 0}), lt({40, 30, 20}, 200, 3)};
    s.opts = {"-lightgrid"};
    r.push_back(s);
    s = {};
    s.name = "surface lights";
    s.s.b = {bx({-20, -20, -64}, {20, 20, -40}, WATER)};
    s.s.worldkeys = "";
    s.rad = "*water1 255 100 50 2000\nfloor 100 255 100 500\n";
    s.opts = {"-lit", "-surflight_dump"};
    s.opts.pop_back();
    r.push_back(s);
    return r;
}
std::vector<Space> l02(Tier t)
{
    bool T = t == Tier::thorough;
    std::vector<Space> r;
    for (auto &sc : scenarios())
        for (int mode = 0; mode < 4; mode++) {
            if (!T && (mode == 1 || (mode == 3 && sc.name != "one lit face")))
                continue; // the memory mode has the locks' scheduling points too
            SchedOptions o;
            o.workers = mode == 0 ? 1 : 2;
            o.order = mode == 0;
            o.memory = mode >= 2;
            o.rotate = mode == 3;
            o.bound = T ? 2 : 1;
            if (mode == 0 && !T)
                o.order_window = 3;
            o.shards = T ? 64 : 8;
            Space s;
            s.name = sc.name + (mode == 0 ? "/order" : mode == 1 ? "/locks" : mode == 2 ? "/memory" : "/memory, rotating");
            s.size = o.shards;
            s.chunk = 1;
            s.case_timeout = 300;
            s.run = [=](uint64_t i, Ctx &ctx) {
                SchedOptions oo = o;
                oo.shard = i;
                std::vector<int> model;
                Map m = build(sc.s, model);
                Out q = compile(maptext(m), {});
                if (!q.error.empty()) {
                    ctx.fail("qbsp refuses " + sc.name, q.error);
                    return;
                }
                Opts a = sc.opts;
                a.insert(a.end(), {"-lightmap_scale", "64"});
                if (!sc.rad.empty())
                    spit("t.rad", sc.rad);
                else
                    std::filesystem::remove("t.rad");
                std::string map = slurp("t.bsp");
                auto once = [&](Res &o2) {
                    std::filesystem::remove("t.lit");
                    std::filesystem::remove("t.lux");
                    spit("t.bsp", map);
                    std::string e = run_light(a);
                    if (e.empty())
                        o2 = read(64);
                    return e;
                };
                Res ref;
                std::string e = once(ref);
                if (!e.empty() || !ref.bad.empty()) {
                    ctx.fail("light fails on " + sc.name, e + ref.bad);
                    return;
                }
                size_t lit = 0;
                for (auto &l : ref.lm)
                    lit += !l.v[0].empty();
                auto R = explore_schedules(ctx, oo, sc.name, false, [&]() -> std::pair<uint64_t, std::string> {
                    Res x;
                    std::string e2 = once(x);
                    if (!e2.empty())
                        return {0, e2};
                    std::string d = differ(ref, x);
                    uint64_t h = hstr(slurp("t.bsp"));
                    return {h, d};
                });
                ctx.count("traces_validated_against_impl", R.execs);
                for (auto x : R.outcomes)
                    ctx.state(hcomb(x, hstr(sc.name)));
                ctx.nontrivial(hcomb(hstr(s.name), i));
                if (i == 0)
                    ctx.sample(s.name + ": " + std::to_string(R.execs) + " schedules in this shard, up to " + std::to_string(R.max_points) + " scheduling points, " + std::to_string(R.conflict_sites) +
                               " conflicting access sites, " + std::to_string(R.outcomes.size()) + " layouts, " + std::to_string(lit) + " lightmaps");
            };
            r.push_back(s);
        }
    return r;
}
} // namespace
int main(int argc, char **argv)
{
    return main_(argc, argv,
        {{"L02", "model_checking", "every schedule of the real light (lights, faces, bounces, storage) up to the deviation bound, compared with the sequential run lightmap by lightmap: order = every order of the tasks on one worker with up to `bound` out-of-order picks; locks / memory = two workers preempted at lock operations and conflicting memory accesses; a shard is one slice of the first deviations", {"memory is sequentially consistent", "conflicting access sites are those found in three discovery runs"}, l02, 300, 3000}});
}
