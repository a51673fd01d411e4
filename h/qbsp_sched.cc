// Q08: qbsp's files do not depend on how its tasks interleave
#include "qworld.hh"
#include <mc/explore.hh>
#include <mc/sched.hh>
using namespace qw;
using namespace mc;
using Opts = std::vector<std::string>;
namespace
{
struct Scenario
{
    std::string name;
    Map m;
    Opts opts;
    bool must_prt = true;
};
Box bx(I3 a, I3 b, int type = SOLID)
{
    Box k;
    k.mn = a, k.mx = b, k.type = type;
    return k;
}
void room(Map &m, I3 a, I3 b, int t = 16)
{
    for (int x = 0; x < 3; x++)
        for (int s = 0; s < 2; s++) {
            I3 p = a, q = b;
            for (int y = 0; y < 3; y++)
                p[y] -= t, q[y] += t;
            (s ? p[x] : q[x]) = s ? b[x] : a[x];
            m.box.push_back(bx(p, q));
        }
}
Point pt(const char *c, I3 at, std::string keys = "")
{
    Point p;
    p.classname = c, p.at = at, p.keys = keys;
    return p;
}
std::vector<Scenario> scenarios()
{
    std::vector<Scenario> r;
    Scenario s;
    s.name = "room";
    room(s.m, {-96, -96, -64}, {96, 96, 64});
    s.m.box.push_back(bx({-32, -40, -64}, {0, 24, 0}));
    s.m.pt = {pt("info_player_start", {-64, -64, 0})};
    r.push_back(s);
    s.name = "pillars";
    s.m.box.push_back(bx({32, 40, -64}, {48, 64, 64}));
    s.m.box.push_back(bx({16, -72, -64}, {72, -48, 20}, WATER));
    s.m.box.push_back(bx({-72, 40, -64}, {-40, 72, -20}, DETAIL));
    r.push_back(s);
    s.name = "pillars, chopped";
    s.opts = {"-chop"};
    s.m.box.push_back(bx({-16, -60, -40}, {40, 10, -10})); // overlaps
    s.m.box.push_back(bx({20, 0, -64}, {60, 50, -30}));
    r.push_back(s);
    s.name = "brush model";
    s.opts = {};
    {
        Model k;
        k.box = {bx({-80, 0, 0}, {-60, 30, 30}), bx({-70, 10, 20}, {-50, 50, 50})};
        s.m.model = {k};
    }
    r.push_back(s);
    s.name = "leak";
    s.m.box.erase(s.m.box.begin() + 5);
    s.must_prt = false;
    r.push_back(s);
    s.name = "outside kept";
    s.opts = {"-nofill"};
    r.push_back(s);
    s = {};
    s.name = "quake 2";
    room(s.m, {-96, -96, -64}, {96, 96, 64});
    s.m.box.push_back(bx({-32, -40, -64}, {0, 24, 0}));
    s.m.box.push_back(bx({32, 40, -64}, {48, 64, 64}));
    s.m.box.push_back(bx({40, -40, -64}, {56, -20, -30}, DETAIL));
    s.m.pt = {pt("info_player_start", {-64, -64, 0})};
    s.opts = {"-q2bsp"};
    r.push_back(s);
    s.name = "quake 2, area portal";
    s.m.box.push_back(bx({-96, -56, -64}, {0, -48, 64}));
    s.m.box.push_back(bx({0, -56, -64}, {96, -48, 20}));
    {
        Model k;
        k.classname = "func_areaportal";
        k.keys = "\"targetname\" \"a\"\n";
        k.box = {bx({0, -56, 20}, {96, -48, 64})};
        s.m.model = {k};
    }
    r.push_back(s);
    s = {};
    s.name = "t-junctions";
    room(s.m, {-64, -64, -64}, {64, 64, 64});
    for (int k = 0; k < 3; k++)
        s.m.box.push_back(bx({-64 + 40 * k, -64, -64}, {-40 + 40 * k, -20 + 10 * k, -30 + 8 * k}));
    s.m.pt = {pt("info_player_start", {0, 40, 40})};
    s.opts = {"-tjunc", "rotate", "-maxnodesize", "64"};
    r.push_back(s);
    s.name = "t-junctions, retopologised";
    s.opts = {"-tjunc", "mwt", "-forcegoodtree", "-wrbrushes"};
    r.push_back(s);
    s.name = "half-life, merged subdivisions";
    s.opts = {"-hlbsp", "-subdivide", "48"};
    r.push_back(s);
    return r;
}
std::vector<Space> q08(Tier t)
{
    bool T = t == Tier::thorough;
    std::vector<Space> r;
    for (auto &sc : scenarios())
        for (int mode = 0; mode < 4; mode++) {
            // the memory mode has the scheduling points of the locks and of the tasks' ends too
            if (!T && (mode != 2 || (sc.name != "room" && sc.name != "quake 2, area portal")))
                continue;
            SchedOptions o;
            o.workers = mode == 0 ? 1 : 2;
            o.order = mode == 0;
            o.memory = mode >= 2;
            o.rotate = mode == 3;
            o.sparse = o.memory;
            o.bound = 1;
            o.exec_timeout = 20; // a run takes a fraction of a second
            if (mode == 0)
                o.order_window = 8;
            o.shards = T ? 64 : 8;
            Space s;
            s.name = sc.name + (mode == 0 ? "/order" : mode == 1 ? "/locks" : mode == 2 ? "/memory" : "/memory, rotating");
            s.size = o.shards;
            s.chunk = 1;
            s.case_timeout = 300;
            s.run = [=](uint64_t i, Ctx &ctx) {
                SchedOptions oo = o;
                oo.shard = i;
                std::string text = maptext(sc.m);
                auto once = [&](std::string &bsp, std::string &prt) -> std::string {
                    for (const char *f : {"t.bsp", "t.prt", "t.pts", "t.texinfo.json"})
                        std::filesystem::remove(f);
                    Out q = compile(text, sc.opts);
                    bsp = q.bytes, prt = q.prtbytes;
                    for (auto &v : q.trail)
                        prt += " " + std::to_string(v[0]) + " " + std::to_string(v[1]) + " " + std::to_string(v[2]);
                    return q.error;
                };
                std::string b0, p0;
                std::string e = once(b0, p0);
                if (!e.empty() || b0.empty()) {
                    ctx.fail("qbsp refuses " + sc.name, e);
                    return;
                }
                if (sc.must_prt && p0.empty()) {
                    ctx.fail("no portal file for " + sc.name, "");
                    return;
                }
                auto R = explore_schedules(ctx, oo, sc.name, true, [&]() -> std::pair<uint64_t, std::string> {
                    std::string b, p;
                    std::string e2 = once(b, p);
                    if (!e2.empty())
                        return {0, e2};
                    std::string d;
                    if (b != b0) {
                        size_t k = 0;
                        while (k < std::min(b.size(), b0.size()) && b[k] == b0[k])
                            k++;
                        d = "the .bsp differs from the sequential run's: " + std::to_string(b.size()) + " instead of " + std::to_string(b0.size()) + " bytes, first difference at " + std::to_string(k);
                    } else if (p != p0)
                        d = "the portal file (or leak trail) differs from the sequential run's";
                    return {hstr(b + p), d};
                });
                ctx.count("traces_validated_against_impl", R.execs);
                for (auto x : R.outcomes)
                    ctx.state(hcomb(x, hstr(sc.name)));
                ctx.nontrivial(hcomb(hstr(s.name), i));
                if (i == 0)
                    ctx.sample(s.name + ": " + std::to_string(R.execs) + " schedules in this shard, up to " + std::to_string(R.max_points) + " scheduling points, " + std::to_string(R.conflict_sites) + " conflicting access sites, " +
                               std::to_string(R.outcomes.size()) + " outcomes, .bsp " + std::to_string(b0.size()) + " bytes");
            };
            r.push_back(s);
        }
    return r;
}
} // namespace
int main(int argc, char **argv)
{
    return main_(argc, argv,
        {{"Q08", "model_checking", "every schedule of the real qbsp up to the deviation bound, its files compared byte for byte with the sequential run's: order = every order of the tasks on one worker with up to `bound` out-of-order picks; memory = two workers, preempted at the ends of tasks and at the 1st, 2nd, 4th, 8th, ... execution of each lock operation and of each conflicting memory access; a shard is one slice of the first deviations", {"memory is sequentially consistent", "conflicting access sites are those of two tasks that can run at once (by fork and join), found in three discovery runs"}, q08, 300, 3000}});
}
