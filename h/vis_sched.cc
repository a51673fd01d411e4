// V02: every interleaving of vis's workers
#include "visworld.hh"
#include <mc/sched.hh>
#include <algorithm>
using namespace vw;
using namespace mc;

struct Scenario
{
    std::string name;
    World w;
    std::vector<std::string> args;
    bool timed_saves = false; // state files are saved all the time
};
static std::vector<Scenario> scenarios(bool T)
{
    std::vector<Scenario> r;
    auto slitA = rect(0, 0, 16, 64), slitB = rect(48, 0, 64, 64), mid = rect(24, 24, 40, 40), full = rect(0, 0, 64, 64);
    {
        World w; // bent corridor: 0-1-2-3, ends hidden from each other
        w.nx = 4;
        w.add(0, 0, 0, 0, slitA);
        w.add(1, 0, 0, 0, slitB);
        w.add(2, 0, 0, 0, slitA);
        r.push_back({"bent4", w, {}});
        r.push_back({"bent4-saving", w, {}, true});
        r.push_back({"bent4-noclip", w, {"-level", "1", "-targetchecks", "0"}});
    }
    {
        World w; // loop of four rooms
        w.nx = w.ny = 2;
        w.add(0, 0, 0, 0, slitA);
        w.add(0, 1, 0, 0, slitB);
        w.add(0, 0, 0, 1, mid);
        w.add(1, 0, 0, 1, full);
        r.push_back({"loop", w, {}});
    }
    {
        World w; // star
        w.nx = w.ny = 3;
        w.add(0, 1, 0, 0, mid);
        w.add(1, 1, 0, 0, mid);
        w.add(1, 0, 0, 1, slitA);
        w.add(1, 1, 0, 1, slitB);
        r.push_back({"star", w, {}});
    }
    if (T) {
        World w;
        w.nx = 6;
        w.add(0, 0, 0, 0, slitA);
        w.add(1, 0, 0, 0, slitB);
        w.add(2, 0, 0, 0, mid);
        w.add(3, 0, 0, 0, slitB);
        w.add(4, 0, 0, 0, slitA);
        r.push_back({"bent6", w, {}});
        r.push_back({"bent6-saving", w, {}, true});
        World g;
        g.nx = 3;
        g.ny = 2;
        for (int x = 0; x < 2; x++)
            for (int y = 0; y < 2; y++)
                g.add(x, y, 0, 0, (x + y) % 2 ? slitA : slitB);
        for (int x = 0; x < 3; x++)
            g.add(x, 0, 0, 1, x % 2 ? slitA : mid);
        r.push_back({"grid3x2", g, {}});
    }
    return r;
}

static std::vector<Space> v02(Tier t)
{
    bool T = t == Tier::thorough;
    std::vector<Space> r;
    for (auto &sc : scenarios(T))
        for (int mode = 0; mode < 4; mode++) {
            // mode 0: locks only, 2 workers; 1: locks only, 3 workers; 2: memory, 2 workers; 3: memory, rotating
            SchedOptions o;
            o.workers = mode == 1 ? 3 : 2;
            o.memory = mode >= 2;
            o.rotate = mode == 3 || mode == 1;
            o.bound = o.memory ? (T ? 2 : 1) : (mode == 0 ? (T ? 4 : 3) : 2);
            if (sc.timed_saves && !T && mode == 0)
                o.bound = 2;
            o.shards = T ? 64 : 16;
            Space s;
            s.name = sc.name + (mode == 0 ? "/locks-2w" : mode == 1 ? "/locks-3w" : mode == 2 ? "/memory-2w" : "/memory-2w-rotating");
            s.size = o.shards;
            s.chunk = 1;
            s.case_timeout = 120;
            s.run = [=](uint64_t i, Ctx &ctx) {
                SchedOptions oo = o;
                oo.shard = i;
                const World &w = sc.w;
                Sight si = line_of_sight(w);
                write_bsp("m.bsp", &bspver_q1, w.rooms());
                spit("m.prt", prt_text(w, transform(0)));
                std::filesystem::remove("m.vis");
                std::filesystem::remove("m.vi0");
                auto R = explore_schedules(ctx, oo, sc.name, false, [&]() -> std::pair<uint64_t, std::string> {
                    if (sc.timed_saves)
                        set_clock_step(400LL * 1000000000); // every look at the clock finds the save interval passed
                    std::vector<std::string> a = sc.args;
                    a.push_back("-noambient");
                    std::vector<std::string> full{"vis", "-nopercent", "-nostat", "-noprogress"};
                    full.insert(full.end(), a.begin(), a.end());
                    full.push_back("m.bsp");
                    // work on a private copy: the schedules of one case share the directory
                    try {
                        vis_main(full);
                    } catch (const std::exception &e) {
                        return {0, std::string("vis failed: ") + e.what()};
                    }
                    set_clock_step(0);
                    Result v = read_back("m.bsp", w.rooms());
                    if (!v.bad.empty())
                        return {0, v.bad};
                    uint64_t h = 11;
                    for (int a2 = 0; a2 < w.rooms(); a2++) {
                        for (int b : si.sees[a2])
                            if (!v.pvs[a2].count(b))
                                return {0, "room " + std::to_string(b) + " is in line of sight of room " + std::to_string(a2) + " but not in its PVS: " + show(v.pvs)};
                        for (int b : v.pvs[a2]) {
                            if (!si.reach[a2].count(b))
                                return {0, "room " + std::to_string(b) + " cannot be reached from " + std::to_string(a2) + ": " + show(v.pvs)};
                            h = hcomb(h, a2 * 100 + b);
                        }
                    }
                    if (std::filesystem::exists("m.vis") || std::filesystem::exists("m.vi0"))
                        return {0, "progress file left behind after a complete run"};
                    return {h, ""};
                });
                ctx.count("traces_validated_against_impl", R.execs);
                for (auto x : R.outcomes)
                    ctx.state(hcomb(x, hstr(sc.name)));
                ctx.nontrivial(hcomb(hstr(s.name), i));
                if (i == 0)
                    ctx.sample(s.name + ": " + std::to_string(R.execs) + " schedules in this shard, up to " + std::to_string(R.max_points) + " scheduling points, " + std::to_string(R.conflict_sites) +
                               " conflicting access sites, " + std::to_string(R.outcomes.size()) + " outcomes");
            };
            r.push_back(s);
        }
    return r;
}

int main(int argc, char **argv)
{
    logging::mask = logging::flag::NONE;
    return main_(argc, argv,
        {{"V02", "model_checking", "every schedule of 2 and 3 workers on small worlds up to a preemption bound; scheduling points at task starts, lock operations and (memory spaces) at every access site that conflicts between tasks; a state is a distinct (scenario, result)",
            {"memory is sequentially consistent", "conflicting access sites are those found in three discovery runs"}, v02, 200, 3000}});
}
