// V03: vis killed at every operation on its progress files, with every torn write,
// and with failing writes; then run again.
#include "visworld.hh"
#include <mc/sched.hh>
#include <algorithm>
#include <dlfcn.h>
#include <map>
#include <sys/mman.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace vw;
using namespace mc;

// ---------------------------------------------------------------- fault injector
namespace inj
{
bool on = false;
bool track[1024];
int ops = 0; // operations on progress files so far
std::vector<int> sizes; // size of write op, -1 for others
int crash_op = -1, crash_byte = -1; // die at this op (after that many bytes of a write)
int fail_from = -1, fail_to = -1; // ops that fail with ENOSPC (writes, opens)
std::vector<std::string> saves; // contents of m.vis after each rename
bool is_state(const char *p)
{
    std::string s(p);
    auto ends = [&](const char *e) { return s.size() >= 4 && s.substr(s.size() - 4) == e; };
    return ends(".vis") || ends(".vi0");
}
template<typename F>
F next(const char *n)
{
    return (F)dlsym(RTLD_NEXT, n);
}
// returns true if the op must fail
bool op(int size)
{
    int k = ops++;
    sizes.push_back(size);
    if (k == crash_op && (size < 0 || crash_byte < 0))
        _exit(77);
    return k >= fail_from && k < fail_to && fail_from >= 0;
}
void reset()
{
    on = true;
    ops = 0;
    sizes.clear();
    saves.clear();
    crash_op = crash_byte = fail_from = fail_to = -1;
    memset(track, 0, sizeof track);
}
} // namespace inj
static FILE *open_(const char *name, const char *p, const char *m)
{
    auto f = inj::next<FILE *(*)(const char *, const char *)>(name);
    bool s = inj::on && inj::is_state(p) && strpbrk(m, "wa+");
    if (s && inj::op(-1)) {
        errno = ENOSPC;
        return nullptr;
    }
    FILE *r = f(p, m);
    if (r && fileno(r) < 1024)
        inj::track[fileno(r)] = s;
    return r;
}
extern "C" {
FILE *fopen64(const char *p, const char *m) { return open_("fopen64", p, m); }
FILE *fopen(const char *p, const char *m) { return open_("fopen", p, m); }
ssize_t write(int fd, const void *b, size_t n)
{
    static auto f = inj::next<ssize_t (*)(int, const void *, size_t)>("write");
    if (inj::on && fd >= 0 && fd < 1024 && inj::track[fd]) {
        bool fail = inj::op(n);
        if (inj::ops - 1 == inj::crash_op) {
            if (inj::crash_byte > 0)
                f(fd, b, std::min<size_t>(n, inj::crash_byte));
            _exit(77);
        }
        if (fail) {
            errno = ENOSPC;
            return -1;
        }
    }
    return f(fd, b, n);
}
ssize_t writev(int fd, const iovec *v, int c)
{
    static auto f = inj::next<ssize_t (*)(int, const iovec *, int)>("writev");
    if (inj::on && fd >= 0 && fd < 1024 && inj::track[fd]) {
        std::string all;
        for (int i = 0; i < c; i++)
            all.append((const char *)v[i].iov_base, v[i].iov_len);
        return write(fd, all.data(), all.size());
    }
    return f(fd, v, c);
}
int fclose(FILE *fp)
{
    static auto f = inj::next<int (*)(FILE *)>("fclose");
    int fd = fileno(fp);
    if (fd >= 0 && fd < 1024 && inj::track[fd]) {
        inj::track[fd] = false;
        inj::op(-1);
    }
    return f(fp);
}
int rename(const char *a, const char *b)
{
    static auto f = inj::next<int (*)(const char *, const char *)>("rename");
    bool s = inj::on && (inj::is_state(a) || inj::is_state(b));
    if (s)
        inj::op(-1);
    int r = f(a, b);
    if (s && !r)
        inj::saves.push_back(slurp(b));
    return r;
}
int remove(const char *a)
{
    static auto f = inj::next<int (*)(const char *)>("remove");
    if (inj::on && inj::is_state(a))
        inj::op(-1);
    return f(a);
}
int unlink(const char *a)
{
    static auto f = inj::next<int (*)(const char *)>("unlink");
    if (inj::on && inj::is_state(a))
        inj::op(-1);
    return f(a);
}
}

// ---------------------------------------------------------------- progress file, read independently
struct PState
{
    uint32_t status = 0, numcansee = 0;
    std::vector<uint8_t> might, vis;
};
static bool expand(const std::string &s, size_t &o, uint32_t len, size_t row, std::vector<uint8_t> &out)
{
    if (o + len > s.size() || len > row)
        return false;
    out.clear();
    size_t e = o + len;
    if (len == row)
        out.assign(s.begin() + o, s.begin() + e);
    else
        while (o < e) {
            uint8_t c = s[o++];
            int rep = 1;
            if (c == 0 || c == 255) {
                if (o == e)
                    return false;
                rep = (uint8_t)s[o++];
            }
            out.insert(out.end(), rep, c);
        }
    o = e;
    return out.size() == row;
}
static bool parse_state(const std::string &s, std::vector<PState> &r)
{
    size_t o = 0;
    auto u = [&]() -> uint32_t {
        if (o + 4 > s.size()) {
            o = s.size() + 1;
            return 0;
        }
        uint32_t v;
        memcpy(&v, s.data() + o, 4);
        o += 4;
        return v;
    };
    u();
    uint32_t np = u(), nl = u();
    u();
    u();
    if (o > s.size() || np > 100000)
        return false;
    r.clear();
    for (uint32_t i = 0; i < np * 2; i++) { // two directions per portal
        PState p;
        p.status = u();
        uint32_t m = u(), v = u();
        u();
        p.numcansee = u();
        if (o > s.size() || !expand(s, o, m, (nl + 7) / 8, p.might))
            return false;
        if (p.status == 2 && !expand(s, o, v, (nl + 7) / 8, p.vis))
            return false;
        r.push_back(p);
    }
    return o == s.size();
}

// ---------------------------------------------------------------- scenarios
struct Scn
{
    std::string name;
    World w;
    bool q2 = false;
    std::vector<std::string> args;
    bool every_byte = true;
    int64_t clock_step = 400; // seconds per look at the clock
    int sight_rooms = 0; // judge by a corridor of this many rooms and period 7 instead
};
static World corridor(int n)
{
    World w;
    w.nx = n;
    for (int x = 0; x + 1 < n; x++)
        w.add(x, 0, 0, 0, x % 7 == 3 ? rect(0, 0, 20, 20) : x % 7 == 6 ? rect(44, 44, 64, 64) : rect(0, 0, 64, 64));
    return w;
}
static Sight sight_of(const Scn &s)
{
    if (!s.sight_rooms)
        return line_of_sight(s.w);
    Sight c = line_of_sight(corridor(s.sight_rooms)), r;
    int n = s.w.rooms(), k = s.sight_rooms;
    r.sees.resize(n);
    r.reach.resize(n);
    std::set<int> all;
    for (int i = 0; i < n; i++)
        all.insert(all.end(), i);
    for (int i = 0; i < n; i++) {
        r.reach[i] = all;
        int at = i % 7 + k / 2 / 7 * 7;
        for (int b : c.sees[at])
            if (b - at + i >= 0 && b - at + i < n)
                r.sees[i].insert(b - at + i);
    }
    return r;
}
static std::vector<Scn> scns(bool T)
{
    std::vector<Scn> r;
    auto slitA = rect(0, 0, 16, 64), slitB = rect(48, 0, 64, 64), mid = rect(24, 24, 40, 40), full = rect(0, 0, 64, 64);
    {
        World w;
        w.nx = 4;
        w.add(0, 0, 0, 0, slitA);
        w.add(1, 0, 0, 0, slitB);
        w.add(2, 0, 0, 0, slitA);
        r.push_back({"bent4", w});
    }
    {
        World w;
        w.nx = w.ny = 2;
        w.add(0, 0, 0, 0, slitA);
        w.add(0, 1, 0, 0, slitB);
        w.add(0, 0, 0, 1, mid);
        w.add(1, 0, 0, 1, full);
        r.push_back({"loop-q2", w, true});
        r.push_back({"loop-level1", w, false, {"-level", "1"}});
    }
    {
        World w; // rows of several bytes: compressed and uncompressed rows both occur
        w.nx = 34;
        for (int i = 0; i < 33; i++)
            w.add(i, 0, 0, 0, i % 3 == 0 ? slitA : i % 3 == 1 ? slitB : mid);
        r.push_back({"corridor34", w, false, {}, T});
    }
    {
        World w; // all rooms see all: rows of ones
        w.nx = 34;
        for (int i = 0; i < 33; i++)
            w.add(i, 0, 0, 0, full);
        r.push_back({"hall34", w, false, {}, false});
    }
    if (T) {
        World w;
        w.nx = 3;
        w.ny = 3;
        for (int x = 0; x < 2; x++)
            for (int y = 0; y < 3; y++)
                w.add(x, y, 0, 0, (x + y) % 2 ? slitA : mid);
        for (int x = 0; x < 3; x++)
            w.add(x, x % 2, 0, 1, slitB);
        r.push_back({"grid9", w});
        r.push_back({"grid9-visdist", w, false, {"-visdist", "150"}});
    }
    return r;
}

struct Outcome
{
    bool crashed = false;
    std::string error;
};
static void prepare(const Scn &s)
{
    for (auto f : {"m.vis", "m.vi0", "m.bsp", "m.prt"})
        std::filesystem::remove(f);
    write_bsp("m.bsp", s.q2 ? &bspver_q2 : &bspver_q1, s.w.rooms());
    spit("m.prt", prt_text(s.w, transform(0)));
    // well in the past, as when the portal file was written before vis started
    std::filesystem::last_write_time("m.prt", std::filesystem::file_time_type::clock::now() - std::chrono::hours(1));
}
static std::string vis_once(const Scn &s)
{
    std::vector<std::string> a{"vis", "-nopercent", "-nostat", "-noprogress", "-noambient"};
    a.insert(a.end(), s.args.begin(), s.args.end());
    a.push_back("m.bsp");
    set_clock_step(s.clock_step * 1000000000);
    std::string err;
    try {
        vis_main(a);
    } catch (const std::exception &e) {
        err = e.what();
    }
    set_clock_step(0);
    return err;
}
// runs vis in a child that may die; returns the wait status
static int child(const std::function<int()> &f)
{
    pid_t p = fork();
    if (!p)
        _exit(f());
    int st = 0;
    while (waitpid(p, &st, 0) < 0)
        ;
    return st;
}
// number and sizes of ops of an undisturbed run from the files on disk
static std::vector<int> dry(const Scn &s)
{
    int *m = (int *)mmap(nullptr, 1 << 20, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    child([&] {
        inj::reset();
        vis_once(s);
        m[0] = inj::sizes.size();
        for (size_t i = 0; i < inj::sizes.size() && i < 200000; i++)
            m[i + 1] = inj::sizes[i];
        return 0;
    });
    std::vector<int> r(m + 1, m + 1 + m[0]);
    munmap(m, 1 << 20);
    return r;
}
static void save_files(std::map<std::string, std::string> &f)
{
    f.clear();
    for (auto n : {"m.vis", "m.vi0", "m.bsp"})
        if (std::filesystem::exists(n))
            f[n] = slurp(n);
}
static void restore_files(const std::map<std::string, std::string> &f)
{
    for (auto n : {"m.vis", "m.vi0", "m.bsp"})
        if (f.count(n))
            spit(n, f.at(n));
        else
            std::filesystem::remove(n);
}
static std::string judge(const Scn &s, const Sight &si)
{
    Result v = read_back("m.bsp", s.w.rooms());
    if (!v.bad.empty())
        return v.bad;
    bool limited = !s.args.empty() && s.args[0] == "-visdist";
    for (int a = 0; a < s.w.rooms(); a++) {
        for (int b : si.sees[a])
            if (!v.pvs[a].count(b) && (!limited || a == b))
                return "room " + std::to_string(b) + " is in line of sight of room " + std::to_string(a) + " but not in its PVS: " + show(v.pvs);
        for (int b : v.pvs[a])
            if (!si.reach[a].count(b))
                return "room " + std::to_string(b) + " cannot be reached from " + std::to_string(a);
    }
    return "";
}
// resume from what is on disk and check everything
static void resume(const Scn &s, const Sight &si, Ctx &ctx, const std::string &key, const std::string &what)
{
    std::vector<PState> before;
    bool had = std::filesystem::exists("m.vis") && parse_state(slurp("m.vis"), before);
    inj::reset();
    std::string err = vis_once(s);
    inj::on = false;
    ctx.count("resumed runs");
    if (!err.empty()) {
        ctx.fail(key, what + ": the next run fails: " + err);
        return;
    }
    std::string bad = judge(s, si);
    if (!bad.empty()) {
        ctx.fail(key, what + ": after the next run: " + bad);
        return;
    }
    if (std::filesystem::exists("m.vis") || std::filesystem::exists("m.vi0"))
        ctx.fail(key, what + ": progress files left behind by the completed run");
    if (had)
        for (auto &sv : inj::saves) {
            std::vector<PState> now;
            if (!parse_state(sv, now)) {
                ctx.fail(key, what + ": a progress file written by the next run is not complete");
                return;
            }
            for (size_t i = 0; i < before.size() && i < now.size(); i++)
                if (before[i].status == 2 && (now[i].status != 2 || now[i].vis != before[i].vis || now[i].numcansee != before[i].numcansee)) {
                    ctx.fail(key, what + ": portal " + std::to_string(i) + " was recorded as finished, and is no longer, or differently, in the next run's progress file");
                    return;
                }
            if (&sv == &inj::saves[0])
                ctx.count("recovered progress compared");
        }
}
static std::vector<int> torn(int size, bool every, int part, int parts)
{
    std::vector<int> r;
    if (size < 0) {
        if (part == 0)
            r.push_back(-1);
        return r;
    }
    for (int b = 0; b <= size; b++) {
        bool take = every || b == 0 || b == size || b == size - 1 || b == 1 || b == 19 || b == 20 || b == size / 2 || b == 40 || b == 44;
        if (take && b % parts == part)
            r.push_back(b);
    }
    return r;
}

static std::vector<Space> v03(Tier t)
{
    bool T = t == Tier::thorough;
    std::vector<Space> r;
    for (auto &sc : scns(T)) {
        bool big = sc.w.rooms() > 9;
        int maxops = 6 * (2 * (int)sc.w.op.size() + 3), parts = big ? 4 : 2;
        // one kill
        Space s;
        s.name = "kill/" + sc.name;
        s.size = (uint64_t)maxops * parts;
        s.chunk = 8;
        s.run = [=](uint64_t i, Ctx &ctx) {
            int op = i / parts, part = i % parts;
            prepare(sc);
            auto sizes = dry(sc);
            if (op >= (int)sizes.size())
                return;
            Sight si = sight_of(sc);
            // in big worlds every byte of the first, a middle and the last save; a few lengths of the others
            bool every = sc.every_byte || op <= 2 || std::abs(op - (int)sizes.size() / 2) <= 2 || op + 6 >= (int)sizes.size();
            for (int b : torn(sizes[op], every, part, parts)) {
                prepare(sc);
                int st = child([&] {
                    inj::reset();
                    inj::crash_op = op;
                    inj::crash_byte = b;
                    vis_once(sc);
                    return 0;
                });
                if (!WIFEXITED(st) || WEXITSTATUS(st) != 77) {
                    ctx.count("kill points not reached");
                    continue;
                }
                ctx.count("kill points");
                ctx.nontrivial(hcomb(hcomb(hstr(sc.name), op), b));
                {
                    std::vector<PState> ps;
                    std::string st = std::filesystem::exists("m.vis") ? slurp("m.vis") : "";
                    if (st.size() >= 4 && !memcmp(st.data(), "1RYT", 4) && !parse_state(st, ps)) {
                        ctx.fail(sc.name, "killed at operation " + std::to_string(op) + ": the progress file under its final name does not hold the finished work");
                        continue;
                    }
                }
                resume(sc, si, ctx, sc.name, "killed at operation " + std::to_string(op) + (b >= 0 ? " after " + std::to_string(b) + " of " + std::to_string(sizes[op]) + " bytes" : "") + " of " + std::to_string(sizes.size()));
                if (op == 4 && b <= 0)
                    ctx.sample(sc.name + ": killed at operation 4 of " + std::to_string(sizes.size()) + ", resumed");
            }
        };
        r.push_back(s);

        // failing writes, then the run goes on; then kill later
        Space f;
        f.name = "disk-full/" + sc.name;
        f.size = maxops;
        f.chunk = 4;
        f.run = [=](uint64_t op, Ctx &ctx) {
            prepare(sc);
            auto sizes = dry(sc);
            if (op >= sizes.size())
                return;
            Sight si = sight_of(sc);
            std::vector<int> until{(int)op + 1, (int)op + 3, 1 << 30};
            for (int to : until)
                for (int kill = -1; kill < (big ? 8 : 12); kill++) {
                    prepare(sc);
                    int st = child([&] {
                        inj::reset();
                        inj::fail_from = op;
                        inj::fail_to = to;
                        if (kill >= 0) {
                            inj::crash_op = op + 1 + kill;
                            inj::crash_byte = 30;
                        }
                        std::string e = vis_once(sc);
                        return e.empty() ? 0 : e.find("state file") != std::string::npos ? 3 : 2;
                    });
                    ctx.count("runs with failing writes");
                    ctx.nontrivial(hcomb(hcomb(hcomb(hstr(sc.name), op), to), kill));
                    std::string what = "operations " + std::to_string(op) + ".." + std::to_string(to) + " on the progress files fail" + (kill >= 0 ? ", killed " + std::to_string(kill) + " operations later" : "");
                    if (!WIFEXITED(st) || WEXITSTATUS(st) == 2)
                        ctx.fail(sc.name, what + ": vis crashes or fails");
                    else if (WEXITSTATUS(st) == 0) {
                        std::string bad = judge(sc, si);
                        if (!bad.empty())
                            ctx.fail(sc.name, what + ": " + bad);
                    }
                    resume(sc, si, ctx, sc.name, what);
                }
        };
        r.push_back(f);

        // two kills
        if (big && !T)
            continue;
        Space k2;
        k2.name = "kill-twice/" + sc.name;
        k2.size = maxops;
        k2.chunk = 2;
        k2.case_timeout = 200;
        k2.run = [=](uint64_t op, Ctx &ctx) {
            prepare(sc);
            auto sizes = dry(sc);
            if (op >= sizes.size())
                return;
            Sight si = sight_of(sc);
            for (int b : torn(sizes[op], false, 0, 1)) {
                if (T && big && b > 0 && b < sizes[op])
                    continue;
                prepare(sc);
                child([&] {
                    inj::reset();
                    inj::crash_op = op;
                    inj::crash_byte = b;
                    vis_once(sc);
                    return 0;
                });
                std::map<std::string, std::string> mid;
                save_files(mid);
                auto sizes2 = dry(sc);
                for (size_t op2 = 0; op2 < sizes2.size(); op2++)
                    for (int b2 : torn(sizes2[op2], T && !big, 0, 1)) {
                        if (T && big && b2 > 0 && b2 < sizes2[op2] && b2 != 20)
                            continue;
                        ctx.beat();
                        if (!ctx.time_left()) {
                            ctx.capped();
                            return;
                        }
                        restore_files(mid);
                        child([&] {
                            inj::reset();
                            inj::crash_op = op2;
                            inj::crash_byte = b2;
                            vis_once(sc);
                            return 0;
                        });
                        ctx.count("histories of two kills");
                        ctx.nontrivial(hcomb(hcomb(hcomb(hcomb(hstr(sc.name), op), b), op2), b2));
                        resume(sc, si, ctx, sc.name, "killed at operation " + std::to_string(op) + "/" + std::to_string(b) + ", again at operation " + std::to_string(op2) + "/" + std::to_string(b2));
                    }
            }
        };
        r.push_back(k2);
    }
    // progress files that are cut short, belong to another portal file, or are damaged in their sizes
    {
        auto all = scns(T);
        for (size_t k = 0, n = all.size(); k < n; k++) { // same counts, other portals
            Scn m = all[k];
            m.name += "-relisted";
            std::rotate(m.w.op.begin(), m.w.op.begin() + 1, m.w.op.end());
            all.push_back(m);
        }
        Space s;
        s.name = "foreign";
        s.size = all.size() * all.size();
        s.chunk = 2;
        s.run = [=](uint64_t i, Ctx &ctx) {
            auto &A = all[i / all.size()], &B = all[i % all.size()];
            if (A.name == B.name)
                return;
            // a progress file of A, with some portals finished
            prepare(A);
            auto sizes = dry(A);
            for (size_t op = 3; op < sizes.size(); op += 7) {
                prepare(A);
                child([&] {
                    inj::reset();
                    inj::crash_op = op;
                    inj::crash_byte = 0;
                    vis_once(A);
                    return 0;
                });
                if (!std::filesystem::exists("m.vis"))
                    continue;
                std::string state = slurp("m.vis");
                std::vector<PState> parsed;
                bool ok = parse_state(state, parsed);
                if (!ok)
                    ctx.fail(A.name, "a progress file on disk under its final name is not complete");
                Sight si = line_of_sight(B.w);
                for (int name = 0; name < 2; name++)
                    for (int newer = 0; newer < 4; newer++) { // 1: newer; else older by a minute, a second, a millisecond
                        bool same = A.w.op.size() == B.w.op.size() && A.w.rooms() == B.w.rooms();
                        if (newer == 1 && same)
                            continue; // cannot be told apart from its own
                        prepare(B);
                        const char *fn = name ? "m.vi0" : "m.vis";
                        spit(fn, state);
                        auto now = std::filesystem::last_write_time("m.prt");
                        std::filesystem::last_write_time(fn, newer == 1 ? now + std::chrono::minutes(1) : newer == 0 ? now - std::chrono::minutes(1) : newer == 2 ? now - std::chrono::seconds(1) : now - std::chrono::milliseconds(1));
                        std::string orig = slurp("m.bsp");
                        inj::reset();
                        std::string err = vis_once(B);
                        inj::on = false;
                        ctx.count("runs with a foreign progress file");
                        ctx.nontrivial(hcomb(hcomb(hcomb(i, op), name), newer));
                        std::string what = B.name + (newer == 1 ? " with a newer" : " with an older") + " progress file of " + A.name + " as " + fn;
                        if (err.empty()) {
                            std::string bad = judge(B, si);
                            if (!bad.empty())
                                ctx.fail(B.name, what + ": " + bad);
                        } else if (newer != 1)
                            ctx.fail(B.name, what + ": vis fails: " + err);
                        else if (slurp("m.bsp") != orig)
                            ctx.fail(B.name, what + ": vis fails but changed the map");
                    }
            }
        };
        r.push_back(s);
        all.resize(all.size() / 2);
        Space c;
        c.name = "cut-short";
        c.size = all.size() * 8;
        c.chunk = 1;
        c.run = [=](uint64_t i, Ctx &ctx) {
            auto &A = all[i / 8];
            prepare(A);
            auto sizes = dry(A);
            size_t op = sizes.size() * (i % 8 + 1) / 9;
            prepare(A);
            child([&] {
                inj::reset();
                inj::crash_op = op;
                inj::crash_byte = 0;
                vis_once(A);
                return 0;
            });
            if (!std::filesystem::exists("m.vis"))
                return;
            std::string state = slurp("m.vis");
            Sight si = line_of_sight(A.w);
            bool big = A.w.rooms() > 9;
            for (size_t cut = 0; cut < state.size(); cut += (big && !T && cut > 60 && cut + 60 < state.size()) ? 13 : 1)
                for (int name = 0; name < 2; name++) {
                    ctx.beat();
                    prepare(A);
                    spit(name ? "m.vi0" : "m.vis", state.substr(0, cut));
                    ctx.nontrivial(hcomb(hcomb(i, cut), name));
                    ctx.count("cut progress files");
                    resume(A, si, ctx, A.name, "progress file cut to " + std::to_string(cut) + " of " + std::to_string(state.size()) + " bytes" + (name ? " (temporary name)" : ""));
                }
        };
        r.push_back(c);
    }
    // rows of more than 255 bytes
    for (int n : T ? std::vector<int>{2041, 2100, 4200} : std::vector<int>{2100}) {
        Scn sc{"corridor" + std::to_string(n), corridor(n), false, {}, false, 1, 42};
        Space s;
        s.name = "kill/" + sc.name;
        s.size = T ? 64 : 8;
        s.chunk = 1;
        s.case_timeout = 300;
        int parts = s.size;
        s.run = [=](uint64_t i, Ctx &ctx) {
            Sight si = sight_of(sc);
            prepare(sc);
            auto sizes = dry(sc);
            int op = sizes.size() * (i + 1) / (parts + 1);
            prepare(sc);
            int st = child([&] {
                inj::reset();
                inj::crash_op = op;
                inj::crash_byte = sizes[op] / 2;
                vis_once(sc);
                return 0;
            });
            if (!WIFEXITED(st) || WEXITSTATUS(st) != 77) {
                ctx.count("kill points not reached");
                return;
            }
            ctx.count("kill points");
            ctx.nontrivial(hcomb(hstr(sc.name), op));
            std::vector<PState> ps;
            std::string state = std::filesystem::exists("m.vis") ? slurp("m.vis") : "";
            if (state.size() >= 4 && !memcmp(state.data(), "1RYT", 4) && !parse_state(state, ps)) {
                ctx.fail(sc.name, "killed at operation " + std::to_string(op) + ": the progress file under its final name does not hold the finished work");
                return;
            }
            resume(sc, si, ctx, sc.name, "killed at operation " + std::to_string(op) + " of " + std::to_string(sizes.size()));
        };
        r.push_back(s);
    }
    return r;
}

int main(int argc, char **argv)
{
    logging::mask = logging::flag::NONE;
    return main_(argc, argv,
        {{"V03", "fault_enumeration",
            "vis saves its progress before every portal; it is killed at every operation on the progress files, writes torn at every byte, once and twice in a row, and with every operation failing; then the same command is run again and judged by line of sight, reachability and the progress recorded before",
            {"a killed process loses nothing it had written (no power failure)", "operations are seen at the C library's fopen/write/writev/rename/remove/unlink"}, v03, 200, 3000}});
}
