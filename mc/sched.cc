#include <execinfo.h>
#include <mc/sched.hh>
#include <mc/explore.hh>
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <list>
#include <malloc.h>
#include <map>
#include <memory>
#include <pthread.h>
#include <semaphore.h>
#include <set>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>

namespace mc
{
bool g_mem_active = false;
int g_atomic = 0;

namespace
{
int64_t g_clock_step = 0, g_clock = 0;

// ---- trace shared with the exploring parent
struct TracePoint
{
    uint16_t n, chosen;
    uint8_t cost; // cost of taking an alternative other than 0
};
constexpr size_t MAXPTS = 1u << 19;
constexpr size_t MAXPC = 1u << 14;
struct Trace
{
    std::atomic<uint32_t> npts;
    uint32_t done;
    uint32_t overflow;
    uint64_t outcome;
    uint64_t switches;
    char fail[16384];
    uint32_t npc;
    uintptr_t pcs[MAXPC];
    TracePoint pts[MAXPTS];
};
Trace *T = nullptr;

// ---- run-time state of one execution
struct Group
{
    size_t n, next = 0, finished = 0;
    const std::function<void(size_t)> *f;
    std::vector<size_t> remaining; // order mode
    std::exception_ptr err;
    uint32_t id = 0, task = 0; // the task that waits for it
};
enum class St
{
    run,
    lock,
    idle,
    join,
    gone
};
struct Thr
{
    St st = St::run;
    void *mtx = nullptr;
    Group *grp = nullptr;
    sem_t sem;
    pthread_t th;
    uintptr_t stack_lo = 0, stack_hi = 0, stack_used = ~uintptr_t(0);
    uint32_t task = 0;
};
bool g_on = false; // exploration active in this process
bool g_discover = false;
SchedOptions g_o;
std::vector<std::unique_ptr<Thr>> g_thr;
std::list<Group *> g_groups; // groups with unstarted tasks, newest last
std::map<void *, int> g_owner;
const std::vector<uint16_t> *g_prefix = nullptr;
size_t g_pos = 0;
uint32_t g_tasks = 0;
uint32_t g_ngroups = 0;
struct TaskInfo
{
    uint32_t parent, group, depth;
};
std::vector<TaskInfo> g_info; // by task, 0 is the run itself
bool g_shutdown = false;
thread_local int t_me = -1;
int g_cur = 0;

[[noreturn]] void finish_exec(uint64_t outcome, const std::string &fail)
{
    T->outcome = outcome;
    strncpy(T->fail, fail.c_str(), sizeof(T->fail) - 1);
    T->done = 1;
    _exit(0);
}

unsigned choose(unsigned n, unsigned cost)
{
    if (n <= 1)
        return 0;
    unsigned c = 0;
    if (g_prefix && g_pos < g_prefix->size()) {
        c = (*g_prefix)[g_pos];
        if (c >= n) {
            fprintf(stderr, "replay divergence: choice %u of %u at %zu\n", c, n, g_pos);
            _exit(55);
        }
    }
    if (g_pos < MAXPTS) {
        T->pts[g_pos] = {uint16_t(n), uint16_t(c), uint8_t(cost)};
        T->npts = g_pos + 1;
    } else {
        T->overflow = 1;
    }
    g_pos++;
    return c;
}

bool enabled(int i)
{
    Thr &t = *g_thr[i];
    switch (t.st) {
        case St::run: return true;
        case St::lock: return !g_owner.count(t.mtx);
        case St::idle: return !g_groups.empty() || g_shutdown;
        case St::join: return t.grp->finished == t.grp->n || t.grp->next < t.grp->n;
        case St::gone: return false;
    }
    return false;
}

void switch_to(int next)
{
    int me = t_me;
    if (next == me)
        return;
    T->switches++;
    g_cur = next;
    sem_post(&g_thr[next]->sem);
    while (sem_wait(&g_thr[me]->sem) != 0)
        ;
}

// the current thread gives up the baton (it may go on if it is enabled)
void reschedule(bool prefer_other)
{
    int me = t_me;
    std::vector<int> en;
    bool self = enabled(me);
    if (self && !prefer_other)
        en.push_back(me);
    for (size_t k = 1; k < g_thr.size(); k++) {
        int i = (me + k) % g_thr.size();
        if (enabled(i))
            en.push_back(i);
    }
    if (self && prefer_other)
        en.push_back(me);
    if (en.empty()) {
        std::string d = "deadlock: no worker can run;";
        for (size_t i = 0; i < g_thr.size(); i++)
            d += " worker " + std::to_string(i) + (g_thr[i]->st == St::lock ? " waits for a lock" : g_thr[i]->st == St::join ? " waits for its tasks" : " idle");
        finish_exec(0, d);
    }
    // picking someone else while we could go on is a deviation; when we cannot, the choice is free
    unsigned c = choose(en.size(), self ? 1 : (en.size() > 1 ? 1 : 0));
    if (c && getenv("SCHED_BT")) {
        void *b[40];
        backtrace_symbols_fd(b, backtrace(b, 40), 2);
        fprintf(stderr, "--- switch\n");
    }
    switch_to(en[c]);
}

void point()
{
    if (!g_on || t_me < 0)
        return;
    g_thr[t_me]->st = St::run;
    reschedule(false);
}

void forget_stack(Thr &t); // its frames below the current one are gone

void run_task(Group *g, size_t i)
{
    uint32_t save = g_thr[t_me]->task;
    g_thr[t_me]->task = ++g_tasks;
    if (g_discover) {
        g_info.resize(g_tasks + 1);
        g_info[g_tasks] = {g->task, g->id, g_info[g->task].depth + 1};
    }
    try {
        (*g->f)(i);
    } catch (...) {
        if (!g->err)
            g->err = std::current_exception();
    }
    g_thr[t_me]->task = save;
    if (g_discover)
        forget_stack(*g_thr[t_me]);
    g->finished++;
}

bool take(Group *g, size_t &i)
{
    if (g->next >= g->n)
        return false;
    if (g_o.order) {
        unsigned k = choose(std::min<size_t>(g->remaining.size(), g_o.order_window), 1);
        i = g->remaining[k];
        g->remaining.erase(g->remaining.begin() + k);
        g->next++;
    } else
        i = g->next++;
    if (g->next >= g->n)
        g_groups.remove(g);
    return true;
}

void *worker_main(void *p)
{
    t_me = int(intptr_t(p));
    Thr &me = *g_thr[t_me];
    pthread_attr_t at;
    pthread_getattr_np(pthread_self(), &at);
    void *lo;
    size_t sz;
    pthread_attr_getstack(&at, &lo, &sz);
    pthread_attr_destroy(&at);
    me.stack_lo = uintptr_t(lo);
    me.stack_hi = me.stack_lo + sz;
    while (sem_wait(&me.sem) != 0)
        ;
    for (;;) {
        me.st = St::idle;
        if (!enabled(t_me))
            reschedule(false);
        if (g_shutdown)
            break;
        me.st = St::run;
        Group *g = g_groups.empty() ? nullptr : g_groups.back();
        size_t i;
        if (g && take(g, i)) {
            run_task(g, i);
            me.st = St::idle;
            reschedule(g_o.rotate);
        }
    }
    me.st = St::gone;
    // hand the baton back to whoever is enabled (the main thread, which shuts us down)
    for (size_t i = 0; i < g_thr.size(); i++)
        if (int(i) != t_me && enabled(i)) {
            g_cur = i;
            sem_post(&g_thr[i]->sem);
            break;
        }
    return nullptr;
}

// ---- conflict discovery (memory accesses of different tasks)
struct Acc
{
    uintptr_t pc;
    uint32_t task;
    bool write;
    int thr;
};
struct Gran
{
    std::vector<Acc> a;
};
std::unordered_map<uintptr_t, Gran> *g_gran;
std::set<uintptr_t> *g_conf;
bool g_in_hook = false;
uintptr_t g_pc0 = 0; // pcs that are scheduling points: those with g_points[pc - g_pc0]
std::vector<bool> g_points;
std::unordered_map<uintptr_t, uint64_t> g_occ; // executions of each of them in this run (sparse)

// may the two run at the same time?  Only if, below the task both descend from,
// they are of different tasks of one group.
bool concurrent(uint32_t a, uint32_t b)
{
    while (g_info[a].depth > g_info[b].depth)
        a = g_info[a].parent;
    while (g_info[b].depth > g_info[a].depth)
        b = g_info[b].parent;
    if (a == b)
        return false;
    while (g_info[a].parent != g_info[b].parent) {
        a = g_info[a].parent;
        b = g_info[b].parent;
    }
    return g_info[a].group == g_info[b].group;
}

void forget_stack(Thr &t)
{
    uintptr_t sp = uintptr_t(__builtin_frame_address(0));
    if (t.stack_used < sp) {
        g_in_hook = true;
        for (uintptr_t g = t.stack_used >> 2; g <= sp >> 2; g++)
            g_gran->erase(g);
        g_in_hook = false;
    }
    t.stack_used = ~uintptr_t(0);
}

void discover(uintptr_t addr, unsigned size, bool write, uintptr_t pc)
{
    uint32_t task = g_thr[t_me]->task;
    if (!task)
        return;
    Thr &me = *g_thr[t_me];
    if (addr >= me.stack_lo && addr < me.stack_hi)
        me.stack_used = std::min(me.stack_used, addr);
    for (uintptr_t g = addr >> 2; g <= (addr + size - 1) >> 2; g++) {
        auto &e = (*g_gran)[g].a;
        bool have = false;
        for (auto &x : e) {
            if (x.task != task && x.thr != t_me && (x.write || write) && concurrent(x.task, task)) {
                g_conf->insert(x.pc);
                g_conf->insert(pc);
            }
            have |= x.pc == pc && x.task == task && x.write == write && x.thr == t_me;
        }
        if (!have) {
            if (e.size() < 24)
                e.push_back({pc, task, write, t_me});
            else { // keep first writers
                e[12 + (pc / 4 + task) % 12] = {pc, task, write, t_me};
            }
        }
    }
}
} // namespace

// memory given back: what is put there next is something else
void mem_free(uintptr_t addr, size_t size)
{
    if (!g_on || t_me < 0 || g_in_hook || !g_discover || !g_gran)
        return;
    g_in_hook = true;
    for (uintptr_t g = addr >> 2; g <= (addr + size - 1) >> 2; g++)
        g_gran->erase(g);
    g_in_hook = false;
}

// sparse: only executions 1, 2, 4, 8, ... of each site are scheduling points
bool occurs(uintptr_t pc)
{
    if (!g_o.sparse)
        return true;
    g_in_hook = true;
    uint64_t n = ++g_occ[pc];
    g_in_hook = false;
    return !(n & (n - 1));
}

void mem_access(uintptr_t addr, unsigned size, bool write, uintptr_t pc)
{
    if (!g_on || t_me < 0 || g_in_hook || g_atomic)
        return;
    if (g_discover) {
        g_in_hook = true;
        discover(addr, size, write, pc);
        g_in_hook = false;
    } else if (pc - g_pc0 < g_points.size() && g_points[pc - g_pc0] && g_thr[t_me]->task) {
        if (occurs(pc))
            point();
    }
}

void sched_par_range(size_t n, const std::function<void(size_t)> &f)
{
    if (!g_on) {
        for (size_t i = 0; i < n; i++)
            f(i);
        return;
    }
    Group g;
    g.id = ++g_ngroups;
    g.task = g_thr[t_me]->task;
    g.n = n;
    g.f = &f;
    if (g_o.order)
        for (size_t i = 0; i < n; i++)
            g.remaining.push_back(i);
    if (g_discover && g_thr[t_me]->task == 0) {
        g_in_hook = true;
        g_gran->clear();
        g_in_hook = false;
    }
    g_groups.push_back(&g);
    Thr &me = *g_thr[t_me];
    reschedule(false);
    for (;;) {
        size_t i;
        if (take(&g, i)) {
            run_task(&g, i);
            me.st = St::run;
            if (g_o.rotate) {
                me.st = St::join;
                me.grp = &g;
                reschedule(true);
                me.st = St::run;
            } else
                reschedule(false);
            continue;
        }
        if (g.finished == g.n)
            break;
        me.st = St::join;
        me.grp = &g;
        reschedule(false);
        me.st = St::run;
    }
    me.st = St::run;
    if (g.err)
        std::rethrow_exception(g.err);
}

void set_clock_step(int64_t ns)
{
    g_clock_step = ns;
}

namespace
{
struct Exec
{
    bool crashed = false, timeout = false, diverged = false;
    int status = 0;
    std::vector<TracePoint> pts;
    uint64_t outcome = 0;
    std::string fail;
    std::vector<uintptr_t> pcs;
    bool overflow = false;
    uint64_t switches = 0;
};

Exec run_exec(const SchedOptions &o, const std::vector<uint16_t> &prefix, bool disc, const std::set<uintptr_t> &pts,
    const std::function<std::pair<uint64_t, std::string>()> &body)
{
    if (!T) {
        T = static_cast<Trace *>(mmap(nullptr, sizeof(Trace), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    }
    T->npts = 0;
    T->done = 0;
    T->overflow = 0;
    T->npc = 0;
    T->switches = 0;
    memset(T->fail, 0, sizeof(T->fail));
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        mallopt(M_ARENA_MAX, 1);
        g_o = o;
        g_prefix = &prefix;
        g_pos = 0;
        g_discover = disc;
        g_info = {{0, 0, 0}};
        if (!pts.empty()) {
            g_pc0 = *pts.begin();
            g_points.assign(*pts.rbegin() - g_pc0 + 1, false);
            for (auto p : pts)
                g_points[p - g_pc0] = true;
        }
        std::unordered_map<uintptr_t, Gran> gran;
        std::set<uintptr_t> conf;
        g_gran = &gran;
        g_conf = &conf;
        for (int i = 0; i < o.workers; i++) {
            g_thr.push_back(std::make_unique<Thr>());
            sem_init(&g_thr[i]->sem, 0, 0);
        }
        t_me = 0;
        {
            pthread_attr_t at;
            pthread_getattr_np(pthread_self(), &at);
            void *lo;
            size_t sz;
            pthread_attr_getstack(&at, &lo, &sz);
            g_thr[0]->stack_lo = uintptr_t(lo);
            g_thr[0]->stack_hi = g_thr[0]->stack_lo + sz;
        }
        for (int i = 1; i < o.workers; i++) {
            g_thr[i]->st = St::idle;
            pthread_attr_t at;
            pthread_attr_init(&at);
            pthread_attr_setstacksize(&at, 64u << 20);
            pthread_create(&g_thr[i]->th, &at, worker_main, reinterpret_cast<void *>(intptr_t(i)));
        }
        // let the workers record their stacks
        for (int i = 1; i < o.workers; i++)
            while (!*(volatile uintptr_t *)&g_thr[i]->stack_hi)
                usleep(10);
        g_on = true;
        g_mem_active = o.memory || disc;
        std::pair<uint64_t, std::string> r;
        try {
            r = body();
        } catch (const std::exception &e) {
            r = {0, std::string("unexpected exception: ") + e.what()};
        }
        g_on = false;
        g_mem_active = false;
        if (r.second.empty() && !g_owner.empty())
            r.second = "a lock is still held when the run is over";
        if (disc)
            for (auto p : conf)
                if (T->npc < MAXPC)
                    T->pcs[T->npc++] = p;
        finish_exec(r.first, r.second);
    }
    Exec e;
    auto t0 = std::chrono::steady_clock::now();
    for (;;) {
        pid_t p = waitpid(pid, &e.status, WNOHANG);
        if (p == pid)
            break;
        double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        if (el > o.exec_timeout) {
            kill(pid, SIGKILL);
            waitpid(pid, &e.status, 0);
            e.timeout = true;
            break;
        }
        if (el > 0.002)
            usleep(200);
        else
            sched_yield();
    }
    e.overflow = T->overflow;
    e.switches = T->switches;
    e.pts.assign(T->pts, T->pts + std::min<size_t>(T->npts, MAXPTS));
    if (!T->done && !e.timeout) {
        e.crashed = true;
        e.diverged = WIFEXITED(e.status) && WEXITSTATUS(e.status) == 55;
    }
    e.outcome = T->outcome;
    e.fail = T->fail;
    e.pcs.assign(T->pcs, T->pcs + T->npc);
    return e;
}
std::string show(const std::vector<uint16_t> &p)
{
    std::string s;
    for (size_t i = 0; i < p.size(); i++)
        if (p[i])
            s += " @" + std::to_string(i) + "=" + std::to_string(p[i]);
    return s.empty() ? " (default)" : s;
}
} // namespace

SchedResult explore_schedules(Ctx &ctx, const SchedOptions &o, const std::string &key, bool same_outcome,
    const std::function<std::pair<uint64_t, std::string>()> &body)
{
    SchedResult R;
    std::set<uintptr_t> pts;
    if (o.memory) {
        // discovery: runs that hand over after each task to the next of two, three
        // and five workers; a conflict is between tasks on different workers
        for (int k = 0; k < 3; k++) {
            SchedOptions d = o;
            d.rotate = true;
            d.workers = k == 0 ? 2 : k == 1 ? 3 : 5;
            std::vector<uint16_t> prefix;
            Exec e = run_exec(d, prefix, true, {}, body);
            if (getenv("SCHED_DEBUG"))
                fprintf(stderr, "discovery %d: %zu sites, status %x%s %s\n", k, e.pcs.size(), e.status, e.crashed ? " crashed" : "", e.fail.c_str());
            if (getenv("SCHED_DEBUG"))
                for (auto p : e.pcs)
                    fprintf(stderr, "site %zx\n", size_t(p - uintptr_t(&mem_free)));
            R.execs++;
            if (e.crashed || e.timeout || !e.fail.empty()) { // the exploration would be of fewer points
                ctx.fail(key, e.fail.empty() ? "a run of the discovery phase crashed or hung" : e.fail);
                return R;
            }
            pts.insert(e.pcs.begin(), e.pcs.end());
        }
    }
    R.conflict_sites = pts.size();
    std::set<uint64_t> outs;
    bool have_first = false;
    // a schedule: the default choice (0) everywhere except at these points; sparse,
    // because there can be half a million points
    struct Item
    {
        std::vector<std::pair<uint32_t, uint16_t>> devs;
        int dev;
    };
    std::vector<Item> stack{{{}, 0}};
    int fails = 0;
    while (!stack.empty()) {
        Item it = std::move(stack.back());
        stack.pop_back();
        if (R.execs >= o.max_execs || !ctx.time_left()) {
            R.capped = true;
            ctx.capped();
            break;
        }
        std::vector<uint16_t> prefix(it.devs.empty() ? 0 : it.devs.back().first + 1);
        for (auto &d : it.devs)
            prefix[d.first] = d.second;
        Exec e = run_exec(o, prefix, false, pts, body);
        R.execs++;
        R.points += e.pts.size();
        R.switches += e.switches;
        if (getenv("SCHED_DEBUG") && R.execs < 6)
            fprintf(stderr, "%zu points\n", e.pts.size());
        R.max_points = std::max<uint64_t>(R.max_points, e.pts.size());
        auto report = [&](const std::string &k, const std::string &m) {
            // the same schedule must fail again before it is believed
            fails++;
            Exec f = run_exec(o, prefix, false, pts, body);
            if (getenv("SCHED_DEBUG"))
                fprintf(stderr, "%s%s %s: %s, of %zu points\n", k.c_str(), key.c_str(), m.c_str(), show(prefix).c_str(), e.pts.size());
            bool same = f.crashed == e.crashed && f.timeout == e.timeout && f.fail == e.fail && f.outcome == e.outcome;
            ctx.fail(k + key, m + "\nschedule (deviations @point=choice):" + show(prefix) + (same ? "" : "\n(NOT reproduced when replayed)"));
        };
        if (e.diverged)
            ctx.fail("diverged:" + key, "a replayed prefix diverged: uncontrolled nondeterminism");
        else if (e.timeout)
            report("hang:", "the run does not terminate");
        else if (e.crashed)
            report("crash:", "the run crashed, wait status " + std::to_string(e.status));
        else if (!e.fail.empty())
            report("", e.fail);
        else {
            if (!have_first) {
                have_first = true;
                R.first_outcome = e.outcome;
            } else if (same_outcome && e.outcome != R.first_outcome && !outs.count(e.outcome))
                report("outcome:", "the result differs from that of the default schedule");
            outs.insert(e.outcome);
            ctx.outcome(e.outcome);
        }
        if (e.overflow)
            R.capped = true;
        if (fails >= 3) { // enough: the rest would only take time
            R.capped = true;
            ctx.capped();
            break;
        }
        if (e.crashed || e.timeout)
            continue;
        // deviations after the prefix
        if (it.dev < o.bound) {
            for (size_t i = e.pts.size(); i-- > prefix.size();) {
                if (prefix.empty() && o.shards > 1 && int(i % o.shards) != o.shard)
                    continue;
                auto &p = e.pts[i];
                for (unsigned alt = p.n; alt-- > 1;) {
                    if (it.dev + p.cost > o.bound)
                        continue;
                    Item ni = it;
                    ni.dev += p.cost;
                    ni.devs.emplace_back(uint32_t(i), uint16_t(alt));
                    stack.push_back(std::move(ni));
                }
            }
        }
    }
    R.outcomes.assign(outs.begin(), outs.end());
    ctx.count("schedules", R.execs);
    ctx.count("transitions", R.points);
    ctx.count("switches", R.switches);
    return R;
}
} // namespace mc

// ---------------------------------------------------------------- interposition
extern "C" {
static int (*real_lock)(pthread_mutex_t *);
static int (*real_unlock)(pthread_mutex_t *);
static int (*real_trylock)(pthread_mutex_t *);
static int (*real_clock)(clockid_t, struct timespec *);
static void resolve()
{
    if (!real_unlock) {
        real_lock = reinterpret_cast<int (*)(pthread_mutex_t *)>(dlsym(RTLD_NEXT, "pthread_mutex_lock"));
        real_trylock = reinterpret_cast<int (*)(pthread_mutex_t *)>(dlsym(RTLD_NEXT, "pthread_mutex_trylock"));
        real_unlock = reinterpret_cast<int (*)(pthread_mutex_t *)>(dlsym(RTLD_NEXT, "pthread_mutex_unlock"));
    }
}
int pthread_mutex_lock(pthread_mutex_t *m)
{
    using namespace mc;
    if (g_on && t_me >= 0 && g_cur == t_me) {
        if (g_thr.size() > 1 && occurs(uintptr_t(__builtin_return_address(0))))
            point();
        auto it = g_owner.find(m);
        if (it != g_owner.end() && it->second == t_me)
            finish_exec(0, "a worker locks a mutex it already holds");
        while (g_owner.count(m)) {
            g_thr[t_me]->st = St::lock;
            g_thr[t_me]->mtx = m;
            reschedule(false);
        }
        g_thr[t_me]->st = St::run;
        g_owner[m] = t_me;
        return 0;
    }
    resolve();
    return real_lock(m);
}
int pthread_mutex_trylock(pthread_mutex_t *m)
{
    using namespace mc;
    if (g_on && t_me >= 0 && g_cur == t_me) {
        if (occurs(uintptr_t(__builtin_return_address(0))))
            point();
        if (g_owner.count(m))
            return EBUSY;
        g_owner[m] = t_me;
        return 0;
    }
    resolve();
    return real_trylock(m);
}
int pthread_mutex_unlock(pthread_mutex_t *m)
{
    using namespace mc;
    if (g_on && t_me >= 0 && g_cur == t_me) {
        auto it = g_owner.find(m);
        if (it == g_owner.end())
            finish_exec(0, "a worker unlocks a mutex nobody holds");
        if (it->second != t_me)
            finish_exec(0, "a worker unlocks a mutex held by another");
        g_owner.erase(it);
        if (g_thr.size() > 1 && occurs(uintptr_t(__builtin_return_address(0))))
            point();
        return 0;
    }
    resolve();
    return real_unlock(m);
}
int clock_gettime(clockid_t c, struct timespec *ts)
{
    using namespace mc;
    if (!g_clock_step)
        return syscall(SYS_clock_gettime, c, ts);
    g_clock += g_clock_step;
    ts->tv_sec = 1000000 + g_clock / 1000000000;
    ts->tv_nsec = g_clock % 1000000000;
    return 0;
}
}
