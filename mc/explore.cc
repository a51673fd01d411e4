#include <mc/explore.hh>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fnmatch.h>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <nlohmann/json.hpp>

namespace fs_ = std::filesystem;
using njson = nlohmann::ordered_json;

namespace mc
{
uint64_t hbytes(const void *p, size_t n, uint64_t h)
{
    auto *b = static_cast<const unsigned char *>(p);
    h = mix(h + n);
    while (n >= 8) {
        uint64_t v;
        memcpy(&v, b, 8);
        h = hcomb(h, v);
        b += 8;
        n -= 8;
    }
    uint64_t v = 0;
    if (n)
        memcpy(&v, b, n);
    return hcomb(h, v);
}

namespace
{
constexpr size_t SETSZ = 1u << 23;
struct HSet
{
    std::atomic<uint64_t> n;
    std::atomic<uint64_t> t[SETSZ];
    void add(uint64_t h)
    {
        if (!h)
            h = 1;
        if (n.load(std::memory_order_relaxed) > SETSZ * 7 / 8)
            return;
        for (size_t i = h % SETSZ;; i = (i + 1) % SETSZ) {
            uint64_t v = t[i].load(std::memory_order_relaxed);
            if (v == h)
                return;
            if (v == 0) {
                if (t[i].compare_exchange_strong(v, h)) {
                    n++;
                    return;
                }
                if (v == h)
                    return;
            }
        }
    }
};
struct Counter
{
    char name[56];
    std::atomic<uint64_t> n;
};
constexpr int MAXW = 32;
struct Slot
{
    std::atomic<uint64_t> cur; // global index being run
    std::atomic<uint64_t> started; // ms
    std::atomic<uint64_t> beats;
};
struct Shared
{
    HSet nontriv, outcomes, states;
    std::atomic<int> clock;
    Counter ctr[96];
    std::atomic<int> lock;
    std::atomic<uint64_t> evals, nviol, nsamples, ncapped;
    std::atomic<uint64_t> deadline_ms;
    Slot slot[MAXW];
};
Shared *S;
int g_w = 0;
std::string g_violfile, g_samplefile;
const std::vector<Space> *g_spaces;
std::vector<uint64_t> g_base;
uint64_t now_ms()
{
    return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
void lock()
{
    int z = 0;
    while (!S->lock.compare_exchange_weak(z, 1)) {
        z = 0;
        usleep(50);
    }
}
void unlock()
{
    S->lock = 0;
}
void append(const std::string &file, const std::string &line)
{
    int fd = open(file.c_str(), O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
    std::string l = line + "\n";
    if (fd >= 0) {
        (void)!write(fd, l.data(), l.size());
        close(fd);
    }
}
std::pair<size_t, uint64_t> locate(uint64_t g)
{
    size_t s = 0;
    while (s + 1 < g_base.size() && g >= g_base[s + 1])
        s++;
    return {s, g - g_base[s]};
}
uint64_t g_cur;
} // namespace

void Ctx::fail(const std::string &key, const std::string &detail)
{
    failed = true;
    S->nviol++;
    auto [s, i] = locate(g_cur);
    njson j;
    j["space"] = (*g_spaces)[s].name;
    j["index"] = i;
    j["global"] = g_cur;
    j["key"] = key;
    j["detail"] = detail.substr(0, 6000);
    static int written = 0;
    if (written++ < 400)
        append(g_violfile, j.dump(-1, ' ', true, njson::error_handler_t::replace));
}
void Ctx::count(const char *name, uint64_t n)
{
    for (auto &c : S->ctr) {
        if (!c.name[0]) {
            lock();
            if (!c.name[0])
                strncpy(c.name, name, sizeof(c.name) - 1);
            unlock();
        }
        if (!strncmp(c.name, name, sizeof(c.name) - 1)) {
            c.n += n;
            return;
        }
    }
}
void Ctx::nontrivial(uint64_t h)
{
    S->nontriv.add(h);
}
void Ctx::outcome(uint64_t h)
{
    S->outcomes.add(h);
}
void Ctx::state(uint64_t h)
{
    S->states.add(h);
}
void Ctx::sample(const std::string &t)
{
    if (S->nsamples.load() < 12 && S->nsamples++ < 12) {
        auto [s, i] = locate(g_cur);
        njson j;
        j["space"] = (*g_spaces)[s].name;
        j["index"] = i;
        j["case"] = t.substr(0, 1500);
        append(g_samplefile, j.dump(-1, ' ', true, njson::error_handler_t::replace));
    }
}
void Ctx::beat()
{
    S->slot[g_w].beats++;
}
bool Ctx::time_left()
{
    beat();
    return replaying || now_ms() < S->deadline_ms.load();
}
void Ctx::capped()
{
    S->ncapped++;
}

namespace
{
void run_one(uint64_t g, Ctx &ctx)
{
    g_cur = g;
    auto [s, i] = locate(g);
    S->slot[g_w].cur = g;
    S->slot[g_w].beats++;
    try {
        ctx.failed = false;
        (*g_spaces)[s].run(i, ctx);
    } catch (const std::exception &e) {
        ctx.fail(std::string("exception:") + (*g_spaces)[s].name, std::string("unexpected exception: ") + e.what());
    }
    S->evals++;
}

void child_setup(const std::string &scratch, const std::string &log)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    setpgid(0, 0);
    int fd = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(fd, 1);
    dup2(fd, 2);
    close(fd);
    fs_::create_directories(scratch);
    if (chdir(scratch.c_str()))
        _exit(99);
    rlimit rl{0, 0};
    setrlimit(RLIMIT_CORE, &rl);
}
std::string tail(const std::string &file, size_t n = 3000)
{
    std::ifstream f(file, std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    std::string s = ss.str();
    // an interesting sanitizer line if there is one
    size_t p = s.find("ERROR: AddressSanitizer");
    if (p == std::string::npos)
        p = s.find("runtime error:");
    if (p != std::string::npos) {
        p = s.rfind('\n', p);
        p = p == std::string::npos ? 0 : p + 1;
        return s.substr(p, n);
    }
    return s.size() > n ? s.substr(s.size() - n) : s;
}
} // namespace

int main_(int argc, char **argv, const std::vector<Check> &checks)
{
    std::string prop, evdir = "/verif/evidence", known = "/verif/known_findings.txt", only;
    Tier tier = Tier::quick;
    if (const char *t = getenv("VERIF_TIER"); t && !strcmp(t, "thorough"))
        tier = Tier::thorough;
    int workers = 8;
    long replay_from = -1, replay_to = -1;
    std::string replay_space;
    double budget = -1;
    bool list = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--property")
            prop = nx();
        else if (a == "--tier")
            tier = nx() == "thorough" ? Tier::thorough : Tier::quick;
        else if (a == "--evidence-dir")
            evdir = nx();
        else if (a == "--known")
            known = nx();
        else if (a == "-j")
            workers = atoi(nx().c_str());
        else if (a == "--budget")
            budget = atof(nx().c_str());
        else if (a == "--space")
            only = nx();
        else if (a == "--list")
            list = true;
        else if (a == "--replay") { // space:from[:to]
            std::string r = nx();
            size_t c = r.find(':');
            replay_space = r.substr(0, c);
            replay_from = atol(r.c_str() + c + 1);
            size_t d = r.find(':', c + 1);
            replay_to = d == std::string::npos ? replay_from : atol(r.c_str() + d + 1);
        } else {
            fprintf(stderr, "unknown argument %s\n", a.c_str());
            return 2;
        }
    }
    if (workers < 1)
        workers = 1;
    if (workers > MAXW)
        workers = MAXW;
    const Check *ck = nullptr;
    for (auto &c : checks)
        if (c.property == prop)
            ck = &c;
    if (!ck) {
        fprintf(stderr, "no check for property '%s'\n", prop.c_str());
        return 2;
    }
    auto t0 = now_ms();
    S = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (S == MAP_FAILED) {
        perror("mmap");
        return 2;
    }
    if (budget < 0)
        budget = tier == Tier::quick ? ck->quick_budget : ck->thorough_budget;
    S->deadline_ms = t0 + uint64_t(budget * 1000);
    std::string tmp = "/tmp/mc." + std::to_string(getpid());
    fs_::create_directories(tmp);
    g_violfile = tmp + "/violations";
    g_samplefile = tmp + "/samples";
    std::vector<Space> spaces = ck->spaces(tier);
    if (!only.empty())
        std::erase_if(spaces, [&](auto &s) { return fnmatch(only.c_str(), s.name.c_str(), 0) != 0; });
    g_spaces = &spaces;
    uint64_t total = 0;
    for (auto &s : spaces) {
        g_base.push_back(total);
        total += s.size;
    }
    if (list) {
        for (auto &s : spaces)
            printf("%s %llu\n", s.name.c_str(), (unsigned long long)s.size);
        return 0;
    }
    auto cleanup = [&] { std::error_code ec; fs_::remove_all(tmp, ec); };

    // run [from,to] in a child; returns the wait status, -1 on timeout
    auto run_range = [&](uint64_t a, uint64_t b, double tmo, const std::string &log, const std::string &violfile, bool show) {
        std::string keep = g_violfile;
        g_violfile = violfile;
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0) {
            Ctx ctx;
            ctx.scratch = tmp + "/replay";
            ctx.replaying = true;
            if (!show)
                child_setup(ctx.scratch, log);
            else {
                fs_::create_directories(ctx.scratch);
                if (chdir(ctx.scratch.c_str()))
                    _exit(99);
            }
            g_w = MAXW - 1;
            for (uint64_t g = a; g <= b; g++)
                run_one(g, ctx);
            fflush(nullptr);
            _exit(0);
        }
        g_violfile = keep;
        uint64_t st = now_ms();
        int status;
        for (;;) {
            pid_t r = waitpid(pid, &status, WNOHANG);
            if (r == pid)
                return status;
            if (now_ms() - st > tmo * 1000) {
                kill(-pid, SIGKILL);
                kill(pid, SIGKILL);
                waitpid(pid, &status, 0);
                return -1;
            }
            usleep(2000);
        }
    };

    if (replay_from >= 0) {
        for (size_t s = 0; s < spaces.size(); s++)
            if (spaces[s].name == replay_space) {
                int st = run_range(g_base[s] + replay_from, g_base[s] + replay_to, 600, "", tmp + "/rv", true);
                std::ifstream f(tmp + "/rv");
                std::string l;
                bool any = false;
                while (std::getline(f, l)) {
                    auto j = njson::parse(l);
                    printf("FAIL key=%s\n%s\n", j["key"].get<std::string>().c_str(), j["detail"].get<std::string>().c_str());
                    any = true;
                }
                if (st == -1)
                    printf("TIMEOUT\n");
                else if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st)))
                    printf("CRASH status=%d\n", st);
                else if (!any)
                    printf("ok\n");
                cleanup();
                return any || st ? 1 : 0;
            }
        fprintf(stderr, "no space %s\n", replay_space.c_str());
        cleanup();
        return 2;
    }

    struct Run
    {
        pid_t pid = 0;
        uint64_t a, b;
        uint64_t last_beat, last_change;
    };
    std::vector<Run> runs(workers);
    struct Crash
    {
        uint64_t a, g;
        bool hang;
        int status;
        std::string log;
    };
    std::vector<Crash> crashes;
    std::vector<std::pair<uint64_t, uint64_t>> todo; // re-queued remains
    uint64_t next = 0;
    bool capped = false;
    uint64_t skipped = 0;
    int live = 0;
    for (;;) {
        for (int w = 0; w < workers; w++) {
            if (runs[w].pid)
                continue;
            uint64_t a, b;
            if (now_ms() > S->deadline_ms.load() || crashes.size() > 40) {
                if (!capped && (next < total || !todo.empty()))
                    capped = true;
                if (capped)
                    break;
            }
            if (!todo.empty()) {
                std::tie(a, b) = todo.back();
                todo.pop_back();
            } else if (next < total) {
                auto [s, i] = locate(next);
                a = next;
                b = std::min(total, next + std::max<uint64_t>(1, spaces[s].chunk));
                if (s + 1 < g_base.size())
                    b = std::min(b, g_base[s + 1]);
                next = b;
            } else
                break;
            runs[w].a = a;
            runs[w].b = b;
            S->slot[w].cur = a;
            runs[w].last_beat = S->slot[w].beats;
            runs[w].last_change = now_ms();
            fflush(nullptr);
            pid_t pid = fork();
            if (pid == 0) {
                g_w = w;
                Ctx ctx;
                ctx.scratch = tmp + "/w" + std::to_string(w);
                child_setup(ctx.scratch, tmp + "/log" + std::to_string(w));
                for (uint64_t g = a; g < b; g++) {
                    if (g > a && now_ms() > S->deadline_ms.load()) {
                        S->slot[w].cur = g;
                        _exit(77);
                    }
                    run_one(g, ctx);
                }
                fflush(nullptr);
                _exit(0);
            }
            runs[w].pid = pid;
            live++;
        }
        if (!live)
            break;
        bool any = false;
        for (int w = 0; w < workers; w++) {
            auto &r = runs[w];
            if (!r.pid)
                continue;
            int status;
            pid_t p = waitpid(r.pid, &status, WNOHANG);
            bool hang = false;
            if (p == 0) {
                uint64_t bt = S->slot[w].beats;
                if (bt != r.last_beat) {
                    r.last_beat = bt;
                    r.last_change = now_ms();
                } else {
                    auto [s, i] = locate(S->slot[w].cur);
                    if (now_ms() - r.last_change > spaces[s].case_timeout * 1000) {
                        kill(-r.pid, SIGKILL);
                        kill(r.pid, SIGKILL);
                        waitpid(r.pid, &status, 0);
                        hang = true;
                    } else
                        continue;
                }
                if (!hang)
                    continue;
            }
            any = true;
            live--;
            uint64_t g = S->slot[w].cur;
            r.pid = 0;
            if (!hang && WIFEXITED(status) && WEXITSTATUS(status) == 77) {
                capped = true;
                skipped += r.b - g;
            } else if (hang || status != 0) {
                crashes.push_back({r.a, g, hang, status, tail(tmp + "/log" + std::to_string(w))});
                if (g + 1 < r.b)
                    todo.push_back({g + 1, r.b});
            }
        }
        if (!any)
            usleep(1000);
    }
    if (capped)
        skipped += total - next;
    for (auto &t : todo)
        if (capped)
            skipped += t.second - t.first;

    // gather violations
    struct V
    {
        std::string space, key, detail;
        uint64_t index, a, g;
        bool crash = false, hang = false;
    };
    std::map<std::string, V> byKey; // first (smallest index) of each key
    {
        std::ifstream f(g_violfile);
        std::string l;
        while (std::getline(f, l)) {
            njson j = njson::parse(l, nullptr, false);
            if (j.is_discarded())
                continue;
            V v{j["space"], j["key"], j["detail"], j["index"], 0, j["global"]};
            auto [s, i] = locate(v.g);
            uint64_t c = std::max<uint64_t>(1, spaces[s].chunk);
            v.a = g_base[s] + i / c * c;
            auto it = byKey.find(v.key);
            if (it == byKey.end() || it->second.g > v.g)
                byKey[v.key] = v;
        }
    }
    for (auto &c : crashes) {
        auto [s, i] = locate(c.g);
        V v{spaces[s].name, (c.hang ? "hang:" : "crash:") + spaces[s].name + ":" + std::to_string(i), c.log, i, c.a, c.g};
        v.crash = !c.hang;
        v.hang = c.hang;
        byKey[v.key] = v;
    }
    // known findings
    std::vector<std::pair<std::string, std::string>> kn; // key pattern, text
    {
        std::ifstream f(known);
        std::string l;
        std::string pre = "known: property=" + ck->property + " key=";
        while (std::getline(f, l))
            if (l.rfind(pre, 0) == 0) {
                std::string rest = l.substr(pre.size());
                size_t sp = rest.find(" what=");
                kn.push_back({rest.substr(0, sp), sp == std::string::npos ? "" : rest.substr(sp + 6)});
            }
    }
    std::vector<V> news;
    std::set<std::string> knownHit;
    for (auto &[k, v] : byKey) {
        bool isK = false;
        for (auto &[pat, text] : kn)
            if (fnmatch(pat.c_str(), k.c_str(), 0) == 0) {
                isK = true;
                if (knownHit.insert(pat).second)
                    printf("KNOWN-FINDING: property=%s %s [%s]\n", ck->property.c_str(), text.c_str(), pat.c_str());
            }
        if (!isK)
            news.push_back(v);
    }
    // replay before report
    std::sort(news.begin(), news.end(), [](auto &a, auto &b) { return a.g < b.g; });
    int reported = 0, unrep = 0, tried = 0;
    std::string rdir = evdir + "/replay";
    std::error_code ec;
    fs_::create_directories(rdir, ec);
    for (auto &v : news) {
        if (tried >= 6 && reported)
            break;
        if (tried >= 40)
            break;
        tried++;
        auto [s, i] = locate(v.g);
        bool rep = false;
        uint64_t from = v.g;
        std::string detail = v.detail;
        for (int attempt = 0; attempt < 3 && !rep; attempt++) {
            from = attempt == 1 ? v.a : v.g;
            std::string rv = tmp + "/rv" + std::to_string(attempt), lg = tmp + "/rlog";
            fs_::remove(rv, ec);
            int st = run_range(from, v.g, spaces[s].case_timeout * (v.hang ? 3 : 2) + 5, lg, rv, false);
            std::ifstream f(rv);
            std::string l;
            while (std::getline(f, l)) {
                njson j = njson::parse(l, nullptr, false);
                if (!j.is_discarded() && j["global"] == v.g && !v.crash && !v.hang) {
                    rep = true;
                    if (j["key"] == v.key)
                        detail = j["detail"];
                }
            }
            if (v.crash && st > 0)
                rep = true;
            if (v.hang && st == -1)
                rep = true;
        }
        if (!rep) {
            unrep++;
            printf("UNREPRODUCED %s %s:%llu key=%s\n%s\n", ck->property.c_str(), v.space.c_str(), (unsigned long long)v.index, v.key.c_str(), v.detail.c_str());
            continue;
        }
        std::string path = rdir + "/" + ck->property + "." + std::to_string(reported) + ".txt";
        std::ofstream o(path);
        o << "property: " << ck->property << "\nkey: " << v.key << "\nreplay: " << argv[0] << " --property " << ck->property << " --tier "
          << (tier == Tier::quick ? "quick" : "thorough") << " --replay " << v.space << ":" << (from - g_base[s]) << ":" << v.index << "\n"
          << (v.crash ? "crash of the code under test\n" : v.hang ? "the code under test does not terminate\n" : "") << "\n"
          << detail << "\n";
        printf("VIOLATION property=%s replay=%s\n", ck->property.c_str(), path.c_str());
        printf("  key=%s\n  %s\n", v.key.c_str(), detail.substr(0, 700).c_str());
        reported++;
    }
    // evidence
    njson ev;
    ev["property"] = ck->property;
    ev["tier"] = tier == Tier::quick ? "quick" : "thorough";
    ev["seed"] = getenv("VERIF_SEED") ? atoi(getenv("VERIF_SEED")) : 1;
    ev["level"] = ck->level;
    njson cov;
    cov["evaluations"] = S->evals.load();
    cov["distinct_nontrivial"] = S->nontriv.n.load();
    if (S->outcomes.n.load())
        cov["distinct_outcomes"] = S->outcomes.n.load();
    cov["rule"] = ck->rule;
    uint64_t trans = 0, traces = 0;
    njson counters;
    for (auto &c : S->ctr)
        if (c.name[0]) {
            std::string n = c.name;
            if (n == "transitions")
                trans = c.n;
            else if (n == "traces_validated_against_impl")
                traces = c.n;
            else
                counters[n] = c.n.load();
        }
    if (ck->level == "model_checking") {
        cov["states"] = S->states.n.load();
        cov["transitions"] = trans;
        cov["traces_validated_against_impl"] = traces;
    }
    if (!counters.is_null())
        cov["counters"] = counters;
    njson sp = njson::array();
    for (auto &s : spaces)
        sp.push_back({{"name", s.name}, {"size", s.size}});
    cov["spaces"] = sp;
    cov["exhaustive"] = !capped && S->ncapped == 0 && only.empty();
    if (capped || S->ncapped)
        cov["capped"] = {{"cases_not_run", skipped}, {"cases_cut_short", S->ncapped.load()}, {"budget_s", budget}};
    njson samples = njson::array();
    {
        std::ifstream f(g_samplefile);
        std::string l;
        while (std::getline(f, l)) {
            auto j = njson::parse(l, nullptr, false);
            if (!j.is_discarded())
                samples.push_back(j);
        }
    }
    cov["samples"] = samples;
    if (unrep)
        cov["unreproduced"] = unrep;
    cov["known_findings_hit"] = knownHit.size();
    ev["coverage"] = cov;
    ev["assumptions"] = ck->assumptions;
    ev["wall_s"] = (now_ms() - t0) / 1000.0;
    ev["violations"] = reported;
    std::ofstream(evdir + "/" + ck->property + ".json") << ev.dump(1) << "\n";
    printf("%s %s: %llu cases, %llu distinct non-trivial, %llu outcomes, %s, %.1fs\n", ck->property.c_str(), tier == Tier::quick ? "quick" : "thorough",
        (unsigned long long)S->evals.load(), (unsigned long long)S->nontriv.n.load(), (unsigned long long)S->outcomes.n.load(),
        cov["exhaustive"] ? "exhaustive" : "CAPPED", (now_ms() - t0) / 1000.0);
    for (auto &[k, v] : counters.items())
        printf("  %s=%s\n", k.c_str(), v.dump().c_str());
    cleanup();
    if (reported)
        return 1;
    return unrep ? 3 : 0;
}
} // namespace mc
