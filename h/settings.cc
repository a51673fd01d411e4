// T04: settings
#include <mc/explore.hh>
#include <common/settings.hh>
#include <common/log.hh>
#include <qbsp/qbsp.hh>
#include <vis/vis.hh>
#include <light/light.hh>
#include <light/entities.hh>
#include <cstring>
#include <memory>
using namespace mc;
using settings::source;

enum class Color
{
    red,
    green,
    blue
};
struct Box : settings::setting_container
{
    settings::setting_bool b{this, {"b", "bee"}, false};
    settings::setting_invertible_bool i{this, "i", true};
    settings::setting_int32 n{this, "n", 3, 0, 100};
    settings::setting_int32 o{this, "o", 0, 0, 100, settings::can_omit_argument_tag(), 1};
    settings::setting_scalar f{this, "f", 0.25f, -1.0f, 8.0f};
    settings::setting_enum<Color> e{this, "e", Color::red, {{"red", Color::red}, {"green", Color::green}, {"blue", Color::blue}}};
    settings::setting_string s{this, "s", "def"};
    settings::setting_path p{this, "p", "dp"};
    settings::setting_vec3 v{this, "v", 1, 2, 3};
    settings::setting_color c{this, "c", 255, 255, 255};
    settings::setting_mangle m{this, "m", 0, 0, -1};
    settings::setting_set st{this, "st"};
    settings::setting_bool r1{this, "r1", false};
    settings::setting_bool r2{this, "r2", false};
    settings::setting_redirect r{this, "r", {&r1, &r2}};
};
static const char *const names[] = {"b", "i", "n", "o", "f", "e", "s", "p", "v", "c", "m", "st", "r1", "r2"};
static constexpr int N = 14;

static std::string vstr(const qvec3f &v)
{
    char b[80];
    snprintf(b, 80, "%.3f %.3f %.3f", v[0] + 0.0f, v[1] + 0.0f, v[2] + 0.0f);
    std::string s = b;
    for (size_t p; (p = s.find("-0.000")) != std::string::npos;)
        s.replace(p, 6, "0.000");
    return s;
}
static std::string fstr(double v)
{
    char b[40];
    snprintf(b, 40, "%g", v);
    return b;
}
static std::string value(const Box &x, int k)
{
    switch (k) {
        case 0: return x.b.value() ? "1" : "0";
        case 1: return x.i.value() ? "1" : "0";
        case 2: return std::to_string(x.n.value());
        case 3: return std::to_string(x.o.value());
        case 4: return fstr(x.f.value());
        case 5: return std::to_string((int)x.e.value());
        case 6: return x.s.value();
        case 7: return x.p.value().string();
        case 8: return vstr(x.v.value());
        case 9: return vstr(x.c.value());
        case 10: return vstr(x.m.value());
        case 11: {
            std::set<std::string> s(x.st.values().begin(), x.st.values().end());
            std::string r;
            for (auto &y : s)
                r += y + ",";
            return r;
        }
        case 12: return x.r1.value() ? "1" : "0";
        case 13: return x.r2.value() ? "1" : "0";
    }
    return "";
}
static source src_of(const Box &x, int k)
{
    return x.find_setting(names[k])->get_source();
}
struct Val
{
    std::string v;
    source s = source::DEFAULT;
    bool operator==(const Val &) const = default;
};
using Model = std::vector<Val>;
static Model defaults()
{
    static const char *d[] = {"0", "1", "3", "0", "0.25", "0", "def", "dp", "1.000 2.000 3.000", "255.000 255.000 255.000", "0.000 0.000 -1.000", "", "0", "0"};
    Model m;
    for (auto *x : d)
        m.push_back({x});
    return m;
}
static void put(Model &m, int k, const std::string &v, source s)
{
    if (s < m[k].s)
        return;
    m[k].s = s;
    if (k == 11) {
        std::set<std::string> all;
        std::string cur = m[k].v, w;
        for (char ch : cur)
            if (ch == ',')
                all.insert(w), w.clear();
            else
                w += ch;
        all.insert(v);
        m[k].v.clear();
        for (auto &y : all)
            m[k].v += y + ",";
    } else
        m[k].v = v;
}
static std::string show(const Model &m)
{
    std::string r;
    for (int k = 0; k < N; k++)
        r += std::string(names[k]) + "=" + m[k].v + "@" + std::to_string((int)m[k].s) + " ";
    return r;
}
static Model read(const Box &x)
{
    Model m;
    for (int k = 0; k < N; k++)
        m.push_back({value(x, k), src_of(x, k)});
    return m;
}
// the texts of two valid values per setting and what they mean
struct Text
{
    const char *text, *means;
};
static const Text texts[N][3] = {
    {{"1", "1"}, {"0", "0"}, {"-1", "0"}},
    {{"1", "1"}, {"0", "0"}, {"-1", "0"}},
    {{"7", "7"}, {"100", "100"}, {"101", "100"}},
    {{"7", "7"}, {"100", "100"}, {"101", "100"}},
    {{"0.5", "0.5"}, {"-1", "-1"}, {"9", "8"}},
    {{"green", "1"}, {"BLUE", "2"}, {"0", "0"}},
    {{"abc", "abc"}, {"x/y", "x/y"}, {"\"two words\"", "two words"}},
    {{"abc", "abc"}, {"x/y", "x/y"}, {"\"two words\"", "two words"}},
    {{"4 5 6", "4.000 5.000 6.000"}, {"-1 0 0.5", "-1.000 0.000 0.500"}, {"4\t5  6", "4.000 5.000 6.000"}},
    {{"10 20 30", "10.000 20.000 30.000"}, {"1 0.5 0", "255.000 127.500 0.000"}, {"0 0 1", "0.000 0.000 255.000"}},
    {{"0 0", "1.000 0.000 0.000"}, {"90 0 0", "0.000 1.000 0.000"}, {"0 90", "0.000 0.000 1.000"}},
    {{"abc", "abc"}, {"x/y", "x/y"}, {"\"two words\"", "two words"}},
    {{"1", "1"}, {"0", "0"}, {"-1", "0"}},
    {{"1", "1"}, {"0", "0"}, {"-1", "0"}},
};
static const char *const bad[N] = {nullptr, nullptr, "x", nullptr, "x", "purple", nullptr, nullptr, "1 2", "1 x 2", nullptr, nullptr, nullptr, nullptr};
static std::string srcname(source s)
{
    static const char *n[] = {"default", "game", "map", "command line"};
    return n[(int)s];
}
static std::string shown(settings::setting_base *x)
{
    if (dynamic_cast<settings::setting_redirect *>(x))
        return ""; // shows another setting's value
    std::string v;
    try {
        v = x->string_value();
    } catch (std::exception &) {
        v = "?"; // a value without a name
    }
    return v + "@" + std::to_string((int)x->get_source());
}
static std::vector<Space> t04(Tier t)
{
    bool T = t == Tier::thorough;
    std::vector<Space> r;
    {
        // histories of one setting (a and b are two containers): set from any source, reset, copy
        int D = T ? 5 : 4;
        // ops per container: 3 sources x values, invalid, reset, copy from the other
        const int V = T ? 3 : 2, S = 3 * V, P = S + 3, K = 2 * P;
        Space s;
        s.name = "histories";
        s.size = N * K * K;
        s.chunk = 16;
        s.run = [=](uint64_t i, Ctx &ctx) {
            Digits d(i);
            int k = d(N);
            int o0 = d(K), o1 = d(K);
            uint64_t rest = 1;
            for (int j = 2; j < D; j++)
                rest *= K;
            for (uint64_t j = 0; j < rest; j++) {
                if ((j & 255) == 0)
                    ctx.beat();
                Box a[2];
                Model m[2] = {defaults(), defaults()};
                uint64_t code = j;
                std::string h;
                for (int step = 0; step < D; step++) {
                    int op = step == 0 ? o0 : step == 1 ? o1 : code % K;
                    if (step > 1)
                        code /= K;
                    int w = op / P;
                    op %= P;
                    h += w ? "B." : "A.";
                    if (op < S) {
                        source src = (source)(op / V + 1);
                        const Text &x = texts[k][op % V];
                        h += std::string("set(") + names[k] + "=" + x.text + " from " + srcname(src) + ") ";
                        auto e = a[w].set_setting((op + step) % 2 ? std::string("_") + names[k] : names[k], x.text, src);
                        if (e != settings::setting_error::NONE)
                            ctx.fail("histories", "valid value refused: " + h);
                        put(m[w], k, x.means, src);
                    } else if (op == S) {
                        if (!bad[k])
                            continue;
                        h += std::string("set(") + names[k] + "=" + bad[k] + " from command line) ";
                        auto e = a[w].set_setting(names[k], bad[k], source::COMMANDLINE);
                        if (e != settings::setting_error::INVALID)
                            ctx.fail("histories", "invalid value accepted: " + h);
                    } else if (op == S + 1) {
                        h += "reset ";
                        a[w].reset();
                        m[w] = defaults();
                    } else {
                        h += "copy ";
                        a[w].copy_from(a[1 - w]);
                        m[w] = m[1 - w];
                    }
                    ctx.count("transitions");
                    ctx.state(hcomb(hstr(show(m[0])), hstr(show(m[1]))));
                    for (int q = 0; q < 2; q++)
                        if (Model got = read(a[q]); got != m[q]) {
                            ctx.fail("histories", "after " + h + (q ? "B" : "A") + " holds " + show(got) + "; expected " + show(m[q]));
                            return;
                        }
                }
                ctx.nontrivial(hstr(h));
            }
        };
        r.push_back(s);
    }
    {
        // every order of sources over two different settings: only the named one changes
        Space s;
        s.name = "two-settings";
        s.size = N * N;
        s.chunk = 8;
        s.run = [=](uint64_t i, Ctx &ctx) {
            int k[2] = {(int)(i % N), (int)(i / N)};
            for (int code = 0; code < 18 * 18 * 18; code++) {
                Box a;
                Model m = defaults();
                int c = code;
                std::string h;
                for (int step = 0; step < 3; step++, c /= 18) {
                    int w = c % 2;
                    source src = (source)(c / 2 % 3 + 1);
                    const Text &x = texts[k[w]][c / 6 % 3];
                    entdict_t d;
                    d.set(names[k[w]], x.text);
                    a.set_settings(d, src);
                    put(m, k[w], x.means, src);
                    h += std::string("set(") + names[k[w]] + "=" + x.text + " from " + srcname(src) + ") ";
                }
                ctx.nontrivial(hstr(h));
                if (Model got = read(a); got != m) {
                    ctx.fail("two-settings", "after " + h + "values are " + show(got) + "; expected " + show(m));
                    return;
                }
            }
        };
        r.push_back(s);
    }
    {
        // every command line
        static const std::vector<const char *> A = {"-b", "--bee", "-noi", "-i", "-n", "-o", "-f", "-e", "-s", "-v", "-m", "-st", "-r", "0", "1", "-1", "2.5", "green", "file", "2fort", "-", ""};
        int L = T ? 5 : 4;
        size_t n = A.size();
        Space s;
        s.name = "command-lines";
        s.size = n * n * (L + 1);
        s.chunk = 8;
        s.run = [=](uint64_t i, Ctx &ctx) {
            Digits d(i);
            int len = d(L + 1), a0 = d(n), a1 = d(n);
            if ((len < 1 && a0) || (len < 2 && a1))
                return;
            uint64_t rest = 1;
            for (int k = 2; k < len; k++)
                rest *= n;
            for (uint64_t j = 0; j < rest; j++) {
                if ((j & 255) == 0)
                    ctx.beat();
                std::vector<const char *> argv;
                uint64_t v = j;
                std::string line;
                for (int k = 0; k < len; k++) {
                    int x = k == 0 ? a0 : k == 1 ? a1 : v % n;
                    if (k > 1)
                        v /= n;
                    argv.push_back(A[x]);
                    line += std::string(A[x]) + "|";
                }
                // reference reading
                Model m = defaults();
                bool refused = false;
                size_t p = 0;
                auto num = [](const std::string &s, double &out) { // leading number, as strtod
                    const char *c = s.c_str();
                    char *e;
                    out = strtod(c, &e);
                    return e != c;
                };
                auto whole = [](const std::string &s) {
                    char *e;
                    strtod(s.c_str(), &e);
                    return !s.empty() && !*e;
                };
                while (p < argv.size() && argv[p][0] == '-') {
                    std::string o = argv[p++];
                    o.erase(0, o.find_first_not_of('-') == std::string::npos ? o.size() : o.find_first_not_of('-'));
                    std::string nx = p < argv.size() ? argv[p] : "";
                    bool has = p < argv.size();
                    double x;
                    auto boolean = [&](std::vector<int> ks, bool truth) {
                        bool val = truth;
                        if (has && (nx == "0" || nx == "-1" || nx == "1")) {
                            val = nx == "1" ? truth : !truth;
                            p++;
                        }
                        for (int k : ks)
                            put(m, k, val ? "1" : "0", source::COMMANDLINE);
                    };
                    if (o.empty() || o == "1")
                        refused = true; // a stray dash, an unknown option
                    else if (o == "b" || o == "bee")
                        boolean({0}, true);
                    else if (o == "i")
                        boolean({1}, true);
                    else if (o == "noi")
                        boolean({1}, false);
                    else if (o == "r")
                        boolean({12, 13}, true);
                    else if (o == "n" || o == "f") {
                        if (!has || !num(nx, x))
                            refused = true;
                        else {
                            p++;
                            if (o == "n")
                                put(m, 2, std::to_string((int)std::clamp((long)x, 0L, 100L)), source::COMMANDLINE);
                            else
                                put(m, 4, fstr(std::clamp(x, -1.0, 8.0)), source::COMMANDLINE);
                        }
                    } else if (o == "o") {
                        if (has && num(nx, x) && whole(nx)) {
                            p++;
                            put(m, 3, std::to_string((int)std::clamp((long)x, 0L, 100L)), source::COMMANDLINE);
                        } else
                            put(m, 3, "1", source::COMMANDLINE);
                    } else if (o == "e") {
                        if (!has)
                            refused = true;
                        else if (nx == "green")
                            p++, put(m, 5, "1", source::COMMANDLINE);
                        else if (num(nx, x))
                            p++, put(m, 5, std::to_string((int)x), source::COMMANDLINE);
                        else
                            refused = true;
                    } else if (o == "s") {
                        if (!has)
                            refused = true;
                        else
                            p++, put(m, 6, nx, source::COMMANDLINE);
                    } else if (o == "st") {
                        if (!has)
                            refused = true;
                        else
                            p++, put(m, 11, nx, source::COMMANDLINE);
                    } else if (o == "v" || o == "m") {
                        double q[3] = {0, 0, 0};
                        int got = 0;
                        while (got < 3 && p < argv.size() && num(argv[p], q[got]))
                            p++, got++;
                        for (int y = got; y < 3; y++)
                            q[y] = 0;
                        if (o == "v") {
                            if (got < 3)
                                refused = true;
                            else
                                put(m, 8, vstr(qvec3f(q[0], q[1], q[2])), source::COMMANDLINE);
                        } else {
                            double y = q[0] * M_PI / 180, z = q[1] * M_PI / 180;
                            put(m, 10, vstr(qvec3f(cos(y) * cos(z), sin(y) * cos(z), sin(z))), source::COMMANDLINE);
                        }
                    } else
                        refused = true;
                    if (refused)
                        break;
                }
                std::vector<std::string> rem;
                for (size_t k = p; k < argv.size(); k++)
                    rem.push_back(argv[k]);
                Box a;
                bool thrown = false;
                std::vector<std::string> got;
                try {
                    token_parser_t tp(argv.size(), argv.data(), {"cmd"});
                    got = a.parse(tp);
                } catch (std::exception &) {
                    thrown = true;
                }
                ctx.nontrivial(hstr(line));
                ctx.count(refused ? "refused lines" : "accepted lines");
                if (thrown != refused) {
                    ctx.fail("command-lines", "command line " + line + (thrown ? " is refused" : " is accepted") + ", expected the opposite");
                    return;
                }
                if (refused)
                    continue;
                ctx.outcome(hstr(show(m)));
                std::string sg, sr;
                for (auto &x : got)
                    sg += x + "|";
                for (auto &x : rem)
                    sr += x + "|";
                if (read(a) != m || got != rem) {
                    ctx.fail("command-lines", "command line " + line + " sets " + show(read(a)) + " rest " + sg + "; expected " + show(m) + " rest " + sr);
                    return;
                }
            }
        };
        r.push_back(s);
    }
    {
        // the tools' own options: every spelling sets exactly its own option and takes exactly its arguments
        struct Tool
        {
            const char *name;
            settings::setting_container *c;
        };
        static std::vector<Tool> tools;
        static light_t lt;
        if (tools.empty())
            tools = {{"qbsp", &qbsp_options}, {"vis", &vis_options}, {"light", &light_options}, {"light entity", &lt}};
        static const std::map<std::string, std::set<std::string>> multi = {{"quiet", {"nopercent", "nostat", "noprogress"}}, {"noambient", {"noambientsky", "noambientwater", "noambientslime", "noambientlava"}},
            {"splitspecial", {"splitsky", "litwater"}}, {"wrbrushesonly", {"wrbrushes", "noclip"}}, {"nosubdivide", {"subdivide"}}};
        static std::vector<std::vector<std::string>> spell;
        if (spell.empty())
            for (auto &x : tools) {
                std::vector<std::string> v;
                std::set<std::string> all;
                for (auto *s : *x.c)
                    for (auto &y : s->names())
                        all.insert(y);
                v.assign(all.begin(), all.end());
                spell.push_back(v);
            }
        for (size_t w = 0; w < tools.size(); w++) {
            Space s;
            s.name = std::string("options-") + tools[w].name;
            s.size = spell[w].size();
            s.chunk = 8;
            s.run = [=](uint64_t i, Ctx &ctx) {
                settings::setting_container &c = *tools[w].c;
                std::string nm = spell[w][i];
                settings::setting_base *st = c.find_setting(nm);
                if (!st || std::find(st->names().begin(), st->names().end(), nm) == st->names().end()) {
                    ctx.fail("options", std::string(tools[w].name) + ": option -" + nm + " is not found under its name");
                    return;
                }
                ctx.nontrivial(hstr(nm));
                std::vector<std::vector<const char *>> tries;
                bool isbool = dynamic_cast<settings::setting_bool *>(st), isfunc = dynamic_cast<settings::setting_func *>(st);
                static std::string keep;
                if (isbool || dynamic_cast<settings::setting_redirect *>(st))
                    tries = {{}, {"0"}, {"1"}, {"-1"}};
                else if (isfunc)
                    tries = {{}};
                else if (nm == "extra" || nm == "extra4" || nm == "notjunc")
                    tries = {{}};
                else if (dynamic_cast<settings::setting_int32 *>(st) || dynamic_cast<settings::setting_scalar *>(st))
                    tries = {{"1"}, {"0"}};
                else if (dynamic_cast<settings::setting_vec3 *>(st))
                    tries = {{"1", "0", "0"}, {"0", "30", "0"}};
                else if (dynamic_cast<settings::setting_string *>(st) || dynamic_cast<settings::setting_path *>(st) || dynamic_cast<settings::setting_set *>(st) || nm == "wadpath" || nm == "xwadpath")
                    tries = {{"word"}};
                else if (st->format().find(" | ") != std::string::npos || nm == "lightgrid_format") {
                    static std::vector<std::string> hold;
                    hold.clear();
                    std::string f = st->format();
                    for (size_t a = 0; a <= f.size();) {
                        size_t b = f.find(" | ", a);
                        if (b == std::string::npos)
                            b = f.size();
                        hold.push_back(f.substr(a, b - a));
                        a = b + 3;
                    }
                    for (auto &h : hold)
                        tries.push_back({h.c_str()});
                } else if (nm == "soft" || nm == "blocksize")
                    tries = {{"4"}};
                else {
                    ctx.count("skipped options");
                    return;
                }
                std::set<std::string> own = {st->primary_name()};
                if (auto it = multi.find(st->primary_name()); it != multi.end())
                    own.insert(it->second.begin(), it->second.end());
                if (nm == "bspxonly" && w == 2)
                    own.insert("novanilla");
                for (auto &args : tries)
                    for (const char *tail : {"file.bsp", "2fort.bsp", "-nopercent"}) {
                        c.reset();
                        std::map<std::string, std::string> before;
                        for (auto *x : c)
                            before[x->primary_name()] = shown(x);
                        bool other = tail[0] == '-';
                        if (other && !c.find_setting("nopercent"))
                            continue;
                        // a following file name must not be eaten; options with a required number read leniently are given their number
                        std::string dash = "-" + nm;
                        std::vector<const char *> argv{dash.c_str()};
                        argv.insert(argv.end(), args.begin(), args.end());
                        argv.push_back(tail);
                        token_parser_t tp(argv.size(), argv.data(), {"cmd"});
                        std::vector<std::string> rem;
                        ctx.count("option lines");
                        try {
                            rem = c.parse(tp);
                        } catch (std::exception &e) {
                            if (nm == "maxedges")
                                continue; // validates its range
                            ctx.fail("options", std::string(tools[w].name) + ": " + dash + (args.empty() ? "" : std::string(" ") + args[0]) + " " + tail + " is refused: " + e.what());
                            return;
                        }
                        std::string what;
                        if (!other ? rem != std::vector<std::string>{tail} : !rem.empty())
                            what = "does not leave the following argument alone";
                        for (auto *x : c) {
                            bool mine = own.count(x->primary_name()) || (other && x->primary_name() == "nopercent");
                            std::string now = shown(x);
                            if (!mine && now != before[x->primary_name()])
                                what = "changes " + x->primary_name();
                            if (mine && multi.count(st->primary_name()) == 0 && !isfunc && x->get_source() != source::COMMANDLINE)
                                what = "does not take effect";
                        }
                        if (isbool && what.empty()) {
                            bool inv = dynamic_cast<settings::setting_invertible_bool *>(st) && nm.compare(0, 2, "no") == 0;
                            bool val = args.empty() ? true : !strcmp(args[0], "1");
                            if (nm == "nopercent" && other)
                                val = true;
                            if (dynamic_cast<settings::setting_bool *>(st)->value() != (val != inv))
                                what = "sets the wrong value";
                        }
                        if (dynamic_cast<settings::setting_redirect *>(st) && what.empty()) {
                            // an option that stands for several gives every one of them the value it was given
                            for (auto &t : multi.at(st->primary_name())) {
                                auto *b = dynamic_cast<settings::setting_bool *>(c.find_setting(t));
                                if (!b || (other && t == "nopercent"))
                                    continue;
                                ctx.count("redirect targets");
                                if (b->value() != (args.empty() ? true : !strcmp(args[0], "1")))
                                    what = "gives " + t + " the wrong value";
                                else if (b->get_source() != source::COMMANDLINE)
                                    what = "does not set " + t;
                            }
                        }
                        if (!what.empty()) {
                            ctx.fail("options", std::string(tools[w].name) + ": " + dash + (args.empty() ? "" : std::string(" ") + args[0]) + " " + tail + " " + what);
                            return;
                        }
                        // reset puts everything back
                        c.reset();
                        for (auto *x : c)
                            if (shown(x) != before[x->primary_name()]) {
                                ctx.fail("options", std::string(tools[w].name) + ": reset does not restore " + x->primary_name());
                                return;
                            }
                    }
                // as a worldspawn / entity key, below a command-line value
                if (isbool) {
                    c.reset();
                    auto *bs = dynamic_cast<settings::setting_bool *>(st);
                    bool inv = dynamic_cast<settings::setting_invertible_bool *>(st) && nm.compare(0, 2, "no") == 0;
                    for (int under = 0; under < 2; under++)
                        for (int val = 0; val < 2; val++)
                            for (int cmd = 0; cmd < 3; cmd++) {
                                c.reset();
                                std::string key = (under ? "_" : "") + nm;
                                if (cmd)
                                    c.set_setting(st->primary_name(), cmd == 1 ? "1" : "0", source::COMMANDLINE);
                                c.set_setting(key, val ? "1" : "0", source::MAP);
                                bool want = cmd ? cmd == 1 : val != inv;
                                if (bs->value() != want) {
                                    ctx.fail("options", std::string(tools[w].name) + ": key " + key + " \"" + (val ? "1" : "0") + "\"" + (cmd ? " overrides the command line" : " sets the wrong value"));
                                    return;
                                }
                            }
                    c.reset();
                }
            };
            r.push_back(s);
        }
        // options and the members the tools read
        struct Pair
        {
            settings::setting_base *m;
            const char *n;
        };
        static std::vector<Pair> q = {{&qbsp_options.hexen2, "hexen2"}, {&qbsp_options.hlbsp, "hlbsp"}, {&qbsp_options.q2bsp, "q2bsp"}, {&qbsp_options.qbism, "qbism"}, {&qbsp_options.bsp2, "bsp2"},
            {&qbsp_options.bsp2rmq, "2psb"}, {&qbsp_options.software, "software"}, {&qbsp_options.subdivide, "subdivide"}, {&qbsp_options.nofill, "nofill"}, {&qbsp_options.nomerge, "nomerge"},
            {&qbsp_options.noclip, "noclip"}, {&qbsp_options.noskip, "noskip"}, {&qbsp_options.nodetail, "nodetail"}, {&qbsp_options.chop, "chop"}, {&qbsp_options.onlyents, "onlyents"},
            {&qbsp_options.splitsky, "splitsky"}, {&qbsp_options.splitturb, "litwater"}, {&qbsp_options.transwater, "transwater"}, {&qbsp_options.notextures, "notex"}, {&qbsp_options.oldaxis, "oldaxis"},
            {&qbsp_options.forcegoodtree, "forcegoodtree"}, {&qbsp_options.maxnodesize, "maxnodesize"}, {&qbsp_options.epsilon, "epsilon"}, {&qbsp_options.leaktest, "leaktest"}, {&qbsp_options.keepprt, "keepprt"},
            {&qbsp_options.includeskip, "includeskip"}, {&qbsp_options.worldextent, "worldextent"}, {&qbsp_options.forceprt1, "forceprt1"}, {&qbsp_options.tjunc, "tjunc"}, {&qbsp_options.wrbrushes, "wrbrushes"},
            {&qbsp_options.omitdetail, "omitdetail"}, {&qbsp_options.omitdetailwall, "omitdetailwall"}, {&qbsp_options.omitdetailillusionary, "omitdetailillusionary"}, {&qbsp_options.omitdetailfence, "omitdetailfence"},
            {&qbsp_options.filltype, "filltype"}, {&qbsp_options.filldetail, "filldetail"}, {&qbsp_options.maxedges, "maxedges"}, {&qbsp_options.scale, "scale"}, {&qbsp_options.threads, "threads"}, {&qbsp_options.log, "log"}};
        static std::vector<Pair> v = {{&vis_options.fast, "fast"}, {&vis_options.level, "level"}, {&vis_options.noambientsky, "noambientsky"}, {&vis_options.noambientwater, "noambientwater"},
            {&vis_options.noambientslime, "noambientslime"}, {&vis_options.noambientlava, "noambientlava"}, {&vis_options.visdist, "visdist"}, {&vis_options.nostate, "nostate"}, {&vis_options.phsonly, "phsonly"},
            {&vis_options.autoclean, "autoclean"}, {&vis_options.targetratio, "targetchecks"}};
        static std::vector<Pair> l = {{&light_options.onlyents, "onlyents"}, {&light_options.novanilla, "novanilla"}, {&light_options.gate, "gate"}, {&light_options.sunsamples, "sunsamples"}, {&light_options.nolighting, "nolighting"},
            {&light_options.extra, "extra"}, {&light_options.soft, "soft"}, {&light_options.litonly, "litonly"}, {&light_options.nolights, "nolights"}, {&light_options.lmshift, "lmshift"}, {&light_options.lightgrid, "lightgrid"},
            {&light_options.bounce, "bounce"}, {&light_options.rangescale, "range"}, {&light_options.minlight, "light"}, {&light_options.sunlight, "sunlight"}};
        Space s;
        s.name = "members";
        s.size = 3;
        s.run = [=](uint64_t i, Ctx &ctx) {
            auto &list = i == 0 ? q : i == 1 ? v : l;
            auto *c = tools[i].c;
            for (auto &p : list) {
                ctx.nontrivial(hstr(p.n, i));
                if (c->find_setting(p.n) != p.m)
                    ctx.fail("members", std::string(tools[i].name) + ": option -" + p.n + " sets another option's value");
            }
        };
        r.push_back(s);
    }
    return r;
}
int main(int argc, char **argv)
{
    logging::mask = logging::flag::NONE;
    return main_(argc, argv, {{"T04", "exploration", "values, sources and remaining arguments equal those of a small reference model after every step", {"multi-valued settings (paths) are given by one source only, as the tools do"}, t04}});
}
