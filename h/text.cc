// T01, T02: entity text and the tokenizer
#include <mc/explore.hh>
#include "lexref.hh"
#include <common/parser.hh>
#include <common/entdata.h>
#include <common/bspfile.hh>
#include <common/log.hh>
#include <cstring>
#include <memory>
#include <optional>
using namespace mc;

static std::string vis(const std::string &s)
{
    std::string r;
    char b[8];
    for (unsigned char c : s) {
        if (c == '\n')
            r += "\\n";
        else if (c < 32 || c >= 127) {
            snprintf(b, 8, "\\x%02x", c);
            r += b;
        } else
            r += c;
    }
    return r;
}

// the real parser on an exact-size heap copy of the text
struct Real
{
    std::unique_ptr<char[]> mem;
    std::optional<parser_t> p;
    Real(const std::string &s)
        : mem(new char[s.size()])
    {
        memcpy(mem.get(), s.data(), s.size());
        p.emplace(std::string_view(mem.get(), s.size()), parser_source_location("text"));
    }
    ref::Tok next(int flags)
    {
        ref::Tok t{0};
        try {
            if (p->parse_token(flags)) {
                t.kind = 1;
                t.text = p->token;
                t.quoted = p->was_quoted;
            }
            t.line = *p->location.line_number;
        } catch (std::exception &) {
            t = {2};
        }
        return t;
    }
};
static std::string tokstr(const ref::Tok &t)
{
    if (t.kind == 0)
        return "(none, line " + std::to_string(t.line) + ")";
    if (t.kind == 2)
        return "(refused)";
    return "[" + vis(t.text) + "]" + (t.quoted ? " quoted" : "") + " line " + std::to_string(t.line);
}
static const char *const alphabet = "a\"\n\\/; {";
static bool newline_in_quotes(const std::string &s)
{
    ref::Lexer l{s};
    for (;;) {
        ref::Tok t = l.next(0);
        if (t.kind != 1)
            return false;
        if (t.quoted && t.text.find('\n') != std::string::npos)
            return true;
    }
}
static const int modes[] = {PARSE_NORMAL, PARSE_SAMELINE, PARSE_OPTIONAL, PARSE_COMMENT, PARSE_COMMENT | PARSE_OPTIONAL, PARSE_PEEK, PARSE_PEEK | PARSE_SAMELINE, PARSE_PEEK | PARSE_OPTIONAL,
    PARSE_PEEK | PARSE_COMMENT, PARSE_COMMENT | PARSE_SAMELINE};
static void compare(const std::string &s, const std::vector<int> &calls, Ctx &ctx, const char *key)
{
    Real r(s);
    ref::Lexer l{s};
    // where newlines sit inside quoted strings the line number is not defined by the grammar
    bool lines = !newline_in_quotes(s);
    std::string hist;
    uint64_t oh = 1;
    for (size_t k = 0;; k++) {
        int f = k < calls.size() ? calls[k] : 0;
        ref::Tok a = l.next(f), b = r.next(f);
        ctx.count("tokens");
        oh = hcomb(oh, hstr(a.text, a.kind));
        if (!lines)
            a.line = b.line = 0;
        if (!(a == b)) {
            ctx.fail(key, "text [" + vis(s) + "] after " + hist + " call with flags " + std::to_string(f) + ": grammar " + tokstr(a) + ", parser " + tokstr(b));
            return;
        }
        hist += tokstr(b) + " ";
        if (a.kind == 2)
            break; // reading stops at an error
        if (k >= calls.size() && a.kind == 0)
            break;
    }
    ctx.outcome(oh);
}
static std::string text_of(uint64_t i, int len, const char *abc)
{
    std::string s;
    size_t n = strlen(abc);
    for (int k = 0; k < len; k++) {
        s += abc[i % n];
        i /= n;
    }
    return s;
}
static uint64_t ipow(uint64_t b, int e)
{
    uint64_t r = 1;
    while (e--)
        r *= b;
    return r;
}
static std::vector<Space> t02(Tier t)
{
    bool T = t == Tier::thorough;
    std::vector<Space> r;
    int L = T ? 7 : 6;
    for (int len = 0; len <= L; len++) {
        Space s;
        s.name = "texts" + std::to_string(len);
        int head = std::min(len, 3);
        s.size = ipow(8, head);
        s.chunk = 8;
        s.case_timeout = 300;
        s.run = [=](uint64_t i, Ctx &ctx) {
            uint64_t n = ipow(8, len - head);
            for (uint64_t j = 0; j < n; j++) {
                std::string s = text_of(i, head, alphabet) + text_of(j, len - head, alphabet);
                ctx.nontrivial(hstr(s));
                if ((j & 63) == 0)
                    ctx.beat();
                // the longest texts get every single call mode, shorter ones every pair / triple of modes
                for (int a : modes) {
                    if (len == L)
                        compare(s, {a}, ctx, "texts");
                    else
                        for (int b : modes) {
                            if (len >= L - 1)
                                compare(s, {a, b}, ctx, "texts");
                            else
                                for (int c : modes)
                                    compare(s, {a, b, c}, ctx, "texts");
                        }
                }
            }
        };
        r.push_back(s);
    }
    {
        // every byte at each position of a few contexts (control characters, NUL, CR, escapes)
        static const std::vector<std::string> ctxs = {"@", "a@b c", "\"@\" b", "\"\\@\" b", "\"\\\"@x\" b", "//@\nb", ";@\nb", "a @b", "/@b c", "\"a\"@ b", "a@\"b\""};
        Space s;
        s.name = "bytes";
        s.size = ctxs.size() * 127;
        s.chunk = 64;
        s.run = [=](uint64_t i, Ctx &ctx) {
            std::string c = ctxs[i / 127];
            int v = i % 127 + 1;
            size_t at = c.find('@');
            for (int rep = 0; rep < 3; rep++) {
                std::string x = c;
                x[at] = v;
                if (rep == 1)
                    x = x.substr(0, at + 1); // the text ends right there
                if (rep == 2)
                    x[at] = 0;
                ctx.nontrivial(hstr(x));
                for (int a : modes)
                    for (int b : modes)
                        compare(x, {a, b}, ctx, "bytes");
            }
        };
        r.push_back(s);
    }
    {
        // every schedule of read / look-ahead / push / pop up to a depth: popping returns to exactly where the push was
        Space s;
        static const std::vector<std::string> texts = {"a b\nc \"d e\" //f\n{ }", "a\n\n\"b\"", ";x\na b", "a"};
        int D = T ? 8 : 7;
        s.name = "push-pop";
        s.size = texts.size() * 25;
        s.chunk = 2;
        s.run = [=](uint64_t i, Ctx &ctx) {
            const std::string &x = texts[i / 25];
            uint64_t n = ipow(5, D - 2);
            for (uint64_t j = 0; j < n; j++) {
                uint64_t code = (i % 25) * n + j;
                Real r(x);
                ref::Lexer l{x};
                std::vector<ref::Lexer> st;
                std::string hist;
                bool bad = false;
                for (int k = 0; k < D && !bad; k++) {
                    int op = code % 5;
                    code /= 5;
                    static const int fl[3] = {PARSE_NORMAL, PARSE_PEEK, PARSE_OPTIONAL};
                    if (op < 3) {
                        ref::Tok a = l.next(fl[op]), b = r.next(fl[op]);
                        hist += "read(" + std::to_string(fl[op]) + ") ";
                        if (!(a == b))
                            bad = true, ctx.fail("push-pop", "text [" + vis(x) + "] after " + hist + ": grammar " + tokstr(a) + ", parser " + tokstr(b));
                        if (r.p->at_end() != (l.p >= x.size()))
                            bad = true, ctx.fail("push-pop", "text [" + vis(x) + "] after " + hist + ": at_end is wrong");
                        ctx.state(hcomb(hcomb(l.p, st.size()), i / 25));
                        ctx.count("transitions");
                    } else if (op == 3) {
                        r.p->push_state();
                        st.push_back(l);
                        hist += "push ";
                    } else if (!st.empty()) {
                        r.p->pop_state();
                        l = st.back();
                        st.pop_back();
                        hist += "pop ";
                    }
                }
                ctx.nontrivial(hstr(hist, i));
            }
        };
        r.push_back(s);
    }
    {
        // command-line tokens: one token per argument, in order
        static const std::vector<const char *> args = {"a", "", "b c", "-x", "//y", "\"q\""};
        Space s;
        s.name = "arguments";
        s.size = ipow(6, 4) + 1;
        s.chunk = 200;
        s.run = [=](uint64_t i, Ctx &ctx) {
            Digits d(i);
            std::vector<const char *> v;
            int n = i == ipow(6, 4) ? 0 : 4;
            for (int k = 0; k < n; k++)
                v.push_back(args[d(6)]);
            for (int f : {PARSE_NORMAL, PARSE_PEEK, PARSE_OPTIONAL, PARSE_SAMELINE}) {
                token_parser_t p(v.size(), v.data(), {"args"});
                size_t at = 0;
                ctx.nontrivial(hcomb(i, f));
                for (int k = 0; k < 7; k++) {
                    int fl = k % 2 ? PARSE_NORMAL : f;
                    bool got = p.parse_token(fl);
                    bool exp = at < v.size();
                    if (got != exp || (got && p.token != v[at])) {
                        ctx.fail("arguments", "argument list is not read one token per argument");
                        return;
                    }
                    if (exp && !(fl & PARSE_PEEK))
                        at++;
                    if (p.at_end() != (at >= v.size())) {
                        ctx.fail("arguments", "at_end of an argument list is wrong");
                        return;
                    }
                    if (k == 2) {
                        p.push_state();
                        p.parse_token();
                        p.parse_token();
                        p.pop_state();
                    }
                }
            }
        };
        r.push_back(s);
    }
    return r;
}
// ---------------------------------------------------------------- T01
using KV = std::vector<std::pair<std::string, std::string>>;
static std::string dump(const std::vector<KV> &e)
{
    std::string r;
    for (auto &k : e) {
        r += "{";
        for (auto &p : k)
            r += "[" + vis(p.first) + "]=[" + vis(p.second) + "] ";
        r += "}";
    }
    return r;
}
static std::vector<KV> plain(const std::vector<entdict_t> &e)
{
    std::vector<KV> r;
    for (auto &d : e) {
        KV k;
        for (auto &p : d)
            k.emplace_back(p.first, p.second);
        r.push_back(k);
    }
    return r;
}
static std::optional<std::vector<entdict_t>> parse(const std::string &s)
{
    std::unique_ptr<char[]> mem(new char[s.size()]);
    memcpy(mem.get(), s.data(), s.size());
    try {
        parser_t p{std::string_view(mem.get(), s.size()), {"ents"}};
        return EntData_Parse(p);
    } catch (std::exception &) {
        return std::nullopt;
    }
}
static void kv_set(KV &k, const std::string &a, const std::string &b)
{
    for (auto &p : k)
        if (p.first == a) {
            p.second = b;
            return;
        }
    k.emplace_back(a, b);
}
// what the text spells
static std::optional<std::vector<KV>> spell(const std::string &s)
{
    ref::Lexer l{s};
    std::vector<KV> r;
    for (;;) {
        ref::Tok t = l.next(0);
        if (t.kind == 0)
            return r;
        if (t.kind == 2 || t.text != "{")
            return std::nullopt;
        KV e;
        for (;;) {
            ref::Tok k = l.next(0);
            if (k.kind != 1)
                return std::nullopt;
            if (k.text == "}")
                break;
            ref::Tok v = l.next(0);
            if (v.kind != 1 || v.text == "}")
                return std::nullopt;
            size_t a = 0, b = k.text.size();
            while (a < b && strchr(" \t\n\r\v\f", k.text[a]))
                a++;
            while (b > a && strchr(" \t\n\r\v\f", k.text[b - 1]))
                b--;
            kv_set(e, k.text.substr(a, b - a), v.text);
        }
        r.push_back(e);
    }
}
// a value the written notation can express
static bool writable(const KV &e)
{
    auto odd = [](const std::string &s) {
        ref::Tok t = ref::Lexer{"\"" + s + "\"x"}.next(0);
        return !(t.kind == 1 && t.quoted && t.text == s);
    };
    for (auto &p : e) {
        if (p.first == "}" || p.second == "}" || odd(p.first))
            return false;
        ref::Tok t = ref::Lexer{"\"" + p.second + "\"\n"}.next(0);
        if (!(t.kind == 1 && t.quoted && t.text == p.second))
            return false;
        ref::Lexer k{"\"" + p.first + "\" "};
        k.next(0);
        if (k.p != p.first.size() + 2)
            return false;
        ref::Lexer v{"\"" + p.second + "\"\n"};
        v.next(0);
        if (v.p != p.second.size() + 2)
            return false;
    }
    return true;
}
static void text_case(const std::string &s, Ctx &ctx, const char *key)
{
    auto want = spell(s);
    auto got = parse(s);
    ctx.count("texts");
    ctx.count(want ? "entity texts" : "refused texts");
    if (want.has_value() != got.has_value()) {
        ctx.fail(key, "text [" + vis(s) + "] is " + (want ? "well formed but refused" : "malformed but accepted"));
        return;
    }
    if (!want)
        return;
    ctx.nontrivial(hstr(s));
    auto p = plain(*got);
    ctx.outcome(hstr(dump(p)));
    if (p != *want) {
        ctx.fail(key, "text [" + vis(s) + "] spells " + dump(*want) + " but parses to " + dump(p));
        return;
    }
    for (auto &e : *want)
        if (!writable(e))
            return;
    ctx.count("round trips");
    std::string w = EntData_Write(*got);
    auto again = parse(w);
    if (!again || plain(*again) != p || EntData_Write(*again) != w)
        ctx.fail(key, "entities " + dump(p) + " written as [" + vis(w) + "] come back as " + (again ? dump(plain(*again)) : "an error"));
    // through a map's entity lump
    mbsp_t bsp;
    bsp.dentdata = w;
    auto third = EntData_Parse(bsp);
    if (plain(third) != p)
        ctx.fail(key, "entities " + dump(p) + " come back from the entity lump as " + dump(plain(third)));
}
static std::vector<Space> t01(Tier t)
{
    bool T = t == Tier::thorough;
    std::vector<Space> r;
    {
        // every sequence of operations on one dictionary
        static const std::vector<std::string> keys = {"a", "A", "ab", ""}, vals = {"", "x", "y"};
        struct Op
        {
            int kind, a, b;
        };
        static std::vector<Op> ops;
        if (ops.empty()) {
            for (int k = 0; k < 4; k++)
                for (int v = 0; v < 3; v++)
                    ops.push_back({0, k, v});
            for (int k = 0; k < 4; k++)
                ops.push_back({1, k, 0});
            for (int k = 0; k < 4; k++)
                for (int j = 0; j < 4; j++)
                    if (k != j)
                        ops.push_back({2, k, j});
        }
        int D = T ? 5 : 4;
        Space s;
        s.name = "operations";
        size_t n = ops.size();
        s.size = n * n;
        s.chunk = 8;
        s.run = [=](uint64_t i, Ctx &ctx) {
            for (uint64_t j = 0; j < ipow(n, D - 2); j++) {
                if ((j & 1023) == 0)
                    ctx.beat();
                uint64_t code = j * n * n + i;
                entdict_t d;
                KV m;
                std::string h;
                bool bad = false;
                for (int k = 0; k < D && !bad; k++) {
                    Op o = ops[code % n];
                    code /= n;
                    const std::string &a = keys[o.a];
                    if (o.kind == 0) {
                        d.set(a, vals[o.b]);
                        kv_set(m, a, vals[o.b]);
                        h += "set(" + a + "," + vals[o.b] + ") ";
                    } else if (o.kind == 1) {
                        d.remove(a);
                        for (size_t x = 0; x < m.size(); x++)
                            if (m[x].first == a) {
                                m.erase(m.begin() + x);
                                break;
                            }
                        h += "remove(" + a + ") ";
                    } else {
                        const std::string &b = keys[o.b];
                        bool hasb = false, hasa = false;
                        for (auto &p : m) {
                            hasb |= p.first == b;
                            hasa |= p.first == a;
                        }
                        if (hasb)
                            continue; // renaming onto an existing key: nothing promised
                        d.rename(a, b);
                        h += "rename(" + a + "," + b + ") ";
                        if (hasa)
                            for (size_t x = 0; x < m.size(); x++)
                                if (m[x].first == a) {
                                    auto v = m[x].second;
                                    m.erase(m.begin() + x);
                                    m.emplace_back(b, v);
                                    break;
                                }
                    }
                    ctx.count("transitions");
                    ctx.state(hstr(dump({m})));
                    KV got(d.begin(), d.end());
                    bad = got != m || d.size() != m.size();
                    for (auto &kk : keys) {
                        std::string w;
                        bool has = false;
                        for (auto &p : m)
                            if (p.first == kk)
                                has = true, w = p.second;
                        bad |= d.has(kk) != has || d.get(kk) != w;
                    }
                    if (bad)
                        ctx.fail("operations", "after " + h + "the entity holds " + dump({got}) + ", expected " + dump({m}));
                }
                ctx.nontrivial(hstr(h));
            }
        };
        r.push_back(s);
    }
    {
        // every token sequence
        static const std::vector<std::string> toks = {"{", "}", "\"a\"", "\"b\"", "\" a\"", "\"a \"", "\"\"", "\" \"", "x", "//c\n", "\"{\"", "\"A\""};
        int L = T ? 7 : 6;
        Space s;
        s.name = "tokens";
        s.size = 12 * 12 * (L + 1);
        s.chunk = 4;
        s.case_timeout = 600;
        s.run = [=](uint64_t i, Ctx &ctx) {
            Digits d(i);
            int len = d(L + 1);
            int t0 = d(12), t1 = d(12);
            if ((len < 1 && t0) || (len < 2 && t1))
                return;
            // an entity prefix makes the sequences reach deeper
            for (int pre = 0; pre < 2; pre++) {
                uint64_t n = len > 2 ? ipow(12, len - 2) : 1;
                if (pre == 0 && len > L - 1)
                    continue;
                for (uint64_t j = 0; j < n; j++) {
                    if ((j & 1023) == 0)
                        ctx.beat();
                    std::string s = pre ? "{ " : "";
                    uint64_t v = j;
                    for (int k = 0; k < len; k++) {
                        int x = k == 0 ? t0 : k == 1 ? t1 : v % 12;
                        if (k > 1)
                            v /= 12;
                        s += toks[x] + " ";
                    }
                    text_case(s, ctx, "tokens");
                }
            }
        };
        r.push_back(s);
    }
    {
        // every short key and value
        static const char *abc = "a \\\"\n{}/;n\xe9";
        int L = T ? 5 : 4;
        Space s;
        s.name = "strings";
        int n = strlen(abc);
        s.size = ipow(n, 2) * (L + 1) * 2;
        s.chunk = 8;
        s.case_timeout = 600;
        s.run = [=](uint64_t i, Ctx &ctx) {
            Digits d(i);
            int key = d(2), len = d(L + 1);
            uint64_t head = d(n * n);
            if ((len < 2 && head >= ipow(n, len)))
                return;
            int rest = std::max(0, len - 2);
            for (uint64_t j = 0; j < ipow(n, rest); j++) {
                if ((j & 1023) == 0)
                    ctx.beat();
                std::string x = text_of(head, std::min(len, 2), abc) + text_of(j, rest, abc);
                text_case(key ? "{\n\"" + x + "\" \"v\"\n\"k\" \"w\"\n}\n{\n}\n" : "{\n\"k\" \"" + x + "\"\n\"l\" \"w\"\n}\n{\n}\n", ctx, "strings");
            }
        };
        r.push_back(s);
    }
    {
        // numbers and vectors
        static const std::vector<std::string> num = {"0", "1", "-2", "3.5", "-0.25", "1e2", "007", "x", ""};
        Space s;
        s.name = "numbers";
        s.size = ipow(num.size(), 3) * 2;
        s.chunk = 300;
        s.run = [=](uint64_t i, Ctx &ctx) {
            Digits d(i);
            std::string sep = d(2) ? "   " : " ";
            std::vector<std::string> p;
            for (int k = 0; k < 3; k++)
                p.push_back(num[d(num.size())]);
            std::string v = p[0] + sep + p[1] + sep + p[2];
            static const double val[] = {0, 1, -2, 3.5, -0.25, 100, 7};
            // the numbers up to the first non-number
            std::vector<double> w;
            for (auto &x : p) {
                if (x.empty())
                    continue;
                size_t at = std::find(num.begin(), num.end(), x) - num.begin();
                if (at >= 7)
                    break;
                w.push_back(val[at]);
            }
            entdict_t e;
            e.set("k", v);
            qvec3f o;
            int n = e.get_vector("k", o);
            ctx.nontrivial(hstr(v));
            bool any = false;
            for (auto &x : p)
                any |= !x.empty();
            bool bad = w.empty() ? n > 0 : n != (int)w.size();
            for (size_t k = 0; k < w.size(); k++)
                bad |= o[k] != (float)w[k];
            for (size_t k = w.size(); k < 3; k++)
                bad |= o[k] != 0;
            double f = e.get_float("k");
            bad |= f != (w.empty() ? 0 : w[0]);
            if (w.empty() || w[0] == (int)w[0])
                bad |= (v.find("1e2") > v.find_first_not_of(' ')) && e.get_int("k") != (w.empty() ? 0 : (int)w[0]);
            if (bad)
                ctx.fail("numbers", "value [" + v + "] reads as " + std::to_string(n) + " components " + std::to_string(o[0]) + " " + std::to_string(o[1]) + " " + std::to_string(o[2]) + ", float " + std::to_string(f));
        };
        r.push_back(s);
    }
    return r;
}
int main(int argc, char **argv)
{
    logging::mask = logging::flag::NONE;
    return main_(argc, argv,
        {{"T01", "exploration", "parsed entities equal what an independent reader of the grammar finds; written text parses back to equal entities; operations match a list model", {"renaming onto an existing key, bare quotes and keys that end in a backslash are outside the property"}, t01},
            {"T02", "exploration", "token, quoting, line and position agree with an independent tokenizer for every call history; exact-size buffers under the address sanitizer", {"bytes above 127 outside quotes and line numbers after a newline inside quotes are not compared"}, t02}});
}
