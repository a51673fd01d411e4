// F01: file lookup in directories, pak and wad archives
#include <mc/explore.hh>
#include <common/fs.hh>
#include <common/log.hh>
#include <algorithm>
#include <cstring>
#include <fstream>
#include <map>
#include <optional>
#include <set>
#include <sstream>
using namespace mc;
namespace
{
namespace sf = std::filesystem;
using Bytes = std::string;
void put(const sf::path &p, const Bytes &b)
{
    if (p.has_parent_path())
        sf::create_directories(p.parent_path());
    std::ofstream o(p, std::ios::binary | std::ios::trunc);
    o.write(b.data(), b.size());
}
void le(Bytes &b, uint32_t v)
{
    for (int i = 0; i < 4; i++)
        b.push_back((char)(v >> (8 * i) & 255));
}
void set32(Bytes &b, size_t at, uint32_t v)
{
    for (int i = 0; i < 4; i++)
        b[at + i] = (char)(v >> (8 * i) & 255);
}
uint32_t get32(const Bytes &b, size_t at)
{
    uint32_t v = 0;
    for (int i = 0; i < 4; i++)
        v |= (uint32_t)(uint8_t)b[at + i] << (8 * i);
    return v;
}
struct Entry
{
    std::string name;
    Bytes data;
};
// pak: header, then data and directory in either order
Bytes pak(const std::vector<Entry> &es, bool dirfirst)
{
    Bytes b = "PACK";
    size_t dirsz = es.size() * 64, datasz = 0;
    for (auto &e : es)
        datasz += e.data.size();
    size_t diroff = dirfirst ? 12 : 12 + datasz, off = dirfirst ? 12 + dirsz : 12;
    le(b, diroff);
    le(b, dirsz);
    Bytes dir, data;
    for (auto &e : es) {
        Bytes n = e.name.substr(0, 56);
        n.resize(56, 0);
        dir += n;
        le(dir, off);
        le(dir, e.data.size());
        off += e.data.size();
        data += e.data;
    }
    return dirfirst ? b + dir + data : b + data + dir;
}
Bytes wad(const std::vector<Entry> &es, bool dirfirst, char version)
{
    Bytes b = "WAD";
    b += version;
    size_t dirsz = es.size() * 32, datasz = 0;
    for (auto &e : es)
        datasz += e.data.size();
    size_t diroff = dirfirst ? 12 : 12 + datasz, off = dirfirst ? 12 + dirsz : 12;
    le(b, es.size());
    le(b, diroff);
    Bytes dir, data;
    for (auto &e : es) {
        le(dir, off);
        le(dir, e.data.size());
        le(dir, e.data.size());
        dir += 'D';
        dir += '\0';
        dir += '\0';
        dir += '\0';
        Bytes n = e.name.substr(0, 16);
        n.resize(16, 0);
        dir += n;
        off += e.data.size();
        data += e.data;
    }
    return dirfirst ? b + dir + data : b + data + dir;
}
std::string lower(std::string s)
{
    for (auto &c : s)
        c = tolower(c);
    return s;
}
std::optional<Bytes> ask(const sf::path &p, bool loose)
{
    auto d = fs::load(p, loose);
    if (!d)
        return std::nullopt;
    return Bytes(d->begin(), d->end());
}
std::string show(const std::optional<Bytes> &b)
{
    if (!b)
        return "nothing";
    std::string s = "\"";
    for (char c : *b)
        s += c >= 32 && c < 127 ? c : '?';
    return s + "\" (" + std::to_string(b->size()) + " bytes)";
}
void wipe()
{
    fs::clear();
    for (auto &e : sf::directory_iterator("."))
        sf::remove_all(e.path());
}

// ---- search order ---------------------------------------------------------
// locations 0,1: directories, 2,3: paks, 4: wad; 5: the working directory
const std::vector<std::string> LOC = {"d0", "d1", "p0.pak", "p1.PAK", "w.wad"};
std::vector<std::vector<int>> orders(bool all)
{
    std::vector<int> v = {0, 1, 2, 3, 4};
    std::vector<std::vector<int>> r;
    do
        r.push_back(v);
    while (std::next_permutation(v.begin(), v.end()));
    if (!all) {
        std::vector<std::vector<int>> q;
        for (size_t i = 0; i < r.size(); i++)
            q.push_back(r[i]);
        return q;
    }
    return r;
}
struct Name
{
    const char *stored, *asked;
    int kind; // 0 plain; 1 absolute; 2 through p0.pak; 3 through w.wad; 4 absolute through p1
    bool dirs_differ_in_case;
};
const std::vector<Name> NAMES = {{"f.dat", "f.dat", 0, false}, {"sub/f.dat", "sub/f.dat", 0, false}, {"F.dat", "f.DAT", 0, true}, {"f.dat", "f.dat", 1, false},
    {"f.dat", "f.dat", 2, false}, {"sub/f.dat", "sub/f.dat", 2, false}, {"sub/F.dat", "sub/f.dat", 2, true}, {"f.dat", "f.dat", 3, false}, {"f.dat", "f.dat", 4, false},
    {"f.dat", "d0/f.dat", 5, false}, {"noext", "noext", 0, false}};
bool external_of(int loc) { return loc == 1 || loc == 3; }

void order_case(Ctx &ctx, unsigned present, const std::vector<int> &order, const Name &n, int again, int dirnamed)
{
    wipe();
    for (int i = 0; i < 5; i++) {
        Bytes body = "contents in " + LOC[i] + std::string(i * 3, '.');
        bool has = present >> i & 1;
        if (i < 2) {
            sf::create_directories(LOC[i]);
            if (has)
                put(sf::path(LOC[i]) / n.stored, body);
            else if (dirnamed)
                sf::create_directories(sf::path(LOC[i]) / n.stored);
        } else {
            std::vector<Entry> es = {{"other", "something else"}};
            if (has)
                es.push_back({n.stored, body});
            es.push_back({"last", "the last one"});
            put(LOC[i], i == 4 ? wad(es, false, '2') : pak(es, i == 3));
        }
    }
    bool cw = present >> 5 & 1;
    if (cw)
        put(n.stored, "contents in the working directory");
    else if (dirnamed)
        sf::create_directories(n.stored);
    for (int l : order)
        fs::addArchive(LOC[l], external_of(l));
    if (again) // adding a place twice changes nothing
        fs::addArchive(LOC[order[0]], !external_of(order[0]));
    auto body = [&](int i) { return Bytes("contents in " + LOC[i] + std::string(i * 3, '.')); };
    bool samecase = !n.dirs_differ_in_case;
    for (int loose = 0; loose < 2; loose++) {
        sf::path p = n.asked;
        std::optional<Bytes> want;
        int from = -1;
        auto direct = [&](int l) {
            if (present >> l & 1)
                want = body(l), from = l;
        };
        auto plain = [&](bool abs) {
            auto cwd = [&]() {
                if (!want && cw && samecase)
                    want = "contents in the working directory", from = 5;
            };
            auto set = [&](bool archives) {
                if (abs)
                    return;
                for (int k = 4; k >= 0 && !want; k--) {
                    int l = order[k];
                    if ((l >= 2) != archives || !(present >> l & 1) || (l < 2 && !samecase))
                        continue;
                    want = body(l), from = l;
                }
            };
            if (loose)
                cwd(), set(false), set(true);
            else
                set(true), set(false), cwd();
        };
        switch (n.kind) {
            case 0: plain(false); break;
            case 1:
                p = sf::absolute(p);
                plain(true);
                break;
            case 2:
                p = sf::path("p0.pak") / p;
                direct(2);
                break;
            case 3:
                p = sf::path("w.wad") / p;
                direct(4);
                break;
            case 4:
                p = sf::absolute(sf::path("p1.PAK") / p);
                direct(3);
                break;
            case 5:
                if (present & 1)
                    want = body(0), from = 5;
                break;
        }
        auto got = ask(p, loose);
        ctx.count("lookups");
        ctx.outcome(hcomb(from, loose));
        std::string at = "'" + p.string() + "' (kind " + std::to_string(n.kind) + ", places added";
        if (got != want || true) {
            for (int l : order)
                at += " " + LOC[l];
            at += ", present in";
            for (int i = 0; i < 6; i++)
                if (present >> i & 1)
                    at += " " + (i == 5 ? std::string("cwd") : LOC[i]);
            at += loose ? ", loose first)" : ", archives first)";
            if (dirnamed)
                at += ", elsewhere a directory of that name";
        }
        if (got != want)
            ctx.fail("lookup kind " + std::to_string(n.kind) + (dirnamed ? " dir" : ""), at + " gives " + show(got) + " instead of " + show(want));
        auto w = fs::where(p, loose);
        if (from >= 0 && w) {
            if (w.archive->external != (from < 5 && external_of(from)))
                ctx.fail("external flag", at + ": the 'external' hint is that of another place");
            if (n.kind == 0 && w.filename != p)
                ctx.fail("filename", at + ": filename " + w.filename.string());
            if (!w.archive->contains(w.filename))
                ctx.fail("contains", at + ": the archive found says it does not contain the file");
        }
        if (n.kind == 0 && (bool)w != (bool)want)
            ctx.fail("where", at + ": found " + (w ? "somewhere" : "nowhere"));
    }
}

// ---- archive contents -------------------------------------------------------
struct Arc
{
    bool isWad;
    char ver;
    bool dirfirst;
    std::vector<Entry> es;
    Bytes bytes() const { return isWad ? wad(es, dirfirst, ver) : pak(es, dirfirst); }
    std::string file() const { return isWad ? "a.wad" : "a.pak"; }
};
std::vector<Entry> entries(bool isWad, int pattern)
{
    size_t full = isWad ? 16 : 56;
    auto longname = [&](size_t n) {
        std::string s;
        for (size_t i = 0; i < n; i++)
            s += (char)('a' + i % 26);
        return s;
    };
    switch (pattern) {
        case 0: return {};
        case 1: return {{"one", "1"}};
        case 2: return {{"one", ""}, {"two", "22"}};
        case 3: return {{longname(full - 1), "almost full name"}, {longname(full), "full name"}, {"z", "after"}};
        case 4: return {{longname(full), "full name"}};
        case 5: return {{"A", "upper a"}, {"b", "lower b"}, {"*C", "star"}, {"+0d", "plus"}};
        case 6: return {{"same", "data"}, {"other", "data"}, {"third", Bytes(3000, 'x')}};
        default: {
            Bytes all;
            for (int i = 0; i < 256; i++)
                all += (char)i;
            return {{"all", all}, {"dir/file", "nested"}};
        }
    }
}
void check_all(Ctx &ctx, const Arc &a, const std::string &what, bool strict = true)
{
    for (int round = 0; round < 2; round++)
        for (auto &e : a.es)
            for (int cs = 0; cs < 3; cs++) {
                std::string q = e.name;
                if (cs == 1)
                    for (auto &c : q)
                        c = toupper(c);
                if (cs == 2)
                    q = lower(q);
                auto got = ask(q, false);
                ctx.count("loads");
                if (!got || *got != e.data)
                    ctx.fail("archive " + a.file(), what + ": '" + q + "' gives " + show(got) + " instead of " + show(e.data));
            }
    for (auto miss : {"", "x", "one.", "on", "onee", "dir", "file", "a.pak"}) {
        bool is = false;
        for (auto &e : a.es)
            if (lower(e.name) == miss)
                is = true;
        if (is || (std::string(miss) == a.file()) || !*miss)
            continue;
        if (ask(miss, false))
            ctx.fail("archive " + a.file() + " phantom", what + ": '" + std::string(miss) + "' is found");
    }
}
std::vector<Arc> arcs()
{
    std::vector<Arc> r;
    for (int w = 0; w < 3; w++)
        for (int df = 0; df < 2; df++)
            for (int p = 0; p < 8; p++)
                r.push_back({w > 0, w == 2 ? '3' : '2', (bool)df, entries(w > 0, p)});
    return r;
}
// a damaged archive: what is found must be bytes of the file at the place the
// directory names, and everything intact must still be found
void damaged(Ctx &ctx, const Arc &a, const Bytes &b, const std::string &what)
{
    wipe();
    put(a.file(), b);
    std::shared_ptr<fs::archive_like> ar;
    ar = fs::addArchive(a.file());
    ctx.count("damaged");
    if (!ar)
        return; // refused
    // read the directory the way the format says
    if (b.size() < 12 || b.compare(0, a.isWad ? 3 : 4, a.isWad ? "WAD" : "PACK")) {
        ctx.fail("damaged magic", what + ": accepted");
        return;
    }
    size_t rec = a.isWad ? 32 : 64;
    uint64_t n = a.isWad ? get32(b, 4) : get32(b, 8) / 64, off = a.isWad ? get32(b, 8) : get32(b, 4);
    std::map<std::string, std::set<std::optional<Bytes>>> want;
    for (uint64_t i = 0; i < n && off + (i + 1) * rec <= b.size(); i++) {
        size_t at = off + i * rec;
        Bytes nm = a.isWad ? b.substr(at + 16, 16) : b.substr(at, 56);
        nm = nm.c_str();
        uint64_t fo = a.isWad ? get32(b, at) : get32(b, at + 56), sz = a.isWad ? get32(b, at + 4) : get32(b, at + 60);
        std::optional<Bytes> d;
        if (fo + sz <= b.size())
            d = b.substr(fo, sz);
        want[lower(nm)].insert(d);
    }
    for (int round = 0; round < 2; round++)
        for (auto &[nm, ds] : want) {
            if (nm.empty() || nm == "." || nm.find('\n') != std::string::npos)
                continue;
            fs::data d = ar->load(nm);
            std::optional<Bytes> got;
            if (d)
                got = Bytes(d->begin(), d->end());
            ctx.count("loads");
            ctx.outcome(hcomb((bool)got, got ? got->size() : 0));
            if (!ds.count(got))
                ctx.fail("damaged", what + ": '" + nm + "' gives " + show(got) + " instead of " + show(*ds.begin()));
        }
}

std::vector<Space> f01(Tier t)
{
    std::vector<Space> out;
    bool T = t == Tier::thorough;
    auto od = orders(true);
    const uint64_t NP = 64, NO = od.size(), NN = NAMES.size();
    // quick: all presence sets and all orders; the twice-added and the directory-named variants for every 5th order
    out.push_back({"search order", NP * NO * NN, [=](uint64_t i, Ctx &ctx) {
        unsigned present = i % NP;
        auto &n = NAMES[i / NP % NN];
        auto &o = od[i / NP / NN];
        if (!T && n.kind != 0 && (i / NP / NN) % 6)
            return;
        ctx.nontrivial(i);
        order_case(ctx, present, o, n, 0, 0);
    }, 128});
    out.push_back({"search order, place added twice / directory of the same name", NP * NO * 2 * 2, [=](uint64_t i, Ctx &ctx) {
        unsigned present = i % NP;
        auto &o = od[i / NP % NO];
        auto &n = NAMES[i / NP / NO % 2 ? 10 : 0];
        int dirnamed = i / NP / NO / 2;
        if (!T && (i / NP % NO) % 5)
            return;
        ctx.nontrivial(hcomb(i, 5));
        order_case(ctx, present, o, n, 1, dirnamed);
    }, 128});
    auto as = arcs();
    out.push_back({"archive contents", as.size(), [as](uint64_t i, Ctx &ctx) {
        wipe();
        put(as[i].file(), as[i].bytes());
        ctx.nontrivial(i);
        auto ar = fs::addArchive(as[i].file());
        if (!ar) {
            ctx.fail("refused", "a valid " + as[i].file() + " is refused");
            return;
        }
        check_all(ctx, as[i], "entries of archive " + std::to_string(i));
        if (fs::addArchive("./" + as[i].file()) != ar || fs::addArchive(sf::absolute(as[i].file())) != ar)
            ctx.fail("added twice", "the same archive is added twice");
    }, 4});
    // every truncation of every archive (every fourth byte of the big ones in quick)
    std::vector<std::pair<int, size_t>> cuts;
    for (size_t k = 0; k < as.size(); k++) {
        size_t n = as[k].bytes().size();
        for (size_t c = 0; c < n; c++)
            if (n < 900 || c < 100 || (c > n - 200) || c % 64 == 0)
                cuts.push_back({(int)k, c});
    }
    out.push_back({"truncated archives", cuts.size(), [as, cuts](uint64_t i, Ctx &ctx) {
        auto [k, c] = cuts[i];
        ctx.nontrivial(i);
        damaged(ctx, as[k], as[k].bytes().substr(0, c), "archive " + std::to_string(k) + " cut to " + std::to_string(c) + " bytes");
    }, 64});
    // every header and directory word replaced by boundary values
    struct D
    {
        int k;
        size_t at;
        uint32_t v;
    };
    std::vector<D> ds;
    for (size_t k = 0; k < as.size(); k++) {
        Bytes b = as[k].bytes();
        std::vector<size_t> words = {0, 4, 8};
        size_t rec = as[k].isWad ? 32 : 64, n = as[k].es.size(), off = as[k].isWad ? get32(b, 8) : get32(b, 4);
        for (size_t i = 0; i < n; i++)
            for (size_t w : as[k].isWad ? std::vector<size_t>{0, 4, 8, 12} : std::vector<size_t>{56, 60})
                words.push_back(off + i * rec + w);
        for (size_t at : words)
            for (uint32_t v : {0u, 1u, 11u, 12u, 13u, 63u, 64u, 65u, 128u, (uint32_t)b.size() - 1, (uint32_t)b.size(), (uint32_t)b.size() + 1, 0x10000u, 0x100000u, 0x7ffffff0u, 0x7fffffffu, 0x80000000u, 0xfffffff0u, 0xffffffffu, get32(b, at) + 1, get32(b, at) - 1, 0x3f3f3f3fu})
                ds.push_back({(int)k, at, v});
    }
    out.push_back({"damaged headers and directories", ds.size(), [as, ds](uint64_t i, Ctx &ctx) {
        auto &d = ds[i];
        Bytes b = as[d.k].bytes();
        set32(b, d.at, d.v);
        ctx.nontrivial(i);
        damaged(ctx, as[d.k], b, "archive " + std::to_string(d.k) + " with " + std::to_string(d.v) + " at byte " + std::to_string(d.at));
    }, 32});
    // path helpers
    out.push_back({"archive paths", 1, [](uint64_t, Ctx &ctx) {
        wipe();
        put("dir/p.pak", pak({{"x/y.z", "data"}, {"t.map", "m"}}, false));
        put("dir/plain", "text");
        auto abs = sf::absolute("dir");
        struct Q
        {
            sf::path in, archive, file;
        };
        std::vector<Q> qs = {{"dir/p.pak/x/y.z", "dir/p.pak", "x/y.z"}, {abs / "p.pak/x/y.z", abs / "p.pak", "x/y.z"}, {"dir/p.pak", "", ""}, {"dir/nothing/x", "", ""}, {"dir/p.pak/t.map", "dir/p.pak", "t.map"},
            {"x/y.z", "", ""}, {"y", "", ""}, {"", "", ""}, {"dir/plain/q", "dir/plain", "q"}};
        for (auto &q : qs) {
            auto r = fs::splitArchivePath(q.in);
            ctx.nontrivial(hstr(q.in.string()));
            if (r.archive != q.archive || r.filename != q.file)
                ctx.fail("splitArchivePath", "'" + q.in.string() + "' is split into '" + r.archive.string() + "' and '" + r.filename.string() + "'");
            sf::path want = q.archive.empty() ? q.in : q.archive.parent_path() / q.file;
            if (fs::resolveArchivePath(q.in) != want)
                ctx.fail("resolveArchivePath", "'" + q.in.string() + "' resolves to '" + fs::resolveArchivePath(q.in).string() + "'");
        }
        for (auto &[in, ext, want] : std::vector<std::array<const char *, 3>>{{"a", ".map", "a.map"}, {"a.bsp", ".map", "a.bsp"}, {"d.x/a", ".map", "d.x/a.map"}, {"a.", ".map", "a."}, {"d/a.b.c", "prt", "d/a.b.c"}, {"d/a", "prt", "d/a.prt"}})
            if (DefaultExtension(in, ext) != sf::path(want))
                ctx.fail("DefaultExtension", std::string(in) + " becomes " + DefaultExtension(in, ext).string());
        // archives that do not exist, and a missing path with a present file name
        if (fs::addArchive("nowhere.pak") || fs::addArchive("") || fs::addArchive("dir/plain"))
            ctx.fail("addArchive", "something that is no archive is added");
        put("here.pak", pak({{"inhere", "yes"}}, false));
        if (!fs::addArchive("c:/gone/here.pak") || ask("inhere", false) != Bytes("yes"))
            ctx.fail("addArchive relative", "an archive lying in the working directory is not found by its name");
        if (ask("inhere", true) != Bytes("yes"))
            ctx.fail("addArchive relative", "not found with loose files first");
    }, 1});
    return out;
}
} // namespace
int main(int argc, char **argv)
{
    logging::mask = logging::flag::NONE;
    return main_(argc, argv, {{"F01", "exploration",
        "every subset of six places holding the file times every order of adding two directories, two paks and a wad, times plain, absolute, archive-relative and case-changed names, both priorities; every truncation and every header/directory word replaced by boundary values in 48 archives",
        {"archives: up to four entries", "damage: one word or one truncation at a time"},
        f01}});
}
