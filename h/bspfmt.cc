// B01 (round trip), B02 (conversion), B03 (extension lumps), B04 (damage)
#include "bspspec.hh"
#include <algorithm>
#include <unistd.h>
using namespace bs;
using namespace mc;

static std::string num(Val v)
{
    std::ostringstream o;
    o.precision(12);
    o << v;
    return o.str();
}
// boundary values of a type
static std::vector<Val> edges_of(char t, bool wide)
{
    std::vector<Val> r;
    switch (t) {
        case 'b': r = {0, 1, 127, 128, 254, 255}; break;
        case 'h': r = {-32768, -32767, -2, -1, 0, 1, 255, 256, 32766, 32767}; break;
        case 'H': r = {0, 1, 255, 256, 32767, 32768, 65534, 65535}; break;
        case 'i': r = {-2147483648., -2147483647., -65537, -65536, -32769, -32768, -17, -16, -15, -2, -1, 0, 1, 32767, 32768, 65519, 65520, 65521, 65535, 65536, 2147483646., 2147483647.}; break;
        case 'I': r = {0, 1, 32767, 32768, 65534, 65535, 65536, 2147483647., 2147483648., 4294967294., 4294967295.}; break;
        case 'f':
            r = {0, -0.0, 1, -1, 0.5, -0.5, (double)0.1f, 1e-30f, -32768, -32768.5, -32769, 32767, 32767.25, 32768, 65535, 65536, 1e9f, -1e9f, (double)std::numeric_limits<float>::max(), -(double)std::numeric_limits<float>::max(), (double)std::numeric_limits<float>::denorm_min()};
            break;
    }
    (void)wide;
    return r;
}
static bool same_float(Val a, Val b) { return a == b && std::signbit(a) == std::signbit(b); }

// loads `file`, checks version, writes it, compares; through generic too
static void roundtrip(const Format &f, const Raw &raw, const std::string &key, const std::string &what, Ctx &ctx, const Raw *expect = nullptr)
{
    spit("a.bsp", to_file(f, raw));
    for (int via = 0; via < 2; via++) {
        bspdata_t d;
        fs::path p("a.bsp");
        try {
            LoadBSPFile(p, &d);
        } catch (const std::exception &e) {
            ctx.fail(key, what + ": refused: " + e.what());
            return;
        }
        if (d.version != f.ver) {
            ctx.fail(key, what + ": a " + f.name + " file is taken for " + d.version->name);
            return;
        }
        if (via) {
            if (!ConvertBSPFormat(&d, &bspver_generic)) {
                ctx.fail(key, what + ": cannot be converted to the internal form");
                return;
            }
            auto &m = std::get<mbsp_t>(d.bsp);
            for (auto &s : f.structs)
                for (size_t e = 0; e < raw.lumps[s.lumpnum].size() / s.size; e++)
                    for (auto &c : s.comps) {
                        Val v, w = get(raw.lumps[s.lumpnum], e * s.size + c.ofs, c.type);
                        if (s.lump == "clipnodes" && c.field == "children" && c.type == 'h') {
                            w = (double)(uint16_t)(int16_t)w; // unsigned above the contents range
                            if (w > 65520)
                                w -= 65536;
                        }
                        if (!generic_field(m, s.lump, e, c.field, c.index, v) || !same_float(v, w)) {
                            ctx.fail(key, what + ": " + s.lump + "[" + std::to_string(e) + "]." + c.field + "[" + std::to_string(c.index) + "] = " + num(w) + " is loaded as " + num(v));
                            return;
                        }
                    }
            if (!ConvertBSPFormat(&d, f.ver)) {
                ctx.fail(key, what + ": cannot be converted back from the internal form");
                return;
            }
        }
        if (via && f.q2) {
            // leaf ambient etc. do not exist; nothing to do
        }
        try {
            WriteBSPFile("b.bsp", &d);
        } catch (const std::exception &e) {
            ctx.fail(key, what + ": cannot be written again: " + e.what());
            return;
        }
        std::string out = slurp("b.bsp");
        Raw back;
        std::string bad = from_file(f, out, back);
        if (bad.empty())
            bad = difference(f, expect ? *expect : raw, back);
        if (!bad.empty()) {
            ctx.fail(key, what + (via ? " (through the internal form)" : "") + ": " + bad);
            return;
        }
        ctx.count("files written and compared");
        // once more: same bytes
        bspdata_t d2;
        fs::path p2("b.bsp");
        LoadBSPFile(p2, &d2);
        WriteBSPFile("c.bsp", &d2);
        // (the order of extension lumps is free)
        Raw again;
        bad = from_file(f, slurp("c.bsp"), again);
        if (bad.empty())
            bad = difference(f, back, again);
        if (bad.empty() && raw.bspx.size() < 2 && slurp("c.bsp") != out)
            bad = "bytes differ when written a second time";
        if (!bad.empty()) {
            ctx.fail(key, what + ", written twice: " + bad);
            return;
        }
    }
}
struct FieldRef
{
    size_t f, s, c;
};
static std::vector<FieldRef> all_fields()
{
    std::vector<FieldRef> r;
    auto &F = formats();
    for (size_t f = 0; f < F.size(); f++)
        for (size_t s = 0; s < F[f].structs.size(); s++)
            for (size_t c = 0; c < F[f].structs[s].comps.size(); c++) {
                if (F[f].structs[s].comps[c].field == "texture" && c % 8)
                    continue;
                r.push_back({f, s, c});
            }
    return r;
}
static std::vector<Space> b01(Tier t)
{
    bool T = t == Tier::thorough;
    std::vector<Space> r;
    auto fields = all_fields();
    {
        Space s;
        s.name = "fields";
        s.size = fields.size();
        s.chunk = 8;
        s.run = [=](uint64_t i, Ctx &ctx) {
            auto &R = fields[i];
            auto &f = formats()[R.f];
            auto &st = f.structs[R.s];
            auto &c = st.comps[R.c];
            auto vals = edges_of(c.type, true);
            int n = T ? 3 : 2;
            for (auto v : vals)
                for (int e = 0; e < (st.lump == "models" ? (T ? 2 : 1) : n); e++) {
                    Raw raw = base_raw(f, n, T ? 2 : 1);
                    put(raw.lumps[st.lumpnum], e * st.size + c.ofs, c.type, v);
                    ctx.nontrivial(hcomb(hcomb(i, hstr(num(v))), e));
                    roundtrip(f, raw, f.name + "/" + st.lump + "." + c.field, f.name + " with " + st.lump + "[" + std::to_string(e) + "]." + c.field + "[" + std::to_string(c.index) + "] = " + num(v), ctx);
                }
            if (i == 5)
                ctx.sample(f.name + " " + st.lump + "." + c.field + " at " + std::to_string(vals.size()) + " boundary values");
        };
        r.push_back(s);
    }
    {
        // sizes: each lump with 0..n elements, all others present; all lumps empty; byte lumps of every length
        Space s;
        s.name = "sizes";
        s.size = formats().size() * 20;
        s.chunk = 4;
        s.run = [=](uint64_t i, Ctx &ctx) {
            auto &f = formats()[i / 20];
            int l = i % 20;
            if (l == 19) {
                for (int n = 0; n < (T ? 40 : 9); n++) {
                    ctx.nontrivial(hcomb(i, n));
                    Raw raw = base_raw(f, n, 1);
                    roundtrip(f, raw, f.name + "/size", f.name + " with " + std::to_string(n) + " elements in every lump", ctx);
                }
                return;
            }
            if (l >= f.nlumps)
                return;
            std::string name;
            for (auto &[k, v] : f.lumpnum)
                if (v == l)
                    name = k;
            auto *st = find_struct(f, name);
            for (int n = 0; n < (T ? 70 : 18); n++) {
                Raw raw = base_raw(f, 2, 1), ex;
                std::string &b = raw.lumps[l];
                bool other = false;
                if (st) {
                    if (name == "models" && n > 3)
                        break; // format detection has its own space
                    if (name == "models" && f.h2 && n == 0)
                        continue; // nothing tells the formats apart
                    b = base_raw(f, n, n).lumps[l];
                } else if (name == "entities") {
                    b.assign(n, 'x');
                    b += '\0';
                    other = n == 0;
                } else if (name == "lighting" || (name == "visibility" && !f.q2)) {
                    b.resize(n);
                    for (int k = 0; k < n; k++)
                        b[k] = k * 7 + 1;
                } else if (name == "visibility") {
                    for (int clusters = 1; clusters < 4; clusters++) {
                        b.clear();
                        add32(b, clusters);
                        for (int k = 0; k < clusters * 2; k++)
                            add32(b, 4 + 8 * clusters + (k * n) % (n + 1));
                        for (int k = 0; k < n; k++)
                            b += (char)(k + 9);
                        ctx.nontrivial(hcomb(hcomb(i, n), clusters));
                        roundtrip(f, raw, f.name + "/visibility", f.name + " with " + std::to_string(clusters) + " clusters and " + std::to_string(n) + " bytes of visibility", ctx);
                    }
                    b.clear();
                    if (n)
                        continue;
                } else
                    continue;
                (void)other;
                ctx.nontrivial(hcomb(i, n));
                roundtrip(f, raw, f.name + "/" + name, f.name + " with " + std::to_string(n) + " elements in " + name, ctx);
            }
        };
        r.push_back(s);
    }
    {
        // textures: every list of up to 3 (4) entries over {missing, sizes}
        int kinds = 7, len = T ? 4 : 3;
        uint64_t per = 0, k = 1;
        for (int i = 0; i <= len; i++, k *= kinds)
            per += k;
        Space s;
        s.name = "textures";
        s.size = 4 * per;
        s.chunk = 32;
        s.run = [=](uint64_t i, Ctx &ctx) {
            static const int fi[4] = {0, 2, 3, 4};
            auto &f = formats()[fi[i / per]];
            uint64_t v = i % per;
            int n = 0;
            uint64_t k = 1;
            while (v >= k) {
                v -= k;
                k *= kinds;
                n++;
            }
            std::vector<Miptex> in, out;
            for (int j = 0; j < n; j++) {
                int kind = v % kinds;
                v /= kinds;
                static const int extra[7] = {0, 0, 1, 2, 3, 4, 85};
                Miptex m;
                if (kind == 0)
                    m.null = true;
                else
                    m = miptex(kind == 1 ? "exactly15chars_" : kind == 2 ? "" : "tex" + std::to_string(j), 16 << j, 8 + kind, extra[kind]);
                in.push_back(m);
            }
            Raw raw = base_raw(f);
            raw.lumps[f.lumpnum.at("textures")] = miptex_lump(in);
            ctx.nontrivial(i);
            roundtrip(f, raw, f.name + "/textures", f.name + " with textures, case " + std::to_string(i), ctx);
            // names and sizes as loaded
            bspdata_t d;
            fs::path p("a.bsp");
            LoadBSPFile(p, &d);
            ConvertBSPFormat(&d, &bspver_generic);
            auto &m = std::get<mbsp_t>(d.bsp);
            if (m.dtex.textures.size() != in.size()) {
                ctx.fail(f.name + "/textures", "wrong number of textures");
                return;
            }
            for (size_t j = 0; j < in.size(); j++) {
                auto &x = m.dtex.textures[j];
                bool ok = x.null_texture == in[j].null;
                if (ok && !in[j].null) {
                    std::string nm(in[j].data.data(), strnlen(in[j].data.data(), 16));
                    ok = x.name == nm && x.width == get32(in[j].data, 16) && x.height == get32(in[j].data, 20) && (int)get32(in[j].data, 24) == x.offsets[0] && (int)get32(in[j].data, 36) == x.offsets[3] &&
                         x.data.size() >= in[j].data.size() && x.data.size() < in[j].data.size() + 4 && !memcmp(x.data.data(), in[j].data.data(), in[j].data.size());
                }
                if (!ok)
                    ctx.fail(f.name + "/textures", "texture " + std::to_string(j) + " of case " + std::to_string(i) + " is loaded as " + x.name + " " + std::to_string(x.width) + "x" + std::to_string(x.height));
            }
        };
        r.push_back(s);
    }
    {
        // lump order in the file is free
        Space s;
        s.name = "lump-order";
        s.size = formats().size() * 19;
        s.chunk = 8;
        s.run = [=](uint64_t i, Ctx &ctx) {
            auto &f = formats()[i / 19];
            int rot = i % 19;
            if (rot >= f.nlumps)
                return;
            for (int rev = 0; rev < 2; rev++) {
                std::vector<int> order;
                for (int k = 0; k < f.nlumps; k++)
                    order.push_back((k + rot) % f.nlumps);
                if (rev)
                    std::reverse(order.begin(), order.end());
                Raw raw = base_raw(f);
                raw.bspx.push_back({"EXTRA", "12345"});
                spit("a.bsp", to_file(f, raw, &order));
                bspdata_t d;
                fs::path p("a.bsp");
                LoadBSPFile(p, &d);
                WriteBSPFile("b.bsp", &d);
                Raw back;
                std::string bad = from_file(f, slurp("b.bsp"), back);
                if (bad.empty())
                    bad = difference(f, raw, back);
                ctx.nontrivial(hcomb(i, rev));
                if (!bad.empty())
                    ctx.fail(f.name + "/order", f.name + " with lumps rotated by " + std::to_string(rot) + ": " + bad);
            }
        };
        r.push_back(s);
    }
    {
        // Quake or Hexen II?  every model count, plausible contents
        Space s;
        s.name = "which-game";
        s.size = 6 * (T ? 80 : 24);
        s.chunk = 2;
        s.run = [=](uint64_t i, Ctx &ctx) {
            static const int fi[6] = {0, 1, 2, 4, 5, 6};
            auto &f = formats()[fi[i % 6]];
            int models = i / 6 + 1;
            for (int clip = 0; clip < 2; clip++)
                for (int box = 0; box < 64; box++)
                    for (int faces = 0; faces < 3; faces++) {
                        bool flat = false; // a model has an extent on every axis
                        for (int a = 0; a < 3; a++)
                            if (!(box >> a & 1) && !(box >> (a + 3) & 1))
                                flat = true;
                        if (flat)
                            continue;
                        Raw raw = base_raw(f, 6 * models, models);
                        auto *ms = find_struct(f, "models");
                        std::string &b = raw.lumps[ms->lumpnum];
                        for (int m = 0; m < models; m++)
                            for (auto &c : ms->comps) {
                                Val v = 0;
                                if (c.field == "mins")
                                    v = box >> c.index & 1 ? -16 * (m + 1) : 0;
                                else if (c.field == "maxs")
                                    v = box >> (c.index + 3) & 1 ? 16 * (m + 1) : 0;
                                else if (c.field == "headnode")
                                    v = c.index == 0 ? 2 * m : (clip && c.index < (f.h2 ? 6 : 3)) ? 2 * m + c.index : 0;
                                else if (c.field == "visleafs")
                                    v = m ? 0 : 3;
                                else if (c.field == "firstface")
                                    v = faces == 0 ? 0 : faces == 1 ? 6 * m : m;
                                else if (c.field == "numfaces")
                                    v = faces == 0 ? 0 : faces == 1 ? 6 : 1;
                                put(b, m * ms->size + c.ofs, c.type, v);
                            }
                        if (!clip)
                            raw.lumps[f.lumpnum.at("clipnodes")].clear();
                        ctx.nontrivial(hcomb(hcomb(hcomb(i, clip), box), faces));
                        ctx.count("maps classified");
                        spit("a.bsp", to_file(f, raw));
                        bspdata_t d;
                        fs::path p("a.bsp");
                        LoadBSPFile(p, &d);
                        if (d.version != f.ver)
                            ctx.fail(f.name + "/which-game/" + (clip ? "clip" : "noclip") + (faces == 0 ? "/nofaces" : ""), f.name + " with " + std::to_string(models) + " models (bounds variant " + std::to_string(box) + ", faces " + std::to_string(faces) + (clip ? "" : ", no clip nodes") + ") is taken for " + d.version->name);
                    }
        };
        r.push_back(s);
    }
    return r;
}

// ---------------------------------------------------------------- B02
static std::vector<Space> b02(Tier t)
{
    bool T = t == Tier::thorough;
    std::vector<Space> r;
    // from the widest format of a family into each other one and back
    struct Job
    {
        size_t from, to, s, c;
    };
    std::vector<Job> jobs;
    auto &F = formats();
    for (size_t a = 0; a < F.size(); a++)
        for (size_t b = 0; b < F.size(); b++)
            if (a != b && F[a].family == F[b].family)
                for (size_t s = 0; s < F[a].structs.size(); s++)
                    for (size_t c = 0; c < F[a].structs[s].comps.size(); c++)
                        if (!(F[a].structs[s].comps[c].field == "texture" && c % 8))
                            jobs.push_back({a, b, s, c});
    Space s;
    s.name = "pairs";
    s.size = jobs.size();
    s.chunk = 8;
    s.run = [=](uint64_t i, Ctx &ctx) {
        auto &F = formats();
        auto &A = F[jobs[i].from], &B = F[jobs[i].to];
        auto &st = A.structs[jobs[i].s];
        auto &c = st.comps[jobs[i].c];
        auto *tst = find_struct(B, st.lump);
        const Comp *tc = nullptr;
        for (auto &x : tst->comps)
            if (x.field == c.field && x.index == c.index)
                tc = &x;
        if (!tc)
            return;
        bool bounds = c.field == "mins" || c.field == "maxs";
        for (auto v : edges_of(c.type, true))
            for (int e = 0; e < (st.lump == "models" ? 1 : T ? 3 : 2); e++) {
                Raw raw = base_raw(A, T ? 3 : 2, 1);
                put(raw.lumps[st.lumpnum], e * st.size + c.ofs, c.type, v);
                std::string what = A.name + " to " + B.name + " with " + st.lump + "[" + std::to_string(e) + "]." + c.field + "[" + std::to_string(c.index) + "] = " + num(v);
                std::string key = A.name + ">" + B.name + "/" + st.lump + "." + c.field;
                // what the value means, and whether the target can hold it
                Val w = v;
                bool clipc = st.lump == "clipnodes" && c.field == "children";
                if (clipc && c.type == 'h') {
                    w = (double)(uint16_t)(int16_t)v;
                    if (w > 65520)
                        w -= 65536;
                }
                Val x = w;
                bool fits;
                if (clipc && tc->type == 'h') {
                    fits = x >= -15 && x <= 65520;
                    if (x > 32767)
                        x -= 65536;
                } else {
                    if (tc->type != 'f' && c.type == 'f')
                        x = c.field == "mins" ? std::floor(x) : std::ceil(x);
                    fits = x >= lo(tc->type) && x <= hi(tc->type);
                }
                ctx.count(fits ? "conversions that fit" : "conversions to refuse");
                ctx.nontrivial(hcomb(hcomb(i, hstr(num(v))), e));
                spit("a.bsp", to_file(A, raw));
                bspdata_t d;
                fs::path p("a.bsp");
                LoadBSPFile(p, &d);
                ConvertBSPFormat(&d, &bspver_generic);
                bool ok;
                try {
                    ok = ConvertBSPFormat(&d, B.ver);
                } catch (const std::exception &ex) {
                    ok = false;
                }
                if (ok != fits) {
                    if (ok) {
                        WriteBSPFile("b.bsp", &d);
                        Raw back;
                        from_file(B, slurp("b.bsp"), back);
                        ctx.fail(key, what + ": does not fit but is stored as " + num(get(back.lumps[tst->lumpnum], e * tst->size + tc->ofs, tc->type)));
                    } else
                        ctx.fail(key, what + ": fits, but the conversion is refused");
                    continue;
                }
                if (!ok)
                    continue;
                WriteBSPFile("b.bsp", &d);
                // expected file
                Raw want = base_raw(B, T ? 3 : 2, 1), back;
                put(want.lumps[tst->lumpnum], e * tst->size + tc->ofs, tc->type, x);
                std::string bad = from_file(B, slurp("b.bsp"), back);
                if (bad.empty()) // note: base values are the same in every format
                    bad = difference(B, want, back);
                if (!bad.empty()) {
                    ctx.fail(key, what + ": " + bad);
                    continue;
                }
                // and back
                bspdata_t d2;
                fs::path p2("b.bsp");
                LoadBSPFile(p2, &d2);
                ConvertBSPFormat(&d2, &bspver_generic);
                if (!ConvertBSPFormat(&d2, A.ver)) {
                    ctx.fail(key, what + ": cannot be converted back");
                    continue;
                }
                WriteBSPFile("c.bsp", &d2);
                Raw exp = raw;
                if (bounds && tc->type != 'f' && c.type == 'f')
                    put(exp.lumps[st.lumpnum], e * st.size + c.ofs, c.type, x == 0 ? 0.0 : x);
                bad = from_file(A, slurp("c.bsp"), back);
                if (bad.empty())
                    bad = difference(A, exp, back);
                if (!bad.empty())
                    ctx.fail(key, what + ", and back: " + bad);
            }
        if (i == 11)
            ctx.sample(A.name + " to " + B.name + ": " + st.lump + "." + c.field);
    };
    r.push_back(s);
    return r;
}

// ---------------------------------------------------------------- B03
static std::vector<Space> b03(Tier t)
{
    bool T = t == Tier::thorough;
    std::vector<Space> r;
    static const std::vector<std::string> names{"A", "RGBLIGHTING", "LIGHTINGDIR", "LMSHIFT", "twenty-three-characters", "lower case", "A", "\xff\x01"};
    std::vector<int> sizes{0, 1, 2, 3, 4, 5, 40};
    {
        // every sequence of up to 3 lumps over names x sizes
        int k = names.size() * sizes.size();
        int L = T ? 3 : 2;
        uint64_t per = 0, m = 1;
        for (int i = 0; i <= L; i++, m *= k)
            per += m;
        Space s;
        s.name = "lists";
        s.size = per * (T ? 2 : formats().size());
        s.chunk = 64;
        s.run = [=](uint64_t i, Ctx &ctx) {
            auto &F = formats();
            auto &f = T ? F[i / per ? 0 : F.size() - 2] : F[i / per];
            uint64_t v = i % per, m = 1;
            int n = 0;
            while (v >= m) {
                v -= m;
                m *= k;
                n++;
            }
            Raw raw = base_raw(f, 1), ex;
            std::string what = f.name + " with extension lumps";
            for (int j = 0; j < n; j++) {
                int a = v % k;
                v /= k;
                std::string data;
                for (int b = 0; b < sizes[a % sizes.size()]; b++)
                    data += (char)(b * 11 + j + 1);
                raw.bspx.push_back({names[a / sizes.size()], data});
                what += " " + names[a / sizes.size()] + "(" + std::to_string(data.size()) + ")";
            }
            ex = raw;
            ex.bspx.clear();
            for (auto &x : raw.bspx) { // the last one of a name counts
                bool later = false;
                for (auto &y : raw.bspx)
                    if (&y > &x && y.first == x.first)
                        later = true;
                if (!later)
                    ex.bspx.push_back(x);
            }
            ctx.nontrivial(i);
            ctx.count("lists");
            roundtrip(f, raw, f.name + "/bspx", what, ctx, &ex);
        };
        r.push_back(s);
    }
    {
        // damaged directory: each field of a directory of two replaced; entries that remain must be exact
        Space s;
        s.name = "damaged";
        s.size = 3 * 18 * 16;
        s.chunk = 16;
        s.run = [=](uint64_t i, Ctx &ctx) {
            Digits d(i);
            static const int fi[3] = {0, 2, 7};
            auto &f = formats()[fi[d(3)]];
            int field = d(18), vi = d(16);
            Raw raw = base_raw(f, 1);
            std::string dx = "first data", dy = "second, longer data.";
            raw.bspx = {{"FIRST", dx}, {"SECOND", dy}};
            std::string file = to_file(f, raw);
            size_t h = file.find("BSPX");
            // field 0: id, 1: count, 2..9: lump 0 (6 words of name, ofs, len), 10..17: lump 1
            size_t at = h + 4 * field;
            uint32_t orig = get32(file, at), size = file.size();
            const uint32_t vals[16] = {0, 1, 2, 3, 4, size - 1, size, size + 1, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff0, orig + 1, orig - 1, 0x41414141, (uint32_t)-(int)orig};
            put32(file, at, vals[vi]);
            spit("a.bsp", file);
            ctx.nontrivial(i);
            ctx.count("damaged directories");
            std::string what = f.name + " with word " + std::to_string(field) + " of the extension directory = " + std::to_string(vals[vi]);
            std::string key = f.name + "/damaged-directory";
            bspdata_t data;
            fs::path p("a.bsp");
            try {
                LoadBSPFile(p, &data);
            } catch (const std::exception &e) {
                return; // refused
            }
            for (auto &[name, bytes] : data.bspx.entries) {
                // must be an entry of the directory as it is now, with exactly its bytes
                bool ok = false;
                for (uint32_t k = 0; k < std::min<uint32_t>(get32(file, h + 4), 64) && h + 8 + 32 * k + 32 <= file.size(); k++) {
                    size_t o = h + 8 + 32 * k;
                    std::string nm(&file[o], strnlen(&file[o], 24));
                    uint64_t ofs = get32(file, o + 24), len = get32(file, o + 28);
                    if (nm == name && ofs + len <= file.size() && std::string(bytes.begin(), bytes.end()) == file.substr(ofs, len))
                        ok = true;
                }
                if (!ok)
                    ctx.fail(key, what + ": lump '" + name + "' of " + std::to_string(bytes.size()) + " bytes is not in the directory");
            }
        };
        r.push_back(s);
    }
    return r;
}

// ---------------------------------------------------------------- B04
static const std::vector<size_t> &b04_formats()
{
    static const std::vector<size_t> v{0, 1, 2, 3, 4, 6, 7, 8};
    return v;
}
static Raw b04_raw(const Format &f, int variant)
{
    Raw r = base_raw(f, variant ? 2 : 1, variant && !f.q2 ? (f.h2 ? 4 : 5) : 1);
    if (variant)
        r.bspx = {{"RGBLIGHTING", "abcdefg"}, {"X", ""}};
    if (variant && !f.q2) { // models small enough to pass for either game
        for (auto &c : r.lumps[f.lumpnum.at("models")])
            c = 0;
    }
    return r;
}
static void try_load(const std::string &file, Ctx &ctx, const std::string &)
{
    spit("a.bsp", file);
    bspdata_t d;
    fs::path p("a.bsp");
    ctx.count("damaged files");
    try {
        LoadBSPFile(p, &d);
        const bspversion_t *v = d.version;
        ConvertBSPFormat(&d, &bspver_generic);
        ConvertBSPFormat(&d, v);
        PrintBSPFileSizes(&d);
        WriteBSPFile("b.bsp", &d);
        ctx.count("loaded nevertheless");
    } catch (const std::exception &e) {
    }
}
static std::vector<Space> b04(Tier t)
{
    bool T = t == Tier::thorough;
    std::vector<Space> r;
    size_t nf = b04_formats().size();
    {
        Space s;
        s.name = "cut-short";
        s.size = nf * 2 * 64;
        s.chunk = 4;
        s.run = [=](uint64_t i, Ctx &ctx) {
            Digits d(i);
            auto &f = formats()[b04_formats()[d(nf)]];
            int variant = d(2), part = d(64);
            std::string file = to_file(f, b04_raw(f, variant));
            for (size_t n = part; n < file.size(); n += 64) {
                ctx.nontrivial(hcomb(hcomb(f.nlumps * 7 + f.ident, variant), n));
                try_load(file.substr(0, n), ctx, f.name);
            }
        };
        r.push_back(s);
    }
    auto values = [](uint32_t orig, uint32_t size, uint32_t rel) {
        return std::vector<uint32_t>{0, 1, 2, 3, 4, 39, 64, orig - 1, orig + 1, orig + 4, orig * 2, size - 1, size, size + 1, size - rel, size - rel + 1, 0x7fffffff, 0x7fffffe0, 0x40000000, 0x80000000, 0xffffffff, 0xfffffff8, 0xfffffff0, 0u - rel, 0u - orig};
    };
    {
        // every header word
        Space s;
        s.name = "header";
        s.size = nf * 2 * 40;
        s.chunk = 4;
        s.run = [=](uint64_t i, Ctx &ctx) {
            Digits d(i);
            auto &f = formats()[b04_formats()[d(nf)]];
            int variant = d(2), w = d(40);
            std::string file = to_file(f, b04_raw(f, variant));
            if (w >= (f.q2 ? 2 : 1) + 2 * f.nlumps)
                return;
            size_t dir = f.q2 ? 8 : 4;
            uint32_t orig = get32(file, 4 * w);
            uint32_t rel = 4 * w < (int)dir ? 0 : (4 * w - dir) % 8 ? get32(file, 4 * w - 4) : get32(file, 4 * w + 4);
            for (auto v : values(orig, file.size(), rel)) {
                std::string g = file;
                put32(g, 4 * w, v);
                ctx.nontrivial(hcomb(i, v));
                try_load(g, ctx, f.name);
            }
        };
        r.push_back(s);
    }
    {
        // offset and length of one lump together
        Space s;
        s.name = "lump-extents";
        s.size = nf * 2 * 19;
        s.chunk = 2;
        s.run = [=](uint64_t i, Ctx &ctx) {
            Digits d(i);
            auto &f = formats()[b04_formats()[d(nf)]];
            int variant = d(2), l = d(19);
            if (l >= f.nlumps)
                return;
            std::string file = to_file(f, b04_raw(f, variant));
            size_t o = (f.q2 ? 8 : 4) + 8 * l;
            for (auto a : values(get32(file, o), file.size(), get32(file, o + 4)))
                for (auto b : values(get32(file, o + 4), file.size(), a)) {
                    std::string g = file;
                    put32(g, o, a);
                    put32(g, o + 4, b);
                    ctx.nontrivial(hcomb(hcomb(i, a), b));
                    try_load(g, ctx, f.name);
                }
        };
        r.push_back(s);
    }
    {
        // words inside the structured lumps: textures (count, offsets, header) and visibility (count, offsets), extension directory
        Space s;
        s.name = "inner";
        s.size = nf * 2 * 3 * 20;
        s.chunk = 4;
        s.run = [=](uint64_t i, Ctx &ctx) {
            Digits d(i);
            auto &f = formats()[b04_formats()[d(nf)]];
            int variant = d(2), which = d(3), w = d(20);
            std::string file = to_file(f, b04_raw(f, variant));
            size_t base;
            if (which == 0) {
                if (f.q2)
                    return;
                base = get32(file, 4 + 8 * f.lumpnum.at("textures"));
            } else if (which == 1) {
                if (!f.q2)
                    return;
                base = get32(file, 8 + 8 * f.lumpnum.at("visibility"));
            } else {
                base = file.find("BSPX");
                if (base == std::string::npos)
                    return;
            }
            if (base + 4 * w + 4 > file.size())
                return;
            uint32_t orig = get32(file, base + 4 * w);
            auto vs = values(orig, file.size(), base);
            if (T)
                for (int k = 0; k < 200; k++)
                    vs.push_back(k);
            vs.push_back(0x41414141);
            for (auto v : vs) {
                std::string g = file;
                put32(g, base + 4 * w, v);
                ctx.nontrivial(hcomb(i, v));
                try_load(g, ctx, f.name);
                // and with all texture name bytes set
                if (which == 0 && w >= 3 && w <= 6) {
                    for (int k = 3; k <= 8; k++)
                        put32(g, base + 4 * k, v | 0x01010101);
                    try_load(g, ctx, f.name);
                }
            }
        };
        r.push_back(s);
    }
    if (T) {
        // two header words at once
        Space s;
        s.name = "two-words";
        s.size = 4 * 40 * 40;
        s.chunk = 2;
        s.run = [=](uint64_t i, Ctx &ctx) {
            Digits d(i);
            static const int fi[4] = {0, 2, 4, 7};
            auto &f = formats()[fi[d(4)]];
            int a = d(40), b = d(40);
            std::string file = to_file(f, b04_raw(f, 1));
            int words = (f.q2 ? 2 : 1) + 2 * f.nlumps;
            if (a >= b || b >= words)
                return;
            uint32_t sz = file.size();
            for (uint32_t x : {0u, 1u, sz - 1, sz, sz + 1, 0x7fffffffu, 0x80000000u, 0xffffffffu})
                for (uint32_t y : {0u, 1u, sz - 1, sz, sz + 1, 0x7fffffffu, 0x80000000u, 0xffffffffu}) {
                    std::string g = file;
                    put32(g, 4 * a, x);
                    put32(g, 4 * b, y);
                    ctx.nontrivial(hcomb(hcomb(i, x), y));
                    try_load(g, ctx, f.name);
                }
        };
        r.push_back(s);
    }
    return r;
}

int main(int argc, char **argv)
{
    logging::mask = logging::flag::NONE;
    return main_(argc, argv,
        {{"B01", "exploration", "every field of every lump structure of every format at each boundary value of its type, in each of several elements; every lump at many sizes; every short texture list; rotated lump orders; every model count for the Quake / Hexen II distinction. Files are made and compared by an independent description of the formats", {}, b01, 200, 3000},
            {"B02", "exploration", "every field times its boundary values, converted between every ordered pair of formats of one game and back; the expected target file or refusal comes from an independent description", {}, b02, 200, 3000},
            {"B03", "exploration", "every list of up to 2 (3) extension lumps over names and sizes; every directory word replaced by boundary values", {}, b03, 200, 3000},
            {"B04", "exploration", "every truncation, every header word at boundary values, offset/length pairs, words inside structured lumps; address and undefined-behaviour sanitizers on", {"out of memory is not explored"}, b04, 200, 3000}});
}
