// V05: the visibility row codec
#include "visworld.hh"
#include <algorithm>
using namespace vw;
using namespace mc;

// the row a decoder must produce: decode until the row is full, the data ends, or
// a zero run of length zero; the rest stays zero
static std::vector<uint8_t> want(const std::vector<uint8_t> &in, size_t ofs, size_t n)
{
    std::vector<uint8_t> r(n, 0);
    size_t o = 0;
    while (o < n && ofs < in.size()) {
        uint8_t c = in[ofs++];
        if (c) {
            r[o++] = c;
            continue;
        }
        if (ofs >= in.size() || !in[ofs])
            break;
        o += in[ofs++];
    }
    return r;
}
static std::string hex(const std::vector<uint8_t> &v)
{
    std::string s;
    char b[4];
    for (size_t i = 0; i < v.size() && i < 64; i++) {
        snprintf(b, 4, "%02x ", v[i]);
        s += b;
    }
    return s;
}
static void roundtrip(const std::vector<uint8_t> &row, Ctx &ctx, const std::string &key)
{
    std::vector<uint8_t> exact(row); // exact-size heap block
    exact.shrink_to_fit();
    std::vector<uint8_t> c;
    CompressRow(exact.data(), exact.size(), std::back_inserter(c));
    ctx.count("rows");
    ctx.nontrivial(hbytes(row.data(), row.size(), row.size()));
    std::vector<uint8_t> back = want(c, 0, row.size());
    if (back != row) {
        ctx.fail(key, "row [" + hex(row) + "] compresses to [" + hex(c) + "], which decodes to [" + hex(back) + "]");
        return;
    }
    // nothing but this row in the compressed form: one byte less must lose something, unless the row is empty
    size_t end = 0;
    bool ok;
    decode_row(c, 0, row.size() * 8, &ok, &end);
    if (!row.empty() && (!ok || end != c.size()))
        ctx.fail(key, "row [" + hex(row) + "]: compressed form [" + hex(c) + "] does not end with the row");
    c.shrink_to_fit();
    std::vector<uint8_t> out(row.size(), 0);
    DecompressVis(c.data(), c.data() + c.size(), out.data(), out.data() + out.size());
    if (out != row)
        ctx.fail(key, "row [" + hex(row) + "] comes back as [" + hex(out) + "]");
}
static std::vector<Space> v05(Tier t)
{
    bool T = t == Tier::thorough;
    std::vector<Space> r;
    {
        int L = T ? 10 : 8;
        Space s;
        s.name = "short-rows";
        s.size = 4 * 4 * 4 * (L + 1);
        s.run = [=](uint64_t i, Ctx &ctx) {
            static const uint8_t sym[4] = {0, 1, 0x80, 255};
            Digits d(i);
            int len = d(L + 1);
            int pre[3] = {(int)d(4), (int)d(4), (int)d(4)};
            if (len < 3) {
                for (int k = len; k < 3; k++)
                    if (pre[k])
                        return;
            }
            uint64_t rest = 1;
            for (int k = 3; k < len; k++)
                rest *= 4;
            for (uint64_t j = 0; j < rest; j++) {
                std::vector<uint8_t> row(len);
                uint64_t v = j;
                for (int k = 0; k < len; k++)
                    if (k < 3)
                        row[k] = sym[pre[k]];
                    else {
                        row[k] = sym[v & 3];
                        v >>= 2;
                    }
                roundtrip(row, ctx, "short-rows");
            }
        };
        r.push_back(s);
    }
    {
        std::vector<int> z{0, 1, 2, 253, 254, 255, 256, 257, 258, 509, 510, 511, 512, 764, 765, 766};
        if (T)
            for (int k : {3, 100, 127, 128, 129, 252, 259, 508, 513, 1019, 1020, 1021, 1275, 1276})
                z.push_back(k);
        Space s;
        s.name = "runs";
        s.size = z.size() * z.size();
        s.run = [=](uint64_t i, Ctx &ctx) {
            int z1 = z[i % z.size()], z2 = z[i / z.size()];
            for (int z3 : {0, 1, 255, 256, 510, T ? 511 : 1})
                for (int a = 0; a < 3; a++)
                    for (int b = 0; b < 3; b++)
                        for (int c = 0; c < 3; c++) {
                            std::vector<uint8_t> row;
                            row.insert(row.end(), a, 0x81);
                            row.insert(row.end(), z1, 0);
                            row.insert(row.end(), b, 0xff);
                            row.insert(row.end(), z2, 0);
                            row.insert(row.end(), c, 1);
                            row.insert(row.end(), z3, 0);
                            roundtrip(row, ctx, "runs");
                        }
        };
        r.push_back(s);
    }
    {
        // every byte string as compressed data, every row length
        static const uint8_t sym[7] = {0, 1, 2, 3, 5, 254, 255};
        int L = T ? 7 : 6;
        Space s;
        s.name = "any-data";
        s.size = 7 * 7 * (L + 1);
        s.run = [=](uint64_t i, Ctx &ctx) {
            Digits d(i);
            int len = d(L + 1), p0 = d(7), p1 = d(7);
            if ((len < 1 && p0) || (len < 2 && p1))
                return;
            uint64_t rest = 1;
            for (int k = 2; k < len; k++)
                rest *= 7;
            for (uint64_t j = 0; j < rest; j++) {
                std::vector<uint8_t> in(len);
                uint64_t v = j;
                for (int k = 0; k < len; k++)
                    if (k == 0)
                        in[k] = sym[p0];
                    else if (k == 1)
                        in[k] = sym[p1];
                    else {
                        in[k] = sym[v % 7];
                        v /= 7;
                    }
                in.shrink_to_fit();
                ctx.nontrivial(hbytes(in.data(), in.size(), 77));
                for (int n : {0, 1, 2, 3, 4, 6, 7, 255, 256, 300}) {
                    std::vector<uint8_t> out(n, 0);
                    DecompressVis(in.data(), in.data() + in.size(), out.data(), out.data() + out.size());
                    ctx.count("damaged rows");
                    if (out != want(in, 0, n))
                        ctx.fail("any-data", "data [" + hex(in) + "] decodes to [" + hex(out) + "] for a row of " + std::to_string(n) + " bytes");
                }
            }
        };
        r.push_back(s);
    }
    {
        // DecompressAllVis over maps with any offsets
        Space s;
        s.name = "all-rows";
        s.size = 2 * 20 * (T ? 6 : 4);
        s.run = [=](uint64_t i, Ctx &ctx) {
            Digits d(i);
            bool q2 = d(2);
            static const int counts[] = {1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 255, 256, 257, 2040, 2050};
            int n = counts[d(20)], kind = d(T ? 6 : 4);
            mbsp_t b;
            b.loadversion = q2 ? &bspver_q2 : &bspver_q1;
            b.dmodels.emplace_back();
            b.dmodels[0].visleafs = n;
            std::vector<std::vector<uint8_t>> rows;
            std::vector<int> ofs;
            if (q2)
                b.dvis.resize(n);
            for (int k = 0; k < n; k++) {
                std::vector<uint8_t> row((n + 7) / 8);
                row[k / 8] |= 1 << (k % 8);
                if (kind & 1)
                    row[(n - 1) / 8] |= 1 << ((n - 1) % 8);
                if (kind & 2)
                    row[((k * 7) % n) / 8] |= 1 << (((k * 7) % n) % 8);
                rows.push_back(row);
                ofs.push_back(b.dvis.bits.size());
                CompressRow(row.data(), row.size(), std::back_inserter(b.dvis.bits));
            }
            if (kind >= 4)
                b.dvis.bits.resize(b.dvis.bits.size() / (kind - 2)); // cut short
            b.dvis.bits.shrink_to_fit();
            // whole offsets, then each special value in one leaf
            std::vector<int64_t> specials{INT32_MIN, -2, -1, 0, 1, (int64_t)b.dvis.bits.size() - 1, (int64_t)b.dvis.bits.size(), (int64_t)b.dvis.bits.size() + 1, INT32_MAX};
            for (int sp = -1; sp < (int)specials.size(); sp++)
                for (int at : {0, n / 2, n - 1}) {
                    std::vector<int64_t> o(ofs.begin(), ofs.end());
                    if (sp >= 0)
                        o[at] = specials[sp];
                    b.dleafs.clear();
                    b.dleafs.resize(n + 1);
                    b.dleafs[0].visofs = -1;
                    for (int k = 0; k < n; k++) {
                        if (q2)
                            b.dvis.bit_offsets[k] = {(int32_t)(o[k] + (int64_t)b.dvis.header_offset()), 0};
                        else
                            b.dleafs[k + 1].visofs = o[k];
                        b.dleafs[k + 1].cluster = k;
                    }
                    auto m = DecompressAllVis(&b, true);
                    ctx.count("maps decompressed");
                    ctx.nontrivial(hcomb(hcomb(i, sp), at));
                    std::string what = (q2 ? "Quake 2 map of " : "Quake map of ") + std::to_string(n) + " clusters, offset of " + std::to_string(at) + (sp < 0 ? " intact" : " = " + std::to_string(o[at]));
                    size_t expect = 0;
                    std::set<int64_t> seen;
                    for (int k = 0; k < n; k++) {
                        bool valid = o[k] >= 0 && o[k] < (int64_t)b.dvis.bits.size();
                        if (q2 && k == at && sp >= 0 && (int64_t)(int32_t)(o[k] + (int64_t)b.dvis.header_offset()) - (int64_t)b.dvis.header_offset() != o[k])
                            continue; // does not fit the field
                        int key = q2 ? k : (int)o[k];
                        if (!valid) {
                            if (m.count(key) && (q2 || o[k] < 0 || o[k] >= (int64_t)b.dvis.bits.size()))
                                ctx.fail("all-rows", what + ": a row is returned for an offset outside the data");
                            continue;
                        }
                        auto it = m.find(key);
                        if (it == m.end())
                            ctx.fail("all-rows", what + ": no row for " + std::to_string(k));
                        else if (it->second != want(b.dvis.bits, o[k], (n + 7) / 8))
                            ctx.fail("all-rows", what + ": row of " + std::to_string(k) + " is [" + hex(it->second) + "]");
                        else if (sp < 0 && kind < 4 && it->second != rows[k])
                            ctx.fail("all-rows", what + ": row of " + std::to_string(k) + " lost bits");
                        if (seen.insert(key).second)
                            expect++;
                    }
                }
            if (kind == 0 && n == 9)
                ctx.sample(std::string(q2 ? "q2" : "q1") + " map of 9 clusters, all offsets intact and each special value at first, middle, last");
        };
        r.push_back(s);
    }
    {
        // rows vis itself writes, over many cluster counts
        std::vector<int> counts;
        for (int k = 1; k <= 72; k++)
            counts.push_back(k);
        for (int k : {2031, 2032, 2033, 2039, 2040, 2041, 2047, 2048, 2049, 2056})
            counts.push_back(k);
        if (T)
            for (int k : {127, 128, 129, 255, 256, 257, 511, 512, 513, 4079, 4080, 4081, 4088, 4096, 4100, 6120, 6121})
                counts.push_back(k);
        Space s;
        s.name = "written-rows";
        s.size = counts.size() * 4;
        s.chunk = 4;
        s.case_timeout = 200;
        s.run = [=](uint64_t i, Ctx &ctx) {
            int n = counts[i / 4];
            bool q2 = i & 1, far = i & 2;
            if (n > 3000 && q2)
                return;
            // rooms in a row, no openings but one: between the first two, or the last two
            World w;
            w.nx = n;
            if (n > 1)
                w.add(far ? n - 2 : 0, 0, 0, 0, rect(16, 16, 48, 48));
            write_bsp("m.bsp", q2 ? &bspver_q2 : &bspver_bsp2, n);
            spit("m.prt", prt_text(w, transform(0)));
            Result v = run_vis("m", n, {"-noambient", "-nostate"});
            ctx.count("vis runs");
            ctx.nontrivial(hcomb(5, i));
            std::string what = std::to_string(n) + " rooms, one opening between the " + (far ? "last" : "first") + " two";
            if (v.threw || !v.bad.empty()) {
                ctx.fail("written-rows", what + ": " + v.error + v.bad);
                return;
            }
            for (int a = 0; a < n; a++) {
                std::set<int> e{a};
                int p = far ? n - 2 : 0;
                if (n > 1 && a == p)
                    e.insert(p + 1);
                if (n > 1 && a == p + 1)
                    e.insert(p);
                if (v.pvs[a] != e) {
                    ctx.fail("written-rows", what + ": row of room " + std::to_string(a) + " is wrong");
                    break;
                }
                if (q2 && v.phs[a] != e) {
                    ctx.fail("written-rows", what + ": PHS row of room " + std::to_string(a) + " is wrong");
                    break;
                }
            }
        };
        r.push_back(s);
    }
    return r;
}
int main(int argc, char **argv)
{
    logging::mask = logging::flag::NONE;
    return main_(argc, argv,
        {{"V05", "exploration",
            "every row up to a length over {0, 1, 0x80, 0xff}, every arrangement of three zero runs around multiples of 255; every compressed byte string up to a length over the significant bytes times row lengths; whole maps with every offset replaced by each boundary value; rows written by vis for many cluster counts; address sanitizer on, buffers exactly sized",
            {}, v05, 200, 3000}});
}
