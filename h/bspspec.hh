// An independent description of the BSP file formats: field layouts per lump,
// a writer and a reader of raw files, and where each field lands in mbsp_t.
#pragma once
#include <mc/explore.hh>
#include <common/bspfile.hh>
#include <common/bsputils.hh>
#include <common/cmdlib.hh>
#include <common/log.hh>
#include <array>
#include <cmath>
#include <cstring>
#include <fstream>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace bs
{
inline std::string slurp(const std::string &p)
{
    std::ifstream f(p, std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    return ss.str();
}
inline void spit(const std::string &p, const std::string &s)
{
    std::ofstream f(p, std::ios::binary);
    f << s;
}
// types: b u8, h i16, H u16, i i32, I u32, f float, c char[32] (as 32 x b)
struct Comp
{
    std::string field;
    int index; // component within the field
    char type;
    int ofs;
};
inline int tsize(char t) { return t == 'b' ? 1 : (t == 'h' || t == 'H') ? 2 : 4; }
struct StructSpec
{
    std::string lump;
    int lumpnum = -1;
    int size = 0;
    std::vector<Comp> comps;
};
struct Format
{
    std::string name;
    const bspversion_t *ver;
    int32_t ident;
    bool q2;
    int32_t version = 0; // q2 only
    int nlumps;
    std::vector<StructSpec> structs;
    std::map<std::string, int> lumpnum; // all lumps by name
    bool h2 = false;
    std::string family;
};
inline StructSpec parse_spec(const std::string &lump, const std::string &text)
{
    StructSpec s;
    s.lump = lump;
    std::istringstream in(text);
    std::string w;
    while (in >> w) {
        auto c = w.find(':');
        std::string f = w.substr(0, c);
        char t = w[c + 1];
        int n = w.size() > c + 2 ? std::stoi(w.substr(c + 2)) : 1;
        for (int i = 0; i < n; i++) {
            s.comps.push_back({f, i, t, s.size});
            s.size += tsize(t);
        }
    }
    return s;
}
inline const std::vector<Format> &formats()
{
    static const std::vector<Format> all = [] {
        std::vector<Format> r;
        std::vector<std::string> q1l{"entities", "planes", "textures", "vertexes", "visibility", "nodes", "texinfo", "faces", "lighting", "clipnodes", "leafs", "marksurfaces", "edges", "surfedges", "models"};
        std::vector<std::string> q2l{"entities", "planes", "vertexes", "visibility", "nodes", "texinfo", "faces", "lighting", "leafs", "marksurfaces", "leafbrushes", "edges", "surfedges", "models", "brushes", "brushsides", "pop", "areas", "areaportals"};
        auto make = [&](const char *name, const bspversion_t *v, const char *family, int32_t ident, bool q2, std::map<std::string, std::string> sp) {
            Format f;
            f.name = name;
            f.ver = v;
            f.family = family;
            f.ident = ident;
            f.q2 = q2;
            f.version = q2 ? 38 : 0;
            auto &l = q2 ? q2l : q1l;
            f.nlumps = l.size();
            for (size_t i = 0; i < l.size(); i++)
                f.lumpnum[l[i]] = i;
            sp["planes"] = "normal:f3 dist:f type:i";
            sp["vertexes"] = "pos:f3";
            sp["surfedges"] = "v:i";
            for (auto &[k, t] : sp) {
                auto s = parse_spec(k, t);
                s.lumpnum = f.lumpnum.at(k);
                f.structs.push_back(s);
            }
            r.push_back(f);
        };
        const char *node29 = "planenum:i children:h2 mins:h3 maxs:h3 firstface:H numfaces:H";
        const char *node2 = "planenum:i children:i2 mins:f3 maxs:f3 firstface:I numfaces:I";
        const char *noderm = "planenum:i children:i2 mins:h3 maxs:h3 firstface:I numfaces:I";
        const char *nodeq2 = "planenum:i children:i2 mins:h3 maxs:h3 firstface:H numfaces:H";
        const char *clip29 = "planenum:i children:h2", *clip2 = "planenum:i children:i2";
        const char *face29 = "planenum:h side:h firstedge:i numedges:h texinfo:h styles:b4 lightofs:i";
        const char *face2 = "planenum:i side:i firstedge:i numedges:i texinfo:i styles:b4 lightofs:i";
        const char *faceq2 = "planenum:H side:h firstedge:i numedges:h texinfo:h styles:b4 lightofs:i";
        const char *faceqb = "planenum:I side:i firstedge:i numedges:i texinfo:i styles:b4 lightofs:i";
        const char *leaf29 = "contents:i visofs:i mins:h3 maxs:h3 firstmark:H nummark:H ambient:b4";
        const char *leafrm = "contents:i visofs:i mins:h3 maxs:h3 firstmark:I nummark:I ambient:b4";
        const char *leaf2 = "contents:i visofs:i mins:f3 maxs:f3 firstmark:I nummark:I ambient:b4";
        const char *leafq2 = "contents:i cluster:h area:h mins:h3 maxs:h3 firstmark:H nummark:H firstbrush:H numbrush:H";
        const char *leafqb = "contents:i cluster:i area:i mins:f3 maxs:f3 firstmark:I nummark:I firstbrush:I numbrush:I";
        const char *mq1 = "mins:f3 maxs:f3 origin:f3 headnode:i4 visleafs:i firstface:i numfaces:i";
        const char *mh2 = "mins:f3 maxs:f3 origin:f3 headnode:i8 visleafs:i firstface:i numfaces:i";
        const char *mq2 = "mins:f3 maxs:f3 origin:f3 headnode:i firstface:i numfaces:i";
        const char *ti1 = "vecs:f8 miptex:i flags:i", *ti2 = "vecs:f8 flags:i value:i texture:b32 next:i";
        std::map<std::string, std::string> b29{{"nodes", node29}, {"clipnodes", clip29}, {"faces", face29}, {"leafs", leaf29}, {"marksurfaces", "v:H"}, {"edges", "v:H2"}, {"texinfo", ti1}};
        std::map<std::string, std::string> brm{{"nodes", noderm}, {"clipnodes", clip2}, {"faces", face2}, {"leafs", leafrm}, {"marksurfaces", "v:I"}, {"edges", "v:I2"}, {"texinfo", ti1}};
        std::map<std::string, std::string> b2{{"nodes", node2}, {"clipnodes", clip2}, {"faces", face2}, {"leafs", leaf2}, {"marksurfaces", "v:I"}, {"edges", "v:I2"}, {"texinfo", ti1}};
        auto with = [](std::map<std::string, std::string> m, const char *models) {
            m["models"] = models;
            return m;
        };
        auto fourcc = [](const char *s) { return int32_t(s[0] | s[1] << 8 | s[2] << 16 | s[3] << 24); };
        make("bsp29", &bspver_q1, "q1", 29, false, with(b29, mq1));
        make("bsp2rmq", &bspver_bsp2rmq, "q1", fourcc("2PSB"), false, with(brm, mq1));
        make("bsp2", &bspver_bsp2, "q1", fourcc("BSP2"), false, with(b2, mq1));
        make("hl", &bspver_hl, "hl", 30, false, with(b29, mq1));
        make("hexen2", &bspver_h2, "h2", 29, false, with(b29, mh2));
        make("hexen2bsp2rmq", &bspver_h2bsp2rmq, "h2", fourcc("2PSB"), false, with(brm, mh2));
        make("hexen2bsp2", &bspver_h2bsp2, "h2", fourcc("BSP2"), false, with(b2, mh2));
        for (auto &f : r)
            f.h2 = f.family == "h2";
        std::map<std::string, std::string> q2{{"nodes", nodeq2}, {"faces", faceq2}, {"leafs", leafq2}, {"marksurfaces", "v:H"}, {"leafbrushes", "v:H"}, {"edges", "v:H2"}, {"texinfo", ti2}, {"models", mq2},
            {"brushes", "firstside:i numsides:i contents:i"}, {"brushsides", "planenum:H texinfo:h"}, {"areas", "num:i first:i"}, {"areaportals", "portal:i area:i"}};
        std::map<std::string, std::string> qb = q2;
        qb["nodes"] = node2, qb["faces"] = faceqb, qb["leafs"] = leafqb, qb["marksurfaces"] = "v:I", qb["leafbrushes"] = "v:I", qb["edges"] = "v:I2", qb["brushsides"] = "planenum:I texinfo:i";
        make("q2bsp", &bspver_q2, "q2", fourcc("IBSP"), true, q2);
        make("qbism", &bspver_qbism, "q2", fourcc("QBSP"), true, qb);
        return r;
    }();
    return all;
}
// raw file: bytes of each lump
struct Raw
{
    std::vector<std::string> lumps;
    std::vector<std::pair<std::string, std::string>> bspx;
};
inline void put32(std::string &s, size_t o, uint32_t v) { memcpy(&s[o], &v, 4); }
inline uint32_t get32(const std::string &s, size_t o)
{
    uint32_t v;
    memcpy(&v, &s[o], 4);
    return v;
}
inline void add32(std::string &s, uint32_t v) { s.append((char *)&v, 4); }
inline std::string to_file(const Format &f, const Raw &r, const std::vector<int> *order = nullptr)
{
    std::string s;
    add32(s, f.ident);
    if (f.q2)
        add32(s, f.version);
    size_t dir = s.size();
    s.resize(dir + 8 * f.nlumps);
    for (int k = 0; k < f.nlumps; k++) {
        int i = order ? (*order)[k] : k;
        put32(s, dir + 8 * i, s.size());
        put32(s, dir + 8 * i + 4, r.lumps[i].size());
        s += r.lumps[i];
        while (s.size() % 4)
            s += '\0';
    }
    if (!r.bspx.empty()) {
        s += "BSPX";
        add32(s, r.bspx.size());
        size_t d = s.size();
        s.resize(d + 32 * r.bspx.size());
        for (size_t i = 0; i < r.bspx.size(); i++) {
            memcpy(&s[d + 32 * i], r.bspx[i].first.data(), std::min<size_t>(24, r.bspx[i].first.size()));
            put32(s, d + 32 * i + 24, s.size());
            put32(s, d + 32 * i + 28, r.bspx[i].second.size());
            s += r.bspx[i].second;
            while (s.size() % 4)
                s += '\0';
        }
    }
    return s;
}
// "" or what is wrong with the file
inline std::string from_file(const Format &f, const std::string &s, Raw &r)
{
    r = {};
    size_t dir = f.q2 ? 8 : 4;
    if (s.size() < dir + 8 * f.nlumps)
        return "shorter than a header";
    if ((int32_t)get32(s, 0) != f.ident)
        return "wrong ident";
    if (f.q2 && (int32_t)get32(s, 4) != f.version)
        return "wrong version";
    size_t end = 0;
    std::set<std::pair<size_t, size_t>> used;
    for (int i = 0; i < f.nlumps; i++) {
        size_t o = get32(s, dir + 8 * i), n = get32(s, dir + 8 * i + 4);
        if (n && (o < dir + 8 * f.nlumps || o + n > s.size()))
            return "lump " + std::to_string(i) + " lies outside the file";
        if (o % 4 && n)
            return "lump " + std::to_string(i) + " is not aligned";
        if (n) {
            for (auto &u : used)
                if (o < u.second && u.first < o + n)
                    return "lump " + std::to_string(i) + " overlaps another";
            used.insert({o, o + n});
        }
        r.lumps.push_back(n ? s.substr(o, n) : "");
        end = std::max(end, o + n);
    }
    end = (end + 3) & ~size_t(3);
    if (end + 8 <= s.size() && s.substr(end, 4) == "BSPX") {
        size_t n = get32(s, end + 4);
        if (end + 8 + 32 * n > s.size())
            return "extension directory lies outside the file";
        for (size_t i = 0; i < n; i++) {
            size_t d = end + 8 + 32 * i, o = get32(s, d + 24), m = get32(s, d + 28);
            if (o + m > s.size())
                return "extension lump lies outside the file";
            r.bspx.push_back({std::string(&s[d], strnlen(&s[d], 24)), s.substr(o, m)});
        }
    }
    return "";
}
// ---------------------------------------------------------------- field values
using Val = double; // exact for every 32 bit integer and float
inline void put(std::string &s, size_t o, char t, Val v)
{
    switch (t) {
        case 'b': s[o] = (char)(int)v; break;
        case 'h': {
            int16_t x = (int16_t)(int)v;
            memcpy(&s[o], &x, 2);
            break;
        }
        case 'H': {
            uint16_t x = (uint16_t)(int)v;
            memcpy(&s[o], &x, 2);
            break;
        }
        case 'i': {
            int32_t x = (int32_t)(int64_t)v;
            memcpy(&s[o], &x, 4);
            break;
        }
        case 'I': {
            uint32_t x = (uint32_t)(int64_t)v;
            memcpy(&s[o], &x, 4);
            break;
        }
        case 'f': {
            float x = (float)v;
            memcpy(&s[o], &x, 4);
            break;
        }
    }
}
inline Val get(const std::string &s, size_t o, char t)
{
    switch (t) {
        case 'b': return (uint8_t)s[o];
        case 'h': {
            int16_t x;
            memcpy(&x, &s[o], 2);
            return x;
        }
        case 'H': {
            uint16_t x;
            memcpy(&x, &s[o], 2);
            return x;
        }
        case 'i': {
            int32_t x;
            memcpy(&x, &s[o], 4);
            return x;
        }
        case 'I': return get32(s, o);
        default: {
            float x;
            memcpy(&x, &s[o], 4);
            return x;
        }
    }
}
inline Val lo(char t)
{
    return t == 'h' ? -32768. : t == 'i' ? -2147483648. : t == 'f' ? -(double)std::numeric_limits<float>::max() : 0;
}
inline Val hi(char t)
{
    return t == 'b' ? 255 : t == 'h' ? 32767 : t == 'H' ? 65535 : t == 'i' ? 2147483647. : t == 'I' ? 4294967295. : (double)std::numeric_limits<float>::max();
}
// the same field in mbsp_t
inline bool generic_field(const mbsp_t &b, const std::string &lump, size_t e, const std::string &f, int i, Val &v)
{
    auto A = [&](auto x) {
        v = (Val)x;
        return true;
    };
    if (lump == "planes")
        return e < b.dplanes.size() && (f == "normal" ? A(b.dplanes[e].normal[i]) : f == "dist" ? A(b.dplanes[e].dist) : A(b.dplanes[e].type));
    if (lump == "vertexes")
        return e < b.dvertexes.size() && A(b.dvertexes[e][i]);
    if (lump == "surfedges")
        return e < b.dsurfedges.size() && A(b.dsurfedges[e]);
    if (lump == "marksurfaces")
        return e < b.dleaffaces.size() && A(b.dleaffaces[e]);
    if (lump == "leafbrushes")
        return e < b.dleafbrushes.size() && A(b.dleafbrushes[e]);
    if (lump == "edges")
        return e < b.dedges.size() && A(b.dedges[e][i]);
    if (lump == "nodes") {
        if (e >= b.dnodes.size())
            return false;
        auto &n = b.dnodes[e];
        return f == "planenum" ? A(n.planenum) : f == "children" ? A(n.children[i]) : f == "mins" ? A(n.mins[i]) : f == "maxs" ? A(n.maxs[i]) : f == "firstface" ? A(n.firstface) : A(n.numfaces);
    }
    if (lump == "clipnodes") {
        if (e >= b.dclipnodes.size())
            return false;
        auto &n = b.dclipnodes[e];
        return f == "planenum" ? A(n.planenum) : A(n.children[i]);
    }
    if (lump == "faces") {
        if (e >= b.dfaces.size())
            return false;
        auto &n = b.dfaces[e];
        return f == "planenum" ? A(n.planenum) : f == "side" ? A(n.side) : f == "firstedge" ? A(n.firstedge) : f == "numedges" ? A(n.numedges) : f == "texinfo" ? A(n.texinfo) : f == "styles" ? A(n.styles[i]) : A(n.lightofs);
    }
    if (lump == "leafs") {
        if (e >= b.dleafs.size())
            return false;
        auto &n = b.dleafs[e];
        return f == "contents" ? A(n.contents) : f == "visofs" ? A(n.visofs) : f == "cluster" ? A(n.cluster) : f == "area" ? A(n.area) : f == "mins" ? A(n.mins[i]) : f == "maxs" ? A(n.maxs[i]) : f == "firstmark" ? A(n.firstmarksurface) : f == "nummark" ? A(n.nummarksurfaces) : f == "ambient" ? A(n.ambient_level[i]) : f == "firstbrush" ? A(n.firstleafbrush) : A(n.numleafbrushes);
    }
    if (lump == "models") {
        if (e >= b.dmodels.size())
            return false;
        auto &n = b.dmodels[e];
        return f == "mins" ? A(n.mins[i]) : f == "maxs" ? A(n.maxs[i]) : f == "origin" ? A(n.origin[i]) : f == "headnode" ? A(n.headnode[i]) : f == "visleafs" ? A(n.visleafs) : f == "firstface" ? A(n.firstface) : A(n.numfaces);
    }
    if (lump == "texinfo") {
        if (e >= b.texinfo.size())
            return false;
        auto &n = b.texinfo[e];
        return f == "vecs" ? A(n.vecs.at(i / 4, i % 4)) : f == "miptex" ? A(n.miptex) : f == "flags" ? A(n.flags.native) : f == "value" ? A(n.value) : f == "texture" ? A((uint8_t)n.texture[i]) : A(n.nexttexinfo);
    }
    if (lump == "brushes") {
        if (e >= b.dbrushes.size())
            return false;
        auto &n = b.dbrushes[e];
        return f == "firstside" ? A(n.firstside) : f == "numsides" ? A(n.numsides) : A(n.contents);
    }
    if (lump == "brushsides") {
        if (e >= b.dbrushsides.size())
            return false;
        return f == "planenum" ? A(b.dbrushsides[e].planenum) : A(b.dbrushsides[e].texinfo);
    }
    if (lump == "areas") {
        if (e >= b.dareas.size())
            return false;
        return f == "num" ? A(b.dareas[e].numareaportals) : A(b.dareas[e].firstareaportal);
    }
    if (lump == "areaportals") {
        if (e >= b.dareaportals.size())
            return false;
        return f == "portal" ? A(b.dareaportals[e].portalnum) : A(b.dareaportals[e].otherarea);
    }
    return false;
}
// a value every type of the field in any format can hold, different for every component
inline Val base_value(const std::string &lump, const std::string &field, int index, char type, int elem)
{
    uint64_t h = mc::hcomb(mc::hcomb(mc::hstr(lump), mc::hstr(field)), index * 16 + elem);
    if (field == "pos" || field == "normal" || field == "dist" || field == "origin" || field == "vecs")
        return (int)(h % 2001) - 1000;
    if (type == 'b')
        return field == "texture" ? (index == 31 ? 0 : 'a' + h % 26) : h % 250 + 1;
    if (field == "mins" || field == "maxs")
        return (int)(h % 2001) - 1000;
    if (field == "children" && lump == "clipnodes")
        return (int)(h % 3000) - 15 < 0 ? -(int)(h % 15) - 1 : (int)(h % 3000);
    return h % 3000; // non-negative: unsigned fields too
}
inline StructSpec const *find_struct(const Format &f, const std::string &lump)
{
    for (auto &s : f.structs)
        if (s.lump == lump)
            return &s;
    return nullptr;
}
struct Miptex
{
    bool null = false;
    std::string data;
};
inline std::string miptex_lump(const std::vector<Miptex> &v)
{
    std::string s;
    add32(s, v.size());
    size_t d = s.size();
    s.resize(d + 4 * v.size());
    for (size_t i = 0; i < v.size(); i++) {
        if (v[i].null) {
            put32(s, d + 4 * i, -1);
            continue;
        }
        while (s.size() % 4)
            s += '\0';
        put32(s, d + 4 * i, s.size());
        s += v[i].data;
    }
    return s;
}
inline Miptex miptex(const std::string &name, int w, int h, int extra = 0)
{
    Miptex m;
    m.data.resize(40);
    memcpy(&m.data[0], name.data(), std::min<size_t>(16, name.size()));
    put32(m.data, 16, w);
    put32(m.data, 20, h);
    for (int i = 0; i < 4; i++)
        put32(m.data, 24 + 4 * i, 40 + i);
    for (int i = 0; i < extra; i++)
        m.data += (char)(i * 37 + 5);
    return m;
}
// a full file; `n` elements per lump
inline Raw base_raw(const Format &f, int n = 2, int models = 1)
{
    Raw r;
    r.lumps.resize(f.nlumps);
    for (auto &s : f.structs) {
        int k = s.lump == "models" ? models : n;
        std::string &b = r.lumps[s.lumpnum];
        b.resize(s.size * k);
        for (int e = 0; e < k; e++)
            for (auto &c : s.comps)
                put(b, s.size * e + c.ofs, c.type, base_value(s.lump, c.field, c.index, c.type, e));
    }
    r.lumps[f.lumpnum.at("entities")] = std::string("{ \"classname\" \"worldspawn\" }\n\0", 31);
    r.lumps[f.lumpnum.at("lighting")] = std::string("\1\2\3\4\5", 5);
    if (f.q2) {
        std::string v;
        add32(v, 2);
        for (int i = 0; i < 4; i++)
            add32(v, 20 + i);
        v += "\1\2\3\4";
        r.lumps[f.lumpnum.at("visibility")] = v;
    } else {
        r.lumps[f.lumpnum.at("visibility")] = "\1\2\3";
        r.lumps[f.lumpnum.at("textures")] = miptex_lump({miptex("first", 16, 16, 8), miptex("second", 64, 32, 4)});
    }
    return r;
}
inline std::string difference(const Format &f, const Raw &a, const Raw &b)
{
    for (auto &[name, i] : f.lumpnum)
        if (a.lumps[i] != b.lumps[i]) {
            std::ostringstream o;
            o << "lump " << name << ": " << a.lumps[i].size() << " bytes became " << b.lumps[i].size();
            for (size_t k = 0; k < std::min(a.lumps[i].size(), b.lumps[i].size()); k++)
                if (a.lumps[i][k] != b.lumps[i][k]) {
                    o << ", first difference at byte " << k;
                    if (auto *s = find_struct(f, name))
                        for (auto &c : s->comps)
                            if ((int)(k % s->size) >= c.ofs && (int)(k % s->size) < c.ofs + tsize(c.type))
                                o << " (element " << k / s->size << ", " << c.field << "[" << c.index << "]: " << get(a.lumps[i], k / s->size * s->size + c.ofs, c.type) << " became " << get(b.lumps[i], k / s->size * s->size + c.ofs, c.type) << ")";
                    break;
                }
            return o.str();
        }
    auto x = a.bspx, y = b.bspx;
    std::sort(x.begin(), x.end());
    std::sort(y.begin(), y.end());
    if (x != y) {
        std::ostringstream o;
        o << "extension lumps:";
        for (auto &p : x)
            o << " " << p.first << "(" << p.second.size() << ")";
        o << " became";
        for (auto &p : y)
            o << " " << p.first << "(" << p.second.size() << ")";
        return o.str();
    }
    return "";
}
} // namespace bs
