struct Kind
{
    const char *tex;
    long e0, e1;
    const char *cls; // "" world
};
const std::vector<Kind> K1 = {{"stone", 0, 0, ""}, {"sky1", 0, 0, ""}, {"*water", 0, 0, ""}, {"*slime", 0, 0, ""}, {"*lava", 0, 0, ""}, {"clip", 0, 0, ""}, {"skip", 0, 0, ""}, {"hint", 0, 0, ""},
    {"stone", 0, 0, "func_detail"}, {"stone", 0, 0, "func_detail_wall"}, {"{fence", 0, 0, "func_detail_fence"}, {"stone", 0, 0, "func_detail_illusionary"}, {"stone", 0, 0, "func_wall"}, {"trigger", 0, 0, "trigger_once"}, {"*water", 0, 0, "func_wall"}};
const std::vector<Kind> K2 = {{"stone", 1, 0, ""}, {"stone", 1, 4, ""}, {"glass", 2, 16, ""}, {"lava", 8, 9, ""}, {"slime", 16, 8, ""}, {"water", 32, 40, ""}, {"water2", 32, 0, ""}, {"mist", 64, 48, ""}, {"clip", 65536, 128, ""}, {"clipmon", 131072, 128, ""}, {"clipboth", 196608, 128, ""},
    {"detail", 134217729, 0, ""}, {"ladder", 536870913, 0, ""}, {"cur", 32 + 262144, 8, ""}, {"skip", 1, 512, ""}, {"hint", 0, 256, ""}, {"nodraw", 1, 128, ""}, {"lamp", 1, 1, ""}, {"stone", 1, 0, "func_wall"}, {"trig", 1, 128, "trigger_once"}, {"glass", 134217730, 16, ""}, {"win", 2, 0, "func_wall"}};
const I3 PLACE[5][2] = {{{-24, -16, -8}, {24, 32, 40}}, {{-64, -32, -64}, {-16, 16, -16}}, {{0, 0, 40}, {64, 40, 80}}, {{-64, -64, -64}, {64, 64, -32}}, {{-8, -40, -80}, {8, 40, 80}}};
Spec with(const std::string &game, std::vector<std::pair<Item, Kind>> v)
{
    Spec s = base(game);
    for (auto &[it, k] : v) {
        Item x = it;
        x.tex = k.tex;
        x.e[0] = k.e0, x.e[1] = k.e1;
        x.e[2] = k.e1 == 1 ? 300 : 0;
        if (*k.cls) {
            s.e.push_back(ent(k.cls));
            x.ent = s.e.size() - 1;
        }
        s.b.push_back(x);
    }
    return s;
}
Item item(const I3 *p, int shape)
{
    Item i;
    i.mn = p[0], i.mx = p[1], i.shape = shape;
    return i;
}
using Gen = std::function<Spec(uint64_t)>;
Space sp(const std::string &name, uint64_t n, Gen g)
{
    Space s;
    s.name = name;
    s.size = n;
    s.chunk = 8;
    s.run = [=](uint64_t i, Ctx &c) {
        Spec x = g(i);
        if (i % 97 == 0)
            c.sample(show(x));
        run(c, x, name);
    };
    return s;
}
std::vector<Space> u01(Tier t)
{
    bool T = t == Tier::thorough;
    std::vector<Space> r;
    std::vector<std::string> q1 = {"bsp29", "bsp2", "hexen2", "hlbsp"}, q2 = {"q2bsp", "qbism"};
    {
        int g = T ? 4 : 2;
        r.push_back(sp("one q1", K1.size() * 5 * 5 * g, [=](uint64_t i) {
            auto &k = K1[i % K1.size()];
            i /= K1.size();
            return with(q1[(T ? i / 25 : i / 25 ? 2 + i % 2 : i / 3 % 2) % 4], {{item(PLACE[i % 5], i / 5 % 5), k}});
        }));
        r.push_back(sp("one q2", K2.size() * 5 * 5 * (T ? 2 : 1), [=](uint64_t i) {
            auto &k = K2[i % K2.size()];
            i /= K2.size();
            return with(q2[T ? i / 25 : i % 2], {{item(PLACE[i % 5], i / 5 % 5), k}});
        }));
    }
    // pairs: kinds x relative places
    static const I3 REL[8][2] = {{{24, -16, -8}, {40, 32, 40}}, {{0, -16, -8}, {40, 32, 40}}, {{-8, 0, 0}, {8, 16, 16}}, {{-24, -16, 40}, {24, 32, 56}}, {{-40, -32, -8}, {8, 8, 24}}, {{-24, -16, -8}, {24, 32, 40}}, {{24, 32, -8}, {40, 48, 40}}, {{-48, -40, 20}, {48, 48, 28}}};
    {
        int rel = T ? 8 : 4;
        r.push_back(sp("pair q1", K1.size() * K1.size() * rel * (T ? 5 : 1), [=](uint64_t i) {
            auto &a = K1[i % K1.size()];
            i /= K1.size();
            auto &b = K1[i % K1.size()];
            i /= K1.size();
            int sh = i / rel;
            Spec s = with("bsp29", {{item(PLACE[0], sh), a}, {item(REL[i % rel], sh ? 0 : 0), b}});
            s.b[0].multi = s.b[1].multi = false;
            return s;
        }));
        r.push_back(sp("pair q2", K2.size() * K2.size() * rel * (T ? 5 : 1), [=](uint64_t i) {
            auto &a = K2[i % K2.size()];
            i /= K2.size();
            auto &b = K2[i % K2.size()];
            i /= K2.size();
            int sh = i / rel;
            return with("q2bsp", {{item(PLACE[0], sh), a}, {item(REL[i % rel], 0), b}});
        }));
    }
    // textures
    for (int g = 0; g < 2; g++)
        r.push_back(sp(g ? "textures q2" : "textures q1", 5 * 32 * 3 * (T ? 4 : 1), [=](uint64_t i) {
            int shape = i % 5, page = i / 5 % 32, how = i / 160 % 3, off = i / 480;
            Spec s = base(g ? "q2bsp" : off % 2 ? "hlbsp" : "bsp29");
            Item a = item(PLACE[0], shape);
            a.page = page * 5 + off, a.multi = how != 2, a.tex = "t";
            a.e[0] = 1;
            if (how == 0) { // two touching, coplanar sides of different textures
                s.b.push_back(a);
                Item b = item(REL[0], 0);
                b.page = page + 1, b.tex = "u", b.e[0] = 1, b.multi = true;
                s.b.push_back(b);
                Item d = item(REL[3], 0);
                d.page = page + 2, d.tex = "v", d.e[0] = 1, d.multi = true;
                s.b.push_back(d);
            } else if (how == 1) { // moved by an origin brush
                s.e.push_back(ent("func_rotating"));
                s.e[2].origin = true;
                s.model_first = page % 2;
                s.e[2].at = {8 + int(page) % 7 * 4, -12 + shape, 20};
                a.ent = 2;
                s.b.push_back(a);
            } else { // tiles of the floor
                for (int k = 0; k < 4; k++) {
                    Item f;
                    f.mn = {-64 + 64 * (k % 2), -64 + 64 * (k / 2), -64}, f.mx = {0 + 64 * (k % 2), 0 + 64 * (k / 2), -48 + 8 * (page % 3 == 1 && k == 3)};
                    f.tex = "f" + std::to_string(page % 4 == 0 ? k / 2 : k);
                    f.page = page % 5 == 0 ? 3 : page + k;
                    f.e[0] = 1;
                    s.b.push_back(f);
                }
                a.ent = 0;
                s.b.push_back(a);
            }
            return s;
        }));
    // floor tiles that no straight cut separates
    for (int g = 0; g < 2; g++)
        r.push_back(sp(g ? "tiles q2" : "tiles q1", 32 * 8, [=](uint64_t i) {
            Spec s = base(g ? "q2bsp" : "bsp29");
            static const int W[5][4] = {{0, 0, 2, 1}, {2, 0, 3, 2}, {1, 2, 3, 3}, {0, 1, 1, 3}, {1, 1, 2, 2}};
            static const int C[4] = {-64, -24, 24, 64};
            int ax = i / 32 % 4, flip = i / 128;
            for (int k = 0; k < 5; k++) {
                Item f;
                int u = ax % 3, v = (ax + 1) % 3, w = (ax + 2) % 3;
                f.mn[u] = C[W[k][0]], f.mn[v] = C[W[k][1]], f.mx[u] = C[W[k][2]], f.mx[v] = C[W[k][3]];
                f.mn[w] = flip ? 40 : -64, f.mx[w] = flip ? 64 : -40;
                if (i & (1 << k))
                    f.page = k;
                f.tex = "f" + std::to_string(ax == 3 ? k % 2 : k);
                f.e[0] = 1;
                s.b.push_back(f);
            }
            return s;
        }));
    // texture files that carry contents and flags
    static const int M[8][3] = {{0, 0, 0}, {1, 0, 0}, {2, 16, 0}, {2, 0, 0}, {32, 8, 0}, {1, 1, 300}, {65536, 128, 0}, {0, 256, 0}};
    r.push_back(sp("wal", 8 * 9 * 3, [=](uint64_t i) {
        Spec s = base(i % 2 ? "qbism" : "q2bsp");
        const int *m = M[i % 8];
        int e = i / 8 % 9, pl = i / 72;
        std::string t = "w" + std::to_string(i);
        s.wal.push_back({t, m[1], m[0], m[2]});
        Item a = item(PLACE[pl], pl);
        a.tex = t;
        for (int k = 0; k < 3; k++)
            a.e[k] = e < 8 ? M[e][k] : -1;
        s.b.push_back(a);
        return s;
    }));
    // brush entities
    for (int g = 0; g < 2; g++)
        r.push_back(sp(g ? "entities q2" : "entities q1", 4 * 3 * 4 * 5 * 2, [=](uint64_t i) {
            Spec s = base(g ? "q2bsp" : "bsp29");
            s.model_first = i >= 240;
            i %= 240;
            const char *cls[] = {"func_door", "trigger_multiple", "func_rotate_train", "func_group"};
            int c = i % 4, o = i / 4 % 3, n = i / 12 % 4, sh = i / 48;
            for (int k = 0; k < 1 + n % 2; k++) {
                EntSpec e = ent(cls[(c + k) % 4], n > 1 ? "\"targetname\" \"x y\"\n\"origin\" \"16 8 4\"\n" : "\"spawnflags\" \"3\"\n");
                if (o && std::string(cls[(c + k) % 4]) != "func_group") {
                    e.origin = true;
                    e.at = o == 1 ? I3{40, -40, 24} : I3{0, 0, 0};
                }
                s.e.push_back(e);
                for (int z = 0; z < 2; z++) {
                    Item a = item(PLACE[z * 2], sh);
                    a.mn[2] -= 20 * k, a.mx[2] -= 20 * k;
                    a.ent = 2 + k, a.tex = z ? "brick" : "stone", a.page = sh + z;
                    a.e[0] = 1;
                    s.b.push_back(a);
                }
            }
            return s;
        }));
    // area portals
    r.push_back(sp("area portals", 3 * 5 * 2, [=](uint64_t i) {
        Spec s = base("q2bsp");
        int n = 1 + i % 3, extra = i / 3 % 5;
        for (int k = 0; k < n; k++) { // walls with an opening
            int x = -40 + 40 * k;
            I3 w[4][2] = {{{x, -64, -64}, {x + 8, -16, 64}}, {{x, 16, -64}, {x + 8, 64, 64}}, {{x, -16, -64}, {x + 8, 16, -16}}, {{x, -16, 16}, {x + 8, 16, 64}}};
            for (auto &q : w) {
                Item a = item(q, 0);
                a.e[0] = 1;
                s.b.push_back(a);
            }
            s.e.push_back(ent("func_areaportal", "\"targetname\" \"p" + std::to_string(k) + "\"\n"));
            Item p;
            p.mn = {x + 2, -16, -16}, p.mx = {x + 6, 16, 16};
            p.tex = "portal", p.e[0] = 0x8000, p.e[1] = 128, p.ent = s.e.size() - 1;
            s.b.push_back(p);
        }
        if (extra) {
            Item a = item(PLACE[0], extra);
            a.mn[2] = 30;
            a.e[0] = 32, a.e[1] = 8, a.tex = "water";
            if (i / 15)
                s.e.push_back(ent("func_wall")), a.ent = s.e.size() - 1, a.e[0] = 1;
            s.b.push_back(a);
        }
        return s;
    }));
    // entity text as other compilers write it
    static const char *EXTRA[] = {"", "{\n}\n", "{\n\"light\" \"300\"\n}\n", "{\n\"classname\" \"func_wall\"\n\"model\" \"*1\"\n\"origin\" \"8 16 -8\"\n}\n", "{\n\"classname\" \"func_wall\"\n\"origin\" \"8 16 -8\"\n\"model\" \"*1\"\n}\n", "{\n\"origin\" \"1.5 0 0.25\"\n\"model\" \"*1\"\n\"classname\" \"trigger_x\"\n}\n",
        "{\n\"classname\" \"func_areaportal\"\n}\n", "{\n\"classname\" \"func_areaportal\"\n\"style\" \"7\"\n}\n", "{\n\"classname\" \"func_areaportal\"\n\"style\" \"x\"\n}\n", "{\n\"classname\" \"misc_model\"\n\"model\" \"progs/x.mdl\"\n\"origin\" \"1 2 3\"\n}\n", "{\n\"classname\" \"a\"\n\"model\" \"\"\n}\n", "{\n\"classname\" \"a\"\n\"message\" \"line\\nnext\\\\\"\n}\n",
        "{\n\"classname\" \"func_group\"\n\"a\" \"b\"\n}\n", "{\n\"classname\" \"func_wall\"\n\"model\" \"*1\"\n\"origin\" \"8\"\n}\n", "{\n\"classname\" \"func_wall\"\n\"model\" \"*1\"\n\"origin\" \"\"\n}\n", "{\n\"classname\" \"func_wall\"\n\"model\" \"*1\"\n\"origin\" \"-0 0 -0\"\n}\n"};
    constexpr int NX = sizeof EXTRA / sizeof *EXTRA;
    r.push_back(sp("entity text", NX * NX * 2, [=](uint64_t i) {
        Spec s = base(i % 2 ? "q2bsp" : "bsp29");
        i /= 2;
        s.e.push_back(ent("func_wall"));
        Item a = item(PLACE[0], 0);
        a.ent = 2, a.e[0] = 1;
        s.b.push_back(a);
        s.ents = std::string("{\n\"classname\" \"worldspawn\"\n\"wad\" \"a.wad\"\n}\n") + EXTRA[i % NX] + EXTRA[i / NX];
        return s;
    }));
    return r;
}
