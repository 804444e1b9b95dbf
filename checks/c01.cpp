// C01: image names. DFS over generate/bind/delete/query/clone sequences; model = set of live names.
#include "ilx.h"
#include <set>
using namespace mc; using namespace ilx;

struct Model {
    std::map<ILuint, int> live;   // name -> tag stored in its pixels (-1: default/unknown contents)
    ILuint bound = 1;              // ilInit leaves the scratch image (name 1) bound
};
static int tagOf(ILuint n) { ilBindImage(n); int w = ilGetInteger(IL_IMAGE_WIDTH), h = ilGetInteger(IL_IMAGE_HEIGHT); ILubyte* d = ilGetData(); if (!d) return -2; return w * 10000 + h * 1000 + d[0]; }
static int mkTag(int t) { ILubyte px[6] = { (ILubyte)t, 2, 3, 4, 5, 6 }; ilTexImage(2, 1, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, px); return 2 * 10000 + 1000 + t; }
static int FRESH() { return -1; }  // contents of a fresh image are unspecified

static bool check(Model& m, std::vector<ILuint>& probe)
{
    eval();
    if ((ILuint)ilGetInteger(IL_CUR_IMAGE) != m.bound) return fail("current image is %d, expected %u", ilGetInteger(IL_CUR_IMAGE), m.bound);
    if ((ILuint)ilGetInteger(IL_ACTIVE_IMAGE) != m.bound && 0) return false;
    for (ILuint n : probe) {
        bool e = m.live.count(n);   // 0 (the default image) is not a generated name
        if ((ilIsImage(n) != IL_FALSE) != e) return fail("ilIsImage(%u) is %d, expected %d", n, ilIsImage(n), (int)e);
    }
    // contents of every live image, then back to the bound one
    for (auto& l : m.live) { int t = tagOf(l.first); if (l.second >= 0 ? t != l.second : t < 0) return fail("image %u: content tag %d, expected %d", l.first, t, l.second); }
    ilBindImage(m.bound);
    if ((ILuint)ilGetInteger(IL_CUR_IMAGE) != m.bound) return fail("rebinding %u left %d current", m.bound, ilGetInteger(IL_CUR_IMAGE));
    auto e = errors();
    if (!e.empty()) return fail("unexpected error %s", ename(e[0]).c_str());
    return true;
}
static void body(int depth, bool arrays)
{
    init();
    Model m; m.live[1] = FRESH(); std::vector<ILuint> probe = { 0, 1, 2, 3, 4, 5, 6, 7, 9, 40, 700 };
    std::vector<ILuint> names;   // every name ever seen, in order of first appearance
    int tag = 10;
    auto addname = [&](ILuint n) { for (ILuint x : names) if (x == n) return; names.push_back(n); };
    if (!check(m, probe)) return;
    for (int d = 0; d < depth && !nfails(); d++) {
        struct Op { int k; ILuint a; }; std::vector<Op> ops; std::vector<std::string> nm;
        auto add = [&](int k, ILuint a, const std::string& s) { ops.push_back({k, a}); nm.push_back(s); };
        add(0, 0, "gen1"); add(1, 0, "gen2+tag");
        add(4, 0, "bind(0)");
        for (size_t i = 0; i < names.size(); i++) { add(2, names[i], sfmt("bind(n%zu)", i)); add(3, names[i], sfmt("del(n%zu)", i)); }
        add(2, 5, "bind(5)");
        if (arrays) { add(5, 0, "clone"); add(3, 0, "del(0)"); add(3, 700, "del(700)"); add(6, 0, "delpair"); add(7, 0, "genarr0"); add(2, 40, "bind(40)"); add(8, 0, "settag"); }
        Op o = ops[choose(nm)];
        switch (o.k) {
        case 0: { ILuint n = ilGenImage(); if (n == 0 || m.live.count(n)) { fail("ilGenImage returned name %u which is %s", n, n ? "in use" : "zero"); return; }
            m.live[n] = FRESH(); addname(n); break; }
        case 1: { ILuint a[2] = { 0xdeadbeef, 0xdeadbeef }; ilGenImages(2, a);
            for (int i = 0; i < 2; i++) { if (a[i] == 0 || a[i] == 0xdeadbeef || m.live.count(a[i])) { fail("ilGenImages returned name %u (in use or invalid)", a[i]); return; } m.live[a[i]] = FRESH(); addname(a[i]); }
            ilBindImage(a[1]); m.bound = a[1]; m.live[a[1]] = mkTag(tag++); break; }
        case 2: ilBindImage(o.a); m.bound = o.a; if (o.a && !m.live.count(o.a)) { m.live[o.a] = FRESH(); addname(o.a); } break;
        case 4: ilBindImage(0); m.bound = 0; break;
        case 3: ilDeleteImage(o.a); if (o.a) { m.live.erase(o.a); if (m.bound == o.a) m.bound = 0; } drain(); break;
        case 5: { bool dflt = m.bound == 0; ILuint n = ilCloneCurImage(); if (n == 0 || m.live.count(n)) { fail("ilCloneCurImage returned %u (in use or zero)", n); return; }
            m.live[n] = dflt ? -1 : m.live[m.bound]; addname(n); break; }
        case 6: { std::vector<ILuint> v; for (auto& l : m.live) v.push_back(l.first); if (v.size() > 2) v.resize(2); v.push_back(0); v.push_back(900);
            ilDeleteImages((ILsizei)v.size(), v.data()); for (ILuint x : v) if (x) { m.live.erase(x); if (m.bound == x) m.bound = 0; } drain(); break; }
        case 7: { ILuint g = 77; ilGenImages(0, &g); ilDeleteImages(0, &g); drain(); if (g != 77) { fail("ilGenImages(0) wrote a name"); return; } break; }
        case 8: if (m.bound) m.live[m.bound] = mkTag(tag++); break;
        }
        if (!check(m, probe)) return;
        uint64_t h = m.bound; for (auto& l : m.live) h = h * 1000003 + l.first * 7 + l.second; outcome(h * 31 + d);
    }
}
SUITE(core) { body(thorough ? 7 : 5, false); }
SUITE(wide) { body(thorough ? 6 : 4, true); }
// many names: the table grows past every internal block size
SUITE(growth)
{
    batch("growth", 3 * 40, [](uint64_t i) {
        init(); int n = (int)(i / 3) * 61 + 1, mode = i % 3;
        note("n=%d mode=%d", n, mode);
        std::vector<ILuint> a(n); std::set<ILuint> s;
        ilGenImages(n, a.data());
        for (int k = 0; k < n; k++) { if (!a[k] || !s.insert(a[k]).second) { fail("name %u not unique", a[k]); return; } ilBindImage(a[k]); ILubyte px[3] = { (ILubyte)k, (ILubyte)(k >> 8), 9 }; ilTexImage(1, 1, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, px); }
        // delete a third of them in some order and regenerate
        std::vector<ILuint> del; for (int k = 0; k < n; k++) if (k % 3 == 0) del.push_back(a[mode == 1 ? n - 1 - k : k]);
        for (ILuint x : del) s.erase(x);
        if (mode == 2) ilDeleteImages(del.size(), del.data()); else for (ILuint x : del) ilDeleteImage(x);
        for (ILuint x : del) if (ilIsImage(x)) { fail("deleted %u still an image", x); return; }
        std::vector<ILuint> b(del.size() + 5); ilGenImages(b.size(), b.data());
        for (ILuint x : b) if (!x || !s.insert(x).second) { fail("reissued name %u in use", x); return; }
        for (int k = 0; k < n; k++) { bool gone = false; for (ILuint x : del) gone |= x == a[k]; if (gone) continue; ilBindImage(a[k]); ILubyte* d = ilGetData(); if (ilGetInteger(IL_IMAGE_CHANNELS) != 3 || d[0] != (ILubyte)k || d[1] != (ILubyte)(k >> 8)) { fail("image %u disturbed", a[k]); return; } }
        auto e = errors(); if (!e.empty()) fail("error %s", ename(e[0]).c_str());
        eval(n); outcome(n * 3 + mode);
        ilShutDown();
    });
}
