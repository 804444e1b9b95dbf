// C24: ILUT attribute state machine against a stack of complete attribute vectors.
#include "ilx.h"
#include <IL/ilut.h>
using namespace mc; using namespace ilx;
struct Var { const char* n; ILenum e; bool able, boolget, seti; ILuint bit; int def; std::vector<int> ok, bad; };
static const std::vector<Var>& V()
{
    static const std::vector<int> BB = { 2, -1, 0x7fffffff, 256 }, DB = { 0, -1, -256, (int)0x80000000 };
    static const std::vector<Var> v = {
        {"palette_mode", ILUT_PALETTE_MODE, true, true, false, ILUT_OPENGL_BIT, 0, {1, 0}, {}},
        {"opengl_conv", ILUT_OPENGL_CONV, true, true, false, ILUT_OPENGL_BIT, 0, {1, 0}, {}},
        {"force_integer", ILUT_FORCE_INTEGER_FORMAT, true, true, false, ILUT_OPENGL_BIT, 0, {1, 0}, {}},
        {"use_s3tc", ILUT_GL_USE_S3TC, true, true, true, ILUT_OPENGL_BIT, 0, {1, 0}, BB},
        {"gen_s3tc", ILUT_GL_GEN_S3TC, true, true, true, ILUT_OPENGL_BIT, 0, {1, 0}, BB},
        {"autodetect", ILUT_GL_AUTODETECT_TEXTURE_TARGET, true, true, true, ILUT_OPENGL_BIT, 0, {1, 0}, BB},
        {"s3tc_format", ILUT_S3TC_FORMAT, false, false, true, ILUT_OPENGL_BIT, 0, {IL_DXT1, IL_DXT2, IL_DXT3, IL_DXT4, IL_DXT5}, {0, 1, IL_DXT1 - 1, IL_DXT5 + 1, -1, 0x7fffffff}},
        {"maxtex_w", ILUT_MAXTEX_WIDTH, false, false, true, ILUT_OPENGL_BIT, 256, {1, 2, 512, 0x7fffffff, 256}, DB},
        {"maxtex_h", ILUT_MAXTEX_HEIGHT, false, false, true, ILUT_OPENGL_BIT, 256, {1, 2, 512, 0x7fffffff, 256}, DB},
        {"maxtex_d", ILUT_MAXTEX_DEPTH, false, false, true, ILUT_OPENGL_BIT, 1, {1, 2, 512, 0x7fffffff, 256}, DB},
        {"d3d_miplevels", ILUT_D3D_MIPLEVELS, false, false, true, ILUT_D3D_BIT, 0, {0, 1, 7, 0x7fffffff}, {-1, (int)0x80000000}},
        {"d3d_pool", ILUT_D3D_POOL, false, false, true, ILUT_D3D_BIT, 0, {0, 1, 2}, {3, -1, 0x7fffffff}},
        {"d3d_alpha_key", ILUT_D3D_ALPHA_KEY_COLOR, false, false, true, ILUT_D3D_BIT, -1, {0, 1, 0xffffff, -1, -2}, {}},
    };
    return v;
}
static const int NV = 13;
typedef std::vector<int> Level;
static Level defaults() { Level l; for (auto& x : V()) l.push_back(x.def); return l; }
struct Model {
    std::vector<Level> st; std::vector<ILenum> err;
    Model() { st.push_back(defaults()); }
    Level& top() { return st.back(); }
    void push(ILuint bits) { if (st.size() >= 32) { err.push_back(ILUT_STACK_OVERFLOW); return; } Level n = defaults(); for (int i = 0; i < NV; i++) if (V()[i].bit & bits) n[i] = top()[i]; st.push_back(n); }
    void pop() { if (st.size() == 1) err.push_back(ILUT_STACK_UNDERFLOW); else st.pop_back(); }
};
static bool check(Model& m)
{
    eval(); auto e = errors();
    if (e.size() != m.err.size()) return fail("%zu errors recorded (%s), expected %zu", e.size(), e.empty() ? "-" : ename(e[0]).c_str(), m.err.size());
    for (size_t i = 0; i < e.size(); i++) if (e[i] != m.err[m.err.size() - 1 - i]) return fail("error %s, expected %s", ename(e[i]).c_str(), ename(m.err[m.err.size() - 1 - i]).c_str());
    m.err.clear(); uint64_t h = 0;
    for (int i = 0; i < NV; i++) {
        const Var& x = V()[i]; int w = m.top()[i], g = ilutGetInteger(x.e); if (g != w) return fail("%s reads %d, expected %d (level %zu)", x.n, g, w, m.st.size());
        ILint gv = 0x5a5a5a5a; ilutGetIntegerv(x.e, &gv); if (gv != w) return fail("%s: ilutGetIntegerv gives %d, expected %d", x.n, gv, w);
        if (x.able && (ilutIsEnabled(x.e) != w || ilutIsDisabled(x.e) != !w)) return fail("%s: ilutIsEnabled %d ilutIsDisabled %d, expected %d", x.n, ilutIsEnabled(x.e), ilutIsDisabled(x.e), w);
        if (x.boolget) { ILboolean b = 77; ilutGetBooleanv(x.e, &b); if (b != w || ilutGetBoolean(x.e) != w) return fail("%s: ilutGetBoolean %d/%d, expected %d", x.n, b, ilutGetBoolean(x.e), w); }
        h = h * 1099511628211ULL + w;
    }
    if (ilutGetInteger(ILUT_VERSION_NUM) != ILUT_VERSION) return fail("version");
    e = errors(); if (!e.empty()) return fail("a getter recorded %s", ename(e[0]).c_str());
    outcome(h * 31 + m.st.size()); return true;
}
static void set(Model& m, int i, int val, bool legal, int how)
{
    const Var& x = V()[i]; transition();
    if (x.able && (!x.seti || how)) { if (!legal) return; ILboolean r = val ? ilutEnable(x.e) : ilutDisable(x.e); if (!r) fail("%s: set to %d returned %d", x.n, val, r); }
    else ilutSetInteger(x.e, val);
    if (legal) m.top()[i] = val; else m.err.push_back(IL_INVALID_PARAM);
}
static int nd(int i, int k = 0) { std::vector<int> c; for (int v : V()[i].ok) if (v != V()[i].def) c.push_back(v); return c[k % c.size()]; }
SUITE(single)   // every variable x every legal and illegal value x every setter, from default / all-changed / pushed states
{
    struct C { int var, val; bool legal; }; static std::vector<C> cs;
    for (int i = 0; i < NV; i++) { for (int v : V()[i].ok) cs.push_back({i, v, true}); for (int v : V()[i].bad) cs.push_back({i, v, false}); }
    batch("set", cs.size() * 8, [](uint64_t q) {
        const C& c = cs[q / 8]; int mode = q % 8; note("%s=%d mode %d", V()[c.var].n, c.val, mode); init(); ilutInit(); Model m; if (!check(m)) return;
        if (mode & 1) for (int i = 0; i < NV; i++) set(m, i, nd(i), true, 0);
        if (mode & 2) { ilutPushAttrib(ILUT_ALL_ATTRIB_BITS); m.push(ILUT_ALL_ATTRIB_BITS); }
        if (!check(m)) return; set(m, c.var, c.val, c.legal, mode >> 2); if (!check(m)) return;
        if (mode & 2) { ilutPopAttrib(); m.pop(); check(m); }
    });
}
SUITE(unknown)   // every enum of the library's range at every entry point: unknown ones are refused and change nothing
{
    batch("enum", 0x1000, [](uint64_t e) {
        note("enum 0x%x", (int)e); init(); ilutInit(); Model m; for (int i = 0; i < NV; i++) set(m, i, nd(i), true, 0); if (!check(m)) return; bool able = false, boolg = false, seti = false, geti = e == ILUT_VERSION_NUM;
        for (auto& x : V()) if (x.e == e) { able |= x.able; boolg |= x.boolget; seti |= x.seti; geti = true; }
        auto one = [&](const char* n) { m.err.push_back(ILUT_INVALID_ENUM); if (!check(m)) { step("%s", n); return false; } return true; };
        if (!able) { if (ilutEnable(e)) fail("ilutEnable accepted"); if (!one("ilutEnable")) return; if (ilutDisable(e)) fail("ilutDisable accepted"); if (!one("ilutDisable")) return; if (ilutIsEnabled(e)) fail("enabled"); if (!one("ilutIsEnabled")) return; }
        if (!boolg) { ilutGetBoolean(e); if (!one("ilutGetBoolean")) return; ILboolean b = 55; ilutGetBooleanv(e, &b); if (b != 55) fail("ilutGetBooleanv wrote a value"); if (!one("ilutGetBooleanv")) return; }
        if (!seti) { ilutSetInteger(e, 1); if (!one("ilutSetInteger")) return; }
        if (!geti) { ilutGetInteger(e); if (!one("ilutGetInteger")) return; ILint v = 123456; ilutGetIntegerv(e, &v); if (v != 123456) fail("ilutGetIntegerv wrote a value"); if (!one("ilutGetIntegerv")) return; }
    });
}
SUITE(masks)   // every mask of group bits (and stray bits) from an all-changed state, then pop
{
    batch("mask", 64, [](uint64_t q) { ILuint bits = q & 31; if (q & 32) bits |= 0xfff00000; note("mask %x", bits); init(); ilutInit(); Model m; for (int i = 0; i < NV; i++) set(m, i, nd(i), true, 0); if (!check(m)) return;
        for (int rep = 0; rep < 3; rep++) { ilutPushAttrib(bits); m.push(bits); if (!check(m)) return; for (int i = 0; i < NV; i++) set(m, i, nd(i, 1 + rep), true, 1); if (!check(m)) return; }
        for (int rep = 0; rep < 4; rep++) { ilutPopAttrib(); m.pop(); if (!check(m)) return; } ilutPushAttrib(bits); m.push(bits); check(m); });
}
SUITE(deep)   // overflow and underflow at every depth
{
    batch("depth", 80, [](uint64_t n) { note("%d pushes", (int)n); init(); ilutInit(); Model m;
        for (unsigned i = 0; i < n; i++) { int v = i % NV; set(m, v, nd(v, i), true, 0); ILuint b = i % 3 == 0 ? ILUT_ALL_ATTRIB_BITS : i % 3 == 1 ? ILUT_OPENGL_BIT : ILUT_D3D_BIT; ilutPushAttrib(b); m.push(b); if (!check(m)) return; }
        for (unsigned i = 0; i < n + 2; i++) { ilutPopAttrib(); m.pop(); if (!check(m)) return; int v = (i * 5) % NV; set(m, v, nd(v, i), true, 1); if (!check(m)) return; } });
}
SUITE(sequences)   // all sequences of pushes, pops and changes
{
    static std::vector<std::string> nm; static std::vector<std::function<void(Model&)>> op;
    for (ILuint b : { 0u, 1u, 2u, (unsigned)ILUT_ALL_ATTRIB_BITS }) { nm.push_back(sfmt("push%x", b)); op.push_back([b](Model& m) { ilutPushAttrib(b); m.push(b); }); }
    nm.push_back("pop"); op.push_back([](Model& m) { ilutPopAttrib(); m.pop(); });
    nm.push_back("bad"); op.push_back([](Model& m) { ilutSetInteger(ILUT_S3TC_FORMAT, 1); m.err.push_back(IL_INVALID_PARAM); });
    for (int i = 0; i < NV; i++) { nm.push_back(V()[i].n); op.push_back([i](Model& m) { int v = nd(i); if (m.top()[i] == v) v = V()[i].able || i != 6 ? (i == 6 ? IL_DXT3 : V()[i].def) : IL_DXT3; set(m, i, v, true, 0); }); }
    seqs("ops", nm, thorough ? 5 : 4, [](const std::vector<int>& s) { init(); ilutInit(); Model m; if (!check(m)) return; for (int o : s) { op[o](m); if (!check(m)) return; } });
}
SUITE(isolation)   // IL and ILUT stacks are independent
{
    batch("il", 16, [](uint64_t q) { note("%d", (int)q); init(); ilutInit(); Model m; State a = state(); for (int i = 0; i < NV; i++) set(m, i, nd(i), true, q & 1); if (q & 2) { ilutPushAttrib(q >> 2); m.push(q >> 2); } if (!check(m)) return; State b = state(); drain(); if (!(a == b)) { fail("IL state changed:%s", a.diff(b).c_str()); return; }
        ilPushAttrib(IL_ALL_ATTRIB_BITS); ilEnable(IL_ORIGIN_SET); ilSetInteger(IL_TGA_RLE, 1); if (!check(m)) return; ilPopAttrib(); check(m); });
}
