// C03: attribute state machine. The model is a stack of complete attribute vectors; every step of every
// sequence compares all variables through every getter with the model.
#include "ilx.h"
using namespace mc; using namespace ilx;

enum Kind { AB, SI, FN };   // ilEnable/ilDisable, ilSetInteger, dedicated function
enum { NOBIT = 0 };
struct Var { const char* n; ILenum set, get; Kind k; ILuint bit; int def; std::vector<int> ok, bad; };
static const std::vector<int> BOOLBAD = { 2, -1, 0x7fffffff };
static const std::vector<Var>& V()
{
    static const std::vector<Var> v = {
        {"origin_set", IL_ORIGIN_SET, IL_ORIGIN_SET, AB, IL_ORIGIN_BIT, 0, {1, 0}, {}},
        {"origin_mode", IL_ORIGIN_MODE, IL_ORIGIN_MODE, FN, IL_ORIGIN_BIT, IL_ORIGIN_LOWER_LEFT, {IL_ORIGIN_UPPER_LEFT, IL_ORIGIN_LOWER_LEFT}, {0, IL_ORIGIN_SET, 0x0603, -1}},
        {"format_set", IL_FORMAT_SET, IL_FORMAT_SET, AB, IL_FORMAT_BIT, 0, {1, 0}, {}},
        {"format_mode", IL_FORMAT_MODE, IL_FORMAT_MODE, FN, IL_FORMAT_BIT, IL_BGRA, {IL_RGB, IL_RGBA, IL_BGR, IL_BGRA, IL_LUMINANCE, IL_LUMINANCE_ALPHA}, {0, 0x190B, IL_BYTE, -1}},
        {"type_set", IL_TYPE_SET, IL_TYPE_SET, AB, IL_TYPE_BIT, 0, {1, 0}, {}},
        {"type_mode", IL_TYPE_MODE, IL_TYPE_MODE, FN, IL_TYPE_BIT, IL_UNSIGNED_BYTE, {IL_BYTE, IL_UNSIGNED_BYTE, IL_SHORT, IL_UNSIGNED_SHORT, IL_INT, IL_UNSIGNED_INT, IL_FLOAT, IL_DOUBLE}, {0, 0x13FF, 0x1407, IL_RGB, -1}},
        {"overwrite", IL_FILE_OVERWRITE, IL_FILE_MODE, AB, IL_FILE_BIT, 0, {1, 0}, {}},
        {"conv_pal", IL_CONV_PAL, IL_CONV_PAL, AB, IL_PAL_BIT, 0, {1, 0}, {}},
        {"default_on_fail", IL_DEFAULT_ON_FAIL, IL_DEFAULT_ON_FAIL, AB, IL_LOADFAIL_BIT, 0, {1, 0}, {}},
        {"compress", IL_COMPRESS_MODE, IL_COMPRESS_MODE, FN, IL_COMPRESS_BIT, IL_COMPRESS_ZLIB, {IL_COMPRESS_NONE, IL_COMPRESS_RLE, IL_COMPRESS_ZLIB}, {0, IL_COMPRESS_LZO, -1}},
        {"key_colour", IL_USE_KEY_COLOUR, IL_USE_KEY_COLOUR, AB, NOBIT, 0, {1, 0}, {}},
        {"blit_blend", IL_BLIT_BLEND, IL_BLIT_BLEND, AB, NOBIT, 1, {0, 1}, {}},
        {"interlace", IL_SAVE_INTERLACED, IL_INTERLACE_MODE, AB, NOBIT, 0, {1, 0}, {}},
        {"nvidia", IL_NVIDIA_COMPRESS, IL_NVIDIA_COMPRESS, AB, NOBIT, 0, {1, 0}, {}},
        {"squish", IL_SQUISH_COMPRESS, IL_SQUISH_COMPRESS, AB, NOBIT, 0, {1, 0}, {}},
        {"keep_dxtc", IL_KEEP_DXTC_DATA, IL_KEEP_DXTC_DATA, SI, NOBIT, 0, {1, 0}, BOOLBAD},
        {"quant_mode", IL_QUANTIZATION_MODE, IL_QUANTIZATION_MODE, SI, NOBIT, IL_WU_QUANT, {IL_NEU_QUANT, IL_WU_QUANT}, {0, 0x0643, -1}},
        {"neu_sample", IL_NEU_QUANT_SAMPLE, IL_NEU_QUANT_SAMPLE, SI, NOBIT, 15, {1, 2, 15, 29, 30}, {0, 31, -1, 0x7fffffff}},
        {"max_quant", IL_MAX_QUANT_INDICES, IL_MAX_QUANT_INDICES, SI, NOBIT, 256, {2, 3, 128, 255, 256}, {0, 1, 257, -1}},
        {"jpg_progressive", IL_JPG_PROGRESSIVE, IL_JPG_PROGRESSIVE, AB, IL_FORMAT_SPECIFIC_BIT, 0, {1, 0}, {}},
        {"tga_stamp", IL_TGA_CREATE_STAMP, IL_TGA_CREATE_STAMP, SI, IL_FORMAT_SPECIFIC_BIT, 0, {1, 0}, BOOLBAD},
        {"jpg_quality", IL_JPG_QUALITY, IL_JPG_QUALITY, SI, IL_FORMAT_SPECIFIC_BIT, 99, {0, 1, 50, 98, 99}, {-1, 100, 255, 0x7fffffff}},
        {"png_interlace", IL_PNG_INTERLACE, IL_PNG_INTERLACE, SI, IL_FORMAT_SPECIFIC_BIT, 0, {1, 0}, BOOLBAD},
        {"tga_rle", IL_TGA_RLE, IL_TGA_RLE, SI, IL_FORMAT_SPECIFIC_BIT, 0, {1, 0}, BOOLBAD},
        {"bmp_rle", IL_BMP_RLE, IL_BMP_RLE, SI, IL_FORMAT_SPECIFIC_BIT, 0, {1, 0}, BOOLBAD},
        {"sgi_rle", IL_SGI_RLE, IL_SGI_RLE, SI, IL_FORMAT_SPECIFIC_BIT, 0, {1, 0}, BOOLBAD},
        {"jpg_format", IL_JPG_SAVE_FORMAT, IL_JPG_SAVE_FORMAT, SI, IL_FORMAT_SPECIFIC_BIT, IL_JFIF, {IL_EXIF, IL_JFIF}, {0, 1, -1}},
        {"dxtc_format", IL_DXTC_FORMAT, IL_DXTC_FORMAT, SI, IL_FORMAT_SPECIFIC_BIT, IL_DXT1, {IL_DXT3, IL_DXT5, IL_DXT1}, {0, IL_DXTC_FORMAT, -1, 0x7fffffff}},
        {"pcd_picnum", IL_PCD_PICNUM, IL_PCD_PICNUM, SI, IL_FORMAT_SPECIFIC_BIT, 2, {0, 1, 2}, {-1, 3, 0x7fffffff}},
        {"png_alpha", IL_PNG_ALPHA_INDEX, IL_PNG_ALPHA_INDEX, SI, IL_FORMAT_SPECIFIC_BIT, -1, {0, 1, 255, -1}, {-2, 256, 0x7fffffff}},
        {"vtf_comp", IL_VTF_COMP, IL_VTF_COMP, SI, IL_FORMAT_SPECIFIC_BIT, IL_DXT_NO_COMP, {IL_DXT1, IL_DXT3, IL_DXT5, IL_DXT_NO_COMP}, {0, -1, IL_DXTC_FORMAT}},
    };
    return v;
}
static const ILenum STR[] = { IL_TGA_ID_STRING, IL_TGA_AUTHNAME_STRING, IL_TGA_AUTHCOMMENT_STRING, IL_PNG_AUTHNAME_STRING, IL_PNG_TITLE_STRING, IL_PNG_DESCRIPTION_STRING, IL_TIF_DESCRIPTION_STRING, IL_TIF_HOSTCOMPUTER_STRING, IL_TIF_DOCUMENTNAME_STRING, IL_TIF_AUTHNAME_STRING, IL_CHEAD_HEADER_STRING };
static const int NS = 11;

struct Level { std::vector<int> v; std::vector<std::string> s; };   // s: "" = unset, else "=text"
static Level defaults() { Level l; for (auto& x : V()) l.v.push_back(x.def); l.s.assign(NS, ""); return l; }
struct Model {
    std::vector<Level> st; std::vector<ILenum> err;
    Model() { st.push_back(defaults()); }
    Level& top() { return st.back(); }
    void push(ILuint bits) {
        if (st.size() >= 32) { err.push_back(IL_STACK_OVERFLOW); return; }
        Level n = defaults(); Level& o = top(); bool all = (bits & IL_ALL_ATTRIB_BITS) == IL_ALL_ATTRIB_BITS;
        for (size_t i = 0; i < V().size(); i++) if (all || (V()[i].bit & bits)) n.v[i] = o.v[i];
        if (bits & IL_FORMAT_SPECIFIC_BIT) n.s = o.s;
        st.push_back(n);
    }
    void pop() { if (st.size() == 1) err.push_back(IL_STACK_UNDERFLOW); else st.pop_back(); }
};
static bool check(Model& m)
{
    eval();
    auto e = errors();                 // newest first
    if (e.size() != m.err.size()) return fail("%zu errors recorded (%s), expected %zu", e.size(), e.empty() ? "-" : ename(e[0]).c_str(), m.err.size());
    for (size_t i = 0; i < e.size(); i++) { ILenum x = m.err[m.err.size() - 1 - i]; if (x && e[i] != x) return fail("error %s, expected %s", ename(e[i]).c_str(), ename(x).c_str()); }
    m.err.clear();
    uint64_t h = 0;
    for (size_t i = 0; i < V().size(); i++) {
        const Var& x = V()[i]; int w = m.top().v[i], g = ilGetInteger(x.get);
        if (g != w) return fail("%s reads %d, expected %d (level %zu)", x.n, g, w, m.st.size());
        ILint gv = 0x5a5a5a5a; ilGetIntegerv(x.get, &gv); if (gv != w) return fail("%s: ilGetIntegerv gives %d, expected %d", x.n, gv, w);
        if (x.k == AB) { if (ilIsEnabled(x.set) != w) return fail("ilIsEnabled(%s) is %d, expected %d", x.n, ilIsEnabled(x.set), w);
            if (ilIsDisabled(x.set) != !w) return fail("ilIsDisabled(%s) is %d, expected %d", x.n, ilIsDisabled(x.set), !w);
            ILboolean b = 77; ilGetBooleanv(x.get, &b); if (b != w || ilGetBoolean(x.get) != w) return fail("ilGetBoolean(%s) is %d, expected %d", x.n, b, w); }
        h = h * 1099511628211ULL + w;
    }
    for (int i = 0; i < NS; i++) {
        const char* p = ilGetString(STR[i]); std::string g = p ? std::string("=") + p : "";
        if (g != m.top().s[i]) return fail("string 0x%x reads '%s', expected '%s'", STR[i], g.c_str(), m.top().s[i].c_str());
        h = fnv(m.top().s[i], h);
    }
    e = errors(); if (!e.empty()) return fail("a getter recorded %s", ename(e[0]).c_str());
    outcome(h * 31 + m.st.size());
    return true;
}
static void set(Model& m, int i, int val, bool legal)
{
    const Var& x = V()[i]; int ret = -1; transition();
    switch (x.k) {
    case AB: ret = val ? ilEnable(x.set) : ilDisable(x.set); break;
    case SI: ilSetInteger(x.set, val); break;
    case FN:
        if (x.set == IL_ORIGIN_MODE) ret = ilOriginFunc(val); else if (x.set == IL_FORMAT_MODE) ret = ilFormatFunc(val);
        else if (x.set == IL_TYPE_MODE) ret = ilTypeFunc(val); else ret = ilCompressFunc(val);
    }
    if (ret != -1 && ret != (legal ? IL_TRUE : IL_FALSE)) fail("setting %s to %d returned %d", x.n, val, ret);
    if (legal) m.top().v[i] = val; else m.err.push_back(IL_INVALID_PARAM);
}
static int nondefault(const Var& x, int k = 0) { std::vector<int> c; for (int v : x.ok) if (v != x.def) c.push_back(v); return c[k % c.size()]; }

// every variable x every legal and illegal value, from the default state and from an all-changed state; then every other
// variable must be untouched. Also through ilSetInteger for the *_MODE variables.
SUITE(single)
{
    struct C { int var, val; bool legal; }; std::vector<C> cs;
    for (size_t i = 0; i < V().size(); i++) { for (int v : V()[i].ok) cs.push_back({(int)i, v, true}); for (int v : V()[i].bad) cs.push_back({(int)i, v, false}); }
    batch("set", cs.size() * 4, [&](uint64_t q) {
        const C& c = cs[q / 4]; int mode = q % 4; const Var& x = V()[c.var];
        note("%s=%d mode=%d", x.n, c.val, mode);
        init(); Model m; if (!check(m)) return;
        if (mode & 1) for (size_t i = 0; i < V().size(); i++) set(m, i, nondefault(V()[i]), true);
        if (mode & 2) { ilPushAttrib(IL_ALL_ATTRIB_BITS); m.push(IL_ALL_ATTRIB_BITS); }
        if (!check(m)) return;
        set(m, c.var, c.val, c.legal);
        if (!check(m)) return;
        if (x.set == IL_ORIGIN_MODE || x.set == IL_FORMAT_MODE || x.set == IL_TYPE_MODE) { ilSetInteger(x.set, x.def); m.top().v[c.var] = x.def; if (!check(m)) return; ilSetInteger(x.set, c.val); if (c.legal) m.top().v[c.var] = c.val; else m.err.push_back(IL_INVALID_PARAM); if (!check(m)) return; }
        if (x.set == IL_KEEP_DXTC_DATA && c.legal) { if (c.val) ilEnable(x.set); else ilDisable(x.set); if (!check(m)) return; }
        if (mode & 2) { ilPopAttrib(); m.pop(); check(m); }
        ilShutDown();
    });
}
// every enum value of the library's range handed to each entry point: unknown ones are refused with an error and change nothing
SUITE(unknown)
{
    batch("enum", 0x1000, [&](uint64_t e) {
        note("enum=0x%llx", (unsigned long long)e);
        init(); Model m; for (size_t i = 0; i < V().size(); i++) set(m, i, nondefault(V()[i]), true);
        if (!check(m)) return;
        bool able = e == IL_KEEP_DXTC_DATA; for (auto& x : V()) able |= x.k == AB && x.set == e;
        bool seti = e == IL_IMAGE_DURATION || e == IL_IMAGE_OFFX || e == IL_IMAGE_OFFY || e == IL_IMAGE_CUBEFLAGS; for (auto& x : V()) seti |= (x.k == SI || (x.k == FN && x.set != IL_COMPRESS_MODE)) && x.set == e;
        bool str = false; for (ILenum s : STR) str |= s == e;
        if (!able) { if (ilEnable(e)) { fail("ilEnable accepted it"); return; } m.err.push_back(IL_INVALID_ENUM); if (!check(m)) return; if (ilDisable(e)) { fail("ilDisable accepted it"); return; } m.err.push_back(IL_INVALID_ENUM); if (!check(m)) return;
            if (ilIsEnabled(e)) { fail("ilIsEnabled is true"); return; } m.err.push_back(IL_INVALID_ENUM); if (!check(m)) return; }
        if (!seti) { ilSetInteger(e, 1); m.err.push_back(IL_INVALID_ENUM); if (!check(m)) return; }
        if (!str) { ilSetString(e, "x"); m.err.push_back(IL_INVALID_ENUM); if (!check(m)) return; }
        else { ilSetString(e, NULL); m.err.push_back(IL_INVALID_PARAM); if (!check(m)) return; }
        if (e != IL_MEM_SPEED_HINT && e != IL_COMPRESSION_HINT) { ilHint(e, IL_FASTEST); m.err.push_back(IL_INVALID_ENUM); if (!check(m)) return; }
        else { ilHint(e, 0x7777); m.err.push_back(IL_INVALID_ENUM); if (!check(m)) return; ilHint(e, IL_DONT_CARE); if (!check(m)) return; }
        { ILint p = 123456; ilGetIntegerv(e, &p); size_t n = errors().size(); if (n > 1) { fail("ilGetIntegerv recorded %zu errors", n); return; } }
        ilGetIntegerv(e, NULL); m.err.push_back(IL_INVALID_PARAM); if (!check(m)) return;
        check(m); ilShutDown();
    });
}
// every push mask (all 2^9 combinations of the eight groups and "all"), every variable non-default below, changed again above
SUITE(masks)
{
    batch("mask", 512 * 3, [&](uint64_t q) {
        ILuint mask = (q / 3) & 255; if (q / 3 & 256) mask |= IL_ALL_ATTRIB_BITS & ~255u;
        int mode = q % 3; note("mask=0x%x mode=%d", mask, mode);
        init(); Model m;
        for (size_t i = 0; i < V().size(); i++) set(m, i, nondefault(V()[i]), true);
        if (mode) for (int i = 0; i < NS; i++) { std::string t = sfmt("str%d", i); ilSetString(STR[i], t.c_str()); m.top().s[i] = "=" + t; }
        if (!check(m)) return;
        ilPushAttrib(mask); m.push(mask); if (!check(m)) return;
        if (mode == 2) { for (size_t i = 0; i < V().size(); i++) set(m, i, nondefault(V()[i], 1), true); for (int i = 0; i < NS; i++) { ilSetString(STR[i], "up"); m.top().s[i] = "=up"; } if (!check(m)) return;
            ilPushAttrib(mask ^ 255); m.push(mask ^ 255); if (!check(m)) return; ilPopAttrib(); m.pop(); if (!check(m)) return; }
        ilPopAttrib(); m.pop(); if (!check(m)) return;
        ilPopAttrib(); m.pop(); check(m);
        ilShutDown();
    });
}
// full depth
SUITE(depth)
{
    batch("depth", 40 * 4, [&](uint64_t q) {
        int n = q / 4, mode = q % 4; note("pushes=%d mode=%d", n, mode);
        init(); Model m; ILuint masks[4] = { 0, IL_ALL_ATTRIB_BITS, IL_FORMAT_SPECIFIC_BIT | IL_ORIGIN_BIT, IL_FORMAT_BIT };
        for (int k = 0; k < n; k++) {
            set(m, 21, k, true); set(m, 1, k & 1 ? IL_ORIGIN_UPPER_LEFT : IL_ORIGIN_LOWER_LEFT, true); set(m, 3, V()[3].ok[k % 6], true);
            std::string t = sfmt("level%d", k); ilSetString(STR[k % NS], t.c_str()); m.top().s[k % NS] = "=" + t;
            ilPushAttrib(masks[mode]); m.push(masks[mode]); if (!check(m)) return;
        }
        for (int k = 0; k < n + 3; k++) { ilPopAttrib(); m.pop(); if (!check(m)) return; }
        ilShutDown();
    });
}
// all sequences of representative operations
static void seq(const char* name, int depth, bool wide)
{
    struct Op { std::string n; std::function<void(Model&)> f; };
    std::vector<Op> ops;
    auto sv = [&](const char* n, int k) { for (size_t i = 0; i < V().size(); i++) if (!strcmp(V()[i].n, n)) { int v = nondefault(V()[i], k); ops.push_back({sfmt("%s=%d", n, v), [i, v](Model& m) { set(m, i, v, true); }}); } };
    auto pu = [&](ILuint b) { ops.push_back({sfmt("push(0x%x)", b), [b](Model& m) { ilPushAttrib(b); m.push(b); }}); };
    ops.push_back({"pop", [](Model& m) { ilPopAttrib(); m.pop(); }});
    pu(0); pu(IL_FORMAT_BIT | IL_PAL_BIT); pu(IL_FORMAT_SPECIFIC_BIT); pu(IL_ALL_ATTRIB_BITS);
    sv("origin_mode", 0); sv("format_mode", 0); sv("conv_pal", 0); sv("jpg_quality", 0);
    ops.push_back({"str", [](Model& m) { ilSetString(IL_TGA_ID_STRING, "abc"); m.top().s[0] = "=abc"; }});
    ops.push_back({"selfstr", [](Model& m) { const char* p = ilGetString(IL_TGA_ID_STRING); if (p) ilSetString(IL_TGA_ID_STRING, p); }});
    if (wide) { pu(IL_ORIGIN_BIT | IL_TYPE_BIT | IL_COMPRESS_BIT); sv("type_set", 0); sv("compress", 0); sv("blit_blend", 0); sv("interlace", 0); sv("quant_mode", 0);
        ops.push_back({"badfmt", [](Model& m) { ilFormatFunc(7); m.err.push_back(IL_INVALID_PARAM); }}); ops.push_back({"badq", [](Model& m) { ilSetInteger(IL_JPG_QUALITY, 100); m.err.push_back(IL_INVALID_PARAM); }});
        ops.push_back({"clearcol", [](Model&) { ilClearColour(.1f, .2f, .3f, .4f); }}); ops.push_back({"img", [](Model&) { ilTexImage(2, 2, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, 0); }}); }
    std::vector<std::string> nm; for (auto& o : ops) nm.push_back(o.n);
    seqs(name, nm, depth, [&](const std::vector<int>& s) {
        init(); Model m;
        for (int k : s) { ops[k].f(m); if (!check(m)) return; }
        ilShutDown();
    });
}
SUITE(seq) { seq("seq", thorough ? 6 : 5, false); }
SUITE(seqwide) { seq("seqwide", thorough ? 5 : 4, true); }
// the clear colour is observable through ilClearImage; the other state calls leave it alone
SUITE(clearcolour)
{
    batch("cc", 5 * 5 * 5 * 5, [&](uint64_t q) {
        static const float g[5] = { 0, 0.2f, 0.6f, 0.8f, 1.0f }; static const int e[5] = { 0, 51, 153, 204, 255 };
        int r = q % 5, gg = q / 5 % 5, b = q / 25 % 5, a = q / 125; note("rgba=%d,%d,%d,%d", r, gg, b, a);
        init(); ilClearColour(g[r], g[gg], g[b], g[a]); ilPushAttrib(0); ilEnable(IL_CONV_PAL); ilPopAttrib();
        ilTexImage(2, 1, 1, 4, IL_RGBA, IL_UNSIGNED_BYTE, 0); ilClearImage(); ILubyte* d = ilGetData(); eval();
        int w[4] = { e[r], e[gg], e[b], e[a] };
        for (int i = 0; i < 8; i++) if (abs(d[i] - w[i & 3]) > 1) { fail("cleared to %d,%d,%d,%d, expected %d,%d,%d,%d", d[0], d[1], d[2], d[3], w[0], w[1], w[2], w[3]); return; }
        outcome(q); ilShutDown();
    });
}
