// C15: registered loaders and savers against a map from extension to handler; images built by ilRegister* calls.
#include "ilx.h"
#include <ctype.h>
#include <unistd.h>
#include <sys/stat.h>
using namespace mc; using namespace ilx;
static std::vector<std::pair<int, std::string>> calls;      // (handler id, file name)
static ILenum ret[8];
template<int N> static ILenum ILAPIENTRY H(ILconst_string f) { calls.push_back({N, f}); if (N < 4 && ret[N] == IL_NO_ERROR) { ilTexImage(N + 2, 1, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, 0); memset(ilGetData(), 10 + N, N + 2); } return ret[N]; }
static IL_LOADPROC LH[] = { H<0>, H<1>, H<2> };
static IL_SAVEPROC SH[] = { H<4>, H<5>, H<6> };
static std::string low(std::string s) { for (auto& c : s) c = tolower(c); return s; }
struct Model { std::map<std::string, int> l, s; };
static const char* EXTS[] = { "qqq", "bmp", "QqQ", "q" };
// names looked up: extension registered / built-in / none
static const char* NAMES[] = { "f.qqq", "f.bmp", "f.QQQ", "a.b.Qqq", "f.q", "f.qqqq", "f.xyz", "fqqq" };
static Bytes bmp;
static std::string W(const char* n) { static std::string last; const std::string& d = workdir(); if (d != last) { last = d; for (auto x : NAMES) writefile(d + "/" + x, bmp); } return d + "/" + n; }
static void files() { if (bmp.empty()) { init(); ILuint n; ilGenImages(1, &n); ilBindImage(n); Bytes px = pattern(3 * 7 * 5, 1); mk(7, 5, 1, IL_RGB, IL_UNSIGNED_BYTE, px.data()); bmp = saveL(IL_BMP); } W(""); }
static std::string ext(const std::string& n) { size_t p = n.rfind('.'); return p == std::string::npos ? "" : low(n.substr(p + 1)); }
static ILuint fresh() { ILuint n; ilGenImages(1, &n); ilBindImage(n); ilTexImage(1, 1, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, 0); *ilGetData() = 99; return n; }
static bool lookups(Model& m)
{
    ILuint n = fresh(); drain(); uint64_t h = 0;
    for (auto name : NAMES) {
        std::string f = W(name), e = ext(name); calls.clear(); eval(); int want = m.l.count(e) ? m.l[e] : -1; h = h * 31 + want;
        ilTexImage(1, 1, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, 0); *ilGetData() = 99; ILboolean r = ilLoadImage(f.c_str()); auto er = errors();
        if (want < 0) { if (!calls.empty()) return fail("loading %s calls handler %d, none is registered for it", name, calls[0].first); if (!r || ilGetInteger(IL_IMAGE_WIDTH) != 7) return fail("loading %s without a handler: result %d, width %d", name, r, ilGetInteger(IL_IMAGE_WIDTH)); if (!er.empty()) return fail("loading %s records %s", name, ename(er[0]).c_str()); }
        else {
            if (calls.size() != 1 || calls[0].first != want) return fail("loading %s calls %zu handlers (first %d), expected handler %d once", name, calls.size(), calls.empty() ? -1 : calls[0].first, want);
            if (calls[0].second != f) return fail("handler of %s got the name '%s'", name, calls[0].second.c_str());
            if (ret[want] == IL_NO_ERROR) { if (!r || !er.empty() || ilGetInteger(IL_IMAGE_WIDTH) != want + 2 || ilGetData()[0] != 10 + want) return fail("loading %s: result %d, %zu errors, width %d instead of the handler's image", name, r, er.size(), ilGetInteger(IL_IMAGE_WIDTH)); }
            else { if (r) return fail("loading %s succeeds although its handler failed", name); if (er.size() != 1 || er[0] != ret[want]) return fail("loading %s: handler's error %s reported as %zu errors (%s)", name, ename(ret[want]).c_str(), er.size(), er.empty() ? "-" : ename(er[0]).c_str()); if (ilGetInteger(IL_IMAGE_WIDTH) != 1) return fail("loading %s replaced the image although its handler failed", name); }
        }
        // saving
        calls.clear(); ilTexImage(2, 2, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, 0); memset(ilGetData(), 1, 12); std::string o = W("out") + (strchr(name, '.') ? strchr(name, '.') : "none"); unlink(o.c_str()); want = m.s.count(e) ? m.s[e] : -1; h = h * 31 + want; r = ilSaveImage(o.c_str()); er = errors(); bool wrote = access(o.c_str(), F_OK) == 0; unlink(o.c_str());
        bool builtin = e == "bmp";
        if (want < 0) { if (!calls.empty()) return fail("saving %s calls handler %d, none is registered for it", name, calls[0].first); if (r != builtin || er.empty() != builtin || wrote != builtin) return fail("saving %s without a handler: result %d, %zu errors, file %d", name, r, er.size(), wrote); }
        else {
            if (calls.size() != 1 || calls[0].first != want) return fail("saving %s calls %zu handlers, expected handler %d once", name, calls.size(), want); if (calls[0].second != o) return fail("save handler got the name '%s'", calls[0].second.c_str());
            if (wrote) return fail("saving %s wrote a file although a handler is registered", name);
            if (ret[want] == IL_NO_ERROR ? !r || !er.empty() : r || er.size() != 1 || er[0] != ret[want]) return fail("saving %s: handler returned %s, result %d with %zu errors", name, ename(ret[want]).c_str(), r, er.size());
        }
    }
    ilDeleteImages(1, &n); outcome(h); return true;
}
static void reset() { init(); ilShutDown(); ilInit(); iluInit(); drain(); files(); ret[0] = ret[1] = ret[4] = ret[5] = IL_NO_ERROR; ret[2] = IL_INVALID_FILE_HEADER; ret[6] = IL_FORMAT_NOT_SUPPORTED; }
struct Op { std::string n; std::function<void(Model&)> f; };
static std::vector<Op> ops(int kind)   // 0 load only, 1 save only, 2 both (smaller)
{
    std::vector<Op> o;
    for (int e = 0; e < (kind == 2 ? 2 : 4); e++) {
        std::string x = EXTS[e];
        if (kind != 1) { for (int h = 0; h < (kind == 2 ? 1 : 3); h++) o.push_back({ sfmt("load_%s_%d", x.c_str(), h), [x, h](Model& m) { if (!ilRegisterLoad(x.c_str(), LH[h])) fail("ilRegisterLoad(%s) failed", x.c_str()); if (!m.l.count(low(x))) m.l[low(x)] = h; } });
            o.push_back({ "unload_" + x, [x](Model& m) { bool had = m.l.erase(low(x)); ILboolean r = ilRemoveLoad(x.c_str()); if (r != had) fail("ilRemoveLoad(%s) returned %d, a handler was%s registered", x.c_str(), r, had ? "" : " not"); } }); }
        if (kind != 0) { for (int h = 0; h < (kind == 2 ? 1 : 3); h++) o.push_back({ sfmt("save_%s_%d", x.c_str(), h), [x, h](Model& m) { if (!ilRegisterSave(x.c_str(), SH[h])) fail("ilRegisterSave(%s) failed", x.c_str()); if (!m.s.count(low(x))) m.s[low(x)] = h + 4; } });
            o.push_back({ "unsave_" + x, [x](Model& m) { bool had = m.s.erase(low(x)); ILboolean r = ilRemoveSave(x.c_str()); if (r != had) fail("ilRemoveSave(%s) returned %d, a handler was%s registered", x.c_str(), r, had ? "" : " not"); } }); }
    }
    o.push_back({ "restart", [](Model& m) { ilShutDown(); ilInit(); m = Model(); } });
    return o;
}
static void hist(int kind, const char* nm, int depth)
{
    static std::vector<Op> o[3]; o[kind] = ops(kind); std::vector<std::string> names; for (auto& x : o[kind]) names.push_back(x.n);
    seqs(nm, names, depth, [kind](const std::vector<int>& s) { reset(); Model m; for (int i : s) { transition(); o[kind][i].f(m); while (ilGetError()) ; } if (!nfails()) lookups(m); for (auto e : EXTS) { while (ilRemoveLoad(e)) ; while (ilRemoveSave(e)) ; } });
}
SUITE(loads) { hist(0, "load histories", thorough ? 4 : 3); }    // every history of registering and removing load handlers, then every lookup
SUITE(saves) { hist(1, "save histories", thorough ? 4 : 3); }
SUITE(both) { hist(2, "mixed histories", thorough ? 6 : 4); }
SUITE(lists)      // long registration lists: four handlers registered in every order, every ordered selection of them removed (first, middle, last), one registered again
{
    batch("list", 2 * 24 * 64 * 2, [](uint64_t q) { static const char* X[] = { "qqq", "bmp", "q", "qqqq" }; int save = q & 1, again = q >> 1 & 1, perm = q / 4 % 24, rem = q / 96; reset(); Model m; std::string d;
        auto reg = [&](const char* x, int h) { transition(); d += sfmt(" +%s:%d", x, h); if (!(save ? ilRegisterSave(x, SH[h]) : ilRegisterLoad(x, LH[h]))) fail("registering %s failed", x); auto& k = save ? m.s : m.l; if (!k.count(x)) k[x] = save ? h + 4 : h; };
        auto drop = [&](const char* x) { transition(); d += sfmt(" -%s", x); (save ? m.s : m.l).erase(x); if (!(save ? ilRemoveSave(x) : ilRemoveLoad(x))) fail("removing %s returned false, it was registered", x); };
        std::vector<int> left = { 0, 1, 2, 3 }, p; for (int k = 4, v = perm; k > 0; v /= k, k--) { p.push_back(left[v % k]); left.erase(left.begin() + v % k); } for (int i = 0; i < 4; i++) reg(X[p[i]], i % 3);
        int len = rem < 4 ? 1 : rem < 16 ? 2 : rem < 40 ? 3 : 4, v = rem - (len == 1 ? 0 : len == 2 ? 4 : len == 3 ? 16 : 40); left = { 0, 1, 2, 3 }; int first = -1; for (int k = 4; k > 4 - len; v /= k, k--) { int i = v % k; if (first < 0) first = left[i]; drop(X[left[i]]); left.erase(left.begin() + i); }
        if (again) reg(X[first], 1); note("%s%s", save ? "save" : "load", d.c_str()); while (ilGetError()) ; if (!nfails()) lookups(m); for (auto x : X) { while (ilRemoveLoad(x)) ; while (ilRemoveSave(x)) ; } });
}
SUITE(arguments)   // missing arguments are refused without effect
{
    batch("null", 6, [](uint64_t q) { note("%d", (int)q); reset(); Model m; ILboolean r = q == 0 ? ilRegisterLoad(0, LH[0]) : q == 1 ? ilRegisterLoad("qqq", 0) : q == 2 ? ilRegisterSave(0, SH[0]) : q == 3 ? ilRegisterSave("qqq", 0) : q == 4 ? ilRemoveLoad(0) : ilRemoveSave(0);
        if (r) fail("accepted"); drain(); lookups(m); });
}
SUITE(builder)   // images built by a handler: every format x type x origin, palettes of every layout and size, mipmaps, images and faces
{
    static struct B { ILenum f, t, o, pt; int cols, mips, imgs, faces; bool order; } b; static Bytes pal;
    static IL_LOADPROC build = [](ILconst_string) -> ILenum {
        ilTexImage(3, 2, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, 0);
        if (b.order) { ilRegisterType(b.t); ilRegisterFormat(b.f); } else { ilRegisterFormat(b.f); ilRegisterType(b.t); }
        ilRegisterOrigin(b.o); if (b.cols) ilRegisterPal(pal.data(), b.cols * palbpp(b.pt), b.pt);
        if (b.mips && !ilRegisterMipNum(b.mips)) return IL_INTERNAL_ERROR; if (b.imgs && !ilRegisterNumImages(b.imgs)) return IL_INTERNAL_ERROR; if (b.faces && !ilRegisterNumFaces(b.faces)) return IL_INTERNAL_ERROR;
        Bytes d = pattern(ilGetInteger(IL_IMAGE_SIZE_OF_DATA), 4); memcpy(ilGetData(), d.data(), d.size());
        if (b.mips) { if (!ilActiveMipmap(b.mips)) return IL_INTERNAL_ERROR; ilTexImage(1, 2, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, 0); ilBindImage(ilGetInteger(IL_CUR_IMAGE)); }
        return IL_NO_ERROR; };
    batch("layout", 8 * 9 * 2 * 2, [](uint64_t q) { b = B{ FORMATS[q % 8], TYPES[q / 8 % 9], (ILenum)(q / 72 % 2 ? IL_ORIGIN_LOWER_LEFT : IL_ORIGIN_UPPER_LEFT), 0, 0, 0, 0, 0, q / 144 != 0 }; note("%s %s", fname(b.f), tname(b.t)); reset(); ilRegisterLoad("qqq", build); fresh(); drain();
        if (!ilLoadImage(W("f.qqq").c_str())) { fail("load: %s", ename(firsterr()).c_str()); return; } auto e = errors(); if (!e.empty()) { fail("error %s", ename(e[0]).c_str()); return; } Img i = snap(); eval();
        if (i.format != (int)b.f || i.type != (int)b.t || i.origin != (int)b.o || i.bpp != channels(b.f) || i.bpc != bpc(b.t) || i.size != 6 * i.bpp * i.bpc || i.w != 3 || i.h != 2) fail("declared %s/%s origin %x, got %s", fname(b.f), tname(b.t), b.o, i.desc().c_str());
        if (i.data != pattern(i.size, 4)) fail("pixels"); outcome(i.hash()); });
    static const ILenum PT[] = { IL_PAL_RGB24, IL_PAL_RGB32, IL_PAL_RGBA32, IL_PAL_BGR24, IL_PAL_BGR32, IL_PAL_BGRA32 };
    batch("palette", 6 * 256, [](uint64_t q) { b = B{ IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, IL_ORIGIN_LOWER_LEFT, PT[q % 6], (int)(1 + q / 6), 0, 0, 0, false }; pal = pattern(b.cols * palbpp(b.pt), 9); note("palette %x %d", b.pt, b.cols); reset(); ilRegisterLoad("qqq", build); fresh(); drain();
        if (!ilLoadImage(W("f.qqq").c_str()) || ilGetError()) { fail("load"); return; } Img i = snap(); eval(); if (i.paltype != (int)b.pt || i.palcols != b.cols || i.palbpp != palbpp(b.pt) || i.pal != pal) fail("palette type %x with %d colours, declared %x with %d", i.paltype, i.palcols, b.pt, b.cols); outcome(i.hash()); });
    batch("chains", 5 * 5 * 5, [](uint64_t q) { b = B{ IL_RGB, IL_UNSIGNED_BYTE, IL_ORIGIN_UPPER_LEFT, 0, 0, (int)(q % 5), (int)(q / 5 % 5), (int)(q / 25), false }; note("%d mipmaps %d images %d faces", b.mips, b.imgs, b.faces); reset(); ilRegisterLoad("qqq", build); ILuint n = fresh(); drain();
        if (!ilLoadImage(W("f.qqq").c_str()) || ilGetError()) { fail("load"); return; } Tree t = snaptree(n); eval(); if ((int)t.mips.size() != b.mips || (int)t.imgs.size() != b.imgs || (int)t.faces.size() != b.faces || t.lays.size()) fail("%zu mipmaps, %zu images, %zu faces", t.mips.size(), t.imgs.size(), t.faces.size());
        if (b.mips && t.mips.back().img.h != 2) fail("mipmap contents"); if (t.img.w != 3 || t.img.format != IL_RGB) fail("base image %s", t.img.desc().c_str()); outcome(t.hash()); });
    batch("bad", 0x2000, [](uint64_t e) { note("enum 0x%x", (int)e); reset(); fresh(); ilTexImage(3, 2, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, 0); memset(ilGetData(), 5, 18); Img a = snap(); drain(); bool fo = false, ty = false; for (auto f : FORMATS) fo |= f == e; for (auto t : TYPES) ty |= t == e;
        for (int k = 0; k < 4; k++) { if (k == 0 ? fo : k == 1 ? ty : k == 2 && (e == IL_ORIGIN_LOWER_LEFT || e == IL_ORIGIN_UPPER_LEFT)) continue; static ILubyte p[4]; if (k == 3) { bool pt = false; for (auto x : PT) pt |= x == e; if (pt) continue; }
            eval(); k == 0 ? ilRegisterFormat(e) : k == 1 ? ilRegisterType(e) : k == 2 ? ilRegisterOrigin(e) : ilRegisterPal(p, 4, e); auto er = errors(); if (er.size() != 1) { fail("ilRegister%s(0x%x) records %zu errors", k == 0 ? "Format" : k == 1 ? "Type" : k == 2 ? "Origin" : "Pal", (int)e, er.size()); return; } Img c = snap(); if (c != a) { fail("refused call %d changed the image:%s", k, a.diff(c).c_str()); return; } } });
}
