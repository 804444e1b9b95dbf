// C31: ILUT's OpenGL transfers, under every kind of OpenGL implementation, against a software OpenGL that holds texels.
#include "gl.h"
#include "saves.h"
#include "files.h"
#include <IL/ilut.h>
#include <unistd.h>
using namespace mc; using namespace ilx; using namespace saves;
static ILuint nm; static GLuint mine, other; static const int GT = GL_TEXTURE_2D;
static std::function<void()> again; static void boot(const gl::Ctx& c) { again = nullptr; set_cpu_limit(120); ilShutDown(); gl::reset(c); init(); ilutInit(); ilGenImages(1, &nm); ilBindImage(nm); drain(); gl::s().tex[mine = 2].target = GT; gl::s().tex[other = 3].target = GT; gl::s().bound[GT] = mine; }
static void fill(GLuint t, int w, int h, int d = 1, GLenum base = GL_RGBA, GLenum target = GT) { auto& x = gl::s().tex[t]; x.target = target; gl::Level l; l.w = w; l.h = h; l.d = d; l.base = base; Bytes b = pattern(w * h * d * 4, 91); for (int i = 0; i < w * h * d; i++) l.t.push_back(gl::keep(gl::texel(&b[i * 4], GL_RGBA, GL_UNSIGNED_BYTE), base)); x.lv[{ target, 0 }] = l; }
static std::vector<gl::Ctx> ctxs() { std::vector<gl::Ctx> v; for (int i = 0; i < 6; i++) { gl::Ctx c; c.npot = i & 1; c.max = i < 2 ? 64 : i < 4 ? 4 : 6; c.cube = c.t3 = c.s3tc = i & 1; v.push_back(c); } return v; }
static std::string cn(const gl::Ctx& c) { return mc::sfmt("%s, at most %d%s%s%s", c.npot ? "any size" : "powers of two", c.max, c.cube ? ", cube maps" : "", c.s3tc ? ", S3TC" : "", c.t3 ? ", 3D" : ""); }
static int np2(int x) { int p = 1; while (p < x) p *= 2; return p; } static int lp2(int x) { int p = 1; while (p * 2 <= x) p *= 2; return p; }
// what the texture should show: the image, expanded, in a type OpenGL knows, and scaled to a size it takes
static void rebind(ILuint n) { ilBindImage(n); if (again) again(); }
static size_t held() { size_t n = 0; for (auto& t : gl::s().tex) for (auto& l : t.second.lv) n += 300 + l.second.t.capacity() * sizeof(gl::T4) + l.second.blocks.capacity(); return n; }
static bool picture(Img& out, const gl::Ctx& c, bool vol = false)
{
    ILuint src = ilGetInteger(IL_CUR_IMAGE), t; Img a = snap(); ilGenImages(1, &t); ilBindImage(t); bool idx = a.format == IL_COLOUR_INDEX, ok; if (idx) ok = mkpal(a.w, a.h, a.paltype, a.palcols, a.data.data(), a.pal.data(), a.origin, a.d); else ok = mk(a.w, a.h, a.d, a.format, a.type, a.data.data(), a.origin);
    if (idx) { static const std::map<int, int> B = { { IL_PAL_RGB24, IL_RGB }, { IL_PAL_RGB32, IL_RGBA }, { IL_PAL_RGBA32, IL_RGBA }, { IL_PAL_BGR24, IL_BGR }, { IL_PAL_BGR32, IL_BGRA }, { IL_PAL_BGRA32, IL_BGRA } }; ok = ok && ilConvertImage(ilGetInteger(IL_PALETTE_BASE_TYPE), IL_UNSIGNED_BYTE); } else if (a.type == IL_DOUBLE || a.type == IL_HALF) ok = ok && ilConvertImage(a.format, IL_FLOAT);
    int w = c.npot ? std::min(a.w, c.max) : std::min(np2(a.w), lp2(c.max)), h = c.npot ? std::min(a.h, c.max) : std::min(np2(a.h), lp2(c.max)), d = !vol ? a.d : c.npot ? std::min(a.d, c.max3) : std::min(np2(a.d), lp2(c.max3));
    if (ok && (w != a.w || h != a.h || d != a.d)) { iluImageParameter(ILU_FILTER, idx ? ILU_NEAREST : ILU_BILINEAR); ok = iluScale(w, h, d); iluImageParameter(ILU_FILTER, ILU_NEAREST); }
    if (ok) out = snap(); rebind(src); ilDeleteImages(1, &t); drain(); return ok;
}
static std::string shows(const gl::Level& l, const Img& p, bool scaled)
{
    std::vector<gl::T4> e = gl::expected(p); eval(3); if (l.w != p.w || l.h != p.h || l.d != p.d) return mc::sfmt("the texture is %dx%dx%d, expected %dx%dx%d", l.w, l.h, l.d, p.w, p.h, p.d); if (l.t.size() != e.size()) return "the texture is incomplete";
    double tol = (p.bpc == 4 ? 1e-6 : 1e-9) + (scaled ? 1.01 / (p.bpc == 1 ? 255 : 65535) : 0); for (size_t i = 0; i < e.size(); i++) for (int k = 0; k < 4; k++) if (!(fabs(e[i][k] - l.t[i][k]) <= tol)) return mc::sfmt("texel %d,%d channel %d is %.6f, expected %.6f", (int)(i % l.w), (int)(i / l.w), k, l.t[i][k], e[i][k]); return "";
}
struct World { Tree t; State st; int filter, cur; gl::Tex o; size_t heap; size_t ntex; };
static World look() { World w; ilGetIntegerv(IL_CUR_IMAGE, &w.cur); w.t = snaptree(nm); drain(); w.st = state(); w.filter = iluGetInteger(ILU_FILTER); w.o = gl::s().tex[other]; w.ntex = gl::s().tex.size(); drain(); return w; }
static bool kept(const World& a, const char* what, int newtex = 0)
{
    World b = look(); eval(5); if (a.t != b.t) return fail("%s: the image changed: %s", what, a.t.diff(b.t).c_str()); if (!(a.st == b.st)) return fail("%s: state: %s", what, a.st.diff(b.st).c_str()); if (a.filter != b.filter) return fail("%s: ILU_FILTER changed", what); if (!(a.o == b.o)) return fail("%s: another texture changed", what); if (b.ntex != a.ntex + newtex) return fail("%s: %zu textures, expected %zu", what, b.ntex, a.ntex + newtex); return true;
}
enum { TEX, BIND, MIPS, BINDMIPS, NUP }; static const char* UN[] = { "ilutGLTexImage", "ilutGLBindTexImage", "ilutGLBuildMipmaps", "ilutGLBindMipmaps" };
// the application's own pixel store modes, which the calls that set up their own must not be touched by
static int modes = 0;
static void app() { auto& p = gl::s().ps; int m = modes++ % 6; p[GL_UNPACK_ALIGNMENT] = m == 0 ? 8 : m == 5 ? 2 : 4; p[GL_PACK_ALIGNMENT] = 8; if (m == 1 || m == 5) p[GL_UNPACK_SKIP_ROWS] = 1; if (m == 2 || m == 5) p[GL_UNPACK_SKIP_PIXELS] = 2; if (m == 3 || m == 5) p[GL_UNPACK_ROW_LENGTH] = 70; if (m == 4 || m == 5) p[GL_UNPACK_SWAP_BYTES] = 1; }
static GLuint up(int how) { switch (how) { case TEX: return ilutGLTexImage(0); case BIND: return ilutGLBindTexImage(); case MIPS: return ilutGLBuildMipmaps(); default: return ilutGLBindMipmaps(); } }
// uploads the selected image and judges the texture
static bool upload(int how, const gl::Ctx& c, const char* what, bool base = true)
{
    Img p; if (!picture(p, c)) return true; Img src = snap(); drain(); World w; if (base) w = look(); size_t h0 = heap_bytes(), h1; errors(); GLuint r = up(how); h1 = heap_bytes(); auto er = errors(); transition(); std::string v = gl::verdict(); if (!v.empty()) return fail("%s: not allowed: %s", what, v.c_str()); if (!r) return fail("%s: refused: %s", what, er.empty() ? "no error" : ename(er[0]).c_str()); if (er.size()) return fail("%s: error %s", what, ename(er[0]).c_str());
    bool nw = how == BIND || how == BINDMIPS; GLuint t = nw ? r : mine; if (nw && (r == mine || r == other || !gl::s().tex.count(r))) return fail("%s: %u is no new texture", what, r); if (gl::s().bound[GT] != t) return fail("%s: texture %u is bound, expected %u", what, gl::s().bound[GT], t); gl::Tex& x = gl::s().tex[t]; if (!x.lv.count({ GT, 0 })) return fail("%s: nothing was uploaded", what);
    std::string s = shows(x.lv[{ GT, 0 }], p, p.w != src.w || p.h != src.h); if (!s.empty()) return fail("%s: %s", what, s.c_str()); GLenum want = p.format == IL_BGR ? GL_RGB : p.format == IL_BGRA ? GL_RGBA : p.format; if (x.lv[{ GT, 0 }].base != want) return fail("%s: base format 0x%x, expected 0x%x", what, x.lv[{ GT, 0 }].base, want);
    if (how == MIPS || how == BINDMIPS) { int n = 1; for (int a = p.w, b = p.h; a > 1 || b > 1; a /= 2, b /= 2) n++; if ((int)x.lv.size() != n) return fail("%s: %zu levels, expected %d", what, x.lv.size(), n); } else if (x.lv.size() != 1) return fail("%s: %zu levels", what, x.lv.size());
    if (nw) { GLint mn = how == BIND ? GL_LINEAR : GL_LINEAR_MIPMAP_LINEAR; if (x.par[GL_TEXTURE_MIN_FILTER] != mn || x.par[GL_TEXTURE_MAG_FILTER] != GL_LINEAR) return fail("%s: the filters", what); }
    if (snap() != src) return fail("%s: the image changed: %s", what, src.diff(snap()).c_str()); drain(); outcome(fnv(x.lv[{ GT, 0 }].t.data(), x.lv[{ GT, 0 }].t.size() * sizeof(gl::T4))); if (base && !kept(w, what, nw)) return false; if (h1 > h0 + 2000 + held()) return fail("%s: %zu bytes are kept", what, h1 - h0); return true;
}
static const int S[][2] = { { 1, 1 }, { 2, 2 }, { 4, 2 }, { 3, 2 }, { 5, 3 }, { 1, 4 }, { 8, 1 }, { 7, 8 }, { 6, 6 }, { 2, 5 }, { 4, 4 }, { 12, 3 } }; static int NS() { return thorough ? 12 : 7; }
static std::vector<K> KS() { std::vector<K> v; for (ILenum f : FORMATS) if (f != IL_COLOUR_INDEX) for (ILenum t : TYPES) v.push_back({ f, t, 0, 0 }); for (int p : { IL_PAL_RGB24, IL_PAL_RGB32, IL_PAL_RGBA32, IL_PAL_BGR24, IL_PAL_BGR32, IL_PAL_BGRA32 }) for (int n : { 3, 256 }) v.push_back({ IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, (ILenum)p, n }); return v; }
SUITE(upload)
{
    static std::vector<K> ks = KS(); static std::vector<gl::Ctx> cs = ctxs();
    batch("image", ks.size() * NS() * 2 * cs.size(), [](uint64_t q) { gl::Ctx c = cs[q % cs.size()]; q /= cs.size(); int org = q & 1; q /= 2; const int* s = S[q % NS()]; const K& k = ks[q / NS()]; note("%s %dx%d origin %d, %s", kname(k).c_str(), s[0], s[1], org, cn(c).c_str());
        for (int how = 0; how < NUP; how++) for (int conv = 0; conv < 2; conv++) { boot(c); if (!make(k, s[0], s[1], org)) { drain(); return; } fill(other, 2, 2); if (conv) ilutEnable(ILUT_OPENGL_CONV); else ilutDisable(ILUT_OPENGL_CONV); if (how == TEX || how == MIPS) gl::s().ps[GL_UNPACK_ALIGNMENT] = 1; if (how == BIND) { modes = (int)(k.f + k.t + s[0] * 3 + s[1] + conv) % 6; app(); } drain(); if (!upload(how, c, mc::sfmt("%s%s", UN[how], conv ? " converting" : "").c_str())) return; } });
    // the selected sub-image is the one uploaded; levels; the size limits of the user
    batch("selected", 4 * 3 * 2 * cs.size(), [](uint64_t q) { gl::Ctx c = cs[q % cs.size()]; q /= cs.size(); int org = q & 1; q /= 2; int kind = q % 3; q /= 3; int how = q; note("%s of sub-image kind %d origin %d, %s", UN[how], kind, org, cn(c).c_str()); boot(c); make({ IL_RGB, IL_UNSIGNED_BYTE, 0, 0 }, 4, 4, org); ILenum sk = kind == 0 ? IL_SUB_NEXT : kind == 1 ? IL_SUB_MIPMAP : IL_SUB_LAYER; ilCreateSubImage(sk, 1); auto sel = [&](int i) { ilBindImage(nm); return kind == 0 ? ilActiveImage(i) : kind == 1 ? ilActiveMipmap(i) : ilActiveLayer(i); }; for (int i = 1; i < 3; i++) { sel(i); make({ i == 1 ? IL_BGRA : IL_LUMINANCE, IL_UNSIGNED_BYTE, 0, 0 }, 2, 4, !org, 40 + i); if (i == 1) ilCreateSubImage(sk, 1); } ilBindImage(nm); Tree t0 = snaptree(nm);
        for (int i = 2; i >= 0; i--) { again = [=] { sel(i); }; sel(i); drain(); if (!upload(how, c, mc::sfmt("number %d", i).c_str(), false)) return; if (ilGetInteger(kind == 0 ? IL_ACTIVE_IMAGE : kind == 1 ? IL_ACTIVE_MIPMAP : IL_ACTIVE_LAYER) != i) { fail("another image is selected"); return; } gl::s().bound[GT] = mine; gl::s().tex[mine].lv.clear(); } if (snaptree(nm) != t0) fail("the images changed"); });
    batch("level", 12 * cs.size(), [](uint64_t q) { gl::Ctx c = cs[q % cs.size()]; int l = q / cs.size(); note("level %d, %s", l, cn(c).c_str()); boot(c); make(KN[0], 4, 2); Img p; picture(p, c); drain(); if (!ilutGLTexImage(l)) { fail("refused"); return; } transition(); std::string v = gl::verdict(); if (!v.empty()) { fail("%s", v.c_str()); return; } auto& x = gl::s().tex[mine]; if (x.lv.size() != 1 || !x.lv.count({ GT, l })) { fail("another level"); return; } v = shows(x.lv[{ GT, l }], p, false); if (!v.empty()) fail("%s", v.c_str()); });
    batch("limit", 12 * 12 * 2 * 6, [](uint64_t q) { gl::Ctx c; c.max = 64; c.npot = q & 1; q /= 2; int k = q % 6; q /= 6; int mw = q % 12 + 1, mh = q / 12 + 1; note("%s of at most %dx%d, %s", k < 4 ? UN[k] : "?", mw, mh, c.npot ? "any size" : "powers of two"); if (k > 3) return; for (auto& s : S) { boot(c); ilutSetInteger(ILUT_MAXTEX_WIDTH, mw); ilutSetInteger(ILUT_MAXTEX_HEIGHT, mh); make(KN[0], s[0], s[1]); drain(); GLuint r = up(k); transition(); std::string v = gl::verdict(); if (!r) { fail("%dx%d: refused", s[0], s[1]); return; } if (!v.empty()) { fail("%dx%d: %s", s[0], s[1], v.c_str()); return; } auto& x = gl::s().tex[k == BIND || k == BINDMIPS ? r : mine].lv[{ GT, 0 }]; int w = c.npot ? std::min(s[0], mw) : std::min(np2(s[0]), lp2(mw)), h = c.npot ? std::min(s[1], mh) : std::min(np2(s[1]), lp2(mh)); if (x.w != w || x.h != h) { fail("%dx%d becomes %dx%d, expected %dx%d", s[0], s[1], x.w, x.h, w, h); return; } } });
    // one program, several OpenGL implementations in turn
    seqs("contexts", { "plain", "any size", "cube maps", "S3TC", "3D", "all", "small" }, thorough ? 4 : 3, [](const std::vector<int>& o) {
        boot(gl::Ctx()); files::Dds d; d.w = d.h = 4; d.bits = 24; d.flags = 0x40; d.r = 0xff0000; d.g = 0xff00; d.b = 0xff; d.caps2 = 0xfe00; Bytes cube = files::dds(d, pattern(16 * 3 * 6, 9));
        for (int k : o) { gl::Ctx c; c.npot = k == 1 || k == 5; c.cube = k == 2 || k == 5; c.s3tc = k == 3 || k == 5; c.t3 = k == 4 || k == 5; if (k == 6) c.max = 2; gl::reset(c); gl::s().tex[mine].target = gl::s().tex[other].target = GT; gl::s().bound[GT] = mine; if (!ilutRenderer(ILUT_OPENGL)) { fail("ilutRenderer"); return; } std::string v = gl::verdict(); if (!v.empty()) { fail("ilutRenderer: %s", v.c_str()); return; } if (ilutGetInteger(ILUT_MAXTEX_WIDTH) != c.max || ilutGetInteger(ILUT_MAXTEX_DEPTH) != (c.t3 ? c.max3 : 1)) { fail("the size limits are not those of the context"); return; }
            ilBindImage(nm); make(KN[0], 3, 2); drain(); if (!upload(TEX, c, "3x2")) return; gl::s().bound[GT] = mine; gl::s().tex[mine].lv.clear(); ilutEnable(ILUT_GL_AUTODETECT_TEXTURE_TARGET); ilLoadL(IL_DDS, cube.data(), cube.size()); drain(); gl::s().bound[0x8513] = 77; if (c.cube) gl::s().tex[77].target = 0x8513; if (!ilutGLTexImage(0)) { fail("cube map refused"); return; } v = gl::verdict(); if (!v.empty()) { fail("cube map: %s", v.c_str()); return; } eval(); int n = gl::s().tex[c.cube ? 77 : mine].lv.size(); if (n != (c.cube ? 6 : 1)) { fail("a cube map gives %d images", n); return; } if (c.cube && gl::s().tex[mine].lv.size()) { fail("a cube map goes to a 2D texture as well"); return; } ilutDisable(ILUT_GL_AUTODETECT_TEXTURE_TARGET); gl::s().tex[mine].lv.clear();
            ilutEnable(ILUT_GL_USE_S3TC); ilutEnable(ILUT_GL_GEN_S3TC); ilutSetInteger(ILUT_S3TC_FORMAT, IL_DXT1); make(KN[0], 2, 2); drain(); if (!ilutGLTexImage(0)) { fail("compressed: refused"); return; } v = gl::verdict(); if (!v.empty()) { fail("compressed: %s", v.c_str()); return; } if (!gl::s().tex[mine].lv[{ GT, 0 }].cfmt != !c.s3tc) { fail("compressed data %s", c.s3tc ? "not used" : "where there is none"); return; } ilutDisable(ILUT_GL_USE_S3TC); ilutDisable(ILUT_GL_GEN_S3TC);
            fill(50, 4, 4, 4, GL_RGBA, 0x806F); GLboolean r3 = ilutGLSetTex3D(50); v = gl::verdict(); if (!v.empty()) { fail("3D: %s", v.c_str()); return; } if (!!r3 != c.t3) { fail("3D: returns %d", r3); return; } mk(2, 2, 2, IL_RGB, IL_UNSIGNED_BYTE, pattern(24, 1).data()); r3 = ilutGLSubTex3D(50, 1, 1, 1); v = gl::verdict(); if (!v.empty()) { fail("3D part: %s", v.c_str()); return; } if (!!r3 != c.t3) { fail("3D part: returns %d", r3); return; } drain(); outcome(k); } });
}
static bool block(const gl::Level& before, const gl::Level& after, const Img& p, long X, long Y, long Z)
{
    std::vector<gl::T4> e = gl::expected(p); gl::Level want = before; for (int z = 0; z < p.d; z++) for (int y = 0; y < p.h; y++) for (int x = 0; x < p.w; x++) want.t[((z + Z) * want.h + y + Y) * want.w + x + X] = gl::keep(e[((size_t)z * p.h + y) * p.w + x], want.base); eval(); for (size_t i = 0; i < want.t.size(); i++) for (int k = 0; k < 4; k++) if (fabs(want.t[i][k] - after.t[i][k]) > 1e-6) return fail("texel %d,%d,%d channel %d is %.5f, expected %.5f", (int)(i % want.w), (int)(i / want.w % want.h), (int)(i / want.w / want.h), k, after.t[i][k], want.t[i][k]); return true;
}
SUITE(parts)
{
    static const ILuint O[] = { 0, 1, 2, 3, 4, 5, 0x7fffffff, 0xffffffff, 0xfffffffe, 0xfffffffc }; static const int NO = 10; static std::vector<K> ks = { { IL_RGB, IL_UNSIGNED_BYTE, 0, 0 }, { IL_BGRA, IL_UNSIGNED_SHORT, 0, 0 }, { IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, IL_PAL_BGR24, 9 }, { IL_LUMINANCE_ALPHA, IL_FLOAT, 0, 0 }, { IL_RGBA, IL_DOUBLE, 0, 0 } };
    batch("2D", ks.size() * 4 * 4 * NO * 2 * 2, [](uint64_t q) { modes = 0; bool old = q & 1; int org = q >> 1 & 1; q /= 4; ILuint X = O[q % NO]; q /= NO; int w = q % 4 + 1, h = q / 4 % 4 + 1; const K& k = ks[q / 16]; note("%s %dx%d origin %d from %u %s", kname(k).c_str(), w, h, org, X, old ? "ilutGLSubTex" : "ilutGLSubTex2D");
        for (ILuint Y : O) for (int base = 0; base < 2; base++) { gl::Ctx c; c.npot = true; boot(c); make(k, w, h, org); Img p; picture(p, c); fill(other, 2, 2); fill(mine, 4, 3, 1, base ? GL_RGB : GL_RGBA); gl::s().bound[GT] = other; gl::Level b = gl::s().tex[mine].lv[{ GT, 0 }]; app(); World wd = look(); errors(); size_t h0 = heap_bytes(); ILboolean r = old ? ilutGLSubTex(mine, X, Y) : ilutGLSubTex2D(mine, X, Y); size_t h1 = heap_bytes(); auto er = errors(); transition(); bool fits = (uint64_t)X + w <= 4 && (uint64_t)Y + h <= 3; std::string v = gl::verdict(); if (!v.empty()) { fail("at %u: %s", Y, v.c_str()); return; } if (!!r != fits) { fail("at %u: returns %d", Y, r); return; } if (r == !er.empty()) { fail("at %u: %zu errors", Y, er.size()); return; } gl::Level a = gl::s().tex[mine].lv[{ GT, 0 }]; if (fits) { if (!block(b, a, p, X, Y, 0)) return; } else if (!(a == b)) { fail("at %u: refused, but the texture changed", Y); return; } if (!kept(wd, "the call")) return; if (h1 > h0 + 1500) { fail("%zu bytes are kept", h1 - h0); return; } outcome(fnv(a.t.data(), a.t.size() * sizeof(gl::T4))); } });
    batch("3D", 2 * 3 * 3 * 3 * NO, [](uint64_t q) { modes = 0; ILuint X = O[q % NO]; q /= NO; int d = q % 3 + 1, w = q / 3 % 3 + 1, h = q / 9 % 3 + 1, org = q / 27; note("%dx%dx%d origin %d from %u", w, h, d, org, X);
        for (ILuint Y : O) for (ILuint Z : O) { gl::Ctx c; c.npot = c.t3 = true; boot(c); mk(w, h, d, IL_RGB, IL_UNSIGNED_BYTE, pattern(w * h * d * 3, 4).data(), org ? IL_ORIGIN_LOWER_LEFT : IL_ORIGIN_UPPER_LEFT); Img p = snap(); fill(50, 3, 4, 5, GL_RGBA, 0x806F); fill(other, 2, 2); gl::Level b = gl::s().tex[50].lv[{ 0x806F, 0 }]; app(); World wd = look(); errors(); ILboolean r = ilutGLSubTex3D(50, X, Y, Z); auto er = errors(); transition(); bool fits = (uint64_t)X + w <= 3 && (uint64_t)Y + h <= 4 && (uint64_t)Z + d <= 5; std::string v = gl::verdict(); if (!v.empty()) { fail("at %u,%u: %s", Y, Z, v.c_str()); return; } if (!!r != fits || r == !er.empty()) { fail("at %u,%u: returns %d with %zu errors", Y, Z, r, er.size()); return; } gl::Level a = gl::s().tex[50].lv[{ 0x806F, 0 }]; if (fits) { if (!block(b, a, p, X, Y, Z)) return; } else if (!(a == b)) { fail("refused, but the texture changed"); return; } if (!kept(wd, "the call")) return; } });
    // textures that do not exist
    batch("none", 4, [](uint64_t q) { note("call %d", (int)q); gl::Ctx c; c.t3 = c.npot = true; boot(c); make(KN[0], 3, 2); Tree t = snaptree(nm); drain(); ILboolean r = q == 0 ? ilutGLSubTex2D(999, 0, 0) : q == 1 ? ilutGLSubTex3D(999, 0, 0, 0) : q == 2 ? ilutGLSetTex2D(999) : ilutGLSetTex3D(999); auto e = errors(); std::string v = gl::verdict(); eval(3); if (r) fail("succeeds"); else if (e.empty()) fail("no error"); else if (!v.empty()) fail("%s", v.c_str()); else if (snaptree(nm) != t) fail("the image changed"); });
}
static Bytes bgra(const gl::Level& l) { Bytes b; for (auto& c : l.t) { bool lum = l.base == GL_LUMINANCE || l.base == GL_LUMINANCE_ALPHA; double q[4] = { lum ? 0 : c[2], lum ? 0 : c[1], c[0], c[3] }; for (double x : q) b.push_back((uint8_t)(x * 255 + 0.5)); } return b; }
static bool holds(const gl::Level& l, const char* what) { Img i = snap(); Bytes e = bgra(l); eval(4); if (i.w != l.w || i.h != l.h || i.d != l.d) return fail("%s: the image is %dx%dx%d", what, i.w, i.h, i.d); for (int z = 0; z < l.d; z++) for (int y = 0; y < l.h; y++) for (int x = 0; x < l.w; x++) { conv::Px p = conv::decode(i.at(x, l.h - 1 - y, z), i.format, i.type); const uint8_t* q = &e[((size_t)(z * l.h + y) * l.w + x) * 4]; if (p.c[0] != q[2] || p.c[1] != q[1] || p.c[2] != q[0] || ((i.format == IL_RGBA || i.format == IL_BGRA) && p.c[3] != q[3])) return fail("%s: texel %d,%d,%d", what, x, y, z); } return true; }
SUITE(back)
{
    static const GLenum B[] = { GL_RGBA, GL_RGB, GL_LUMINANCE, GL_LUMINANCE_ALPHA, GL_ALPHA };
    batch("texture", 6 * 5 * 5 * 3 * 3, [](uint64_t q) { int how = q % 3; q /= 3; int pre = q % 3; q /= 3; GLenum b = B[q % 5]; q /= 5; int w = q % 6 + 1, h = q / 6 + 1; note("%s of %dx%d base 0x%x, image before: %d", how == 0 ? "ilutGLSetTex2D" : how == 1 ? "ilutGLSetTex" : "ilutGLSetTex3D", w, h, b, pre); gl::Ctx c; c.npot = c.t3 = true; boot(c); if (pre) make(pre == 1 ? KN[0] : K{ IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, IL_PAL_RGB24, 7 }, 3, 5); ILuint n2; ilGenImages(1, &n2); ilBindImage(n2); make(KN[0], 2, 3); Tree t2 = snaptree(n2); ilBindImage(nm); int d = how == 2 ? 3 : 1; GLenum tg = how == 2 ? 0x806F : GT; fill(50, w, h, d, b, tg); fill(other, 2, 2); gl::Tex a = gl::s().tex[50]; drain(); ILboolean r = how == 0 ? ilutGLSetTex2D(50) : how == 1 ? ilutGLSetTex(50) : ilutGLSetTex3D(50); auto e = errors(); transition(); std::string v = gl::verdict(); if (!v.empty()) { fail("%s", v.c_str()); return; } if (!r || e.size()) { fail("%s", r ? "an error" : "refused"); return; } if ((ILuint)ilGetInteger(IL_CUR_IMAGE) != nm) { fail("another image is bound"); return; } if (!holds(a.lv[{ tg, 0 }], "the image")) return; if (!(gl::s().tex[50] == a)) fail("the texture changed"); if (snaptree(n2) != t2) fail("another image changed"); outcome(w * 64 + h);
        // and up again
        ilBindImage(nm); if (how < 2) { if (!ilutGLTexImage(0)) { fail("upload again"); return; } v = gl::verdict(); if (!v.empty()) { fail("upload again: %s", v.c_str()); return; } Img i = snap(); std::string s = shows(gl::s().tex[50].lv[{ GT, 0 }], i, false); if (!s.empty()) fail("upload again: %s", s.c_str()); } });
    // a sub-image takes it just as well, and the others keep theirs
    batch("selected", 3 * 3, [](uint64_t q) { int kind = q % 3, i = q / 3; note("sub-image kind %d number %d", kind, i); gl::Ctx c; c.npot = true; boot(c); make(KN[0], 3, 2); ILenum sk = kind == 0 ? IL_SUB_NEXT : kind == 1 ? IL_SUB_MIPMAP : IL_SUB_LAYER; ilCreateSubImage(sk, 1); auto sel = [&](int n) { ilBindImage(nm); return kind == 0 ? ilActiveImage(n) : kind == 1 ? ilActiveMipmap(n) : ilActiveLayer(n); }; for (int n = 1; n < 3; n++) { sel(n); make(KN[0], 2, 2, 0, n); if (n == 1) ilCreateSubImage(sk, 1); } fill(50, 4, 5); sel(0); Img b0 = snap(); sel(i); drain(); if (!ilutGLSetTex2D(50)) { fail("refused"); return; } eval(); if (ilGetInteger(kind == 0 ? IL_ACTIVE_IMAGE : kind == 1 ? IL_ACTIVE_MIPMAP : IL_ACTIVE_LAYER) != i) { fail("another is selected"); return; } if (!holds(gl::s().tex[50].lv[{ GT, 0 }], "the sub-image")) return; if (i) { sel(0); Img b = snap(); b.nimg = b0.nimg; b.nmip = b0.nmip; b.nlay = b0.nlay; if (b != b0) fail("the base image changed"); } });
    batch("window", 9 * 5, [](uint64_t q) { int w = q % 9 + 1, h = q / 9 + 1; note("%dx%d", w, h); gl::Ctx c; boot(c); make(KN[0], 2, 2); auto& s = gl::s(); s.fbw = w; s.fbh = h; s.fb = pattern(w * h * 3, 8); app(); drain(); ILboolean r = ilutGLScreen(); auto e = errors(); transition(); std::string v = gl::verdict(); if (!r || e.size() || !v.empty()) { fail("%d %s", r, v.c_str()); return; } Img i = snap(); eval(); if (i.w != w || i.h != h) { fail("%dx%d", i.w, i.h); return; } for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { conv::Px p = conv::decode(i.at(x, h - 1 - y), i.format, i.type); for (int k = 0; k < 3; k++) if (p.c[k] != s.fb[(y * w + x) * 3 + k]) { fail("pixel %d,%d", x, y); return; } } outcome(i.hash()); });
    // screen0.tga to screen127.tga, the first that is free
    batch("screenshots", 5, [](uint64_t q) { static const int N[] = { 0, 1, 5, 127, 128 }; int n = N[q]; note("%d taken", n); char cwd[4096]; if (!getcwd(cwd, sizeof cwd)) return; gl::Ctx c; boot(c); make(KN[0], 2, 2); ilCreateSubImage(IL_SUB_NEXT, 2); ilActiveImage(2); make(KN[0], 3, 2); Tree t0 = snaptree(nm); ilActiveImage(2); auto& s = gl::s(); s.fbw = 4; s.fbh = 3; s.fb = pattern(36, 8); app(); std::string d = workdir(); if (chdir(d.c_str())) return; for (int i = 0; i < n; i++) writefile(mc::sfmt("screen%d.tga", i), Bytes(3, i)); drain(); ILboolean r = ilutGLScreenie(); auto e = errors(); std::vector<Bytes> f; for (int i = 0; i < 130; i++) { f.push_back(readfile(mc::sfmt("screen%d.tga", i))); remove(mc::sfmt("screen%d.tga", i).c_str()); } if (chdir(cwd)) {} eval(5); std::string v = gl::verdict(); if (!v.empty()) { fail("%s", v.c_str()); return; } if (!!r != (n < 128)) { fail("returns %d", r); return; } if (r == !e.empty()) { fail("%zu errors", e.size()); return; } for (int i = 0; i < 130; i++) if (i < n ? f[i] != Bytes(3, i) : i > n && f[i].size()) { fail("screen%d.tga changed", i); return; } if ((ILuint)ilGetInteger(IL_CUR_IMAGE) != nm || ilGetInteger(IL_ACTIVE_IMAGE) != 2) { fail("another image is selected"); return; } if (n < 128) { if (!ilLoadL(IL_TGA, f[n].data(), f[n].size())) { fail("the file does not load"); return; } Img i = snap(); for (int y = 0; y < 3; y++) for (int x = 0; x < 4; x++) { conv::Px p = conv::decode(i.at(x, 2 - y), i.format, i.type); for (int k = 0; k < 3; k++) if (i.w != 4 || i.h != 3 || p.c[k] != s.fb[(y * 4 + x) * 3 + k]) { fail("the file shows something else"); return; } } } else if (snaptree(nm) != t0) fail("the image changed"); });
}
SUITE(files)
{
    batch("save", 3 * 5 * 6, [](uint64_t q) { static const char* X[] = { "tga", "png", "bmp" }; const char* x = X[q % 3]; q /= 3; int w = q % 5 + 1, h = q / 5 + 1; note("%s %dx%d", x, w, h); gl::Ctx c; c.npot = true; boot(c); make(KN[0], 2, 2); ilCreateSubImage(IL_SUB_NEXT, 1); ilActiveImage(1); make(KN[0], 3, 2); Tree t0 = snaptree(nm); ilActiveImage(1); fill(50, w, h); std::string f = workdir() + "/s." + x; remove(f.c_str()); drain(); ILboolean r = ilutGLSaveImage((ILstring)f.c_str(), 50); auto e = errors(); transition(); std::string v = gl::verdict(); if (!r || e.size() || !v.empty()) { fail("%d %s %s", r, e.empty() ? "" : ename(e[0]).c_str(), v.c_str()); return; } if ((ILuint)ilGetInteger(IL_CUR_IMAGE) != nm || ilGetInteger(IL_ACTIVE_IMAGE) != 1) { fail("another image is selected"); return; } if (snaptree(nm) != t0) { fail("the image changed"); return; } if (!ilLoadImage(f.c_str())) { fail("does not load"); return; } remove(f.c_str()); holds(gl::s().tex[50].lv[{ GT, 0 }], "the file");
        // a failed save, an unknown texture
        drain(); ilBindImage(nm); if (ilutGLSaveImage((ILstring)(workdir() + "/none/x.tga").c_str(), 50)) fail("saved nowhere"); if (errors().empty()) fail("no error"); if (ilutGLSaveImage((ILstring)f.c_str(), 999)) fail("an unknown texture was saved"); if (errors().empty()) fail("no error"); if (readfile(f).size()) fail("a file was written"); if ((ILuint)ilGetInteger(IL_CUR_IMAGE) != nm) fail("another image is bound"); });
    batch("load", NFM * KN.size() * 2, [](uint64_t q) { gl::Ctx c; c.npot = q & 1; q /= 2; const F& f = FM[q % NFM]; const K& k = KN[q / NFM]; note("%s %s, %s", f.ext, kname(k).c_str(), cn(c).c_str()); boot(c); if (!make(k, 4, 2)) return; bool ok; Bytes b = saveL(f.type, &ok); drain(); if (!ok) return; std::string n = workdir() + "/l." + f.ext; writefile(n, b); if (!ilLoadImage(n.c_str())) { drain(); remove(n.c_str()); return; } Img p; if (!picture(p, c)) { remove(n.c_str()); return; } size_t nt = gl::s().tex.size(); drain(); GLuint t = ilutGLLoadImage((ILstring)n.c_str()); auto e = errors(); transition(); remove(n.c_str()); std::string v = gl::verdict(); if (!v.empty()) { fail("%s", v.c_str()); return; } if (!t || e.size()) { fail("refused"); return; } std::string s = shows(gl::s().tex[t].lv[{ GT, 0 }], p, true); if (!s.empty()) { fail("%s", s.c_str()); return; } outcome(p.hash()); if (ilutGLLoadImage((ILstring)n.c_str())) fail("a file that does not exist gives a texture"); if (errors().empty()) fail("no error"); if (gl::s().tex.size() != nt + 1) fail("a texture is left over"); });
}
SUITE(cubes)
{
    batch("cube", 64 * 2 * 2 * 4, [](uint64_t q) { int how = q & 1; bool au = q >> 1 & 1; q /= 4; gl::Ctx c; c.cube = q & 1; c.npot = q >> 1 & 1; q /= 4; int mask = q; note("faces %02x, %s%s, %s", mask, UN[how], au ? " automatic" : "", cn(c).c_str()); int sz = c.npot ? 3 : 4, nf = __builtin_popcount(mask); boot(c); files::Dds d; d.w = d.h = sz; d.bits = 24; d.flags = 0x40; d.r = 0xff0000; d.g = 0xff00; d.b = 0xff; d.caps2 = mask ? 0x200 | mask << 10 : 0; Bytes f = files::dds(d, pattern(sz * sz * 3 * std::max(nf, 1), 9)); if (!ilLoadL(IL_DDS, f.data(), f.size())) { drain(); return; } fill(other, 2, 2); if (au) ilutEnable(ILUT_GL_AUTODETECT_TEXTURE_TARGET); std::vector<Img> fi; std::vector<int> fl; int nface = ilGetInteger(IL_NUM_FACES); for (int i = 0; i <= nface; i++) { ilBindImage(nm); ilActiveFace(i); fl.push_back(ilGetInteger(IL_IMAGE_CUBEFLAGS)); Img p; picture(p, c); fi.push_back(p); } ilBindImage(nm); if (c.cube) { gl::s().tex[77].target = 0x8513; gl::s().bound[0x8513] = 77; } drain(); World wd = look(); errors();
        GLuint r = up(how); auto e = errors(); transition(); std::string v = gl::verdict(); if (!v.empty()) { fail("%s", v.c_str()); return; } if (!r || e.size()) { fail("refused"); return; } bool cube = au && c.cube && mask; gl::Tex& x = gl::s().tex[how == BIND ? r : cube ? 77 : mine]; if (cube) { eval(nf); if ((int)x.lv.size() != nf) { fail("%zu of %d faces", x.lv.size(), nf); return; } if (x.target != 0x8513) { fail("target"); return; } for (size_t i = 0; i < fi.size(); i++) { static const int FL[] = { IL_CUBEMAP_POSITIVEX, IL_CUBEMAP_NEGATIVEX, IL_CUBEMAP_POSITIVEY, IL_CUBEMAP_NEGATIVEY, IL_CUBEMAP_POSITIVEZ, IL_CUBEMAP_NEGATIVEZ }; int n = std::find(FL, FL + 6, fl[i]) - FL; auto it = x.lv.find({ 0x8515 + n, 0 }); if (it == x.lv.end()) { fail("face %d is missing", n); return; } std::string s = shows(it->second, fi[i], false); if (!s.empty()) { fail("face %d: %s", n, s.c_str()); return; } } } else { if (x.lv.size() != 1) { fail("%zu images", x.lv.size()); return; } std::string s = shows(x.lv[{ GT, 0 }], fi[0], false); if (!s.empty()) { fail("%s", s.c_str()); return; } } kept(wd, "the call", how == BIND); outcome(mask); });
    // compressed textures
    batch("compressed", 10 * 3 * 3 * 7 * 4 * 2, [](uint64_t q) { gl::Ctx c; c.npot = q & 1; q /= 2; c.s3tc = q & 1; bool use = q >> 1 & 1; q /= 4; static const ILenum D[] = { IL_DXT1, IL_DXT2, IL_DXT3, IL_DXT4, IL_DXT5, 0, 1 }; ILenum fmt = D[q % 7]; q /= 7; static const ILenum RT[] = { 0, IL_DXT1, IL_DXT5 }; ILenum ret = RT[q % 3]; q /= 3; static const K kk[] = { { IL_RGB, IL_UNSIGNED_BYTE, 0, 0 }, { IL_BGRA, IL_UNSIGNED_BYTE, 0, 0 }, { IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, IL_PAL_RGB24, 9 } }; const K& k = kk[q % 3]; q /= 3; static const int Z[][2] = { { 4, 4 }, { 1, 1 }, { 2, 8 }, { 8, 4 }, { 5, 4 }, { 3, 3 }, { 16, 1 }, { 64, 4 }, { 65, 4 }, { 128, 2 } }; const int* z = Z[q]; note("%s %dx%d kept %x generated %x %s, %s", kname(k).c_str(), z[0], z[1], ret, fmt, use ? "in use" : "", cn(c).c_str()); boot(c); make(k, z[0], z[1]); if (ret && !ilSurfaceToDxtcData(ret)) { drain(); return; } if (use) ilutEnable(ILUT_GL_USE_S3TC); else ilutDisable(ILUT_GL_USE_S3TC); if (fmt == 1) ilutDisable(ILUT_GL_GEN_S3TC); else if (fmt) { ilutEnable(ILUT_GL_GEN_S3TC); ilutSetInteger(ILUT_S3TC_FORMAT, fmt); } else ilutEnable(ILUT_GL_GEN_S3TC); ILenum now = ilutGetInteger(ILUT_S3TC_FORMAT); drain();
        bool fits = z[0] <= c.max && (c.npot || (gl::pot(z[0]) && gl::pot(z[1]))); bool kd = false; ILenum kf = ilGetInteger(IL_DXTC_DATA_FORMAT); kd = ret && (kf == IL_DXT1 || kf == IL_DXT3 || kf == IL_DXT5); bool gen = fmt != 1 && (now == IL_DXT1 || now == IL_DXT3 || now == IL_DXT5); ILenum want = !use || !c.s3tc || !fits ? 0 : kd ? kf : gen ? now : 0; Bytes blocks; if (want) { ILuint n = ilGetDXTCData(0, 0, want); blocks.resize(n); if (!n || !ilGetDXTCData(blocks.data(), n, want)) { drain(); want = 0; } } drain(); Img p; if (!picture(p, c)) return; fill(other, 2, 2); World wd = look(); errors(); size_t h0 = heap_bytes(); GLuint r = ilutGLBindTexImage(); size_t h1 = heap_bytes(); auto e = errors(); transition(); std::string v = gl::verdict(); if (!v.empty()) { fail("%s", v.c_str()); return; } if (!r || e.size()) { fail("%s", r ? ename(e[0]).c_str() : "refused"); return; } auto& l = gl::s().tex[r].lv[{ GT, 0 }]; static const std::map<ILenum, GLenum> G = { { IL_DXT1, 0x83F1 }, { IL_DXT3, 0x83F2 }, { IL_DXT5, 0x83F3 } }; eval(2); if (want) { if (l.cfmt != G.at(want) && !(want == IL_DXT1 && l.cfmt == 0x83F0)) { fail("compressed format 0x%x for 0x%x", l.cfmt, want); return; } if (l.blocks != blocks || l.w != z[0] || l.h != z[1]) { fail("other blocks"); return; } } else { if (l.cfmt) { fail("compressed unasked"); return; } std::string s = shows(l, p, p.w != z[0] || p.h != z[1]); if (!s.empty()) { fail("%s", s.c_str()); return; } } if (!kept(wd, "the call", 1)) return; if (h1 > h0 + 2000 + held()) fail("%zu bytes are kept", h1 - h0); outcome(want * 100 + z[0]); });
}
// every allocation refused, and mipmaps refused by GLU
static long cnt, at_ = -1; static bool all_, armed; static void* ILAPIENTRY al(ILsizei n) { if (armed) { long c = cnt++; if (c == at_ || (all_ && c > at_)) return 0; } return malloc(n); } static void ILAPIENTRY fr(void const* p) { free((void*)p); }
SUITE(refused)
{
    static std::vector<K> ks = KS(); static std::vector<gl::Ctx> cs = ctxs();
    batch("memory", ks.size() * 2 * cs.size() * 8, [](uint64_t q) { int how = q % 8; q /= 8; gl::Ctx c = cs[q % cs.size()]; q /= cs.size(); int org = q & 1; const K& k = ks[q / 2]; if (!thorough && k.f != IL_COLOUR_INDEX && k.t != IL_UNSIGNED_BYTE && k.t != IL_DOUBLE) return; static const char* N[] = { "ilutGLTexImage", "ilutGLBindTexImage", "ilutGLBuildMipmaps", "ilutGLBindMipmaps", "ilutGLSubTex2D", "ilutGLSetTex2D", "ilutGLBindTexImage with S3TC", "GLU" }; note("%s of %s origin %d, %s", N[how], kname(k).c_str(), org, cn(c).c_str());
        long n = 1; for (long i = -1; i < n; i++) for (int all = 0; all < (i < 0 ? 1 : 2); all++) { ilShutDown(); ilSetMemory(al, fr); boot(c); if (!make(k, 3, 4, org)) { ilSetMemory(0, 0); drain(); return; } fill(other, 2, 2); if (how == 5) fill(50, 3, 2); else fill(50, 4, 4); if (how == 6) { ilutEnable(ILUT_GL_USE_S3TC); ilutEnable(ILUT_GL_GEN_S3TC); ilutSetInteger(ILUT_S3TC_FORMAT, IL_DXT5); } gl::s().ps[GL_UNPACK_ALIGNMENT] = 1; if (how == 7) gl::s().glu_fail = 100902; World w = look(); errors(); at_ = i; all_ = all; cnt = 0; armed = true; GLuint r; switch (how) { case 4: r = ilutGLSubTex2D(50, 0, 0); break; case 5: r = ilutGLSetTex2D(50); break; case 6: r = ilutGLBindTexImage(); break; case 7: r = ilutGLBindMipmaps(); break; default: r = up(how); } armed = false; if (i < 0) n = cnt; auto e = errors(); transition(); step("allocation %ld%s", i, all ? " and later" : ""); std::string v = gl::verdict(); if (!v.empty()) { fail("not allowed: %s", v.c_str()); return; } if (!r && e.empty()) { fail("fails without an error"); return; } if (r && e.size()) { fail("works, but error %s", ename(e[0]).c_str()); return; } if (i < 0 && !r != (how == 7)) { fail("returns %u", r); return; } bool nw = how == 1 || how == 3 || how == 6; if (how != 5 || !r) { if (!kept(w, r ? "success" : "failure", r && nw)) return; } gl::s().glu_fail = 0; ilBindImage(nm); if (!ilutGLTexImage(0)) { fail("afterwards an upload fails"); return; } outcome(how * 1000 + i + 1); }
        ilShutDown(); ilSetMemory(0, 0); });
}
