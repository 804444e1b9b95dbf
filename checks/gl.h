// An OpenGL implementation in a few lines: texture objects hold texels, every call is judged by the rules of OpenGL 1.x, and
// what it offers (texture sizes, cube maps, S3TC, 3D textures) can be chosen. It replaces libGL and libGLU in a check.
#pragma once
#include "ilx.h"
#include "conv.h"
#include <GL/gl.h>
#include <GL/glu.h>
#include <array>
#include <cstdarg>
namespace gl {
using namespace ilx;
typedef std::array<double, 4> T4;
struct Level { int w = 0, h = 0, d = 0; GLenum base = 0; GLenum cfmt = 0; Bytes blocks; std::vector<T4> t; bool operator==(const Level& o) const { return w == o.w && h == o.h && d == o.d && base == o.base && cfmt == o.cfmt && blocks == o.blocks && t == o.t; } };
struct Tex { GLenum target = 0; std::map<std::pair<GLenum, int>, Level> lv; std::map<GLenum, GLint> par; bool operator==(const Tex& o) const { return target == o.target && lv == o.lv; } };
struct Ctx { bool npot = false, cube = false, s3tc = false, t3 = false; int max = 64, max3 = 16; };
struct St { Ctx c; std::map<GLuint, Tex> tex; std::map<GLenum, GLuint> bound; std::map<GLenum, GLint> ps; std::vector<std::string> bad; GLuint next = 5; int fbw = 0, fbh = 0; Bytes fb; int glu_fail = 0; std::string ext; };
inline St& s() { static St x; return x; }
inline void reset(const Ctx& c) { s() = St(); s().c = c; s().ps[GL_UNPACK_ALIGNMENT] = s().ps[GL_PACK_ALIGNMENT] = 4; s().ext = "GL_EXT_bgra "; if (c.npot) s().ext += "GL_ARB_texture_non_power_of_two "; else s().ext += "GL_ARB_texture_non_power_of_two_but_not_really ";
    if (c.cube) s().ext += "GL_ARB_texture_cube_map "; if (c.t3) s().ext += "GL_EXT_texture3D "; else s().ext += "XGL_EXT_texture3D "; if (c.s3tc) s().ext += "GL_ARB_texture_compression GL_EXT_texture_compression_s3tc"; else s().ext += "GL_ARB_texture_compression"; }
inline void bad(const char* f, ...) { char b[300]; va_list v; va_start(v, f); vsnprintf(b, sizeof b, f, v); va_end(v); s().bad.push_back(b); }
inline std::string verdict() { std::string r = s().bad.empty() ? "" : s().bad[0]; s().bad.clear(); return r; }
inline GLint ps(GLenum e) { auto i = s().ps.find(e); return i == s().ps.end() ? 0 : i->second; }
inline bool pot(int x) { return x > 0 && !(x & (x - 1)); }
inline int comps(GLenum f) { switch (f) { case GL_RGB: case GL_BGR: return 3; case GL_RGBA: case GL_BGRA: return 4; case GL_LUMINANCE: case GL_ALPHA: return 1; case GL_LUMINANCE_ALPHA: return 2; default: return 0; } }
inline int tsize(GLenum t) { switch (t) { case GL_BYTE: case GL_UNSIGNED_BYTE: return 1; case GL_SHORT: case GL_UNSIGNED_SHORT: return 2; case GL_INT: case GL_UNSIGNED_INT: case GL_FLOAT: return 4; default: return 0; } }
inline double comp(const uint8_t* p, GLenum t) { switch (t) { case GL_UNSIGNED_BYTE: return *p / 255.0; case GL_BYTE: return (2.0 * (int8_t)*p + 1) / 255; case GL_UNSIGNED_SHORT: { uint16_t v; memcpy(&v, p, 2); return v / 65535.0; } case GL_SHORT: { int16_t v; memcpy(&v, p, 2); return (2.0 * v + 1) / 65535; }
    case GL_UNSIGNED_INT: { uint32_t v; memcpy(&v, p, 4); return v / 4294967295.0; } case GL_INT: { int32_t v; memcpy(&v, p, 4); return (2.0 * v + 1) / 4294967295.0; } case GL_FLOAT: { float v; memcpy(&v, p, 4); return v; } default: return 0; } }
inline T4 texel(const uint8_t* p, GLenum f, GLenum t) { int z = tsize(t); auto C = [&](int i) { return comp(p + i * z, t); }; switch (f) { case GL_RGB: return { C(0), C(1), C(2), 1 }; case GL_BGR: return { C(2), C(1), C(0), 1 }; case GL_RGBA: return { C(0), C(1), C(2), C(3) }; case GL_BGRA: return { C(2), C(1), C(0), C(3) }; case GL_LUMINANCE: return { C(0), C(0), C(0), 1 }; case GL_LUMINANCE_ALPHA: return { C(0), C(0), C(0), C(1) }; case GL_ALPHA: return { 0, 0, 0, C(0) }; default: return { 0, 0, 0, 0 }; } }
inline GLenum base(GLint i) { switch (i) { case 1: case GL_LUMINANCE: case 0x8040: case 0x8042: return GL_LUMINANCE; case 2: case GL_LUMINANCE_ALPHA: case 0x8045: case 0x8048: return GL_LUMINANCE_ALPHA; case 3: case GL_RGB: case GL_RGB8: case 0x8054: return GL_RGB; case 4: case GL_RGBA: case GL_RGBA8: case 0x805B: return GL_RGBA; case GL_ALPHA: case 0x803C: case 0x803E: return GL_ALPHA; default: return 0; } }
inline T4 keep(T4 c, GLenum b) { for (auto& x : c) x = x < 0 ? 0 : x > 1 ? 1 : x; switch (b) { case GL_LUMINANCE: return { c[0], c[0], c[0], 1 }; case GL_LUMINANCE_ALPHA: return { c[0], c[0], c[0], c[3] }; case GL_ALPHA: return { 0, 0, 0, c[3] }; case GL_RGB: return { c[0], c[1], c[2], 1 }; default: return c; } }
// the rows of a client's image under the pixel store modes
inline bool unpack(const char* who, int w, int h, int d, GLenum f, GLenum t, const void* data, GLenum b, std::vector<T4>& out)
{
    if (!comps(f)) { bad("%s: format 0x%x", who, f); return false; } if (!tsize(t)) { bad("%s: type 0x%x", who, t); return false; } if (!data) { bad("%s: no data", who); return false; }
    size_t px = comps(f) * tsize(t), rl = ps(GL_UNPACK_ROW_LENGTH) ? ps(GL_UNPACK_ROW_LENGTH) : w, al = ps(GL_UNPACK_ALIGNMENT), row = (rl * px + al - 1) / al * al; const uint8_t* p = (const uint8_t*)data; out.clear(); if (ps(GL_UNPACK_SWAP_BYTES)) { bad("swapped bytes"); return false; }
    for (int z = 0; z < d; z++) for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) out.push_back(keep(texel(p + (size_t)z * h * row + (y + ps(GL_UNPACK_SKIP_ROWS)) * row + (x + ps(GL_UNPACK_SKIP_PIXELS)) * px, f, t), b)); return true;
}
inline Tex* cur(const char* who, GLenum target) { GLenum b = target >= 0x8515 && target <= 0x851A ? 0x8513 : target; if (b != GL_TEXTURE_2D && !(b == 0x8513 && s().c.cube) && !(b == 0x806F && s().c.t3)) { bad("%s: target 0x%x", who, target); return 0; } GLuint n = s().bound[b]; Tex& t = s().tex[n ? n : 0x80000000u + b]; t.target = b; return &t; }
inline bool size(const char* who, int w, int h, int d, int max, int level) { for (int x : { w, h, d }) { if (x < 1 || x > max) { bad("%s: size %d (of at most %d)", who, x, max); return false; } if (!s().c.npot && !pot(x)) { bad("%s: size %d is no power of two", who, x); return false; } } if (level < 0 || level > 12) { bad("%s: level %d", who, level); return false; } return true; }
inline void image(const char* who, GLenum target, int level, GLint in, int w, int h, int d, int border, GLenum f, GLenum t, const void* p) { Tex* x = cur(who, target); if (!x) return; GLenum b = base(in); if (!b) { bad("%s: internal format 0x%x", who, in); return; } if (border) { bad("%s: border", who); return; } if (target >= 0x8515 && target <= 0x851A && w != h) { bad("%s: a cube face of %dx%d", who, w, h); return; } if (!size(who, w, h, d, target == 0x806F ? s().c.max3 : s().c.max, level)) return; std::vector<T4> o; if (!unpack(who, w, h, d, f, t, p, b, o)) return; Level& l = x->lv[{ target, level }]; l = Level(); l.w = w; l.h = h; l.d = d; l.base = b; l.t = o; }
inline void sub(const char* who, GLenum target, int level, int xo, int yo, int zo, int w, int h, int d, GLenum f, GLenum t, const void* p) { Tex* x = cur(who, target); if (!x) return; auto i = x->lv.find({ target, level }); if (i == x->lv.end()) { bad("%s: no such level", who); return; } Level& l = i->second; if (xo < 0 || yo < 0 || zo < 0 || w < 0 || h < 0 || d < 0 || (long)xo + w > l.w || (long)yo + h > l.h || (long)zo + d > l.d) { bad("%s: block %d,%d,%d %dx%dx%d of %dx%dx%d", who, xo, yo, zo, w, h, d, l.w, l.h, l.d); return; } std::vector<T4> o; if (!unpack(who, w, h, d, f, t, p, l.base, o)) return; for (int c = 0; c < d; c++) for (int b = 0; b < h; b++) for (int a = 0; a < w; a++) l.t[((size_t)(c + zo) * l.h + b + yo) * l.w + a + xo] = o[((size_t)c * h + b) * w + a]; }
// the texture a user of this library would expect from an image: memory rows from the bottom
inline std::vector<T4> expected(const Img& i) { std::vector<T4> v; for (int z = 0; z < i.d; z++) for (int y = i.h - 1; y >= 0; y--) for (int x = 0; x < i.w; x++) v.push_back(keep(texel(i.at(x, y, z), i.format, i.type), i.format == IL_BGR ? GL_RGB : i.format == IL_BGRA ? GL_RGBA : i.format)); return v; }
} // namespace gl
extern "C" {
static void APIENTRY mcTexImage3D(GLenum g, GLint l, GLenum in, GLsizei w, GLsizei h, GLsizei d, GLint b, GLenum f, GLenum t, const void* p) { gl::image("glTexImage3D", g, l, in, w, h, d, b, f, t, p); }
static void APIENTRY mcTexSubImage3D(GLenum g, GLint l, GLint x, GLint y, GLint z, GLsizei w, GLsizei h, GLsizei d, GLenum f, GLenum t, const void* p) { gl::sub("glTexSubImage3D", g, l, x, y, z, w, h, d, f, t, p); }
static void APIENTRY mcCompressed2D(GLenum g, GLint l, GLenum in, GLsizei w, GLsizei h, GLint b, GLsizei n, const void* p) { const char* W = "glCompressedTexImage2D"; gl::Tex* x = gl::cur(W, g); if (!x) return; if (in < 0x83F0 || in > 0x83F3) { gl::bad("%s: format 0x%x", W, in); return; } if (!gl::size(W, w, h, 1, gl::s().c.max, l) || b) return; int want = (w + 3) / 4 * ((h + 3) / 4) * (in <= 0x83F1 ? 8 : 16); if (n != want) { gl::bad("%s: %d bytes for %dx%d", W, n, w, h); return; } gl::Level& v = x->lv[{ g, l }]; v = gl::Level(); v.w = w; v.h = h; v.d = 1; v.base = GL_RGBA; v.cfmt = in; v.blocks.assign((const uint8_t*)p, (const uint8_t*)p + n); }
void (*glXGetProcAddressARB(const GLubyte* n))(void) { std::string s = (const char*)n; if (s == "glTexImage3D") return (void (*)())mcTexImage3D; if (s == "glTexSubImage3D") return (void (*)())mcTexSubImage3D; if (s == "glCompressedTexImage2DARB" || s == "glCompressedTexImage2D") return (void (*)())mcCompressed2D; return (void (*)())1; }
void APIENTRY glEnable(GLenum) {}
void APIENTRY glTexEnvi(GLenum g, GLenum p, GLint) { if (g != GL_TEXTURE_ENV || p != GL_TEXTURE_ENV_MODE) gl::bad("glTexEnvi"); }
void APIENTRY glTexParameteri(GLenum g, GLenum p, GLint v) { gl::Tex* x = gl::cur("glTexParameteri", g); if (x) x->par[p] = v; }
void APIENTRY glPixelStorei(GLenum p, GLint v) { gl::s().ps[p] = v; }
const GLubyte* APIENTRY glGetString(GLenum n) { return n == GL_EXTENSIONS ? (const GLubyte*)gl::s().ext.c_str() : 0; }
void APIENTRY glGetIntegerv(GLenum n, GLint* v) { auto& s = gl::s(); switch (n) { case GL_MAX_TEXTURE_SIZE: *v = s.c.max; break; case 0x8073: if (s.c.t3) *v = s.c.max3; else gl::bad("glGetIntegerv(GL_MAX_3D_TEXTURE_SIZE)"); break; case GL_VIEWPORT: v[0] = v[1] = 0; v[2] = s.fbw; v[3] = s.fbh; break; default: gl::bad("glGetIntegerv(0x%x)", n); } }
void APIENTRY glGenTextures(GLsizei n, GLuint* v) { for (int i = 0; i < n; i++) { v[i] = gl::s().next++; gl::s().tex[v[i]]; } }
void APIENTRY glDeleteTextures(GLsizei n, const GLuint* v) { for (int i = 0; i < n; i++) if (v[i]) { gl::s().tex.erase(v[i]); for (auto& b : gl::s().bound) if (b.second == v[i]) b.second = 0; } }
void APIENTRY glBindTexture(GLenum g, GLuint n) { auto& s = gl::s(); if (g != GL_TEXTURE_2D && !(g == 0x8513 && s.c.cube) && !(g == 0x806F && s.c.t3)) { gl::bad("glBindTexture(0x%x)", g); return; } if (n) { auto& t = s.tex[n]; if (t.target && t.target != g) { gl::bad("glBindTexture: another target"); return; } t.target = g; } s.bound[g] = n; }
void APIENTRY glTexImage2D(GLenum g, GLint l, GLint in, GLsizei w, GLsizei h, GLint b, GLenum f, GLenum t, const void* p) { if (g == 0x806F) { gl::bad("glTexImage2D: target"); return; } gl::image("glTexImage2D", g, l, in, w, h, 1, b, f, t, p); }
void APIENTRY glTexSubImage2D(GLenum g, GLint l, GLint x, GLint y, GLsizei w, GLsizei h, GLenum f, GLenum t, const void* p) { gl::sub("glTexSubImage2D", g, l, x, y, 0, w, h, 1, f, t, p); }
void APIENTRY glGetTexLevelParameteriv(GLenum g, GLint l, GLenum n, GLint* v) { gl::Tex* x = gl::cur("glGetTexLevelParameteriv", g); if (!x) return; auto i = x->lv.find({ g, l }); gl::Level z; gl::Level& q = i == x->lv.end() ? z : i->second; switch (n) { case GL_TEXTURE_WIDTH: *v = q.w; break; case GL_TEXTURE_HEIGHT: *v = q.h; break; case 0x8071: *v = q.d; break; default: gl::bad("glGetTexLevelParameteriv(0x%x)", n); } }
void APIENTRY glGetTexImage(GLenum g, GLint l, GLenum f, GLenum t, void* p) { gl::Tex* x = gl::cur("glGetTexImage", g); if (!x) return; auto i = x->lv.find({ g, l }); if (i == x->lv.end()) { gl::bad("glGetTexImage: no such level"); return; } if ((f != GL_BGRA && f != GL_RGBA) || t != GL_UNSIGNED_BYTE) { gl::bad("glGetTexImage: format 0x%x type 0x%x", f, t); return; } uint8_t* o = (uint8_t*)p; for (auto& c : i->second.t) { bool lum = i->second.base == GL_LUMINANCE || i->second.base == GL_LUMINANCE_ALPHA; double q[4] = { c[0], lum ? 0 : c[1], lum ? 0 : c[2], c[3] }; for (int k = 0; k < 4; k++) *o++ = (uint8_t)(q[f == GL_BGRA && k < 3 ? 2 - k : k] * 255 + 0.5); } }
void APIENTRY glReadPixels(GLint x, GLint y, GLsizei w, GLsizei h, GLenum f, GLenum t, void* p) { auto& s = gl::s(); if ((f != GL_RGB && f != GL_BGR) || t != GL_UNSIGNED_BYTE) { gl::bad("glReadPixels: format"); return; } size_t al = gl::ps(GL_PACK_ALIGNMENT), row = (w * 3 + al - 1) / al * al; for (int j = 0; j < h; j++) for (int i = 0; i < w; i++) for (int c = 0; c < 3; c++) if (x + i < s.fbw && y + j < s.fbh) ((uint8_t*)p)[j * row + i * 3 + (f == GL_BGR ? 2 - c : c)] = s.fb[((y + j) * s.fbw + x + i) * 3 + c]; }
GLint APIENTRY gluBuild2DMipmaps(GLenum g, GLint in, GLsizei w, GLsizei h, GLenum f, GLenum t, const void* p) { auto& s = gl::s(); if (s.glu_fail) return s.glu_fail; if (w < 1 || h < 1) { gl::bad("gluBuild2DMipmaps: %dx%d", w, h); return 100901; } if (!gl::base(in) || !gl::comps(f) || !gl::tsize(t)) { gl::bad("gluBuild2DMipmaps: internal 0x%x format 0x%x type 0x%x", in, f, t); return 100900; } for (int l = 0;; l++) { if (l == 0) gl::image("gluBuild2DMipmaps", g, 0, in, w, h, 1, 0, f, t, p); else { gl::Tex* x = gl::cur("gluBuild2DMipmaps", g); if (!x || !x->lv.count({ g, 0 })) break; gl::Level m; m.w = std::max(1, w >> l); m.h = std::max(1, h >> l); m.d = 1; m.base = x->lv[{ g, 0 }].base; x->lv[{ g, l }] = m; } if (w >> l <= 1 && h >> l <= 1) break; } return 0; }
}
