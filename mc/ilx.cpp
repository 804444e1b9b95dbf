#include "ilx.h"
#include <cmath>
#include <cstdarg>
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" const char* __asan_default_options() { return "detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=600:exitcode=77:abort_on_error=0:handle_abort=0:detect_stack_use_after_return=0:quarantine_size_mb=8:malloc_context_size=4:alloc_dealloc_mismatch=0"; }
#endif
namespace ilx {
const std::vector<ILenum> FORMATS = { IL_RGB, IL_RGBA, IL_BGR, IL_BGRA, IL_LUMINANCE, IL_LUMINANCE_ALPHA, IL_ALPHA, IL_COLOUR_INDEX };
const std::vector<ILenum> TYPES = { IL_UNSIGNED_BYTE, IL_BYTE, IL_UNSIGNED_SHORT, IL_SHORT, IL_UNSIGNED_INT, IL_INT, IL_FLOAT, IL_DOUBLE, IL_HALF };
int channels(ILenum f) { switch (f) { case IL_RGB: case IL_BGR: return 3; case IL_RGBA: case IL_BGRA: return 4; case IL_LUMINANCE_ALPHA: return 2; default: return 1; } }
int bpc(ILenum t) { switch (t) { case IL_UNSIGNED_BYTE: case IL_BYTE: return 1; case IL_UNSIGNED_SHORT: case IL_SHORT: case IL_HALF: return 2; case IL_DOUBLE: return 8; default: return 4; } }
const char* fname(ILenum f) { switch (f) { case IL_RGB: return "RGB"; case IL_RGBA: return "RGBA"; case IL_BGR: return "BGR"; case IL_BGRA: return "BGRA"; case IL_LUMINANCE: return "LUM"; case IL_LUMINANCE_ALPHA: return "LA"; case IL_ALPHA: return "ALPHA"; case IL_COLOUR_INDEX: return "IDX"; } return "F?"; }
const char* tname(ILenum t) { switch (t) { case IL_UNSIGNED_BYTE: return "u8"; case IL_BYTE: return "s8"; case IL_UNSIGNED_SHORT: return "u16"; case IL_SHORT: return "s16"; case IL_UNSIGNED_INT: return "u32"; case IL_INT: return "s32"; case IL_FLOAT: return "f32"; case IL_DOUBLE: return "f64"; case IL_HALF: return "f16"; } return "T?"; }
std::string ename(ILenum e)
{
    switch (e) { case IL_NO_ERROR: return "NO_ERROR"; case IL_INVALID_ENUM: return "INVALID_ENUM"; case IL_OUT_OF_MEMORY: return "OUT_OF_MEMORY"; case IL_FORMAT_NOT_SUPPORTED: return "FORMAT_NOT_SUPPORTED"; case IL_INTERNAL_ERROR: return "INTERNAL_ERROR"; case IL_INVALID_VALUE: return "INVALID_VALUE"; case IL_ILLEGAL_OPERATION: return "ILLEGAL_OPERATION"; case IL_ILLEGAL_FILE_VALUE: return "ILLEGAL_FILE_VALUE"; case IL_INVALID_FILE_HEADER: return "INVALID_FILE_HEADER"; case IL_INVALID_EXTENSION: return "INVALID_EXTENSION"; case IL_FILE_ALREADY_EXISTS: return "FILE_ALREADY_EXISTS"; case IL_OUT_FORMAT_SAME: return "OUT_FORMAT_SAME"; case IL_STACK_OVERFLOW: return "STACK_OVERFLOW"; case IL_STACK_UNDERFLOW: return "STACK_UNDERFLOW"; case IL_INVALID_CONVERSION: return "INVALID_CONVERSION"; case IL_BAD_DIMENSIONS: return "BAD_DIMENSIONS"; case IL_FILE_READ_ERROR: return "FILE_READ_ERROR"; case IL_INVALID_PARAM: return "INVALID_PARAM"; case IL_COULD_NOT_OPEN_FILE: return "COULD_NOT_OPEN_FILE"; }
    return mc::sfmt("err%04X", e);
}
int palbpp(ILenum p) { switch (p) { case IL_PAL_RGB24: case IL_PAL_BGR24: return 3; case IL_PAL_RGB32: case IL_PAL_RGBA32: case IL_PAL_BGR32: case IL_PAL_BGRA32: return 4; } return 0; }
double half2d(uint16_t h)
{
    int s = h >> 15, e = (h >> 10) & 31, m = h & 1023; double v;
    if (e == 0) v = ldexp((double)m, -24); else if (e == 31) v = m ? NAN : INFINITY; else v = ldexp((double)(m + 1024), e - 25);
    return s ? -v : v;
}
uint16_t d2half_trunc(double v)
{
    uint16_t s = std::signbit(v) ? 0x8000 : 0; v = fabs(v);
    if (v == 0) return s;
    if (v >= 65504) return s | 0x7bff;
    int e; double m = frexp(v, &e); // v = m*2^e, m in [.5,1)
    int E = e - 1;
    if (E < -14) return s | (uint16_t)floor(ldexp(v, 24));
    return s | (uint16_t)(((E + 15) << 10) | ((int)floor(ldexp(m, 11)) - 1024));
}
double rdsample(const uint8_t* p, ILenum t)
{
    switch (t) {
    case IL_UNSIGNED_BYTE: return *p; case IL_BYTE: return (int8_t)*p;
    case IL_UNSIGNED_SHORT: { uint16_t v; memcpy(&v, p, 2); return v; } case IL_SHORT: { int16_t v; memcpy(&v, p, 2); return v; }
    case IL_UNSIGNED_INT: { uint32_t v; memcpy(&v, p, 4); return v; } case IL_INT: { int32_t v; memcpy(&v, p, 4); return v; }
    case IL_FLOAT: { float v; memcpy(&v, p, 4); return v; } case IL_DOUBLE: { double v; memcpy(&v, p, 8); return v; }
    case IL_HALF: { uint16_t v; memcpy(&v, p, 2); return half2d(v); }
    } return 0;
}
void wrsample(uint8_t* p, ILenum t, double d)
{
    switch (t) {
    case IL_UNSIGNED_BYTE: *p = (uint8_t)d; break; case IL_BYTE: *p = (uint8_t)(int8_t)d; break;
    case IL_UNSIGNED_SHORT: { uint16_t v = (uint16_t)d; memcpy(p, &v, 2); break; } case IL_SHORT: { int16_t v = (int16_t)d; memcpy(p, &v, 2); break; }
    case IL_UNSIGNED_INT: { uint32_t v = (uint32_t)d; memcpy(p, &v, 4); break; } case IL_INT: { int32_t v = (int32_t)d; memcpy(p, &v, 4); break; }
    case IL_FLOAT: { float v = (float)d; memcpy(p, &v, 4); break; } case IL_DOUBLE: memcpy(p, &d, 8); break;
    case IL_HALF: { uint16_t v = d2half_trunc(d); memcpy(p, &v, 2); break; }
    }
}
void init() { ilInit(); iluInit(); drain(); }
void drain() { for (int i = 0; i < 100; i++) if (ilGetError() == IL_NO_ERROR) return; }
std::vector<ILenum> errors() { std::vector<ILenum> v; for (int i = 0; i < 100; i++) { ILenum e = ilGetError(); if (e == IL_NO_ERROR) break; v.push_back(e); } return v; }
ILenum firsterr() { ILenum e = ilGetError(); drain(); return e; }

bool Img::operator==(const Img& o) const
{
    return w == o.w && h == o.h && d == o.d && bpp == o.bpp && bpc == o.bpc && format == o.format && type == o.type && origin == o.origin && size == o.size && plane == o.plane && dur == o.dur && offx == o.offx && offy == o.offy && cube == o.cube && paltype == o.paltype && palcols == o.palcols && palbpp == o.palbpp && dxtcf == o.dxtcf && data == o.data && pal == o.pal && nimg == o.nimg && nmip == o.nmip && nlay == o.nlay && nface == o.nface;
}
#define D1(f) if (f != o.f) { r += mc::sfmt(" " #f ":%d->%d", f, o.f); }
std::string Img::diff(const Img& o) const
{
    std::string r; D1(w) D1(h) D1(d) D1(bpp) D1(bpc) D1(format) D1(type) D1(origin) D1(size) D1(plane) D1(dur) D1(offx) D1(offy) D1(cube) D1(paltype) D1(palcols) D1(palbpp) D1(dxtcf) D1(nimg) D1(nmip) D1(nlay) D1(nface)
    if (data != o.data) { size_t i = 0; while (i < data.size() && i < o.data.size() && data[i] == o.data[i]) i++; r += mc::sfmt(" data(%zu/%zu bytes) differs at %zu: ", data.size(), o.data.size(), i) + hex(data, 32) + " -> " + hex(o.data, 32); }
    if (pal != o.pal) r += " palette " + hex(pal, 24) + " -> " + hex(o.pal, 24);
    return r;
}
std::string Img::desc() const { return mc::sfmt("%dx%dx%d %s/%s org=%s size=%d pal=%d*%d", w, h, d, fname(format), tname(type), origin == IL_ORIGIN_UPPER_LEFT ? "UL" : origin == IL_ORIGIN_LOWER_LEFT ? "LL" : "?", size, palcols, palbpp) + " [" + hex(data, 48) + "]" + (pal.empty() ? "" : " pal[" + hex(pal, 24) + "]"); }
uint64_t Img::hash() const { int m[] = { w, h, d, bpp, bpc, format, type, origin, size, plane, dur, offx, offy, cube, paltype, palcols, palbpp, nimg, nmip, nlay, nface }; uint64_t x = mc::fnv(m, sizeof m); x = mc::fnv(data.data(), data.size(), x); return mc::fnv(pal.data(), pal.size(), x); }
const uint8_t* Img::at(int x, int y, int z) const
{
    int row = origin == IL_ORIGIN_LOWER_LEFT ? h - 1 - y : y;
    return data.data() + ((size_t)z * h * w + (size_t)row * w + x) * bpp * bpc;
}
bool Tree::operator==(const Tree& o) const { return img == o.img && mips == o.mips && imgs == o.imgs && lays == o.lays && faces == o.faces; }
static std::string difv(const char* n, const std::vector<Tree>& a, const std::vector<Tree>& b)
{
    std::string r; if (a.size() != b.size()) return mc::sfmt(" %s count %zu->%zu", n, a.size(), b.size());
    for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) r += mc::sfmt(" %s[%zu]:{", n, i) + a[i].diff(b[i]) + "}";
    return r;
}
std::string Tree::diff(const Tree& o) const { return (img == o.img ? "" : img.diff(o.img)) + difv("mip", mips, o.mips) + difv("img", imgs, o.imgs) + difv("lay", lays, o.lays) + difv("face", faces, o.faces); }
uint64_t Tree::hash() const { uint64_t x = img.hash(); for (auto* v : { &mips, &imgs, &lays, &faces }) for (auto& t : *v) x = x * 31 + t.hash(); return x; }

Img snap()
{
    Img i;
    i.w = ilGetInteger(IL_IMAGE_WIDTH); i.h = ilGetInteger(IL_IMAGE_HEIGHT); i.d = ilGetInteger(IL_IMAGE_DEPTH);
    i.bpp = ilGetInteger(IL_IMAGE_CHANNELS); i.bpc = ilGetInteger(IL_IMAGE_BPC); i.format = ilGetInteger(IL_IMAGE_FORMAT); i.type = ilGetInteger(IL_IMAGE_TYPE);
    i.origin = ilGetInteger(IL_IMAGE_ORIGIN); i.size = ilGetInteger(IL_IMAGE_SIZE_OF_DATA); i.plane = ilGetInteger(IL_IMAGE_PLANESIZE);
    i.dur = ilGetInteger(IL_IMAGE_DURATION); i.offx = ilGetInteger(IL_IMAGE_OFFX); i.offy = ilGetInteger(IL_IMAGE_OFFY); i.cube = ilGetInteger(IL_IMAGE_CUBEFLAGS);
    i.paltype = ilGetInteger(IL_PALETTE_TYPE); i.palcols = ilGetInteger(IL_PALETTE_NUM_COLS); i.palbpp = ilGetInteger(IL_PALETTE_BPP); i.dxtcf = ilGetInteger(IL_DXTC_DATA_FORMAT);
    i.nimg = ilGetInteger(IL_NUM_IMAGES); i.nmip = ilGetInteger(IL_NUM_MIPMAPS); i.nlay = ilGetInteger(IL_NUM_LAYERS); i.nface = ilGetInteger(IL_NUM_FACES);
    if (i.w > 0 && i.h > 0 && i.d > 0 && i.size > 0) { ILubyte* p = ilGetData(); if (p) i.data.assign(p, p + i.size); }
    if (i.palcols > 0) { ILubyte* p = ilGetPalette(); if (p) i.pal.assign(p, p + (size_t)i.palcols * i.palbpp); }
    return i;
}
typedef std::vector<std::pair<int, int>> Path;
static bool go(ILuint name, const Path& p)
{
    ilBindImage(name);
    for (auto& s : p) { ILboolean ok = s.first == 0 ? ilActiveMipmap(s.second) : s.first == 1 ? ilActiveImage(s.second) : s.first == 2 ? ilActiveLayer(s.second) : ilActiveFace(s.second); if (!ok) return false; }
    return true;
}
static Tree walk(ILuint name, Path p, int depth)
{
    Tree t; if (!go(name, p)) { t.img.w = -1; return t; }
    t.img = snap();
    if (depth >= 4) return t;
    int n[4] = { t.img.nmip, t.img.nimg, t.img.nlay, t.img.nface };
    std::vector<Tree>* v[4] = { &t.mips, &t.imgs, &t.lays, &t.faces };
    for (int k = 0; k < 4; k++) {
        // every member of a chain reports the rest of that chain: walk it once, from the head
        if (!p.empty() && p.back().first == k) continue;
        for (int j = 1; j <= n[k] && j < 200; j++) { Path q = p; q.push_back({k, j}); v[k]->push_back(walk(name, q, depth + 1)); }
    }
    return t;
}
Tree snaptree(ILuint name) { Tree t = walk(name, {}, 0); ilBindImage(name); return t; }

bool mk(int w, int h, int d, ILenum f, ILenum t, const uint8_t* data, ILenum origin)
{
    if (!ilTexImage(w, h, d, channels(f), f, t, (void*)data)) return false;
    if (origin) { ilRegisterOrigin(origin); }
    return true;
}
bool mkpal(int w, int h, ILenum paltype, int cols, const uint8_t* idx, const uint8_t* pal, ILenum origin, int d)
{
    if (!ilTexImage(w, h, d, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, (void*)idx)) return false;
    ilRegisterPal((void*)pal, cols * palbpp(paltype), paltype);
    if (origin) ilRegisterOrigin(origin);
    return true;
}
Bytes pattern(int n, uint32_t salt)
{
    Bytes b(n); uint32_t x = salt * 2654435761u + 12345; for (int i = 0; i < n; i++) { x ^= x << 13; x ^= x >> 17; x ^= x << 5; b[i] = x >> 11; } return b;
}
Bytes typed_pattern(int n, ILenum type, uint32_t salt)
{
    if (type != IL_FLOAT && type != IL_DOUBLE && type != IL_HALF) return pattern(n * bpc(type), salt);
    Bytes r = pattern(n * 2, salt), o(n * bpc(type));
    for (int i = 0; i < n; i++) wrsample(&o[i * bpc(type)], type, (double)((r[2 * i] << 3 | (r[2 * i + 1] & 7)) & 1023) / 1024.0);   // exact in all float types
    return o;
}
std::string hex(const uint8_t* b, size_t n, size_t max) { std::string s; for (size_t i = 0; i < n && i < max; i++) s += mc::sfmt("%02x", b[i]); if (n > max) s += ".."; return s; }
std::string hex(const Bytes& b, size_t max) { return hex(b.data(), b.size(), max); }

static const struct { const char* n; ILenum e; } IV[] = {
    {"FORMAT_SET", IL_FORMAT_SET}, {"TYPE_SET", IL_TYPE_SET}, {"ORIGIN_SET", IL_ORIGIN_SET}, {"CONV_PAL", IL_CONV_PAL},
    {"DEFAULT_ON_FAIL", IL_DEFAULT_ON_FAIL}, {"USE_KEY_COLOUR", IL_USE_KEY_COLOUR}, {"BLIT_BLEND", IL_BLIT_BLEND}, {"COMPRESS", IL_COMPRESS_MODE},
    {"JPG_PROGRESSIVE", IL_JPG_PROGRESSIVE}, {"NVIDIA", IL_NVIDIA_COMPRESS}, {"SQUISH", IL_SQUISH_COMPRESS},
    {"FORMAT_MODE", IL_FORMAT_MODE}, {"TYPE_MODE", IL_TYPE_MODE}, {"ORIGIN_MODE", IL_ORIGIN_MODE}, {"FILE_MODE", IL_FILE_MODE},
    {"INTERLACE_MODE", IL_INTERLACE_MODE}, {"QUANT", IL_QUANTIZATION_MODE}, {"MAXQ", IL_MAX_QUANT_INDICES}, {"NEU", IL_NEU_QUANT_SAMPLE},
    {"KEEP_DXTC", IL_KEEP_DXTC_DATA}, {"DXTC_FORMAT", IL_DXTC_FORMAT}, {"BMP_RLE", IL_BMP_RLE}, {"TGA_RLE", IL_TGA_RLE}, {"SGI_RLE", IL_SGI_RLE}, {"JPG_QUALITY", IL_JPG_QUALITY},
    {"JPG_FMT", IL_JPG_SAVE_FORMAT}, {"PNG_INTERLACE", IL_PNG_INTERLACE}, {"TGA_CREATE_STAMP", IL_TGA_CREATE_STAMP}, {"PNG_ALPHA", IL_PNG_ALPHA_INDEX}, {"PCD", IL_PCD_PICNUM},
    {"VTF_COMP", IL_VTF_COMP},
};
static const ILenum SV[] = { IL_TGA_ID_STRING, IL_TGA_AUTHNAME_STRING, IL_TGA_AUTHCOMMENT_STRING, IL_PNG_AUTHNAME_STRING, IL_PNG_TITLE_STRING, IL_PNG_DESCRIPTION_STRING, IL_TIF_DESCRIPTION_STRING, IL_TIF_HOSTCOMPUTER_STRING, IL_TIF_DOCUMENTNAME_STRING, IL_TIF_AUTHNAME_STRING, IL_CHEAD_HEADER_STRING };
State state()
{
    State s; for (auto& i : IV) s.v.push_back(ilGetInteger(i.e));
    for (auto e : SV) { const char* p = ilGetString(e); s.s.push_back(p ? std::string("=") + p : "null"); }
    return s;
}
std::string State::diff(const State& o) const
{
    std::string r; for (size_t i = 0; i < v.size(); i++) if (v[i] != o.v[i]) r += mc::sfmt(" %s:%d->%d", IV[i].n, v[i], o.v[i]);
    for (size_t i = 0; i < s.size(); i++) if (s[i] != o.s[i]) r += mc::sfmt(" str%zu:'%s'->'%s'", i, s[i].c_str(), o.s[i].c_str());
    return r;
}
Bytes readfile(const std::string& p) { Bytes b; FILE* f = fopen(p.c_str(), "rb"); if (!f) return b; uint8_t t[65536]; size_t n; while ((n = fread(t, 1, sizeof t, f)) > 0) b.insert(b.end(), t, t + n); fclose(f); return b; }
void writefile(const std::string& p, const Bytes& b) { FILE* f = fopen(p.c_str(), "wb"); if (!f) return; fwrite(b.data(), 1, b.size(), f); fclose(f); }
Bytes saveL(ILenum type, bool* ok)
{
    if (ok) *ok = false;
    ILuint n = ilSaveL(type, NULL, 0); if (!n) return {};
    Bytes b(n); ILuint m = ilSaveL(type, b.data(), n); if (m != n) { return {}; }
    if (ok) *ok = true; return b;
}
size_t heap_bytes()
{
#if defined(__SANITIZE_ADDRESS__)
    return __sanitizer_get_current_allocated_bytes();
#else
    return 0;
#endif
}
} // namespace ilx
