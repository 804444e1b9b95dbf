// Decoders for the files the library writes, independent of its own readers: structure checked strictly against the format's
// published layout. BMP, TGA, PCX, PNM, SGI, PSD, HDR, VTF, WBMP, DevIL RAW and C headers are read by code of this file; PNG,
// TIFF and JPEG by libpng, libtiff and libjpeg.
#pragma once
#include "conv.h"
#include <png.h>
#include <tiffio.h>
#include <jpeglib.h>
#include <setjmp.h>
#include <map>
namespace dec {
using namespace ilx;
struct Bad { std::string why; };
struct Pic { int w = 0, h = 0; ILenum type = IL_UNSIGNED_BYTE; bool grey = false, alpha = false, indexed = false; std::vector<double> px; std::map<std::string, std::string> meta;   // px: RGBA, raw scale, top row first; meta: facts about the file
    void init(int W, int H) { w = W; h = H; px.assign((size_t)W * H * 4, 0); } double* at(int x, int y) { return &px[((size_t)y * w + x) * 4]; }
    void put(int x, int y, double r, double g, double b, double a) { double* p = at(x, y); p[0] = r; p[1] = g; p[2] = b; p[3] = a; } };
struct R { const Bytes& b; size_t p; R(const Bytes& b) : b(b), p(0) {} 
    void need(size_t n) { if (p + n > b.size()) throw Bad{ mc::sfmt("file ends at %zu, %zu bytes needed at %zu", b.size(), n, p) }; }
    int u8() { need(1); return b[p++]; } unsigned l16() { int a = u8(); return a | u8() << 8; } unsigned b16() { int a = u8(); return a << 8 | u8(); } unsigned l32() { unsigned a = l16(); return a | l16() << 16; } unsigned b32() { unsigned a = b16(); return a << 16 | b16(); }
    std::string s(size_t n) { need(n); std::string r((const char*)&b[p], n); p += n; return r; } void zero(size_t n, const char* what) { for (size_t i = 0; i < n; i++) if (u8()) throw Bad{ mc::sfmt("%s is not zero", what) }; }
    void is(long long got, long long want, const char* what) { if (got != want) throw Bad{ mc::sfmt("%s is %lld, not %lld", what, got, want) }; }
    void end() { if (p != b.size()) throw Bad{ mc::sfmt("%zu bytes are left over", b.size() - p) }; } };
inline std::string zstr(const std::string& s) { return s.substr(0, s.find('\0')); }

inline Pic bmp(const Bytes& f)
{
    R r(f); Pic q; if (r.s(2) != "BM") throw Bad{ "no BM" }; r.is(r.l32(), f.size(), "file size"); r.zero(4, "reserved"); unsigned off = r.l32(); r.is(r.l32(), 40, "header size"); unsigned w = r.l32(), h = r.l32(); r.is(r.l16(), 1, "planes"); unsigned bits = r.l16(); r.is(r.l32(), 0, "compression");
    unsigned isz = r.l32(); r.l32(); r.l32(); unsigned used = r.l32(), imp = r.l32(); if (bits != 8 && bits != 24 && bits != 32) throw Bad{ mc::sfmt("%u bits", bits) }; if (imp > used && imp > 256) throw Bad{ "important colours" };
    Bytes pal; if (bits == 8) { unsigned n = used ? used : 256; if (n > 256) throw Bad{ mc::sfmt("%u colours", n) }; for (unsigned i = 0; i < n * 4; i++) pal.push_back(r.u8()); q.indexed = true; } else if (used) throw Bad{ "colours used in true colour" };
    r.is(off, r.p, "data offset"); unsigned row = (w * bits / 8 + 3) / 4 * 4; if (isz) r.is(isz, row * h, "image size"); q.init(w, h); q.alpha = bits == 32;
    for (int y = h - 1; y >= 0; y--) { size_t st = r.p; for (unsigned x = 0; x < w; x++) { if (bits == 8) { unsigned i = r.u8(); if (i * 4 >= pal.size()) q.put(x, y, 0, 0, 0, 255); else q.put(x, y, pal[i * 4 + 2], pal[i * 4 + 1], pal[i * 4], 255); } else { int b = r.u8(), g = r.u8(), c = r.u8(); q.put(x, y, c, g, b, bits == 32 ? r.u8() : 255); } } r.zero(row - (r.p - st), "row padding"); }
    r.end(); return q;
}
inline Pic tga(const Bytes& f)
{
    R r(f); Pic q; unsigned idl = r.u8(), cmt = r.u8(), t = r.u8(); unsigned c0 = r.l16(), cn = r.l16(), cb = r.u8(); r.l16(); r.l16(); unsigned w = r.l16(), h = r.l16(), bits = r.u8(), desc = r.u8(); q.meta["id"] = r.s(idl); q.meta["rle"] = t >= 8 ? "1" : "0";
    bool map = t == 1 || t == 9, grey = t == 3 || t == 11; if (!map && !grey && t != 2 && t != 10) throw Bad{ mc::sfmt("image type %u", t) }; r.is(cmt, map, "colour map type"); if (map) { if (c0 || !cn || cn > 256 || (cb != 24 && cb != 32)) throw Bad{ mc::sfmt("map %u+%u of %u bits", c0, cn, cb) }; } else if (cn || cb) throw Bad{ "colour map sizes without a map" };
    if (grey || map ? bits != 8 : bits != 24 && bits != 32) throw Bad{ mc::sfmt("%u bits", bits) }; r.is(desc & 15, bits == 32 ? 8 : 0, "alpha bits"); if (desc & 0xd0) throw Bad{ mc::sfmt("descriptor %x", desc) }; q.alpha = bits == 32 || cb == 32; q.grey = grey; q.indexed = map;
    Bytes pal; for (unsigned i = 0; i < cn * cb / 8; i++) pal.push_back(r.u8()); q.init(w, h); int bp = bits / 8; Bytes d; if (t < 8) for (size_t i = 0; i < (size_t)w * h * bp; i++) d.push_back(r.u8());
    else for (unsigned y = 0; y < h; y++) { size_t n = 0; while (n < w) { int k = r.u8(), c = (k & 127) + 1; if (n + c > w) throw Bad{ mc::sfmt("packet crosses the end of row %u", y) }; n += c; if (k & 128) { Bytes px; for (int i = 0; i < bp; i++) px.push_back(r.u8()); while (c--) d.insert(d.end(), px.begin(), px.end()); } else for (int i = 0; i < c * bp; i++) d.push_back(r.u8()); } }
    for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++) { const uint8_t* p = &d[((size_t)y * w + x) * bp]; int Y = desc & 0x20 ? y : h - 1 - y; if (map) { unsigned i = *p, n = cb / 8; if ((i + 1) * n > pal.size()) q.put(x, Y, 0, 0, 0, 255); else q.put(x, Y, pal[i * n + 2], pal[i * n + 1], pal[i * n], n == 4 ? pal[i * n + 3] : 255); } else if (grey) q.put(x, Y, *p, *p, *p, 255); else q.put(x, Y, p[2], p[1], p[0], bp == 4 ? p[3] : 255); }
    size_t de = r.p; if (f.size() < 26 || memcmp(&f[f.size() - 18], "TRUEVISION-XFILE.", 18)) throw Bad{ "no TGA 2.0 footer" }; r.p = f.size() - 26; unsigned ext = r.l32(), dev = r.l32(); r.is(dev, 0, "developer area"); if (!ext) { r.is(de, f.size() - 26, "end of data"); return q; }
    r.is(ext, de, "extension offset"); r.p = ext; r.is(r.l16(), 495, "extension size"); auto z = [&](int n, const char* k) { std::string s = r.s(n); size_t e = s.find('\0'); if (e == s.npos) throw Bad{ mc::sfmt("%s is not terminated", k) }; q.meta[k] = s.substr(0, e); }; z(41, "author"); z(81, "comment"); for (int i = 0; i < 3; i++) z(81, "comment lines"); for (int i = 0; i < 6; i++) r.l16(); z(41, "job"); r.l16(); r.l16(); r.l16(); z(41, "software"); r.l16(); r.u8(); r.l32();
    unsigned pd = 0; for (int i = 0; i < 2; i++) { unsigned n = r.l16(), d = r.l16(); if (n && !d) pd = 1; } if (pd) throw Bad{ "ratio with denominator 0" }; r.is(r.l32(), 0, "colour correction offset"); unsigned stamp = r.l32(); if (stamp && stamp >= f.size()) throw Bad{ "postage stamp offset" }; r.is(r.l32(), 0, "scan line offset"); r.u8(); if (!stamp) r.is(r.p, f.size() - 26, "end of the extension area");
    return q;
}
inline Pic pcx(const Bytes& f)
{
    R r(f); Pic q; r.is(r.u8(), 10, "manufacturer"); r.is(r.u8(), 5, "version"); r.is(r.u8(), 1, "encoding"); r.is(r.u8(), 8, "bits"); unsigned x0 = r.l16(), y0 = r.l16(), x1 = r.l16(), y1 = r.l16(); r.p = 64; r.is(r.u8(), 0, "reserved"); unsigned n = r.u8(), row = r.l16(); unsigned w = x1 - x0 + 1, h = y1 - y0 + 1; if (n != 1 && n != 3 && n != 4) throw Bad{ mc::sfmt("%u planes", n) };
    if (row & 1 || row < w || row > w + 1) throw Bad{ mc::sfmt("%u bytes per line for width %u", row, w) }; r.p = 128; q.init(w, h); q.indexed = n == 1; q.alpha = n == 4; Bytes d;
    for (unsigned y = 0; y < h; y++) { size_t want = d.size() + (size_t)row * n; while (d.size() < want) { int v = r.u8(), c = 1; if ((v & 0xc0) == 0xc0) { c = v & 63; v = r.u8(); if (!c) throw Bad{ "run of length 0" }; } while (c--) d.push_back(v); } if (d.size() != want) throw Bad{ mc::sfmt("a run crosses the end of line %u", y) }; }
    const uint8_t* pal = 0; if (n == 1) { r.is(f.size(), r.p + 769, "file size"); r.is(r.u8(), 12, "palette marker"); pal = &f[r.p]; } 
    for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++) { auto c = [&](int k) { return d[((size_t)y * n + k) * row + x]; }; if (n == 1) q.put(x, y, pal[c(0) * 3], pal[c(0) * 3 + 1], pal[c(0) * 3 + 2], 255); else q.put(x, y, c(0), c(1), c(2), n == 4 ? c(3) : 255); }
    return q;
}
inline Pic pnm(const Bytes& f)
{
    R r(f); Pic q; if (r.u8() != 'P') throw Bad{ "no P" }; int k = r.u8() - '0'; if (k != 2 && k != 3 && k != 5 && k != 6 && k != 1) throw Bad{ mc::sfmt("P%d", k) }; q.meta["kind"] = mc::sfmt("P%d", k); auto num = [&]() { int c; do c = r.u8(); while (isspace(c)); if (!isdigit(c)) throw Bad{ mc::sfmt("'%c' in a number", c) }; int v = 0; while (isdigit(c)) { v = v * 10 + c - '0'; if (r.p == f.size()) { r.p++; break; } c = r.u8(); } r.p--; return v; };
    int w = num(), h = num(), m = k == 1 ? 1 : num(); if (m != 255 && m != 65535 && m != 1) throw Bad{ mc::sfmt("maximum %d", m) }; r.u8(); q.type = m == 65535 ? IL_UNSIGNED_SHORT : IL_UNSIGNED_BYTE; q.init(w, h); q.grey = k != 3 && k != 6;
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { double v[3]; for (int c = 0; c < (q.grey ? 1 : 3); c++) { int n = k >= 4 ? r.u8() : num(); if (n > m) throw Bad{ mc::sfmt("sample %d", n) }; v[c] = k == 1 ? (n ? 0 : 255) : n; } if (q.grey) v[1] = v[2] = v[0]; q.put(x, y, v[0], v[1], v[2], conv::umax(q.type)); }
    if (k >= 4) r.end(); else { int line = 0; for (uint8_t c : f) { line = c == '\n' ? 0 : line + 1; if (line > 70) throw Bad{ "a line of more than 70 characters" }; } while (r.p < f.size()) if (!isspace(r.u8())) throw Bad{ "rubbish at the end" }; }
    return q;
}
inline Pic sgi(const Bytes& f)
{
    R r(f); Pic q; r.is(r.b16(), 474, "magic"); int rle = r.u8(), bp = r.u8(); unsigned dim = r.b16(), w = r.b16(), h = r.b16(), n = r.b16(); unsigned mn = r.b32(), mx = r.b32(); r.b32(); q.meta["name"] = r.s(80); if (q.meta["name"].find('\0') == std::string::npos) throw Bad{ "name is not terminated" }; r.is(r.b32(), 0, "colour map"); r.zero(404, "header rest"); q.meta["rle"] = rle ? "1" : "0";
    if (rle > 1 || (bp != 1 && bp != 2)) throw Bad{ mc::sfmt("storage %d bpc %d", rle, bp) }; if (n != 1 && n != 3 && n != 4) throw Bad{ mc::sfmt("%u channels", n) }; r.is(dim, n == 1 ? 2 : 3, "dimension"); r.is(mn, 0, "minimum"); r.is(mx, bp == 1 ? 255 : 65535, "maximum"); q.type = bp == 1 ? IL_UNSIGNED_BYTE : IL_UNSIGNED_SHORT; q.grey = n == 1; q.alpha = n == 4; q.init(w, h); std::vector<unsigned> d((size_t)w * h * n);
    auto smp = [&] { return bp == 1 ? (unsigned)r.u8() : r.b16(); };
    if (!rle) { for (auto& v : d) v = smp(); r.end(); }
    else { std::vector<unsigned> st, ln; for (unsigned i = 0; i < h * n; i++) st.push_back(r.b32()); for (unsigned i = 0; i < h * n; i++) ln.push_back(r.b32()); size_t first = r.p, last = 0;
        for (unsigned i = 0; i < h * n; i++) { if (st[i] < first || st[i] + (size_t)ln[i] > f.size()) throw Bad{ mc::sfmt("row %u at %u+%u outside of the file", i, st[i], ln[i]) }; last = std::max<size_t>(last, st[i] + ln[i]); r.p = st[i]; unsigned x = 0; for (;;) { unsigned v = smp(), c = v & 127; if (!c) break; if (x + c > w) throw Bad{ mc::sfmt("row %u too long", i) }; if (v & 128) while (c--) d[(size_t)i * w + x++] = smp(); else { unsigned s = smp(); while (c--) d[(size_t)i * w + x++] = s; } } r.is(x, w, "row width"); r.is(r.p, st[i] + ln[i], "end of row"); } r.is(last, f.size(), "end of the last row"); }
    for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++) { auto c = [&](int k) { return (double)d[((size_t)k * h + y) * w + x]; }; double m = conv::umax(q.type); if (n == 1) q.put(x, h - 1 - y, c(0), c(0), c(0), m); else q.put(x, h - 1 - y, c(0), c(1), c(2), n == 4 ? c(3) : m); }
    return q;
}
inline Pic psd(const Bytes& f)
{
    R r(f); Pic q; if (r.s(4) != "8BPS") throw Bad{ "no 8BPS" }; r.is(r.b16(), 1, "version"); r.zero(6, "reserved"); unsigned n = r.b16(), h = r.b32(), w = r.b32(), bits = r.b16(), mode = r.b16(), cm = r.b32(); size_t pal = r.p; r.p += cm; r.is(cm, mode == 2 ? 768 : 0, "colour data"); unsigned l = r.b32(); r.p += l; l = r.b32(); r.p += l; r.is(r.b16(), 0, "compression");
    unsigned base = mode == 3 ? 3 : 1; if ((mode != 1 && mode != 2 && mode != 3) || n < base || n > base + 1 || (bits != 8 && bits != 16)) throw Bad{ mc::sfmt("mode %u with %u channels of %u bits", mode, n, bits) }; q.type = bits == 8 ? IL_UNSIGNED_BYTE : IL_UNSIGNED_SHORT; q.grey = mode == 1; q.indexed = mode == 2; q.alpha = n > base; q.init(w, h); double m = conv::umax(q.type);
    for (auto& v : q.px) v = m; for (unsigned c = 0; c < n; c++) for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++) { unsigned v = bits == 8 ? r.u8() : r.b16(); double* p = q.at(x, y); if (c == base) p[3] = v; else if (mode == 3) p[c] = v; else if (mode == 1) p[0] = p[1] = p[2] = v; else for (int k = 0; k < 3; k++) p[k] = f[pal + k * 256 + v]; }
    r.end(); return q;
}
inline Pic hdr(const Bytes& f)
{
    R r(f); Pic q; std::vector<std::string> lines; for (;;) { std::string l; int c; while ((c = r.u8()) != '\n') l += c; lines.push_back(l); if (l.empty()) break; if (lines.size() > 50) throw Bad{ "header without end" }; } if (lines[0].compare(0, 2, "#?")) throw Bad{ "no #?" }; bool fmt = false; for (auto& l : lines) if (l == "FORMAT=32-bit_rle_rgbe") fmt = true; if (!fmt) throw Bad{ "no FORMAT" };
    std::string l; int c; while ((c = r.u8()) != '\n') l += c; int w, h, k = 0; if (sscanf(l.c_str(), "-Y %d +X %d%n", &h, &w, &k) != 2 || k != (int)l.size()) throw Bad{ "resolution '" + l + "'" }; q.init(w, h); q.type = IL_FLOAT;
    for (int y = 0; y < h; y++) { Bytes row(w * 4); if (w < 8 || w > 0x7fff) for (auto& v : row) v = r.u8(); else { r.is(r.u8(), 2, "scan line mark"); r.is(r.u8(), 2, "scan line mark"); r.is(r.b16(), w, "scan line width"); for (int ch = 0; ch < 4; ch++) { int x = 0; while (x < w) { int n = r.u8(); if (n > 128) { n -= 128; int v = r.u8(); if (x + n > w) throw Bad{ "run too long" }; while (n--) row[x++ * 4 + ch] = v; } else { if (!n || x + n > w) throw Bad{ "literal too long" }; while (n--) row[x++ * 4 + ch] = r.u8(); } } } }
        for (int x = 0; x < w; x++) { uint8_t* p = &row[x * 4]; double s = p[3] ? std::ldexp(1., p[3] - 128 - 8) : 0; q.put(x, y, p[0] * s, p[1] * s, p[2] * s, 1); } }
    r.end(); return q;
}
inline Pic vtf(const Bytes& f)      // uncompressed layouts
{
    R r(f); Pic q; if (r.s(4) != std::string("VTF\0", 4)) throw Bad{ "no VTF" }; r.is(r.l32(), 7, "version"); r.is(r.l32(), 2, "version"); unsigned hs = r.l32(); unsigned w = r.l16(), h = r.l16(); r.l32(); r.is(r.l16(), 1, "frames"); r.l16(); r.l32(); r.l32(); r.l32(); r.l32(); r.l32(); r.l32(); unsigned fm = r.l32(); r.is(r.u8(), 1, "mipmaps"); unsigned lf = r.l32(), lw = r.u8(), lh = r.u8(); r.is(r.l16(), 1, "depth"); r.is(lf, 0xffffffffu, "low format"); r.is(lw + lh, 0, "low size"); if (hs < r.p || hs % 16) throw Bad{ mc::sfmt("header size %u", hs) }; r.p = hs; q.meta["format"] = mc::sfmt("%u", fm);
    if (w & (w - 1) || h & (h - 1)) throw Bad{ mc::sfmt("%ux%u is no power of two", w, h) }; q.init(w, h);
    if (fm == 13 || fm == 20 || fm == 14 || fm == 15) { r.is(f.size() - hs, (size_t)((w + 3) / 4) * ((h + 3) / 4) * (fm == 13 || fm == 20 ? 8 : 16), "size of the blocks"); return q; }
    static const char* L[] = { "RGBA", "ABGR", "RGB", "BGR", 0, "I", "IA", 0, "A", 0, 0, "ARGB", "BGRA" }; std::string lay = fm == 25 ? "RGBA" : fm < 13 && L[fm] ? L[fm] : ""; if (lay.empty()) throw Bad{ mc::sfmt("format %u", fm) }; if (fm == 25) q.type = IL_UNSIGNED_SHORT; q.grey = lay[0] == 'I'; q.alpha = lay.find('A') != lay.npos;
    for (unsigned y = 0; y < h; y++) for (unsigned x = 0; x < w; x++) { double p[4] = { 0, 0, 0, conv::umax(q.type) }; for (char c : lay) { double v = fm == 25 ? r.l16() : r.u8(); if (c == 'I') p[0] = p[1] = p[2] = v; else p[c == 'R' ? 0 : c == 'G' ? 1 : c == 'B' ? 2 : 3] = v; } q.put(x, y, p[0], p[1], p[2], p[3]); }
    r.end(); return q;
}
inline Pic wbmp(const Bytes& f)
{
    R r(f); Pic q; r.is(r.u8(), 0, "type"); r.is(r.u8(), 0, "fixed header"); auto num = [&] { unsigned v = 0; int c, first = 1; do { c = r.u8(); if (first && c == 0x80) throw Bad{ "number with a leading zero" }; first = 0; v = v << 7 | (c & 127); } while (c & 128); return v; }; unsigned w = num(), h = num(); q.init(w, h); q.grey = true;
    for (unsigned y = 0; y < h; y++) { int v = 0; for (unsigned x = 0; x < w; x++) { if (x % 8 == 0) v = r.u8(); double g = v >> (7 - x % 8) & 1 ? 255 : 0; q.put(x, y, g, g, g, 255); } if (w % 8 && v & ((1 << (8 - w % 8)) - 1)) throw Bad{ "padding bits set" }; }
    r.end(); return q;
}
inline Pic raw(const Bytes& f)
{
    R r(f); Pic q; unsigned w = r.l32(), h = r.l32(), d = r.l32(), n = r.u8(), b = r.u8(); r.is(f.size(), r.p + (size_t)w * h * d * n * b, "file size"); q.init(w, h * d); q.meta["bpc"] = mc::sfmt("%u", b); q.meta["channels"] = mc::sfmt("%u", n); q.meta["depth"] = mc::sfmt("%u", d); return q;
}
inline void pngerr(png_structp p, png_const_charp m) { throw Bad{ std::string("libpng: ") + m }; }
inline void pngwarn(png_structp p, png_const_charp m) { throw Bad{ std::string("libpng warns: ") + m }; }
inline Pic png(const Bytes& f)
{
    Pic q; struct Src { const Bytes* f; size_t p; } src{ &f, 0 }; png_structp p = png_create_read_struct(PNG_LIBPNG_VER_STRING, 0, pngerr, pngwarn); png_infop i = png_create_info_struct(p); struct Free { png_structp p; png_infop i; ~Free() { png_destroy_read_struct(&p, &i, 0); } } fr{ p, i };
    png_set_read_fn(p, &src, [](png_structp p, png_bytep d, png_size_t n) { Src* s = (Src*)png_get_io_ptr(p); if (s->p + n > s->f->size()) throw Bad{ "file ends early" }; memcpy(d, s->f->data() + s->p, n); s->p += n; });
    png_set_user_limits(p, 100000, 100000); png_read_info(p, i); int ct = png_get_color_type(p, i), bd = png_get_bit_depth(p, i); q.indexed = ct == 3; q.grey = !(ct & 2); q.meta["interlaced"] = png_get_interlace_type(p, i) ? "1" : "0"; q.meta["type"] = mc::sfmt("%d", ct); png_set_expand(p); if (bd == 16) png_set_swap(p); int np = png_set_interlace_handling(p); (void)np; png_read_update_info(p, i);
    int w = png_get_image_width(p, i), h = png_get_image_height(p, i), n = png_get_channels(p, i); bd = png_get_bit_depth(p, i); q.type = bd == 16 ? IL_UNSIGNED_SHORT : IL_UNSIGNED_BYTE; q.init(w, h); q.alpha = n == 2 || n == 4; if (n >= 3) q.grey = false; size_t row = png_get_rowbytes(p, i); Bytes d(row * h); std::vector<png_bytep> rows; for (int y = 0; y < h; y++) rows.push_back(&d[y * row]); png_read_image(p, rows.data()); png_read_end(p, i); if (src.p != f.size()) throw Bad{ "bytes after IEND" };
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { auto c = [&](int k) { return conv::raw(&d[y * row + (x * n + k) * bd / 8], q.type); }; double m = conv::umax(q.type); if (n < 3) q.put(x, y, c(0), c(0), c(0), n == 2 ? c(1) : m); else q.put(x, y, c(0), c(1), c(2), n == 4 ? c(3) : m); }
    png_textp t; int nt; png_get_text(p, i, &t, &nt); for (int k = 0; k < nt; k++) { if (q.meta.count(t[k].key)) throw Bad{ std::string("two texts ") + t[k].key }; q.meta[t[k].key] = t[k].text; }
    return q;
}
struct TSrc { const Bytes* f; size_t p; };
inline Pic tif(const Bytes& f)
{
    Pic q; TSrc s{ &f, 0 }; static std::string msg; msg.clear(); TIFFSetErrorHandler([](const char* m, const char* fmt, va_list a) { char b[300]; vsnprintf(b, 300, fmt, a); msg = b; }); TIFFSetWarningHandler([](const char* m, const char* fmt, va_list a) { char b[300]; vsnprintf(b, 300, fmt, a); msg = b; });
    TIFF* t = TIFFClientOpen("x", "r", &s, [](thandle_t h, void* d, tmsize_t n) -> tmsize_t { TSrc* s = (TSrc*)h; tmsize_t k = std::min<tmsize_t>(n, s->p < s->f->size() ? s->f->size() - s->p : 0); if (k > 0) memcpy(d, s->f->data() + s->p, k); s->p += k; return k; }, [](thandle_t, void*, tmsize_t) -> tmsize_t { return 0; },
        [](thandle_t h, toff_t o, int w) -> toff_t { TSrc* s = (TSrc*)h; s->p = w == 0 ? o : w == 1 ? s->p + o : s->f->size() + o; return s->p; }, [](thandle_t) { return 0; }, [](thandle_t h) -> toff_t { return ((TSrc*)h)->f->size(); }, [](thandle_t, void**, toff_t*) { return 0; }, [](thandle_t, void*, toff_t) {});
    struct Restore { TIFF* t; ~Restore() { if (t) TIFFClose(t); TIFFSetErrorHandler(0); TIFFSetWarningHandler(0); } } rs{ t }; if (!t) throw Bad{ "libtiff: " + msg }; uint32_t w = 0, h = 0; uint16_t bits = 0, n = 1, ph = 9, pc = 1, comp = 1, orient = 1; TIFFGetField(t, TIFFTAG_IMAGEWIDTH, &w); TIFFGetField(t, TIFFTAG_IMAGELENGTH, &h); TIFFGetField(t, TIFFTAG_BITSPERSAMPLE, &bits); TIFFGetFieldDefaulted(t, TIFFTAG_SAMPLESPERPIXEL, &n); TIFFGetField(t, TIFFTAG_PHOTOMETRIC, &ph); TIFFGetFieldDefaulted(t, TIFFTAG_PLANARCONFIG, &pc); TIFFGetFieldDefaulted(t, TIFFTAG_COMPRESSION, &comp); TIFFGetFieldDefaulted(t, TIFFTAG_ORIENTATION, &orient);
    if ((bits != 8 && bits != 16) || n < 1 || n > 4 || pc != 1 || (ph != 1 && ph != 2) || (ph == 2) != (n >= 3) || orient != 1) throw Bad{ mc::sfmt("%d bits x %d, photometric %d, planar %d, orientation %d", bits, n, ph, pc, orient) };
    q.meta["compressed"] = comp == 5 ? "1" : comp == 1 ? "0" : "other"; uint16_t ne = 0, *ex = 0; if (TIFFGetField(t, TIFFTAG_EXTRASAMPLES, &ne, &ex)) { if (ne != (n == 2 || n == 4)) throw Bad{ mc::sfmt("%d extra samples of %d", ne, n) }; } else if (n == 2 || n == 4) throw Bad{ "the fourth sample is not declared" };
    const char* str; static const std::pair<uint32_t, const char*> T[] = { { TIFFTAG_ARTIST, "author" }, { TIFFTAG_HOSTCOMPUTER, "host" }, { TIFFTAG_DOCUMENTNAME, "document" }, { TIFFTAG_IMAGEDESCRIPTION, "description" }, { TIFFTAG_DATETIME, "date" }, { TIFFTAG_SOFTWARE, "software" } }; for (auto& x : T) if (TIFFGetField(t, x.first, &str)) q.meta[x.second] = str;
    if (q.meta.count("date") && (q.meta["date"].size() != 19 || q.meta["date"][4] != ':' || q.meta["date"][10] != ' ')) throw Bad{ "date '" + q.meta["date"] + "'" };
    q.type = bits == 16 ? IL_UNSIGNED_SHORT : IL_UNSIGNED_BYTE; q.grey = n < 3; q.alpha = n == 2 || n == 4; q.init(w, h); Bytes row(TIFFScanlineSize(t)); if (row.size() != (size_t)w * n * bits / 8) throw Bad{ "scan line size" };
    for (uint32_t y = 0; y < h; y++) { if (TIFFReadScanline(t, row.data(), y, 0) < 0) throw Bad{ "libtiff: " + msg }; for (uint32_t x = 0; x < w; x++) { auto c = [&](int k) { return conv::raw(&row[(x * n + k) * bits / 8], q.type); }; double m = conv::umax(q.type); if (n < 3) q.put(x, y, c(0), c(0), c(0), n == 2 ? c(1) : m); else q.put(x, y, c(0), c(1), c(2), n == 4 ? c(3) : m); } }
    if (TIFFReadDirectory(t)) throw Bad{ "a second image" }; if (!msg.empty()) throw Bad{ "libtiff: " + msg }; return q;
}
inline void jerr(j_common_ptr c) { char b[JMSG_LENGTH_MAX]; c->err->format_message(c, b); throw Bad{ std::string("libjpeg: ") + b }; }
inline Pic jpg(const Bytes& f)
{
    Pic q; jpeg_decompress_struct c; jpeg_error_mgr e; c.err = jpeg_std_error(&e); e.error_exit = jerr; e.emit_message = [](j_common_ptr c, int l) { if (l < 0) jerr(c); }; jpeg_create_decompress(&c); struct Free { jpeg_decompress_struct* c; ~Free() { jpeg_destroy_decompress(c); } } fr{ &c };
    jpeg_mem_src(&c, (unsigned char*)f.data(), f.size()); jpeg_read_header(&c, TRUE); q.meta["progressive"] = c.progressive_mode ? "1" : "0"; q.meta["jfif"] = c.saw_JFIF_marker ? "1" : "0"; std::string qt; for (int i = 0; i < NUM_QUANT_TBLS; i++) if (c.quant_tbl_ptrs[i]) for (int k = 0; k < 64; k++) qt += mc::sfmt("%d ", c.quant_tbl_ptrs[i]->quantval[k]); q.meta["tables"] = qt;
    bool inks = c.num_components == 4, inv = c.saw_Adobe_marker; q.grey = c.num_components == 1; c.out_color_space = q.grey ? JCS_GRAYSCALE : inks ? JCS_CMYK : JCS_RGB; jpeg_start_decompress(&c); q.init(c.output_width, c.output_height); int n = c.output_components; Bytes row(q.w * n); while (c.output_scanline < c.output_height) { int y = c.output_scanline; JSAMPROW p = row.data(); jpeg_read_scanlines(&c, &p, 1); for (int x = 0; x < q.w; x++) { auto k = [&](int i) { return (double)row[x * n + (n == 1 ? 0 : i)]; }; if (inks) { auto m = [&](int i) { return inv ? k(i) * k(3) / 255 : (255 - k(i)) * (255 - k(3)) / 255; }; q.put(x, y, m(0), m(1), m(2), 255); } else q.put(x, y, k(0), k(1), k(2), 255); } } jpeg_finish_decompress(&c);
    if (f.size() < 2 || f[f.size() - 2] != 0xff || f[f.size() - 1] != 0xd9) throw Bad{ "no end of image marker at the end" }; return q;
}
inline Bytes jpgencode(int w, int h, bool grey, const Bytes& d, int quality, bool prog)
{
    jpeg_compress_struct c; jpeg_error_mgr e; c.err = jpeg_std_error(&e); e.error_exit = jerr; jpeg_create_compress(&c); unsigned char* out = 0; unsigned long n = 0; jpeg_mem_dest(&c, &out, &n); c.image_width = w; c.image_height = h; c.input_components = grey ? 1 : 3; c.in_color_space = grey ? JCS_GRAYSCALE : JCS_RGB; jpeg_set_defaults(&c); jpeg_set_quality(&c, quality, TRUE); if (prog) jpeg_simple_progression(&c); jpeg_start_compress(&c, TRUE); while (c.next_scanline < c.image_height) { JSAMPROW p = (JSAMPROW)&d[(size_t)c.next_scanline * w * c.input_components]; jpeg_write_scanlines(&c, &p, 1); } jpeg_finish_compress(&c); jpeg_destroy_compress(&c); Bytes r(out, out + n); free(out); return r;
}
// a JPEG file: space 0 grey, 1 YCbCr, 2 RGB, 3 CMYK, 4 YCCK, 5 CMYK without the Adobe marker
inline Bytes jpgfile(int w, int h, int space, int samp, int mode, int restart, size_t marker, int quality)
{
    jpeg_compress_struct c; jpeg_error_mgr e; c.err = jpeg_std_error(&e); e.error_exit = jerr; jpeg_create_compress(&c); unsigned char* out = 0; unsigned long n = 0; jpeg_mem_dest(&c, &out, &n); int ch = space == 0 ? 1 : space < 3 ? 3 : 4; Bytes d = ilx::pattern(w * h * ch, w * 31 + h * 7 + space); if (quality > 50) for (size_t i = 0; i < d.size(); i++) d[i] = (i / ch % w * 9 + i / ch / w * 5 + i % ch * 60 + d[i] % 16) & 255;
    c.image_width = w; c.image_height = h; c.input_components = ch; c.in_color_space = ch == 1 ? JCS_GRAYSCALE : ch == 3 ? JCS_RGB : JCS_CMYK; jpeg_set_defaults(&c); if (space == 2) jpeg_set_colorspace(&c, JCS_RGB); if (space == 4) jpeg_set_colorspace(&c, JCS_YCCK); if (space == 5) c.write_Adobe_marker = FALSE; jpeg_set_quality(&c, quality, TRUE); if (ch > 1) { c.comp_info[0].h_samp_factor = 1 + (samp & 1); c.comp_info[0].v_samp_factor = 1 + (samp >> 1 & 1); if (samp == 4) c.comp_info[0].h_samp_factor = 4; }
    if (mode == 1) jpeg_simple_progression(&c); if (mode == 2) c.optimize_coding = TRUE; if (mode == 3 && ch < 4) c.dct_method = JDCT_ISLOW, c.write_JFIF_header = FALSE; c.restart_interval = restart; jpeg_start_compress(&c, TRUE); Bytes m = ilx::pattern(marker % 65000, 3); if (marker) for (size_t k = 0; k < m.size(); k++) if (k % 97 == 0) m[k] = 0xFF; for (size_t k = 0; k <= marker / 65000 && marker; k++) jpeg_write_marker(&c, k & 1 ? JPEG_COM : JPEG_APP0 + 5, m.data(), m.size());
    while (c.next_scanline < c.image_height) { JSAMPROW p = (JSAMPROW)&d[(size_t)c.next_scanline * w * ch]; jpeg_write_scanlines(&c, &p, 1); } jpeg_finish_compress(&c); jpeg_destroy_compress(&c); Bytes r(out, out + n); free(out); return r;
}
struct CHead { std::map<std::string, long> defs; std::string name; Bytes data, pal; bool haspal = false; };
inline CHead chead(const Bytes& f)
{
    CHead h; std::string s(f.begin(), f.end()); size_t p = 0; auto ws = [&] { for (;;) { while (p < s.size() && isspace((unsigned char)s[p])) p++; if (!s.compare(p, 2, "//")) { while (p < s.size() && s[p] != '\n') p++; continue; } break; } }; auto word = [&] { ws(); std::string w; while (p < s.size() && (isalnum((unsigned char)s[p]) || s[p] == '_' || (unsigned char)s[p] >= 128)) w += s[p++]; return w; }; auto ch = [&](char c) { ws(); if (p >= s.size() || s[p] != c) throw Bad{ mc::sfmt("'%c' expected at %zu", c, p) }; p++; };
    for (;;) { ws(); if (p >= s.size()) break; if (s[p] == '#') { p++; if (word() != "define") throw Bad{ "no define" }; std::string n = word(); ws(); char* e; long v = strtol(s.c_str() + p, &e, 0); if (e == s.c_str() + p) throw Bad{ "no value for " + n }; p = e - s.c_str(); if (h.defs.count(n)) throw Bad{ "two values for " + n }; h.defs[n] = v; continue; }
        if (word() != "ILubyte") throw Bad{ mc::sfmt("unexpected text at %zu", p) }; std::string n = word(); if (n.empty()) throw Bad{ "array without a name" }; ch('['); ch(']'); ch('='); ch('{'); Bytes d; for (;;) { ws(); if (s[p] == '}') break; char* e; long v = strtol(s.c_str() + p, &e, 10); if (e == s.c_str() + p || v < 0 || v > 255) throw Bad{ mc::sfmt("bad element at %zu", p) }; p = e - s.c_str(); d.push_back(v); ws(); if (s[p] == ',') p++; else if (s[p] != '}') throw Bad{ mc::sfmt("',' expected at %zu", p) }; } ch('}'); ch(';');
        if (h.name.empty()) { h.name = n; h.data = d; } else { if (n != h.name + "Pal" || h.haspal) throw Bad{ "second array " + n }; h.haspal = true; h.pal = d; } }
    return h;
}
} // namespace dec
