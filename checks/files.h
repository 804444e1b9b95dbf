// Independent encoders: files written from the published layouts, with none of the library's code.
#pragma once
#include "ilx.h"
#include <array>
#include <cmath>
namespace files {
using ilx::Bytes;
struct W { Bytes b; W& u8(int v) { b.push_back((uint8_t)v); return *this; } W& u16(unsigned v) { return u8(v & 255).u8(v >> 8 & 255); } W& u32(uint32_t v) { return u16(v & 65535).u16(v >> 16); } W& be16(unsigned v) { return u8(v >> 8 & 255).u8(v & 255); } W& be32(uint32_t v) { return be16(v >> 16).be16(v & 65535); }
    W& s(const char* t) { while (*t) u8(*t++); return *this; } W& s(const std::string& t) { for (char c : t) u8(c); return *this; } W& raw(const Bytes& d) { b.insert(b.end(), d.begin(), d.end()); return *this; } W& raw(const void* p, size_t n) { b.insert(b.end(), (const uint8_t*)p, (const uint8_t*)p + n); return *this; } W& z(size_t n, int v = 0) { b.insert(b.end(), n, (uint8_t)v); return *this; }
    W& str(const std::string& t, size_t n) { for (size_t i = 0; i < n; i++) u8(i < t.size() ? t[i] : 0); return *this; }
    W& f32(float f) { uint32_t v; memcpy(&v, &f, 4); return u32(v); } W& bef32(float f) { uint32_t v; memcpy(&v, &f, 4); return be32(v); } W& pad(size_t a) { while (b.size() % a) u8(0); return *this; } W& at32(size_t p, uint32_t v) { for (int i = 0; i < 4; i++) b[p + i] = v >> 8 * i; return *this; } W& atbe32(size_t p, uint32_t v) { for (int i = 0; i < 4; i++) b[p + i] = v >> (24 - 8 * i); return *this; } };
// DDS. fourcc 0: uncompressed with the given bit count, flags and masks
struct Dds { int w, h, d = 1, mips = 0; uint32_t fourcc = 0; int bits = 0; uint32_t flags = 0, r = 0, g = 0, b = 0, a = 0; uint32_t caps2 = 0; uint32_t linear = 0; };
inline uint32_t cc(const char* s) { return (uint8_t)s[0] | (uint8_t)s[1] << 8 | (uint8_t)s[2] << 16 | (uint32_t)(uint8_t)s[3] << 24; }
inline Bytes dds(const Dds& q, const Bytes& payload)
{
    W o; uint32_t caps2 = q.caps2 | (q.d > 1 ? 0x200000 : 0); o.s("DDS ").u32(124).u32(0x1007 | (q.mips ? 0x20000 : 0) | (q.d > 1 ? 0x800000 : 0) | (q.linear ? 0x80000 : 0)).u32(q.h).u32(q.w).u32(q.linear).u32(q.d > 1 ? q.d : 0).u32(q.mips).u32(0); o.z(40);
    o.u32(32).u32(q.fourcc ? 4 : q.flags).u32(q.fourcc).u32(q.bits).u32(q.r).u32(q.g).u32(q.b).u32(q.a).u32(0x1000 | (q.mips ? 0x400008 : 0) | (caps2 ? 8 : 0)).u32(caps2).u32(0).u32(0).u32(0).raw(payload); return o.b;
}
// The DXT block formats. out: 4x4 RGBA
inline void c565(unsigned c, double* o) { int r = c >> 11 & 31, g = c >> 5 & 63, b = c & 31; o[0] = r << 3 | r >> 2; o[1] = g << 2 | g >> 4; o[2] = b << 3 | b >> 2; }
inline void dxcolor(const uint8_t* p, bool dxt1, double out[16][4]) { unsigned a = p[0] | p[1] << 8, b = p[2] | p[3] << 8; double c[4][4]; c565(a, c[0]); c565(b, c[1]); for (int k = 0; k < 4; k++) c[k][3] = 255; for (int i = 0; i < 3; i++) { if (a > b || !dxt1) { c[2][i] = (2 * c[0][i] + c[1][i]) / 3; c[3][i] = (c[0][i] + 2 * c[1][i]) / 3; } else { c[2][i] = (c[0][i] + c[1][i]) / 2; c[3][i] = 0; } } if (dxt1 && a <= b) c[3][3] = 0; uint32_t m = p[4] | p[5] << 8 | p[6] << 16 | (uint32_t)p[7] << 24; for (int i = 0; i < 16; i++) memcpy(out[i], c[m >> 2 * i & 3], sizeof out[i]); }
inline void dxalpha(const uint8_t* p, double out[16]) { double a[8] = { (double)p[0], (double)p[1] }; if (p[0] > p[1]) for (int i = 2; i < 8; i++) a[i] = ((8 - i) * a[0] + (i - 1) * a[1]) / 7; else { for (int i = 2; i < 6; i++) a[i] = ((6 - i) * a[0] + (i - 1) * a[1]) / 5; a[6] = 0; a[7] = 255; } uint64_t m = 0; for (int i = 0; i < 6; i++) m |= (uint64_t)p[2 + i] << 8 * i; for (int i = 0; i < 16; i++) out[i] = a[m >> 3 * i & 7]; }
// ---- encoded files with the picture they hold -------------------------------------------------------------------------------
struct P { float c[4]; };
inline P px(double r, double g, double b, double a = 255) { P p; p.c[0] = r; p.c[1] = g; p.c[2] = b; p.c[3] = a; return p; }
struct Fr { int w = 0, h = 0, d = 1; std::vector<P> p; int dur = -1, ox = -1, oy = -1; bool index = false; };   // index: c[0] is the palette index itself
struct File { std::string name; ILenum type; const char* ext; Bytes b; std::vector<Fr> fr; double tol = 0; bool sig = true; std::vector<Fr> mip; std::vector<std::vector<std::vector<Fr>>> face; };   // face[frame][face][level], when the file has faces or levels of its own for every frame
using Sink = std::function<void(File&&)>;
// deterministic content
inline Bytes rnd(size_t n, uint32_t salt) { return ilx::pattern((int)n, salt); }
inline Fr pic(int w, int h) { Fr f; f.w = w; f.h = h; f.p.resize(w * h); return f; }
inline Fr rgbpic(int w, int h, const Bytes& rgb) { Fr f = pic(w, h); for (int i = 0; i < w * h; i++) f.p[i] = px(rgb[i * 3], rgb[i * 3 + 1], rgb[i * 3 + 2]); return f; }
inline Fr rgbapic(int w, int h, const Bytes& v) { Fr f = pic(w, h); for (int i = 0; i < w * h; i++) f.p[i] = px(v[i * 4], v[i * 4 + 1], v[i * 4 + 2], v[i * 4 + 3]); return f; }
inline Fr greypic(int w, int h, const Bytes& v) { Fr f = pic(w, h); for (int i = 0; i < w * h; i++) f.p[i] = px(v[i], v[i], v[i]); return f; }
inline Fr palpic(int w, int h, const Bytes& ix, const Bytes& rgb) { Fr f = pic(w, h); for (int i = 0; i < w * h; i++) f.p[i] = px(rgb[ix[i] * 3], rgb[ix[i] * 3 + 1], rgb[ix[i] * 3 + 2]); return f; }
inline Bytes idx(int n, int cols, uint32_t salt) { Bytes b = rnd(n, salt); for (auto& v : b) v %= cols; return b; }
// packs samples of the given bit width, most significant first
inline Bytes bits(const uint8_t* v, int n, int width) { Bytes o((n * width + 7) / 8, 0); for (int i = 0; i < n; i++) for (int k = 0; k < width; k++) if (v[i] >> (width - 1 - k) & 1) o[(i * width + k) / 8] |= 0x80 >> ((i * width + k) & 7); return o; }
// every way of cutting n items into segments; kind bit: what to do where a segment may be either a run or literal
template <class F> void cuts(int n, F f) { for (int m = 0; m < 1 << (n - 1); m++) { std::vector<std::pair<int, int>> s; int a = 0; for (int i = 1; i <= n; i++) if (i == n || m >> (i - 1) & 1) { s.push_back({ a, i }); a = i; } f(m, s); } }
// BMP
inline Bytes bmp(int w, int h, int bitc, int comp, const Bytes& pal, int used, const Bytes& data, const Bytes& masks = {}, int gap = 0)
{
    W o; unsigned off = 54 + pal.size() + masks.size() + gap; o.s("BM").u32(off + data.size()).u32(0).u32(off).u32(40).u32(w).u32(h).u16(1).u16(bitc).u32(comp).u32(data.size()).u32(2835).u32(2835).u32(used).u32(0).raw(masks).raw(pal);
    for (int i = 0; i < gap; i++) o.u8(0xEE); o.raw(data); return o.b;
}
inline Bytes bgr4(const Bytes& rgb) { W o; for (size_t i = 0; i + 2 < rgb.size(); i += 3) o.u8(rgb[i + 2]).u8(rgb[i + 1]).u8(rgb[i]).u8(0); return o.b; }
inline Bytes bgr3(const Bytes& rgb) { W o; for (size_t i = 0; i + 2 < rgb.size(); i += 3) o.u8(rgb[i + 2]).u8(rgb[i + 1]).u8(rgb[i]); return o.b; }
inline void bmps(const Sink& out, bool more)
{
    int MW = more ? 34 : 18, MH = more ? 4 : 3;
    for (int w = 1; w <= MW; w++) for (int h = 1; h <= MH; h++) for (int up = 0; up < 2; up++) {
        auto row = [&](int y) { return up ? y : h - 1 - y; }; std::string sz = mc::sfmt("%dx%d%s", w, h, up ? " top-down" : "");
        for (int bc : { 1, 4, 8 }) for (int used : { 0, 2, 1 << bc }) for (int gap : { 0, 3 }) { if (used == 2 && bc == 1) continue; int n = used ? used : 1 << bc; Bytes pal = rnd(n * 3, bc + used), ix = idx(w * h, n, w + h * 7); W d; for (int y = 0; y < h; y++) { d.raw(bits(&ix[row(y) * w], w, bc)); d.pad(4); }
            File f; f.name = mc::sfmt("BMP %d bit, %d colours used, gap %d, ", bc, used, gap) + sz; f.type = IL_BMP; f.ext = "bmp"; f.b = bmp(w, up ? -h : h, bc, 0, bgr4(pal), used, d.b, {}, gap); f.fr = { palpic(w, h, ix, pal) }; out(std::move(f));
            if (!up && !gap && used != 2) { W o; unsigned off = 26 + n * 3; o.s("BM").u32(off + d.b.size()).u32(0).u32(off).u32(12).u16(w).u16(h).u16(1).u16(bc).raw(bgr3(pal)).raw(d.b); if (!used) continue; File g; g.name = mc::sfmt("OS/2 BMP %d bit, ", bc) + sz; g.type = IL_BMP; g.ext = "bmp"; g.b = o.b; g.fr = { palpic(w, h, ix, pal) }; out(std::move(g)); } }
        Bytes c = rnd(w * h * 3, w * 5 + h); { W d; for (int y = 0; y < h; y++) { for (int x = 0; x < w; x++) { auto* q = &c[(row(y) * w + x) * 3]; d.u8(q[2]).u8(q[1]).u8(q[0]); } d.pad(4); }
            File f; f.name = "BMP 24 bit " + sz; f.type = IL_BMP; f.ext = "bmp"; f.b = bmp(w, up ? -h : h, 24, 0, {}, 0, d.b); f.fr = { rgbpic(w, h, c) }; out(std::move(f));
            if (!up) { W o; o.s("BM").u32(26 + d.b.size()).u32(0).u32(26).u32(12).u16(w).u16(h).u16(1).u16(24).raw(d.b); File g; g.name = "OS/2 BMP 24 bit " + sz; g.type = IL_BMP; g.ext = "bmp"; g.b = o.b; g.fr = { rgbpic(w, h, c) }; out(std::move(g)); } }
        struct M { int bits; unsigned r, g, b; bool mask; }; for (M m : { M{ 16, 0x7C00, 0x3E0, 0x1F, false }, M{ 16, 0x7C00, 0x3E0, 0x1F, true }, M{ 16, 0xF800, 0x7E0, 0x1F, true }, M{ 16, 0xF00, 0xF0, 0xF, true }, M{ 16, 0x1F, 0x7E0, 0xF800, true }, M{ 32, 0xFF0000, 0xFF00, 0xFF, false }, M{ 32, 0xFF0000, 0xFF00, 0xFF, true }, M{ 32, 0xFF, 0xFF00, 0xFF0000, true }, M{ 32, 0xFF000000, 0xFF0000, 0xFF00, true } }) {
            W d; Fr fr = pic(w, h); Bytes raw = rnd(w * h * 4, 9 + w); std::vector<uint32_t> v(w * h); auto get = [](uint32_t x, unsigned k) { int s = __builtin_ctz(k); return (x & k) >> s; }; auto full = [&](uint32_t x, unsigned k) { return get(x, k) * 255.0 / get(k, k); };
            for (int i = 0; i < w * h; i++) { v[i] = raw[i * 4] | raw[i * 4 + 1] << 8 | raw[i * 4 + 2] << 16 | (uint32_t)raw[i * 4 + 3] << 24; v[i] &= m.r | m.g | m.b; fr.p[i] = px(full(v[i], m.r), full(v[i], m.g), full(v[i], m.b)); }
            for (int y = 0; y < h; y++) { for (int x = 0; x < w; x++) if (m.bits == 16) d.u16(v[row(y) * w + x]); else d.u32(v[row(y) * w + x]); d.pad(4); } W mk; if (m.mask) mk.u32(m.r).u32(m.g).u32(m.b);
            File f; f.name = mc::sfmt("BMP %d bit masks %x %x %x%s ", m.bits, m.r, m.g, m.b, m.mask ? "" : " implied") + sz; f.type = IL_BMP; f.ext = "bmp"; f.b = bmp(w, up ? -h : h, m.bits, m.mask ? 3 : 0, {}, 0, d.b, mk.b); f.fr = { fr }; f.tol = m.bits == 16 ? (m.r == 0xF00 ? 16 : 8) : 0; out(std::move(f)); }
    }
}
// RLE8/RLE4: every packetisation of a two-row picture, with encoded runs, absolute runs, deltas
inline void bmprle(const Sink& out, bool more)
{
    int N = more ? 7 : 6; for (int bc : { 8, 4 }) { Bytes pal = rnd((1 << bc) * 3, 40 + bc); for (int w = 1; w <= N; w++) for (int content = 0; content < 1 << w; content++) for (int ends = 0; ends < 3; ends++) cuts(w, [&](int m, const std::vector<std::pair<int, int>>& s) {
        Bytes ix(w * 2); for (int x = 0; x < w; x++) { ix[x] = content >> x & 1 ? 3 : 14; ix[w + x] = (x & 1) ? 5 : 6; } W d; // stored bottom row first: row 1 is memory row 0
        auto runs = [&](const uint8_t* p, bool tail) { for (auto& q : s) { int n = q.second - q.first; bool same = true, alt = true; for (int i = q.first; i < q.second; i++) { if (p[i] != p[q.first]) same = false; if (i >= q.first + 2 && p[i] != p[i - 2]) alt = false; }
                if (bc == 8 ? same : alt) { d.u8(n); d.u8(bc == 8 ? p[q.first] : p[q.first] << 4 | (n > 1 ? p[q.first + 1] : 0)); }
                else { if (n < 3) { for (int i = q.first; i < q.second; i++) d.u8(1).u8(bc == 8 ? p[i] : p[i] << 4); } else { d.u8(0).u8(n); Bytes k = bits(p + q.first, n, bc); d.raw(k); if (k.size() & 1) d.u8(0); } } } (void)tail; };
        runs(&ix[w], false); if (ends == 0) d.u8(0).u8(0); else if (ends == 1) { d.u8(0).u8(0); } else { d.u8(0).u8(0).u8(0).u8(2).u8(0).u8(0); } // ends 2: a delta of nothing at the start of the row
        runs(&ix[0], true); if (ends != 1) d.u8(0).u8(0); d.u8(0).u8(1);
        File f; f.name = mc::sfmt("BMP RLE%d width %d content %x cuts %x ends %d", bc, w, content, m, ends); f.type = IL_BMP; f.ext = "bmp"; f.b = bmp(w, 2, bc, bc == 8 ? 1 : 2, bgr4(pal), 0, d.b); f.fr = { palpic(w, 2, ix, pal) }; out(std::move(f)); });
    // a delta, pixels after it, the end of that row, more rows, another delta: skipped pixels take colour 0
    for (int w : { 2, 5 }) for (int x0 = 0; x0 < 2; x0++) for (int dx = 0; x0 + dx < w; dx++) for (int dy = 0; dy < 4; dy++) for (int dy2 = 0; dy2 < 3; dy2++) for (int form = 0; form < 2; form++) { const int h = 8; Bytes ix(w * h, 0); W d; int x = 0, y = 0; auto put = [&](int n, int v) { if (form) d.u8(n).u8(bc == 8 ? v : v << 4 | v); else for (int i = 0; i < n; i++) d.u8(1).u8(bc == 8 ? v : v << 4); for (int i = 0; i < n; i++) ix[(h - 1 - y) * w + x++] = v; };
        if (x0) put(1, 3); d.u8(0).u8(2).u8(dx).u8(dy); x += dx; y += dy; put(w - x > 2 ? 2 : 1, 7); d.u8(0).u8(0); x = 0; y++; put(w, 5); d.u8(0).u8(0); x = 0; y++; d.u8(0).u8(2).u8(1).u8(dy2); x++; y += dy2; put(1, 9); d.u8(0).u8(0); y++; x = 0; if (y < h) put(1, 11); d.u8(0).u8(1);
        File f; f.name = mc::sfmt("BMP RLE%d width %d deltas %d+%d,%d then 1,%d form %d", bc, w, x0, dx, dy, dy2, form); f.type = IL_BMP; f.ext = "bmp"; f.b = bmp(w, h, bc, bc == 8 ? 1 : 2, bgr4(pal), 0, d.b); f.fr = { palpic(w, h, ix, pal) }; out(std::move(f)); }
    // skipped pixels take colour 0
    for (int w : { 3, 6 }) for (int dx = 0; dx < w; dx++) for (int dy = 0; dy < 3; dy++) { Bytes ix(w * 3, 0); W d; d.u8(0).u8(2).u8(dx).u8(dy); d.u8(1).u8(bc == 8 ? 7 : 0x70); ix[(2 - dy) * w + dx] = 7; d.u8(0).u8(1);
        File f; f.name = mc::sfmt("BMP RLE%d width %d delta %d,%d", bc, w, dx, dy); f.type = IL_BMP; f.ext = "bmp"; f.b = bmp(w, 3, bc, bc == 8 ? 1 : 2, bgr4(pal), 0, d.b); f.fr = { palpic(w, 3, ix, pal) }; out(std::move(f)); } }
}
// PCX
inline Bytes pcxhead(int w, int h, int bpp, int planes, int bpl, const Bytes& ega, int x0 = 0, int y0 = 0, int version = 5)
{ W o; o.u8(10).u8(version).u8(1).u8(bpp).u16(x0).u16(y0).u16(x0 + w - 1).u16(y0 + h - 1).u16(72).u16(72); for (int i = 0; i < 48; i++) o.u8(i < (int)ega.size() ? ega[i] : 0); o.u8(0).u8(planes).u16(bpl).u16(1).u16(0).u16(0); for (int i = 0; i < 54; i++) o.u8(0); return o.b; }
// mode 0: a run wherever needed only, 1: longest runs, 2: every byte as a run of one
inline void pcxrow(W& o, const uint8_t* p, int n, int mode) { for (int i = 0; i < n;) { int k = 1; if (mode == 1) while (i + k < n && k < 63 && p[i + k] == p[i]) k++; if (k > 1 || mode == 2 || p[i] >= 192) o.u8(0xC0 | k); o.u8(p[i]); i += k; } }
inline void pcxs(const Sink& out, bool more)
{
    for (int w = 1; w <= (more ? 20 : 10); w++) for (int h = 1; h <= 3; h++) for (int mode = 0; mode < 3; mode++) for (int org = 0; org < 2; org++) for (int content = 0; content < 2; content++) { if (org && (h == 2 || content)) continue;
        auto nm = [&](const char* t) { return mc::sfmt("PCX %s %dx%d runs %d origin %d content %d", t, w, h, mode, org, content); }; int x0 = org * 3, y0 = org * 5; auto add = [&](const char* t, const Bytes& b, Fr fr) { File f; f.name = nm(t); f.type = IL_PCX; f.ext = "pcx"; f.b = b; f.fr = { fr }; out(std::move(f)); };
        Bytes r = rnd(w * h * 3, w * 3 + h); if (content) for (size_t i = 0; i < r.size(); i++) r[i] = i / 4 & 1 ? 200 : 3;
        { Bytes pal = rnd(768, 8); Bytes ix(r.begin(), r.begin() + w * h); int bpl = (w + 1) & ~1; W o; o.raw(pcxhead(w, h, 8, 1, bpl, {}, x0, y0)); for (int y = 0; y < h; y++) { Bytes row(bpl, 0); memcpy(row.data(), &ix[y * w], w); pcxrow(o, row.data(), bpl, mode); } o.u8(12).raw(pal); add("8 bit", o.b, palpic(w, h, ix, pal)); }
        { int bpl = (w + 1) & ~1; W o; o.raw(pcxhead(w, h, 8, 3, bpl, {}, x0, y0)); for (int y = 0; y < h; y++) for (int c = 0; c < 3; c++) { Bytes row(bpl, 0); for (int x = 0; x < w; x++) row[x] = r[(y * w + x) * 3 + c]; pcxrow(o, row.data(), bpl, mode); } add("24 bit", o.b, rgbpic(w, h, r)); }
        { Bytes ega = rnd(48, 4); Bytes ix(w * h); for (int i = 0; i < w * h; i++) ix[i] = r[i] & 15; int bpl = ((w + 7) / 8 + 1) & ~1; W o; o.raw(pcxhead(w, h, 1, 4, bpl, ega, x0, y0)); for (int y = 0; y < h; y++) for (int c = 0; c < 4; c++) { Bytes v(w); for (int x = 0; x < w; x++) v[x] = ix[y * w + x] >> c & 1; Bytes row = bits(v.data(), w, 1); row.resize(bpl); pcxrow(o, row.data(), bpl, mode); } add("4 planes", o.b, palpic(w, h, ix, ega)); }
        { Bytes v(w * h), g(w * h); for (int i = 0; i < w * h; i++) { v[i] = r[i] & 1; g[i] = v[i] * 255; } int bpl = ((w + 7) / 8 + 1) & ~1; W o; Bytes ega = { 0, 0, 0, 255, 255, 255 }; o.raw(pcxhead(w, h, 1, 1, bpl, ega, x0, y0)); for (int y = 0; y < h; y++) { Bytes row = bits(&v[y * w], w, 1); row.resize(bpl); pcxrow(o, row.data(), bpl, mode); } add("1 bit", o.b, greypic(w, h, g)); } }
}
// PNM
inline void pnms(const Sink& out, bool more)
{
    for (int w = 1; w <= (more ? 17 : 9); w++) for (int h = 1; h <= 3; h++) for (int kind = 1; kind <= 6; kind++) for (int sp = 0; sp < 4; sp++) {
        int ch = kind % 3 == 0 ? 3 : 1; bool ascii = kind <= 3, bit = kind % 3 == 1; Bytes v = rnd(w * h * ch, w + 3 * h + kind); if (bit) for (auto& q : v) q &= 1; const char* sep[] = { "\n", " ", "\n# a comment 12 34\n", "\r\n" };
        W o; o.s(mc::sfmt("P%d%s%d %d", kind, sep[sp], w, h)); if (!bit) o.s(sep[sp]).s("255"); o.s(sp == 2 || sp == 3 ? "\n" : sep[sp]);
        if (ascii) { for (size_t i = 0; i < v.size(); i++) { o.s(std::to_string((int)v[i])); o.s(sp == 0 && (int)(i % (w * ch)) == w * ch - 1 ? "\n" : sp == 1 && bit && i % 3 ? "" : " "); } o.s("\n"); } else if (bit) for (int y = 0; y < h; y++) o.raw(bits(&v[y * w], w, 1)); else o.raw(v);
        Fr fr = pic(w, h); for (int i = 0; i < w * h; i++) if (ch == 3) fr.p[i] = px(v[i * 3], v[i * 3 + 1], v[i * 3 + 2]); else { int g = bit ? (v[i] ? 0 : 255) : v[i]; fr.p[i] = px(g, g, g); }
        File f; f.name = mc::sfmt("PNM P%d %dx%d separators %d", kind, w, h, sp); f.type = IL_PNM; f.ext = "pnm"; f.b = o.b; f.fr = { fr }; out(std::move(f)); }
}
// SGI
inline void sgis(const Sink& out, bool more)
{
    for (int w = 1; w <= (more ? 9 : 6); w++) for (int h = 1; h <= 3; h++) for (int ch : { 1, 3, 4 }) for (int bp = 1; bp <= 2; bp++) for (int rle = 0; rle < 4; rle++) { if (rle && bp == 2 && rle > 1) continue;
        // rle 1: literals, 2: runs where equal, 3: shared rows (several table entries point at the same data)
        Bytes v = rnd(w * h * ch * bp, w + h + ch); if (rle >= 2) for (size_t i = 0; i < v.size(); i++) v[i] = i / 3 & 1 ? 9 : 120; if (rle == 3) for (int k = 0; k < ch * h; k++) for (int x = 0; x < w; x++) v[(k * w + x)] = x < w / 2 ? 7 : 200; if (ch == 2 && bp == 2 && rle) continue;
        W o; o.be16(474).u8(rle ? 1 : 0).u8(bp).be16(ch == 1 ? 2 : 3).be16(w).be16(h).be16(ch).be32(0).be32(bp == 1 ? 255 : 65535).be32(0); for (int i = 0; i < 80; i++) o.u8(0); o.be32(0); for (int i = 0; i < 404; i++) o.u8(0);
        auto S = [&](int x, int y, int c) { size_t k = ((c * h + y) * w + x) * bp; return bp == 1 ? (int)v[k] : v[k] << 8 | v[k + 1]; }; // y from the bottom
        if (!rle) o.raw(v); else { std::vector<Bytes> rows; std::vector<uint32_t> st, ln; uint32_t pos = 512 + h * ch * 8; W d; for (int c = 0; c < ch; c++) for (int y = 0; y < h; y++) { W r; auto put = [&](int val) { if (bp == 1) r.u8(val); else r.be16(val); };
                for (int x = 0; x < w;) { int k = 1; if (rle >= 2) while (x + k < w && S(x + k, y, c) == S(x, y, c)) k++; if (k > 1) { put(k); put(S(x, y, c)); x += k; } else { int l = 1; if (rle == 1) l = w - x > 2 ? 2 : w - x; put(0x80 | l); for (int i = 0; i < l; i++) put(S(x + i, y, c)); x += l; } } put(0);
                if (rle == 3 && st.size()) { st.push_back(st[0]); ln.push_back(ln[0]); } else { st.push_back(pos + d.b.size()); ln.push_back(r.b.size()); d.raw(r.b); } } for (auto q : st) o.be32(q); for (auto q : ln) o.be32(q); o.raw(d.b); }
        Fr fr = pic(w, h); double sc = bp == 1 ? 1 : 255.0 / 65535; for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { int m = h - 1 - y; double a = sc * S(x, m, 0); fr.p[y * w + x] = ch <= 2 ? px(a, a, a, ch == 2 ? S(x, m, 1) * sc : 255) : px(a, sc * S(x, m, 1), sc * S(x, m, 2), ch == 4 ? sc * S(x, m, 3) : 255); }
        File f; f.name = mc::sfmt("SGI %dx%d, %d channels of %d bytes, coding %d", w, h, ch, bp, rle); f.type = IL_SGI; f.ext = "sgi"; f.b = o.b; f.fr = { fr }; f.tol = 0.01; out(std::move(f)); }
}
// TGA
inline void tgas(const Sink& out, bool more)
{
    for (int w = 1; w <= (more ? 6 : 4); w++) for (int h = 1; h <= 3; h++) for (int org = 0; org < 4; org += 2) for (int id : { 0, 5 }) for (int rle = 0; rle < 3; rle++) for (int k = 0; k < 12; k++) {
        // k: colour mapped 15/16/24/32-bit map x first entry, true colour 15/16/24/32, grey 8
        static const int BITS[] = { 8, 8, 8, 8, 15, 16, 24, 32, 8, 8, 8, 16 }, MAP[] = { 15, 16, 24, 32, 0, 0, 0, 0, 0, 24, 0, 0 }; int bitc = BITS[k], map = MAP[k]; bool grey = k == 8 || k == 11; if (k == 10 || k == 11) continue; int first = k == 9 ? 3 : 0, cols = 7; int type = map ? 1 : grey ? 3 : 2;
        Fr fr = pic(w, h); W data; Bytes raw = rnd(w * h * 4, w * 2 + h + k); if (rle == 2) for (int i = 0; i < w * h; i++) memcpy(&raw[i * 4], &raw[(i / 3 & 1) * 4], 4); std::vector<Bytes> e(w * h); Bytes cm = rnd(cols * 4, k); W cmw;
        auto c5 = [](int v) { return v * 255.0 / 31; }; auto col = [&](int b, const uint8_t* q) { if (b == 24) return px(q[2], q[1], q[0]); if (b == 32) return px(q[2], q[1], q[0], q[3]); int v = q[0] | q[1] << 8; return px(c5(v >> 10 & 31), c5(v >> 5 & 31), c5(v & 31)); };
        if (map) for (int i = 0; i < cols; i++) for (int q = 0; q < (map + 7) / 8; q++) cmw.u8(cm[i * 4 + q] & (map < 24 && q == 1 ? 0x7F : 0xFF));
        for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { uint8_t* q = &raw[(y * w + x) * 4]; Bytes en; if (map) { q[0] = q[0] % cols; en = { (uint8_t)(q[0] + first) }; Bytes t(cmw.b.begin() + q[0] * ((map + 7) / 8), cmw.b.begin() + (q[0] + 1) * ((map + 7) / 8)); fr.p[y * w + x] = col(map, t.data()); } else if (grey) { en = { q[0] }; fr.p[y * w + x] = px(q[0], q[0], q[0]); } else { if (bitc < 24) q[1] &= 0x7F; en = Bytes(q, q + (bitc + 7) / 8); fr.p[y * w + x] = col(bitc, q); }
            int my = org & 2 ? y : h - 1 - y, mx = org & 1 ? w - 1 - x : x; e[my * w + mx] = en; }
        if (!rle) for (auto& q : e) data.raw(q); else for (size_t i = 0; i < e.size();) { size_t n = 1; while (rle == 2 && i + n < e.size() && n < 128 && e[i + n] == e[i]) n++; if (n > 1 || (rle == 2 && (i & 1))) { data.u8(0x80 | (n - 1)).raw(e[i]); i += n; } else { size_t l = std::min<size_t>(e.size() - i, rle == 1 ? 3 : 1); data.u8(l - 1); for (size_t j = 0; j < l; j++) data.raw(e[i + j]); i += l; } }
        W o; o.u8(id).u8(map ? 1 : 0).u8(type + (rle ? 8 : 0)).u16(first).u16(map ? cols : 0).u8(map).u16(0).u16(0).u16(w).u16(h).u8(bitc).u8((org & 1 ? 0x10 : 0) | (org & 2 ? 0x20 : 0) | (bitc == 32 ? 8 : 0)); for (int i = 0; i < id; i++) o.u8('a' + i); o.raw(cmw.b).raw(data.b);
        File f; f.name = mc::sfmt("TGA type %d, %d bit, map of %d bit from %d, %dx%d, origin %d, id %d, packets %d", type, bitc, map, first, w, h, org, id, rle); f.type = IL_TGA; f.ext = "tga"; f.b = o.b; f.fr = { fr }; f.tol = (map == 15 || map == 16 || bitc == 15 || (bitc == 16 && !grey)) ? 8 : 0; out(std::move(f)); }
}
// PSD
inline Bytes packbits(const uint8_t* p, int n, int mode) { W o; for (int i = 0; i < n;) { int k = 1; while (mode && i + k < n && k < 128 && p[i + k] == p[i]) k++; if (k > 1 || mode == 2) { if (k == 1) { o.u8(0).u8(p[i]); } else o.u8(257 - k).u8(p[i]); i += k; } else { int l = 1; while (i + l < n && l < 128 && (!mode || p[i + l] != p[i + l - 1])) l++; if (mode && l > 1 && i + l < n && p[i + l] == p[i + l - 1]) l--; o.u8(l - 1); for (int j = 0; j < l; j++) o.u8(p[i + j]); i += l; } if (mode == 1 && i < n && (i & 3) == 0) o.u8(128); } return o.b; }
inline void psds(const Sink& out, bool more)
{
    // colour mode, channels: grey 1/2, indexed, RGB 3/4/5, CMYK 4/5
    static const int K[][2] = { { 1, 1 }, { 1, 2 }, { 2, 1 }, { 3, 3 }, { 3, 4 }, { 4, 4 }, { 4, 5 } };
    for (int w = 1; w <= (more ? 7 : 5); w++) for (int h = 1; h <= 3; h++) for (auto& k : K) for (int depth : { 8, 16 }) for (int rle = 0; rle < 4; rle++) for (int res = 0; res < 2; res++) { if (depth == 16 && (rle || k[0] == 2)) continue; int n = w * h, ch = k[1], by = depth / 8;
        Bytes v = rnd(n * ch * by, w + 9 * h + ch + k[0]); if (rle) for (size_t i = 0; i < v.size(); i++) if (i % 5 < 3) v[i] = 77; Bytes pal = rnd(768, 3); W o; o.s("8BPS").be16(1); for (int i = 0; i < 6; i++) o.u8(0); o.be16(ch).be32(h).be32(w).be16(depth).be16(k[0]); if (k[0] == 2) { o.be32(768); for (int c = 0; c < 3; c++) for (int i = 0; i < 256; i++) o.u8(pal[i * 3 + c]); } else o.be32(0);
        if (res) { o.be32(12 + 8).s("8BIM").be16(0x03ED).be16(0).be32(7).s("abcdefg").u8(0); o.be32(6).s("layers"); } else o.be32(0).be32(0); o.be16(rle ? 1 : 0);
        if (!rle) o.raw(v); else { std::vector<Bytes> rows; for (int i = 0; i < ch * h; i++) rows.push_back(packbits(&v[i * w], w, rle - 1)); for (auto& r : rows) o.be16(r.size()); for (auto& r : rows) o.raw(r); }
        auto S = [&](int c, int i) { double q = by == 1 ? v[c * n + i] : (v[(c * n + i) * 2] << 8 | v[(c * n + i) * 2 + 1]) * 255.0 / 65535; return q; }; Fr fr = pic(w, h); for (int i = 0; i < n; i++) { if (k[0] == 1) fr.p[i] = px(S(0, i), S(0, i), S(0, i)); else if (k[0] == 2) fr.p[i] = px(pal[v[i] * 3], pal[v[i] * 3 + 1], pal[v[i] * 3 + 2]); else if (k[0] == 3) fr.p[i] = px(S(0, i), S(1, i), S(2, i), ch > 3 ? S(3, i) : 255); else { double b = S(3, i) / 255; fr.p[i] = px(S(0, i) * b, S(1, i) * b, S(2, i) * b, ch > 4 ? S(4, i) : 255); } }
        File f; f.name = mc::sfmt("PSD mode %d, %d channels of %d bits, %dx%d, coding %d, sections %d", k[0], ch, depth, w, h, rle, res); f.type = IL_PSD; f.ext = "psd"; f.b = o.b; f.fr = { fr }; f.tol = k[0] == 4 ? 0.51 : 0.01; out(std::move(f)); }
}
// HDR
inline void hdrs(const Sink& out, bool more)
{
    for (int w : { 1, 2, 3, 7, 8, 9, 12, 20 }) for (int h = 1; h <= 3; h++) for (int mode = 0; mode < 5; mode++) for (int head = 0; head < 3; head++) { if (mode >= 2 && w < 8) continue; if (mode == 1 && w >= 8) continue;
        // mode 0 flat, 1 old runs, 2 literals, 3 longest runs, 4 mixed
        Bytes v = rnd(w * h * 4, w + h * 3); for (int i = 0; i < w * h; i++) { v[i * 4 + 3] = 120 + v[i * 4 + 3] % 16; if (v[i * 4] < 3 ) v[i * 4] = 77; if (v[i * 4] == 2) v[i * 4] = 3; } if (mode == 1 || mode >= 3) for (int i = 0; i < w * h; i++) if (i % 5) memcpy(&v[i * 4], &v[(i / 5 * 5) * 4], 4);
        W o; o.s(head == 1 ? "#?RGBE\n" : "#?RADIANCE\n"); if (head == 2) o.s("# made by hand\nEXPOSURE=1.0\n"); o.s("FORMAT=32-bit_rle_rgbe\n\n").s(mc::sfmt("-Y %d +X %d\n", h, w));
        for (int y = 0; y < h; y++) { uint8_t* p = &v[y * w * 4]; if (mode == 0 && w >= 8) { p[0] = 9; p[1] = 200; } if (mode == 0) o.raw(Bytes(p, p + w * 4)); else if (mode == 1) { for (int x = 0; x < w;) { int k = 1; while (x + k < w && !memcmp(p + (x + k) * 4, p + x * 4, 4)) k++; o.raw(Bytes(p + x * 4, p + x * 4 + 4)); if (k > 1) o.u8(1).u8(1).u8(1).u8(k - 1); x += k; } }
            else { o.u8(2).u8(2).be16(w); for (int c = 0; c < 4; c++) for (int x = 0; x < w;) { int k = 1; while (mode >= 3 && x + k < w && k < 127 && p[(x + k) * 4 + c] == p[x * 4 + c] && (mode == 3 || k < 2)) k++; if (k > 1) { o.u8(128 + k).u8(p[x * 4 + c]); x += k; } else { int l = std::min(w - x, mode == 2 ? 5 : 1); o.u8(l); for (int j = 0; j < l; j++) o.u8(p[(x + j) * 4 + c]); x += l; } } } }
        Fr fr = pic(w, h); for (int i = 0; i < w * h; i++) { double e = ldexp(1.0, v[i * 4 + 3] - 128) / 256 * 255; fr.p[i] = px(v[i * 4] * e, v[i * 4 + 1] * e, v[i * 4 + 2] * e); }
        File f; f.name = mc::sfmt("HDR %dx%d coding %d header %d", w, h, mode, head); f.type = IL_HDR; f.ext = "hdr"; f.b = o.b; f.fr = { fr }; f.tol = 0.002; out(std::move(f)); }
    // wide rows of old runs: a run's count takes as many bytes as it needs, least significant first; leading zero bytes and runs cut in two are allowed as well
    for (int w : { 8, 300, 514, 40000, 66000 }) for (int form = 0; form < 4; form++) for (int lead = 1; lead <= 3; lead++) { if (!more && w > 600 && lead > 1) continue; const int h = 2; Fr fr = pic(w, h); W o; o.s("#?RADIANCE\nFORMAT=32-bit_rle_rgbe\n\n").s(mc::sfmt("-Y %d +X %d\n", h, w));
        for (int y = 0; y < h; y++) { int x = 0, k = 0; auto put = [&](int run) { uint8_t p[4] = { (uint8_t)(9 + 50 * k + y), (uint8_t)(200 - 30 * k), (uint8_t)(77 + y), (uint8_t)(126 + k % 3) }; o.raw(p, 4); int n = run - 1; double e = ldexp(1.0, p[3] - 128) / 256 * 255; for (int i = 0; i < run; i++) fr.p[y * w + x++] = px(p[0] * e, p[1] * e, p[2] * e); k++;
                if (form == 1 && n > 1) { o.u8(1).u8(1).u8(1).u8(0); if (n >= 256) { o.u8(1).u8(1).u8(1).u8(n >> 8 & 255); if (n >= 65536) o.u8(1).u8(1).u8(1).u8(n >> 16); o.raw(p, 4); n = (n & 255) - 1; if (n < 0) { n = 0; x--; } } else { o.raw(p, 4); n--; } }
                while (n > 0) { o.u8(1).u8(1).u8(1).u8(n & 255); n >>= 8; } };
            for (int i = 0; i < lead && x < w; i++) put(1); int rest = w - x; if (form == 0) put(rest); else if (form == 1) { put(rest - 1); while (x < w) put(1); } else if (form == 2) { int a = std::min(rest / 2, 257); put(a); put(w - x); } else { put(std::min(rest, 256)); while (w - x > 4) put((w - x) / 2); while (x < w) put(1); } }
        File f; f.name = mc::sfmt("HDR %dx%d old runs, form %d after %d pixels", w, h, form, lead); f.type = IL_HDR; f.ext = "hdr"; f.b = o.b; f.fr = { fr }; f.tol = 0.002; out(std::move(f)); }
}
// WBMP, CUT, DOOM, FTX, LIF, PIX, PXR, WAL
inline void smalls(const Sink& out, bool more)
{
    auto put = [&](ILenum t, const char* ext, const std::string& n, Bytes b, Fr fr, bool sig, double tol = 0) { File f; f.name = n; f.type = t; f.ext = ext; f.b = std::move(b); f.fr = { std::move(fr) }; f.sig = sig; f.tol = tol; out(std::move(f)); };
    for (int w = 1; w <= (more ? 40 : 20); w++) for (int h = 1; h <= 3; h++) { std::string sz = mc::sfmt("%dx%d", w, h); Bytes r = rnd(w * h * 4, w + h * 31);
        { Bytes v(w * h), g(w * h); for (int i = 0; i < w * h; i++) { v[i] = r[i] & 1; g[i] = v[i] * 255; } W o; o.u8(0).u8(0).u8(w).u8(h); for (int y = 0; y < h; y++) o.raw(bits(&v[y * w], w, 1)); put(IL_WBMP, "wbmp", "WBMP " + sz, o.b, greypic(w, h, g), false); }
        { Bytes ix(r.begin(), r.begin() + w * h); Bytes pal = rnd(1024, 77); W q; q.s("Willy 7").u8(0).u32(260).u32(50).u32(w).u32(h).u32(0).u32(0).u32(0).u32(0).u32(0); for (auto v : ix) q.u8(v - 1); q.raw(pal); Fr fr = pic(w, h); for (int i = 0; i < w * h; i++) fr.p[i] = px(pal[ix[i] * 4], pal[ix[i] * 4 + 1], pal[ix[i] * 4 + 2], pal[ix[i] * 4 + 3]); put(IL_LIF, "lif", "LIF " + sz, q.b, fr, true); }
        { W o; o.u32(w).u32(h).u32(1).raw(r); put(IL_FTX, "ftx", "FTX " + sz, o.b, rgbapic(w, h, r), false); }
        for (int ch : { 1, 3, 4 }) { W o; Bytes head(1024, 0); head[416] = h; head[418] = w; head[424] = ch == 1 ? 8 : ch == 3 ? 0x0E : 0x0F; o.raw(head).raw(Bytes(r.begin(), r.begin() + w * h * ch)); put(IL_PXR, "pxr", mc::sfmt("PXR %d channels ", ch) + sz, o.b, ch == 1 ? greypic(w, h, r) : ch == 3 ? rgbpic(w, h, r) : rgbapic(w, h, r), false); }
        if (w % 16 == 0 || w == 8) { for (int hh : { 8, 16 }) { W o; int a = w, b = hh; std::vector<Bytes> m; for (int i = 0; i < 4; i++) { m.push_back(rnd(a * b, 5 + i)); a = std::max(1, a / 2); b = std::max(1, b / 2); } o.str("wall", 32).u32(w).u32(hh); uint32_t at = 100; for (auto& q : m) { o.u32(at); at += q.size(); } o.str("", 32).u32(0).u32(0).u32(0); for (auto& q : m) o.raw(q); auto ixp = [](int w, int h, const Bytes& v) { Fr f = pic(w, h); f.index = true; for (int i = 0; i < w * h; i++) f.p[i] = px(v[i], 0, 0); return f; };
            File f; f.name = mc::sfmt("WAL %dx%d", w, hh); f.type = IL_WAL; f.ext = "wal"; f.b = o.b; f.fr = { ixp(w, hh, m[0]) }; a = w, b = hh; for (int i = 1; i < 4; i++) { a = std::max(1, a / 2); b = std::max(1, b / 2); f.mip.push_back(ixp(a, b, m[i])); } f.sig = false; out(std::move(f)); } }
        { for (int org = 0; org < 2; org++) { W o; Fr fr = pic(w, h); fr.index = true; for (auto& p : fr.p) p = px(247, 0, 0); o.u16(w).u16(h).u16(org * 3).u16(org * 2); std::vector<W> cols(w); uint32_t at = 8 + 4 * w; for (int x = 0; x < w; x++) { int y = x % 2; while (y < h) { int len = std::min(h - y, 1 + x % 2); cols[x].u8(y).u8(len).u8(0); for (int i = 0; i < len; i++) { int v = r[(y + i) * w + x]; cols[x].u8(v); fr.p[(y + i) * w + x] = px(v, 0, 0); } cols[x].u8(0); y += len + (x % 3 == 2); } cols[x].u8(255); o.u32(at); at += cols[x].b.size(); } for (auto& c : cols) o.raw(c.b); put(IL_DOOM, "wad", mc::sfmt("DOOM picture %d ", org) + sz, o.b, fr, false); } } }
    { Bytes v = rnd(4096, 6); Fr f = pic(64, 64); f.index = true; for (int i = 0; i < 4096; i++) f.p[i] = px(v[i], 0, 0); put(IL_DOOM_FLAT, "flat", "DOOM flat", v, f, false); }
    // every packetisation of CUT and PIX rows
    for (int w = 1; w <= (more ? 6 : 5); w++) for (int content = 0; content < 1 << w; content++) for (int single = 0; single < 2; single++) cuts(w, [&](int m, const std::vector<std::pair<int, int>>& s) { Bytes ix(w * 2); for (int x = 0; x < w; x++) { ix[x] = content >> x & 1 ? 200 : 3; ix[w + x] = x & 1 ? 17 : 130; }
        for (int tail = 0; tail < 2; tail++) { W o; o.u16(w).u16(2).u32(0); for (int y = 0; y < 2; y++) { for (auto& q : s) { const uint8_t* p = &ix[y * w]; int n = q.second - q.first; bool same = true; for (int i = q.first; i < q.second; i++) same = same && p[i] == p[q.first]; if (same && (n > 1 || single)) o.u8(0x80 | n).u8(p[q.first]); else { o.u8(n); for (int i = q.first; i < q.second; i++) o.u8(p[i]); } } if (tail || y == 0) o.u8(0).u8(0).u8(0); } Fr fr = pic(w, 2); fr.index = true; for (int i = 0; i < w * 2; i++) fr.p[i] = px(ix[i], 0, 0); put(IL_CUT, "cut", mc::sfmt("CUT width %d content %x cuts %x single %d tail %d", w, content, m, single, tail), o.b, fr, false); }
        if (!single) { W o; o.be16(w).be16(2).be16(0).be16(0).be16(24); Bytes c(w * 2 * 3); bool ok = true; for (int i = 0; i < w * 2; i++) { c[i * 3] = ix[i]; c[i * 3 + 1] = 255 - ix[i]; c[i * 3 + 2] = ix[i] / 2; } for (int y = 0; y < 2; y++) for (auto& q : s) { for (int i = q.first; i < q.second; i++) ok = ok && ix[y * w + i] == ix[y * w + q.first]; auto* p = &c[(y * w + q.first) * 3]; o.u8(q.second - q.first).u8(p[2]).u8(p[1]).u8(p[0]); } if (ok || m == (1 << (w - 1)) - 1) put(IL_PIX, "pix", mc::sfmt("PIX width %d content %x cuts %x", w, content, m), o.b, rgbpic(w, 2, c), false); } });
}
// VTF
inline void vtfs(const Sink& out, bool more)
{
    // format numbers: RGBA8888 0, ABGR8888 1, RGB888 2, BGR888 3, RGB565 4, I8 5, IA88 6, A8 8, RGB888_BLUESCREEN 9, BGR888_BLUESCREEN 10, ARGB8888 11, BGRA8888 12, DXT1 13, DXT3 14, DXT5 15, BGRX8888 16, BGR565 17, BGRX5551 18, BGRA4444 19, DXT1A 20, BGRA5551 21, RGBA16161616 25
    for (int fmt : { 0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 25 }) for (int w : { 1, 2, 4, 8 }) for (int h : { 1, 4, 8 }) for (int mips : { 1, 2, 9 }) for (int frames = 1; frames <= 2; frames++) for (int low = 0; low < 2; low++) for (int ver = 0; ver < 2; ver++) { int full = 1; while ((w | h) >> full) full++; int nm = mips == 9 ? full : mips; if (nm > full) continue; if (low && (w < 4 || h < 4)) continue; if (ver && (frames > 1 || mips == 2)) continue; if (!more && w == 2 && h != 1) continue;
        std::vector<std::vector<Fr>> P_(nm, std::vector<Fr>(frames)); W data; if (low) data.raw(rnd(8, 1)); double tol = 0;
        for (int m = nm - 1; m >= 0; m--) for (int fr = 0; fr < frames; fr++) { int a = std::max(1, w >> m), b = std::max(1, h >> m), n = a * b; Fr q = pic(a, b); uint32_t salt = m * 7 + fr * 3 + fmt; auto R = [&](int by) { Bytes r = rnd(n * by, salt); data.raw(r); return r; };
            if (fmt == 13 || fmt == 14 || fmt == 15 || fmt == 20) { bool one = fmt == 13 || fmt == 20; int bx = (a + 3) / 4, byy = (b + 3) / 4; Bytes r = rnd(bx * byy * (one ? 8 : 16), salt); data.raw(r); tol = 4; for (int j = 0; j < byy; j++) for (int i = 0; i < bx; i++) { const uint8_t* p = &r[(j * bx + i) * (one ? 8 : 16)]; double c[16][4], al[16]; if (one) dxcolor(p, true, c); else { dxcolor(p + 8, false, c); if (fmt == 14) { for (int k = 0; k < 16; k++) al[k] = (p[k / 2] >> (k & 1) * 4 & 15) * 17; } else dxalpha(p, al); for (int k = 0; k < 16; k++) c[k][3] = al[k]; }
                    for (int k = 0; k < 16; k++) { int x = i * 4 + k % 4, y = j * 4 + k / 4; if (x < a && y < b) q.p[y * a + x] = px(c[k][0], c[k][1], c[k][2], c[k][3]); } } }
            else { auto u16at = [](const Bytes& r, int i) { return r[i * 2] | r[i * 2 + 1] << 8; }; Bytes r; switch (fmt) {
                case 0: r = R(4); for (int i = 0; i < n; i++) q.p[i] = px(r[i * 4], r[i * 4 + 1], r[i * 4 + 2], r[i * 4 + 3]); break; case 1: r = R(4); for (int i = 0; i < n; i++) q.p[i] = px(r[i * 4 + 3], r[i * 4 + 2], r[i * 4 + 1], r[i * 4]); break;
                case 11: r = R(4); for (int i = 0; i < n; i++) q.p[i] = px(r[i * 4 + 1], r[i * 4 + 2], r[i * 4 + 3], r[i * 4]); break; case 12: case 16: r = R(4); for (int i = 0; i < n; i++) q.p[i] = px(r[i * 4 + 2], r[i * 4 + 1], r[i * 4], fmt == 16 ? 255 : r[i * 4 + 3]); break;
                case 2: case 9: r = R(3); for (int i = 0; i < n; i++) q.p[i] = px(r[i * 3], r[i * 3 + 1], r[i * 3 + 2]); break; case 3: case 10: r = R(3); for (int i = 0; i < n; i++) q.p[i] = px(r[i * 3 + 2], r[i * 3 + 1], r[i * 3]); break;
                case 5: r = R(1); for (int i = 0; i < n; i++) q.p[i] = px(r[i], r[i], r[i]); break; case 6: r = R(2); for (int i = 0; i < n; i++) q.p[i] = px(r[i * 2], r[i * 2], r[i * 2], r[i * 2 + 1]); break; case 8: r = R(1); for (int i = 0; i < n; i++) q.p[i] = px(0, 0, 0, r[i]); break;
                case 4: case 17: r = R(2); tol = 8; for (int i = 0; i < n; i++) { int v = u16at(r, i); double lo = (v & 31) * 255 / 31.0, mi = (v >> 5 & 63) * 255 / 63.0, hi = (v >> 11 & 31) * 255 / 31.0; q.p[i] = fmt == 4 ? px(lo, mi, hi) : px(hi, mi, lo); } break;
                case 18: case 21: r = R(2); tol = 8; for (int i = 0; i < n; i++) { int v = u16at(r, i); q.p[i] = px((v >> 10 & 31) * 255 / 31.0, (v >> 5 & 31) * 255 / 31.0, (v & 31) * 255 / 31.0, fmt == 18 ? 255 : v >> 15 ? 255 : 0); } break;
                case 19: r = R(2); tol = 16; for (int i = 0; i < n; i++) { int v = u16at(r, i); q.p[i] = px((v >> 8 & 15) * 17, (v >> 4 & 15) * 17, (v & 15) * 17, (v >> 12 & 15) * 17); } break;
                case 25: r = R(8); for (int i = 0; i < n; i++) q.p[i] = px(u16at(r, i * 4) / 257.0, u16at(r, i * 4 + 1) / 257.0, u16at(r, i * 4 + 2) / 257.0, u16at(r, i * 4 + 3) / 257.0); break; } }
            P_[m][fr] = q; }
        W o; o.s("VTF").u8(0).u32(7).u32(ver ? 1 : 2).u32(ver ? 64 : 80).u16(w).u16(h).u32(0).u16(frames).u16(0).u32(0).f32(0.5).f32(0.5).f32(0.5).u32(0).f32(1).u32(fmt).u8(nm).u32(low ? 13 : 0xFFFFFFFF).u8(low ? 4 : 0).u8(low ? 4 : 0); if (!ver) o.u16(1); o.pad(ver ? 64 : 80).raw(data.b);
        File f; f.name = mc::sfmt("VTF format %d, %dx%d, %d levels, %d frames, thumbnail %d, version 7.%d", fmt, w, h, nm, frames, low, ver ? 1 : 2); f.type = IL_VTF; f.ext = "vtf"; f.b = o.b; f.fr = P_[0]; for (int m = 1; m < nm; m++) f.mip.push_back(P_[m][0]); f.tol = tol; out(std::move(f)); }
    // environment maps, volumes and animations with levels: for every level from the smallest, every frame, every face, every slice
    auto half = [](int v) { return v == 0 ? 0.0 : ldexp(1 + (v & 1023) / 1024.0, (v >> 10 & 31) - 15) * (v & 0x8000 ? -1 : 1); };
    for (int fmt : { 0, 3, 13, 15, 19, 24, 25 }) for (int w : { 1, 4, 8 }) for (int h : { 4, 8 }) for (int d : { 0, 1, 2, 4 }) for (int lv = 0; lv < 2; lv++) for (int frames = 1; frames <= 3; frames++) for (int faces : { 1, 6, 7 }) for (int hs : { 64, 80, 96, 104 }) {
        if (d > 1 && faces > 1) continue; if (faces > 1 && w != h && !more) continue; if (hs == 64 && d) continue; if (hs != 80 && (frames > 1 || d > 1)) continue; if (d == 1 && frames > 1) continue; if (faces == 1 && d < 2 && frames == 1 && hs < 96) continue; int full = 1; while ((w | h | d) >> full) full++; int nm = lv ? full : 1, D = std::max(1, d);
        std::vector<std::vector<std::vector<Fr>>> P_(frames, std::vector<std::vector<Fr>>(faces, std::vector<Fr>(nm))); W data; data.raw(rnd(8, 3)); double tol = 0;
        for (int m = nm - 1; m >= 0; m--) for (int fr = 0; fr < frames; fr++) for (int fc = 0; fc < faces; fc++) { int a = std::max(1, w >> m), b = std::max(1, h >> m), c = std::max(1, D >> m), n = a * b * c; Fr q = pic(a, b); q.d = c; q.p.resize(n); uint32_t salt = m * 77 + fr * 13 + fc * 5 + fmt; auto R = [&](int by) { Bytes r = rnd(n * by, salt); data.raw(r); return r; };
            if (fmt == 13 || fmt == 15) { tol = 4; int bs = fmt == 13 ? 8 : 16; for (int z = 0; z < c; z++) { int bx = (a + 3) / 4, by = (b + 3) / 4; Bytes r = rnd(bx * by * bs, salt + z); data.raw(r); for (int j = 0; j < by; j++) for (int i = 0; i < bx; i++) { const uint8_t* p = &r[(j * bx + i) * bs]; double co[16][4], al[16]; if (fmt == 13) dxcolor(p, true, co); else { dxcolor(p + 8, false, co); dxalpha(p, al); for (int k = 0; k < 16; k++) co[k][3] = al[k]; } for (int k = 0; k < 16; k++) { int x = i * 4 + k % 4, y = j * 4 + k / 4; if (x < a && y < b) q.p[(z * b + y) * a + x] = px(co[k][0], co[k][1], co[k][2], co[k][3]); } } } }
            else if (fmt == 0) { Bytes r = R(4); for (int i = 0; i < n; i++) q.p[i] = px(r[i * 4], r[i * 4 + 1], r[i * 4 + 2], r[i * 4 + 3]); } else if (fmt == 3) { Bytes r = R(3); for (int i = 0; i < n; i++) q.p[i] = px(r[i * 3 + 2], r[i * 3 + 1], r[i * 3]); }
            else if (fmt == 19) { Bytes r = R(2); tol = 16; for (int i = 0; i < n; i++) { int v = r[i * 2] | r[i * 2 + 1] << 8; q.p[i] = px((v >> 8 & 15) * 17, (v >> 4 & 15) * 17, (v & 15) * 17, (v >> 12 & 15) * 17); } }
            else { Bytes r = rnd(n * 8, salt); tol = fmt == 24 ? 0.001 : 0; std::vector<double> t(n * 4); for (int i = 0; i < n * 4; i++) { int v = r[i * 2] | r[i * 2 + 1] << 8; if (fmt == 24) { v = (v & 0x8000) | (8 + (v >> 10 & 15)) << 10 | (v & 1023); t[i] = half(v) * 255; } else t[i] = v / 257.0; data.u16(v); } for (int i = 0; i < n; i++) q.p[i] = px(t[i * 4], t[i * 4 + 1], t[i * 4 + 2], t[i * 4 + 3]); }
            P_[fr][fc][m] = q; }
        W o; o.s("VTF").u8(0).u32(7).u32(hs == 64 ? 1 : hs == 80 ? 2 : hs == 96 ? 3 : 4).u32(hs).u16(w).u16(h).u32(faces > 1 ? 0x4000 : 0).u16(frames).u16(faces == 6 ? 0xFFFF : 0).u32(0).f32(0.5).f32(0.5).f32(0.5).u32(0).f32(1).u32(fmt).u8(nm).u32(13).u8(w < 4 ? 1 : 4).u8(4); if (hs != 64) o.u16(d); o.pad(1); while ((int)o.b.size() < hs) o.u8(0); o.raw(data.b);
        File f; f.name = mc::sfmt("VTF format %d, %dx%dx%d, %d levels, %d frames, %d faces, header %d", fmt, w, h, d, nm, frames, faces, hs); f.type = IL_VTF; f.ext = "vtf"; f.b = o.b; for (auto& q : P_) f.fr.push_back(q[0][0]); for (int m = 1; m < nm; m++) f.mip.push_back(P_[0][0][m]); f.face = P_; f.tol = tol; out(std::move(f)); }
}
// PNG: stored deflate blocks, every filter, interlacing, transparency
inline uint32_t crc32(const Bytes& b) { uint32_t c = ~0u; for (uint8_t v : b) { c ^= v; for (int k = 0; k < 8; k++) c = c >> 1 ^ (c & 1 ? 0xEDB88320u : 0); } return ~c; }
inline void chunk(W& o, const char* t, const Bytes& d) { W c; c.s(t).raw(d); o.be32(d.size()).raw(c.b).be32(crc32(c.b)); }
inline Bytes stored(const Bytes& d) { W o; o.u8(0x78).u8(1); size_t i = 0; do { size_t n = std::min<size_t>(d.size() - i, 40); o.u8(i + n == d.size()).u16(n).u16(~n & 65535).raw(Bytes(d.begin() + i, d.begin() + i + n)); i += n; } while (i < d.size()); uint32_t a = 1, b = 0; for (uint8_t v : d) { a = (a + v) % 65521; b = (b + a) % 65521; } o.be32(b << 16 | a); return o.b; }
inline Bytes pngrows(const std::vector<Bytes>& rows, int bpp, int filter) { W o; Bytes prev; for (size_t y = 0; y < rows.size(); y++) { const Bytes& r = rows[y]; if (prev.size() != r.size()) prev.assign(r.size(), 0); int f = filter < 5 ? filter : (int)y % 5; o.u8(f); for (size_t i = 0; i < r.size(); i++) { int a = i >= (size_t)bpp ? r[i - bpp] : 0, b = prev[i], c = i >= (size_t)bpp ? prev[i - bpp] : 0, p = a + b - c, pa = abs(p - a), pb = abs(p - b), pc = abs(p - c); int pr = f == 0 ? 0 : f == 1 ? a : f == 2 ? b : f == 3 ? (a + b) / 2 : pa <= pb && pa <= pc ? a : pb <= pc ? b : c; o.u8(r[i] - pr & 255); } prev = r; } return o.b; }
inline void pngs(const Sink& out, bool more)
{
    static const int K[][2] = { { 0, 1 }, { 0, 2 }, { 0, 4 }, { 0, 8 }, { 0, 16 }, { 2, 8 }, { 2, 16 }, { 3, 1 }, { 3, 2 }, { 3, 4 }, { 3, 8 }, { 4, 8 }, { 4, 16 }, { 6, 8 }, { 6, 16 } };
    for (auto& k : K) for (int w : { 1, 2, 3, 5, 8, 9 }) for (int h : { 1, 2, 3, 5, 9 }) for (int filter = 0; filter < 6; filter++) for (int lace = 0; lace < 2; lace++) for (int trns = 0; trns < 2; trns++) { if (!more && filter > 0 && filter < 5 && (w == 3 || h == 5)) continue; if (trns && (k[0] >= 4 || (filter && filter < 5))) continue; if (!more && lace && filter && filter < 4) continue;
        int ct = k[0], bd = k[1], ch = ct == 0 || ct == 3 ? 1 : ct == 2 ? 3 : ct == 4 ? 2 : 4, cols = ct == 3 ? std::min(1 << bd, 11) : 0; std::vector<int> v(w * h * ch); Bytes r = rnd(v.size() * 2, w + h * 3 + ct); for (size_t i = 0; i < v.size(); i++) v[i] = bd == 16 ? r[i * 2] << 8 | r[i * 2 + 1] : r[i] & ((1 << bd) - 1); if (cols) for (auto& q : v) q %= cols; Bytes pal = rnd(cols * 3, 2), al = rnd(cols / 2, 9);
        auto rowof = [&](int y, int x0, int dx, int dy) { (void)dy; Bytes o; if (bd < 8) { Bytes t; for (int x = x0; x < w; x += dx) t.push_back(v[y * w + x]); o = bits(t.data(), t.size(), bd); } else for (int x = x0; x < w; x += dx) for (int c = 0; c < ch; c++) { int q = v[(y * w + x) * ch + c]; if (bd == 16) o.push_back(q >> 8); o.push_back(q); } return o; };
        Bytes raw; int bpp = std::max(1, ch * bd / 8); auto app = [&](const Bytes& b) { raw.insert(raw.end(), b.begin(), b.end()); }; if (!lace) { std::vector<Bytes> rows; for (int y = 0; y < h; y++) rows.push_back(rowof(y, 0, 1, 1)); app(pngrows(rows, bpp, filter)); } else { static const int A[7][4] = { { 0, 0, 8, 8 }, { 4, 0, 8, 8 }, { 0, 4, 4, 8 }, { 2, 0, 4, 4 }, { 0, 2, 2, 4 }, { 1, 0, 2, 2 }, { 0, 1, 1, 2 } }; for (auto& a : A) { std::vector<Bytes> rows; if (a[0] < w) for (int y = a[1]; y < h; y += a[3]) rows.push_back(rowof(y, a[0], a[2], 0)); app(pngrows(rows, bpp, filter)); } }
        W o; o.u8(0x89).s("PNG\r\n\x1a\n"); W hd; hd.be32(w).be32(h).u8(bd).u8(ct).u8(0).u8(0).u8(lace); chunk(o, "IHDR", hd.b); if (cols) chunk(o, "PLTE", pal); W tr; if (trns) { if (cols) tr.raw(al); else for (int c = 0; c < ch; c++) tr.be16(v[c]); if (!tr.b.empty()) chunk(o, "tRNS", tr.b); } { W t; t.s("Comment").u8(0).s("hello"); chunk(o, "tEXt", t.b); } Bytes z = stored(raw); size_t half = z.size() / 2; chunk(o, "IDAT", Bytes(z.begin(), z.begin() + half)); chunk(o, "IDAT", Bytes(z.begin() + half, z.end())); chunk(o, "IEND", {});
        Fr fr = pic(w, h); double sc = 255.0 / ((1 << bd) - 1); for (int i = 0; i < w * h; i++) { int* q = &v[i * ch]; bool hit = trns && !cols; for (int c = 0; c < ch && hit; c++) hit = q[c] == v[c]; double a = hit ? 0 : 255; fr.p[i] = ct == 0 ? px(q[0] * sc, q[0] * sc, q[0] * sc, a) : ct == 2 ? px(q[0] * sc, q[1] * sc, q[2] * sc, a) : ct == 3 ? px(pal[q[0] * 3], pal[q[0] * 3 + 1], pal[q[0] * 3 + 2], trns && q[0] < (int)al.size() ? al[q[0]] : 255) : ct == 4 ? px(q[0] * sc, q[0] * sc, q[0] * sc, q[1] * sc) : px(q[0] * sc, q[1] * sc, q[2] * sc, q[3] * sc); }
        File f; f.name = mc::sfmt("PNG colour type %d, %d bits, %dx%d, filter %d, interlace %d, transparency %d", ct, bd, w, h, filter, lace, trns); f.type = IL_PNG; f.ext = "png"; f.b = o.b; f.fr = { fr }; f.tol = 0.01; out(std::move(f)); }
}
// TIFF
struct TiffW { bool be; std::vector<std::array<uint32_t, 3>> e; std::vector<std::vector<uint32_t>> val; void add(int tag, int type, std::vector<uint32_t> v) { e.push_back({ (uint32_t)tag, (uint32_t)type, (uint32_t)v.size() }); val.push_back(v); } };
inline void tput(Bytes& b, bool be, int n, uint32_t v) { for (int i = 0; i < n; i++) b.push_back(v >> (be ? (n - 1 - i) : i) * 8 & 255); }
// pages of strips; each page: fields without StripOffsets, and the strips
struct TPage { TiffW t; std::vector<Bytes> strips; bool tiles = false; };
inline Bytes tiff(bool be, std::vector<TPage>& pages)
{
    Bytes o; o.push_back(be ? 'M' : 'I'); o.push_back(o[0]); tput(o, be, 2, 42); size_t link = o.size(); tput(o, be, 4, 0);
    for (auto& p : pages) { std::vector<uint32_t> off, len; for (auto& s : p.strips) { if (o.size() & 1) o.push_back(0); off.push_back(o.size()); len.push_back(s.size()); o.insert(o.end(), s.begin(), s.end()); } p.t.add(p.tiles ? 324 : 273, 4, off); p.t.add(p.tiles ? 325 : 279, 4, len);
        std::vector<size_t> ord; for (size_t i = 0; i < p.t.e.size(); i++) ord.push_back(i); std::sort(ord.begin(), ord.end(), [&](size_t a, size_t b) { return p.t.e[a][0] < p.t.e[b][0]; }); std::vector<uint32_t> at(ord.size(), 0);
        for (size_t i = 0; i < p.t.e.size(); i++) { int sz = p.t.e[i][1] == 3 ? 2 : 4; if (sz * p.t.val[i].size() > 4) { if (o.size() & 1) o.push_back(0); at[i] = o.size(); for (auto v : p.t.val[i]) tput(o, be, sz, v); } }
        if (o.size() & 1) o.push_back(0); uint32_t dir = o.size(); for (int i = 0; i < 4; i++) o[link + i] = dir >> (be ? (3 - i) : i) * 8; tput(o, be, 2, ord.size()); for (size_t i : ord) { int sz = p.t.e[i][1] == 3 ? 2 : 4; tput(o, be, 2, p.t.e[i][0]); tput(o, be, 2, p.t.e[i][1]); tput(o, be, 4, p.t.e[i][2]); if (at[i]) tput(o, be, 4, at[i]); else { size_t z = o.size(); for (auto v : p.t.val[i]) tput(o, be, sz, v); while (o.size() < z + 4) o.push_back(0); } } link = o.size(); tput(o, be, 4, 0); }
    return o;
}
inline void tiffs(const Sink& out, bool more)
{
    // kind: photometric, samples, bits, extra (0 none, 2 unassociated alpha, 1 associated)
    static const int K[][4] = { { 0, 1, 1, 0 }, { 1, 1, 1, 0 }, { 0, 1, 8, 0 }, { 1, 1, 8, 0 }, { 1, 1, 16, 0 }, { 0, 1, 16, 0 }, { 0, 1, 4, 0 }, { 1, 1, 4, 0 }, { 3, 1, 8, 0 }, { 3, 1, 1, 0 }, { 3, 1, 4, 0 }, { 2, 3, 8, 0 }, { 2, 3, 16, 0 }, { 2, 4, 8, 2 }, { 2, 4, 16, 1 } };
    for (int be = 0; be < 2; be++) for (auto& k : K) for (int w : { 1, 3, 8, 9 }) for (int h : { 1, 2, 5 }) for (int rps : { 1, 2, 5 }) for (int comp = 0; comp < 2; comp++) for (int orient : { 1, 4 }) for (int lay = 0; lay < 3; lay++) for (int pages = 1; pages <= 2; pages++) { if (rps > h) continue; if (lay && (rps != 2 || orient != 1)) continue; if (lay == 2 && k[1] == 1) continue; if (lay && k[3]) continue; if (lay == 1 && k[1] == 1 && k[2] == 16) continue; /* libtiff's own RGBA path misplaces the rows of these */ if (pages == 2 && (lay || rps != 1 || be)) continue; if (!more && comp && be) continue; bool tiled = lay == 1, planar = lay == 2;
        std::vector<TPage> pg; std::vector<Fr> frs; for (int n = 0; n < pages; n++) { int ph = k[0], sp = k[1], bp = k[2]; std::vector<int> v(w * h * sp); Bytes r = rnd(v.size() * 2, w * 3 + h + ph + n * 5); for (size_t i = 0; i < v.size(); i++) v[i] = bp == 16 ? r[i * 2] << 8 | r[i * 2 + 1] : r[i] & ((1 << bp) - 1); if (comp) for (size_t i = 0; i < v.size(); i++) if (i % 4) v[i] = v[i / 4 * 4];
            TPage p; p.t.be = be; p.t.add(256, 3, { (uint32_t)w }); p.t.add(257, 3, { (uint32_t)h }); p.t.add(258, 3, std::vector<uint32_t>(sp, bp)); p.t.add(259, 3, { comp ? 32773u : 1u }); p.t.add(262, 3, { (uint32_t)ph }); p.t.add(274, 3, { (uint32_t)orient }); p.t.add(277, 3, { (uint32_t)sp }); p.t.add(284, 3, { planar ? 2u : 1u }); if (k[3]) p.t.add(338, 3, { (uint32_t)k[3] }); std::vector<uint32_t> cm; if (ph == 3) { Bytes c = rnd(3 << bp, 12); for (auto q : c) cm.push_back(q * 257); p.t.add(320, 3, cm); }
            auto row = [&](int y, int x0, int x1, int c0, int c1) { Bytes o; if (bp < 8) { Bytes t; for (int x = x0; x < x1; x++) t.push_back(x < w && y < h ? v[y * w + x] : 0); o = bits(t.data(), t.size(), bp); } else for (int x = x0; x < x1; x++) for (int c = c0; c < c1; c++) tput(o, be, bp / 8, x < w && y < h ? v[(y * w + x) * sp + c] : 0); return o; };
            auto enc = [&](const std::vector<Bytes>& rows) { Bytes o; for (auto& q : rows) { Bytes z = comp ? packbits(q.data(), q.size(), 1) : q; o.insert(o.end(), z.begin(), z.end()); } return o; };
            if (tiled) { p.tiles = true; uint32_t tw = bp < 8 ? 128 : 32, th = bp < 8 ? 64 : 32; /* libtiff refuses tiles below 1024 bytes in unmapped files */ p.t.add(322, 3, { tw }); p.t.add(323, 3, { th }); std::vector<Bytes> rows; for (int y = 0; y < (int)th; y++) rows.push_back(row(y, 0, tw, 0, sp)); p.strips.push_back(enc(rows)); }
            else { p.t.add(278, 3, { (uint32_t)rps }); for (int c = 0; c < (planar ? sp : 1); c++) for (int y = 0; y < h; y += rps) { std::vector<Bytes> rows; for (int j = y; j < std::min(h, y + rps); j++) rows.push_back(planar ? row(j, 0, w, c, c + 1) : row(j, 0, w, 0, sp)); p.strips.push_back(enc(rows)); } }
            Fr fr = pic(w, h); double sc = 255.0 / ((1 << bp) - 1); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { int* q = &v[((orient == 4 ? h - 1 - y : y) * w + x) * sp]; P& d = fr.p[y * w + x]; int N = 1 << bp; if (ph == 3) d = px(cm[q[0]] / 257, cm[N + q[0]] / 257, cm[2 * N + q[0]] / 257); else if (ph <= 1) { double g = q[0] * sc; if (!ph) g = 255 - g; d = px(g, g, g); } else d = px(q[0] * sc, q[1] * sc, q[2] * sc, sp == 4 ? q[3] * sc : 255); }
            pg.push_back(p); frs.push_back(fr); }
        bool slow = tiled || planar || k[2] == 4; File f; f.name = mc::sfmt("TIFF %s photometric %d, %d samples of %d bits, %dx%d, %s %d, packed %d, orientation %d, pages %d", be ? "MM" : "II", k[0], k[1], k[2], w, h, tiled ? "tiled" : planar ? "planar" : "strips of", rps, comp, orient, pages); f.type = IL_TIF; f.ext = "tif"; f.b = tiff(be, pg); f.fr = frs; f.tol = slow ? 1.6 : 0.01; out(std::move(f)); }
}
// GIF
inline Bytes lzw(const Bytes& px, int size, int mode, int blk)   // mode 0: only single pixels, cleared in time; 1: the usual greedy coder, cleared when full; 2: greedy, never cleared
{
    Bytes o; uint32_t acc = 0; int nb = 0, cs = size + 1, clear = 1 << size, slot = clear + 2; auto put = [&](int c) { acc |= (uint32_t)c << nb; nb += cs; while (nb >= 8) { o.push_back(acc & 255); acc >>= 8; nb -= 8; } };
    std::map<std::pair<int, int>, int> t; put(clear); int cur = -1; int since = 0;
    if (mode == 0) { for (auto p : px) { if (since == clear - 2 || slot >= clear * 2 - 1) { put(clear); slot = clear + 2; since = 0; } put(p); if (since++) slot++; } }
    else { bool first = true; auto emit = [&](int c) { put(c); if (first) { first = false; return; } if (slot < 4096) { slot++; if (slot == 1 << cs && cs < 12) cs++; } };
        // the decoder adds its entry one code later than the coder, so the widths are counted on the decoder's side
        int next = clear + 2; for (auto p : px) { if (cur < 0) { cur = p; continue; } auto it = t.find({ cur, p }); if (it != t.end()) { cur = it->second; continue; } emit(cur); if (next < 4096) t[{ cur, p }] = next++; else if (mode == 1) { put(clear); t.clear(); next = slot = clear + 2; cs = size + 1; first = true; } cur = p; } if (cur >= 0) emit(cur); }
    put(clear + 1); if (nb) o.push_back(acc & 255); W w; w.u8(size); for (size_t i = 0; i < o.size(); i += blk) { size_t n = std::min<size_t>(blk, o.size() - i); w.u8(n).raw(&o[i], n); } w.u8(0); return w.b;
}
struct GifFrame { int x = 0, y = 0, w = 0, h = 0, disp = 0, delay = 0, trans = -1; bool gce = false, lace = false; Bytes local, ix; };
inline Bytes gif(int w, int h, const Bytes& pal, int bg, const std::vector<GifFrame>& fr, int mode, int blk, bool ext, bool v87)
{
    auto lg = [](const Bytes& p) { int k = 0; while ((2u << k) * 3 < p.size()) k++; return k; }; auto table = [&](W& o, const Bytes& p) { o.raw(p); o.z((2u << lg(p)) * 3 - p.size()); };
    W o; o.s(v87 ? "GIF87a" : "GIF89a").u16(w).u16(h).u8((pal.empty() ? 0 : 0x80 | lg(pal)) | 0x70).u8(bg).u8(0); if (!pal.empty()) table(o, pal); if (ext) { o.u8(0x21).u8(0xFF).u8(11).s("NETSCAPE2.0").u8(3).u8(1).u16(0).u8(0); o.u8(0x21).u8(0xFE).u8(5).s("hello").u8(2).s("!,").u8(0); }
    for (auto& f : fr) { if (f.gce) o.u8(0x21).u8(0xF9).u8(4).u8(f.disp << 2 | (f.trans >= 0)).u16(f.delay).u8(std::max(0, f.trans)).u8(0); if (ext) o.u8(0x21).u8(0xFE).u8(1).u8(0x2C).u8(0);
        o.u8(0x2C).u16(f.x).u16(f.y).u16(f.w).u16(f.h).u8((f.local.empty() ? 0 : 0x80 | lg(f.local)) | (f.lace ? 0x40 : 0)); if (!f.local.empty()) table(o, f.local); const Bytes& p = f.local.empty() ? pal : f.local; Bytes ix; if (f.lace) { static const int S[] = { 0, 4, 2, 1 }, D[] = { 8, 8, 4, 2 }; for (int k = 0; k < 4; k++) for (int y = S[k]; y < f.h; y += D[k]) ix.insert(ix.end(), f.ix.begin() + y * f.w, f.ix.begin() + (y + 1) * f.w); } else ix = f.ix; o.raw(lzw(ix, std::max(2, lg(p) + 1), mode, blk)); }
    o.u8(0x3B); return o.b;
}
// what the screen shows after each frame
inline std::vector<Fr> gifshow(int w, int h, const Bytes& pal, int bg, const std::vector<GifFrame>& fr)
{
    P none = px(-1, -1, -1, 0); P back = pal.empty() ? none : px(pal[bg * 3], pal[bg * 3 + 1], pal[bg * 3 + 2]); std::vector<P> s(w * h, fr[0].trans >= 0 ? none : back); std::vector<Fr> o;
    for (auto& f : fr) { auto before = s; const Bytes& p = f.local.empty() ? pal : f.local; for (int y = 0; y < f.h; y++) for (int x = 0; x < f.w; x++) { int i = f.ix[y * f.w + x]; if (i != f.trans && f.x + x < w && f.y + y < h) s[(f.y + y) * w + f.x + x] = px(p[i * 3], p[i * 3 + 1], p[i * 3 + 2]); }
        Fr q = pic(w, h); q.p = s; q.dur = f.gce ? f.delay * 10 : 0; q.ox = f.x; q.oy = f.y; o.push_back(q); if (f.disp == 3) s = before; if (f.disp == 2) for (int y = f.y; y < f.y + f.h && y < h; y++) for (int x = f.x; x < f.x + f.w && x < w; x++) s[y * w + x] = f.trans >= 0 ? none : back; }
    return o;
}
inline void gifs(const Sink& out, bool more)
{
    auto add = [&](const std::string& n, int w, int h, const Bytes& pal, int bg, const std::vector<GifFrame>& fr, int mode, int blk, bool ext = false, bool v87 = false) { File f; f.name = "GIF " + n; f.type = IL_GIF; f.ext = "gif"; f.b = gif(w, h, pal, bg, fr, mode, blk, ext, v87); f.fr = gifshow(w, h, pal, bg, fr); out(std::move(f)); };
    for (int w = 1; w <= (more ? 9 : 5); w++) for (int h = 1; h <= (more ? 18 : 10); h++) for (int k = 1; k <= 8; k++) for (int mode = 0; mode < 3; mode++) for (int lace = 0; lace < 2; lace++) for (int blk : { 1, 7, 255 }) { if (mode == 2 && blk != 7) continue; if (blk == 1 && lace) continue; if (lace && h == 1) continue;
        GifFrame f; f.w = w; f.h = h; f.lace = lace; f.ix = idx(w * h, 1 << k, w + h * 3 + k); if (blk == 7) for (size_t i = 0; i < f.ix.size(); i++) f.ix[i] = i / 4 & 1; Bytes pal = rnd(3 << k, k); bool local = (w + h) % 3 == 0; if (local) f.local = pal; add(mc::sfmt("%d bit %dx%d, coder %d, interlaced %d, blocks of %d, local colours %d", k, w, h, mode, lace, blk, local), w, h, local ? Bytes() : pal, 0, { f }, mode, blk, w == 2, h == 3); }
    // long streams: the table fills up
    for (int k : { 2, 5, 8 }) for (int mode = 0; mode < 3; mode++) for (int lace = 0; lace < 2; lace++) { GifFrame f; f.w = 131; f.h = 97; f.lace = lace; uint32_t s = 12345; f.ix.resize(f.w * f.h); for (auto& v : f.ix) { s = s * 1664525 + 1013904223; v = (s >> 24) & ((1 << k) - 1); } add(mc::sfmt("%d bit 131x97, coder %d, interlaced %d", k, mode, lace), f.w, f.h, rnd(3 << k, k), 0, { f }, mode, 255); }
    // every three-frame history of disposal, transparency, extent and colours
    for (int d = 0; d < 16; d++) for (int t = 0; t < 8; t++) for (int part = 0; part < 8; part++) for (int loc = 0; loc < (more ? 8 : 3); loc++) { int L = more ? loc : loc == 0 ? 0 : loc == 1 ? 2 : 7; std::vector<GifFrame> fr(3); int W = 4, H = 3; Bytes pal = rnd(8 * 3, 60); if (L & 1 && part & 1) continue;
        for (int i = 0; i < 3; i++) { auto& f = fr[i]; bool p = part >> i & 1; static const int X[] = { 1, 0, 2 }, Y[] = { 1, 1, 0 }, W_[] = { 2, 3, 2 }, H_[] = { 2, 1, 2 }; f.x = p ? X[i] : 0; f.y = p ? Y[i] : 0; f.w = p ? W_[i] : W; f.h = p ? H_[i] : H; f.disp = i < 2 ? d >> 2 * i & 3 : 0; f.gce = i == 1 || f.disp || t >> i & 1; f.delay = f.gce ? 5 + i * 300 : 0; f.trans = t >> i & 1 ? 2 + i : -1; f.lace = i == 1; f.ix = idx(f.w * f.h, 8, i * 5 + part + d); if (f.trans >= 0) f.ix[0] = f.trans; if (L >> i & 1) f.local = rnd(8 * 3, 90 + i); }
        add(mc::sfmt("animation: disposal %d,%d transparency %d partial %d local colours %d", d & 3, d >> 2, t, part, L), W, H, pal, 6, fr, 1, 255); }
    // frames that reach past the screen
    for (int x = 0; x < 4; x++) for (int y = 0; y < 4; y++) for (int t = 0; t < 2; t++) { std::vector<GifFrame> fr(2); for (int i = 0; i < 2; i++) { auto& f = fr[i]; f.x = i ? x : 0; f.y = i ? y : 0; f.w = i ? 3 : 4; f.h = i ? 4 : 3; f.gce = t; f.trans = t && i ? 1 : -1; f.ix = idx(12, 4, i + x); } add(mc::sfmt("second frame at %d,%d past the screen, transparency %d", x, y, t), 4, 3, rnd(12, 3), 0, fr, 1, 255); }
}
// Sun raster
inline void suns(const Sink& out, bool more)
{
    // mode 0 old, 1 standard, 2 encoded with single bytes, 3 encoded with the longest runs (also across rows), 4 RGB
    for (int w = 1; w <= (more ? 34 : 19); w++) for (int h = 1; h <= 3; h++) for (int depth : { 1, 8, 24, 32 }) for (int map = 0; map < 3; map++) for (int mode = 0; mode < 5; mode++) { if (map == 2 && depth <= 8) continue; if (map == 1 && depth > 8) continue; if (mode == 4 && depth < 24) continue;
        int cols = depth == 1 ? 2 : 200; Bytes pal = rnd(cols * 3, depth), r = rnd(w * h * 4, w * 5 + h + depth); if (mode == 3) for (size_t i = 0; i < r.size(); i++) r[i] = i / 11 & 1 ? 128 : i / 5 & 1 ? 7 : 0; for (size_t i = 0; i < r.size(); i += 5) if (mode == 2) r[i] = 128;
        Fr fr = pic(w, h); W d; for (int y = 0; y < h; y++) { Bytes v(w); for (int x = 0; x < w; x++) { uint8_t* q = &r[(y * w + x) * 4]; P& p = fr.p[y * w + x]; switch (depth) {
            case 1: v[x] = q[0] >> 2 & 1; p = map ? px(pal[v[x] * 3], pal[v[x] * 3 + 1], pal[v[x] * 3 + 2]) : v[x] ? px(0, 0, 0) : px(255, 255, 255); break;
            case 8: if (map) q[0] %= cols; d.u8(q[0]); p = map ? px(pal[q[0] * 3], pal[q[0] * 3 + 1], pal[q[0] * 3 + 2]) : px(q[0], q[0], q[0]); break;
            case 24: d.u8(q[0]).u8(q[1]).u8(q[2]); p = mode == 4 ? px(q[0], q[1], q[2]) : px(q[2], q[1], q[0]); break; case 32: d.u8(q[3]).u8(q[0]).u8(q[1]).u8(q[2]); p = mode == 4 ? px(q[0], q[1], q[2]) : px(q[2], q[1], q[0]); break; } }
            if (depth == 1) d.raw(bits(v.data(), w, 1)); d.pad(2); }
        Bytes e = d.b; if (mode == 2 || mode == 3) { W o; for (size_t i = 0; i < e.size();) { size_t n = 1; while (mode == 3 && i + n < e.size() && n < 256 && e[i + n] == e[i]) n++; if (n > 2 || (n == 2 && e[i] == 128)) o.u8(128).u8(n - 1).u8(e[i]); else { n = 1; o.u8(e[i]); if (e[i] == 128) o.u8(0); } i += n; } e = o.b; }
        W o; o.be32(0x59A66A95).be32(w).be32(h).be32(depth).be32(mode ? e.size() : 0).be32(mode == 4 ? 3 : mode >= 2 ? 2 : mode).be32(map ? 1 : 0).be32(map ? cols * 3 : 0); if (map) for (int c = 0; c < 3; c++) for (int i = 0; i < cols; i++) o.u8(pal[i * 3 + c]); o.raw(e);
        File f; f.name = mc::sfmt("SUN %dx%d, %d bit, map %d, coding %d", w, h, depth, map, mode); f.type = IL_SUN; f.ext = "sun"; f.b = o.b; f.fr = { fr }; out(std::move(f)); }
}
// Amiga ILBM and PBM
inline void ilbms(const Sink& out, bool more)
{
    // kind: 1..8 planes, 24 planes, PBM (25), EHB (26), HAM6 (27), HAM8 (28)
    for (int w = 1; w <= (more ? 34 : 19); w++) for (int h = 1; h <= 3; h++) for (int kind : { 1, 2, 3, 4, 5, 6, 7, 8, 24, 25, 26, 27, 28 }) for (int mode = 0; mode < 4; mode++) for (int mask = 0; mask < 3; mask++) { if (mask && (kind == 25 || mode > 1)) continue;
        bool pbm = kind == 25, ham = kind >= 27; int planes = kind <= 24 ? kind : pbm ? 8 : kind == 28 ? 8 : 6, cols = kind == 24 ? 0 : pbm ? 256 : kind == 26 ? 32 : kind == 27 ? 16 : kind == 28 ? 64 : 1 << planes; Bytes pal = rnd(cols * 3, kind), r = rnd(w * h * 3, w + 3 * h + kind); if (mode >= 2) for (size_t i = 0; i < r.size(); i++) r[i] = i / 7 & 1 ? r[3] : r[i];
        Fr fr = pic(w, h); W body; auto put = [&](const Bytes& row) { if (!mode) body.raw(row); else body.raw(packbits(row.data(), row.size(), mode == 3 ? 2 : mode - 1)); };
        for (int y = 0; y < h; y++) { std::vector<uint32_t> v(w); double cur[3] = { 0, 0, 0 }; if (ham) for (int c = 0; c < 3; c++) cur[c] = pal[c]; for (int x = 0; x < w; x++) { uint8_t* q = &r[(y * w + x) * 3]; v[x] = kind == 24 ? q[0] | q[1] << 8 | q[2] << 16 : q[0] & ((1 << planes) - 1); P& p = fr.p[y * w + x];
                if (kind == 24) p = px(q[0], q[1], q[2]); else if (ham) { int b = planes - 2, k = v[x] >> b, n = v[x] & ((1 << b) - 1); if (!k) for (int c = 0; c < 3; c++) cur[c] = pal[n * 3 + c]; else cur[k == 1 ? 2 : k == 2 ? 0 : 1] = n * 255.0 / ((1 << b) - 1); p = px(cur[0], cur[1], cur[2]); } else if (kind == 26) { int n = v[x] & 31, s = v[x] >> 5; p = px(pal[n * 3] >> s, pal[n * 3 + 1] >> s, pal[n * 3 + 2] >> s); } else p = px(pal[v[x] * 3], pal[v[x] * 3 + 1], pal[v[x] * 3 + 2]); }
            if (pbm) { Bytes row(w); for (int x = 0; x < w; x++) row[x] = v[x]; if (w & 1) row.push_back(0); put(row); } else for (int k = 0; k < planes + (mask == 1); k++) { Bytes bt(w); for (int x = 0; x < w; x++) bt[x] = k < planes ? v[x] >> k & 1 : x & 1; Bytes row = bits(bt.data(), w, 1); if (row.size() & 1) row.push_back(0); put(row); } }
        W o; o.s("FORM").be32(0).s(pbm ? "PBM " : "ILBM"); o.s("BMHD").be32(20).be16(w).be16(h).be16(0).be16(0).u8(planes).u8(mask).u8(mode ? 1 : 0).u8(0).be16(0).u8(1).u8(1).be16(w).be16(h); if (w % 3 == 1) o.s("ANNO").be32(5).s("hello").u8(0); if (cols) { o.s("CMAP").be32(pal.size()).raw(pal); if (pal.size() & 1) o.u8(0); } if (kind >= 26) o.s("CAMG").be32(4).be32(kind == 26 ? 0x80 : 0x800); o.s("BODY").be32(body.b.size()).raw(body.b); if (body.b.size() & 1) o.u8(0); o.atbe32(4, o.b.size() - 8);
        File f; f.name = mc::sfmt("ILBM kind %d %dx%d, coding %d, mask %d", kind, w, h, mode, mask); f.type = IL_ILBM; f.ext = "ilbm"; f.b = o.b; f.fr = { fr }; f.tol = ham ? 1.1 : 0; out(std::move(f)); }
}
// ICO and CUR
inline Bytes icobmp(int w, int h, int bitc, int used, uint32_t salt, Fr& fr)
{
    int n = used ? used : 1 << bitc; Bytes pal = rnd(256 * 3, salt), r = rnd(w * h * 4, salt + 1), m = rnd(w * h, salt + 2); fr = pic(w, h); W o; o.u32(40).u32(w).u32(h * 2).u16(1).u16(bitc).u32(0).u32(0).u32(0).u32(0).u32(used).u32(0); if (bitc <= 8) for (int i = 0; i < n; i++) o.u8(pal[i * 3 + 2]).u8(pal[i * 3 + 1]).u8(pal[i * 3]).u8(0);
    for (int y = h - 1; y >= 0; y--) { Bytes v(w); for (int x = 0; x < w; x++) { uint8_t* q = &r[(y * w + x) * 4]; double a = m[y * w + x] & 4 ? 0 : 255; P& p = fr.p[y * w + x]; if (bitc <= 8) { v[x] = q[0] % n; p = px(pal[v[x] * 3], pal[v[x] * 3 + 1], pal[v[x] * 3 + 2], a); } else { o.u8(q[2]).u8(q[1]).u8(q[0]); if (bitc == 32) o.u8(q[3]); p = px(q[0], q[1], q[2], bitc == 32 ? q[3] : a); } } if (bitc <= 8) o.raw(bits(v.data(), w, bitc)); while ((o.b.size() - 40 - (bitc <= 8 ? n * 4 : 0)) % 4) o.u8(0); }
    for (int y = h - 1; y >= 0; y--) { Bytes v(w); for (int x = 0; x < w; x++) v[x] = m[y * w + x] >> 2 & 1; Bytes b = bits(v.data(), w, 1); b.resize((w + 31) / 32 * 4); o.raw(b); } return o.b;
}
inline Bytes ico(bool cur, const std::vector<Bytes>& im, const std::vector<Fr>& fr, bool gaps) { W o; o.u16(0).u16(cur ? 2 : 1).u16(im.size()); uint32_t at = 6 + 16 * im.size(); for (size_t i = 0; i < im.size(); i++) { if (gaps) at += 3; o.u8(fr[i].w).u8(fr[i].h).u8(0).u8(0).u16(cur ? 1 : 1).u16(cur ? 2 : 32).u32(im[i].size()).u32(at); at += im[i].size(); } for (auto& b : im) { if (gaps) o.s("gap"); o.raw(b); } return o.b; }
inline void icos(const Sink& out, bool more)
{
    auto add = [&](const std::string& n, bool cur, const std::vector<Bytes>& im, const std::vector<Fr>& fr, bool gaps) { File f; f.name = "ICO " + n; f.type = IL_ICO; f.ext = cur ? "cur" : "ico"; f.b = ico(cur, im, fr, gaps); f.fr = fr; f.tol = n.find("16 bits") == std::string::npos ? 0 : 1; f.sig = false; out(std::move(f)); };
    for (int w = 1; w <= (more ? 40 : 34); w++) for (int h = 1; h <= 3; h++) for (int bc : { 1, 4, 8, 24, 32 }) for (int used : { 0, 5 }) { if (used && (bc == 1 || bc > 8)) continue; Fr fr; Bytes b = icobmp(w, h, bc, used, w + h * 7 + bc, fr); add(mc::sfmt("%d bit %dx%d, %d colours", bc, w, h, used), h == 2, { b }, { fr }, w % 3 == 0); }
    // every sequence of up to three kinds of icon, PNG included
    std::vector<File> png; pngs([&](File&& f) { png.push_back(std::move(f)); }, false); std::vector<File> pick; for (int k = 0; k < 6; k++) pick.push_back(png[png.size() * (2 * k + 1) / 12]);
    static const int B[] = { 1, 4, 8, 24, 32 }; int K = 5 + pick.size(); for (int n = 1; n <= 3; n++) { int tot = 1; for (int i = 0; i < n; i++) tot *= K; for (int q = 0; q < tot; q++) { int v = q; std::vector<Bytes> im; std::vector<Fr> fr; std::string nm; for (int i = 0; i < n; i++, v /= K) { int k = v % K; if (k < 5) { Fr f; im.push_back(icobmp(5 + i, 3, B[k], 0, q + i, f)); fr.push_back(f); nm += mc::sfmt(" %d bit", B[k]); } else { im.push_back(pick[k - 5].b); fr.push_back(pick[k - 5].fr[0]); nm += " " + pick[k - 5].name; } } add("sequence" + nm, q & 1, im, fr, q & 2); File f; } }
    for (auto& p : png) if (p.fr[0].w <= 3) { add("holding " + p.name, false, { p.b }, { p.fr[0] }, false); }
}
// DCX: every page is a PCX file
inline void dcxs(const Sink& out, bool more)
{
    std::vector<File> pages; pcxs([&](File&& f) { if (pages.size() < (more ? 4000 : 900)) pages.push_back(std::move(f)); }, false); size_t step = 7; // neighbouring kinds and sizes meet on one file
    for (size_t i = 0; i + 40 < pages.size(); i += more ? 2 : 5) for (int n = 1; n <= 3; n++) for (int mode = 0; mode < 3; mode++) { // 0: in order, 1: stored last page first, 2: gaps between the pages
        File f; f.name = mc::sfmt("DCX of %d pages, layout %d, from %s", n, mode, pages[i].name.c_str()); f.type = IL_DCX; f.ext = "dcx"; f.sig = false; W o; o.u32(987654321); std::vector<size_t> pos(n); uint32_t at = 4 + 4 * (n + 1) + (mode == 2 ? 9 : 0); W d; for (int k = 0; k < n; k++) { int q = mode == 1 ? n - 1 - k : k; pos[q] = at + d.b.size(); d.raw(pages[i + q * step].b); if (mode == 2) d.z(q + 1, 0x55); }
        for (auto p : pos) o.u32(p); o.u32(0); if (mode == 2) o.z(9, 0xAA); o.raw(d.b); f.b = o.b; for (int k = 0; k < n; k++) { f.fr.push_back(pages[i + k * step].fr[0]); f.tol = std::max(f.tol, pages[i + k * step].tol); } out(std::move(f)); }
}
// Softimage PIC
inline void pics(const Sink& out, bool more)
{
    struct C { int type, mask; }; static const std::vector<std::vector<C>> L[] = { { { { 0, 0xE0 } }, { { 1, 0xE0 } }, { { 2, 0xE0 } }, { { 2, 0xE0 }, { 2, 0x10 } }, { { 0, 0xE0 }, { 1, 0x10 } }, { { 2, 0xF0 } }, { { 0, 0xF0 } }, { { 1, 0xF0 } }, { { 2, 0x80 }, { 2, 0x40 }, { 2, 0x20 } }, { { 1, 0x80 }, { 0, 0x40 }, { 2, 0x20 }, { 2, 0x10 } }, { { 2, 0x10 }, { 2, 0xE0 } }, { { 2, 0x60 }, { 1, 0x90 } } } };
    for (int w = 1; w <= (more ? 12 : 7); w++) for (int h = 1; h <= 3; h++) for (auto& ch : L[0]) for (int content = 0; content < 3; content++) for (int mode = 0; mode < 3; mode++) { // mode 0: longest runs, 1: literals and single runs, 2: long counts
        Bytes v = rnd(w * h * 4, w + h * 5); if (content) for (int i = 0; i < w * h; i++) memcpy(&v[i * 4], &v[(content == 1 ? 0 : i / 3 & 1) * 4], 4); bool alpha = false; W o; o.be32(0x5380F634).bef32(3.71f).str("a picture", 80).s("PICT").be16(w).be16(h).bef32(1).be16(3).be16(0);
        for (size_t k = 0; k < ch.size(); k++) { o.u8(k + 1 < ch.size()).u8(8).u8(ch[k].type).u8(ch[k].mask); if (ch[k].mask & 0x10) alpha = true; }
        for (int y = 0; y < h; y++) for (auto& c : ch) { auto cell = [&](int x) { for (int k = 0; k < 4; k++) if (c.mask >> (7 - k) & 1) o.u8(v[(y * w + x) * 4 + k]); }; auto eq = [&](int a, int b) { for (int k = 0; k < 4; k++) if (c.mask >> (7 - k) & 1 && v[(y * w + a) * 4 + k] != v[(y * w + b) * 4 + k]) return false; return true; };
            for (int x = 0; x < w;) { if (c.type == 0) { cell(x++); continue; } int n = 1; while (mode != 1 && x + n < w && n < 100 && eq(x, x + n)) n++;
                if (c.type == 1) { o.u8(n); cell(x); x += n; } else if (n > 1 || mode == 1) { if (mode == 2 || n == 1) { if (n == 1 && mode == 1) { int l = w - x > 3 ? 3 : w - x; o.u8(l - 1); for (int i = 0; i < l; i++) cell(x + i); x += l; continue; } o.u8(128).be16(n); } else o.u8(n + 127); cell(x); x += n; } else { o.u8(0); cell(x++); } } }
        Fr fr = rgbapic(w, h, v); if (!alpha) for (auto& p : fr.p) p.c[3] = 255; std::string d; for (auto& c : ch) d += mc::sfmt(" %d/%02x", c.type, c.mask); File f; f.name = mc::sfmt("PIC %dx%d channels%s content %d runs %d", w, h, d.c_str(), content, mode); f.type = IL_PIC; f.ext = "pic"; f.b = o.b; f.fr = { fr }; out(std::move(f)); }
    for (int w : { 127, 128, 129, 255, 256, 257, 300 }) for (int type = 1; type <= 2; type++) for (int mode = 0; mode < 2; mode++) { W o; o.be32(0x5380F634).bef32(3.71f).str("", 80).s("PICT").be16(w).be16(2).bef32(1).be16(3).be16(0).u8(0).u8(8).u8(type).u8(0xE0); Bytes v = rnd(w * 6, w); for (int x = 0; x < w; x++) memcpy(&v[x * 3], &v[0], 3); auto cell = [&](int y, int x) { o.raw(&v[(y * w + x) * 3], 3); };
        for (int x = 0; x < w;) { int l = std::min(w - x, type == 1 ? 255 : mode ? 65535 : 128); if (type == 1) o.u8(l); else if (l > 128 || mode) o.u8(128).be16(l); else if (l == 1) o.u8(0); else o.u8(l + 127); cell(0, x); x += l; } for (int x = 0; x < w;) { if (type == 1) { o.u8(1); cell(1, x++); continue; } int l = std::min(w - x, 128); o.u8(l - 1); for (int i = 0; i < l; i++) cell(1, x + i); x += l; }
        File f; f.name = mc::sfmt("PIC long runs, width %d, coding %d/%d", w, type, mode); f.type = IL_PIC; f.ext = "pic"; f.b = o.b; f.fr = { rgbpic(w, 2, v) }; out(std::move(f)); }
}
// XPM
inline void xpms(const Sink& out, bool more)
{
    static const char AL[] = " .XoO+@#$%&*=-;:>,<1234567890qwertyuipasdfghjklzxcvbnmMNBVCZASDFGHJKLPIUYTREWQ!~^/()_`'][{}|";
    for (int w = 1; w <= (more ? 7 : 4); w++) for (int h = 1; h <= 3; h++) for (int cpp = 1; cpp <= 4; cpp++) for (int cols : { 1, 2, 5, 40 }) for (int hex = 0; hex < 3; hex++) for (int none = 0; none < 2; none++) for (int style = 0; style < 4; style++) { if (style && (cols > 5 || hex == 2)) continue;
        Bytes pal = rnd(cols * 3, cpp + cols), ix = idx(w * h, cols, w * 3 + h); for (int i = 0; i < w * h && i < cols; i++) ix[i] = cols - 1 - i; auto key = [&](int i) { std::string k; int base = cpp == 1 ? 90 : 7; for (int c = 0; c < cpp; c++) { k += AL[i % base]; i /= base; } return k; };
        std::string o = "/* XPM */\n"; if (style == 1) o += "/* a comment */\n"; o += style == 2 ? "static const char * const pic[] = {" : "static char *pic_xpm[] = {\n"; if (style == 1) o += "/* columns rows colors chars-per-pixel */\n"; o += mc::sfmt(style == 3 ? "\"  %d\t%d  %d %d \",\n" : "\"%d %d %d %d\",\n", w, h, cols, cpp);
        for (int i = 0; i < cols; i++) { std::string k = key(i); bool off = none && i == cols - 1; o += "\"" + k + (style == 3 ? "\tc  " : " c "); if (off) o += style ? "none" : "None"; else for (int c = 0; c < 3; c++) { if (!c) o += "#"; o += mc::sfmt(hex == 0 ? "%02X" : hex == 1 ? "%02x" : "%04X", hex == 2 ? pal[i * 3 + c] * 257 : pal[i * 3 + c]); } if (style == 1) o += " m black g gray50 s name"; o += "\",\n"; }
        if (style == 1) o += "/* pixels */\n"; for (int y = 0; y < h; y++) { o += "\""; for (int x = 0; x < w; x++) o += key(ix[y * w + x]); o += y + 1 < h || style == 1 ? "\",\n" : "\"\n"; } o += "};\n";
        Fr fr = palpic(w, h, ix, pal); if (none) for (int i = 0; i < w * h; i++) if (ix[i] == cols - 1) { fr.p[i].c[0] = -1; fr.p[i].c[3] = 0; } File f; f.name = mc::sfmt("XPM %dx%d, %d chars, %d colours, digits %d, none %d, style %d", w, h, cpp, cols, hex, none, style); f.type = IL_XPM; f.ext = "xpm"; f.b = Bytes(o.begin(), o.end()); f.fr = { fr }; out(std::move(f)); }
    struct N { const char* n; int r, g, b; }; for (N n : { N{ "black", 0, 0, 0 }, N{ "white", 255, 255, 255 }, N{ "red", 255, 0, 0 }, N{ "blue", 0, 0, 255 }, N{ "yellow", 255, 255, 0 }, N{ "magenta", 255, 0, 255 }, N{ "cyan", 0, 255, 255 }, N{ "Red", 255, 0, 0 }, N{ "BLACK", 0, 0, 0 } }) for (int kind = 0; kind < 4; kind++) { // the visual a colour is given for
        const char* keys[] = { "c", "g", "g4", "m" }; std::string o = "/* XPM */\nstatic char *x[] = {\n\"2 1 2 1\",\n\"a "; o += mc::sfmt("%s %s\",\n\"b c #102030\",\n\"ab\"};\n", keys[kind], n.n); Fr fr = pic(2, 1); fr.p[0] = px(n.r, n.g, n.b); fr.p[1] = px(16, 32, 48); File f; f.name = mc::sfmt("XPM colour %s for visual %s", n.n, keys[kind]); f.type = IL_XPM; f.ext = "xpm"; f.b = Bytes(o.begin(), o.end()); f.fr = { fr }; out(std::move(f)); }
}
// DPX
inline void dpxs(const Sink& out, bool more)
{
    for (int w = 1; w <= (more ? 9 : 6); w++) for (int h = 1; h <= 3; h++) for (int ch : { 1, 3, 4 }) for (int bt : { 8, 10, 12, 16 }) for (int big = 0; big < 2; big++) for (int org = 0; org < 3; org += 2) for (int off = 0; off < 2; off++) { if (bt == 10 && ch != 3) continue; // how other values fill the words differs between writers
        Bytes v = rnd(w * h * ch * 2, w + h + ch + bt); auto S = [&](int x, int y, int c) { size_t k = (y * w + x) * ch + c; return (v[k * 2] << 8 | v[k * 2 + 1]) >> (16 - bt); }; uint32_t data = 2048 + (off ? 64 : 0); W d; int linesz = bt == 10 ? w * 4 : w * ch * (bt + 7) / 8; if (bt == 12) linesz = w * ch * 2; int padn = (4 - linesz % 4) % 4;
        for (int r = 0; r < h; r++) { int y = org ? h - 1 - r : r; for (int x = 0; x < w; x++) { if (bt == 10) { uint32_t q = (uint32_t)S(x, y, 0) << 22 | S(x, y, 1) << 12 | S(x, y, 2) << 2; big ? d.be32(q) : d.u32(q); } else for (int c = 0; c < ch; c++) { int q = S(x, y, c); if (bt == 8) d.u8(q); else { if (bt == 12) q <<= 4; big ? d.be16(q) : d.u16(q); } } } d.z(padn); }
        W o; auto u4 = [&](uint32_t q) { big ? o.be32(q) : o.u32(q); }; auto u2 = [&](unsigned q) { big ? o.be16(q) : o.u16(q); }; o.s(big ? "SDPX" : "XPDS"); u4(data); o.str("V1.0", 8); u4(data + d.b.size()); u4(1); u4(1664); u4(384); u4(0); o.str("x.dpx", 100).str("2026:11:20:00:00:00", 24).str("mc", 100).str("", 200).str("", 200); u4(0xFFFFFFFF); o.z(104);
        u2(org); u2(1); u4(w); u4(h); u4(0); u4(0); u4(0); u4((1u << bt) - 1); u4(0); o.u8(ch == 1 ? 6 : ch == 3 ? 50 : 51).u8(2).u8(2).u8(bt); u2(bt == 10 || bt == 12 ? 1 : 0); u2(0); u4(data); u4(padn); u4(0xFFFFFFFF); o.str("", 32); o.z(7 * 72); o.z(52); o.z(data - o.b.size()); o.raw(d.b);
        Fr fr = pic(w, h); double k = 255.0 / ((1 << bt) - 1); for (int i = 0; i < w * h; i++) { auto G = [&](int c) { return k * S(i % w, i / w, c); }; fr.p[i] = ch == 1 ? px(G(0), G(0), G(0)) : px(G(0), G(1), G(2), ch == 4 ? G(3) : 255); } File f; f.name = mc::sfmt("DPX %dx%d, %d channels of %d bits, %s endian, orientation %d, data at %u", w, h, ch, bt, big ? "big" : "little", org, data); f.type = IL_DPX; f.ext = "dpx"; f.sig = false; f.b = o.b; f.fr = { fr }; f.tol = bt == 8 ? 0 : 0.07; out(std::move(f)); }
}
// KTX: uncompressed and ETC1
inline void etc1(const uint8_t* p, double out[16][3]) { static const int T[8][2] = { { 2, 8 }, { 5, 17 }, { 9, 29 }, { 13, 42 }, { 18, 60 }, { 24, 80 }, { 33, 106 }, { 47, 183 } }; bool diff = p[3] & 2, flip = p[3] & 1; int c[2][3]; for (int k = 0; k < 3; k++) { if (diff) { int a = p[k] >> 3, d = p[k] & 7; if (d > 3) d -= 8; int b = a + d; c[0][k] = a << 3 | a >> 2; c[1][k] = b << 3 | b >> 2; } else { c[0][k] = (p[k] >> 4) * 17; c[1][k] = (p[k] & 15) * 17; } } int t[2] = { p[3] >> 5, p[3] >> 2 & 7 }; unsigned hi = p[4] << 8 | p[5], lo = p[6] << 8 | p[7];
    for (int n = 0; n < 16; n++) { int x = n / 4, y = n % 4, sub = flip ? y >= 2 : x >= 2, m = T[t[sub]][lo >> n & 1]; if (hi >> n & 1) m = -m; for (int k = 0; k < 3; k++) { int v = c[sub][k] + m; out[y * 4 + x][k] = v < 0 ? 0 : v > 255 ? 255 : v; } } }
inline Bytes half(double v) { union { float f; uint32_t u; } q; q.f = (float)v; uint32_t e = (q.u >> 23 & 255), h = e < 113 ? 0 : (e - 112) << 10 | (q.u >> 13 & 1023); return { (uint8_t)h, (uint8_t)(h >> 8) }; }
inline void ktxs(const Sink& out, bool more)
{
    for (int w = 1; w <= (more ? 9 : 5); w++) for (int h = 1; h <= (more ? 6 : 5); h++) for (int kind = 0; kind < 9; kind++) for (int mips = 0; mips < 3; mips++) for (int big = 0; big < 2; big++) for (int kv = 0; kv < 5; kv++) { if (kv > 2 && (w != 3 || mips)) continue; if (h == 1 && kv == 1) continue;
        // kind 0-3: 1..4 channels of bytes, 4-7: of half floats, 8: ETC1; mips 0: unspecified, 1: none, 2: all; kv 0: none, 1: top row last, 2: top row first, 3: another key first, 4: after an odd-sized one
        int ch = kind % 4 + 1, levels = 1; if (mips == 2) for (int a = std::max(w, h); a > 1; a /= 2) levels++; bool hf = kind >= 4 && kind < 8, e = kind == 8; W o; auto u4 = [&](uint32_t v) { big ? o.be32(v) : o.u32(v); }; o.raw("\xABKTX 11\xBB\r\n\x1A\n", 12); u4(0x04030201); u4(e ? 0 : hf ? 0x140B : 0x1401); u4(hf ? 2 : 1); static const int F[] = { 0x1909, 0x190A, 0x1907, 0x1908 }; u4(e ? 0 : F[ch - 1]); u4(e ? 0x8D64 : F[ch - 1]); u4(e ? 0x1907 : F[ch - 1]); u4(w); u4(h == 1 && kv == 2 ? 0 : h); u4(0); u4(0); u4(1); u4(mips ? levels : 0);
        W d; auto d4 = [&](uint32_t v) { big ? d.be32(v) : d.u32(v); }; auto pair = [&](const std::string& k, const std::string& v) { d4(k.size() + v.size() + 2); d.s(k).u8(0).s(v).u8(0); d.pad(4); }; if (kv == 3) pair("writer", "mc"); if (kv == 4) pair("a", ""); if (kv) pair("KTXorientation", kv == 2 ? "S=r,T=d" : "S=r,T=u"); u4(d.b.size()); o.raw(d.b); bool up = kv && kv != 2; if (e && up && h % 4) continue; // blocks of the last row of blocks
        File f; f.fr.resize(1); int lw = w, lh = h; for (int l = 0; l < levels; l++) { Fr fr = pic(lw, lh); auto row = [&](int y) { return up ? lh - 1 - y : y; };
            if (e) { int bx = (lw + 3) / 4, by = (lh + 3) / 4; u4(bx * by * 8); for (int y = 0; y < by; y++) for (int x = 0; x < bx; x++) { Bytes b = rnd(8, w * 7 + h * 31 + l + x * 3 + y * 5); if (b[3] & 2) for (int k = 0; k < 3; k++) { int a = b[k] >> 3, q = b[k] & 7; if (q > 3) q -= 8; if (a + q < 0 || a + q > 31) b[k] = (b[k] & 0xF8); } o.raw(b); double c[16][3]; etc1(b.data(), c); for (int i = 0; i < 16; i++) { int X = x * 4 + i % 4, Y = y * 4 + i / 4; if (X < lw && Y < lh) fr.p[row(Y) * lw + X] = px(c[i][0], c[i][1], c[i][2]); } } }
            else { int bps = lw * ch * (hf ? 2 : 1), padn = (4 - bps % 4) % 4; u4((bps + padn) * lh); Bytes v = rnd(lw * lh * ch, w + h + kind + l); for (int r = 0; r < lh; r++) { int y = row(r); for (int x = 0; x < lw; x++) { const uint8_t* q = &v[(y * lw + x) * ch]; if (hf) for (int c = 0; c < ch; c++) { Bytes k = half(q[c] / 256.0); o.u8(k[big]).u8(k[!big]); } else o.raw(q, ch); auto G = [&](int c) { return hf ? q[c] * 255 / 256.0 : q[c]; }; fr.p[y * lw + x] = ch <= 2 ? px(G(0), G(0), G(0), ch == 2 ? G(1) : 255) : px(G(0), G(1), G(2), ch == 4 ? G(3) : 255); } o.z(padn); } }
            if (l) f.mip.push_back(fr); else f.fr[0] = fr; lw = std::max(1, lw / 2); lh = std::max(1, lh / 2); }
        if (kv == 1 && e && mips == 2) { bool odd = false; for (int q = h; q; q /= 2) if (q % 4) odd = true; if (odd) continue; }
        f.name = mc::sfmt("KTX %dx%d kind %d, mipmaps %d, %s endian, keys %d", w, h, kind, mips, big ? "big" : "little", kv); f.type = IL_KTX; f.ext = "ktx"; f.b = o.b; f.tol = hf ? 0.2 : 0; out(std::move(f)); }
}
// TPL (GameCube/Wii): tiles, palettes, several textures
inline P tpl565(unsigned v) { double c[3]; c565(v, c); return px(c[0], c[1], c[2]); }
inline P tpl5a3(unsigned v) { auto f = [](int x) { return x << 3 | x >> 2; }; if (v & 0x8000) return px(f(v >> 10 & 31), f(v >> 5 & 31), f(v & 31)); int a = v >> 12 & 7; return px((v >> 8 & 15) * 17, (v >> 4 & 15) * 17, (v & 15) * 17, a << 5 | a << 2 | a >> 1); }
inline void tpls(const Sink& out, bool more)
{
    static const int FMT[] = { 0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 14 }; auto tex = [](int w, int h, int fmt, int pf, int salt, Bytes& data, Bytes& pal, int& cols) { Fr fr = pic(w, h); int tw = fmt == 3 || fmt == 4 || fmt == 5 || fmt == 6 || fmt == 10 ? 4 : 8, th = fmt == 0 || fmt == 8 || fmt == 14 ? 8 : 4, ts = fmt == 6 ? 64 : 32; std::vector<P> pc; cols = fmt == 8 ? 16 : fmt == 9 ? 37 : fmt == 10 ? 300 : 0; if (cols) { pal = rnd(cols * 2, salt + pf); for (int i = 0; i < cols; i++) { int a = pal[i * 2], b = pal[i * 2 + 1]; pc.push_back(pf == 0 ? px(b, b, b, a) : pf == 1 ? tpl565(a << 8 | b) : tpl5a3(a << 8 | b)); } }
        for (int y = 0; y < h; y += th) for (int x = 0; x < w; x += tw) { Bytes t = rnd(ts, salt + x * 3 + y * 7 + fmt); if (fmt == 9) for (auto& v : t) v %= cols; if (fmt == 10) for (size_t i = 0; i < t.size(); i += 2) { t[i] = (t[i] & 0xC0) | (t[i + 1] & 1); if (t[i] & 1) t[i + 1] %= 44; }
            for (int j = 0; j < th && y + j < h; j++) for (int i = 0; i < tw && x + i < w; i++) { int k = j * tw + i; P p; auto n4 = [&] { return k & 1 ? t[k / 2] & 15 : t[k / 2] >> 4; }; unsigned v16 = k * 2 + 1 < ts ? t[k * 2] << 8 | t[k * 2 + 1] : 0;
                switch (fmt) { case 0: { int v = n4() * 17; p = px(v, v, v); break; } case 1: p = px(t[k], t[k], t[k]); break; case 2: { int v = (t[k] & 15) * 17; p = px(v, v, v, (t[k] >> 4) * 17); break; } case 3: p = px(v16 & 255, v16 & 255, v16 & 255, v16 >> 8); break; case 4: p = tpl565(v16); break; case 5: p = tpl5a3(v16); break; case 6: p = px(t[k * 2 + 1], t[32 + k * 2], t[33 + k * 2], t[k * 2]); break; case 8: p = pc[n4()]; break; case 9: p = pc[t[k]]; break; case 10: p = pc[v16 & 0x3FFF]; break;
                    case 14: { const uint8_t* q = &t[(j / 4 * 2 + i / 4) * 8]; uint8_t r[8] = { q[1], q[0], q[3], q[2] }; for (int m = 0; m < 4; m++) { int b = q[4 + m]; r[4 + m] = (b >> 6 & 3) | (b >> 4 & 3) << 2 | (b >> 2 & 3) << 4 | (b & 3) << 6; } double c[16][4]; dxcolor(r, true, c); auto* z = c[(j & 3) * 4 + (i & 3)]; p = px(z[0], z[1], z[2], z[3]); if (z[3] == 0) p.c[0] = -1; break; } }
                fr.p[(y + j) * w + x + i] = p; } data.insert(data.end(), t.begin(), t.end()); } return fr; };
    auto file = [&](const std::vector<std::array<int, 4>>& v, int layout) { int n = v.size(); W o; o.be32(0x0020AF30).be32(n).be32(12); o.z(n * 8 + (layout ? 16 : 0)); File f; f.name = mc::sfmt("TPL layout %d:", layout); for (int i = 0; i < n; i++) { Bytes d, pal; int cols = 0; f.fr.push_back(tex(v[i][0], v[i][1], v[i][2], v[i][3], i * 100 + v[i][0], d, pal, cols)); f.name += mc::sfmt(" %dx%d format %d/%d", v[i][0], v[i][1], v[i][2], v[i][3]); size_t ph = 0, pd = 0; if (cols) { pd = o.b.size(); o.raw(pal); o.pad(32); ph = o.b.size(); o.be16(cols).u8(0).u8(0).be32(v[i][3]).be32(pd); } size_t dp = o.b.size(); if (!layout) o.raw(d); o.atbe32(12 + i * 8, o.b.size()).atbe32(16 + i * 8, ph); size_t hp = o.b.size(); o.be16(v[i][1]).be16(v[i][0]).be32(v[i][2]).be32(dp).be32(0).be32(0).be32(1).be32(1).bef32(0).be32(0); if (layout) { o.pad(32); o.atbe32(hp + 8, o.b.size()); o.raw(d); } }
        f.type = IL_TPL; f.ext = "tpl"; f.b = o.b; f.tol = 1; out(std::move(f)); };
    for (int w = 1; w <= (more ? 17 : 9); w++) for (int h = 1; h <= (more ? 17 : 9); h++) for (int fmt : FMT) for (int pf = 0; pf < 3; pf++) { if (pf && (fmt < 8 || fmt > 10)) continue; file({ { w, h, fmt, pf } }, (w + h) & 1); }
    for (int a = 0; a < 11; a++) for (int b = 0; b < 11; b++) for (int l = 0; l < 2; l++) file({ { 5, 3, FMT[a], a % 3 }, { 9, 2, FMT[b], b % 3 }, { 1, 1, FMT[(a + b) % 11], 1 } }, l);
}
// the levels below a w x h picture
inline std::vector<std::pair<int, int>> levels(int w, int h, bool all) { std::vector<std::pair<int, int>> v{ { w, h } }; while (all && (w > 1 || h > 1)) { w = std::max(1, w / 2); h = std::max(1, h / 2); v.push_back({ w, h }); } return v; }
// a level of DXT blocks (kind 1, 3 or 5) and what it shows
inline Fr dxtlevel(int w, int h, int kind, uint32_t salt, Bytes& data, bool opaque = false) { Fr fr = pic(w, h); for (int y = 0; y < h; y += 4) for (int x = 0; x < w; x += 4) { Bytes b = rnd(kind == 1 ? 8 : 16, salt + x * 3 + y * 11); double c[16][4], a[16]; dxcolor(&b[kind == 1 ? 0 : 8], kind == 1, c); for (int i = 0; i < 16; i++) a[i] = kind == 3 ? (b[i / 2] >> (i & 1) * 4 & 15) * 17 : c[i][3]; if (kind == 5) dxalpha(&b[0], a); for (int i = 0; i < 16; i++) if (x + i % 4 < w && y + i / 4 < h) { auto& p = fr.p[(y + i / 4) * w + x + i % 4]; p = px(c[i][0], c[i][1], c[i][2], a[i]); if (kind == 1 && a[i] == 0) p.c[0] = -1; } data.insert(data.end(), b.begin(), b.end()); } return fr; }
// BLP (Warcraft textures)
inline void blps(const Sink& out, bool more)
{
    for (int w = 1; w <= (more ? 17 : 9); w++) for (int h = 1; h <= (more ? 9 : 5); h++) for (int kind = 0; kind < 9; kind++) for (int mips = 0; mips < 2; mips++) { // 0-5: BLP2 DXT1 (no alpha, 1 bit), DXT3, DXT5 x2 alpha kinds, 6: BLP2 palette; 7: BLP1 palette; 8: BLP1 palette and alpha list
        if (kind == 8 && mips) continue; auto L = levels(w, h, mips); std::vector<Bytes> data(L.size()); File f; std::vector<Fr> fr; Bytes pal = rnd(1024, kind + 5); Bytes rgb; for (int i = 0; i < 256; i++) for (int c = 2; c >= 0; c--) rgb.push_back(pal[i * 4 + c]); static const int DK[] = { 1, 1, 3, 3, 3, 5 }, AT[] = { 0, 0, 0, 1, 8, 7 };
        for (size_t l = 0; l < L.size(); l++) { int lw = L[l].first, lh = L[l].second; if (kind < 6) fr.push_back(dxtlevel(lw, lh, DK[kind], w + h + l, data[l])); else { Bytes ix = rnd(lw * lh, w * 3 + h + l); data[l] = ix; Fr q = palpic(lw, lh, ix, rgb); if (kind == 8) { Bytes al = rnd(lw * lh, 77); data[l].insert(data[l].end(), al.begin(), al.end()); for (int i = 0; i < lw * lh; i++) q.p[i].c[3] = al[i]; } fr.push_back(q); } }
        W o; if (kind < 7) o.s("BLP2").u32(1).u8(kind == 6 ? 1 : 2).u8(kind == 6 || kind == 0 ? 0 : kind == 1 ? 1 : 8).u8(kind < 6 ? AT[kind] : 0).u8(mips).u32(w).u32(h); else o.s("BLP1").u32(1).u32(kind == 8 ? 8 : 0).u32(w).u32(h).u32(kind == 8 ? 3 + (w & 1) : 5).u32(1); uint32_t at = o.b.size() + 128 + 1024; std::vector<uint32_t> pos; for (auto& d : data) { pos.push_back(at); at += d.size(); } for (int l = 0; l < 16; l++) o.u32(l < (int)pos.size() ? pos[l] : 0); for (int l = 0; l < 16; l++) o.u32(l < (int)pos.size() ? data[l].size() : 0); o.raw(pal); for (auto& d : data) o.raw(d);
        f.name = mc::sfmt("BLP kind %d %dx%d, mipmaps %d", kind, w, h, mips); f.type = IL_BLP; f.ext = "blp"; f.b = o.b; f.tol = 1; f.sig = kind < 7; f.fr = { fr[0] }; f.mip.assign(fr.begin() + 1, fr.end()); out(std::move(f)); }
}
// IWI textures: mipmaps from the smallest to the largest
inline void iwis(const Sink& out, bool more)
{
    for (int w = 1; w <= (more ? 20 : 9); w++) for (int h = 1; h <= (more ? 9 : 5); h++) for (int kind = 0; kind < 6; kind++) for (int mips = 0; mips < 2; mips++) for (int ver = 5; ver <= (w == 4 ? 6 : 5); ver++) { // 0 BGRA, 1 BGR, 2 alpha, 3-5 DXT1,3,5
        static const int FM[] = { 1, 2, 4, 0xB, 0xC, 0xD }, DK[] = { 0, 0, 0, 1, 3, 5 }; if (kind > 2 && ((w & (w - 1)) || (h & (h - 1)))) continue; auto L = levels(w, h, mips); std::vector<Bytes> data(L.size()); std::vector<Fr> fr;
        for (size_t l = 0; l < L.size(); l++) { int lw = L[l].first, lh = L[l].second; if (kind > 2) fr.push_back(dxtlevel(lw, lh, DK[kind], w + h + l, data[l])); else { int c = kind == 0 ? 4 : kind == 1 ? 3 : 1; Bytes v = rnd(lw * lh * c, w * 3 + l); data[l] = v; Fr q = pic(lw, lh); for (int i = 0; i < lw * lh; i++) q.p[i] = c == 4 ? px(v[i * 4 + 2], v[i * 4 + 1], v[i * 4], v[i * 4 + 3]) : c == 3 ? px(v[i * 3 + 2], v[i * 3 + 1], v[i * 3]) : px(0, 0, 0, v[i]); fr.push_back(q); } }
        W o; o.s("IWi").u8(ver).u8(FM[kind]).u8(mips ? 0 : 3).u16(w).u16(h).u16(1).z(16); for (size_t l = L.size(); l-- > 0;) o.raw(data[l]);
        File f; f.name = mc::sfmt("IWI %d kind %d %dx%d, mipmaps %d", ver, kind, w, h, mips); f.type = IL_IWI; f.ext = "iwi"; f.b = o.b; f.tol = 1; f.fr = { fr[0] }; f.mip.assign(fr.begin() + 1, fr.end()); out(std::move(f)); }
}
// ROT textures
inline void rots(const Sink& out, bool more)
{
    for (int w = 1; w <= (more ? 20 : 9); w++) for (int h = 1; h <= (more ? 9 : 5); h++) for (int kind = 0; kind < 4; kind++) for (int mips = 0; mips < 2; mips++) for (int tail = 0; tail < 2; tail++) {
        static const int FM[] = { 1024, 1028, 1029, 1030 }, DK[] = { 0, 1, 3, 5 }; auto L = levels(w, h, mips); std::vector<Bytes> data(L.size()); std::vector<Fr> fr;
        for (size_t l = 0; l < L.size(); l++) { int lw = L[l].first, lh = L[l].second; if (kind) fr.push_back(dxtlevel(lw, lh, DK[kind], w + h + l, data[l])); else { data[l] = rnd(lw * lh * 4, w * 3 + l); fr.push_back(rgbapic(lw, lh, data[l])); } }
        for (auto& q : fr) { Fr t = q; for (int y = 0; y < q.h; y++) for (int x = 0; x < q.w; x++) q.p[y * q.w + x] = t.p[(q.h - 1 - y) * q.w + x]; } // the first row is the lowest
        W m; for (size_t l = 0; l < L.size(); l++) m.s("FORM").be32(20 + data[l].size()).s("MLVL").u32(l).u32(L[l].first).u32(L[l].second).u32(data[l].size()).raw(data[l]); W o; o.s("FORM").be32(0x14).s("HEAD").u32(w).u32(h).u32(FM[kind]).u32(4).s("FORM").be32(m.b.size() + 4).s("MIPS").raw(m.b); if (tail) o.s("TAIL").be32(4).s("NONE");
        File f; f.name = mc::sfmt("ROT %d %dx%d, mipmaps %d, tail %d", FM[kind], w, h, mips, tail); f.type = IL_ROT; f.ext = "rot"; f.b = o.b; f.tol = 1; f.sig = false; f.fr = { fr[0] }; f.mip.assign(fr.begin() + 1, fr.end()); out(std::move(f)); }
}
// Scitex continuous tone: lines of separate channels, of even length
inline void scitexs(const Sink& out, bool more)
{
    for (int w = 1; w <= (more ? 33 : 17); w++) for (int h = 1; h <= (more ? 7 : 4); h++) for (int c : { 1, 3 }) for (int u = 0; u < 2; u++) {
        Bytes v = rnd(w * h * c, w + h); W o; o.str("a comment", 80).s("CT").z(942).u8(u).u8(c).be16(c == 3 ? 7 : 8).s(mc::sfmt("%+014.8f", 12.5)).s(mc::sfmt("%+014.8f", 3.25)).s(mc::sfmt("%+012d", h)).s(mc::sfmt("%+012d", w)); o.z(2048 - o.b.size());
        for (int y = 0; y < h; y++) for (int k = 0; k < c; k++) { for (int x = 0; x < w; x++) o.u8(v[(y * w + x) * c + k]); if (w & 1) o.u8(0xEE); }
        File f; f.name = mc::sfmt("Scitex %d channels %dx%d, units %d", c, w, h, u); f.type = IL_SCITEX; f.ext = "ct"; f.b = o.b; f.fr = { c == 3 ? rgbpic(w, h, v) : greypic(w, h, v) }; out(std::move(f)); }
}
// The textures of Half-Life models
inline void mdls(const Sink& out, bool more)
{
    for (int w = 1; w <= (more ? 17 : 9); w++) for (int h = 1; h <= (more ? 7 : 4); h++) for (int n = 1; n <= 3; n++) for (int order = 0; order < 2; order++) {
        W o; o.s("IDST").u32(10).z(172).u32(n).u32(300).u32(1000).z(300 - 192); std::vector<Bytes> ix, pal; std::vector<uint32_t> at(n); std::vector<int> ws, hs; uint32_t p = 300 + n * 80 + 7; for (int k = 0; k < n; k++) { ws.push_back(w + k); hs.push_back(h + (k == 1)); ix.push_back(rnd(ws[k] * hs[k], w + k)); pal.push_back(rnd(768, h + k)); }
        for (int k = 0; k < n; k++) { int q = order ? n - 1 - k : k; at[q] = p; p += ix[q].size() + 768; } for (int k = 0; k < n; k++) o.str("texture", 64).u32(0).u32(ws[k]).u32(hs[k]).u32(at[k]); o.z(7); for (int k = 0; k < n; k++) { int q = order ? n - 1 - k : k; o.raw(ix[q]).raw(pal[q]); }
        File f; f.name = mc::sfmt("MDL %dx%d, %d textures, order %d", w, h, n, order); f.type = IL_MDL; f.ext = "mdl"; f.b = o.b; for (int k = 0; k < n; k++) { Fr t = palpic(ws[k], hs[k], ix[k], pal[k]), q = t; for (int y = 0; y < q.h; y++) for (int x = 0; x < q.w; x++) q.p[y * q.w + x] = t.p[(q.h - 1 - y) * q.w + x]; f.fr.push_back(q); } out(std::move(f)); }
}
// FITS: the first row is the lowest
inline void fitss(const Sink& out, bool more)
{
    for (int w = 1; w <= (more ? 17 : 9); w++) for (int h = 1; h <= (more ? 5 : 3); h++) for (int d = 1; d <= 3; d++) for (int axes = 1; axes <= 3; axes++) for (int bp : { 8, 16, 32, -32, -64 }) for (int extra = 0; extra < 2; extra++) {
        if ((axes < 3 && d > 1) || (axes < 2 && h > 1)) continue; if (!more && extra && w > 2) continue; W o; auto card = [&](const char* k, int v) { std::string t = mc::sfmt("%-8s= %20d / comment", k, v); t.resize(80, ' '); o.s(t); }; auto text = [&](const char* k) { std::string t = k; t.resize(80, ' '); o.s(t); };
        text("SIMPLE  =                    T"); card("BITPIX", bp); card("NAXIS", axes); card("NAXIS1", w); if (axes > 1) card("NAXIS2", h); if (axes > 2) card("NAXIS3", d); if (extra) for (int k = 0; k < 31 - axes; k++) text("COMMENT = NAXIS1 = 5 END "); text("END"); while (o.b.size() % 2880) o.u8(' ');
        Bytes v = rnd(w * h * d, w * 5 + h + d); v[0] = 200; double top = 0; for (auto t : v) if (t > top) top = t; for (auto t : v) switch (bp) { case 8: o.u8(t); break; case 16: o.be16(t * 128 + 37); break; case 32: o.be32(((uint32_t)t << 23) + 12345678); break; case -32: o.bef32(t * 3.f - (t < 9 ? 40 : 0)); break; default: { double q = t * 3. - (t < 9 ? 40 : 0); uint64_t u; memcpy(&u, &q, 8); o.be32(u >> 32).be32((uint32_t)u); } } o.z((2880 - o.b.size() % 2880) % 2880);
        File f; f.name = mc::sfmt("FITS %d bits %dx%dx%d, %d axes, extra cards %d", bp, w, h, d, axes, extra); f.type = IL_FITS; f.ext = "fits"; f.b = o.b; f.sig = false; f.tol = 0.01; Fr q; q.w = w; q.h = h; q.d = d; for (int z = 0; z < d; z++) for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { double t = v[(z * h + h - 1 - y) * w + x]; if (bp < 0) t = t < 9 ? 0 : t * 255 / top; if (bp == 16) t = (t * 128 + 37) / 257; if (bp == 32) t = (t * 8388608 + 12345678) / 16843009; q.p.push_back(px(t, t, t)); } f.fr = { q }; out(std::move(f)); }
}
// DICOM, explicit lengths
inline void dicoms(const Sink& out, bool more)
{
    for (int w = 1; w <= (more ? 17 : 9); w++) for (int h = 1; h <= (more ? 5 : 3); h++) for (int d = 1; d <= 2; d++) for (int c : { 1, 3 }) for (int bits : { 8, 16 }) for (int big = 0; big < 2; big++) for (int extra = 0; extra < 2; extra++) {
        if (big && bits == 8 && c == 3) continue; W o; o.z(128).s("DICM"); bool be = false; auto n16 = [&](unsigned v) { if (be) o.be16(v); else o.u16(v); }; auto n32 = [&](unsigned v) { if (be) o.be32(v); else o.u32(v); }; auto us = [&](int g, int e, int v) { n16(g); n16(e); o.s("US"); n16(2); n16(v); }; auto txt = [&](int g, int e, const char* vr, std::string t) { if (t.size() & 1) t += vr[0] == 'U' ? '\0' : ' '; n16(g); n16(e); o.s(vr); n16(t.size()); o.s(t); };
        std::string uid = big ? "1.2.840.10008.1.2.2" : "1.2.840.10008.1.2.1"; o.u16(2).u16(0).s("UL").u16(4).u32(8 + uid.size() + (uid.size() & 1)); txt(2, 0x10, "UI", uid); be = big;
        if (extra) { txt(8, 0x60, "CS", "MR"); n16(8); n16(0x1140); o.s("OB").z(2); n32(6); o.z(6, 9); txt(0x10, 0x10, "PN", "Doe"); } us(0x28, 2, c); if (extra) txt(0x28, 4, "CS", c == 3 ? "RGB" : "MONOCHROME2"); if (d > 1) txt(0x28, 8, "IS", mc::sfmt("%d", d)); us(0x28, 0x10, h); us(0x28, 0x11, w); us(0x28, 0x100, bits); us(0x28, 0x101, bits); if (extra) us(0x28, 0x103, 0);
        Bytes v = rnd(w * h * d * c, w + h * 3), lo = rnd(v.size(), 99); size_t len = v.size() * bits / 8, pad = len & 1; n16(0x7FE0); n16(0x10); o.s(bits == 8 ? "OB" : "OW").z(2); n32(len + pad); for (size_t i = 0; i < v.size(); i++) if (bits == 8) o.u8(v[i]); else n16(v[i] * 256 + lo[i]); if (pad) o.u8(0);
        File f; f.name = mc::sfmt("DICOM %d x %d bits %dx%dx%d, big endian %d, extra %d", c, bits, w, h, d, big, extra); f.type = IL_DICOM; f.ext = "dcm"; f.b = o.b; f.tol = bits == 8 ? 0 : 0.01; Fr q; q.w = w; q.h = h; q.d = d; for (int i = 0; i < w * h * d; i++) { auto g = [&](int k) { size_t j = i * c + (c == 3 ? k : 0); return bits == 8 ? (double)v[j] : (v[j] * 256 + lo[j]) / 257.; }; q.p.push_back(px(g(0), g(1), g(2))); } f.sig = false; f.fr = { q }; out(std::move(f)); }
}
// RAW with DevIL's header
inline void raws(const Sink& out, bool more)
{
    for (int w = 1; w <= (more ? 9 : 5); w++) for (int h = 1; h <= 4; h++) for (int d = 1; d <= 3; d++) for (int c = 1; c <= 4; c++) for (int bc : { 1, 2 }) {
        Bytes v = rnd(w * h * d * c, w + h * 3 + c), lo = rnd(v.size(), 5); W o; o.u32(w).u32(h).u32(d).u8(c).u8(bc); for (size_t i = 0; i < v.size(); i++) if (bc == 1) o.u8(v[i]); else o.u16(v[i] * 256 + lo[i]); Fr q; q.w = w; q.h = h; q.d = d; for (int i = 0; i < w * h * d; i++) { auto g = [&](int k) { return bc == 1 ? (double)v[i * c + k] : (v[i * c + k] * 256 + lo[i * c + k]) / 257.; }; q.p.push_back(c == 1 ? px(g(0), g(0), g(0)) : c == 2 ? px(g(0), g(0), g(0), g(1)) : c == 3 ? px(g(0), g(1), g(2)) : px(g(0), g(1), g(2), g(3))); }
        File f; f.name = mc::sfmt("RAW %dx%dx%d, %d channels of %d bytes", w, h, d, c, bc); f.type = IL_RAW; f.ext = "raw"; f.b = o.b; f.sig = false; f.tol = 0.01; f.fr = { q }; out(std::move(f)); }
}
// DDS without block compression: bit masks, luminance, 16 bit and float surfaces, DirectX 10 headers; with mipmaps, volumes and cube maps
inline float halfval(uint16_t h) { int e = h >> 10 & 31, m = h & 1023; double v = e ? ldexp(1024 + m, e - 25) : ldexp(m, -24); return (float)(h >> 15 ? -v : v); }
inline void ddss(const Sink& out, bool more)
{
    struct L { const char* n; int bits; uint32_t flags, r, g, b, a; }; static const L LS[] = { { "RGB332", 8, 0x40, 0xE0, 0x1C, 3, 0 }, { "R5G6B5", 16, 0x40, 0xF800, 0x7E0, 0x1F, 0 }, { "B5G6R5", 16, 0x40, 0x1F, 0x7E0, 0xF800, 0 }, { "X1R5G5B5", 16, 0x40, 0x7C00, 0x3E0, 0x1F, 0 }, { "A1R5G5B5", 16, 0x41, 0x7C00, 0x3E0, 0x1F, 0x8000 }, { "A4R4G4B4", 16, 0x41, 0xF00, 0xF0, 0xF, 0xF000 }, { "R4G4B4A4", 16, 0x41, 0xF000, 0xF00, 0xF0, 0xF }, { "A8R3G3B2", 16, 0x41, 0xE0, 0x1C, 3, 0xFF00 }, { "R8G8B8", 24, 0x40, 0xFF0000, 0xFF00, 0xFF, 0 }, { "B8G8R8", 24, 0x40, 0xFF, 0xFF00, 0xFF0000, 0 }, { "X8R8G8B8", 32, 0x40, 0xFF0000, 0xFF00, 0xFF, 0 }, { "X8B8G8R8", 32, 0x40, 0xFF, 0xFF00, 0xFF0000, 0 }, { "B8G8R8X8", 32, 0x40, 0xFF00, 0xFF0000, 0xFF000000, 0 }, { "A8R8G8B8", 32, 0x41, 0xFF0000, 0xFF00, 0xFF, 0xFF000000 }, { "A8B8G8R8", 32, 0x41, 0xFF, 0xFF00, 0xFF0000, 0xFF000000 }, { "R8G8B8A8", 32, 0x41, 0xFF000000, 0xFF0000, 0xFF00, 0xFF }, { "A2R10G10B10", 32, 0x41, 0x3FF00000, 0xFFC00, 0x3FF, 0xC0000000 }, { "A2B10G10R10", 32, 0x41, 0x3FF, 0xFFC00, 0x3FF00000, 0xC0000000 }, { "L8", 8, 0x20000, 0xFF, 0, 0, 0 }, { "L16", 16, 0x20000, 0xFFFF, 0, 0, 0 }, { "A8L8", 16, 0x20001, 0xFF, 0, 0, 0xFF00 }, { "A4L4", 8, 0x20001, 0xF, 0, 0, 0xF0 },
        { "A16B16G16R16", 64, 36 }, { "R16F", 16, 111 }, { "G16R16F", 32, 112 }, { "A16B16G16R16F", 64, 113 }, { "R32F", 32, 114 }, { "G32R32F", 64, 115 }, { "A32B32G32R32F", 128, 116 }, { "DX10 R8G8B8A8", 32, 28 }, { "DX10 B8G8R8A8", 32, 87 }, { "DX10 B8G8R8A8 SRGB", 32, 91 } };
    const int NM = 22, ND = 29, NL = 32; int salt = 0;
    auto surface = [&](int k, int w, int h, int d, Bytes& pay) { const L& l = LS[k]; Fr f; f.w = w; f.h = h; f.d = d; size_t n = (size_t)w * h * d; Bytes raw = rnd(n * l.bits / 8, ++salt * 7 + k);
        for (size_t i = 0; i < n; i++) { uint8_t* p = &raw[i * l.bits / 8]; auto h16 = [&](int j) { return (uint16_t)(p[j * 2] | p[j * 2 + 1] << 8); };
            if (k < NM) { uint32_t v = 0; for (int j = 0; j < l.bits / 8; j++) v |= (uint32_t)p[j] << 8 * j; if (l.bits == 32 && l.g == 0xFFC00) { v = (v & ~0x3FFu) | (v >> 20 & 0x3FF); for (int j = 0; j < 4; j++) p[j] = v >> 8 * j; }
                auto get = [&](uint32_t m, double no) { if (!m) return no; uint32_t x = v & m; while (!(m & 1)) m >>= 1, x >>= 1; return x * 255. / m; }; double r = get(l.r, 0), a = get(l.a, 255); f.p.push_back(l.flags & 0x20000 ? px(r, r, r, a) : px(r, get(l.g, 0), get(l.b, 0), a)); }
            else if (k == NM) f.p.push_back(px(h16(0) / 257., h16(1) / 257., h16(2) / 257., h16(3) / 257.));
            else if (k < ND) { int c = k == 23 || k == 26 ? 1 : k == 24 || k == 27 ? 2 : 4; double v[4] = { 1, 1, 1, 1 }; for (int j = 0; j < c; j++) if (k < 26) { uint16_t x = h16(j); int e = x >> 10 & 31; x = (x & 0x83FF) | (e % 19) << 10; p[j * 2] = x; p[j * 2 + 1] = x >> 8; v[j] = halfval(x); } else { int iv = (int)(p[j * 4] | p[j * 4 + 1] << 8) - 20000; float x = iv / 4096.f; memcpy(p + j * 4, &x, 4); v[j] = x; } f.p.push_back(px(v[0] * 255, v[1] * 255, v[2] * 255, v[3] * 255)); }
            else if (k == ND) f.p.push_back(px(p[0], p[1], p[2], p[3])); else f.p.push_back(px(p[2], p[1], p[0], p[3])); }
        pay.insert(pay.end(), raw.begin(), raw.end()); return f; };
    auto tol = [&](int k) { double t = 0.01; if (k < NM) for (uint32_t m : { LS[k].r, LS[k].g, LS[k].b }) { int b = __builtin_popcount(m); if (b && b < 8) t = std::max(t, (double)(1 << (8 - b))); if (b == 10) t = std::max(t, 0.3); } return k > NM && k < ND ? 0 : k >= ND ? 0 : t; };
    auto make = [&](int k, const char* what, int w, int h, int d, int levels, uint32_t cube) { const L& l = LS[k]; Bytes pay; File f; std::vector<std::vector<Fr>> faces; int nf = cube ? __builtin_popcount(cube & 0xFC00) : 1;
        for (int i = 0; i < nf; i++) { std::vector<Fr> lv; for (int m = 0; m < levels; m++) lv.push_back(surface(k, std::max(1, w >> m), std::max(1, h >> m), std::max(1, d >> m), pay)); faces.push_back(lv); }
        Dds q; q.w = w; q.h = h; q.d = d; q.mips = levels > 1 ? levels : 0; q.caps2 = cube; if (k < NM) { q.bits = l.bits; q.flags = l.flags; q.r = l.r; q.g = l.g; q.b = l.b; q.a = l.a; } else if (k < ND) q.fourcc = l.flags; else { q.fourcc = cc("DX10"); W x; x.u32(l.flags).u32(d > 1 ? 4 : h == 1 ? 2 : 3).u32(0).u32(1).u32(0).raw(pay); pay = x.b; }
        f.name = mc::sfmt("DDS %s %dx%dx%d %s", l.n, w, h, d, what); f.type = IL_DDS; f.ext = "dds"; f.b = dds(q, pay); f.tol = tol(k); f.fr = { faces[0][0] }; f.mip.assign(faces[0].begin() + 1, faces[0].end()); if (nf > 1) f.face = { faces }; out(std::move(f)); };
    for (int k = 0; k < NL; k++) { for (int w = 1; w <= (more ? 9 : 5); w++) for (int h = 1; h <= 3; h++) make(k, "", w, h, 1, 1, 0); make(k, "volume", 3, 2, 3, 1, 0); if (more) for (int d = 2; d < 6; d++) make(k, "volume", 2, 3, d, 1, 0); if (k >= ND) continue;
        for (int w : { 8, 5, 1 }) for (int h : { 4, 1 }) for (int n = 2; n <= 4; n++) { int full = 1; for (int a = std::max(w, h); a > 1; a /= 2) full++; if (n <= full) make(k, mc::sfmt("%d levels", n).c_str(), w, h, 1, n, 0); } make(k, "volume, 3 levels", 4, 3, 5, 3, 0); make(k, "cube", 3, 3, 1, 1, 0xFE00); make(k, "cube, 2 levels", 2, 2, 1, 2, 0xFE00); make(k, "cube, three faces", 2, 2, 1, 1, 0x200 | 0x5400); }
}
// Total War textures: a DDS file behind 48 bytes
inline void textures(const Sink& out, bool more)
{
    for (int w = 1; w <= (more ? 12 : 6); w++) for (int h = 1; h <= 4; h++) for (int c : { 3, 4 }) { Bytes v = rnd(w * h * c, w + h), m; Fr q = pic(w, h); for (int i = 0; i < w * h; i++) { q.p[i] = px(v[i * c], v[i * c + 1], v[i * c + 2], c == 4 ? v[i * c + 3] : 255); for (int k : { 2, 1, 0, 3 }) if (k < c) m.push_back(v[i * c + k]); }
        Dds g; g.w = w; g.h = h; g.bits = c * 8; g.flags = c == 4 ? 0x41 : 0x40; g.r = 0xFF0000; g.g = 0xFF00; g.b = 0xFF; g.a = c == 4 ? 0xFF000000 : 0; W o; o.s("texture header").z(34, 7).raw(dds(g, m)); File f; f.name = mc::sfmt("TEXTURE %dx%d, %d channels", w, h, c); f.type = IL_TEXTURE; f.ext = "texture"; f.b = o.b; f.sig = false; f.fr = { q }; out(std::move(f)); }
}
// The picture of an ID3 tag
inline void mp3s(const Sink& out, bool more)
{
    int n = 0; pngs([&](File&& g) { if (n++ % (more ? 7 : 40)) return; for (int ver = 3; ver <= 4; ver++) for (int before = 0; before < 3; before++) { auto sy = [&](uint32_t v) { return ver == 4 ? (v & 127) | (v >> 7 & 127) << 8 | (v >> 14 & 127) << 16 | (v >> 21 & 127) << 24 : v; }; auto sy4 = [&](uint32_t v) { return (v & 127) | (v >> 7 & 127) << 8 | (v >> 14 & 127) << 16 | (v >> 21 & 127) << 24; };
        W fr; for (int k = 0; k < before; k++) { size_t len = k ? 300 : 5; fr.s(k ? "COMM" : "TIT2").be32(sy(len)).u16(0).z(len, 'x'); } W a; a.u8(0).s("image/png").u8(0).u8(3).s("front").u8(0).raw(g.b); fr.s("APIC").be32(sy(a.b.size())).u16(0).raw(a.b); W o; o.s("ID3").u8(ver).u8(0).u8(0).be32(sy4(fr.b.size())).raw(fr.b).z(40);
        File f = g; f.name = mc::sfmt("MP3 (ID3v2.%d, %d frames before) with ", ver, before) + g.name; f.type = IL_MP3; f.ext = "mp3"; f.b = o.b; out(std::move(f)); } }, more);
}
// Apple icons: runs per channel, masks apart
inline void icnss(const Sink& out, bool more)
{
    static const int SZ[] = { 16, 32, 48, 128 }; static const char *RGB[] = { "is32", "il32", "ih32", "it32" }, *MK[] = { "s8mk", "l8mk", "h8mk", "t8mk" };
    for (int set = 1; set < 16; set++) { if (!more && (set & 8) && set != 8 && set != 15) continue; for (int mask = 0; mask < 3; mask++) for (int mode = 0; mode < 4; mode++) { // mode 0: one literal after another, 1: runs, 2: a mix, 3: uncompressed
        W body; std::vector<Fr> frs; W late; for (int k = 0; k < 4; k++) if (set >> k & 1) { int n = SZ[k] * SZ[k]; Bytes rgb = rnd(n * 3, k + mode * 5), al = rnd(n, k + 50); if (mode == 1 || mode == 2) for (int i = 0; i < n; i++) for (int c = 0; c < 3; c++) rgb[i * 3 + c] = rgb[(mode == 1 ? i / 7 * 7 : i % 11 < 6 ? i / 11 * 11 : i) * 3 + c];
            W d; if (mode == 3 && k < 3) for (int i = 0; i < n; i++) d.u8(0).u8(rgb[i * 3]).u8(rgb[i * 3 + 1]).u8(rgb[i * 3 + 2]); else { if (k == 3) d.z(4); for (int c = 0; c < 3; c++) for (int i = 0; i < n;) { int r = 1; while (i + r < n && r < 130 && rgb[(i + r) * 3 + c] == rgb[i * 3 + c]) r++; if (r >= 3) { d.u8(r + 125).u8(rgb[i * 3 + c]); i += r; continue; } int l = 1; while (i + l < n && l < (mode ? 128 : 1 + (i + c) % 128) && !(i + l + 2 < n && rgb[(i + l) * 3 + c] == rgb[(i + l + 1) * 3 + c] && rgb[(i + l) * 3 + c] == rgb[(i + l + 2) * 3 + c])) l++; d.u8(l - 1); for (int j = 0; j < l; j++) d.u8(rgb[(i + j) * 3 + c]); i += l; } }
            W m; m.s(MK[k]).be32(8 + n).raw(al); if (mask == 2) body.raw(m.b); body.s(RGB[k]).be32(8 + d.b.size()).raw(d.b); if (mask == 1) late.raw(m.b); if (k == 1) body.s("ICN#").be32(8 + 20).z(20, 3); Fr q = rgbpic(SZ[k], SZ[k], rgb); if (mask) for (int i = 0; i < n; i++) q.p[i].c[3] = al[i]; frs.push_back(q); }
        W o; o.s("icns").be32(8 + body.b.size() + late.b.size()).raw(body.b).raw(late.b); File f; f.name = mc::sfmt("ICNS sizes %d, mask %d, mode %d", set, mask, mode); f.type = IL_ICNS; f.ext = "icns"; f.b = o.b; f.fr = frs; out(std::move(f)); } }
}
// Maya IFF: tiles. The pictures are symmetrical top to bottom
inline void iffs(const Sink& out, bool more)
{
    for (int w = 1; w <= (more ? 12 : 7); w++) for (int h = 1; h <= 5; h++) for (int c : { 3, 4 }) for (int rle = 0; rle < 3; rle++) for (int ts : { 2, 3, 64 }) for (int extra = 0; extra < 2; extra++) {
        Bytes v = rnd(w * h * c, w + h * 3); if (rle == 2) for (int i = 0; i < w * h; i++) for (int k = 0; k < c; k++) v[i * c + k] = 60 + k + (i % w) / 4; for (int y = 0; y < h / 2; y++) std::copy(v.begin() + y * w * c, v.begin() + (y + 1) * w * c, v.begin() + (h - 1 - y) * w * c);
        W t; int tiles = 0; auto ch = [](W& o, const char* n, const Bytes& d) { o.s(n).be32(d.size()).raw(d).pad(4); }; bool fail = false;
        for (int y = 0; y < h; y += ts) for (int x = 0; x < w; x += ts) { int x2 = std::min(x + ts, w) - 1, y2 = std::min(y + ts, h) - 1, tw = x2 - x + 1, th = y2 - y + 1; W d; d.be16(x).be16(y).be16(x2).be16(y2); size_t head = d.b.size(); auto at = [&](int i, int k) { return v[((y + i / tw) * w + x + i % tw) * c + k]; };
            if (!rle) for (int i = 0; i < tw * th; i++) for (int k = c - 1; k >= 0; k--) d.u8(at(i, k)); else { for (int k = c - 1; k >= 0; k--) for (int i = 0; i < tw * th;) { int r = 1; while (i + r < tw * th && r < 128 && at(i + r, k) == at(i, k)) r++; if (r > 2) { d.u8(0x80 | (r - 1)).u8(at(i, k)); i += r; continue; } int l = 1; while (i + l < tw * th && l < 128 && !(i + l + 2 < tw * th && at(i + l, k) == at(i + l + 1, k) && at(i + l, k) == at(i + l + 2, k))) l++; d.u8(l - 1); for (int j = 0; j < l; j++) d.u8(at(i + j, k)); i += l; } if (d.b.size() - head >= (size_t)tw * th * c) fail = true; } ch(t, "RGBA", d.b); tiles++; }
        if (fail) continue; if (rle == 1) continue; W th; th.be32(w).be32(h).be16(1).be16(1).be32(c == 4 ? 3 : 1).be16(0).be16(tiles).be32(rle ? 1 : 0).be32(0).be32(0); W o, body; body.s("CIMG"); if (extra) { Bytes a = { 'm', 'e', '!' }; ch(body, "AUTH", a); } ch(body, "TBHD", th.b); if (extra) { W b; b.s("BLUR").z(8); body.s("FOR4").be32(b.b.size()).raw(b.b); } body.s("FOR4").be32(t.b.size() + 4).s("TBMP").raw(t.b); o.s("FOR4").be32(body.b.size()).raw(body.b);
        Fr q = pic(w, h); for (int i = 0; i < w * h; i++) q.p[i] = px(v[i * c], v[i * c + 1], v[i * c + 2], c == 4 ? v[i * c + 3] : 255); File f; f.name = mc::sfmt("IFF %dx%d, %d channels, rle %d, tiles of %d, extra %d", w, h, c, rle, ts, extra); f.type = IL_IFF; f.ext = "iff"; f.b = o.b; f.sig = false; f.fr = { q }; out(std::move(f)); }
}
// Paint Shop Pro
inline Bytes pspblk(int ver, int id, const Bytes& d) { W o; o.s("~BK").u8(0).u16(id); if (ver == 3) o.u32(d.size()); o.u32(d.size()).raw(d); return o.b; }
inline Bytes psprle(const Bytes& d, int mode) { W o; size_t i = 0; while (i < d.size()) { size_t k = 1; while (mode && i + k < d.size() && k < 127 && d[i + k] == d[i]) k++; if (k > 2 || mode == 2) { o.u8(128 + k).u8(d[i]); i += k; continue; } size_t n = 0; while (i + n < d.size() && n < 128 && !(mode == 1 && i + n + 2 < d.size() && d[i + n] == d[i + n + 1] && d[i + n] == d[i + n + 2])) n++; o.u8(n); for (size_t j = 0; j < n; j++) o.u8(d[i + j]); i += n; } return o.b; }
inline void psps(const Sink& out, bool more)
{
    static const int S[][2] = { { 1, 1 }, { 3, 2 }, { 5, 7 }, { 17, 3 }, { 128, 1 }, { 129, 2 }, { 2, 150 } };
    for (int ver = 3; ver <= 5; ver++) for (int kind = 0; kind < 5; kind++) for (auto& sz : S) for (int rle = 0; rle < 4; rle++) for (int extra = 0; extra < 2; extra++) { if (!more && extra && sz[0] > 17) continue;
        int w = sz[0], h = sz[1], ch = kind < 2 ? 1 : kind == 3 ? 4 : 3, cols = 19; Bytes pal = rnd(cols * 3, 3); std::vector<Bytes> c; for (int i = 0; i < ch + (kind == 4); i++) { Bytes v = rnd(w * h, i * 7 + w + kind); if (kind == 0) for (auto& q : v) q %= cols; if (rle > 1) for (size_t j = 0; j < v.size(); j++) v[j] = v[j / 5 * 5]; if (rle == 3) for (size_t j = 0; j < v.size(); j++) v[j] = v[j / 200 * 200]; c.push_back(v); }
        auto chan = [&](const Bytes& v, int bt, int ct) { Bytes z = rle ? psprle(v, rle == 1 ? 0 : rle - 1) : v; W o; if (ver > 3) o.u32(16); o.u32(z.size()).u32(v.size()).u16(bt).u16(ct).raw(z); return pspblk(ver, 5, o.b); };
        auto rect = [&](W& o) { o.u32(0).u32(0).u32(w).u32(h); };
        W o; o.s("Paint Shop Pro Image File\n").u8(0x1a).z(5).u16(ver).u16(0); { W a; a.u32(w).u32(h).z(6).u16(0x4052).u8(1).u16(rle ? 1 : 0).u16(kind < 2 ? 8 : 24).u16(1).u32(kind < 2 ? 256 : 1 << 24).u8(kind == 1).u32(w * h * ch).u32(0).u16(1); if (ver > 3) { a.u32(1); if (extra) a.u32(77); W b; b.u32(a.b.size() + 4).raw(a.b); a = b; } o.raw(pspblk(ver, 0, a.b)); }
        if (extra) { W t; t.s("~FL").u8(0).u16(0).u32(5).s("title"); o.raw(pspblk(ver, 1, t.b)); }
        if (kind == 0) { W t; if (ver > 3) t.u32(extra ? 12 : 8); t.u32(cols); if (ver > 3 && extra) t.u32(9); t.raw(bgr4(pal)); o.raw(pspblk(ver, 2, t.b)); }
        W info; info.u8(0); rect(info); rect(info); info.u8(255).u8(0).u8(1).u8(0).u8(0); rect(info); rect(info); info.u8(0).u8(0).u8(0).u16(0).z(40); W lay; if (ver == 3) lay.str("Background", 256).raw(info.b).u16(1).u16(ch); else { lay.u32(4 + 2 + 10 + info.b.size() + (extra ? 6 : 0)).u16(10).s("Background").raw(info.b); if (extra) lay.z(6); lay.u32(extra ? 11 : 8).u16(1).u16(ch); if (extra) lay.z(3); }
        for (int i = 0; i < ch; i++) lay.raw(chan(c[i], i == 3 ? 1 : 0, kind < 2 ? 0 : i < 3 ? i + 1 : 0)); W bank; bank.raw(pspblk(ver, 4, lay.b)); o.raw(pspblk(ver, 3, bank.b));
        if (kind == 4) { W t; if (ver > 3) t.u32(6); t.u16(1); W q; if (ver == 3) { q.str("Alpha", 256); rect(q); rect(q); q.u16(1).u16(1); } else { q.u32(4 + 2 + 5 + 32).u16(5).s("Alpha"); rect(q); rect(q); q.u32(8).u16(1).u16(1); } q.raw(chan(c[3], 4, 0)); t.raw(pspblk(ver, 8, q.b)); o.raw(pspblk(ver, 7, t.b)); }
        File f; f.name = mc::sfmt("PSP %d kind %d, %dx%d, compression %d, extras %d", ver, kind, w, h, rle, extra); f.type = IL_PSP; f.ext = "psp"; f.b = o.b; Fr fr = pic(w, h); for (int i = 0; i < w * h; i++) fr.p[i] = kind == 0 ? px(pal[c[0][i] * 3], pal[c[0][i] * 3 + 1], pal[c[0][i] * 3 + 2]) : kind == 1 ? px(c[0][i], c[0][i], c[0][i]) : px(c[0][i], c[1][i], c[2][i], kind > 2 ? c[3][i] : 255); f.fr = { fr }; out(std::move(f)); }
}
// Unreal texture packages
inline void utxint(W& o, int v) { unsigned a = v < 0 ? -v : v; int b = (v < 0 ? 0x80 : 0) | (a & 63); a >>= 6; o.u8(b | (a ? 0x40 : 0)); while (a) { o.u8((a & 127) | (a >> 7 ? 0x80 : 0)); a >>= 7; } }
inline void utxs(const Sink& out, bool more)
{
    struct T { int w, h, dxt; }; static const std::vector<std::vector<T>> C = { { { 4, 4, 0 } }, { { 4, 4, 1 } }, { { 1, 1, 0 } }, { { 8, 2, 0 }, { 16, 8, 1 } }, { { 16, 4, 1 }, { 2, 2, 0 }, { 3, 5, 0 } }, { { 1, 1, 1 }, { 2, 1, 1 }, { 6, 5, 1 } } };
    for (int ver : { 63, 64, 68, 69 }) for (size_t ci = 0; ci < C.size(); ci++) for (int order = 0; order < 3; order++) for (int filler : { 0, 70 }) for (int props = 0; props < 4; props++) { if (!more && filler && props > 1) continue; auto& c = C[ci];
        std::vector<std::string> names = { "None" }; for (int i = 0; i < filler; i++) names.push_back(mc::sfmt("filler%d", i)); auto nm = [&](const char* s) { for (size_t i = 0; i < names.size(); i++) if (names[i] == s) return (int)i; names.push_back(s); return (int)names.size() - 1; };
        for (const char* s : { "Core", "Engine", "Class", "Package", "Palette", "Texture", "USize", "VSize", "Format", "bMasked", "MipZero", "Color", "UBits", "Diffuse", "Tex" }) nm(s); bool pals = false; for (auto& t : c) pals |= !t.dxt;
        struct Ob { int cls; Bytes b; }; std::vector<Ob> obs; Bytes pal[2]; std::vector<int> palat; auto addpal = [&](int k) { pal[k] = rnd(256 * 4, k + 3); W o; utxint(o, 0); utxint(o, 256); o.raw(pal[k]); palat[k] = obs.size(); obs.push_back({ 2, o.b }); };
        palat = { -1, -1 }; if (order == 2) obs.push_back({ 4, { 0 } }); if (order != 1 && pals) { addpal(0); addpal(1); } int ntex = c.size(); if (order == 1) palat = { ntex, ntex + 1 };
        std::vector<Fr> fr; for (size_t ti = 0; ti < c.size(); ti++) { auto& t = c[ti]; W o; int pi = (int)(ti + 1) % 2; auto prop = [&](const char* n, int info) { utxint(o, nm(n)); o.u8(info); };
            if (props & 1) { prop("bMasked", 0xD3); o.u8(0); prop("MipZero", 0x2A); utxint(o, nm("Color")); o.u32(0x11223344); prop("UBits", 1); o.u8(4); prop("Diffuse", 0x24); o.f32(0.5f); }
            if (!t.dxt && props != 2) { prop("Palette", 5); utxint(o, palat[pi] + 1); } if (t.dxt || (props & 1)) { prop("Format", 1); o.u8(t.dxt ? 3 : 0); } prop("USize", 0x22); o.u32(t.w); if (props == 3) { prop("USize", 0xA2); o.u8(1).u32(99); } prop("VSize", 0x22); o.u32(t.h); if (!t.dxt && props == 2) { prop("Palette", 5); utxint(o, palat[pi] + 1); } utxint(o, 0);
            o.u8(1).u32(0); Fr f; Bytes d; if (t.dxt) f = dxtlevel(t.w, t.h, 1, t.w + ti, d); else { d = rnd(t.w * t.h, ti + 8); f = pic(t.w, t.h); Bytes p = rnd(256 * 4, pi + 3); for (int i = 0; i < t.w * t.h; i++) f.p[i] = px(p[d[i] * 4], p[d[i] * 4 + 1], p[d[i] * 4 + 2], p[d[i] * 4 + 3]); } utxint(o, d.size()); o.raw(d).u32(t.w).u32(t.h).u8(2).u8(2); obs.push_back({ 3, o.b }); fr.push_back(f); }
        if (order == 1 && pals) { addpal(0); addpal(1); }
        W o; o.u32(0x9E2A83C1).u16(ver).u16(0).u32(1).u32(names.size()).u32(0).u32(obs.size()).u32(0).u32(4).u32(0); std::vector<int> offs; for (auto& q : obs) { offs.push_back(o.b.size()); o.raw(q.b); }
        uint32_t no = o.b.size(); for (auto& n : names) { if (ver >= 64) o.u8(n.size() + 1); o.s(n).u8(0).u32(0x70010); } uint32_t io = o.b.size(); static const char* CN[] = { "Core", "Palette", "Texture", "Package" }; for (auto n : CN) { utxint(o, nm("Core")); utxint(o, nm(!strcmp(n, "Core") ? "Package" : "Class")); o.u32(!strcmp(n, "Core") ? 0 : -1); utxint(o, nm(n)); }
        uint32_t eo = o.b.size(); for (size_t i = 0; i < obs.size(); i++) { utxint(o, -obs[i].cls); utxint(o, 0); o.u32(0); utxint(o, nm("Tex")); o.u32(0xF0004); utxint(o, obs[i].b.size()); utxint(o, offs[i]); } o.at32(16, no).at32(24, eo).at32(32, io);
        File f; f.name = mc::sfmt("UTX version %d textures %zu order %d filler %d properties %d", ver, ci, order, filler, props); f.type = IL_UTX; f.ext = "utx"; f.b = o.b; f.fr = fr; f.tol = 1.5; f.sig = false; out(std::move(f)); }
}
// MNG files holding one picture (without text chunks: damaged ones overrun a buffer inside libmng 2.0)
inline void mngs(const Sink& out, bool more)
{
    pngs([&](File&& g) { if (g.name.find("interlace 1") != std::string::npos) return; if (g.name.find("filter 0") == std::string::npos && g.name.find("filter 4") == std::string::npos && !more) return; W o; o.u8(0x8A).s("MNG\r\n\x1a\n"); W h; h.be32(g.fr[0].w).be32(g.fr[0].h).be32(0).be32(0).be32(0).be32(0).be32(0); chunk(o, "MHDR", h.b); for (size_t p = 8; p < g.b.size();) { size_t n = 12 + (g.b[p] << 24 | g.b[p + 1] << 16 | g.b[p + 2] << 8 | g.b[p + 3]); if (memcmp(&g.b[p + 4], "tEXt", 4)) o.raw(Bytes(g.b.begin() + p, g.b.begin() + p + n)); p += n; } chunk(o, "MEND", {}); File f = g; f.name = "M" + g.name.substr(1); f.type = IL_MNG; f.ext = "mng"; f.b = o.b; f.sig = false; f.tol = 1; for (auto& q : f.fr[0].p) if (q.c[3] == 0) q = px(0, 0, 0, 0); out(std::move(f)); }, false);
}
} // namespace files
