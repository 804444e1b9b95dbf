// C21: block compression: sizes, the decoder against the definition of each block format, the encoder on blocks it can represent, retained data.
#include "saves.h"
#include "files.h"
using namespace mc; using namespace ilx; using namespace files;
static const ILenum ENC[] = { IL_DXT1, IL_DXT1A, IL_DXT3, IL_DXT5, IL_3DC, IL_RXGB, IL_ATI1N }; static const char* EN[] = { "DXT1", "DXT1A", "DXT3", "DXT5", "3Dc", "RXGB", "ATI1N" };
static int bsz(ILenum f) { return f == IL_DXT1 || f == IL_DXT1A || f == IL_ATI1N ? 8 : 16; }
static size_t want(ILenum f, int w, int h, int d) { return (size_t)((w + 3) / 4) * ((h + 3) / 4) * d * bsz(f); }
static Bytes kept(ILenum f, size_t n) { Bytes b(n); size_t r = ilGetDXTCData(b.data(), n, f); b.resize(r); return b; }
static ILuint nm; static void boot() { ilShutDown(); init(); ilGenImages(1, &nm); ilBindImage(nm); drain(); }
// ---- sizes, and the caller's buffer
SUITE(sizes)
{
    int N = thorough ? 13 : 9; batch("size", (uint64_t)N * N * 2 * 7 * 2, [N](uint64_t q) { int sq = q % 2; q /= 2; int e = q % 7; q /= 7; int d = q % 2 + 1; q /= 2; int w = q % N + 1, h = q / N + 1; note("%s %dx%dx%d squish %d", EN[e], w, h, d, sq); boot(); if (sq) ilEnable(IL_SQUISH_COMPRESS); else ilDisable(IL_SQUISH_COMPRESS);
        mk(w, h, d, IL_RGBA, IL_UNSIGNED_BYTE, pattern(w * h * d * 4, 3).data(), IL_ORIGIN_UPPER_LEFT); Img a = snap(); size_t n = want(ENC[e], w, h, d), g = ilGetDXTCData(0, 0, ENC[e]); eval(4); if (g != n) { fail("reports %zu bytes, the format needs %zu", g, n); return; }
        Bytes first; for (size_t have : { n, n + 7, n - 1, n / 2, (size_t)1, (size_t)0 }) { uint8_t* p = (uint8_t*)malloc(have ? have : 1); memset(p, 0xA5, have ? have : 1); size_t r = ilGetDXTCData(p, have, ENC[e]); Bytes b(p, p + (r < have ? r : have)); bool tail = true; for (size_t i = r; i < have; i++) if (p[i] != 0xA5) tail = false; free(p); transition(); if (have >= n) { if (r != n || ilGetError()) { fail("wrote %zu of %zu bytes into %zu", r, n, have); return; } if (!tail) { fail("wrote beyond the data"); return; } if (first.empty()) first = b; else if (b != first) { fail("another result in a larger buffer"); return; } } else if (r) { fail("claims %zu bytes in a buffer of %zu", r, have); return; } drain(); if (snap() != a) { fail("the image changed"); return; } }
        // the same through the other entry points
        if (!ilSurfaceToDxtcData(ENC[e])) { fail("ilSurfaceToDxtcData: %s", ename(firsterr()).c_str()); return; } if ((size_t)ilGetInteger(IL_DXTC_DATA_FORMAT) != ENC[e]) fail("IL_DXTC_DATA_FORMAT is %x", ilGetInteger(IL_DXTC_DATA_FORMAT)); if (kept(ENC[e], n) != first) fail("ilSurfaceToDxtcData: other data");
        // retained data is returned unmodified, even if it is not what the pixels say
        Bytes mine = pattern(n, 77); if (!ilTexImageDxtc(w, h, d, ENC[e], mine.data()) || kept(ENC[e], n) != mine) fail("retained data is not returned as it is"); drain(); Bytes px = pattern(w * h * d * 4, 3); ilSetPixels(0, 0, 0, w, h, d, IL_RGBA, IL_UNSIGNED_BYTE, px.data()); drain();
        if (!ilSurfaceToDxtcData(ENC[e])) fail("ilSurfaceToDxtcData again");
        if (e < 4) { ILuint z = 0; Bytes src = pattern(w * h * d * 4, 3); uint8_t* c = ilCompressDXT(src.data(), w, h, d, ENC[e], &z); if (!c || z != n || memcmp(c, first.data(), n)) fail("ilCompressDXT: %s", !c ? "refused" : z != n ? "size" : "other data"); free(c); }
        outcome(fnv(first.data(), first.size())); });
    // every format and type of image can be compressed, at every size, with the same result as its RGBA conversion
    batch("kinds", saves::KN.size() * 7 * 2 * 2, [](uint64_t q) { int sq = q % 2; q /= 2; int org = q % 2; q /= 2; int e = q % 7; q /= 7; auto& k = saves::KN[q]; note("%s %s squish %d", EN[e], saves::kname(k).c_str(), sq); boot(); if (sq) ilEnable(IL_SQUISH_COMPRESS); else ilDisable(IL_SQUISH_COMPRESS); for (int s = 0; s < 3; s++) { int w = 5 + s, h = 6 - s; if (!saves::make(k, w, h, org)) return; Img a = snap(); size_t n = want(ENC[e], w, h, 1); Bytes x(n), y(n); drain(); if (ilGetDXTCData(x.data(), n, ENC[e]) != n) { fail("not compressed: %s", ename(firsterr()).c_str()); return; } eval(2); if (snap() != a) { fail("the image changed: %s", snap().diff(a).c_str()); return; } drain(); if (!ilConvertImage(e == 6 ? IL_LUMINANCE : IL_RGBA, IL_UNSIGNED_BYTE)) return; if (ilGetDXTCData(y.data(), n, ENC[e]) != n || x != y) { fail("not the result its conversion has"); return; } } });
}
// ---- the decoder
struct Fmt { const char* cc; int bs; int kind; };   // kind: 0 DXT1, 2..5 DXT2-5, 6 ATI1, 7 ATI2, 8 RXGB
static const Fmt FD[] = { { "DXT1", 8, 0 }, { "DXT2", 16, 2 }, { "DXT3", 16, 3 }, { "DXT4", 16, 4 }, { "DXT5", 16, 5 }, { "ATI1", 8, 6 }, { "ATI2", 16, 7 }, { "RXGB", 16, 8 } };
static const unsigned COL[] = { 0x0000, 0xFFFF, 0xF800, 0x07E0, 0x001F, 0x1234, 0x8410, 0xFFDF };
static const uint8_t AE[][2] = { { 0, 255 }, { 255, 0 }, { 10, 10 }, { 200, 20 }, { 20, 200 }, { 255, 255 }, { 1, 0 }, { 0, 0 } };
// color block c0,c1 and a selector rotation; alpha block
static void cblock(W& o, int i, int j, int rot) { o.u16(COL[i]).u16(COL[j]); uint32_t m = 0; for (int k = 0; k < 16; k++) m |= (uint32_t)((k + k / 4 * (rot / 4) + rot) & 3) << 2 * k; o.u32(m); }
static void ablock5(W& o, int e, int rot) { o.u8(AE[e][0]).u8(AE[e][1]); uint64_t m = 0; for (int k = 0; k < 16; k++) m |= (uint64_t)((k + rot) & 7) << 3 * k; for (int k = 0; k < 6; k++) o.u8(m >> 8 * k & 255); }
static void block(W& o, int kind, int i, int j, int rot) { switch (kind) { case 0: cblock(o, i, j, rot); break; case 2: case 3: for (int k = 0; k < 8; k++) o.u8((uint8_t)(k * 0x37 + rot * 0x1D + i * 13)); cblock(o, i, j, rot); break; case 4: case 5: case 8: ablock5(o, (i + j) % 8, rot); cblock(o, i, j, rot); break; case 6: ablock5(o, (i + 3 * j) % 8, rot); break; case 7: ablock5(o, i, rot); ablock5(o, j, rot + 3); break; } }
// decode one block: 16 x RGBA with a range of admissible values [lo,hi]
static void dec(int kind, const uint8_t* p, double lo[16][4], double hi[16][4], int& nch)
{
    double c[16][4], a[16], b[16]; nch = 4; double slack = 1.01;
    if (kind == 0) dxcolor(p, true, c); else if (kind == 2 || kind == 3) { dxcolor(p + 8, false, c); for (int k = 0; k < 16; k++) c[k][3] = 17 * (p[k / 2] >> 4 * (k & 1) & 15); } else if (kind == 4 || kind == 5) { dxcolor(p + 8, false, c); dxalpha(p, a); for (int k = 0; k < 16; k++) c[k][3] = a[k]; }
    else if (kind == 8) { dxcolor(p + 8, false, c); dxalpha(p, a); nch = 3; for (int k = 0; k < 16; k++) c[k][0] = a[k]; } else if (kind == 6) { nch = 1; dxalpha(p, a); for (int k = 0; k < 16; k++) c[k][0] = a[k]; } else { nch = 3; dxalpha(p, a); dxalpha(p + 8, b); for (int k = 0; k < 16; k++) { c[k][1] = a[k]; c[k][0] = b[k]; c[k][2] = 0; } }
    for (int k = 0; k < 16; k++) for (int i = 0; i < 4; i++) { lo[k][i] = c[k][i] - slack; hi[k][i] = c[k][i] + slack; }
    for (int k = 0; k < 16; k++) { if (kind == 2 || kind == 4) { double al = c[k][3]; for (int i = 0; i < 3; i++) { if (al < 1) { lo[k][i] = -1; hi[k][i] = 256; } else { double v0 = (c[k][i] - 1.01) * 255 / (al + 1), v1 = (c[k][i] + 1.01) * 255 / (al > 1.5 ? al - 1 : 1); if (v0 > 255) v0 = 255; lo[k][i] = v0 - 1; hi[k][i] = v1 + 1; } } }
        if (kind == 7) { double x = c[k][0] - 127.5, y = c[k][1] - 127.5, t = 127.5 * 127.5 - x * x - y * y, z = t > 0 ? sqrt(t) + 127.5 : 127.5; lo[k][2] = z - (z < 160 ? 24 : 4); hi[k][2] = z + (z < 160 ? 24 : 4); } 
        if (kind == 0 && c[k][3] == 0) for (int i = 0; i < 3; i++) { lo[k][i] = -0.01; hi[k][i] = 0.01; } }
}
static bool compare(const char* what, const Img& g, int kind, int w, int h, int d, const uint8_t* p, int bs) { int nch; eval(); if (g.w != w || g.h != h || g.d != d) return fail("%s: %s", what, g.desc().c_str()); if (g.origin != IL_ORIGIN_UPPER_LEFT || g.type != IL_UNSIGNED_BYTE) return fail("%s: %s", what, g.desc().c_str()); for (int z = 0; z < d; z++) for (int by = 0; by < (h + 3) / 4; by++) for (int bx = 0; bx < (w + 3) / 4; bx++) { double lo[16][4], hi[16][4]; dec(kind, p, lo, hi, nch); if (g.bpp != nch) return fail("%s: %d channels", what, g.bpp); for (int k = 0; k < 16; k++) { int x = bx * 4 + k % 4, y = by * 4 + k / 4; if (x >= w || y >= h) continue; const uint8_t* v = g.at(x, y, z); for (int c = 0; c < nch; c++) if (v[c] < lo[k][c] || v[c] > hi[k][c]) return fail("%s: block %d,%d,%d pixel %d channel %d: %d, the format gives %.1f to %.1f (block %s)", what, bx, by, z, k, c, v[c], lo[k][c], hi[k][c], hex(p, bs).c_str()); } p += bs; } return true; }
static bool loaddds(const Bytes& b) { if (!ilLoadL(IL_DDS, b.data(), b.size())) return fail("refused: %s", ename(firsterr()).c_str()); return true; }
SUITE(decode)
{
    // every pair of end points, every index at every position
    batch("blocks", 8 * 8 * 8, [](uint64_t q) { const Fmt& f = FD[q % 8]; int i = q / 8 % 8, j = q / 64; note("%s end points %d %d", f.cc, i, j); boot(); W pay; for (int r = 0; r < 8; r++) block(pay, f.kind, i, j, r); if (!loaddds(dds({ 16, 8, 1, 0, cc(f.cc) }, pay.b))) return; Img g = snap(); compare("16x8", g, f.kind, 16, 8, 1, pay.b.data(), f.bs); outcome(g.hash()); });
    // ragged sizes, volumes, size fields that say something else, kept data
    int N = thorough ? 13 : 9; batch("ragged", 8 * (uint64_t)N * N * 2 * 3, [N](uint64_t q) { const Fmt& f = FD[q % 8]; q /= 8; int lin = q % 3; q /= 3; int d = q % 2 + 1; q /= 2; int w = q % N + 1, h = q / N + 1; note("%s %dx%dx%d size field %d", f.cc, w, h, d, lin); boot(); W pay; int nb = ((w + 3) / 4) * ((h + 3) / 4) * d; for (int b = 0; b < nb; b++) block(pay, f.kind, b % 8, (b * 3 + 1) % 8, b); if (!loaddds(dds({ w, h, d, 0, cc(f.cc), 0, 0, 0, 0, 0, 0, 0, lin == 0 ? 0u : lin == 1 ? (uint32_t)pay.b.size() : 1u }, pay.b))) return; if (!compare("plain", snap(), f.kind, w, h, d, pay.b.data(), f.bs)) return;
        ilSetInteger(IL_KEEP_DXTC_DATA, IL_TRUE); if (!loaddds(dds({ w, h, d, 0, cc(f.cc) }, pay.b))) return; static const ILenum KF[] = { IL_DXT1, IL_DXT2, IL_DXT3, IL_DXT4, IL_DXT5, 0, 0, IL_RXGB }; ILenum kf = KF[&f - FD]; eval(); if (kf) { if ((ILenum)ilGetInteger(IL_DXTC_DATA_FORMAT) != kf) { fail("kept as %x", ilGetInteger(IL_DXTC_DATA_FORMAT)); return; } if (kf != IL_DXT2 && kf != IL_DXT4) { Bytes o(pay.b.size()); if (ilGetDXTCData(o.data(), o.size(), kf) != o.size() || o != pay.b) fail("ilGetDXTCData does not return the kept data"); } }
        if (kf == IL_DXT1 || kf == IL_DXT3 || kf == IL_DXT5) { Img a = snap(); drain(); Bytes zero(a.size); memcpy(ilGetData(), zero.data(), a.size); if (!ilDxtcDataToSurface()) { fail("ilDxtcDataToSurface"); return; } Img b = snap(); drain(); if (a.data != b.data) fail("ilDxtcDataToSurface gives another image"); if (!ilTexImageDxtc(w, h, d, kf, pay.b.data()) || !ilDxtcDataToImage()) { fail("ilTexImageDxtc: %s", ename(firsterr()).c_str()); return; } compare("ilTexImageDxtc", snap(), f.kind, w, h, d, pay.b.data(), f.bs); } drain(); });
    // mipmaps and cube maps
    batch("chains", 8 * 25 * 2, [](uint64_t q) { const Fmt& f = FD[q % 8]; q /= 8; bool cube = q % 2; q /= 2; int W_[] = { 8, 7, 4, 1, 16 }; int w = W_[q % 5], h = cube ? w : W_[q / 5]; note("%s %dx%d%s mipmaps", f.cc, w, h, cube ? " cube" : ""); boot(); int L = 1; for (int a = w, b = h; a > 1 || b > 1; L++) { a = a > 1 ? a / 2 : 1; b = b > 1 ? b / 2 : 1; } W pay; std::vector<size_t> off; int n = 0; for (int fc = 0; fc < (cube ? 6 : 1); fc++) for (int l = 0; l < L; l++) { int a = w >> l ? w >> l : 1, b = h >> l ? h >> l : 1; off.push_back(pay.b.size()); for (int k = 0; k < ((a + 3) / 4) * ((b + 3) / 4); k++, n++) block(pay, f.kind, n % 8, (n * 5 + 1) % 8, n); }
        if (!loaddds(dds({ w, h, 1, L, cc(f.cc), 0, 0, 0, 0, 0, 0, cube ? 0xFE00u : 0u }, pay.b))) return; Tree t = snaptree(nm); if ((int)t.faces.size() != (cube ? 5 : 0)) { fail("%zu faces", t.faces.size()); return; } for (int fc = 0; fc < (cube ? 6 : 1); fc++) { const Tree& u = fc ? t.faces[fc - 1] : t; if ((int)u.mips.size() != L - 1) { fail("face %d: %zu mipmaps of %d", fc, u.mips.size(), L - 1); return; } if (cube && u.img.cube != 0x400 << fc) fail("face %d: flag %x", fc, u.img.cube); for (int l = 0; l < L; l++) if (!compare(sfmt("face %d level %d", fc, l).c_str(), l ? u.mips[l - 1].img : u.img, f.kind, w >> l ? w >> l : 1, h >> l ? h >> l : 1, 1, &pay.b[off[fc * L + l]], f.bs)) return; }
        // cut anywhere in the chain: refused or a shorter one, nothing else
        if (cube) { bool ok; drain(); ilBindImage(nm); Bytes s = saveL(IL_DDS, &ok); if (!ok) { fail("a cube map cannot be saved: %s", ename(firsterr()).c_str()); return; } if (!ilLoadL(IL_DDS, s.data(), s.size())) { fail("the saved cube map cannot be loaded"); return; } Tree v = snaptree(nm); if (v.faces.size() != 5) { fail("a saved cube map has %zu faces", v.faces.size()); return; } for (int fc = 0; fc < 6; fc++) { const Tree& x = fc ? v.faces[fc - 1] : v; if (x.mips.size() != (size_t)L - 1 || x.img.cube != 0x400 << fc) { fail("saved cube map: face %d: %zu mipmaps, flag %x", fc, x.mips.size(), x.img.cube); return; } } } });
}
// ---- the encoder on blocks of at most two representable colours
SUITE(encode)
{
    batch("two colours", 7 * 8 * 8 * 2, [](uint64_t q) { int sq = q % 2; q /= 2; int e = q % 7; q /= 7; int i = q % 8, j = q / 8; note("%s colours %d %d squish %d", EN[e], i, j, sq); boot(); if (sq) ilEnable(IL_SQUISH_COMPRESS); else ilDisable(IL_SQUISH_COMPRESS); ILenum fm = ENC[e]; double a[3], b[3]; c565(COL[i], a); c565(COL[j], b);
        for (int pat = 0; pat < 5; pat++) for (int size = 0; size < 3; size++) { int w = size == 0 ? 4 : size == 1 ? 7 : 5, h = size == 0 ? 4 : size == 1 ? 6 : 9; Bytes px(w * h * 4); static const uint8_t AL[][2] = { { 255, 255 }, { 0, 255 }, { 255, 0 }, { 0x33, 0xCC }, { 0x88, 0x88 } }; int al = (i + j + pat) % 5; for (int k = 0; k < w * h; k++) { int x = k % w, y = k / w; bool s = pat == 0 ? (x + y) & 1 : pat == 1 ? x & 2 : pat == 2 ? (y % 4) == 3 : pat == 3 ? (x * 7 + y * 5) % 3 == 0 : false; for (int c = 0; c < 3; c++) px[k * 4 + c] = (uint8_t)(s ? b[c] : a[c]); px[k * 4 + 3] = fm == IL_DXT1 || fm == IL_3DC || fm == IL_RXGB ? 255 : fm == IL_DXT1A ? (AL[al][s] < 128 ? 0 : 255) : AL[al][s]; if (fm == IL_ATI1N) { px[k * 4 + 1] = px[k * 4 + 2] = px[k * 4]; px[k * 4 + 3] = 255; } }
            ilSetInteger(IL_DXTC_FORMAT, fm); mk(w, h, 1, IL_RGBA, IL_UNSIGNED_BYTE, px.data(), IL_ORIGIN_UPPER_LEFT); bool ok; Bytes f = saveL(IL_DDS, &ok); if (!ok || !ilLoadL(IL_DDS, f.data(), f.size())) { fail("not saved or loaded: %s", ename(firsterr()).c_str()); return; } Img g = snap(); eval(); transition(); if (g.w != w || g.h != h) { fail("%s", g.desc().c_str()); return; } for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { const uint8_t* v = g.at(x, y), *s = &px[(y * w + x) * 4]; int nc = fm == IL_ATI1N ? 1 : fm == IL_3DC ? 2 : fm == IL_RXGB ? 3 : 4; if (nc == 4 && s[3] == 0 && fm == IL_DXT1A) { if (v[3]) { fail("pattern %d %dx%d pixel %d,%d: alpha %d", pat, w, h, x, y, v[3]); return; } continue; } for (int c = 0; c < nc; c++) if (abs(v[c] - s[c]) > (fm == IL_RXGB && c ? 4 : 1)) { fail("pattern %d %dx%d pixel %d,%d channel %d: %d becomes %d", pat, w, h, x, y, c, s[c], v[c]); return; } } } });
    // end points and a colour between them, with and without a transparent pixel: the colour between is shown as one of the interpolated colours
    batch("between", 7 * 8 * 8 * 2 * 2, [](uint64_t q) { int sq = q & 1, tr = q >> 1 & 1; q /= 4; int e = q % 7; q /= 7; int i = q % 8, j = q / 8; ILenum fm = ENC[e]; if (fm == IL_3DC || fm == IL_ATI1N || fm == IL_RXGB) return; if (tr && fm != IL_DXT1A && fm != IL_DXT5) return; double a[3], b[3]; c565(COL[i], a); c565(COL[j], b); double far = 0; for (int c = 0; c < 3; c++) far = std::max(far, fabs(a[c] - b[c])); bool le = true; for (int c = 0; c < 3; c++) if (a[c] > b[c]) le = false; bool ge = true; for (int c = 0; c < 3; c++) if (a[c] < b[c]) ge = false; if (far < 90 || (!le && !ge)) return; note("%s colours %d %d squish %d%s", EN[e], i, j, sq, tr ? " transparent" : ""); boot(); if (sq) ilEnable(IL_SQUISH_COMPRESS); else ilDisable(IL_SQUISH_COMPRESS); bool three = tr && fm == IL_DXT1A;
        for (int step = 1; step < (three ? 2 : 3); step++) for (int at = 0; at < 16; at++) { if (!thorough && (sq ? at != 9 : at % 4 != (i + j) % 4)) continue; double m[3]; for (int c = 0; c < 3; c++) m[c] = three ? (a[c] + b[c]) / 2 : (a[c] * (3 - step) + b[c] * step) / 3; Bytes px(64); for (int k = 0; k < 16; k++) { const double* s = k == at ? m : ((k + at) & 1) ? a : b; for (int c = 0; c < 3; c++) px[k * 4 + c] = (uint8_t)(s[c] + 0.5); px[k * 4 + 3] = tr && k == (at + 5) % 16 ? 0 : 255; } ilSetInteger(IL_DXTC_FORMAT, fm); mk(4, 4, 1, IL_RGBA, IL_UNSIGNED_BYTE, px.data(), IL_ORIGIN_UPPER_LEFT); bool ok; Bytes f = saveL(IL_DDS, &ok); if (!ok || !ilLoadL(IL_DDS, f.data(), f.size())) { fail("not saved or loaded: %s", ename(firsterr()).c_str()); return; } Img g = snap(); transition(); eval(16); for (int k = 0; k < 16; k++) { const uint8_t* v = g.at(k % 4, k / 4), *s = &px[k * 4]; if (v[3] != s[3]) { fail("position %d, pixel %d: alpha %d", at, k, v[3]); return; } if (!s[3]) continue; for (int c = 0; c < 3; c++) if (abs(v[c] - s[c]) > (sq ? 12 : 2)) { fail("position %d, step %d, pixel %d channel %d: %d becomes %d", at, step, k, c, s[c], v[c]); return; } } } });
    // every alpha value
    batch("alpha", 256 * 3 * 2, [](uint64_t q) { int sq = q & 1; q /= 2; int A = q % 256, e = q / 256; ILenum fm = e == 0 ? IL_DXT1A : e == 1 ? IL_DXT3 : IL_DXT5; note("%s alpha %d squish %d", e == 0 ? "DXT1A" : e == 1 ? "DXT3" : "DXT5", A, sq); boot(); if (sq) ilEnable(IL_SQUISH_COMPRESS); else ilDisable(IL_SQUISH_COMPRESS); for (int at = 0; at < 16; at++) for (int rest = 0; rest < 256; rest += 255) { if (!thorough && (sq ? at != A % 16 || (rest && A % 4) : at % 8 != A % 8)) continue; Bytes px(64, 200); for (int k = 0; k < 16; k++) px[k * 4 + 3] = k == at ? A : rest; ilSetInteger(IL_DXTC_FORMAT, fm); mk(4, 4, 1, IL_RGBA, IL_UNSIGNED_BYTE, px.data(), IL_ORIGIN_UPPER_LEFT); bool ok; Bytes f = saveL(IL_DDS, &ok); if (!ok || !ilLoadL(IL_DDS, f.data(), f.size())) { fail("not saved or loaded"); return; } Img g = snap(); transition(); eval(16); for (int k = 0; k < 16; k++) { int v = g.at(k % 4, k / 4)[3], s = px[k * 4 + 3]; bool good = e == 0 ? v == (s < 128 ? 0 : 255) : e == 1 ? (s == 0 || s == 255 ? v == s : abs(v - s) <= 17) : (abs(v - s) <= 1); if (!good) { fail("position %d of rest %d, pixel %d: alpha %d becomes %d", at, rest, k, s, v); return; } } } });
}
// ---- operations on retained blocks
SUITE(blocks)
{
    batch("flip and invert", 8 * 4 * 4 * 2, [](uint64_t q) { const Fmt& f = FD[q % 8]; q /= 8; int d = q % 2 + 1; q /= 2; int w = (q % 4) * 3 + 1, h = (q / 4 + 1) * 4; if (f.kind == 6 || f.kind == 2 || f.kind == 4) return; note("%s %dx%dx%d", f.cc, w, h, d); boot(); W pay; int nb = ((w + 3) / 4) * (h / 4) * d; for (int b = 0; b < nb; b++) block(pay, f.kind, b % 8, (b * 3 + 1) % 8, b); ilSetInteger(IL_KEEP_DXTC_DATA, IL_TRUE); ILenum kf = f.kind == 0 ? IL_DXT1 : f.kind == 7 ? IL_3DC : f.kind == 8 ? IL_RXGB : IL_DXT1 + f.kind - 1; if (!ilTexImageDxtc(w, h, d, kf, pay.b.data())) { fail("ilTexImageDxtc: %s", ename(firsterr()).c_str()); return; }
        auto blocks = [&] { return kept(kf, pay.b.size()); }; auto decode = [&](const Bytes& x) { std::vector<double> v; const uint8_t* p = x.data(); std::vector<double> img(w * h * d * 4); for (int z = 0; z < d; z++) for (int by = 0; by < h / 4; by++) for (int bx = 0; bx < (w + 3) / 4; bx++, p += f.bs) { double lo[16][4], hi[16][4]; int n; dec(f.kind == 2 ? 3 : f.kind == 4 ? 5 : f.kind, p, lo, hi, n); for (int k = 0; k < 16; k++) { int xx = bx * 4 + k % 4, y = by * 4 + k / 4; if (xx < w) for (int c = 0; c < 4; c++) img[((z * h + y) * w + xx) * 4 + c] = c < n ? (lo[k][c] + hi[k][c]) / 2 : 0; } } return img; };
        auto a = decode(blocks()); ilFlipSurfaceDxtcData(); if (ilGetError()) { fail("ilFlipSurfaceDxtcData refused"); return; } auto b = decode(blocks()); eval(2); for (int z = 0; z < d; z++) for (int y = 0; y < h; y++) for (int k = 0; k < w * 4; k++) if (fabs(a[(z * h + y) * w * 4 + k] - b[(z * h + h - 1 - y) * w * 4 + k]) > 0.01) { fail("flipped: plane %d row %d value %d: %.1f, was %.1f", z, y, k, b[(z * h + h - 1 - y) * w * 4 + k], a[(z * h + y) * w * 4 + k]); return; } ilFlipSurfaceDxtcData(); if (blocks() != pay.b) { fail("flipping twice is not the identity"); return; }
        if (kf == IL_DXT3 || kf == IL_DXT5) { if (!ilInvertSurfaceDxtcDataAlpha()) { fail("ilInvertSurfaceDxtcDataAlpha"); return; } auto c = decode(blocks()); for (size_t k = 0; k < a.size(); k++) if (fabs(c[k] - (k % 4 == 3 ? 255 - a[k] : a[k])) > 0.01) { fail("inverted: value %zu: %.1f, was %.1f", k, c[k], a[k]); return; } } else { Bytes k = blocks(); if (ilInvertSurfaceDxtcDataAlpha() || !ilGetError() || blocks() != k) fail("ilInvertSurfaceDxtcDataAlpha of %s", f.cc); }
        drain(); });
}

SUITE(independent)   // each slice is compressed like the slice alone and each whole block like the block alone, in every format, kind of image and origin
{
    struct K { ILenum f, t; }; static const K KD[] = { { IL_RGBA, IL_UNSIGNED_BYTE }, { IL_RGB, IL_UNSIGNED_BYTE }, { IL_BGR, IL_UNSIGNED_BYTE }, { IL_BGRA, IL_UNSIGNED_BYTE }, { IL_LUMINANCE, IL_UNSIGNED_BYTE }, { IL_LUMINANCE_ALPHA, IL_UNSIGNED_BYTE }, { IL_RGBA, IL_UNSIGNED_SHORT }, { IL_RGB, IL_UNSIGNED_INT } };
    static auto comp = [](ILenum fm) { ILuint n = ilGetDXTCData(0, 0, fm); Bytes b(n); if (n && ilGetDXTCData(b.data(), n, fm) != n) b.clear(); return b; };
    batch("slices", 7 * 8 * 2 * 4 * 3, [](uint64_t q) { int e = q % 7; q /= 7; K k = KD[q % 8]; q /= 8; ILenum o = q % 2 ? IL_ORIGIN_LOWER_LEFT : IL_ORIGIN_UPPER_LEFT; q /= 2; int w = (int[]){ 4, 1, 7, 8 }[q % 4], h = (int[]){ 4, 3, 8, 5 }[q % 4], d = 2 + q / 4; note("%s %s %s %dx%dx%d", EN[e], fname(k.f), tname(k.t), w, h, d); boot(); ilDisable(IL_SQUISH_COMPRESS);
        int n = w * h * channels(k.f) * bpc(k.t); Bytes px = pattern(n * d, 11), want; mk(w, h, d, k.f, k.t, px.data(), o); Bytes all = comp(ENC[e]); transition(); for (int z = 0; z < d; z++) { mk(w, h, 1, k.f, k.t, px.data() + z * n, o); Bytes b = comp(ENC[e]); transition(); if (b.empty()) { fail("slice not compressed: %s", ename(firsterr()).c_str()); return; } want.insert(want.end(), b.begin(), b.end()); }
        eval(d); if (all.size() != want.size()) { fail("%zu bytes, %zu slice by slice", all.size(), want.size()); return; } for (size_t i = 0; i < all.size(); i++) if (all[i] != want[i]) { fail("byte %zu of %zu is %d, %d in the slice alone", i, all.size(), all[i], want[i]); return; } outcome(fnv(all.data(), all.size())); });
    batch("blocks alone", 7 * 8 * 2 * 2, [](uint64_t q) { int e = q % 7; q /= 7; K k = KD[q % 8]; q /= 8; ILenum o = q % 2 ? IL_ORIGIN_LOWER_LEFT : IL_ORIGIN_UPPER_LEFT; int sq = q / 2; note("%s %s %s origin %x squish %d", EN[e], fname(k.f), tname(k.t), o, sq); boot(); if (sq) ilEnable(IL_SQUISH_COMPRESS); else ilDisable(IL_SQUISH_COMPRESS);
        const int w = 12, h = 8; int ps = channels(k.f) * bpc(k.t); Bytes px = pattern(w * h * ps, 12); mk(w, h, 1, k.f, k.t, px.data(), o); Bytes all = comp(ENC[e]); transition(); size_t bs = all.size() / 6; for (int by = 0; by < 2; by++) for (int bx = 0; bx < 3; bx++) { Bytes c(16 * ps); for (int y = 0; y < 4; y++) memcpy(&c[y * 4 * ps], &px[((by * 4 + y) * w + bx * 4) * ps], 4 * ps); mk(4, 4, 1, k.f, k.t, c.data(), o); Bytes b = comp(ENC[e]); transition(); eval(); int at = ((o == IL_ORIGIN_LOWER_LEFT ? 1 - by : by) * 3 + bx) * bs; if (b.size() != bs || memcmp(b.data(), &all[at], bs)) { fail("block %d,%d is not compressed like the block alone", bx, by); return; } } outcome(fnv(all.data(), all.size())); });
}
