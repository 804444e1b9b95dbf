// C18: scaling against reference resamplers and the laws of resampling.
#include "conv.h"
using namespace mc; using namespace ilx; using namespace conv;
static const ILenum ORG[2] = { IL_ORIGIN_UPPER_LEFT, IL_ORIGIN_LOWER_LEFT };
static const ILenum PALS[6] = { IL_PAL_RGB24, IL_PAL_RGB32, IL_PAL_RGBA32, IL_PAL_BGR24, IL_PAL_BGR32, IL_PAL_BGRA32 };
static const ILenum FILT[9] = { ILU_NEAREST, ILU_LINEAR, ILU_BILINEAR, ILU_SCALE_BOX, ILU_SCALE_TRIANGLE, ILU_SCALE_BELL, ILU_SCALE_BSPLINE, ILU_SCALE_LANCZOS3, ILU_SCALE_MITCHELL };
static const char* FN[9] = { "nearest", "linear", "bilinear", "box", "triangle", "bell", "bspline", "lanczos", "mitchell" };
struct Kind { ILenum f, t, pal; int cols; };
static std::vector<Kind> kinds()
{
    std::vector<Kind> k; for (ILenum f : FORMATS) if (f != IL_COLOUR_INDEX) for (ILenum t : TYPES) k.push_back({ f, t, 0, 0 });
    for (ILenum p : PALS) k.push_back({ IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, p, 6 }); k.push_back({ IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, IL_PAL_RGB24, 256 }); return k;
}
static const std::vector<Kind> K = kinds();
static const std::vector<Kind> KS = { { IL_LUMINANCE, IL_UNSIGNED_BYTE, 0, 0 }, { IL_RGB, IL_UNSIGNED_BYTE, 0, 0 }, { IL_BGRA, IL_UNSIGNED_SHORT, 0, 0 }, { IL_LUMINANCE_ALPHA, IL_FLOAT, 0, 0 }, { IL_RGBA, IL_INT, 0, 0 }, { IL_ALPHA, IL_DOUBLE, 0, 0 }, { IL_BGR, IL_HALF, 0, 0 }, { IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, IL_PAL_BGR24, 9 } };
static std::string kname(const Kind& k) { return k.pal ? sfmt("indexed palette %x/%d", k.pal, k.cols) : sfmt("%s %s", fname(k.f), tname(k.t)); }
static const uint8_t* mem(const Img& i, int x, int y, int z) { return i.data.data() + (((size_t)z * i.h + y) * i.w + x) * i.bpp * i.bpc; }
// content: 0 pattern, 1 constant, 2 ramp
static bool make(const Kind& k, int w, int h, int d, int org, int content, Img& a, uint32_t salt = 5)
{
    init(); bool ok; int nc = channels(k.f), bp = nc * bpc(k.t);
    if (k.f == IL_COLOUR_INDEX) { Bytes ix = pattern(w * h * d, salt); for (auto& b : ix) b = content ? k.cols - 2 : b % k.cols; ok = mkpal(w, h, k.pal, k.cols, ix.data(), pattern(k.cols * palbpp(k.pal), 31).data(), ORG[org], d); }
    else {
        Bytes p = typed_pattern(w * h * d * nc, k.t, salt); if (content == 1) for (int i = 1; i < w * h * d; i++) memcpy(&p[i * bp], &p[0], bp);
        if (content == 2) for (int z = 0; z < d; z++) for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) for (int c = 0; c < nc; c++) wrsample(&p[(((z * h + y) * w + x) * nc + c) * bpc(k.t)], k.t, isf(k.t) ? (x + 2 * y + z) / 32. : x + 2 * y + z);
        ok = mk(w, h, d, k.f, k.t, p.data(), ORG[org]); }
    if (!ok) { fail("cannot make the image"); return false; } ilSetInteger(IL_IMAGE_DURATION, 77); drain(); a = snap(); return true;
}
static bool shape(const Img& a, const Img& b, int w, int h, int d)
{
    eval(2); w = std::max(w, 1); h = std::max(h, 1); d = std::max(d, 1);
    if (b.w != w || b.h != h || b.d != d) return fail("result is %dx%dx%d, expected %dx%dx%d", b.w, b.h, b.d, w, h, d);
    if (b.format != a.format || b.type != a.type || b.origin != a.origin || b.bpp != a.bpp || b.bpc != a.bpc || b.dur != a.dur) return fail("attributes changed: %s", b.diff(a).c_str());
    if (b.size != w * h * d * a.bpp * a.bpc || (int)b.data.size() != b.size || b.plane != w * h * a.bpp * a.bpc) return fail("data size %d, plane size %d", b.size, b.plane);
    if (b.paltype != a.paltype) return fail("palette type %x became %x", a.paltype, b.paltype); return true;
}
static double sval(const uint8_t* p, ILenum t) { return rdsample(p, t); }
// ---- reference resamplers -------------------------------------------------------------------------
struct Ax { int i, j; double f; }; static Ax axis(int p, int s, int d, bool inter) { Ax a; int64_t q = (int64_t)p * s; a.i = q / d; a.j = std::min(a.i + 1, s - 1); a.f = inter ? (double)(q % d) / d : 0; return a; }
static double interp(const Img& a, int c, Ax X, Ax Y, Ax Z)
{ double r = 0; for (int k = 0; k < 8; k++) { double w = (k & 1 ? X.f : 1 - X.f) * (k & 2 ? Y.f : 1 - Y.f) * (k & 4 ? Z.f : 1 - Z.f); if (w) r += w * sval(mem(a, k & 1 ? X.j : X.i, k & 2 ? Y.j : Y.i, k & 4 ? Z.j : Z.i) + c * a.bpc, a.type); } return r; }
static double sinc(double x) { x *= M_PI; return x ? sin(x) / x : 1; }
static double kern(int f, double t)
{
    double a = std::fabs(t);
    switch (f) {
    case 3: return t > -.5 && t <= .5 ? 1 : 0;
    case 4: return a < 1 ? 1 - a : 0;
    case 5: return a < .5 ? .75 - a * a : a < 1.5 ? .5 * (a - 1.5) * (a - 1.5) : 0;
    case 6: return a < 1 ? a * a * a / 2 - a * a + 2. / 3 : a < 2 ? (2 - a) * (2 - a) * (2 - a) / 6 : 0;
    case 7: return a < 3 ? sinc(a) * sinc(a / 3) : 0;
    default: { double B = 1. / 3, C = 1. / 3; return a < 1 ? ((12 - 9 * B - 6 * C) * a * a * a + (-18 + 12 * B + 6 * C) * a * a + 6 - 2 * B) / 6 : a < 2 ? ((-B - 6 * C) * a * a * a + (6 * B + 30 * C) * a * a + (-12 * B - 48 * C) * a + 8 * B + 24 * C) / 6 : 0; } }
}
static const double SUP[9] = { 0, 0, 0, .5, 1, 1.5, 2, 3, 2 };
static int fold(int i, int n) { int j = i % (2 * n); if (j < 0) j += 2 * n; return j < n ? j : 2 * n - 1 - j; }
// one channel of a u8 picture enlarged (never shrunk) by separable convolution, columns after rows
static std::vector<double> zoom(const std::vector<double>& s, int w, int h, int W, int H, int f, double ex = 0, double ey = 0)
{
    double eps = ex; auto line = [&](std::function<double(int)> get, int n, int N, std::function<void(int, double)> put) { for (int i = 0; i < N; i++) { double c = (double)i * n / N + eps, v = 0; bool same = true; double first = -1; for (int j = (int)std::ceil(c - SUP[f] - 1e-12); j <= (int)std::floor(c + SUP[f] + 1e-12); j++) { double q = get(fold(j, n)); if (first < 0) first = q; if (q != first) same = false; v += q * kern(f, c - j); } if (same) v = first; v = std::floor(v + .5); put(i, std::min(255., std::max(0., v))); } };
    std::vector<double> m(W * h), r(W * H); for (int y = 0; y < h; y++) line([&](int x) { return s[y * w + x]; }, w, W, [&](int x, double v) { m[y * W + x] = v; });
    eps = ey; for (int x = 0; x < W; x++) line([&](int y) { return m[y * W + x]; }, h, H, [&](int y, double v) { r[y * W + x] = v; }); return r;
}
static bool advanced(const Img& a, int f, int W, int H, int D) { return f >= 3 && (a.w < W || a.h < H) && a.type == IL_UNSIGNED_BYTE && a.format != IL_COLOUR_INDEX && a.d <= 1 && D <= 1; }
// compare one result with the reference
static bool refcheck(const Img& a, const Img& b, int f)
{
    int nc = a.bpp, W = b.w, H = b.h, D = b.d;
    if (a.format == IL_COLOUR_INDEX && f != 0) return true;
    if (advanced(a, f, W, H, D)) {
        Img s = a; int sw = a.w > W ? W : a.w, sh = a.w > W ? a.h : std::min(a.h, H);
        for (int c = 0; c < nc; c++) {
            std::vector<double> src(sw * sh); for (int y = 0; y < sh; y++) for (int x = 0; x < sw; x++) src[y * sw + x] = std::floor(interp(a, c, axis(x, a.w, sw, true), axis(y, a.h, sh, true), axis(0, 1, 1, false)) + .5);
            std::vector<double> R[4]; int nr = f == 3 ? 4 : 1; // a box edge that falls on a pixel centre may round either way
            for (int i = 0; i < nr; i++) R[i] = zoom(src, sw, sh, W, H, f, nr == 1 ? 0 : i & 1 ? 1e-9 : -1e-9, nr == 1 ? 0 : i & 2 ? 1e-9 : -1e-9);
            for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) { double v = *(mem(b, x, y, 0) + c); eval(); bool ok = false; for (int i = 0; i < nr; i++) ok |= std::fabs(v - R[i][y * W + x]) <= 2; if (!ok) return fail("%s: sample %d,%d channel %d is %g, the filter gives %g", FN[f], x, y, c, v, R[0][y * W + x]); } }
        return true; }
    bool lin = f > 0, bil = f > 1; double tol = a.type == IL_HALF ? 1e-3 : a.type == IL_FLOAT ? 1e-6 : a.type == IL_DOUBLE ? 1e-12 : 0;
    for (int z = 0; z < D; z++) { Ax Z = axis(z, a.d, D, bil); for (int y = 0; y < H; y++) { Ax Y = axis(y, a.h, H, bil); for (int x = 0; x < W; x++) { Ax X = axis(x, a.w, W, lin);
        if (!lin) { eval(); if (memcmp(mem(b, x, y, z), mem(a, X.i, Y.i, Z.i), nc * a.bpc)) return fail("nearest: sample %d,%d,%d is %s, expected %s", x, y, z, hex(mem(b, x, y, z), nc * a.bpc).c_str(), hex(mem(a, X.i, Y.i, Z.i), nc * a.bpc).c_str()); continue; }
        for (int c = 0; c < nc; c++) { double e = interp(a, c, X, Y, Z), v = sval(mem(b, x, y, z) + c * a.bpc, a.type); eval(); double t = isf(a.type) ? tol * std::max(1., std::fabs(e)) : .5 + 1e-6 + std::fabs(e) * 1e-12; if (std::fabs(v - e) > t) return fail("%s: sample %d,%d,%d channel %d is %.9g, interpolation gives %.9g", FN[f], x, y, z, c, v, e); } } } }
    return true;
}
static bool ranges(const Img& a, const Img& b, int f)
{
    if (f >= 7) return true; // Lanczos and Mitchell overshoot
    if (a.format == IL_COLOUR_INDEX) { int n = palbpp(a.paltype); if (b.pal.size() % n) return fail("palette size %zu", b.pal.size()); uint8_t lo[4] = { 255, 255, 255, 255 }, hi[4] = { 0, 0, 0, 0 }; bool al = a.paltype == IL_PAL_RGBA32 || a.paltype == IL_PAL_BGRA32; int m = 3 + al;
        for (uint8_t i : a.data) for (int c = 0; c < m; c++) { lo[c] = std::min(lo[c], a.pal[i * n + c]); hi[c] = std::max(hi[c], a.pal[i * n + c]); }
        for (uint8_t i : b.data) { eval(); if ((i + 1) * n > (int)b.pal.size()) return fail("index %d outside of the palette", i); for (int c = 0; c < m; c++) if (b.pal[i * n + c] < lo[c] || b.pal[i * n + c] > hi[c]) return fail("colour component %d is %d, the image holds %d..%d", c, b.pal[i * n + c], lo[c], hi[c]); } return true; }
    for (int c = 0; c < a.bpp; c++) { double lo = 1e300, hi = -1e300; for (size_t i = c * a.bpc; i < a.data.size(); i += a.bpp * a.bpc) { double v = sval(&a.data[i], a.type); lo = std::min(lo, v); hi = std::max(hi, v); }
        for (size_t i = c * a.bpc; i < b.data.size(); i += a.bpp * a.bpc) { double v = sval(&b.data[i], a.type); eval(); if (v < lo || v > hi) return fail("channel %d: sample %g outside of the image's range %g..%g", c, v, lo, hi); } }
    return true;
}
static bool apply(int f, int W, int H, int D) { iluImageParameter(ILU_FILTER, FILT[f]); drain(); ILboolean r = iluScale(W, H, D); auto e = errors(); if (!r || !e.empty()) return fail("iluScale returned %d, error %s", r, e.empty() ? "none" : ename(e[0]).c_str()); return true; }
static void scale(const Kind& k, int w, int h, int d, int org, int content, int f, int W, int H, int D)
{
    Img a; if (!make(k, w, h, d, org, content, a)) return; if (!apply(f, W, H, D)) return; Img b = snap(); if (!shape(a, b, W, H, D)) return;
    if (w == std::max(W, 1) && h == std::max(H, 1) && d == std::max(D, 1)) { eval(); if (b != a) fail("same size, but: %s", a.diff(b).c_str()); return; }
    if (f == 0) { eval(); if (a.pal != b.pal) { fail("palette changed"); return; } }
    if (!refcheck(a, b, f) || !ranges(a, b, f)) return;
    if (content == 1) { // constant stays constant
        int n = a.bpp * a.bpc; if (a.format == IL_COLOUR_INDEX) { int p = palbpp(a.paltype); for (uint8_t i : b.data) { eval(); int m = a.paltype == IL_PAL_RGBA32 || a.paltype == IL_PAL_BGRA32 ? 4 : 3; if ((i + 1) * p > (int)b.pal.size() || memcmp(&b.pal[i * p], &a.pal[a.data[0] * p], m)) { fail("constant image changed its colour"); return; } } }
        else for (size_t i = 0; i < b.data.size(); i += n) { eval(); if (memcmp(&b.data[i], &a.data[0], n)) { fail("constant %s became %s at pixel %zu", hex(&a.data[0], n).c_str(), hex(&b.data[i], n).c_str(), i / n); return; } } }
    if (content == 2 && f < 7 && a.format != IL_COLOUR_INDEX) for (int z = 0; z < b.d; z++) for (int y = 0; y < b.h; y++) for (int x = 1; x < b.w; x++) for (int c = 0; c < b.bpp; c++) { eval(); if (sval(mem(b, x, y, z) + c * b.bpc, b.type) < sval(mem(b, x - 1, y, z) + c * b.bpc, b.type)) { fail("rising row falls at %d,%d,%d", x, y, z); return; } }
    outcome(b.hash()); ilShutDown();
}
// each channel scaled on its own gives the same samples; the origin does not matter to the stored samples
static void independent(const Kind& k, int f, int w, int h, int d, int W, int H, int D)
{
    Img a; if (!make(k, w, h, d, 0, 0, a) || !apply(f, W, H, D)) return; Img b = snap(); int s = a.bpc;
    Img a2; if (!make(k, w, h, d, 1, 0, a2) || !apply(f, W, H, D)) return; Img b2 = snap(); eval(); if (b2.data != b.data) { fail("the origin changes the samples"); return; }
    if (a.bpp == 1) return;
    for (int c = 0; c < a.bpp; c++) {
        Bytes one; for (size_t i = c * s; i < a.data.size(); i += a.bpp * s) one.insert(one.end(), &a.data[i], &a.data[i] + s);
        init(); if (!mk(w, h, d, IL_LUMINANCE, a.type, one.data()) || !apply(f, W, H, D)) { fail("single channel"); return; } Img r = snap();
        for (size_t i = 0; i < r.data.size() / s; i++) { eval(); if (memcmp(&r.data[i * s], &b.data[(i * a.bpp + c) * s], s)) { fail("channel %d of pixel %zu is %s, on its own it scales to %s", c, i, hex(&b.data[(i * a.bpp + c) * s], s).c_str(), hex(&r.data[i * s], s).c_str()); return; } } }
    outcome(b.hash()); ilShutDown();
}
static void enlarge(int q)
{
    static const float M[] = { 1, 2, .5f, 1.5f, .1f, 3.3333f, 0, -1, -0.f, NAN, INFINITY, 1e10f, 1e30f }; float x = M[q % 13], y = M[q / 13 % 13], z = q / 169 ? 2 : 1; note("enlarge by %g,%g,%g", x, y, z);
    Img a; if (!make(KS[1], 6, 4, 1, 0, 0, a)) return; ILboolean r = iluEnlargeImage(x, y, z); auto e = errors(); Img b = snap(); eval();
    bool bad = !(x > 0) || !(y > 0) || x > 1e8 || y > 1e8; if (bad) { if (r) fail("accepted"); else if (e.empty()) fail("no error"); else if (b != a) fail("refused, but changed the image: %s", a.diff(b).c_str()); return; }
    if (!r || !e.empty()) { fail("returned %d, error %s", r, e.empty() ? "none" : ename(e[0]).c_str()); return; } if (!shape(a, b, (int)(6 * x), (int)(4 * y), (int)z)) return; refcheck(a, b, 0); outcome(b.hash());
}
SUITE(sizes)
{
    int S = thorough ? 7 : 5, T = thorough ? 12 : 8;
    batch("all2", (uint64_t)9 * S * S * T * T * 3, [S, T](uint64_t q) { int f = q % 9; q /= 9; int w = 1 + q % S; q /= S; int h = 1 + q % S; q /= S; int W = q % T; q /= T; int H = q % T; q /= T; note("%s %dx%d to %dx%d content %d", FN[f], w, h, W, H, (int)q); scale(KS[w % 2], w, h, 1, 0, q, f, W, H, 1); });
    batch("all3", (uint64_t)9 * 3 * 3 * 4 * 4 * 5 * 3, [](uint64_t q) { int f = q % 9; q /= 9; int w = 1 + q % 3; q /= 3; int d = 1 + q % 3; q /= 3; int W = 1 + q % 4; q /= 4; int H = 1 + q % 4; q /= 4; int D = q % 5; q /= 5; note("%s %dx2x%d to %dx%dx%d content %d", FN[f], w, d, W, H, D, (int)q); scale(KS[H % 5], w, 2, d, 0, q, f, W, H, D); });
}
SUITE(kinds)
{
    static const int SZ[][6] = { { 3, 2, 1, 7, 5, 1 }, { 5, 4, 1, 2, 3, 1 }, { 4, 3, 1, 2, 7, 1 }, { 2, 5, 1, 6, 2, 1 }, { 3, 2, 2, 5, 3, 3 }, { 4, 4, 3, 2, 2, 1 }, { 1, 1, 1, 5, 4, 1 }, { 8, 8, 1, 4, 4, 1 } };
    batch("kinds", K.size() * 9 * 8 * 3 * 2, [](uint64_t q) { int f = q % 9; q /= 9; const int* z = SZ[q % 8]; q /= 8; int c = q % 3; q /= 3; int org = q & 1; q /= 2; note("%s %s %dx%dx%d to %dx%dx%d content %d org %d", FN[f], kname(K[q]).c_str(), z[0], z[1], z[2], z[3], z[4], z[5], c, org); scale(K[q], z[0], z[1], z[2], org, c, f, z[3], z[4], z[5]); });
    batch("channels", K.size() * 9 * 8, [](uint64_t q) { int f = q % 9; q /= 9; const int* z = SZ[q % 8]; q /= 8; note("channels %s %s %dx%dx%d to %dx%dx%d", FN[f], kname(K[q]).c_str(), z[0], z[1], z[2], z[3], z[4], z[5]); if (K[q].f != IL_COLOUR_INDEX) independent(K[q], f, z[0], z[1], z[2], z[3], z[4], z[5]); });
    batch("same", K.size() * 9 * 4, [](uint64_t q) { int f = q % 9; q /= 9; int m = q % 4; q /= 4; note("same size %s %s #%d", FN[f], kname(K[q]).c_str(), m); scale(K[q], 1 + m, 3, 1 + (m & 1), m & 1, 0, f, 1 + m, 3, 1 + (m & 1)); });
    batch("enlarge", 13 * 13 * 2, [](uint64_t q) { enlarge(q); });
}
SUITE(values)
{
    // every pair of 8-bit neighbours, and extreme values of every type
    batch("pairs", 256, [](uint64_t q) { note("rows of pixel pairs starting with %d", (int)q); for (int f = 1; f < 9; f++) { Bytes p(512); for (int i = 0; i < 256; i++) { p[2 * i] = q; p[2 * i + 1] = i; } init(); mk(2, 256, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, p.data()); drain(); Img a = snap(); if (!apply(f, 5, 256, 1)) return; Img b = snap(); if (!shape(a, b, 5, 256, 1) || !refcheck(a, b, f) || !ranges(a, b, f)) return; outcome(b.hash()); } });
    batch("extremes", TYPES.size() * 9 * 81, [](uint64_t q) { int f = q % 9; q /= 9; ILenum t = TYPES[q % TYPES.size()]; q /= TYPES.size(); note("%s %s combination %d", FN[f], tname(t), (int)q); auto val = [&](int k) -> double { double M = umax(t); if (issg(t)) { double h = (M + 1) / 2; return k == 0 ? -h : k == 1 ? 0 : h - 1; } return k == 0 ? 0 : k == 1 ? M / 3 : M; };
        Bytes p(4 * bpc(t)); int m = q; for (int i = 0; i < 4; i++) { wrsample(&p[i * bpc(t)], t, val(m % 3)); m /= 3; } init(); if (!mk(2, 2, 1, IL_LUMINANCE, t, p.data())) { fail("make"); return; } drain(); Img a = snap(); if (!apply(f, 5, 3, 1)) return; Img b = snap(); if (!shape(a, b, 5, 3, 1) || !refcheck(a, b, f) || !ranges(a, b, f)) return; outcome(b.hash()); });
    batch("bigger", 9 * 60 * 2, [](uint64_t q) { int f = q % 9; q /= 9; int n = 1 + q % 60; int up = q / 60; note("%s %s %d", FN[f], up ? "up to" : "down to", n); if (up) scale(KS[1], 7, 5, 1, 0, 0, f, n, n + 3, 1); else scale(KS[1], 61, 33, 1, 0, 0, f, n, (n + 1) / 2, 1); });
}
SUITE(large)   // more pixels than 16 bits count
{
    static const int L[][6] = { { 65537, 1, 1, 100, 1, 1 }, { 1, 65537, 1, 1, 300, 1 }, { 3, 2, 1, 65537, 1, 1 }, { 2, 3, 1, 1, 65537, 1 }, { 301, 299, 1, 299, 301, 1 }, { 65537, 1, 1, 65538, 1, 1 }, { 1, 65600, 1, 2, 65537, 1 }, { 1, 1, 3, 1, 1, 65537 } };
    batch("large", 8 * 9 * KS.size(), [](uint64_t q) { set_cpu_limit(240); const int* z = L[q % 8]; q /= 8; int f = q % 9; q /= 9; note("large %s %s %dx%dx%d to %dx%dx%d", FN[f], kname(KS[q]).c_str(), z[0], z[1], z[2], z[3], z[4], z[5]); scale(KS[q], z[0], z[1], z[2], 0, 0, f, z[3], z[4], z[5]); });
}
