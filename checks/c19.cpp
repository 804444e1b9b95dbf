// C19: filters - identities, reference formulas, what they leave alone, refusals, regions, counting and comparing.
#include "conv.h"
#include <set>
using namespace mc; using namespace ilx; using namespace conv;
static const ILenum ORG[2] = { IL_ORIGIN_UPPER_LEFT, IL_ORIGIN_LOWER_LEFT };
static const ILenum PALS[6] = { IL_PAL_RGB24, IL_PAL_RGB32, IL_PAL_RGBA32, IL_PAL_BGR24, IL_PAL_BGR32, IL_PAL_BGRA32 };
struct Kind { ILenum f, t, pal; int cols; };
static std::vector<Kind> kinds()
{ std::vector<Kind> k; for (ILenum f : FORMATS) if (f != IL_COLOUR_INDEX) for (ILenum t : TYPES) k.push_back({ f, t, 0, 0 }); for (ILenum p : PALS) k.push_back({ IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, p, 6 }); k.push_back({ IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, IL_PAL_RGB24, 256 }); return k; }
static const std::vector<Kind> K = kinds();
static std::string kname(const Kind& k) { return k.pal ? sfmt("indexed palette %x/%d", k.pal, k.cols) : sfmt("%s %s", fname(k.f), tname(k.t)); }
static const uint8_t* mem(const Img& i, int x, int y, int z) { return i.data.data() + (((size_t)z * i.h + y) * i.w + x) * i.bpp * i.bpc; }
static bool make(const Kind& k, int w, int h, int d, int org, bool flat, Img& a, uint32_t salt = 5, const Bytes* raw_ = 0)
{
    init(); bool ok; int n = channels(k.f) * bpc(k.t);
    if (k.f == IL_COLOUR_INDEX) { Bytes ix = pattern(w * h * d, salt); for (auto& b : ix) b = flat ? 2 : b % k.cols; ok = mkpal(w, h, k.pal, k.cols, ix.data(), pattern(k.cols * palbpp(k.pal), 31).data(), ORG[org], d); }
    else { Bytes p = raw_ ? *raw_ : typed_pattern(w * h * d * channels(k.f), k.t, salt); if (flat) for (int i = 1; i < w * h * d; i++) memcpy(&p[i * n], &p[0], n); ok = mk(w, h, d, k.f, k.t, p.data(), ORG[org]); }
    if (!ok) { fail("cannot make the image"); return false; } ilSetInteger(IL_IMAGE_DURATION, 77); drain(); a = snap(); return true;
}
enum { POINT = 1, SPATIAL = 2, ALPHAOP = 4, EXACTID = 8, KEEPALPHA = 16, FLATOK = 32, ROWS = 64, INVOL = 128 };
struct Op { const char* name; std::function<ILboolean()> f; int fl; };
static ILint IDM[9] = { 0, 0, 0, 0, 1, 0, 0, 0, 0 }, AVG[9] = { 1, 1, 1, 1, 1, 1, 1, 1, 1 }, SHP[9] = { 0, -1, 0, -1, 5, -1, 0, -1, 0 };
static const std::vector<Op> OPS = {
    { "Negative", [] { return iluNegative(); }, POINT | KEEPALPHA | INVOL }, { "InvertAlpha", [] { return iluInvertAlpha(); }, ALPHAOP | INVOL },
    { "Contrast 1", [] { return iluContrast(1); }, POINT | KEEPALPHA | EXACTID }, { "Contrast .5", [] { return iluContrast(.5f); }, POINT | KEEPALPHA }, { "Contrast 1.7", [] { return iluContrast(1.7f); }, POINT | KEEPALPHA },
    { "Gamma 1", [] { return iluGammaCorrect(1); }, POINT | KEEPALPHA | EXACTID }, { "Gamma .5", [] { return iluGammaCorrect(.5f); }, POINT | KEEPALPHA }, { "Gamma 2.2", [] { return iluGammaCorrect(2.2f); }, POINT | KEEPALPHA },
    { "Saturate1f 1", [] { return iluSaturate1f(1); }, POINT | KEEPALPHA | EXACTID }, { "Saturate1f 0", [] { return iluSaturate1f(0); }, POINT | KEEPALPHA }, { "Saturate4f 1", [] { return iluSaturate4f(.2f, .3f, .9f, 1); }, POINT | KEEPALPHA | EXACTID }, { "Saturate4f .4", [] { return iluSaturate4f(.2f, .3f, .5f, .4f); }, POINT | KEEPALPHA },
    { "ScaleColours 1", [] { return iluScaleColours(1, 1, 1); }, POINT | KEEPALPHA | EXACTID }, { "ScaleColours", [] { return iluScaleColours(.5f, 1.5f, .25f); }, POINT | KEEPALPHA },
    { "ScaleAlpha 1", [] { return iluScaleAlpha(1); }, ALPHAOP | EXACTID }, { "ScaleAlpha .5", [] { return iluScaleAlpha(.5f); }, ALPHAOP }, { "ScaleAlpha 3", [] { return iluScaleAlpha(3); }, ALPHAOP },
    { "Alienify", [] { return iluAlienify(); }, POINT | KEEPALPHA }, { "Sepia", [] { return iluSepia(); }, POINT | KEEPALPHA }, { "Noisify 0", [] { return iluNoisify(0); }, EXACTID | KEEPALPHA }, { "Noisify .3", [] { return iluNoisify(.3f); }, KEEPALPHA },
    { "Equalize", [] { return iluEqualize(); }, KEEPALPHA }, { "Equalize2", [] { return iluEqualize2(); }, KEEPALPHA },
    { "Pixelize 0", [] { return iluPixelize(0); }, EXACTID }, { "Pixelize 1", [] { return iluPixelize(1); }, EXACTID }, { "Pixelize 2", [] { return iluPixelize(2); }, SPATIAL | FLATOK }, { "Pixelize 3", [] { return iluPixelize(3); }, SPATIAL | FLATOK }, { "Pixelize big", [] { return iluPixelize(0xffffffffu); }, SPATIAL | FLATOK },
    { "BlurAvg 0", [] { return iluBlurAvg(0); }, EXACTID }, { "BlurAvg 1", [] { return iluBlurAvg(1); }, SPATIAL | FLATOK }, { "BlurAvg 3", [] { return iluBlurAvg(3); }, SPATIAL | FLATOK }, { "BlurGaussian 0", [] { return iluBlurGaussian(0); }, EXACTID }, { "BlurGaussian 1", [] { return iluBlurGaussian(1); }, SPATIAL | FLATOK }, { "BlurGaussian 2", [] { return iluBlurGaussian(2); }, SPATIAL | FLATOK },
    { "Sharpen 1", [] { return iluSharpen(1, 3); }, EXACTID }, { "Sharpen x0", [] { return iluSharpen(2, 0); }, EXACTID }, { "Sharpen 1.5", [] { return iluSharpen(1.5f, 1); }, SPATIAL | FLATOK }, { "Sharpen .5", [] { return iluSharpen(.5f, 2); }, SPATIAL | FLATOK },
    { "Emboss", [] { return iluEmboss(); }, SPATIAL | KEEPALPHA }, { "EdgeDetectE", [] { return iluEdgeDetectE(); }, SPATIAL | KEEPALPHA }, { "EdgeDetectP", [] { return iluEdgeDetectP(); }, SPATIAL | KEEPALPHA }, { "EdgeDetectS", [] { return iluEdgeDetectS(); }, SPATIAL | KEEPALPHA },
    { "Convolution id", [] { return iluConvolution(IDM, 1, 0); }, SPATIAL | EXACTID }, { "Convolution avg", [] { return iluConvolution(AVG, 9, 0); }, SPATIAL | FLATOK }, { "Convolution sharp", [] { return iluConvolution(SHP, 1, 0); }, SPATIAL | FLATOK },
    { "Wave", [] { return iluWave(33); }, ROWS }, { "Wave 0", [] { return iluWave(0); }, ROWS },
};
static bool attrs(const Img& a, const Img& b, bool samePal)
{
    eval(2);
    if (b.w != a.w || b.h != a.h || b.d != a.d || b.format != a.format || b.type != a.type || b.origin != a.origin || b.bpp != a.bpp || b.bpc != a.bpc || b.dur != a.dur || b.size != a.size || b.plane != a.plane) return fail("attributes changed: %s", b.diff(a).c_str());
    if (b.paltype != a.paltype || (samePal && b.pal.size() != a.pal.size())) return fail("palette layout %x/%zu became %x/%zu", a.paltype, a.pal.size(), b.paltype, b.pal.size());
    if (b.format == IL_COLOUR_INDEX) for (uint8_t i : b.data) if ((size_t)(i + 1) * palbpp(b.paltype) > b.pal.size()) return fail("index %d outside of the palette", i); return true;
}
static bool palalpha(ILenum p) { return p == IL_PAL_RGBA32 || p == IL_PAL_BGRA32; }
// the colour (with alpha) of a pixel whatever the storage, for indexed images through the palette
static std::vector<double> colour(const Img& i, size_t px) { std::vector<double> v; if (i.format == IL_COLOUR_INDEX) { int n = palbpp(i.paltype), m = palalpha(i.paltype) ? 4 : 3; for (int c = 0; c < m; c++) v.push_back(i.pal[i.data[px] * n + c]); } else for (int c = 0; c < i.bpp; c++) v.push_back(raw(&i.data[(px * i.bpp + c) * i.bpc], i.type)); return v; }
static void general(const Kind& k, const Op& op, int w, int h, int d, int org, bool flat)
{
    Img a; if (!make(k, w, h, d, org, flat, a)) return; ILboolean r = op.f(); auto e = errors(); Img b = snap(); eval();
    if (!r) { if (e.empty()) fail("refused without an error"); else if (b != a) fail("refused, but changed the image: %s", a.diff(b).c_str());
        bool must = k.f == IL_RGB && k.t == IL_UNSIGNED_BYTE && !(op.fl & ALPHAOP) && strcmp(op.name, "Equalize2"); if (must) fail("refused for an RGB image"); if (op.fl & EXACTID && !(op.fl & (POINT | ALPHAOP))) fail("refused though there is nothing to do"); return; }
    if (!e.empty()) { fail("error %s on success", ename(e[0]).c_str()); return; }
    if (!attrs(a, b, !(op.fl & SPATIAL) && strncmp(op.name, "Noisify", 7))) return;
    if (op.fl & EXACTID && !(a.format == IL_COLOUR_INDEX && op.fl & SPATIAL)) { eval(); if (b != a) { size_t i = 0; while (i < a.data.size() && a.data[i] == b.data[i]) i++; fail("not the identity: %s (byte %zu)", a.diff(b).c_str(), i); return; } }
    if (op.fl & EXACTID) for (size_t i = 0; i < a.data.size() / (a.bpp * a.bpc); i++) { eval(); if (colour(a, i) != colour(b, i)) { fail("not the identity at pixel %zu", i); return; } }
    bool idx = a.format == IL_COLOUR_INDEX;
    if (op.fl & KEEPALPHA) { if (!idx && hasalpha(a.format) && a.bpp > 1) for (size_t i = a.bpp - 1; i < (size_t)w * h * d * a.bpp; i += a.bpp) { eval(); if (memcmp(&a.data[i * a.bpc], &b.data[i * a.bpc], a.bpc)) { fail("alpha of pixel %zu changed", i / a.bpp); return; } }
        if (idx && palalpha(a.paltype) && a.data == b.data && a.pal.size() == b.pal.size()) for (size_t i = 3; i < a.pal.size(); i += 4) { eval(); if (a.pal[i] != b.pal[i]) { fail("alpha of palette entry %zu changed", i / 4); return; } } }
    if (op.fl & ALPHAOP && !idx && a.bpp > 1) for (size_t i = 0; i < (size_t)w * h * d; i++) { eval(); if (memcmp(&a.data[i * a.bpp * a.bpc], &b.data[i * a.bpp * a.bpc], (a.bpp - 1) * a.bpc)) { fail("colour of pixel %zu changed", i); return; } }
    if (op.fl & POINT && idx) { eval(); if (a.data != b.data) { fail("indices changed"); return; } }
    if (flat && op.fl & FLATOK) { // a uniform image stays as it is; blurring and sharpening may round by one step
        double tol = isf(k.t) ? 0.02 : idx || bpc(k.t) == 1 ? 3 : umax(k.t) / 85; if (!strncmp(op.name, "Pixelize", 8)) tol = k.t == IL_FLOAT || k.t == IL_HALF ? 1e-3 : k.t == IL_DOUBLE ? 1e-9 : 0; if (!strncmp(op.name, "Convolution", 11)) tol = isf(k.t) ? 1e-3 : 0;
        for (size_t i = 0; i < (size_t)w * h * d; i++) { auto u = colour(a, i), v = colour(b, i); for (size_t c = 0; c < u.size(); c++) { eval(); if (!(std::fabs(u[c] - v[c]) <= tol * std::max(1., isf(k.t) ? std::fabs(u[c]) : 1.))) { fail("uniform image: sample %zu of pixel %zu is %g, was %g", c, i, v[c], u[c]); return; } } } }
    if (op.fl & ROWS) { int n = a.bpp * a.bpc; for (int z = 0; z < d; z++) for (int y = 0; y < h; y++) { bool ok = false; for (int s = 0; s < w && !ok; s++) { ok = true; for (int x = 0; x < w && ok; x++) ok = !memcmp(mem(a, x, y, z), mem(b, (x + s) % w, y, z), n); } eval(); if (!ok) { fail("row %d of plane %d is not a shifted row", y, z); return; } } }
    if (op.fl & INVOL) { op.f(); if (firsterr()) { fail("second application failed"); return; } Img c = snap(); eval(); if (isf(k.t)) { for (size_t i = 0; i < (size_t)w * h * d * a.bpp; i++) { double u = raw(&a.data[i * a.bpc], a.type), v = raw(&c.data[i * a.bpc], a.type); if (!(std::fabs(u - v) <= (k.t == IL_HALF ? 2e-3 : 1e-6) * std::max(1., std::fabs(u)))) { fail("applied twice: sample %zu is %g, was %g", i, v, u); return; } } } else if (c != a) { fail("applied twice: %s", a.diff(c).c_str()); return; } }
    outcome(b.hash()); ilShutDown();
}
SUITE(general)
{
    static const int SZ[][3] = { { 1, 1, 1 }, { 2, 1, 1 }, { 1, 3, 1 }, { 2, 2, 1 }, { 3, 3, 1 }, { 5, 4, 1 }, { 3, 2, 2 }, { 4, 5, 3 }, { 7, 2, 1 }, { 2, 6, 1 } }; int NS = thorough ? 10 : 8;
    batch("all", K.size() * OPS.size() * NS * 2 * 2, [NS](uint64_t q) { int o = q % OPS.size(); q /= OPS.size(); const int* s = SZ[q % NS]; q /= NS; int flat = q & 1; q /= 2; int org = q & 1; q /= 2; note("%s %s %dx%dx%d%s org %d", OPS[o].name, kname(K[q]).c_str(), s[0], s[1], s[2], flat ? " uniform" : "", org); general(K[q], OPS[o], s[0], s[1], s[2], org, flat); });
    int B = thorough ? 12 : 6; batch("sizes", OPS.size() * B * B * 2, [B](uint64_t q) { int o = q % OPS.size(); q /= OPS.size(); int w = 1 + q % B; q /= B; int h = 1 + q % B; q /= B; note("%s %dx%d %d", OPS[o].name, w, h, (int)q); Kind k = q ? Kind{ IL_RGBA, IL_UNSIGNED_SHORT, 0, 0 } : Kind{ IL_RGB, IL_UNSIGNED_BYTE, 0, 0 }; general(k, OPS[o], w, h, 1, 0, false); });
}
// a point filter does to each pixel what it does to a picture of that pixel alone; an area filter does so to each plane
static bool alone(const Kind& k, const Op& op, int w, int h, int d, int org, bool planes)
{
    Img a; if (!make(k, w, h, d, org, false, a)) return false; bool r = op.f(); drain(); Img b = snap(); size_t u = planes ? (size_t)w * h * a.bpp * a.bpc : a.bpp * a.bpc;
    for (size_t i = 0; i * u < a.data.size(); i++) { eval(); init(); bool ok = k.f == IL_COLOUR_INDEX ? mkpal(w, h, k.pal, k.cols, &a.data[i * u], a.pal.data(), ORG[org]) : mk(planes ? w : 1, planes ? h : 1, 1, k.f, k.t, &a.data[i * u], ORG[org]); if (!ok) return fail("cannot make the part"); drain(); bool r2 = op.f(); drain(); Img c = snap();
        if (r != r2) return fail("%s for the whole picture, %s for part %zu of it", r ? "works" : "refused", r2 ? "works" : "refused", i); if (r && k.f == IL_COLOUR_INDEX) { for (size_t p = 0; p < u; p++) if (colour(b, i * u + p) != colour(c, p)) return fail("pixel %zu of plane %zu differs from the plane alone", p, i); } else if (memcmp(&b.data[i * u], c.data.data(), u)) return fail("part %zu differs from what it becomes alone", i); }
    outcome(b.hash()); return true;
}
SUITE(parts)
{
    static std::vector<int> PO, SP; if (PO.empty()) for (size_t i = 0; i < OPS.size(); i++) { if (OPS[i].fl & (POINT | ALPHAOP)) PO.push_back(i); else if (strncmp(OPS[i].name, "Noisify", 7) && strncmp(OPS[i].name, "Equalize", 8) && strncmp(OPS[i].name, "Pixelize", 8)) SP.push_back(i); }
    static const int SZ[][3] = { { 3, 2, 2 }, { 1, 4, 3 }, { 5, 1, 1 }, { 2, 3, 4 } };
    batch("pixels", K.size() * PO.size() * 4 * 2, [](uint64_t q) { const Op& o = OPS[PO[q % PO.size()]]; q /= PO.size(); const int* s = SZ[q % 4]; q /= 4; int org = q & 1; q /= 2; const Kind& k = K[q]; if (k.f == IL_COLOUR_INDEX) return; note("each pixel: %s %s %dx%dx%d", o.name, kname(k).c_str(), s[0], s[1], s[2]); alone(k, o, s[0], s[1], s[2], org, false); });
    batch("planes", K.size() * SP.size() * 4 * 2, [](uint64_t q) { const Op& o = OPS[SP[q % SP.size()]]; q /= SP.size(); const int* s = SZ[q % 4]; q /= 4; int org = q & 1; q /= 2; const Kind& k = K[q]; if (k.f == IL_COLOUR_INDEX) return;   /* quantised as a whole */ note("each plane: %s %s %dx%dx%d", o.name, kname(k).c_str(), s[0], s[1], s[2]); alone(k, o, s[0], s[1], s[2], org, true); });
}
// every 8-bit value through every point filter, for colours and palettes
static void formula(const char* what, int org, std::function<ILboolean()> f, std::function<void(double*)> ref, double tol, int kind)
{
    static const Kind KK[] = { { IL_RGB, IL_UNSIGNED_BYTE, 0, 0 }, { IL_BGRA, IL_UNSIGNED_BYTE, 0, 0 }, { IL_RGBA, IL_UNSIGNED_SHORT, 0, 0 }, { IL_BGR, IL_FLOAT, 0, 0 }, { IL_RGB, IL_UNSIGNED_INT, 0, 0 }, { IL_RGBA, IL_DOUBLE, 0, 0 }, { IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, IL_PAL_BGR32, 256 }, { IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, IL_PAL_RGBA32, 256 } };
    const Kind& k = KK[kind]; note("%s %s", what, kname(k).c_str()); Img a; bool idx = k.f == IL_COLOUR_INDEX; int N = idx ? 256 : 512, nc = idx ? palbpp(k.pal) : channels(k.f); ILenum t = k.t; Bytes p(N * nc * bpc(t)); Bytes rnd = pattern(N * nc, 17);
    for (int i = 0; i < N; i++) for (int c = 0; c < nc; c++) { double v = c == i / 256 || idx ? (c == 0 ? i : rnd[i * nc + c]) % 256 : rnd[i * nc + c]; if (i % 256 == 0 && c < 3) v = 0; if (i % 256 == 255 && c < 3) v = 255; if (i % 4 == 1) v = i % 256; wrsample(&p[(i * nc + c) * bpc(t)], t, bpc(t) == 1 ? v : isf(t) ? v / 255 : bpc(t) == 2 ? v * 257 : v * 16843009.); }
    init(); bool ok; if (idx) { Bytes ix(256); for (int i = 0; i < 256; i++) ix[i] = i; ok = mkpal(16, 16, k.pal, 256, ix.data(), p.data(), ORG[org]); } else ok = mk(32, 16, 1, k.f, t, p.data(), ORG[org]);
    if (!ok) { fail("make"); return; } drain(); a = snap(); ILboolean r = f(); auto e = errors(); Img b = snap(); eval();
    if (!r) { if (e.empty() || b != a) fail("refused with %zu errors, image %s", e.size(), b != a ? "changed" : "unchanged"); else if (kind < 2) fail("refused"); return; } if (!attrs(a, b, true)) return;
    bool bgr = k.f == IL_BGR || k.f == IL_BGRA || k.pal == IL_PAL_BGR32; const Bytes &A = idx ? a.pal : a.data, &B = idx ? b.pal : b.data; int s = bpc(t); double M = umax(t);
    for (int i = 0; i < N; i++) { double c[3], w[3]; for (int j = 0; j < 3; j++) c[bgr ? 2 - j : j] = raw(&A[(i * nc + j) * s], t) / M * 255; for (int j = 0; j < 3; j++) w[j] = c[j]; ref(w); for (int j = 0; j < 3; j++) { eval(); double v = raw(&B[(i * nc + j) * s], t) / M * 255, x = w[bgr ? 2 - j : j]; if (!isf(t)) x = std::min(255., std::max(0., x)); double tl = s == 1 ? .5 + tol : tol + 255 * 2e-5; if (!(std::fabs(v - x) <= tl)) { fail("colour %g,%g,%g: component %d is %g, expected %g", c[0], c[1], c[2], j, v, x); return; } }
        if (nc == 4 && memcmp(&A[(i * nc + 3) * s], &B[(i * nc + 3) * s], s)) { fail("alpha of colour %d changed", i); return; } }
    outcome(b.hash());
}
SUITE(formulas)
{
    batch("negative", 16, [](uint64_t q) { formula("negative", q & 1, [] { return iluNegative(); }, [](double* c) { for (int i = 0; i < 3; i++) c[i] = 255 - c[i]; }, 0, q / 2); });
    static const float CO[] = { 0, .25f, .5f, .9f, 1, 1.1f, 1.5f, 2, 5, -.5f }; batch("contrast", 80, [](uint64_t q) { float v = CO[q % 10]; formula(sfmt("contrast %g", v).c_str(), 0, [v] { return iluContrast(v); }, [v](double* c) { for (int i = 0; i < 3; i++) c[i] = (1 - (double)v) * 127 + (double)v * c[i]; }, 1, q / 10); });
    static const float GA[] = { .1f, .45f, .5f, 1, 1.5f, 2, 2.2f, 3, 10 }; batch("gamma", 72, [](uint64_t q) { float v = GA[q % 9]; formula(sfmt("gamma %g", v).c_str(), 0, [v] { return iluGammaCorrect(v); }, [v](double* c) { for (int i = 0; i < 3; i++) c[i] = 255 * std::pow(c[i] / 255, 1 / (double)v); }, .51, q / 9); });
    batch("colours", 8 * 27, [](uint64_t q) { static const float S[] = { 0, .6f, 2 }; float r = S[q % 3], g = S[q / 3 % 3], b = S[q / 9 % 3]; formula(sfmt("colours %g,%g,%g", r, g, b).c_str(), 0, [=] { return iluScaleColours(r, g, b); }, [=](double* c) { c[0] *= r; c[1] *= g; c[2] *= b; }, .5, q / 27); });
    static const float SA[] = { 0, .3f, .5f, 1, 1.5f, 3, -1 }; batch("saturate", 8 * 7 * 2, [](uint64_t q) { float s = SA[q % 7]; int four = q / 7 % 2; double R = four ? .2f : .3086f, G = four ? .5f : .6094f, Bl = four ? .1f : .0820f; formula(sfmt("saturate%d %g", four, s).c_str(), 0, [=] { return four ? iluSaturate4f(.2f, .5f, .1f, s) : iluSaturate1f(s); }, [=](double* c) { double g = R * c[0] + G * c[1] + Bl * c[2]; for (int i = 0; i < 3; i++) c[i] = (1 - s) * g + s * c[i]; }, .6, q / 14); });
    batch("alienify", 8, [](uint64_t q) { formula("alienify", 0, [] { return iluAlienify(); }, [](double* c) { c[0] = c[2]; }, 0, q); });
    batch("sepia", 8, [](uint64_t q) { formula("sepia", 0, [] { return iluSepia(); }, [](double* c) { double r = c[0], g = c[1], b = c[2]; c[0] = r * .393 + g * .769 + b * .189; c[1] = r * .349 + g * .686 + b * .168; c[2] = r * .272 + g * .534 + b * .131; }, .51, q); });
    batch("alpha", 256 * 3, [](uint64_t q) { int v = q & 255, m = q >> 8; note("alpha %d #%d", v, m); static const ILenum F[] = { IL_RGBA, IL_LUMINANCE_ALPHA, IL_ALPHA }; int n = channels(F[m]); Bytes p(n * 4, 50); for (int i = 0; i < 4; i++) p[i * n + n - 1] = v; static const float S[] = { 0, .25f, .5f, 1, 1.5f, 4 };
        for (float s : S) { init(); mk(2, 2, 1, F[m], IL_UNSIGNED_BYTE, p.data()); drain(); if (!iluScaleAlpha(s)) { fail("refused"); return; } Img b = snap(); eval(); double w = std::min(255., (double)s * v); if (std::fabs(b.data[n - 1] - w) > 1) { fail("scaled by %g: %d", s, b.data[n - 1]); return; } }
        init(); mk(2, 2, 1, F[m], IL_UNSIGNED_BYTE, p.data()); drain(); if (!iluInvertAlpha()) { fail("invert refused"); return; } Img b = snap(); eval(); for (int i = 0; i < 4; i++) { if (b.data[i * n + n - 1] != 255 - v) fail("inverted to %d", b.data[i * n + n - 1]); for (int c = 0; c < n - 1; c++) if (b.data[i * n + c] != 50) fail("colour changed"); } });
}
// spatial filters against a straightforward evaluation of their kernels inside the picture (and at the edges where edge pixels are extended)
static double S(const Img& a, int x, int y, int z, int c) { return raw(mem(a, std::min(std::max(x, 0), a.w - 1), std::min(std::max(y, 0), a.h - 1), z) + c * a.bpc, a.type); }
static double conv3(const Img& a, int x, int y, int z, int c, const int* m) { double v = 0; for (int j = 0; j < 3; j++) for (int i = 0; i < 3; i++) v += m[j * 3 + i] * S(a, x + i - 1, y + j - 1, z, c); return v; }
static void kernel(int which, const Kind& k, int w, int h, int d)
{
    static const int G[9] = { 1, 2, 1, 2, 4, 2, 1, 2, 1 }, A9[9] = { 1, 1, 1, 1, 1, 1, 1, 1, 1 }, E[9] = { -1, 0, 1, -1, 0, 1, -1, 0, 1 }, HS[9] = { 1, 2, 1, 0, 0, 0, -1, -2, -1 }, VS[9] = { 1, 0, -1, 2, 0, -2, 1, 0, -1 }, HP[9] = { 1, 1, 1, 0, 0, 0, -1, -1, -1 }, VP[9] = { 1, 0, -1, 1, 0, -1, 1, 0, -1 };
    static ILint M1[9] = { 1, 2, 3, 4, 5, 6, 7, 8, 9 }, M2[9] = { 0, -1, 0, -1, 4, -1, 0, -1, 0 }, M3[9] = { -2, -1, 0, -1, 1, 1, 0, 1, 2 };
    Img a; if (!make(k, w, h, d, 0, false, a)) return; ILboolean r = false;
    switch (which) { case 0: r = iluBlurAvg(1); break; case 1: r = iluBlurGaussian(1); break; case 2: r = iluEmboss(); break; case 3: r = iluEdgeDetectE(); break; case 4: r = iluEdgeDetectS(); break; case 5: r = iluEdgeDetectP(); break; case 6: r = iluConvolution(M1, 45, 0); break; case 7: r = iluConvolution(M2, 1, 128); break; case 8: r = iluConvolution(M3, -2, 7); break; case 9: r = iluSharpen(1.5f, 1); break; case 10: r = iluSharpen(.25f, 1); break; case 11: r = iluPixelize(2); break; case 12: r = iluPixelize(3); break; }
    auto e = errors(); Img b = snap(); bool colonly = which >= 2 && which <= 5; if (!r) { if (!(colonly && k.f == IL_ALPHA)) fail("refused: %s", e.empty() ? "-" : ename(e[0]).c_str()); else if (a != b) fail("changed"); return; } if (!attrs(a, b, true)) return;
    double MX = umax(k.t), unit = isf(k.t) ? 1. / 255 : MX / 255; bool old = which <= 2 || which == 9 || which == 10; int nc = a.bpp - (colonly && hasalpha(a.format));
    for (int z = 0; z < d; z++) for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) for (int c = 0; c < nc; c++) {
        double v = raw(mem(b, x, y, z) + c * a.bpc, k.t), p = S(a, x, y, z, c), e = 0, lo, hi, slack = isf(k.t) ? 1e-3 * 255 * unit : 1.01; bool corner = (x == 0 || x == w - 1) && (y == 0 || y == h - 1), side = x == 0 || x == w - 1;
        auto old9 = [&](const int* m) { return conv3(a, x, y, z, c, m) + m[8] * (S(a, x - 1, y + 1, z, c) - S(a, x + 1, y + 1, z, c)); };   // the ninth weight has always been applied to the seventh neighbour
        if (old && side && !corner) { // left and right columns are only known to stay within what their surroundings allow
            continue; }
        switch (which) {
        case 0: e = corner ? p : std::fabs(old9(A9) / 9 + unit); break; case 1: e = corner ? p : std::fabs(old9(G) / 16 + unit); break; case 2: e = corner ? p : std::fabs(old9(E) + 128 * unit); break;
        case 3: e = std::fabs(conv3(a, x, y, z, c, E)); break; case 4: case 5: { double H = std::fabs(conv3(a, x, y, z, c, which == 4 ? HS : HP)), V = std::fabs(conv3(a, x, y, z, c, which == 4 ? VS : VP)); if (!isf(k.t)) { H = std::min(H, MX); V = std::min(V, MX); } e = std::sqrt(H * H + V * V); break; }
        case 6: e = std::fabs(conv3(a, x, y, z, c, M1) / 45); break; case 7: e = std::fabs(conv3(a, x, y, z, c, M2) + 128 * unit); break; case 8: e = std::fabs(conv3(a, x, y, z, c, M3) / -2 + 7 * unit); break;
        case 9: case 10: { double g = corner ? p : std::fabs(old9(G) / 16 + unit), f = which == 9 ? 1.5 : .25; if (!isf(k.t)) g = std::min(std::floor(g), MX); e = (1 - f) * g + f * p; slack *= 2; break; }
        default: { int n = which - 9, x0 = x / n * n, y0 = y / n * n, z0 = z / n * n, cnt = 0; double s = 0; for (int kk = z0; kk < std::min(z0 + n, d); kk++) for (int j = y0; j < std::min(y0 + n, h); j++) for (int i = x0; i < std::min(x0 + n, w); i++, cnt++) s += S(a, i, j, kk, c); e = s / cnt; break; } }
        if (!isf(k.t)) { e = std::min(MX, std::max(0., e)); if (bpc(k.t) == 4) slack += std::fabs(e) * 1e-9; } else slack *= std::max(1., std::fabs(e)); eval(); lo = e - slack; hi = e + slack;
        if (!(v >= lo && v <= hi)) { fail("pixel %d,%d,%d channel %d is %g, expected %g", x, y, z, c, v, e); return; } }
    if (colonly && hasalpha(a.format)) for (size_t i = a.bpp - 1; i < (size_t)w * h * d * a.bpp; i += a.bpp) if (memcmp(&a.data[i * a.bpc], &b.data[i * a.bpc], a.bpc)) { fail("alpha changed"); return; }
    outcome(b.hash()); ilShutDown();
}
SUITE(kernels)
{
    static const char* N[] = { "BlurAvg", "BlurGaussian", "Emboss", "EdgeDetectE", "EdgeDetectS", "EdgeDetectP", "Convolution 1..9", "Convolution laplace", "Convolution negative scale", "Sharpen 1.5", "Sharpen .25", "Pixelize 2", "Pixelize 3" }; static const int SZ[][3] = { { 6, 5, 1 }, { 3, 3, 1 }, { 4, 3, 2 }, { 1, 1, 1 }, { 2, 2, 1 }, { 1, 4, 1 }, { 5, 1, 1 }, { 9, 8, 1 } };
    std::vector<Kind> T; for (auto& k : K) if (k.f != IL_COLOUR_INDEX && !issg(k.t)) T.push_back(k);
    batch("kinds", 13 * 8 * T.size(), [T](uint64_t q) { int o = q % 13; q /= 13; const int* s = SZ[q % 8]; q /= 8; note("%s %s %dx%dx%d", N[o], kname(T[q]).c_str(), s[0], s[1], s[2]); kernel(o, T[q], s[0], s[1], s[2]); });
}
// a region limits the filter to its pixels
SUITE(region)
{
    batch("rect", 7 * 6 * 7 * 6 * 2 * 3, [](uint64_t q) { int x0 = q % 7; q /= 7; int y0 = q % 6; q /= 6; int x1 = q % 7; q /= 7; int y1 = q % 6; q /= 6; int fl = q & 1; q /= 2; int op = q; if (x1 <= x0 || y1 <= y0) return; note("rectangle %d,%d - %d,%d %s op %d", x0, y0, x1, y1, fl ? "float" : "int", op); Img a; if (!make({ IL_RGB, IL_UNSIGNED_BYTE, 0, 0 }, 7, 6, 2, 0, false, a)) return;
        ILpointi P[4] = { { x0, y0 }, { x1, y0 }, { x1, y1 }, { x0, y1 } }; ILpointf F[4]; for (int i = 0; i < 4; i++) { F[i].x = P[i].x / 7.f + .01f; F[i].y = P[i].y / 6.f + .01f; } if (fl) iluRegionfv(F, 4); else iluRegioniv(P, 4);
        ILboolean r = op == 0 ? iluNegative() : op == 1 ? iluBlurAvg(1) : iluNoisify(.9f); if (!r || firsterr()) { fail("failed"); iluRegioniv(0, 0); return; } Img b = snap(); iluRegioniv(0, 0); if (!attrs(a, b, true)) return;
        for (int z = 0; z < 2; z++) for (int y = 0; y < 6; y++) for (int x = 0; x < 7; x++) { eval(); bool out = x < x0 || x > x1 || y < y0 || y > y1, in = x > x0 && x < x1 && y > y0 && y < y1; const uint8_t *p = mem(a, x, y, z), *s = mem(b, x, y, z); if (out && memcmp(p, s, 3)) { fail("pixel %d,%d,%d outside of the region changed", x, y, z); return; } if (in && op == 0) for (int c = 0; c < 3; c++) if (s[c] != 255 - p[c]) { fail("pixel %d,%d,%d inside of the region was not filtered", x, y, z); return; } }
        Img c0 = snap(); iluNegative(); Img c = snap(); for (size_t i = 0; i < c.data.size(); i++) { eval(); if (c.data[i] != 255 - c0.data[i]) { fail("the region is still in force"); return; } } outcome(b.hash()); });
    // any triangle, also outside of the picture: nothing outside of its bounding box changes, nothing crashes
    batch("triangles", 7 * 7 * 7 * 7 * 7 * 7, [](uint64_t q) { int v[6]; for (int i = 0; i < 6; i++) { v[i] = (int)(q % 7) - 1; q /= 7; } note("triangle %d,%d %d,%d %d,%d", v[0], v[1], v[2], v[3], v[4], v[5]); init(); mk(5, 5, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, pattern(25, 3).data()); drain(); Img a = snap(); ILpointi P[3] = { { v[0], v[1] }, { v[2], v[3] }, { v[4], v[5] } }; bool inside = true; for (int i = 0; i < 6; i++) if (v[i] < 0 || v[i] > 4) inside = false; iluRegioniv(P, 3); drain(); ILboolean r = iluNegative(); auto e = errors(); iluRegioniv(0, 0); Img b = snap(); eval(); if (!r) { if (e.empty() || a != b) fail("refused with %zu errors, image %s", e.size(), a != b ? "changed" : "unchanged"); return; }
        int bx0 = std::min({ v[0], v[2], v[4] }), bx1 = std::max({ v[0], v[2], v[4] }), by0 = std::min({ v[1], v[3], v[5] }), by1 = std::max({ v[1], v[3], v[5] }); for (int y = 0; y < 5; y++) for (int x = 0; x < 5; x++) { int p = *mem(a, x, y, 0), s = *mem(b, x, y, 0); if (s != p && s != 255 - p) { fail("pixel %d,%d is %d", x, y, s); return; } if (inside && (x < bx0 || x > bx1 || y < by0 || y > by1) && s != p) { fail("pixel %d,%d outside of the region changed", x, y); return; } } });
    // any polygon with corners on a coarse grid: inside and outside by the even-odd rule, more than a pixel away from the border
    static const struct { int n, g; } PO[] = { { 3, 5 }, { 4, 4 }, { 5, 3 }, { 6, 3 } };
    for (int s = 0; s < (thorough ? 4 : 3); s++) { int n = PO[s].n, g = PO[s].g; uint64_t N = 1; for (int i = 0; i < n; i++) N *= g * g;
        batch(mc::sfmt("corners%d", n).c_str(), N, [n, g](uint64_t q) { static const int W = 17; int sp = 16 / (g - 1), x[6], y[6]; ILpointi P[6]; std::string t; for (int i = 0; i < n; i++) { x[i] = q % g * sp; q /= g; y[i] = q % g * sp; q /= g; P[i] = { x[i], y[i] }; t += mc::sfmt(" %d,%d", x[i], y[i]); } note("polygon%s", t.c_str());
            static Bytes pat = pattern(W * W, 3); init(); mk(W, W, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, pat.data()); drain(); iluRegioniv(P, n); ILboolean r = iluNegative(); iluRegioniv(0, 0); if (!r || firsterr()) { fail("failed"); return; } const ILubyte* d = ilGetData(); uint64_t h = 0;
            for (int py = 0; py < W; py++) for (int px = 0; px < W; px++) { bool in = false, near = false; for (int i = 0, j = n - 1; i < n && !near; j = i++) { double ex = x[i] - x[j], ey = y[i] - y[j], L = ex * ex + ey * ey, u = L > 0 ? ((px - x[j]) * ex + (py - y[j]) * ey) / L : 0; u = u < 0 ? 0 : u > 1 ? 1 : u; double dx = px - x[j] - u * ex, dy = py - y[j] - u * ey; if (dx * dx + dy * dy <= 2.0) near = true; if ((y[i] > py) != (y[j] > py) && px < (double)(x[j] - x[i]) * (py - y[i]) / (y[j] - y[i]) + x[i]) in = !in; }
                int p = pat[py * W + px], v = d[py * W + px]; if (v != p && v != 255 - p) { fail("pixel %d,%d is %d", px, py, v); return; } h = h * 3 + (v != p); if (near) continue; eval(); if ((v != p) != in) { fail("pixel %d,%d %s the region is %s", px, py, in ? "inside of" : "outside of", v != p ? "changed" : "not changed"); return; } } outcome(h); }); }
}
SUITE(count)
{
    // every assignment of up to 3 colours to up to 6 pixels
    batch("used", 4 * 729, [](uint64_t q) { static const Kind KK[] = { { IL_RGB, IL_UNSIGNED_BYTE, 0, 0 }, { IL_LUMINANCE_ALPHA, IL_UNSIGNED_SHORT, 0, 0 }, { IL_RGBA, IL_FLOAT, 0, 0 }, { IL_LUMINANCE, IL_DOUBLE, 0, 0 } }; const Kind& k = KK[q & 3]; q /= 4; note("%s assignment %d", kname(k).c_str(), (int)q); int n = channels(k.f) * bpc(k.t); Bytes c = typed_pattern(3 * channels(k.f), k.t, 9), p; std::set<int> S; for (int i = 0; i < 6; i++) { int v = q % 3; q /= 3; S.insert(v); p.insert(p.end(), &c[v * n], &c[v * n] + n); } init(); mk(3, 1, 2, k.f, k.t, p.data()); drain(); Img a = snap(); ILuint r = iluColoursUsed(); eval(); if (r != S.size()) fail("%u colours, there are %zu", r, S.size()); else if (snap() != a || firsterr()) fail("side effect"); });
    batch("many", 40, [](uint64_t q) { int n = 1 + q * 37; note("%d distinct colours", n); Bytes p; for (int i = 0; i < n; i++) { p.push_back(i); p.push_back(i >> 8); p.push_back(7); } init(); mk(n, 1, 1, IL_RGB, IL_UNSIGNED_BYTE, p.data()); drain(); ILuint r = iluColoursUsed(); eval(); if ((int)r != n) fail("%u colours", r); });
    batch("indexed", 729 * 2, [](uint64_t q) { int dup = q & 1; q /= 2; note("indexed assignment %d %s", (int)q, dup ? "equal entries" : ""); uint8_t pal[9] = { 1, 2, 3, 4, 5, 6, 7, 8, 9 }; if (dup) memcpy(pal + 6, pal, 3); Bytes ix; std::set<int> S; for (int i = 0; i < 6; i++) { int v = q % 3; q /= 3; ix.push_back(v); S.insert(dup && v == 2 ? 0 : v); } init(); mkpal(3, 2, IL_PAL_RGB24, 3, ix.data(), pal); drain(); ILuint r = iluColoursUsed(); eval(); if (r != S.size()) fail("%u colours, there are %zu", r, S.size()); });
    // comparing: equal copies are equal, any single difference is found, the binding stays
    batch("compare", K.size() * 10, [](uint64_t q) { int m = q % 10; const Kind& k = K[q / 10]; note("%s difference %d", kname(k).c_str(), m); Img a; init(); ILuint n[2]; ilGenImages(2, n); bool idx = k.f == IL_COLOUR_INDEX; int sz = 3 * 2 * 2 * channels(k.f) * bpc(k.t);
        for (int i = 0; i < 2; i++) { ilBindImage(n[i]); if (idx) { Bytes ix = pattern(12, 5); for (auto& b : ix) b %= 5; Bytes pal = pattern(6 * palbpp(k.pal), 31); if (i && m == 1) ix[11] ^= 1; if (i && m == 2) ix[0] = (ix[0] + 1) % 5; if (i && m == 3) pal[5 * palbpp(k.pal)] ^= 1; ILenum pt = k.pal; if (i && m == 6) { pt = k.pal == IL_PAL_RGB24 ? IL_PAL_BGR24 : IL_PAL_RGB24; pal.resize(18); } if (!mkpal(3, 2, pt, 6, ix.data(), pal.data(), i && m == 4 ? IL_ORIGIN_LOWER_LEFT : IL_ORIGIN_UPPER_LEFT, 2)) { fail("make"); return; } }
            else { Bytes p = typed_pattern(12 * channels(k.f), k.t, 5); if (i && m == 1) p[sz - 1 - (bpc(k.t) > 1)] ^= 1; if (i && m == 2) p[0] ^= 1; if (i && m == 3) p[sz / 2] ^= 1; if (!mk(i && m == 5 ? 2 : 3, i && m == 5 ? 3 : 2, 2, i && m == 6 ? (channels(k.f) == 1 ? (k.f == IL_ALPHA ? IL_LUMINANCE : IL_ALPHA) : channels(k.f) == 3 ? (k.f == IL_RGB ? IL_BGR : IL_RGB) : channels(k.f) == 4 ? (k.f == IL_RGBA ? IL_BGRA : IL_RGBA) : k.f) : k.f, k.t, p.data(), i && m == 4 ? IL_ORIGIN_LOWER_LEFT : IL_ORIGIN_UPPER_LEFT)) { fail("make"); return; } } }
        drain(); bool same = m == 0 || m >= 7 || (idx && m == 5) || (m == 6 && k.f == IL_LUMINANCE_ALPHA); ilBindImage(m == 8 ? n[0] : n[1]); Tree before = snaptree(m == 8 ? n[0] : n[1]); ILboolean r = iluCompareImage(m == 9 ? n[1] : m == 8 ? n[1] : n[0]); eval(2); if (firsterr()) { fail("error"); return; } if (!!r != same) { fail("compared as %s", r ? "equal" : "different"); return; } if ((ILuint)ilGetInteger(IL_CUR_IMAGE) != (m == 8 ? n[0] : n[1])) fail("binding changed"); else if (snaptree(m == 8 ? n[0] : n[1]) != before) fail("image changed");
        if (m == 0) { if (iluCompareImage(9999)) fail("equal to an image that does not exist"); else if (!firsterr()) fail("no error"); } ilShutDown(); });
}
SUITE(params)
{
    batch("bad", 12 * 4, [](uint64_t q) { int o = q % 12, k = q / 12; static const Kind KK[] = { { IL_RGB, IL_UNSIGNED_BYTE, 0, 0 }, { IL_LUMINANCE, IL_FLOAT, 0, 0 }, { IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, IL_PAL_RGB24, 6 }, { IL_RGBA, IL_UNSIGNED_SHORT, 0, 0 } }; note("bad parameter %d %s", o, kname(KK[k]).c_str()); Img a; if (!make(KK[k], 3, 3, 1, 0, false, a)) return; ILboolean r = true; ILint m[9] = { 1, 1, 1, 1, 1, 1, 1, 1, 1 }; bool mustfail = true;
        switch (o) { case 0: r = iluGammaCorrect(0); break; case 1: r = iluGammaCorrect(-1); break; case 2: r = iluGammaCorrect(NAN); break; case 3: r = iluConvolution(0, 1, 0); break; case 4: r = iluConvolution(m, 0, 0); break; case 5: r = iluWave(NAN); break; case 6: r = iluWave(INFINITY); break; case 7: r = iluSharpen(NAN, 1); break; case 8: r = iluScaleAlpha(NAN); break; case 9: r = iluNoisify(NAN); mustfail = false; break; case 10: r = iluNoisify(-1); mustfail = false; break; case 11: r = iluRotate3D(1, 0, 0, 90); break; }
        auto e = errors(); Img b = snap(); eval(); if (mustfail && r) { fail("accepted"); return; } if (r ? !e.empty() : e.empty()) fail("result %d with %zu errors", r, e.size()); else if (a != b) fail("image changed: %s", a.diff(b).c_str()); });
}
SUITE(large)   // more pixels than 16 bits count
{
    static const int L[][3] = { { 65537, 1, 1 }, { 1, 65537, 1 }, { 301, 299, 1 }, { 257, 257, 2 } }; static const Kind T[] = { { IL_RGB, IL_UNSIGNED_BYTE, 0, 0 }, { IL_RGBA, IL_UNSIGNED_SHORT, 0, 0 }, { IL_LUMINANCE, IL_UNSIGNED_BYTE, 0, 0 } };
    batch("general", OPS.size() * 4 * 3 * 2, [](uint64_t q) { set_cpu_limit(120); int o = q % OPS.size(); q /= OPS.size(); const int* s = L[q % 4]; q /= 4; const Kind& k = T[q % 3]; q /= 3; note("large %s %s %dx%dx%d%s", OPS[o].name, kname(k).c_str(), s[0], s[1], s[2], q ? " uniform" : ""); general(k, OPS[o], s[0], s[1], s[2], 0, q); });
    batch("kernels", 13 * 4 * 3, [](uint64_t q) { set_cpu_limit(120); int o = q % 13; q /= 13; const int* s = L[q % 4]; q /= 4; note("large kernel %d %s %dx%dx%d", o, kname(T[q]).c_str(), s[0], s[1], s[2]); kernel(o, T[q], s[0], s[1], s[2]); });
}
