// C17: geometric operations against exact pixel rearrangement models (in memory-row coordinates where the operation is orientation-free).
#include "conv.h"
using namespace mc; using namespace ilx; using namespace conv;
static const ILenum ORG[2] = { IL_ORIGIN_UPPER_LEFT, IL_ORIGIN_LOWER_LEFT };
static const ILenum PALS[6] = { IL_PAL_RGB24, IL_PAL_RGB32, IL_PAL_RGBA32, IL_PAL_BGR24, IL_PAL_BGR32, IL_PAL_BGRA32 };
static const uint8_t* mem(const Img& i, int x, int y, int z) { return i.data.data() + (((size_t)z * i.h + y) * i.w + x) * i.bpp * i.bpc; }
// kinds: every non-indexed (format,type) and every palette layout
struct Kind { ILenum f, t, pal; int cols; };
static std::vector<Kind> kinds()
{
    std::vector<Kind> k; for (ILenum f : FORMATS) if (f != IL_COLOUR_INDEX) for (ILenum t : TYPES) k.push_back({ f, t, 0, 0 });
    for (ILenum p : PALS) { k.push_back({ IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, p, 5 }); } k.push_back({ IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, IL_PAL_RGB24, 256 }); k.push_back({ IL_COLOUR_INDEX, IL_BYTE, IL_PAL_BGRA32, 7 }); return k;
}
static const std::vector<Kind> K = kinds();
static const std::vector<Kind> KS = { { IL_LUMINANCE, IL_UNSIGNED_BYTE, 0, 0 }, { IL_RGB, IL_UNSIGNED_BYTE, 0, 0 }, { IL_BGRA, IL_UNSIGNED_SHORT, 0, 0 }, { IL_LUMINANCE_ALPHA, IL_FLOAT, 0, 0 }, { IL_RGBA, IL_DOUBLE, 0, 0 }, { IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, IL_PAL_BGR24, 9 } };
static std::string kname(const Kind& k) { return k.pal ? sfmt("indexed palette %x/%d %s", k.pal, k.cols, tname(k.t)) : sfmt("%s %s", fname(k.f), tname(k.t)); }
static bool make(const Kind& k, int w, int h, int d, int org, Img& a, uint32_t salt = 5)
{
    init(); bool ok;
    if (k.f == IL_COLOUR_INDEX) { Bytes ix = pattern(w * h * d, salt); for (auto& b : ix) b %= k.cols; Bytes p = pattern(k.cols * palbpp(k.pal), 31); ok = mkpal(w, h, k.pal, k.cols, ix.data(), p.data(), ORG[org], d); if (ok && k.t == IL_BYTE) ok = ilConvertImage(IL_COLOUR_INDEX, IL_BYTE); }
    else ok = mk(w, h, d, k.f, k.t, typed_pattern(w * h * d * channels(k.f), k.t, salt).data(), ORG[org]);
    if (!ok) { fail("cannot make the image"); return false; }
    ilSetInteger(IL_IMAGE_DURATION, 77); drain(); a = snap(); return true;
}
// everything but pixels and extent is as before
static bool attrs(const Img& a, const Img& b, int w, int h, int d)
{
    eval(2);
    if (b.w != w || b.h != h || b.d != d) return fail("result is %dx%dx%d, expected %dx%dx%d", b.w, b.h, b.d, w, h, d);
    if (b.format != a.format || b.type != a.type || b.origin != a.origin || b.bpp != a.bpp || b.bpc != a.bpc || b.dur != a.dur) return fail("attributes changed: %s", b.diff(a).c_str());
    if (b.size != w * h * d * a.bpp * a.bpc || (int)b.data.size() != b.size || b.plane != w * h * a.bpp * a.bpc) return fail("data size %d, plane size %d", b.size, b.plane);
    return true;
}
static bool samepal(const Img& a, const Img& b) { eval(); return (a.paltype == b.paltype && a.pal == b.pal) || fail("the palette changed"); }
static bool px(const Img& a, int ax, int ay, int az, const Img& b, int bx, int by, int bz, const char* what)
{ int n = a.bpp * a.bpc; eval(); if (!memcmp(mem(a, ax, ay, az), mem(b, bx, by, bz), n)) return true; return fail("%s: stored pixel %d,%d,%d is %s, expected %s (from %d,%d,%d)", what, bx, by, bz, hex(mem(b, bx, by, bz), n).c_str(), hex(mem(a, ax, ay, az), n).c_str(), ax, ay, az); }
static bool good(ILboolean r, const char* what) { auto e = errors(); if (!r || !e.empty()) return fail("%s returned %d, error %s", what, r, e.empty() ? "none" : ename(e[0]).c_str()); return true; }
// op: 0 flip 1 mirror
static void flip(const Kind& k, int w, int h, int d, int org, int op)
{
    Img a; if (!make(k, w, h, d, org, a)) return;
    for (int rep = 0; rep < 2; rep++) {
        if (!good(op ? iluMirror() : iluFlipImage(), op ? "iluMirror" : "iluFlipImage")) return; Img b = snap();
        if (!attrs(a, b, w, h, d) || !samepal(a, b)) return;
        if (rep) { if (b != a) fail("applied twice: %s", a.diff(b).c_str()); break; }
        for (int z = 0; z < d; z++) for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) if (!px(a, op ? w - 1 - x : x, op ? y : h - 1 - y, z, b, x, y, z, op ? "mirror" : "flip")) return;
        outcome(b.hash());
    }
    ilShutDown();
}
static void quarter(const Kind& k, int w, int h, int d, int org, int q)
{
    static const float ANG[] = { 0, 90, 180, 270, 360, -90, -180, -270, 450, 720, -360, -450 }; static const int TURN[] = { 0, 1, 2, 3, 0, 3, 2, 1, 1, 0, 0, 3 };
    Img a; if (!make(k, w, h, d, org, a)) return; int t = TURN[q]; ilClearColour(.5f, .5f, .5f, .5f);
    if (!good(iluRotate(ANG[q]), "iluRotate")) return; Img b = snap(); int W = t & 1 ? h : w, H = t & 1 ? w : h;
    if (!attrs(a, b, W, H, d) || !samepal(a, b)) return;
    for (int z = 0; z < d; z++) for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { int X = t == 0 ? x : t == 1 ? h - 1 - y : t == 2 ? w - 1 - x : y, Y = t == 0 ? y : t == 1 ? x : t == 2 ? h - 1 - y : w - 1 - x; if (!px(a, x, y, z, b, X, Y, z, "turn")) return; }
    outcome(b.hash());
    int n = t == 0 ? 0 : t == 2 ? 1 : 3; for (int i = 0; i < n; i++) if (!good(iluRotate(ANG[q]), "iluRotate")) return;
    b = snap(); eval(); if (b != a) { fail("turned back to the start: %s", a.diff(b).c_str()); return; } ilShutDown();
}
static void crop(const Kind& k, int w, int h, int d, int org, unsigned xo, unsigned yo, unsigned zo, unsigned cw, unsigned ch, unsigned cd)
{
    Img a; if (!make(k, w, h, d, org, a)) return; bool three = zo > 1;
    bool bad = !cw || !ch || !cd || (uint64_t)xo + cw > (unsigned)w || (uint64_t)yo + ch > (unsigned)h || (uint64_t)zo + cd > (unsigned)d;
    bool tworule = !three && (!cd || (uint64_t)zo + cd > (unsigned)d);   // "if ZOff <= 1 only in 2 dimensions": the depth arguments need not be looked at
    ILboolean r = iluCrop(xo, yo, zo, cw, ch, cd); auto e = errors(); Img b = snap(); eval();
    bool bad2 = !cw || !ch || (uint64_t)xo + cw > (unsigned)w || (uint64_t)yo + ch > (unsigned)h;
    if (!r) {
        if (e.empty()) { fail("refused without an error"); return; } if (b != a) { fail("refused, but changed the image: %s", a.diff(b).c_str()); return; }
        if (!bad && !bad2) fail("refused: %s", ename(e[0]).c_str()); return;
    }
    if (bad && !(tworule && !bad2)) { fail("impossible request accepted, result %dx%dx%d", b.w, b.h, b.d); return; }
    if (!e.empty()) { fail("error %s on success", ename(e[0]).c_str()); return; }
    int z0 = three ? zo : 0, nd = three ? cd : d; if (!attrs(a, b, cw, ch, nd) || !samepal(a, b)) return;
    for (int z = 0; z < nd; z++) for (unsigned y = 0; y < ch; y++) for (unsigned x = 0; x < cw; x++) if (!px(a, xo + x, yo + y, z0 + z, b, x, y, z, "crop")) return;
    outcome(b.hash()); ilShutDown();
}
// expected clear colour of a pixel; for indexed images: the nearest palette entry
static const float CLEARS[][4] = { { 0, 0, 0, 0 }, { 1, 1, 1, 1 }, { .2f, .4f, .8f, .6f } };
static bool isclear(const Img& b, const uint8_t* p, const float* c)
{
    if (b.format != IL_COLOUR_INDEX) { std::string m = cmp((const uint8_t*)c, IL_RGBA, IL_FLOAT, 0, 0, p, b.format, b.type, 1);
        if (!m.empty() && b.bpp == 1 && b.format == IL_LUMINANCE) return fail("background: %s", m.c_str()); return m.empty() || fail("background: %s", m.c_str()); }
    // a palette with room gets the colour, a full one the nearest entry
    int n = palbpp(b.paltype), cols = b.pal.size() / n; bool bgr = b.paltype == IL_PAL_BGR24 || b.paltype == IL_PAL_BGR32 || b.paltype == IL_PAL_BGRA32, al = b.paltype == IL_PAL_RGBA32 || b.paltype == IL_PAL_BGRA32;
    auto dist = [&](int i) { double s = 0; for (int j = 0; j < 3 + al; j++) { double v = b.pal[i * n + j], w = std::floor(c[bgr && j != 3 ? 2 - j : j] * 255 + .5); s += (v - w) * (v - w); } return s; };
    if (*p >= cols) return fail("background index %d of %d", *p, cols); double best = 1e9; for (int i = 0; i < cols; i++) best = std::min(best, dist(i));
    if (dist(*p) > best + 3 * 511 && cols == 256) return fail("background index %d is not the nearest colour", *p);
    if (cols < 256 && dist(*p) > 4) return fail("background is not the clear colour (squared distance %g)", dist(*p)); return true;
}
static void canvas(const Kind& k, int w, int h, int d, int org, int pl, int clr, unsigned W, unsigned H, unsigned D)
{
    Img a; if (!make(k, w, h, d, org, a)) return; iluImageParameter(ILU_PLACEMENT, ILU_LOWER_LEFT + pl); const float* c = CLEARS[clr]; ilClearColour(c[0], c[1], c[2], c[3]); drain();
    ILboolean r = iluEnlargeCanvas(W, H, D); auto e = errors(); Img b = snap(); eval();
    if (W < (unsigned)w || H < (unsigned)h || D < (unsigned)d) { if (r) fail("smaller canvas accepted"); else if (e.empty()) fail("no error"); else if (b != a) fail("refused, but changed the image: %s", a.diff(b).c_str()); return; }
    if (!r || !e.empty()) { fail("returned %d, error %s", r, e.empty() ? "none" : ename(e[0]).c_str()); return; }
    if (!attrs(a, b, W, H, D)) return; if (a.format == IL_COLOUR_INDEX) { eval(); if (b.paltype != a.paltype || b.pal.size() < a.pal.size() || !std::equal(a.pal.begin(), a.pal.end(), b.pal.begin())) { fail("palette entries changed"); return; } }
    // placement counted from the top
    int px_ = pl == 0 || pl == 2 ? 0 : pl == 4 ? (int)(W - w) / 2 : W - w, py = pl == 2 || pl == 3 ? 0 : pl == 4 ? (int)(H - h) / 2 : H - h; if (pl == 4 && org) py = H - h - (int)(H - h) / 2;
    for (unsigned z = 0; z < D; z++) for (unsigned y = 0; y < H; y++) for (unsigned x = 0; x < W; x++) {
        int sx = (int)x - px_, sy = (int)y - py; bool in = sx >= 0 && sy >= 0 && sx < w && sy < h && (int)z < d; const uint8_t* q = b.at(x, y, z); eval();
        if (in ? memcmp(q, a.at(sx, sy, z), a.bpp * a.bpc) != 0 : false) { fail("pixel %u,%u,%u (from the top) is %s, expected %s", x, y, z, hex(q, a.bpp * a.bpc).c_str(), hex(a.at(sx, sy, z), a.bpp * a.bpc).c_str()); return; }
        if (!in && !isclear(b, q, c)) return; }
    outcome(b.hash()); ilShutDown();
}
// arbitrary angle: every pixel comes from the exact place, the rest is cleared
static void rotate(const Kind& k, int w, int h, int d, int org, double deg)
{
    Img a; if (!make(k, w, h, d, org, a)) return; const float* c = CLEARS[2]; ilClearColour(c[0], c[1], c[2], c[3]); drain();
    if (!good(iluRotate((float)deg), "iluRotate")) return; Img b = snap(); double r = (float)deg * M_PI / 180, C = cos(r), S = sin(r);
    double X[4] = { 0, w * C, -h * S, w * C - h * S }, Y[4] = { 0, w * S, h * C, w * S + h * C }; double x0 = *std::min_element(X, X + 4), x1 = *std::max_element(X, X + 4), y0 = *std::min_element(Y, Y + 4), y1 = *std::max_element(Y, Y + 4);
    // the canvas holds the turned rectangle and is no larger than rounding both ends outwards
    eval(2); if (b.w < x1 - x0 - 1e-6 || b.w > x1 - x0 + 2 + 1e-6 || b.h < y1 - y0 - 1e-6 || b.h > y1 - y0 + 2 + 1e-6) { fail("result is %dx%d for a rectangle of %.3fx%.3f", b.w, b.h, x1 - x0, y1 - y0); return; }
    if (!attrs(a, b, b.w, b.h, d)) return; int n = a.bpp * a.bpc;
    // corners that are whole numbers up to rounding may be rounded either way
    std::vector<double> OX = { std::floor(x0) }, OY = { std::floor(y0) }; if (std::fabs(x0 - std::round(x0)) < 1e-5) OX = { std::round(x0), std::round(x0) - 1 }; if (std::fabs(y0 - std::round(y0)) < 1e-5) OY = { std::round(y0), std::round(y0) - 1 };
    std::string why;
    for (double ox : OX) for (double oy : OY) {
        std::string m; 
        for (int z = 0; z < d && m.empty(); z++) for (int y = 0; y < b.h && m.empty(); y++) for (int x = 0; x < b.w && m.empty(); x++) {
            double sx = (x + ox) * C + (y + oy) * S, sy = (y + oy) * C - (x + ox) * S; const uint8_t* q = mem(b, x, y, z); bool ok = false, any = false, out = false; eval();
            for (int i = -1; i < 2; i++) for (int j = -1; j < 2; j++) { int ix = (int)std::floor(sx + i * 1e-4), iy = (int)std::floor(sy + j * 1e-4); if (ix < 0 || iy < 0 || ix >= w || iy >= h) { out = true; continue; } any = true; if (!memcmp(q, mem(a, ix, iy, z), n)) ok = true; }
            if (any && ok) continue; if (!out) { m = sfmt("stored pixel %d,%d,%d is %s, does not come from %.3f,%.3f", x, y, z, hex(q, n).c_str(), sx, sy); break; }
            if (!isclear(b, q, c)) return; }
        if (m.empty()) { outcome(b.hash()); ilShutDown(); return; } if (why.empty()) why = m; }
    fail("%s", why.c_str());
}
static void swapc(const Kind& k, int w, int h, int d, int org)
{
    Img a; if (!make(k, w, h, d, org, a)) return; ILboolean r = iluSwapColours(); auto e = errors(); Img b = snap(); eval();
    bool can = a.format == IL_RGB || a.format == IL_BGR || a.format == IL_RGBA || a.format == IL_BGRA || a.format == IL_COLOUR_INDEX;
    if (!r) { if (can) fail("refused: %s", e.empty() ? "no error" : ename(e[0]).c_str()); else if (e.empty()) fail("no error"); else if (b != a) fail("refused, but changed the image: %s", a.diff(b).c_str()); return; }
    if (!can) { fail("accepted"); return; } if (!e.empty()) { fail("error %s on success", ename(e[0]).c_str()); return; }
    // the picture stays the same, stored the other way round
    if (a.format == IL_COLOUR_INDEX) { if (b.data != a.data || b.format != a.format || b.pal.size() != a.pal.size()) { fail("indices changed"); return; } int n = palbpp(a.paltype); static const ILenum OTHER[6] = { IL_PAL_BGR24, IL_PAL_BGR32, IL_PAL_BGRA32, IL_PAL_RGB24, IL_PAL_RGB32, IL_PAL_RGBA32 };
        for (int i = 0; i < 6; i++) if ((ILenum)a.paltype == PALS[i] && (ILenum)b.paltype != OTHER[i]) { fail("palette type %x became %x", a.paltype, b.paltype); return; }
        for (size_t i = 0; i + n <= a.pal.size(); i += n) { eval(); bool m = a.pal[i] == b.pal[i + 2] && a.pal[i + 1] == b.pal[i + 1] && a.pal[i + 2] == b.pal[i]; if (n == 4 && (a.paltype == IL_PAL_RGBA32 || a.paltype == IL_PAL_BGRA32)) m = m && a.pal[i + 3] == b.pal[i + 3]; if (!m) { fail("palette entry %zu", i / n); return; } } }
    else { ILenum want = a.format == IL_RGB ? IL_BGR : a.format == IL_BGR ? IL_RGB : a.format == IL_RGBA ? IL_BGRA : IL_RGBA; if ((ILenum)b.format != want) { fail("format %s", fname(b.format)); return; } Img b2 = b; b2.format = a.format; if (!attrs(a, b2, w, h, d)) return;
        int s = a.bpc, n = a.bpp * s; for (size_t i = 0; i < a.data.size(); i += n) { eval(); bool m = !memcmp(&a.data[i], &b.data[i + 2 * s], s) && !memcmp(&a.data[i + s], &b.data[i + s], s) && !memcmp(&a.data[i + 2 * s], &b.data[i], s) && (a.bpp == 3 || !memcmp(&a.data[i + 3 * s], &b.data[i + 3 * s], s)); if (!m) { fail("pixel %zu", i / n); return; } } }
    if (!good(iluSwapColours(), "second iluSwapColours")) return; b = snap(); eval(); bool rgb32 = a.paltype == IL_PAL_RGB32 || a.paltype == IL_PAL_BGR32; if (rgb32) { for (size_t i = 3; i < a.pal.size(); i += 4) a.pal[i] = b.pal[i] = 0; } if (b != a) { fail("swapped twice: %s", a.diff(b).c_str()); return; }
    outcome(b.hash()); ilShutDown();
}
static void replace(const Kind& k, int w, int h, int d, int org, int tolq, int mode)
{
    static const float TOL[] = { 0, .02f, .1f, .5f, 1, -.1f, 7, NAN }; float tol = TOL[tolq];
    Img a; if (!make(k, w, h, d, org, a)) return;
    // the colour looked for: that of the middle pixel (mode 0), a fixed one (mode 1)
    uint8_t cc[4] = { 60, 120, 180, 255 }; Bytes m(4); if (mode == 0) { ilCopyPixels(w / 2, h / 2, 0, 1, 1, 1, IL_RGBA, IL_UNSIGNED_BYTE, m.data()); memcpy(cc, m.data(), 4); drain(); }
    ilClearColour(cc[0] / 255.f, cc[1] / 255.f, cc[2] / 255.f, 1); drain(); uint8_t N[3] = { 10, 200, 77 };
    ILboolean r = iluReplaceColour(N[0], N[1], N[2], tol); auto e = errors(); Img b = snap(); eval();
    bool can = a.format != IL_ALPHA;
    if (!r) { if (can) fail("refused: %s", e.empty() ? "no error" : ename(e[0]).c_str()); else if (e.empty()) fail("no error"); else if (b != a) fail("refused, but changed the image: %s", a.diff(b).c_str()); return; }
    if (!can) { fail("accepted"); return; } if (!e.empty()) { fail("error %s on success", ename(e[0]).c_str()); return; } if (!attrs(a, b, w, h, d)) return;
    bool grey = graylike(a.format); double t = !(tol <= 1 && tol >= -1) ? 1 : std::fabs(tol); int T = (int)(t * 255);
    bool idx = a.format == IL_COLOUR_INDEX; if (idx && b.data != a.data) { fail("indices changed"); return; } const Bytes &A = idx ? a.pal : a.data, &B = idx ? b.pal : b.data; ILenum ty = idx ? IL_UNSIGNED_BYTE : (ILenum)a.type;
    int s = bpc(ty), nc = idx ? palbpp(a.paltype) : a.bpp, n = nc * s; bool bgr = a.format == IL_BGR || a.format == IL_BGRA || (idx && (a.paltype == IL_PAL_BGR24 || a.paltype == IL_PAL_BGR32 || a.paltype == IL_PAL_BGRA32)); double M = umax(ty);
    double want[3]; for (int i = 0; i < 3; i++) want[i] = cc[bgr ? 2 - i : i]; double nw[3]; for (int i = 0; i < 3; i++) nw[i] = N[bgr ? 2 - i : i]; if (grey) { want[0] = .212671 * cc[0] + .715160 * cc[1] + .072169 * cc[2]; nw[0] = .212671 * N[0] + .715160 * N[1] + .072169 * N[2]; }
    int cn = grey ? 1 : 3; int changed = 0;
    for (size_t i = 0; i + n <= A.size(); i += n) { eval(); double sum = 0; for (int c = 0; c < cn; c++) { double v = raw(&A[i + c * s], ty) / M * 255 - want[c]; sum += v * v; } double dist = std::sqrt(sum), slack = grey ? 1.01 : ty == IL_UNSIGNED_BYTE || ty == IL_BYTE ? 1e-9 : 0.02;
        bool same = !memcmp(&A[i], &B[i], n); bool isnew = true; for (int c = 0; c < cn; c++) { double v = raw(&B[i + c * s], ty) / M * 255; double al = (grey ? 1.01 : 0.02) + 260 * (ty == IL_HALF ? 1 / 1000. : 1e-6); if (std::fabs(v - nw[c]) > al) isnew = false; } if (memcmp(&A[i + cn * s], &B[i + cn * s], n - cn * s)) { fail("alpha of pixel %zu changed", i / n); return; }
        bool must = T == 0 ? dist == 0 && !(grey) : dist + slack < T + 1, mustnot = T == 0 ? dist > slack : dist - slack >= T + 1;
        if (!same && !isnew) { fail("pixel %zu (%s) became %s", i / n, hex(&A[i], n).c_str(), hex(&B[i], n).c_str()); return; }
        if (must && !isnew) { fail("pixel %zu (%s) at distance %.4g not replaced (tolerance %d)", i / n, hex(&A[i], n).c_str(), dist, T); return; }
        if (mustnot && !same) { fail("pixel %zu (%s) at distance %.4g replaced (tolerance %d)", i / n, hex(&A[i], n).c_str(), dist, T); return; } if (!same) changed++; }
    outcome(b.hash()); ilShutDown();
}
SUITE(flip)
{
    int S = thorough ? 5 : 4; static const int D[] = { 1, 2, 3 };
    batch("kinds", K.size() * S * S * 3 * 2 * 2, [S](uint64_t q) { int op = q & 1; q /= 2; int org = q & 1; q /= 2; int d = D[q % 3]; q /= 3; int w = 1 + q % S; q /= S; int h = 1 + q % S; q /= S; note("%s %s %dx%dx%d %s", op ? "mirror" : "flip", kname(K[q]).c_str(), w, h, d, org ? "lower" : "upper"); flip(K[q], w, h, d, org, op); });
    int B = thorough ? 80 : 40; batch("sizes", 2 * KS.size() * B * 3, [B](uint64_t q) { int op = q & 1; q /= 2; int k = q % KS.size(); q /= KS.size(); int n = 1 + q % B, m = q / B; int w = m == 0 ? n : m == 1 ? 3 : n, h = m == 0 ? 2 : n; note("%s %s %dx%d", op ? "mirror" : "flip", kname(KS[k]).c_str(), w, h); flip(KS[k], w, h, 1, 0, op); });
}
SUITE(turn)
{
    int S = thorough ? 4 : 3;
    batch("kinds", K.size() * S * S * 2 * 2 * 12, [S](uint64_t q) { int a = q % 12; q /= 12; int org = q & 1; q /= 2; int d = 1 + (q & 1); q /= 2; int w = 1 + q % S; q /= S; int h = 1 + q % S; q /= S; note("angle#%d %s %dx%dx%d %s", a, kname(K[q]).c_str(), w, h, d, org ? "lower" : "upper"); quarter(K[q], w, h, d, org, a); });
    batch("sizes", 12 * KS.size() * 20 * 3, [](uint64_t q) { int a = q % 12; q /= 12; int k = q % KS.size(); q /= KS.size(); int n = 1 + q % 20, m = q / 20; int w = m == 0 ? n : m == 1 ? 3 : n, h = m == 0 ? 2 : n; note("angle#%d %s %dx%d", a, kname(KS[k]).c_str(), w, h); quarter(KS[k], w, h, 1, 0, a); });
    int ST = thorough ? 1 : 3; batch("angles", (1440 / ST) * KS.size() * 3, [ST](uint64_t q) { int k = q % KS.size(); q /= KS.size(); int m = q % 3; q /= 3; double deg = -360 + q * 0.5 * ST + 0.25; note("%g degrees %s #%d", deg, kname(KS[k]).c_str(), m); rotate(KS[k], m == 0 ? 5 : m == 1 ? 1 : 9, m == 0 ? 3 : m == 1 ? 6 : 9, m == 1 ? 2 : 1, m & 1, deg); });
    batch("whole", 720 * 2, [](uint64_t q) { int k = q & 1; int deg = (int)(q / 2) - 360; if (deg % 90 == 0) return; note("%d degrees %d", deg, k); rotate(KS[k ? 1 : 5], 4, 7, 1, 0, deg); });
    batch("refuse", K.size() * 6, [](uint64_t q) { static const float A[] = { NAN, INFINITY, -INFINITY, 45, 30, 1e30f }; int i = q % 6; Kind k = K[q / 6]; note("%s %g", kname(k).c_str(), A[i]); Img a; if (!make(k, 3, 2, 1, 0, a)) return; ILboolean r = i < 3 || i == 5 ? iluRotate(A[i]) : iluRotate3D(i == 3, 1, 0, A[i]); auto e = errors(); Img b = snap(); eval(); if (i == 5) { if (r ? !e.empty() : e.empty() || a != b) fail("result %d with %zu errors", r, e.size()); return; } if (r ? !e.empty() : e.empty()) { fail("returned %d with %zu errors", r, e.size()); return; } if (i < 3 && r) fail("accepted"); if (!r && a != b) fail("changed the image: %s", a.diff(b).c_str()); });
}
SUITE(crop)
{
    batch("all2", KS.size() * 2 * 6 * 5 * 6 * 5, [](uint64_t q) { int k = q % KS.size(); q /= KS.size(); int org = q & 1; q /= 2; int xo = q % 6; q /= 6; int yo = q % 5; q /= 5; int w = q % 6; q /= 6; int h = q; note("%s 4x3 %s off %d,%d size %dx%d", kname(KS[k]).c_str(), org ? "lower" : "upper", xo, yo, w, h); crop(KS[k], 4, 3, 1, org, xo, yo, 0, w, h, 1); });
    int Z = 6; batch("all3", 4 * 4 * 6 * 4 * 4 * 6 * 2, [Z](uint64_t q) { int xo = q % 4; q /= 4; int yo = q % 4; q /= 4; int zo = q % Z; q /= Z; int w = q % 4; q /= 4; int h = q % 4; q /= 4; int d = q % Z; q /= Z; const Kind& k = KS[q ? 2 : 0]; note("%s 3x2x4 off %d,%d,%d size %dx%dx%d", kname(k).c_str(), xo, yo, zo, w, h, d); crop(k, 3, 2, 4, q, xo, yo, zo, w, h, d); });
    batch("kinds", K.size() * 2 * 4, [](uint64_t q) { int org = q & 1; q /= 2; int m = q % 4; q /= 4; note("%s %d %d", kname(K[q]).c_str(), org, m); crop(K[q], 5, 4, 4, org, m, m & 1, m, 5 - m, 2, m == 0 ? 1 : m == 1 ? 3 : 1); });
    batch("far", 6 * 6 * 3, [](uint64_t q) { static const unsigned O[] = { 0, 1, 2, 0x7fffffffu, 0xfffffffeu, 0xffffffffu }; unsigned o = O[q % 6], s = O[q / 6 % 6]; int ax = q / 36; note("axis %d off %u size %u", ax, o, s); crop(KS[1], 3, 3, 3, 0, ax == 0 ? o : 0, ax == 1 ? o : 0, ax == 2 ? o : 0, ax == 0 ? s : 3, ax == 1 ? s : 3, ax == 2 ? s : 3); });
}
SUITE(canvas)
{
    batch("all2", KS.size() * 2 * 5 * 3 * 5 * 5, [](uint64_t q) { int k = q % KS.size(); q /= KS.size(); int org = q & 1; q /= 2; int pl = q % 5; q /= 5; int c = q % 3; q /= 3; int W = 2 + q % 5; q /= 5; int H = 1 + q; note("%s %s placement %d clear %d to %dx%d", kname(KS[k]).c_str(), org ? "lower" : "upper", pl, c, W, H); canvas(KS[k], 3, 2, 1, org, pl, c, W, H, 1); });
    batch("kinds", K.size() * 2 * 5 * 3 * 3, [](uint64_t q) { int org = q & 1; q /= 2; int pl = q % 5; q /= 5; int c = q % 3; q /= 3; int m = q % 3; q /= 3; note("%s %s placement %d clear %d #%d", kname(K[q]).c_str(), org ? "lower" : "upper", pl, c, m); canvas(K[q], 2, 3, 1 + (m == 1), org, pl, c, m == 2 ? 2 : 5, m == 2 ? 3 : 4, m == 0 ? 1 : 3); });
    batch("depth", 5 * 4 * 4 * 4 * 3, [](uint64_t q) { int pl = q % 5; q /= 5; int W = 1 + q % 4; q /= 4; int H = 1 + q % 4; q /= 4; int D = 1 + q % 4; q /= 4; note("placement %d to %dx%dx%d kind %d", pl, W, H, D, (int)q); canvas(KS[q * 2], 2, 2, 2, 0, pl, 2, W, H, D); });
}
SUITE(swap) { batch("kinds", K.size() * 2 * 4, [](uint64_t q) { int org = q & 1; q /= 2; int m = q % 4; q /= 4; note("%s %d #%d", kname(K[q]).c_str(), org, m); swapc(K[q], m == 0 ? 1 : 3 + m, m == 1 ? 1 : 3, 1 + m / 2, org); }); }
SUITE(replace) { batch("kinds", K.size() * 8 * 2 * 2 * 2, [](uint64_t q) { int org = q & 1; q /= 2; int mode = q & 1; q /= 2; int d = 1 + (q & 1); q /= 2; int t = q % 8; q /= 8; note("%s tolerance #%d mode %d depth %d org %d", kname(K[q]).c_str(), t, mode, d, org); replace(K[q], 4, 3, d, org, t, mode); }); }
// images with chains: the operations act on the selected member only and keep the rest
SUITE(chains)
{
    static const char* OPS[] = { "flip", "mirror", "rotate 90", "rotate 30", "crop", "canvas", "swap", "replace", "scale" };
    batch("chain", 9 * 3 * 3, [](uint64_t q) {
        int op = q % 9; q /= 9; int sel = q % 3, kind = q / 3; note("%s on member %d of chain %d", OPS[op], sel, kind); init(); ILuint n; ilGenImages(1, &n); ilBindImage(n);
        Bytes p = pattern(4 * 3 * 3, 9); ilTexImage(4, 3, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, p.data()); ilCreateSubImage(kind == 0 ? IL_SUB_NEXT : kind == 1 ? IL_SUB_LAYER : IL_SUB_NEXT, 2);
        auto act = [&](int i) { ilBindImage(n); return kind == 1 ? ilActiveLayer(i) : ilActiveImage(i); };
        for (int i = 1; i < 3; i++) { act(i); if (!iluScale(4, 3, 1) || !ilConvertImage(IL_RGB, IL_UNSIGNED_BYTE) || !ilSetData(pattern(36, 20 + i).data())) { fail("cannot build member %d: %s", i, ename(firsterr()).c_str()); return; } }
        drain(); ilBindImage(n); Tree before = snaptree(n); act(sel); drain(); int cur = ilGetInteger(kind == 1 ? IL_ACTIVE_LAYER : IL_ACTIVE_IMAGE); Img me = snap(); act(cur); drain(); ilClearColour(0, 0, 0, 1);
        ILboolean r = false; switch (op) { case 0: r = iluFlipImage(); break; case 1: r = iluMirror(); break; case 2: r = iluRotate(90); break; case 3: r = iluRotate(30); break; case 4: r = iluCrop(1, 1, 0, 2, 2, 1); break; case 5: r = iluEnlargeCanvas(6, 5, 1); break; case 6: r = iluSwapColours(); break; case 7: r = iluReplaceColour(1, 2, 3, .5f); break; case 8: r = iluScale(2, 2, 1); break; }
        if (!r || firsterr()) { fail("failed"); return; } Img now = snap(); eval(4); if (ilGetInteger(kind == 1 ? IL_ACTIVE_LAYER : IL_ACTIVE_IMAGE) != cur) { fail("selection moved"); return; }
        Tree after = snaptree(n); // same tree, except for that member
        std::function<void(Tree&, int)> setm = [&](Tree& t, int i) { if (i == 0) { int a1 = t.img.nimg, a2 = t.img.nlay; t.img = now; (void)a1; (void)a2; } else (kind == 1 ? t.lays : t.imgs)[i - 1].img = now; };
        setm(before, cur); if (before != after) fail("%s", before.diff(after).c_str()); (void)me; outcome(after.hash()); ilShutDown(); });
}
SUITE(large)   // more pixels than 16 bits count
{
    static const int L[][3] = { { 65537, 1, 1 }, { 1, 65537, 1 }, { 1, 1, 65537 }, { 301, 299, 1 }, { 40000, 2, 1 } };
    batch("large", 5 * KS.size() * 2 * 10, [](uint64_t q) { set_cpu_limit(120); const int* z = L[q % 5]; q /= 5; const Kind& k = KS[q % KS.size()]; q /= KS.size(); int org = q & 1, op = q / 2; note("operation %d of %s %dx%dx%d org %d", op, kname(k).c_str(), z[0], z[1], z[2], org);
        switch (op) { case 0: case 1: flip(k, z[0], z[1], z[2], org, op); break; case 2: case 3: case 4: if (z[2] == 1) quarter(k, z[0], z[1], z[2], org, op - 1); break; case 5: crop(k, z[0], z[1], z[2], org, z[0] / 4, z[1] / 4, z[2] / 4, (z[0] + 1) / 2, (z[1] + 1) / 2, (z[2] + 1) / 2); break; case 6: canvas(k, z[0], z[1], z[2], org, 4, 1, z[0] + 3, z[1] + 1, z[2]); break; case 7: swapc(k, z[0], z[1], z[2], org); break; case 8: replace(k, z[0], z[1], z[2], org, 1, 0); break; case 9: canvas(k, 3, 2, 1, org, 1, 1, z[0], z[1], z[2]); break; } });
}
