// C06: ilConvertImage for every pair of format and type.
#include "conv.h"
using namespace mc; using namespace ilx; using namespace conv;
struct FT { ILenum f, t; };
static std::vector<FT> fts() { std::vector<FT> v; for (ILenum f : FORMATS) for (ILenum t : TYPES) if (f != IL_COLOUR_INDEX || bpc(t) == 1) v.push_back({ f, t }); return v; }
static std::vector<FT> dfts() { std::vector<FT> v; for (ILenum f : FORMATS) for (ILenum t : TYPES) v.push_back({ f, t }); return v; }
static const ILenum PALS[] = { IL_PAL_RGB24, IL_PAL_RGB32, IL_PAL_RGBA32, IL_PAL_BGR24, IL_PAL_BGR32, IL_PAL_BGRA32 };
static bool make(FT s, int w, int h, int d, ILenum org, ILenum pt, uint32_t salt, int cols = 16)
{
    if (s.f == IL_COLOUR_INDEX) { Bytes ix = pattern(w * h * d, salt); for (auto& b : ix) b %= cols; Bytes pal = pattern(cols * palbpp(pt), salt + 9); return mkpal(w, h, pt, cols, ix.data(), pal.data(), org, d) && (s.t == IL_UNSIGNED_BYTE || true); }
    Bytes px = typed_pattern(w * h * d * channels(s.f), s.t, salt); return mk(w, h, d, s.f, s.t, px.data(), org);
}
static bool supported(FT, FT d) { return d.f != IL_COLOUR_INDEX || bpc(d.t) == 1; }
static std::string shape(const Img& b, const Img& a, FT d)
{
    if (a.w != b.w || a.h != b.h || a.d != b.d) return sfmt("size became %dx%dx%d", a.w, a.h, a.d);
    if (a.origin != b.origin) return sfmt("origin became %x", a.origin);
    if (a.format != (int)d.f || a.type != (int)d.t) return sfmt("format/type became %s/%s", fname(a.format), tname(a.type));
    if (a.bpp != channels(d.f) || ilGetInteger(IL_IMAGE_BYTES_PER_PIXEL) != channels(d.f) * bpc(d.t) || ilGetInteger(IL_IMAGE_BITS_PER_PIXEL) != 8 * channels(d.f) * bpc(d.t)) return sfmt("%d channels, %d bytes, %d bits per pixel", a.bpp, ilGetInteger(IL_IMAGE_BYTES_PER_PIXEL), ilGetInteger(IL_IMAGE_BITS_PER_PIXEL));
    if (a.bpc != bpc(d.t)) return sfmt("bytes per channel %d", a.bpc);
    if (a.size != a.w * a.h * a.d * a.bpp * a.bpc || (int)a.data.size() != a.size) return sfmt("data size %d", a.size);
    if (a.plane != a.w * a.h * a.bpp * a.bpc) return sfmt("plane size %d", a.plane);
    if (d.f == IL_COLOUR_INDEX ? a.pal.empty() : a.paltype != IL_PAL_NONE) return sfmt("palette type %x size %zu", a.paltype, a.pal.size());
    if (a.dur != b.dur || a.offx != b.offx || a.offy != b.offy) return "duration/offset changed";
    if (a.nimg != b.nimg || a.nmip != b.nmip || a.nlay != b.nlay || a.nface != b.nface) return "sub-image counts changed";
    return "";
}
static void one(FT s, FT d, int w, int h, int dep, ILenum org, ILenum pt, uint32_t salt)
{
    note("%s/%s%s -> %s/%s %dx%dx%d org=%d salt=%u", fname(s.f), tname(s.t), s.f == IL_COLOUR_INDEX ? sfmt(" pal %x", pt).c_str() : "", fname(d.f), tname(d.t), w, h, dep, org == IL_ORIGIN_LOWER_LEFT, salt);
    init(); if (!make(s, w, h, dep, org, pt, salt)) { fail("cannot make the image: %x", ilGetError()); return; }
    if (s.f == IL_COLOUR_INDEX && s.t != IL_UNSIGNED_BYTE) { ilShutDown(); return; }
    ilSetDuration(77); drain(); Img b = snap();
    bool ok = ilConvertImage(d.f, d.t); auto e = errors(); Img a = snap(); eval(4);
    if (!supported(s, d)) { if (ok) fail("succeeded"); else if (e.empty()) fail("no error"); else if (a != b) fail("changed the image: %s", b.diff(a).c_str()); }
    else if (!ok) fail("failed: %s", e.empty() ? "no error" : ename(e[0]).c_str());
    else if (!e.empty()) fail("succeeded with error %s", ename(e[0]).c_str());
    else {
        std::string x;
        if (s.f == d.f && s.t == d.t) { if (a != b) fail("identity conversion changed: %s", b.diff(a).c_str()); }
        else if (!(x = shape(b, a, d)).empty()) fail("%s", x.c_str());
        else if (d.f == IL_COLOUR_INDEX) {
            int n = palbpp(a.paltype), cols = n ? (int)a.pal.size() / n : 0; for (uint8_t v : a.data) if (v >= cols) { fail("index %d outside palette of %d", v, cols); break; }
        }
        else { x = cmp(b.data.data(), s.f, s.t, &b.pal, b.paltype, a.data.data(), d.f, d.t, (size_t)w * h * dep); eval((uint64_t)w * h * dep * channels(d.f)); if (!x.empty()) fail("%s", x.c_str()); }
        outcome(a.hash());
    }
    ilShutDown();
}
SUITE(pairs)
{
    static auto S = fts(); static auto D = dfts();
    static const int sz[][3] = { { 1, 1, 1 }, { 3, 2, 1 }, { 2, 3, 2 }, { 7, 1, 1 } };
    uint64_t n = S.size() * D.size() * 4 * 2 * (thorough ? 6 : 1);
    batch("pairs", n, [](uint64_t q) { auto s = S[q % S.size()]; q /= S.size(); auto d = D[q % D.size()]; q /= D.size(); int z = q % 4; q /= 4; int o = q % 2; q /= 2;
        one(s, d, sz[z][0], sz[z][1], sz[z][2], o ? IL_ORIGIN_LOWER_LEFT : IL_ORIGIN_UPPER_LEFT, PALS[(q + z + o) % 6], 3 + q); });
}
SUITE(palettes)   // every palette layout, every destination
{
    static auto D = dfts();
    batch("pal", D.size() * 6 * 3, [](uint64_t q) { auto d = D[q % D.size()]; q /= D.size(); one({ IL_COLOUR_INDEX, IL_UNSIGNED_BYTE }, d, 5, 3, 1 + q / 6, q % 2 ? IL_ORIGIN_LOWER_LEFT : IL_ORIGIN_UPPER_LEFT, PALS[q % 6], 40 + q); });
}
// every 8-bit (16-bit, in thorough) sample value through every pair of types
SUITE(values)
{
    static auto D = dfts(); static const FT S[] = { { IL_LUMINANCE, IL_UNSIGNED_BYTE }, { IL_LUMINANCE, IL_BYTE }, { IL_RGB, IL_UNSIGNED_BYTE }, { IL_RGBA, IL_UNSIGNED_BYTE }, { IL_BGRA, IL_BYTE }, { IL_LUMINANCE_ALPHA, IL_UNSIGNED_BYTE }, { IL_ALPHA, IL_UNSIGNED_BYTE }, { IL_LUMINANCE, IL_UNSIGNED_SHORT }, { IL_RGBA, IL_UNSIGNED_SHORT }, { IL_LUMINANCE, IL_SHORT }, { IL_LUMINANCE, IL_HALF }, { IL_RGB, IL_HALF } };
    batch("values", D.size() * 12, [](uint64_t q) { auto s = S[q % 12]; auto d = D[q / 12]; if (d.f == IL_COLOUR_INDEX) return;
        int nv = bpc(s.t) == 1 ? 256 : 65536, c = channels(s.f), b = bpc(s.t), stp = bpc(s.t) == 2 && !thorough ? 7 : 1; note("all values of %s/%s -> %s/%s", fname(s.f), tname(s.t), fname(d.f), tname(d.t));
        Bytes px; int n = 0;
        for (int v = 0; v < nv; v += stp) { if (s.t == IL_HALF && ((v >> 10) & 31) == 31) continue;
            for (int k = 0; k < c; k++) { int u = k == 0 ? v : s.t == IL_HALF ? ((v * (2 * k + 1)) % 0x7c00) : (v * (2 * k + 1) + k * 85) & (nv - 1); px.push_back(u & 255); if (b == 2) px.push_back(u >> 8); } n++; }
        init(); if (!mk(n, 1, 1, s.f, s.t, px.data())) { fail("make"); return; }
        if (!ilConvertImage(d.f, d.t)) { fail("failed %x", ilGetError()); return; }
        Img a = snap(); eval((uint64_t)n * channels(d.f)); std::string x = a.w != n ? "width" : cmp(px.data(), s.f, s.t, 0, 0, a.data.data(), d.f, d.t, n); if (!x.empty()) fail("%s", x.c_str()); outcome(a.hash()); ilShutDown(); });
}
// conversions that only reorder channels or widen types lose nothing when reversed
SUITE(reverse)
{
    struct V { FT a, b; }; static std::vector<V> vs;
    static const ILenum wid[][2] = { { IL_UNSIGNED_BYTE, IL_UNSIGNED_SHORT }, { IL_UNSIGNED_BYTE, IL_UNSIGNED_INT }, { IL_UNSIGNED_SHORT, IL_UNSIGNED_INT }, { IL_UNSIGNED_BYTE, IL_FLOAT }, { IL_UNSIGNED_SHORT, IL_FLOAT }, { IL_UNSIGNED_BYTE, IL_DOUBLE }, { IL_UNSIGNED_SHORT, IL_DOUBLE }, { IL_UNSIGNED_INT, IL_DOUBLE }, { IL_FLOAT, IL_DOUBLE }, { IL_HALF, IL_FLOAT }, { IL_HALF, IL_DOUBLE }, { IL_UNSIGNED_BYTE, IL_HALF }, { IL_BYTE, IL_SHORT }, { IL_BYTE, IL_INT }, { IL_SHORT, IL_INT }, { IL_BYTE, IL_UNSIGNED_SHORT }, { IL_UNSIGNED_BYTE, IL_BYTE }, { IL_UNSIGNED_SHORT, IL_SHORT }, { IL_UNSIGNED_INT, IL_INT } };
    static const ILenum ro[][2] = { { IL_RGB, IL_BGR }, { IL_RGBA, IL_BGRA }, { IL_RGB, IL_RGBA }, { IL_RGB, IL_BGRA }, { IL_BGR, IL_RGBA }, { IL_BGR, IL_BGRA }, { IL_BGR, IL_RGB }, { IL_BGRA, IL_RGBA }, { IL_LUMINANCE, IL_LUMINANCE_ALPHA }, { IL_ALPHA, IL_LUMINANCE_ALPHA }, { IL_ALPHA, IL_RGBA }, { IL_ALPHA, IL_BGRA } };
    if (vs.empty()) { for (auto& w : wid) for (ILenum f : FORMATS) if (f != IL_COLOUR_INDEX) vs.push_back({ { f, w[0] }, { f, w[1] } });
        for (auto& r : ro) for (ILenum t : TYPES) vs.push_back({ { r[0], t }, { r[1], t } });
        for (auto& r : ro) for (auto& w : wid) vs.push_back({ { r[0], w[0] }, { r[1], w[1] } }); }
    batch("rev", vs.size() * 3, [](uint64_t q) { V v = vs[q / 3]; int z = q % 3; note("%s/%s -> %s/%s and back (%llu)", fname(v.a.f), tname(v.a.t), fname(v.b.f), tname(v.b.t), (unsigned long long)z);
        init(); int w = z == 0 ? 64 : 17, h = z == 0 ? 4 : 3, d = z == 2 ? 2 : 1; Bytes px = z == 0 ? Bytes() : typed_pattern(w * h * d * channels(v.a.f), v.a.t, 5 + z); int n = w * h * d * channels(v.a.f);
        if (z == 0) { px.resize((size_t)n * bpc(v.a.t)); for (int i = 0; i < n; i++) { if (isf(v.a.t)) wrsample(px.data() + (size_t)i * bpc(v.a.t), v.a.t, i / (double)n); else { uint32_t u = (uint32_t)(i * 2654435761u) >> (32 - 8 * bpc(v.a.t)); if (bpc(v.a.t) == 1) u = i & 255; memcpy(px.data() + (size_t)i * bpc(v.a.t), &u, bpc(v.a.t)); } } }
               if (!mk(w, h, d, v.a.f, v.a.t, px.data())) { fail("make"); return; }
        Img b = snap(); if (!ilConvertImage(v.b.f, v.b.t) || !ilConvertImage(v.a.f, v.a.t)) { fail("conversion failed %x", ilGetError()); return; }
        Img a = snap(); eval(); if (a != b) { size_t i = 0; while (i < a.data.size() && i < b.data.size() && a.data[i] == b.data[i]) i++; fail("lost: %s at byte %zu: %s became %s", b.diff(a).c_str(), i, hex(b.data.data() + (i & ~7), 8).c_str(), hex(a.data.data() + (i & ~7), 8).c_str()); } outcome(a.hash()); ilShutDown(); });
}
// sub-images stay in place; the following images are converted too
SUITE(chains)
{
    static auto D = dfts();
    batch("chains", D.size() * 3, [](uint64_t q) { FT d = D[q % D.size()]; int k = q / D.size(); note("%s/%s kind %d", fname(d.f), tname(d.t), k);
        init(); ILuint n = ilGenImage(); ilBindImage(n); Bytes px = typed_pattern(8 * 4 * 4, IL_UNSIGNED_BYTE, 77);
        if (!mk(8, 4, 1, IL_RGBA, IL_UNSIGNED_BYTE, px.data(), k == 1 ? IL_ORIGIN_LOWER_LEFT : IL_ORIGIN_UPPER_LEFT)) { fail("make"); return; }
        if (k != 1) { if (!iluBuildMipmaps()) { fail("mip"); return; } }
        if (k != 0) { for (int i = 1; i <= 2; i++) { ilBindImage(n); ilActiveImage(i - 1); if (!ilCreateSubImage(IL_SUB_NEXT, 1)) { fail("sub"); return; } ilBindImage(n); ilActiveImage(i); Bytes p2 = typed_pattern(3 * i * 2 * 3 * i, i == 1 ? IL_UNSIGNED_BYTE : IL_UNSIGNED_SHORT, i); if (!mk(3 * i, 2, i, IL_BGR, i == 1 ? IL_UNSIGNED_BYTE : IL_UNSIGNED_SHORT, p2.data())) { fail("mk sub"); return; } } }
        drain(); Tree b = snaptree(n); if ((k != 1 && b.mips.empty()) || (k && b.imgs.size() != 2)) { fail("tree not built %zu %zu", b.mips.size(), b.imgs.size()); return; }
        ilBindImage(n); bool ok = ilConvertImage(d.f, d.t); auto e = errors(); Tree a = snaptree(n); eval(3);
        if (d.f == IL_COLOUR_INDEX && bpc(d.t) > 1) { if (ok) fail("succeeded"); else if (a != b) fail("changed: %s", b.diff(a).c_str()); ilShutDown(); return; }
        if (!ok) { fail("failed"); return; }
        if (a.mips != b.mips || a.lays != b.lays || a.faces != b.faces) fail("mipmaps changed");
        if (a.imgs.size() != b.imgs.size()) { fail("chain length"); return; }
        for (size_t i = 0; i <= a.imgs.size(); i++) { const Img& x = i ? a.imgs[i - 1].img : a.img; const Img& y = i ? b.imgs[i - 1].img : b.img;
            if (x.w != y.w || x.h != y.h || x.d != y.d || x.format != (int)d.f || x.type != (int)d.t || x.origin != y.origin || (int)x.data.size() != x.w * x.h * x.d * channels(d.f) * bpc(d.t)) { fail("image %zu is %s", i, x.desc().c_str()); return; }
            if (d.f != IL_COLOUR_INDEX) { std::string m = cmp(y.data.data(), y.format, y.type, 0, 0, x.data.data(), d.f, d.t, (size_t)x.w * x.h * x.d); eval(); if (!m.empty()) { fail("image %zu: %s", i, m.c_str()); return; } } }
        outcome(a.hash()); ilShutDown(); });
}
// unsupported arguments are refused, image kept
SUITE(refuse)
{
    static std::vector<int> codes = { 0, 1, 0x1400, 0x1409, 0x140c, 0x1899, 0x18ff, 0x1905, 0x190b, 0x7fffffff, -1, 0x1900, 0x1906 };
    batch("refuse", codes.size() * codes.size() * 2, [](uint64_t q) { int f = codes[q % codes.size()], t = codes[q / codes.size() % codes.size()]; note("format %x type %x img %d", f, t, (int)(q / codes.size() / codes.size()));
        bool vf = false, vt = false; for (ILenum x : FORMATS) vf |= (int)x == f; for (ILenum x : TYPES) vt |= (int)x == t; if (vf && vt) return;
        init(); if (!make(q / codes.size() / codes.size() ? FT{ IL_COLOUR_INDEX, IL_UNSIGNED_BYTE } : FT{ IL_RGB, IL_UNSIGNED_BYTE }, 3, 2, 1, IL_ORIGIN_UPPER_LEFT, IL_PAL_RGB24, 1)) { fail("make"); return; }
        Img b = snap(); bool ok = ilConvertImage(f, t); auto e = errors(); eval(2); if (ok) fail("succeeded"); else if (e.empty()) fail("no error"); Img a = snap(); if (a != b) fail("changed: %s", b.diff(a).c_str()); outcome(q); ilShutDown(); });
}
// the key colour: matching pixels (or the chosen palette entry) become transparent, everything else converts as without it
SUITE(keycolour)
{
    static const ILenum DF[] = { IL_RGBA, IL_BGRA, IL_LUMINANCE_ALPHA, IL_ALPHA, IL_RGB, IL_LUMINANCE, IL_BGR }; static const ILenum ST[] = { IL_UNSIGNED_BYTE, IL_UNSIGNED_SHORT, IL_UNSIGNED_INT, IL_HALF, IL_FLOAT, IL_DOUBLE }; static const double KEY[][3] = { { 0, 0, 0 }, { 1, 1, 1 }, { 0, 1, 0 }, { 1, 0, 0 }, { 0.2, 0.4, 0.8 } };
    batch("key", 7 * 9 * (2 * 6 * 5 + 6 * 4), [](uint64_t q) {
        ILenum df = DF[q % 7]; q /= 7; ILenum dt = TYPES[q % 9]; q /= 9; bool alpha = df == IL_RGBA || df == IL_BGRA || df == IL_LUMINANCE_ALPHA || df == IL_ALPHA; std::vector<bool> hit; Img a, b; init(); ilGetError();
        std::function<bool()> build; double kc[4] = { 0, 0, 0, 0 };
        if (q < 60) {
            ILenum sf = q % 2 ? IL_BGR : IL_RGB; q /= 2; ILenum st = ST[q % 6]; q /= 6; const double* k = KEY[q]; for (int c = 0; c < 3; c++) kc[c] = k[c]; if (st == IL_HALF && q == 4) { kc[0] = 0.25; kc[1] = 0.5; kc[2] = 0.75; }
            note("key colour %llu: %s/%s -> %s/%s", (unsigned long long)q, fname(sf), tname(st), fname(df), tname(dt)); int B = bpc(st); Bytes px = typed_pattern(6 * 3, st, 9);
            for (int i = 0; i < 6; i++) hit.push_back(false); for (int i : { 1, 4 }) { hit[i] = true; for (int c = 0; c < 3; c++) { double v = kc[sf == IL_BGR ? 2 - c : c]; uint8_t* p = px.data() + (size_t)(i * 3 + c) * B; if (st == IL_HALF) { uint16_t h = v == 0 ? 0 : v == 1 ? 0x3c00 : v == 0.25 ? 0x3400 : v == 0.5 ? 0x3800 : 0x3a00; memcpy(p, &h, 2); } else if (st == IL_FLOAT) { float f = v; memcpy(p, &f, 4); } else if (st == IL_DOUBLE) { double f = (float)v; memcpy(p, &f, 8); } else if (st == IL_UNSIGNED_BYTE) *p = (uint8_t)(v * 255 + 0.5); else if (st == IL_UNSIGNED_SHORT) { uint16_t u = v * 65535 + 0.5; memcpy(p, &u, 2); } else { uint32_t u = (double)(float)v * 4294967295.0 + 0.5; memcpy(p, &u, 4); } } }
            for (int c = 0; c < 3; c++) { double v = kc[sf == IL_BGR ? 2 - c : c]; (void)v; } memcpy(px.data() + 5 * 3 * B, px.data() + 4 * 3 * B, 3 * B); px[5 * 3 * B + 2 * B + B - 1] ^= 1;   // differs in one component only
            build = [=] { return mk(3, 2, 1, sf, st, px.data()); };
        } else {
            q -= 60; ILenum pt = PALS[q % 6]; q /= 6; int e = (int)q * 2; kc[3] = e / 255.0; note("key entry %d: %x palette -> %s/%s", e, pt, fname(df), tname(dt)); static const uint8_t ix[6] = { 0, 1, 2, 3, 4, 5 }; for (int i = 0; i < 6; i++) hit.push_back(ix[i] == e); build = [pt] { return mkpal(3, 2, pt, 6, ix, pattern(6 * 4, 3).data()); };
        }
        if (!build() || !ilConvertImage(df, dt)) { fail("without the key: %x", ilGetError()); return; } a = snap(); ilKeyColour(kc[0], kc[1], kc[2], kc[3]); ilEnable(IL_USE_KEY_COLOUR); if (!build() || !ilConvertImage(df, dt)) { fail("with the key: %x", ilGetError()); return; } b = snap(); ilShutDown(); int C = channels(df), B = bpc(dt);
        if (alpha) for (int i = 0; i < 6; i++) if (hit[i]) memset(a.data.data() + (size_t)(i * C + C - 1) * B, 0, B);
        eval(6); outcome(b.hash()); if (a.data.size() != b.data.size()) { fail("size"); return; } for (int i = 0; i < 6 * C; i++) { double x = rdsample(a.data.data() + (size_t)i * B, dt), y = rdsample(b.data.data() + (size_t)i * B, dt); if (std::fabs(x - y) > (isf(dt) ? (dt == IL_HALF ? 1e-3 : 1e-6) : 1.01)) { fail("sample %d is %g, expected %g", i, y, x); return; } }   // weighted sums may round differently
    });
}
SUITE(large)   // more pixels than 16 bits count
{
    static std::vector<FT> S; if (S.empty()) { for (ILenum f : FORMATS) S.push_back({ f, IL_UNSIGNED_BYTE }); for (FT x : { FT{ IL_RGB, IL_UNSIGNED_SHORT }, FT{ IL_RGBA, IL_FLOAT }, FT{ IL_LUMINANCE, IL_INT }, FT{ IL_BGRA, IL_HALF } }) S.push_back(x); }
    static const int L[][3] = { { 65537, 1, 1 }, { 1, 65537, 1 }, { 22529, 1, 1 }, { 301, 299, 1 }, { 259, 5, 70 } }; size_t nl = thorough ? 5 : 3;
    batch("large", S.size() * S.size() * nl, [](uint64_t q) { set_cpu_limit(120); FT s = S[q % S.size()]; q /= S.size(); FT d = S[q % S.size()]; q /= S.size(); const int* z = L[q]; if (d.f == IL_COLOUR_INDEX && s.f != IL_COLOUR_INDEX && s.f != IL_LUMINANCE && q != 2) return; one(s, d, z[0], z[1], z[2], q % 2 ? IL_ORIGIN_LOWER_LEFT : IL_ORIGIN_UPPER_LEFT, PALS[q], 7 + q); });
}
