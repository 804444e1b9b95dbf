// C34: ilApplyProfile against LittleCMS called directly on each pixel.
#include "conv.h"
#include <lcms2.h>
#include <tiffio.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace mc; using namespace ilx; using namespace conv;
static const ILenum ORG[2] = { IL_ORIGIN_UPPER_LEFT, IL_ORIGIN_LOWER_LEFT };
static const int DIM[][3] = { { 1, 1, 1 }, { 3, 2, 1 }, { 2, 3, 2 }, { 7, 1, 1 }, { 1, 5, 3 }, { 16, 9, 1 }, { 4, 4, 4 } };
static const int NDIM = sizeof DIM / sizeof *DIM;
static const ILenum FM[] = { IL_LUMINANCE, IL_RGB, IL_BGR, IL_RGBA, IL_BGRA };
static const ILenum TM[] = { IL_UNSIGNED_BYTE, IL_BYTE, IL_UNSIGNED_SHORT, IL_SHORT };

// ---- profiles
enum { SRGB, WIDE, LINEAR, SWAPPED, GAMMA1, GRAY22, GRAY1, GRAYS, NPROF };
static const char* PN[] = { "sRGB", "wide gamut", "linear", "rotated primaries", "gamma 1.4", "gray 2.2", "gray linear", "gray inverse" };
static bool gray(int p) { return p >= GRAY22; }
static cmsHPROFILE build(int p)
{
    cmsCIExyY d65, d50; cmsWhitePointFromTemp(&d65, 6504); cmsWhitePointFromTemp(&d50, 5003);
    auto rgb = [](const cmsCIExyY& w, cmsCIExyYTRIPLE pr, double g) { cmsToneCurve* c = cmsBuildGamma(0, g); cmsToneCurve* t[3] = { c, c, c }; cmsHPROFILE h = cmsCreateRGBProfile(&w, &pr, t); cmsFreeToneCurve(c); return h; };
    auto gr = [](const cmsCIExyY& w, double g) { cmsToneCurve* c = cmsBuildGamma(0, g); cmsHPROFILE h = cmsCreateGrayProfile(&w, c); cmsFreeToneCurve(c); return h; };
    cmsCIExyYTRIPLE s = { { .64, .33, 1 }, { .30, .60, 1 }, { .15, .06, 1 } }, wd = { { .735, .265, 1 }, { .115, .826, 1 }, { .157, .018, 1 } }, rot = { { .30, .60, 1 }, { .15, .06, 1 }, { .64, .33, 1 } };
    switch (p) { case SRGB: return cmsCreate_sRGBProfile(); case WIDE: return rgb(d50, wd, 2.2); case LINEAR: return rgb(d65, s, 1); case SWAPPED: return rgb(d65, rot, 2.2); case GAMMA1: return rgb(d50, s, 1.4);
        case GRAY22: return gr(d65, 2.2); case GRAY1: return gr(d50, 1); default: return gr(d65, .5); }
}
static const Bytes& bytesOf(int p)
{
    static Bytes b[NPROF];
    if (b[p].empty()) { cmsHPROFILE h = build(p); cmsUInt32Number n = 0; cmsSaveProfileToMem(h, 0, &n); b[p].resize(n); cmsSaveProfileToMem(h, b[p].data(), &n); cmsCloseProfile(h); }
    return b[p];
}
static std::string path(int p) { std::string f = workdir() + sfmt("/p%d.icc", p); struct stat s; if (stat(f.c_str(), &s)) writefile(f, bytesOf(p)); return f; }

// ---- the oracle: one call of LittleCMS for each pixel, colours only
static cmsUInt32Number lf(ILenum f, ILenum t)
{
    bool w = bpc(t) == 2;
    switch (f) { case IL_LUMINANCE: return w ? TYPE_GRAY_16 : TYPE_GRAY_8; default: return w ? TYPE_RGB_16 : TYPE_RGB_8; }
}
static bool expect(const Img& a, const Bytes& in, const Bytes& out, Bytes& res)
{
    cmsHPROFILE i = cmsOpenProfileFromMem(in.data(), in.size()), o = cmsOpenProfileFromMem(out.data(), out.size()); if (!i || !o) return false;
    cmsUInt32Number fm = lf(a.format, a.type); cmsHTRANSFORM t = cmsCreateTransform(i, fm, o, fm, INTENT_PERCEPTUAL, 0); cmsCloseProfile(i); cmsCloseProfile(o); if (!t) return false;
    int nc = channels(a.format), bp = bpc(a.type); res = a.data; bool bgr = a.format == IL_BGR || a.format == IL_BGRA; int col = a.format == IL_LUMINANCE ? 1 : 3;
    for (size_t p = 0; p < a.data.size(); p += nc * bp) { uint8_t s[8], d[8];
        for (int c = 0; c < col; c++) memcpy(s + c * bp, &a.data[p + (bgr ? 2 - c : c) * bp], bp);
        cmsDoTransform(t, s, d, 1);
        for (int c = 0; c < col; c++) memcpy(&res[p + (bgr ? 2 - c : c) * bp], d + c * bp, bp); }
    cmsDeleteTransform(t); return true;
}
static bool same(const Img& a, const Img& b, const Bytes& want)
{
    Img w = a; w.data = want; if (w == b) return true;
    if (b.data.size() == want.size()) for (size_t k = 0; k < want.size(); k++) if (b.data[k] != want[k]) { int px = channels(a.format) * bpc(a.type); return fail("byte %zu of pixel %zu is %d, LittleCMS makes %d of %d", k % px, k / px, b.data[k], want[k], a.data[k]); }
    return fail("%s", w.diff(b).c_str());
}
static void fillw(Bytes& d, ILenum t, uint32_t salt) { (void)t; d = pattern(d.size(), salt); for (size_t k = 0; k < d.size() && k < 12; k++) d[k] = k < 6 ? 0 : 255; }
static bool mkimg(ILenum f, ILenum t, const int* d, int org, uint32_t salt) { Bytes b(d[0] * d[1] * d[2] * channels(f) * bpc(t)); fillw(b, t, salt); return mk(d[0], d[1], d[2], f, t, b.data(), ORG[org]); }
static char* S(const std::string& s) { return (char*)s.c_str(); }

// every pair of profiles x format x type x size x origin, on the base and on a member of a chain
SUITE(pairs)
{
    batch("pairs", (uint64_t)NPROF * NPROF * 5 * 4 * NDIM * 2, [](uint64_t q) {
        int pi = q % NPROF; q /= NPROF; int po = q % NPROF; q /= NPROF; ILenum f = FM[q % 5]; q /= 5; ILenum t = TM[q % 4]; q /= 4; const int* d = DIM[q % NDIM]; q /= NDIM; int org = q;
        note("%s -> %s, %s %s %dx%dx%d origin %d", PN[pi], PN[po], fname(f), tname(t), d[0], d[1], d[2], org);
        init(); ILuint n; ilGenImages(1, &n); ilBindImage(n); if (!mkimg(f, t, d, org, 5)) { fail("make"); return; }
        Img a = snap(); Bytes want; bool fit = gray(pi) == (f == IL_LUMINANCE) && gray(po) == (f == IL_LUMINANCE);
        std::string fi = path(pi), fo = path(po); ILboolean r = ilApplyProfile(S(fi), S(fo)); auto e = errors(); Img b = snap(); eval(); transition();
        if (!fit) { // the profiles are for another colour space
            if (r || e.size() != 1) fail("accepted profiles of another colour space (returned %d, %zu errors)", r, e.size());
            if (a != b) fail("changed by a failure: %s", a.diff(b).c_str()); outcome(e.empty() ? 0 : e[0]); }
        else { if (!r || !e.empty()) { fail("refused: %s", e.empty() ? "-" : ename(e[0]).c_str()); return; }
            if (!expect(a, bytesOf(pi), bytesOf(po), want)) { fail("oracle"); return; } same(a, b, want); outcome(b.hash()); }
        ilShutDown(); });
}
// every value: all 256 grey levels and a cube of colours (65536 grey levels of 16 bits in the thorough tier)
SUITE(values)
{
    int L = thorough ? 32 : 16;
    batch("cube", (uint64_t)5 * 5 * 4 * 2, [=](uint64_t q) { int pi = q % 5; q /= 5; int po = q % 5; q /= 5; ILenum f = FM[1 + q % 4]; q /= 4; ILenum t = q ? IL_UNSIGNED_SHORT : IL_UNSIGNED_BYTE;
        note("%s -> %s, all colours, %s %s", PN[pi], PN[po], fname(f), tname(t)); init(); int nc = channels(f), bp = bpc(t); Bytes d((size_t)L * L * L * nc * bp);
        for (int k = 0; k < L * L * L; k++) { int v[4] = { k % L, k / L % L, k / L / L, k * 7 % L }; for (int c = 0; c < nc; c++) { int x = v[c] * 255 / (L - 1); if (bp == 1) d[k * nc + c] = x; else { uint16_t y = x * 257 ^ (k & 0xff); memcpy(&d[(k * nc + c) * 2], &y, 2); } } }
        if (!mk(L * L, L, 1, f, t, d.data(), ORG[0])) { fail("make"); return; } Img a = snap(); Bytes want;
        std::string fi = path(pi), fo = path(po); ILboolean r = ilApplyProfile(S(fi), S(fo)); auto e = errors(); Img b = snap(); eval(L * L * L); transition(); if (!r || !e.empty()) { fail("refused"); return; }
        if (!expect(a, bytesOf(pi), bytesOf(po), want)) { fail("oracle"); return; } same(a, b, want); outcome(b.hash()); ilShutDown(); });
    batch("grey", 3 * 3 * 2, [=](uint64_t q) { int pi = GRAY22 + q % 3; q /= 3; int po = GRAY22 + q % 3; q /= 3; int bp = 1 + q; int n = bp == 1 ? 256 : 65536;
        note("%s -> %s, all levels of %d bytes", PN[pi], PN[po], bp); init(); Bytes d(n * bp); for (int k = 0; k < n; k++) { d[k * bp] = k; if (bp == 2) d[k * 2 + 1] = k >> 8; }
        if (!mk(256, n / 256, 1, IL_LUMINANCE, bp == 1 ? IL_UNSIGNED_BYTE : IL_UNSIGNED_SHORT, d.data(), ORG[0])) { fail("make"); return; } Img a = snap(); Bytes want;
        std::string fi = path(pi), fo = path(po); ILboolean r = ilApplyProfile(S(fi), S(fo)); auto e = errors(); Img b = snap(); eval(n); transition(); if (!r || !e.empty()) { fail("refused"); return; }
        if (!expect(a, bytesOf(pi), bytesOf(po), want)) { fail("oracle"); return; } same(a, b, want); outcome(b.hash()); ilShutDown(); });
}
// ---- what cannot be converted
enum { MISSING, EMPTY, GARBAGE, DIRECTORY, NULLP, NBAD };
static const char* BN[] = { "missing", "empty", "garbage", "a directory", "NULL" };
static std::string bad(int k) { std::string f = workdir() + sfmt("/bad%d", k); if (k == EMPTY) writefile(f, Bytes()); if (k == GARBAGE) writefile(f, pattern(4000, 3)); if (k == DIRECTORY) mkdir(f.c_str(), 0700); return f; }
static void refuse(ILstring i, ILstring o, const Img& a)
{
    ILboolean r = ilApplyProfile(i, o); auto e = errors(); Img b = snap(); eval(); transition();
    if (r) fail("accepted"); if (e.size() != 1) fail("%zu errors", e.size()); else outcome(e[0]); if (a != b) fail("changed by a failure: %s", a.diff(b).c_str());
}
SUITE(refusals)
{
    batch("bad", NBAD * 3 * 5 * 4, [](uint64_t q) { int k = q % NBAD; q /= NBAD; int where = q % 3; q /= 3; ILenum f = FM[q % 5]; q /= 5; ILenum t = TM[q];
        note("%s profile is %s, %s %s", where == 0 ? "input" : where == 1 ? "output" : "each", BN[k], fname(f), tname(t)); init(); if (!mkimg(f, t, DIM[2], 0, 3)) { fail("make"); return; }
        std::string g = path(f == IL_LUMINANCE ? GRAY22 : SRGB), b = bad(k); ILstring B = k == NULLP ? 0 : S(b); refuse(where == 1 ? S(g) : B, where == 0 ? S(g) : B, snap()); ilShutDown(); });
    // other formats and types
    batch("kinds", FORMATS.size() * TYPES.size(), [](uint64_t q) { ILenum f = FORMATS[q % FORMATS.size()], t = TYPES[q / FORMATS.size()]; bool ok = false; for (auto x : FM) for (auto y : TM) if (x == f && y == t) ok = true; if (ok) return;
        note("%s %s", fname(f), tname(t)); init(); if (f == IL_COLOUR_INDEX) { if (t != IL_UNSIGNED_BYTE) return; Bytes ix(6, 1), pl = pattern(12, 1); if (!mkpal(3, 2, IL_PAL_RGB24, 4, ix.data(), pl.data(), ORG[0])) { fail("make"); return; } } else if (!mk(3, 2, 1, f, t, typed_pattern(6 * channels(f), t, 3).data(), ORG[0])) { fail("make"); return; }
        for (int g = 0; g < 2; g++) { std::string a = path(g ? GRAY22 : SRGB), b = path(g ? GRAY1 : WIDE); refuse(S(a), S(b), snap()); refuse(0, S(b), snap()); } ilShutDown(); });
    // a profile cut at any point either opens for LittleCMS as well or is refused
    size_t n = bytesOf(SRGB).size();
    batch("cut", (uint64_t)n * 2, [](uint64_t q) { size_t at = q / 2; int where = q & 1; note("%s profile cut at %zu", where ? "output" : "input", at); init(); if (!mkimg(IL_RGBA, IL_UNSIGNED_BYTE, DIM[1], 0, 3)) { fail("make"); return; }
        Bytes c(bytesOf(SRGB).begin(), bytesOf(SRGB).begin() + at), want; std::string cf = workdir() + "/cut.icc", g = path(WIDE); writefile(cf, c); Img a = snap(); bool fit = expect(a, where ? bytesOf(WIDE) : c, where ? c : bytesOf(WIDE), want);
        if (!fit) { refuse(S(where ? g : cf), S(where ? cf : g), a); ilShutDown(); return; }
        ILboolean r = ilApplyProfile(S(where ? g : cf), S(where ? cf : g)); auto e = errors(); Img b = snap(); eval(); transition(); if (!r || !e.empty()) fail("refused a usable profile"); else same(a, b, want); outcome(b.hash()); ilShutDown(); });
    // no image
    batch("noimage", 1, [](uint64_t) { note("before ilInit"); std::string a = path(SRGB); ilShutDown(); if (ilApplyProfile(S(a), S(a))) fail("accepted before ilInit"); eval(); outcome(1); });
}
// ---- embedded profiles
static Bytes tiff(int prof, ILenum f, int bp, const Bytes& px, int w, int h)
{
    std::string fn = workdir() + "/e.tif"; TIFF* t = TIFFOpen(fn.c_str(), "w"); int nc = channels(f);
    TIFFSetField(t, TIFFTAG_IMAGEWIDTH, w); TIFFSetField(t, TIFFTAG_IMAGELENGTH, h); TIFFSetField(t, TIFFTAG_SAMPLESPERPIXEL, nc); TIFFSetField(t, TIFFTAG_BITSPERSAMPLE, bp * 8); TIFFSetField(t, TIFFTAG_PHOTOMETRIC, nc < 3 ? PHOTOMETRIC_MINISBLACK : PHOTOMETRIC_RGB); TIFFSetField(t, TIFFTAG_PLANARCONFIG, PLANARCONFIG_CONTIG); TIFFSetField(t, TIFFTAG_ROWSPERSTRIP, h); TIFFSetField(t, TIFFTAG_COMPRESSION, COMPRESSION_NONE);
    if (nc == 4) { uint16_t x = EXTRASAMPLE_UNASSALPHA; TIFFSetField(t, TIFFTAG_EXTRASAMPLES, 1, &x); } if (prof >= 0) TIFFSetField(t, TIFFTAG_ICCPROFILE, (uint32_t)bytesOf(prof).size(), bytesOf(prof).data());
    for (int y = 0; y < h; y++) { Bytes row(px.begin() + y * w * nc * bp, px.begin() + (y + 1) * w * nc * bp); TIFFWriteScanline(t, row.data(), y, 0); } TIFFClose(t); Bytes b = readfile(fn); unlink(fn.c_str()); return b;
}
static Bytes psd(int prof, ILenum f, int bp, const Bytes& px, int w, int h)
{
    Bytes o; auto u8 = [&](int v) { o.push_back(v); }; auto u16 = [&](int v) { u8(v >> 8); u8(v & 255); }; auto u32 = [&](uint32_t v) { u16(v >> 16); u16(v & 0xffff); }; int nc = channels(f);
    for (char c : std::string("8BPS")) u8(c); u16(1); for (int k = 0; k < 6; k++) u8(0); u16(nc); u32(h); u32(w); u16(bp * 8); u16(nc < 3 ? 1 : 3); u32(0);
    Bytes pb; if (prof >= 0) pb = bytesOf(prof); size_t len = pb.size() + (pb.size() & 1);
    if (prof >= 0) { u32(12 + 12 + 4 + len); for (char c : std::string("8BIM")) u8(c); u16(0x03ED); u16(0); u32(4); u32(0x00480001); for (char c : std::string("8BIM")) u8(c); u16(0x040F); u16(0); u32(pb.size()); o.insert(o.end(), pb.begin(), pb.end()); if (pb.size() & 1) u8(0); }
    else u32(0);
    u32(0); u16(0); for (int c = 0; c < nc; c++) for (int p = 0; p < w * h; p++) for (int b = bp - 1; b >= 0; b--) u8(px[(p * nc + c) * bp + b]);
    return o;
}
enum { DIRECT, COPIED, CLONED, SELECTEDCOPY, CONVERTED, NHOW };
static const char* HN[] = { "loaded", "copied with ilCopyImage", "cloned with ilCloneCurImage", "copied twice, original deleted", "in the original after a copy" };
SUITE(embedded)
{
    batch("embedded", 2 * NPROF * NPROF * 3 * 2 * NHOW, [](uint64_t q) { int file = q & 1; q /= 2; int pi = q % NPROF; q /= NPROF; int po = q % NPROF; q /= NPROF; ILenum f = q % 3 == 0 ? IL_LUMINANCE : q % 3 == 1 ? IL_RGB : IL_RGBA; q /= 3; int bp = 1 + (q & 1); q /= 2; int how = q;
        note("profile %s in a %s file %s %d bits, %s, to %s", PN[pi], file ? "PSD" : "TIFF", fname(f), bp * 8, HN[how], PN[po]); init(); ILuint n[3]; ilGenImages(3, n); ilBindImage(n[0]); int w = 5, h = 3; Bytes px = pattern(w * h * channels(f) * bp, 9), fl = file ? psd(pi, f, bp, px, w, h) : tiff(pi, f, bp, px, w, h);
        if (!ilLoadL(file ? IL_PSD : IL_TIF, fl.data(), fl.size())) { fail("load: %s", ename(firsterr()).c_str()); return; } drain();
        Img orig = snap(); if (how == COPIED || how == SELECTEDCOPY) { ilBindImage(n[1]); if (!ilCopyImage(n[0])) { fail("copy"); return; } if (how == SELECTEDCOPY) { ilDeleteImages(1, &n[0]); ilBindImage(n[2]); if (!ilCopyImage(n[1])) { fail("copy"); return; } ilDeleteImages(1, &n[1]); } }
        if (how == CLONED) { ILuint c = ilCloneCurImage(); if (!c) { fail("clone"); return; } ilBindImage(c); } if (how == CONVERTED) { ilBindImage(n[1]); ilCopyImage(n[0]); ilDeleteImages(1, &n[1]); ilBindImage(n[0]); }
        drain(); Img a = snap(); if (a.data != orig.data) { fail("the copy differs"); return; } Bytes want; std::string fo = path(po); bool fit = expect(a, bytesOf(pi), bytesOf(po), want) && gray(pi) == (a.format == IL_LUMINANCE) && gray(po) == (a.format == IL_LUMINANCE); bool can = false; for (auto x : FM) if ((int)x == a.format) can = true;
        if (!can) { refuse(0, S(fo), a); ilShutDown(); return; }
        if (!fit) { refuse(0, S(fo), a); ilShutDown(); return; }
        ILboolean r = ilApplyProfile(0, S(fo)); auto e = errors(); Img b = snap(); eval(); transition(); if (!r || !e.empty()) { fail("refused: %s", e.empty() ? "-" : ename(e[0]).c_str()); return; } same(a, b, want); outcome(b.hash());
        if (how == COPIED || how == CLONED) { ilBindImage(n[0]); if (snap() != orig) fail("applying to the copy changed the original"); }
        ilShutDown(); });
    // no profile in the file; a profile replaced by the next load; a named profile before the embedded one
    batch("none", 2 * 3, [](uint64_t q) { int file = q & 1, k = q / 2; note("%s, %s", file ? "PSD" : "TIFF", k == 0 ? "no profile" : k == 1 ? "a file without profile after one with" : "a named profile beats the embedded one"); init(); Bytes px = pattern(5 * 3 * 3, 9); auto mkf = [&](int p) { return file ? psd(p, IL_RGB, 1, px, 5, 3) : tiff(p, IL_RGB, 1, px, 5, 3); }; std::string fo = path(WIDE), fi = path(LINEAR);
        if (k) { Bytes fl = mkf(SWAPPED); ilLoadL(file ? IL_PSD : IL_TIF, fl.data(), fl.size()); } if (k < 2) { Bytes fl = mkf(-1); if (!ilLoadL(file ? IL_PSD : IL_TIF, fl.data(), fl.size())) { fail("load"); return; } drain(); refuse(0, S(fo), snap()); return; }
        drain(); Img a = snap(); Bytes want; expect(a, bytesOf(LINEAR), bytesOf(WIDE), want); if (!ilApplyProfile(S(fi), S(fo))) { fail("refused"); return; } Img b = snap(); eval(); same(a, b, want); outcome(b.hash()); ilShutDown(); });
}
// ---- only the selected image changes; applications accumulate
SUITE(selection)
{
    batch("chain", 3 * 3 * 5 * 4, [](uint64_t q) { int kind = q % 3; q /= 3; int sel = q % 3; q /= 3; ILenum f = FM[q % 5]; q /= 5; ILenum t = TM[q]; note("%s %d selected, %s %s", kind == 0 ? "image" : kind == 1 ? "layer" : "mipmap", sel, fname(f), tname(t)); init(); ILuint n[2]; ilGenImages(2, n);
        for (int k = 0; k < 2; k++) { ilBindImage(n[k]); if (!mkimg(f, t, DIM[1], 0, 3)) { fail("make"); return; }
            if (kind == 0) { if (!ilCreateSubImage(IL_SUB_NEXT, 2)) { fail("sub"); return; } } else if (!ilCreateSubImage(kind == 1 ? IL_SUB_LAYER : IL_SUB_MIPMAP, 2)) { fail("sub"); return; }
            for (int m = 1; m < 3; m++) { ilBindImage(n[k]); kind == 0 ? ilActiveImage(m) : kind == 1 ? ilActiveLayer(m) : ilActiveMipmap(m); const int* d = DIM[m + 1]; Bytes b(d[0] * d[1] * d[2] * channels(f) * bpc(t)); fillw(b, t, 3 + m); if (!ilTexImageSurface(d[0], d[1], d[2], channels(f), f, t, b.data())) { fail("make %d", m); return; } ilRegisterOrigin(ORG[m & 1]); } }
        drain(); auto pick = [&](ILuint nm, int m) { ilBindImage(nm); if (m && !(kind == 0 ? ilActiveImage(m) : kind == 1 ? ilActiveLayer(m) : ilActiveMipmap(m))) fail("no member %d", m); };
        std::vector<Img> was; for (int k = 0; k < 2; k++) for (int m = 0; m < 3; m++) { pick(n[k], m); was.push_back(snap()); } drain();
        pick(n[0], sel); drain(); std::string fi = path(f == IL_LUMINANCE ? GRAY22 : SRGB), fo = path(f == IL_LUMINANCE ? GRAY1 : WIDE); if (!ilApplyProfile(S(fi), S(fo))) { fail("refused: %s", ename(firsterr()).c_str()); return; } Img now = snap(); Bytes want; expect(was[sel], bytesOf(f == IL_LUMINANCE ? GRAY22 : SRGB), bytesOf(f == IL_LUMINANCE ? GRAY1 : WIDE), want); same(was[sel], now, want); outcome(now.hash());
        for (int k = 0; k < 2; k++) for (int m = 0; m < 3; m++) { pick(n[k], m); eval(); if ((k || m != sel) && snap() != was[k * 3 + m]) fail("member %d of image %d changed", m, k); } ilShutDown(); });
    static const int ST[][2] = { { SRGB, WIDE }, { WIDE, SRGB }, { SRGB, LINEAR }, { SWAPPED, GAMMA1 }, { SRGB, GRAY22 }, { LINEAR, SRGB } };
    seqs("sequence", { "sRGB>wide", "wide>sRGB", "sRGB>linear", "rotated>gamma", "refused", "linear>sRGB" }, thorough ? 5 : 3, [](const std::vector<int>& s) { init(); if (!mkimg(IL_BGRA, IL_UNSIGNED_SHORT, DIM[2], 1, 3)) { fail("make"); return; }
        size_t h0 = 0; Img m = snap(); for (size_t k = 0; k < s.size(); k++) { const int* p = ST[s[k]]; std::string fi = path(p[0]), fo = path(p[1]); Bytes want; bool fit = !gray(p[1]); ILboolean r = ilApplyProfile(S(fi), S(fo)); auto e = errors(); Img b = snap(); eval(); transition(); if (!!r != fit || e.size() != (fit ? 0 : 1)) { fail("step %zu: returned %d with %zu errors", k, r, e.size()); return; }
            if (fit) { expect(m, bytesOf(p[0]), bytesOf(p[1]), want); if (!same(m, b, want)) return; } else if (m != b) { fail("step %zu: changed by a failure", k); return; } m = b; } (void)h0; outcome(m.hash()); ilShutDown(); });
}
// ---- memory: every allocation refused, and nothing left behind
static long left = -1; static bool refused;
static void* ILAPIENTRY al(const ILsizei n) { if (left == 0) { refused = true; return 0; } if (left > 0) left--; return malloc(n); }
static void ILAPIENTRY fr(const void* p) { free((void*)p); }
SUITE(memory)
{
    batch("refused", 5 * 4 * 2, [](uint64_t q) { ILenum f = FM[q % 5]; q /= 5; ILenum t = TM[q % 4]; q /= 4; note("%s %s%s", fname(f), tname(t), q ? ", embedded" : ""); ilSetMemory(al, fr); left = -1; init(); bool emb = q; std::string fi = path(f == IL_LUMINANCE ? GRAY22 : SRGB), fo = path(f == IL_LUMINANCE ? GRAY1 : WIDE);
        if (emb) { if (f == IL_BGR || f == IL_BGRA || t == IL_BYTE || t == IL_SHORT) { ilResetMemory(); return; } Bytes px = pattern(5 * 3 * channels(f) * bpc(t), 9), fl = tiff(f == IL_LUMINANCE ? GRAY22 : SRGB, f, bpc(t), px, 5, 3); ilLoadL(IL_TIF, fl.data(), fl.size()); } else mkimg(f, t, DIM[2], 0, 3);
        drain(); Img a = snap(); if (!emb || a.format == (int)f) for (int k = 0; k < 8; k++) { left = k; refused = false; ILboolean r = ilApplyProfile(emb ? 0 : S(fi), S(fo)); left = -1; auto e = errors(); Img b = snap(); eval(); transition(); if (!refused) { if (!r) fail("refused without reason: %s", e.empty() ? "-" : ename(e[0]).c_str()); outcome(b.hash()); break; }
            if (r || e.empty()) fail("reported success with an allocation refused"); else if (e[0] != IL_OUT_OF_MEMORY) fail("reported %s", ename(e[0]).c_str()); if (a != b) fail("changed: %s", a.diff(b).c_str()); }
        ilShutDown(); ilResetMemory(); });
    batch("heap", 5 * 4 * 3, [](uint64_t q) { ILenum f = FM[q % 5]; q /= 5; ILenum t = TM[q % 4]; q /= 4; note("%s %s, %s", fname(f), tname(t), q == 0 ? "applied" : q == 1 ? "missing profile" : "wrong colour space"); init(); if (!mkimg(f, t, DIM[2], 0, 3)) { fail("make"); return; } bool g = f == IL_LUMINANCE; std::string fi = path(g ? GRAY22 : SRGB), fo = q == 0 ? path(g ? GRAY1 : WIDE) : q == 1 ? bad(MISSING) : path(g ? WIDE : GRAY1);
        size_t h[4]; for (int k = 0; k < 4; k++) { ilApplyProfile(S(fi), S(fo)); drain(); h[k] = heap_bytes(); transition(); } eval(); if (h[1] != h[2] || h[2] != h[3]) fail("the heap grows: %zu %zu %zu", h[1], h[2], h[3]); outcome(q); ilShutDown(); });
}
