// C08: lossless formats round-trip every image they can store, under every save option, and saving never changes the image.
#include "conv.h"
#include <algorithm>
#include <cmath>
using namespace mc; using namespace ilx; using namespace conv;
enum { U8 = 1, U16 = 2, U32 = 4, F64 = 8 };
struct Fmt { ILenum type; const char* name; std::vector<ILenum> fmts; int types; bool ci, pow2; const char* opts; };   // opts: letters of the options that matter
static const std::vector<ILenum> ALL6 = { IL_LUMINANCE, IL_LUMINANCE_ALPHA, IL_RGB, IL_BGR, IL_RGBA, IL_BGRA };
static const Fmt F[] = {
    { IL_BMP, "bmp", { IL_LUMINANCE, IL_RGB, IL_BGR }, U8, true, false, "" },
    { IL_TGA, "tga", { IL_LUMINANCE, IL_RGB, IL_BGR, IL_RGBA, IL_BGRA }, U8, true, false, "tcs" },
    { IL_PNG, "png", ALL6, U8 | U16, true, false, "is" },
    { IL_PNM, "pnm", { IL_LUMINANCE, IL_RGB, IL_BGR }, U8, true, false, "z" },
    { IL_SGI, "sgi", ALL6, U8 | U16, true, false, "gs" },
    { IL_PCX, "pcx", { IL_LUMINANCE, IL_LUMINANCE_ALPHA, IL_ALPHA, IL_RGB, IL_BGR, IL_RGBA, IL_BGRA }, U8, true, false, "" },
    { IL_PSD, "psd", { IL_LUMINANCE, IL_LUMINANCE_ALPHA, IL_ALPHA, IL_RGB, IL_BGR, IL_RGBA, IL_BGRA }, U8 | U16, true, false, "" },
    { IL_TIF, "tif", { IL_LUMINANCE, IL_RGB, IL_BGR }, U8 | U16, true, false, "zs" },
    { IL_RAW, "raw", { IL_LUMINANCE, IL_LUMINANCE_ALPHA, IL_RGB, IL_RGBA }, U8 | U16 | U32 | F64, false, false, "" },
    { IL_VTF, "vtf", { IL_LUMINANCE, IL_LUMINANCE_ALPHA, IL_RGB, IL_BGR, IL_RGBA, IL_BGRA }, U8, true, true, "" },
    { IL_VTF, "vtf16", { IL_RGBA }, U16, false, true, "" },
};
static const int NF = sizeof F / sizeof *F;
static std::vector<ILenum> types(const Fmt& f) { std::vector<ILenum> v; if (f.types & U8) v.push_back(IL_UNSIGNED_BYTE); if (f.types & U16) v.push_back(IL_UNSIGNED_SHORT); if (f.types & U32) v.push_back(IL_UNSIGNED_INT); if (f.types & F64) v.push_back(IL_DOUBLE); return v; }
struct C4 { double c[4]; };
static C4 canon(const Img& i, int x, int y) { Px q = decode(i.at(x, y), i.format, i.type, &i.pal, i.paltype); C4 r; for (int k = 0; k < 4; k++) r.c[k] = q.c[k] / umax(q.type);
    if (q.grey) r.c[1] = r.c[2] = r.c[0]; if (q.opq || !(i.format == IL_COLOUR_INDEX || hasalpha(i.format))) r.c[3] = 1; if (i.format == IL_ALPHA) r.c[0] = r.c[1] = r.c[2] = 0; return r; }
static std::string same(const Img& a, const Img& b, double tol = 1e-9)
{
    if (a.w != b.w || a.h != b.h || b.d != 1) return sfmt("%dx%d became %dx%dx%d", a.w, a.h, b.w, b.h, b.d);
    for (int y = 0; y < a.h; y++) for (int x = 0; x < a.w; x++) { C4 p = canon(a, x, y), q = canon(b, x, y); for (int k = 0; k < 4; k++) if (!(std::fabs(p.c[k] - q.c[k]) <= tol)) return sfmt("pixel %d,%d channel %d: %.6f became %.6f (%s)", x, y, k, p.c[k], q.c[k], b.desc().c_str()); }
    return "";
}
static ILuint nm;
struct Opt { int rle = 0, inter = 0, comp = 0, cstamp = 0, str = 0, oset = 0, omode = 0, mem = 0; };
static void apply(const Opt& o)
{
    (o.rle & 1 ? ilEnable : ilDisable)(IL_SAVE_INTERLACED); ilSetInteger(IL_TGA_RLE, o.rle & 1); ilSetInteger(IL_SGI_RLE, o.rle & 1); ilSetInteger(IL_TGA_CREATE_STAMP, o.cstamp); ilSetInteger(IL_PNG_INTERLACE, o.inter);
    (o.inter ? ilEnable : ilDisable)(IL_SAVE_INTERLACED); ilHint(IL_COMPRESSION_HINT, o.comp ? IL_USE_COMPRESSION : IL_NO_COMPRESSION); ilHint(IL_MEM_SPEED_HINT, o.mem ? IL_LESS_MEM : IL_FASTEST);
    static const ILenum S[] = { IL_TGA_ID_STRING, IL_TGA_AUTHNAME_STRING, IL_TGA_AUTHCOMMENT_STRING, IL_PNG_AUTHNAME_STRING, IL_PNG_TITLE_STRING, IL_PNG_DESCRIPTION_STRING, IL_TIF_DESCRIPTION_STRING, IL_TIF_HOSTCOMPUTER_STRING, IL_TIF_DOCUMENTNAME_STRING, IL_TIF_AUTHNAME_STRING };
    static const int L[] = { 0, 1, 39, 40, 41, 79, 80, 81, 253, 254, 255, 300 };
    if (o.str) { std::string t(L[o.str], 'q'); for (size_t i = 0; i < t.size(); i += 7) t[i] = ' ' + 1 + i % 90; for (ILenum s : S) ilSetString(s, t.c_str()); }
    if (o.oset) { ilEnable(IL_ORIGIN_SET); ilOriginFunc(o.omode ? IL_ORIGIN_UPPER_LEFT : IL_ORIGIN_LOWER_LEFT); }
    drain();
}
static void clear_opts() { ilShutDown(); init(); }
// saves the bound image, checks it is unchanged, loads the file into another image and compares the picture
static bool trip(const Fmt& f, const Opt& o, double tol = 1e-9)
{
    apply(o); drain(); Tree before = snaptree(nm);
    // a raw file stores no origin: it is read as upper-left, or as the origin set by the application
    if (f.type == IL_RAW && before.img.origin != (o.oset && !o.omode ? IL_ORIGIN_LOWER_LEFT : IL_ORIGIN_UPPER_LEFT)) { bool k; saveL(f.type, &k); eval(); if (snaptree(nm) != before) fail("the save changed the image"); drain(); return true; } bool ok; Bytes b = saveL(f.type, &ok); auto e = errors(); Tree after = snaptree(nm); eval(2);
    if (after != before) { fail("the save changed the image: %s", before.diff(after).c_str()); return false; }
    if (!ok || b.empty()) { fail("save failed with %s", e.empty() ? "no error" : ename(e[0]).c_str()); return false; }
    if (!e.empty()) { fail("save succeeded but recorded %s", ename(e[0]).c_str()); return false; }
    ILuint n2 = ilGenImage(); ilBindImage(n2); bool l = ilLoadL(f.type, b.data(), b.size()); e = errors(); eval();
    if (!l) { fail("the saved file does not load: %s", e.empty() ? "no error" : ename(e[0]).c_str()); return false; }
    if (!e.empty()) { fail("load succeeded but recorded %s", ename(e[0]).c_str()); return false; }
    Img r = snap(); Img w = before.img; eval((uint64_t)w.w * w.h); std::string m = same(w, r, tol); outcome(fnv(b.data(), b.size())); ilDeleteImage(n2); ilBindImage(nm);
    if (!m.empty()) { fail("%s", m.c_str()); return false; } return true;
}
static bool build(int w, int h, ILenum f, ILenum t, int org, int salt, int palt = 0, int cols = 0)
{
    clear_opts(); nm = ilGenImage(); ilBindImage(nm); ILenum O = org ? IL_ORIGIN_UPPER_LEFT : IL_ORIGIN_LOWER_LEFT;
    if (f == IL_COLOUR_INDEX) { Bytes ix = pattern(w * h, salt); for (auto& b : ix) b = b % cols; Bytes p = pattern(cols * palbpp(palt), salt + 5); return mkpal(w, h, palt, cols, ix.data(), p.data(), O); }
    return mk(w, h, 1, f, t, typed_pattern(w * h * channels(f), t, salt).data(), O);
}
static std::vector<Opt> options(const Fmt& f, bool full)
{
    std::vector<Opt> v; std::string s = f.opts; auto has = [&](char c) { return s.find(c) != s.npos; };
    for (int r = 0; r < (has('t') || has('g') ? 2 : 1); r++) for (int i = 0; i < (has('i') ? 2 : 1); i++) for (int z = 0; z < (has('z') ? 2 : 1); z++) for (int c = 0; c < (has('c') ? 2 : 1); c++) for (int m = 0; m < 2; m++)
        for (int st = 0; st < (has('s') && full ? 12 : 1); st++) { Opt o; o.rle = r; o.inter = i; o.comp = z; o.cstamp = c; o.mem = m; o.str = st; v.push_back(o); }
    return v;
}
struct Sh { int w, h; };
static std::vector<Sh> shapes(const Fmt& f) { std::vector<Sh> v; if (f.pow2) { for (int w = 1; w <= 16; w *= 2) for (int h = 1; h <= 16; h *= 2) v.push_back({ w, h }); return v; }
    for (int w = 1; w <= (thorough ? 33 : 17); w++) for (int h = 1; h <= (thorough ? 9 : 4); h++) v.push_back({ w, h }); for (int w : { 63, 64, 65, 127, 128, 129, 130, 255, 256, 257, 300 }) { v.push_back({ w, 2 }); v.push_back({ 1, w }); } return v; }
struct Case { int f; ILenum fmt, t; Opt o; };
SUITE(sizes)   // every size x format x type x origin x option
{
    static std::vector<Case> cs; for (int i = 0; i < NF; i++) for (ILenum x : F[i].fmts) for (ILenum t : types(F[i])) for (auto& o : options(F[i], false)) cs.push_back({ i, x, t, o });
    static std::vector<std::pair<int, Sh>> all; for (size_t c = 0; c < cs.size(); c++) for (auto& s : shapes(F[cs[c].f])) all.push_back({ (int)c, s });
    batch("sizes", all.size() * 2, [](uint64_t q) { int org = q % 2; auto& a = all[q / 2]; Case& c = cs[a.first]; note("%s %s/%s %dx%d org %d rle %d inter %d comp %d stamp %d mem %d", F[c.f].name, fname(c.fmt), tname(c.t), a.second.w, a.second.h, org, c.o.rle, c.o.inter, c.o.comp, c.o.cstamp, c.o.mem);
        if (!build(a.second.w, a.second.h, c.fmt, c.t, org, a.second.w * 31 + a.second.h)) { fail("make"); return; } trip(F[c.f], c.o); });
}
static const ILenum PT[] = { IL_PAL_RGB24, IL_PAL_BGR24, IL_PAL_RGB32, IL_PAL_BGR32, IL_PAL_RGBA32, IL_PAL_BGRA32 };
static bool pal_alpha(const Fmt& f) { return f.type == IL_TGA || f.type == IL_PNG; }
SUITE(palettes)   // every palette layout and size
{
    static std::vector<int> fi; for (int i = 0; i < NF; i++) if (F[i].ci) fi.push_back(i);
    static const int COLS[] = { 1, 2, 3, 4, 15, 16, 17, 100, 128, 255, 256 };
    batch("pal", fi.size() * 6 * 11 * 2 * 4 * 2, [](uint64_t q) { int f = fi[q % fi.size()]; q /= fi.size(); ILenum pt = PT[q % 6]; q /= 6; int cols = COLS[q % 11]; q /= 11; int org = q % 2; q /= 2; int k = q % 4, r = q / 4;
        bool alpha = pt == IL_PAL_RGBA32 || pt == IL_PAL_BGRA32; if (alpha && !pal_alpha(F[f])) return; static const Sh S[] = { { 1, 1 }, { 5, 3 }, { 16, 16 }, { 32, 2 } }; Sh s = S[k]; if (F[f].pow2 && k == 1) s = { 8, 2 };
        note("%s palette %s x%d %dx%d org %d rle %d", F[f].name, ename(pt).c_str(), cols, s.w, s.h, org, r); if (!build(s.w, s.h, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, org, cols + k, pt, cols)) { fail("make"); return; }
        Opt o; o.rle = o.inter = o.comp = r; trip(F[f], o); });
}
SUITE(strings)   // generator and author strings of every length class
{
    static std::vector<Case> cs; for (int i = 0; i < NF; i++) if (std::string(F[i].opts).find('s') != std::string::npos) for (auto& o : options(F[i], true)) cs.push_back({ i, IL_RGB, IL_UNSIGNED_BYTE, o });
    batch("strings", cs.size() * 2, [](uint64_t q) { Case& c = cs[q / 2]; note("%s strings %d rle %d inter %d comp %d stamp %d org %d", F[c.f].name, c.o.str, c.o.rle, c.o.inter, c.o.comp, c.o.cstamp, (int)(q % 2)); if (!build(5, 3, c.fmt, c.t, q % 2, 9)) { fail("make"); return; } trip(F[c.f], c.o); });
}
SUITE(originset)   // IL_ORIGIN_SET while saving and loading
{
    static std::vector<Case> cs; for (int i = 0; i < NF; i++) for (ILenum x : F[i].fmts) for (ILenum t : types(F[i])) for (int r = 0; r < 2; r++) for (int m = 0; m < 2; m++) { Opt o; o.rle = o.inter = o.comp = r; o.oset = 1; o.omode = m; cs.push_back({ i, x, t, o }); }
    batch("org", cs.size() * 2, [](uint64_t q) { Case& c = cs[q / 2]; note("%s %s/%s org %d set %d opt %d", F[c.f].name, fname(c.fmt), tname(c.t), (int)(q % 2), c.o.omode, c.o.rle); if (!build(4, 2, c.fmt, c.t, q % 2, 3)) { fail("make"); return; } trip(F[c.f], c.o); });
}
SUITE(runs)   // all two-valued rows (every run structure) through the run-length coders
{
    static const int f[] = { 1, 4, 5, 5 }; int W = thorough ? 14 : 10;
    batch("rows", 4 * 3 * (uint64_t)W, [](uint64_t q) { int w = q % (thorough ? 14 : 10) + 1; q /= (thorough ? 14 : 10); static const ILenum X[] = { IL_LUMINANCE, IL_RGB, IL_RGBA }; ILenum x = X[q % 3]; int fi = f[q / 3]; bool ci = q / 3 == 3; if (ci && x != IL_RGB) return; note("%s %s all rows of width %d", F[fi].name, ci ? "indexed" : fname(x), w);
        int h = 1 << w, ch = ci ? 1 : channels(x); Bytes d((size_t)h * w * ch); for (int y = 0; y < h; y++) for (int i = 0; i < w; i++) for (int c = 0; c < ch; c++) d[((size_t)y * w + i) * ch + c] = (y >> i & 1) ? (ci ? 1 : 0xc1 + c * 7) : (ci ? 0 : 9 + c);
        clear_opts(); nm = ilGenImage(); ilBindImage(nm); Bytes p = { 1, 2, 3, 200, 100, 50 }; if (!(ci ? mkpal(w, h, IL_PAL_RGB24, 2, d.data(), p.data()) : mk(w, h, 1, x, IL_UNSIGNED_BYTE, d.data()))) { fail("make"); return; } Opt o; o.rle = 1; trip(F[fi], o); });
    batch("onebit", 4 * 4 * 4 * 8, [](uint64_t q) { int bit = q % 8; q /= 8; int chn = q % 4; q /= 4; static const ILenum X[] = { IL_LUMINANCE, IL_RGB, IL_RGBA, IL_BGRA }; ILenum x = X[q % 4]; int fi = f[q / 4]; bool ci = q / 4 == 3; if ((ci && x != IL_LUMINANCE) || chn >= channels(x)) return; note("%s %s rows of pixels differing in bit %d of channel %d", F[fi].name, ci ? "indexed" : fname(x), bit, chn);
        int w = 7, h = 128, ch = ci ? 1 : channels(x); Bytes d((size_t)h * w * ch); for (int y = 0; y < h; y++) for (int i = 0; i < w; i++) for (int c = 0; c < ch; c++) d[((size_t)y * w + i) * ch + c] = (0x35 + c * 9) ^ (c == chn && (y >> i & 1) ? 1 << bit : 0);
        clear_opts(); nm = ilGenImage(); ilBindImage(nm); Bytes p = pattern(768, 4); if (!(ci ? mkpal(w, h, IL_PAL_RGB24, 256, d.data(), p.data()) : mk(w, h, 1, x, IL_UNSIGNED_BYTE, d.data()))) { fail("make"); return; } Opt o; o.rle = 1; trip(F[fi], o); });
    static const int B[] = { 0, 1, 2, 3, 62, 63, 64, 65, 126, 127, 128, 129, 130, 191, 192, 193, 255, 256, 257 };
    batch("packets", 4 * 3 * 19 * 19, [](uint64_t q) { int n = B[q % 19]; q /= 19; int m = B[q % 19]; q /= 19; static const ILenum X[] = { IL_LUMINANCE, IL_RGB, IL_RGBA }; ILenum x = X[q % 3]; int fi = f[q / 3]; bool ci = q / 3 == 3; if (n + m == 0 || (ci && x != IL_RGB)) return; note("%s %s literal %d then run %d", F[fi].name, ci ? "indexed" : fname(x), n, m);
        int ch = ci ? 1 : channels(x); Bytes d; for (int k = 0; k < 2; k++) { Bytes row; auto lit = [&] { for (int i = 0; i < n; i++) for (int c = 0; c < ch; c++) row.push_back((i * 37 + c * 5 + (i >> 3)) & 255); }; auto run = [&] { for (int i = 0; i < m; i++) for (int c = 0; c < ch; c++) row.push_back(0xd0 + c); };
            if (k) { run(); lit(); } else { lit(); run(); } d.insert(d.end(), row.begin(), row.end()); }
        clear_opts(); nm = ilGenImage(); ilBindImage(nm); Bytes p = pattern(768, 4); if (!(ci ? mkpal(n + m, 2, IL_PAL_RGB24, 256, d.data(), p.data()) : mk(n + m, 2, 1, x, IL_UNSIGNED_BYTE, d.data()))) { fail("make"); return; } Opt o; o.rle = 1; trip(F[fi], o); });
}
SUITE(values)   // every 8- and 16-bit sample value in every channel
{
    static std::vector<Case> cs; for (int i = 0; i < NF; i++) for (ILenum x : F[i].fmts) for (ILenum t : types(F[i])) for (int r = 0; r < 2; r++) { Opt o; o.rle = o.inter = o.comp = r; cs.push_back({ i, x, t, o }); }
    batch("values", cs.size(), [](uint64_t q) { Case& c = cs[q]; note("%s %s/%s opt %d", F[c.f].name, fname(c.fmt), tname(c.t), c.o.rle); int ch = channels(c.fmt), n = bpc(c.t) == 2 ? 65536 : 256; Bytes d((size_t)n * ch * bpc(c.t));
        for (int i = 0; i < n; i++) for (int k = 0; k < ch; k++) { size_t o = ((size_t)i * ch + k) * bpc(c.t); uint32_t v = (uint32_t)i + k * 77; if (bpc(c.t) == 1) d[o] = v; else if (bpc(c.t) == 2) { uint16_t s = v; memcpy(&d[o], &s, 2); } else if (bpc(c.t) == 4) { uint32_t s = v * 0x01010101u; memcpy(&d[o], &s, 4); } else { double s = v / 512.0; memcpy(&d[o], &s, 8); } }
        clear_opts(); nm = ilGenImage(); ilBindImage(nm); int w = bpc(c.t) == 2 ? 256 : 16; if (!mk(w, n / w, 1, c.fmt, c.t, d.data(), IL_ORIGIN_UPPER_LEFT)) { fail("make"); return; } trip(F[c.f], c.o); });
}
SUITE(large)   // dimensions around 16-bit limits: correct or refused
{
    static const Sh L[] = { { 32767, 1 }, { 32768, 1 }, { 65534, 1 }, { 65535, 1 }, { 65536, 1 }, { 65537, 1 }, { 1, 32768 }, { 1, 65535 }, { 1, 65536 }, { 1, 65537 }, { 70000, 2 } };
    batch("large", NF * 11 * 2, [](uint64_t q) { int f = q % NF; q /= NF; Sh s = L[q % 11]; int r = q / 11; ILenum x = F[f].type == IL_VTF ? IL_RGBA : IL_RGB, t = F[f].types == U16 ? IL_UNSIGNED_SHORT : IL_UNSIGNED_BYTE; note("%s %dx%d opt %d", F[f].name, s.w, s.h, r);
        if (!build(s.w, s.h, x, t, 1, 5)) { fail("make"); return; } Opt o; o.rle = o.inter = o.comp = r; apply(o); bool ok; Bytes b = saveL(F[f].type, &ok); auto e = errors(); eval(); if (!ok) { if (e.empty()) fail("refused without an error"); outcome(q); return; }
        clear_opts(); build(s.w, s.h, x, t, 1, 5); trip(F[f], o); });
}
SUITE(chains)   // images with mipmaps and sub-images: the save changes none of them, the base is what is stored
{
    static std::vector<Case> cs; for (int i = 0; i < NF; i++) for (ILenum x : F[i].fmts) for (int r = 0; r < 2; r++) { Opt o; o.rle = o.inter = o.comp = r; cs.push_back({ i, x, F[i].types == U16 ? IL_UNSIGNED_SHORT : IL_UNSIGNED_BYTE, o }); }
    batch("chains", cs.size() * 2 * 2 * 3, [](uint64_t q) { Case& c = cs[q % cs.size()]; q /= cs.size(); int org = q % 2; q /= 2; int k = q % 2, mem = q / 2; note("%s %s org %d kind %d opt %d mem %d", F[c.f].name, fname(c.fmt), org, k, c.o.rle, mem); if (!build(8, 4, c.fmt, c.t, org, 8)) { fail("make"); return; }
        if (k && !iluBuildMipmaps()) { fail("mip"); return; } drain(); ilBindImage(nm); if (!ilCreateSubImage(IL_SUB_NEXT, 1)) { fail("sub"); return; } ilActiveImage(1); mk(3, 5, 1, IL_BGRA, IL_UNSIGNED_BYTE, pattern(60, 4).data(), org ? IL_ORIGIN_LOWER_LEFT : IL_ORIGIN_UPPER_LEFT); ilBindImage(nm); drain();
        if (mem == 2) { // a volume: only its first slice fits, but it must stay as it is
            if (!mk(4, 2, 3, c.fmt, c.t, typed_pattern(24 * channels(c.fmt), c.t, 1).data(), org ? IL_ORIGIN_UPPER_LEFT : IL_ORIGIN_LOWER_LEFT)) { fail("vol"); return; } Tree b = snaptree(nm); bool ok; saveL(F[c.f].type, &ok); Tree a = snaptree(nm); eval(); if (a != b) fail("the save changed the volume: %s", b.diff(a).c_str()); drain(); return; }
        Opt o = c.o; o.mem = mem; trip(F[c.f], o); });
}
SUITE(unchanged)   // saving any image in any format (succeeding or refused, lossy ones included) leaves it as it was
{
    static const ILenum T[] = { IL_BMP, IL_TGA, IL_PNG, IL_PNM, IL_SGI, IL_PCX, IL_PSD, IL_TIF, IL_RAW, IL_VTF, IL_HDR, IL_WBMP, IL_JPG, IL_DDS, IL_CHEAD, IL_GIF, IL_ICO }; static const int NT = sizeof T / sizeof *T;
    static std::vector<std::pair<ILenum, ILenum>> ft; for (ILenum f : FORMATS) for (ILenum t : TYPES) if (f != IL_COLOUR_INDEX || bpc(t) == 1) ft.push_back({ f, t });
    batch("unchanged", NT * ft.size() * 2 * 2, [](uint64_t q) { ILenum t = T[q % NT]; q /= NT; auto x = ft[q % ft.size()]; q /= ft.size(); int org = q % 2, r = q / 2; note("%s save of %s/%s org %d opt %d", ename(t).c_str(), fname(x.first), tname(x.second), org, r);
        if (!build(4, 4, x.first, x.second == IL_BYTE && x.first == IL_COLOUR_INDEX ? IL_UNSIGNED_BYTE : x.second, org, 2, IL_PAL_BGRA32, 10)) { fail("make"); return; } Opt o; o.rle = o.inter = o.comp = r; apply(o); Tree b = snaptree(nm); bool ok; Bytes s = saveL(t, &ok); auto e = errors(); Tree a = snaptree(nm); eval(2);
        if (a != b) fail("the save changed the image: %s", b.diff(a).c_str()); if (!ok && e.empty()) fail("refused without an error"); if (ok && !e.empty()) fail("succeeded but recorded %s", ename(e[0]).c_str()); outcome(fnv(s.data(), s.size(), t)); });
}
SUITE(wbmp)   // every bilevel image of up to 10 (thorough: 14) pixels per row, and all row widths
{
    static const Fmt W = { IL_WBMP, "wbmp", {}, U8, false, false, "" };
    batch("rows", thorough ? 14 : 10, [](uint64_t q) { int w = q + 1, h = 1 << w; note("all rows of width %d", w); Bytes d((size_t)w * h); for (int y = 0; y < h; y++) for (int i = 0; i < w; i++) d[y * w + i] = (y >> i & 1) ? 255 : 0; clear_opts(); nm = ilGenImage(); ilBindImage(nm); if (!mk(w, h, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, d.data(), IL_ORIGIN_UPPER_LEFT)) { fail("make"); return; } trip(W, Opt()); });
    batch("sizes", 300 * 2, [](uint64_t q) { int w = q / 2 + 1, org = q % 2; note("%dx3 org %d", w, org); Bytes d = pattern(w * 3, w); for (auto& b : d) b = b & 4 ? 255 : 0; d[0] = 0; d[1] = 255; clear_opts(); nm = ilGenImage(); ilBindImage(nm); if (!mk(w, 3, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, d.data(), org ? IL_ORIGIN_UPPER_LEFT : IL_ORIGIN_LOWER_LEFT)) { fail("make"); return; } trip(W, Opt()); });
}
SUITE(hdr)   // colours that RGBE represents exactly, all sizes around the run-length threshold
{
    static const Fmt H = { IL_HDR, "hdr", {}, 0, false, false, "" };
    batch("sizes", 40 * 3 * 2 * 2, [](uint64_t q) { int w = q % 40 + 1; q /= 40; int h = q % 3 + 1; q /= 3; int org = q % 2, k = q / 2; note("%dx%d org %d kind %d", w, h, org, k); Bytes b = pattern(w * h * 3, w); std::vector<float> f(w * h * 3);
        for (int i = 0; i < w * h; i++) { int e = k ? 0 : (i * 7 % 19) - 9; for (int c = 0; c < 3; c++) f[i * 3 + c] = std::ldexp((float)(c == 0 ? (b[i * 3] | 128) : k ? (b[i * 3 + c] & 1) * 64 : b[i * 3 + c]), e - 8); }
        clear_opts(); nm = ilGenImage(); ilBindImage(nm); if (!mk(w, h, 1, IL_RGB, IL_FLOAT, (uint8_t*)f.data(), org ? IL_ORIGIN_UPPER_LEFT : IL_ORIGIN_LOWER_LEFT)) { fail("make"); return; } trip(H, Opt()); });
}
