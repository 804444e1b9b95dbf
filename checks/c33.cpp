// C33: every file the library writes is valid by its format's layout and shows the image to a decoder that shares nothing with the library.
#include "decoders.h"
#include "saves.h"
#include <unistd.h>
using namespace mc; using namespace ilx; using namespace conv; using namespace dec;
struct Kd { ILenum f, t; int pal, cols; };
static std::vector<Kd> kinds() { std::vector<Kd> v; for (ILenum f : FORMATS) { if (f == IL_COLOUR_INDEX) { for (int p : { IL_PAL_RGB24, IL_PAL_RGB32, IL_PAL_RGBA32, IL_PAL_BGR24, IL_PAL_BGR32, IL_PAL_BGRA32 }) for (int c : { 256, 17, 2, 1 }) if (c != 1 || p == IL_PAL_BGR24) v.push_back({ f, IL_UNSIGNED_BYTE, p, c }); continue; } for (ILenum t : TYPES) v.push_back({ f, t, 0, 0 }); } return v; }
static std::string kn(const Kd& k) { return k.pal ? sfmt("indexed palette %x/%d", k.pal, k.cols) : sfmt("%s %s", fname(k.f), tname(k.t)); }
static bool mkk(const Kd& k, int w, int h, int org, uint32_t salt = 5, int runs = 0)
{
    ILenum o = org ? IL_ORIGIN_LOWER_LEFT : IL_ORIGIN_UPPER_LEFT;
    if (k.pal) { Bytes ix = pattern(w * h, salt); for (size_t i = 0; i < ix.size(); i++) ix[i] = runs ? (i / runs) % k.cols : ix[i] % k.cols; return mkpal(w, h, k.pal, k.cols, ix.data(), pattern(k.cols * palbpp(k.pal), 31).data(), o); }
    Bytes p = typed_pattern(w * h * channels(k.f), k.t, salt); int n = channels(k.f) * bpc(k.t); if (runs) for (int i = 0; i < w * h; i++) memmove(&p[i * n], &p[(i / runs % 3) * n], n); return mk(w, h, 1, k.f, k.t, p.data(), o);
}
struct Fm { ILenum type; const char* name; Pic (*d)(const Bytes&); };
static const Fm FS[] = { { IL_BMP, "bmp", bmp }, { IL_TGA, "tga", tga }, { IL_PNG, "png", png }, { IL_PNM, "pnm", pnm }, { IL_SGI, "sgi", sgi }, { IL_PCX, "pcx", pcx }, { IL_PSD, "psd", psd }, { IL_TIF, "tif", tif }, { IL_HDR, "hdr", hdr }, { IL_VTF, "vtf", vtf } };
static const int NFS = sizeof FS / sizeof *FS;
static bool palalpha(const Kd& k) { return k.pal == IL_PAL_RGBA32 || k.pal == IL_PAL_BGRA32; }
// which images a format cannot store at all
static bool refusable(ILenum type, const Kd& k, bool comp)
{
    switch (type) { case IL_PNG: return k.f == IL_ALPHA || isf(k.t); case IL_TGA: return k.f == IL_ALPHA || k.f == IL_LUMINANCE_ALPHA; case IL_PNM: return (k.t != IL_UNSIGNED_BYTE && k.t != IL_UNSIGNED_SHORT) || (comp && k.t != IL_UNSIGNED_BYTE); default: return false; }
}
// compares a decoded file with the image it was made from
static std::string same(ILenum type, const Kd& k, const Img& a, const Pic& p)
{
    if (p.w != a.w || p.h != a.h) return sfmt("the file is %dx%d", p.w, p.h);
    bool src = hasalpha(k.f) || palalpha(k); if (src && !p.alpha) { bool may = type == IL_PNM || type == IL_HDR || (k.pal && (type == IL_BMP || type == IL_PCX || type == IL_PSD || type == IL_SGI || type == IL_PNG)) || (type == IL_SGI && k.f == IL_ALPHA); if (type == IL_PNG && k.pal) { may = true; for (int i = 0; i < k.cols; i++) if (a.pal[i * 4 + 3] != 255) may = false; } if (!may) return "the alpha is lost"; }
    if (p.grey && !graylike(k.f) && k.f != IL_ALPHA) return "the colours are lost"; if (bpc(k.t) > 1 && (type == IL_PNG || type == IL_PSD || type == IL_TIF || (type == IL_SGI && !isf(k.t))) && p.type != IL_UNSIGNED_SHORT) return "only 8 bits are kept";
    for (int y = 0; y < a.h; y++) for (int x = 0; x < a.w; x++) { Px q = decode(a.at(x, y), k.f, k.t, &a.pal, a.paltype); const double* g = &p.px[((size_t)y * p.w + x) * 4];
        if (type == IL_HDR) { double m = 0; bool skip = false; Range rg[3]; for (int c = 0; c < 3; c++) { rg[c] = expect(q, IL_RGB, IL_FLOAT, c); skip |= rg[c].skip || rg[c].lo < -1e-6; m = std::max(m, rg[c].hi); } if (skip) continue; for (int c = 0; c < 3; c++) if (g[c] < rg[c].lo - m / 128 - 1e-6 || g[c] > rg[c].hi + m / 128 + 1e-6) return sfmt("pixel %d,%d channel %d is %g, not %g..%g", x, y, c, g[c], rg[c].lo, rg[c].hi); continue; }
        for (int c = 0; c < (p.alpha ? 4 : 3); c++) { Range r = expect(q, IL_RGBA, p.type, c); if (r.skip) continue; if (p.indexed && !k.pal) { r.lo -= 1; r.hi += 1; } if (g[c] < r.lo || g[c] > r.hi) return sfmt("pixel %d,%d channel %d is %g, not %g..%g", x, y, c, g[c], r.lo, r.hi); } }
    return "";
}
static bool judge(const Fm& f, const Kd& k, bool comp, Pic* out = 0, Bytes* file = 0)
{
    Img a = snap(); bool ok; transition(); Bytes b = saveL(f.type, &ok); auto e = errors(); eval();
    if (!ok) { if (e.empty()) fail("refused without an error"); else if (!refusable(f.type, k, comp)) fail("refused: %s", ename(e[0]).c_str()); return false; }
    try { Pic p = f.d(b); std::string m = same(f.type, k, a, p); if (!m.empty()) { fail("%s", m.c_str()); return false; } eval((uint64_t)a.w * a.h); if (out) *out = p; if (file) *file = b; } catch (Bad& x) { fail("not a valid file: %s", x.why.c_str()); return false; }
    outcome(fnv(b.data(), b.size())); return true;
}
struct Sh { int w, h; };
static std::vector<Sh> shapes(ILenum type) { std::vector<Sh> v; if (type == IL_VTF) { for (int w = 1; w <= 16; w *= 4) for (int h = 1; h <= 8; h *= 2) v.push_back({ w, h }); return v; } for (int w = 1; w <= (thorough ? 40 : 9); w++) for (int h = 1; h <= (thorough ? 9 : 3); h++) v.push_back({ w, h }); for (int w : { 15, 16, 17, 63, 64, 65, 127, 128, 129, 130, 255, 256, 257 }) { v.push_back({ w, 2 }); v.push_back({ 1, w }); } return v; }
static void opts(int o) { if (!o) { ilHint(IL_COMPRESSION_HINT, IL_NO_COMPRESSION); drain(); return; } ilSetInteger(IL_TGA_RLE, 1); ilSetInteger(IL_SGI_RLE, 1); ilSetInteger(IL_PNG_INTERLACE, 1); ilHint(IL_COMPRESSION_HINT, IL_USE_COMPRESSION); drain(); }
SUITE(pictures)   // every kind of image in every format it can be stored in, all sizes
{
    static auto K = kinds(); struct C { int f, k; Sh s; }; static std::vector<C> cs; for (int f = 0; f < NFS; f++) for (size_t k = 0; k < K.size(); k++) for (auto& s : shapes(FS[f].type)) if (thorough || s.w < 20 || (K[k].t == IL_UNSIGNED_BYTE && s.h < 20)) cs.push_back({ f, (int)k, s });
    batch("pictures", cs.size() * 2 * 2 * 2, [](uint64_t q) { C& c = cs[q % cs.size()]; q /= cs.size(); int org = q & 1, o = q >> 1 & 1, runs = q >> 2; const Kd& k = K[c.k]; note("%s of %s %dx%d origin %d options %d content %d", FS[c.f].name, kn(k).c_str(), c.s.w, c.s.h, org, o, runs); init(); if (!mkk(k, c.s.w, c.s.h, org, c.s.w + 7 * c.s.h, runs ? 3 : 0)) { fail("make"); return; } opts(o); judge(FS[c.f], k, o); ilShutDown(); });
}
SUITE(rows)   // every two-valued row, so every run structure, through every run-length coder, and long runs at every packet limit
{
    static const int f[] = { 1, 4, 5, 8 }; static int W; W = thorough ? 15 : 9;
    batch("rows", 4 * 3 * W, [](uint64_t q) { int w = q % W + 1; q /= W; static const ILenum X[] = { IL_LUMINANCE, IL_RGB, IL_BGRA }; Kd k{ X[q % 3], IL_UNSIGNED_BYTE, 0, 0 }; const Fm& F = FS[f[q / 3]]; note("%s %s all rows of width %d", F.name, kn(k).c_str(), w); if (F.type == IL_HDR) w += 7; int h = 1 << std::min(w, W), ch = channels(k.f); Bytes d((size_t)w * h * ch); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) for (int c = 0; c < ch; c++) d[((size_t)y * w + x) * ch + c] = y >> x & 1 ? 0xc1 + c * 7 : 9 + c;
        init(); if (!mk(w, h, 1, k.f, k.t, d.data())) { fail("make"); return; } opts(1); judge(F, k, true); ilShutDown(); });
    static const int B[] = { 0, 1, 2, 3, 4, 62, 63, 64, 65, 126, 127, 128, 129, 130, 191, 255, 256, 257 }; static const int NB = sizeof B / sizeof *B;
    batch("packets", 4 * 3 * NB * NB, [](uint64_t q) { int n = B[q % NB]; q /= NB; int m = B[q % NB]; q /= NB; static const ILenum X[] = { IL_LUMINANCE, IL_RGB, IL_BGRA }; Kd k{ X[q % 3], IL_UNSIGNED_BYTE, 0, 0 }; const Fm& F = FS[f[q / 3]]; if (n + m == 0) return; note("%s %s literal %d, run %d and the reverse", F.name, kn(k).c_str(), n, m); int ch = channels(k.f); Bytes d; for (int r = 0; r < 2; r++) { auto lit = [&] { for (int i = 0; i < n; i++) for (int c = 0; c < ch; c++) d.push_back((i * 37 + c * 5 + (i >> 3)) & 255); }; auto run = [&] { for (int i = 0; i < m; i++) for (int c = 0; c < ch; c++) d.push_back(0xd0 + c); }; if (r) { run(); lit(); } else { lit(); run(); } }
        init(); if (!mk(n + m, 2, 1, k.f, k.t, d.data())) { fail("make"); return; } opts(1); judge(F, k, true); ilShutDown(); });
}
// ---- options: exactly the format they belong to follows them
struct Op { const char* name; std::vector<int> v; std::function<void(int)> set; };
SUITE(options)
{
    static std::vector<Op> O = { { "TGA_RLE", { 0, 1 }, [](int v) { ilSetInteger(IL_TGA_RLE, v); } }, { "SGI_RLE", { 0, 1 }, [](int v) { ilSetInteger(IL_SGI_RLE, v); } }, { "PNG_INTERLACE", { 0, 1 }, [](int v) { ilSetInteger(IL_PNG_INTERLACE, v); } }, { "compression hint", { IL_DONT_CARE, IL_NO_COMPRESSION, IL_USE_COMPRESSION }, [](int v) { ilHint(IL_COMPRESSION_HINT, v); } },
        { "SAVE_INTERLACED, BMP_RLE and stamp", { 0, 1 }, [](int v) { (v ? ilEnable : ilDisable)(IL_SAVE_INTERLACED); ilSetInteger(IL_BMP_RLE, v); ilSetInteger(IL_TGA_CREATE_STAMP, v); } }, { "memory hint", { IL_FASTEST, IL_LESS_MEM }, [](int v) { ilHint(IL_MEM_SPEED_HINT, v); } }, { "origin mode", { 0, IL_ORIGIN_UPPER_LEFT, IL_ORIGIN_LOWER_LEFT }, [](int v) { if (v) { ilEnable(IL_ORIGIN_SET); ilOriginFunc(v); } } } };
    static auto KK = std::vector<Kd>{ { IL_RGB, IL_UNSIGNED_BYTE, 0, 0 }, { IL_BGRA, IL_UNSIGNED_BYTE, 0, 0 }, { IL_LUMINANCE, IL_UNSIGNED_BYTE, 0, 0 }, { IL_RGBA, IL_UNSIGNED_SHORT, 0, 0 }, { IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, IL_PAL_BGRA32, 20 } };
    static uint64_t N; N = 1; for (auto& o : O) N *= o.v.size();
    batch("options", N * NFS * KK.size() * 2, [](uint64_t q) { const Fm& f = FS[q % NFS]; q /= NFS; const Kd& k = KK[q % KK.size()]; q /= KK.size(); int org = q % 2; q /= 2; std::string d; init(); int v[8]; for (size_t i = 0; i < O.size(); i++) { v[i] = O[i].v[q % O[i].v.size()]; q /= O[i].v.size(); O[i].set(v[i]); d += sfmt("%s%x", i ? "," : "", v[i]); } drain(); note("%s of %s origin %d with %s", f.name, kn(k).c_str(), org, d.c_str());
        if (!mkk(k, 8, 4, org, 3, 3)) { fail("make"); return; } drain(); Pic p; if (!judge(f, k, v[3] == IL_USE_COMPRESSION, &p)) return; auto w = [&](const char* m, const std::string& x) { if (p.meta[m] != x) fail("%s is %s, not %s", m, p.meta[m].c_str(), x.c_str()); };
        if (f.type == IL_TGA) w("rle", v[0] ? "1" : "0"); if (f.type == IL_SGI && bpc(k.t) == 1) w("rle", v[1] ? "1" : "0"); if (f.type == IL_PNG) w("interlaced", v[2] ? "1" : "0"); if (f.type == IL_TIF) w("compressed", v[3] == IL_USE_COMPRESSION ? "1" : "0"); if (f.type == IL_PNM) w("kind", v[3] == IL_USE_COMPRESSION ? "P6" : "P3"); ilShutDown(); });
}
SUITE(jpeg)   // quality and progression are what was asked for, the picture is that of a plain encoder
{
    static std::vector<int> Q; Q.clear(); for (int i = 0; i <= 99; i += thorough ? 1 : 9) Q.push_back(i); static auto KK = std::vector<Kd>{ { IL_RGB, IL_UNSIGNED_BYTE, 0, 0 }, { IL_LUMINANCE, IL_UNSIGNED_BYTE, 0, 0 }, { IL_BGR, IL_UNSIGNED_BYTE, 0, 0 }, { IL_BGRA, IL_UNSIGNED_BYTE, 0, 0 }, { IL_LUMINANCE, IL_UNSIGNED_SHORT, 0, 0 }, { IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, IL_PAL_BGR32, 30 } }; static const Sh S[] = { { 1, 1 }, { 8, 8 }, { 17, 9 }, { 3, 20 } };
    batch("jpeg", Q.size() * 2 * KK.size() * 4 * 2 * 2, [](uint64_t q) { int qu = Q[q % Q.size()]; q /= Q.size(); int pr = q & 1; q /= 2; const Kd& k = KK[q % KK.size()]; q /= KK.size(); Sh s = S[q % 4]; q /= 4; int org = q & 1, sf = q >> 1; note("jpg of %s %dx%d origin %d quality %d progressive %d format %d", kn(k).c_str(), s.w, s.h, org, qu, pr, sf); init(); if (!mkk(k, s.w, s.h, org, 3)) { fail("make"); return; } ilSetInteger(IL_JPG_QUALITY, qu); (pr ? ilEnable : ilDisable)(IL_JPG_PROGRESSIVE); if (ilGetError()) ilSetInteger(IL_JPG_PROGRESSIVE, pr); ilSetInteger(IL_JPG_SAVE_FORMAT, sf ? IL_EXIF : IL_JFIF); drain();
        Img a = snap(); bool ok; transition(); Bytes b = saveL(IL_JPG, &ok); auto e = errors(); eval(); if (!ok) { fail("refused: %s", e.empty() ? "-" : ename(e[0]).c_str()); return; }
        try { Pic p = jpg(b); bool grey = p.grey; if (grey && !graylike(k.f)) { fail("the colours are lost"); return; } Bytes d; for (int y = 0; y < a.h; y++) for (int x = 0; x < a.w; x++) { Px z = decode(a.at(x, y), k.f, k.t, &a.pal, a.paltype); for (int c = 0; c < (grey ? 1 : 3); c++) d.push_back((uint8_t)(z.c[c] / (bpc(z.type) == 2 ? 256 : 1))); }
            Pic w = jpg(jpgencode(a.w, a.h, grey, d, qu, pr)); if (p.w != w.w || p.h != w.h) { fail("the file is %dx%d", p.w, p.h); return; } if (p.meta["progressive"] != w.meta["progressive"]) fail("progressive is %s", p.meta["progressive"].c_str()); if (p.meta["jfif"] != "1") fail("no JFIF header"); if (p.meta["tables"] != w.meta["tables"]) fail("the quantisation tables are not those of quality %d", qu);
            double sum = 0, top = 0; for (size_t i = 0; i < p.px.size(); i++) { double x = std::fabs(p.px[i] - w.px[i]); sum += x; top = std::max(top, x); } if (sum / p.px.size() > 1 || top > 40) fail("the picture differs from a plain encoder's by %g on average, %g at most", sum / p.px.size(), top); outcome(fnv(b.data(), b.size())); } catch (Bad& x) { fail("not a valid file: %s", x.why.c_str()); } ilShutDown(); });
}
// ---- texts set with ilSetString
struct St { ILenum id; const char* name; ILenum type; size_t max; const char* key; };
static const St SS[] = { { IL_TGA_ID_STRING, "TGA id", IL_TGA, 254, "id" }, { IL_TGA_AUTHNAME_STRING, "TGA author", IL_TGA, 40, "author" }, { IL_TGA_AUTHCOMMENT_STRING, "TGA comment", IL_TGA, 80, "comment" }, { IL_PNG_AUTHNAME_STRING, "PNG author", IL_PNG, 255, "Author" }, { IL_PNG_TITLE_STRING, "PNG title", IL_PNG, 255, "Title" }, { IL_PNG_DESCRIPTION_STRING, "PNG description", IL_PNG, 255, "Description" },
    { IL_TIF_DESCRIPTION_STRING, "TIFF description", IL_TIF, 255, "description" }, { IL_TIF_HOSTCOMPUTER_STRING, "TIFF host", IL_TIF, 255, "host" }, { IL_TIF_DOCUMENTNAME_STRING, "TIFF document", IL_TIF, 255, "document" }, { IL_TIF_AUTHNAME_STRING, "TIFF author", IL_TIF, 255, "author" } };
static const int NS = sizeof SS / sizeof *SS;
static std::string text(size_t n, int salt) { std::string t; for (size_t i = 0; i < n; i++) t += "abcdefghijklmnopqrstuvwxyz ABC,.-0123456789"[(i * 7 + salt * 5 + i / 9) % 43]; if (n) t[0] = 'a' + salt % 26, t[n - 1] = 'Z'; return t; }
static void texts(const std::map<int, std::string>& set, int pushed, const Kd& k)
{
    init(); if (!mkk(k, 4, 2, 0)) { fail("make"); return; } for (auto& s : set) ilSetString(SS[s.first].id, s.second.c_str()); if (pushed == 1) { ilPushAttrib(IL_ALL_ATTRIB_BITS); for (auto& s : SS) ilSetString(s.id, "other"); ilPopAttrib(); } if (pushed == 2) { ilPushAttrib(IL_ALL_ATTRIB_BITS); } drain();
    for (const Fm& f : FS) { Pic p; if (!judge(f, k, false, &p)) { if (nfails()) return; continue; } for (int i = 0; i < NS; i++) if (SS[i].type == f.type) { auto it = set.find(i); std::string w = it == set.end() ? "" : it->second.substr(0, SS[i].max); std::string g = p.meta.count(SS[i].key) ? p.meta[SS[i].key] : ""; if (g != w) { fail("%s is '%s' (%zu), not '%s' (%zu)", SS[i].name, g.c_str(), g.size(), w.c_str(), w.size()); return; } } }
    ilShutDown();
}
SUITE(texts)
{
    static const size_t L[] = { 0, 1, 2, 38, 39, 40, 41, 42, 78, 79, 80, 81, 82, 127, 128, 252, 253, 254, 255, 256, 257, 300, 1000 }; static const int NL = sizeof L / sizeof *L; static auto KK = std::vector<Kd>{ { IL_RGB, IL_UNSIGNED_BYTE, 0, 0 }, { IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, IL_PAL_RGB24, 9 } };
    batch("one", NS * NL * 3 * 2, [](uint64_t q) { int s = q % NS; q /= NS; int l = q % NL; q /= NL; int p = q % 3; const Kd& k = KK[q / 3]; note("%s of %zu characters, %s, %s", SS[s].name, L[l], p == 2 ? "inherited" : p ? "restored" : "set", kn(k).c_str()); texts({ { s, text(L[l], s) } }, p, k); });
    batch("two", NS * NS * 4 * 4, [](uint64_t q) { static const size_t M[] = { 0, 7, 80, 400 }; int a = q % NS; q /= NS; int b = q % NS; q /= NS; int x = q % 4, y = q / 4; note("%s of %zu and %s of %zu characters", SS[a].name, M[x], SS[b].name, M[y]); if (a == b) { init(); ilSetString(SS[a].id, text(M[x], 3).c_str()); texts({ { b, text(M[y], 4) } }, 0, KK[0]); } else texts({ { a, text(M[x], a) }, { b, text(M[y], b) } }, 0, KK[0]); });
    batch("subsets", 1 << NS, [](uint64_t q) { note("texts %x", (unsigned)q); std::map<int, std::string> m; for (int i = 0; i < NS; i++) if (q >> i & 1) m[i] = text(10 + i, i); texts(m, 0, KK[0]); });
    batch("bytes", NS * 255, [](uint64_t q) { int s = q % NS; unsigned char c = q / NS + 1; if (SS[s].type == IL_PNG && (c < 32 && c != '\n' || (c > 126 && c < 161))) return; note("%s with the byte %02x", SS[s].name, c); std::string t = "x?y"; t[1] = c; texts({ { s, t } }, 0, KK[0]); });
}
// ---- C headers
SUITE(headers)
{
    static auto K = kinds(); static const Sh S[] = { { 1, 1 }, { 5, 3 }, { 14, 1 }, { 15, 1 }, { 16, 1 }, { 7, 4 } };
    batch("headers", K.size() * 6 * 2 * 4, [](uint64_t q) { const Kd& k = K[q % K.size()]; q /= K.size(); Sh s = S[q % 6]; q /= 6; int org = q & 1, nl = q / 2; static const char* NM[] = { 0, "picture", "a", "abcdefghijklmnopqrstuvwxyz_0123456789" }; note("C header of %s %dx%d origin %d name %d", kn(k).c_str(), s.w, s.h, org, nl); init(); if (!mkk(k, s.w, s.h, org)) { fail("make"); return; } if (NM[nl]) ilSetString(IL_CHEAD_HEADER_STRING, NM[nl]); Img a = snap(); std::string fn = workdir() + "/x.h"; ::unlink(fn.c_str()); transition(); bool ok = ilSave(IL_CHEAD, fn.c_str()); auto e = errors(); eval(); if (!ok) { fail("refused: %s", e.empty() ? "-" : ename(e[0]).c_str()); return; } Bytes b = readfile(fn);
        try { CHead h = chead(b); auto w = [&](const char* n, long v) { if (!h.defs.count(n) || h.defs[n] != v) fail("%s is %ld, not %ld", n, h.defs.count(n) ? h.defs[n] : -1, v); }; w("IMAGE_BPP", a.bpp); w("IMAGE_WIDTH", a.w); w("IMAGE_HEIGHT", a.h); w("IMAGE_DEPTH", a.d); w("IMAGE_FORMAT", a.format); if (NM[nl] && h.name != std::string(NM[nl]).substr(0, 32)) fail("the array is called %s", h.name.c_str());
            ILenum t = h.defs["IMAGE_TYPE"]; if (bpc(t) != 1) { fail("type %x", t); return; } if (h.data.size() != (size_t)a.w * a.h * a.bpp) { fail("%zu samples", h.data.size()); return; }
            if (k.pal) { if (h.data != a.data || !h.haspal || h.pal != a.pal) fail("indices or palette differ"); w("IMAGE_PALSIZE", a.pal.size()); w("IMAGE_PALTYPE", a.paltype); } else { std::string m = cmp(a.data.data(), k.f, k.t, 0, 0, h.data.data(), k.f, IL_UNSIGNED_BYTE, a.w * a.h); if (!m.empty()) fail("%s", m.c_str()); if (h.haspal) fail("a palette from nowhere"); } outcome(fnv(b.data(), b.size())); } catch (Bad& x) { fail("not valid C: %s", x.why.c_str()); } ilShutDown(); });
}
// ---- raw, WBMP, DDS and compressed VTF
SUITE(others)
{
    static auto K = kinds(); static const Sh S[] = { { 1, 1 }, { 5, 3 }, { 8, 2 }, { 9, 4 }, { 31, 2 }, { 130, 1 } };
    batch("raw", K.size() * 6 * 2 * 3, [](uint64_t q) { const Kd& k = K[q % K.size()]; q /= K.size(); Sh s = S[q % 6]; q /= 6; int org = q & 1, d = q / 2 + 1; note("raw of %s %dx%dx%d origin %d", kn(k).c_str(), s.w, s.h, d, org); init(); if (k.pal && d > 1) return; if (d == 1 ? !mkk(k, s.w, s.h, org) : !mk(s.w, s.h, d, k.f, k.t, typed_pattern(s.w * s.h * d * channels(k.f), k.t, 4).data(), org ? IL_ORIGIN_LOWER_LEFT : IL_ORIGIN_UPPER_LEFT)) { fail("make"); return; } Img a = snap(); bool ok; transition(); Bytes b = saveL(IL_RAW, &ok); eval(); if (!ok) { fail("refused"); return; }
        try { Pic p = raw(b); if (p.w != a.w || p.h != a.h * a.d || p.meta["bpc"] != sfmt("%d", a.bpc) || p.meta["channels"] != sfmt("%d", a.bpp)) fail("header"); else if (Bytes(b.end() - a.data.size(), b.end()) != a.data) fail("the samples differ"); } catch (Bad& x) { fail("not a valid file: %s", x.why.c_str()); } ilShutDown(); });
    batch("wbmp", 40 * 3 * 2 * 3, [](uint64_t q) { int w = q % 40 + 1; q /= 40; int h = q % 3 + 1; q /= 3; int org = q & 1, m = q / 2; if (w == 40) w = 128 + h; note("wbmp %dx%d origin %d kind %d", w, h, org, m); init(); Bytes d = pattern(w * h, w); for (auto& v : d) v = v & 4 ? 230 : 20; if (w * h == 1) return; d[0] = 20; d[w * h - 1] = 230; ILenum o = org ? IL_ORIGIN_LOWER_LEFT : IL_ORIGIN_UPPER_LEFT; Bytes px; if (m == 1) for (auto v : d) { px.push_back(v); px.push_back(v); px.push_back(v); } if (m == 2) { Bytes ix; for (auto v : d) ix.push_back(v > 100 ? 0 : 1); Bytes pal = { 250, 250, 250, 1, 1, 1 }; mkpal(w, h, IL_PAL_RGB24, 2, ix.data(), pal.data(), o); } else mk(w, h, 1, m ? IL_RGB : IL_LUMINANCE, IL_UNSIGNED_BYTE, m ? px.data() : d.data(), o);
        Img a = snap(); bool ok; transition(); Bytes b = saveL(IL_WBMP, &ok); eval(); if (!ok) { fail("refused"); return; } try { Pic p = wbmp(b); if (p.w != w || p.h != h) { fail("the file is %dx%d", p.w, p.h); return; } for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { Px z = decode(a.at(x, y), a.format, a.type, &a.pal, a.paltype); if ((z.c[0] > 128) != (p.at(x, y)[0] > 128)) { fail("pixel %d,%d is %g", x, y, p.at(x, y)[0]); return; } } outcome(fnv(b.data(), b.size())); } catch (Bad& x) { fail("not a valid file: %s", x.why.c_str()); } ilShutDown(); });
    static const ILenum DX[] = { IL_DXT1, IL_DXT1A, IL_DXT2, IL_DXT3, IL_DXT4, IL_DXT5, IL_3DC, IL_RXGB, IL_ATI1N };
    batch("dds", 9 * 6 * 2 * 5 * 3, [](uint64_t q) { ILenum x = DX[q % 9]; q /= 9; Sh s = S[q % 6]; q /= 6; int org = q & 1; q /= 2; static const ILenum X[] = { IL_RGB, IL_BGRA, IL_LUMINANCE, IL_RGBA, IL_LUMINANCE_ALPHA }; Kd k{ X[q % 5], IL_UNSIGNED_BYTE, 0, 0 }; int mips = q / 5; note("dds %s of %s %dx%d origin %d mipmaps %d", ename(x).c_str(), kn(k).c_str(), s.w, s.h, org, mips); init(); ILuint n = ilGenImage(); ilBindImage(n); if (!mkk(k, s.w, s.h, org)) { fail("make"); return; } if (mips == 1) iluBuildMipmaps(); else if (mips == 2) { if (!mk(s.w, s.h, 3, k.f, k.t, pattern(s.w * s.h * 3 * channels(k.f), 5).data(), org ? IL_ORIGIN_LOWER_LEFT : IL_ORIGIN_UPPER_LEFT)) return; } ilSetInteger(IL_DXTC_FORMAT, x); drain(); ilBindImage(n); Img a = snap(); transition();
        bool ok; Bytes b = saveL(IL_DDS, &ok); auto e = errors(); eval(); if (!ok) { fail("refused: %s", e.empty() ? "-" : ename(e[0]).c_str()); return; }
        try { R r(b); if (r.s(4) != "DDS ") throw Bad{ "no DDS" }; r.is(r.l32(), 124, "header size"); unsigned fl = r.l32(); r.is(r.l32(), a.h, "height"); r.is(r.l32(), a.w, "width"); unsigned lin = r.l32(), dep = r.l32(), mm = r.l32(); r.zero(44, "reserved"); r.is(r.l32(), 32, "pixel format size"); unsigned pf = r.l32(); std::string cc = r.s(4); r.p += 20; unsigned c1 = r.l32(), c2 = r.l32(); r.zero(12, "reserved");
            int bs = x == IL_DXT1 || x == IL_DXT1A || x == IL_ATI1N ? 8 : 16; auto blocks = [&](int w, int h, int d) { return (size_t)((w + 3) / 4) * ((h + 3) / 4) * d * bs; }; const char* FC = x == IL_DXT1 || x == IL_DXT1A ? "DXT1" : x == IL_DXT2 || x == IL_DXT3 ? "DXT3" : x == IL_DXT4 || x == IL_DXT5 ? "DXT5" : x == IL_3DC ? "ATI2" : x == IL_RXGB ? "RXGB" : "ATI1"; if (cc != FC) fail("the code is %s", cc.c_str()); if ((fl & 0x81007) != 0x81007) fail("flags %x", fl); if (pf != 4) fail("pixel format flags %x", pf); if (!(c1 & 0x1000)) fail("caps %x", c1);
            r.is(lin, blocks(a.w, a.h, a.d), "linear size"); if (a.d > 1) { r.is(dep, a.d, "depth"); if (!(fl & 0x800000) || !(c2 & 0x200000)) fail("no volume: flags %x caps %x", fl, c2); } else if (c2) fail("caps2 %x", c2); if (a.nmip) { if (!(fl & 0x20000) || !(c1 & 0x400008)) fail("no mipmaps: flags %x caps %x", fl, c1); r.is(mm, a.nmip + 1, "mipmaps"); }
            size_t want = 0; { ILuint cur = n; for (int i = 0; i <= a.nmip; i++) { ilBindImage(cur); if (i) ilActiveMipmap(i); want += blocks(ilGetInteger(IL_IMAGE_WIDTH), ilGetInteger(IL_IMAGE_HEIGHT), ilGetInteger(IL_IMAGE_DEPTH)); } ilBindImage(n); } r.is(b.size() - 128, want, "size of the data"); outcome(fnv(b.data(), b.size())); } catch (Bad& z) { fail("not a valid file: %s", z.why.c_str()); } ilShutDown(); });
    batch("vtfdxt", 3 * 25 * 2 * 3, [](uint64_t q) { static const ILenum V[] = { IL_DXT1, IL_DXT3, IL_DXT5 }; ILenum x = V[q % 3]; q /= 3; int w = 1 << q % 5, h = 1 << q / 5 % 5; q /= 25; int org = q & 1; q /= 2; static const ILenum X[] = { IL_RGB, IL_BGRA, IL_LUMINANCE }; Kd k{ X[q], IL_UNSIGNED_BYTE, 0, 0 }; note("vtf %s of %s %dx%d origin %d", ename(x).c_str(), kn(k).c_str(), w, h, org); init(); mkk(k, w, h, org); ilSetInteger(IL_VTF_COMP, x); drain(); transition(); bool ok; Bytes b = saveL(IL_VTF, &ok); auto e = errors(); eval(); if (!ok) { fail("refused: %s", e.empty() ? "-" : ename(e[0]).c_str()); return; }
        try { Pic p = vtf(b); if (p.w != w || p.h != h) fail("the file is %dx%d", p.w, p.h); int f = atoi(p.meta["format"].c_str()); if (x == IL_DXT1 ? f != 13 && f != 20 : x == IL_DXT3 ? f != 14 : f != 15) fail("format %d", f); } catch (Bad& z) { fail("not a valid file: %s", z.why.c_str()); } ilShutDown(); });
}
