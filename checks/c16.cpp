// C16: palette layouts, registration, palette files, quantisation and palette application against exact colour models.
#include "conv.h"
#include <set>
#include <unistd.h>
using namespace mc; using namespace ilx; using namespace conv;
static const ILenum PT[] = { IL_PAL_RGB24, IL_PAL_RGB32, IL_PAL_RGBA32, IL_PAL_BGR24, IL_PAL_BGR32, IL_PAL_BGRA32 };
static const char* PN[] = { "RGB24", "RGB32", "RGBA32", "BGR24", "BGR32", "BGRA32" };
static const int PTN[] = { 0, IL_PAL_RGB24, IL_PAL_RGB32, IL_PAL_RGBA32, IL_PAL_BGR24, IL_PAL_BGR32, IL_PAL_BGRA32 };
struct C4 { int c[4]; bool operator==(const C4& o) const { return !memcmp(c, o.c, sizeof c); } };
static bool hasA(ILenum t) { return t == IL_PAL_RGBA32 || t == IL_PAL_BGRA32; }
static std::vector<C4> colours(const Bytes& p, ILenum t)
{
    std::vector<C4> r; int n = palbpp(t); if (!n) return r; bool b = t == IL_PAL_BGR24 || t == IL_PAL_BGR32 || t == IL_PAL_BGRA32;
    for (size_t i = 0; i + n <= p.size(); i += n) r.push_back({ { p[i + (b ? 2 : 0)], p[i + 1], p[i + (b ? 0 : 2)], hasA(t) ? p[i + 3] : 255 } }); return r;
}
static Bytes curpal() { int s = ilGetInteger(IL_PALETTE_SIZE); ILubyte* p = ilGetPalette(); Bytes b; if (p && s > 0) b.assign(p, p + s); return b; }
// the queries agree
static bool queries(ILenum t, int cols)
{
    struct { ILenum q; int want; const char* n; } Q[] = { { IL_PALETTE_TYPE, (int)t, "type" }, { IL_PALETTE_BPP, palbpp(t), "bytes per entry" }, { IL_PALETTE_NUM_COLS, cols, "number of colours" }, { IL_PALETTE_SIZE, cols * palbpp(t), "size" }, { IL_PALETTE_BASE_TYPE, (t == IL_PAL_RGB24 || t == IL_PAL_RGB32 || t == IL_PAL_RGBA32) ? (palbpp(t) == 3 ? IL_RGB : IL_RGBA) : (palbpp(t) == 3 ? IL_BGR : IL_BGRA), "base type" } };
    for (auto& q : Q) { drain(); int g = ilGetInteger(q.q); eval(); ILenum e = firsterr(); if (e) return fail("palette %s: error %s", q.n, ename(e).c_str()); if (g != q.want) return fail("palette %s is %x, not %x", q.n, g, q.want); } return true;
}
SUITE(convert)
{
    static const int NC[] = { 1, 2, 3, 16, 17, 85, 255, 256 };
    batch("all", 6 * 6 * 6 * 8, [](uint64_t k) { int c = NC[k % 8]; k /= 8; int a = k % 6, b = k / 6 % 6, d = k / 36; note("%s/%d to %s to %s", PN[a], c, PN[b], PN[d]); init(); Bytes idx = pattern(7 * 3, 3), pal = pattern(c * palbpp(PT[a]), 40 + a); for (auto& i : idx) i %= c; mkpal(7, 3, PT[a], c, idx.data(), pal.data(), k % 2 ? IL_ORIGIN_LOWER_LEFT : IL_ORIGIN_UPPER_LEFT); drain();
        auto want = colours(pal, PT[a]); Img before = snap(); if (!queries(PT[a], c)) return; int seq[2] = { b, d };
        for (int s : seq) { if (!ilConvertPal(PT[s])) { fail("refused: %s", ename(firsterr()).c_str()); return; } auto e = errors(); if (!e.empty()) { fail("error on success"); return; } if (!hasA(PT[s])) for (auto& w : want) w.c[3] = 255; auto got = colours(curpal(), PT[s]); eval(want.size()); if (!queries(PT[s], c)) return; if (!(got == want)) { fail("colours changed by the conversion to %s", PN[s]); return; } Img i = snap(); i.pal = before.pal; i.paltype = before.paltype; i.palbpp = before.palbpp; i.palcols = before.palcols; if (i != before) { fail("more than the palette changed: %s", i.diff(before).c_str()); return; } }
        outcome(fnv(curpal().data(), curpal().size())); });
    batch("refused", 0x600 * 3, [](uint64_t k) { int how = k % 3; ILenum t = k / 3; bool known = false; for (ILenum p : PT) if (p == t) known = true; note("type %x, %s", t, how == 0 ? "palette image" : how == 1 ? "no palette" : "no palette type"); init(); Bytes px = pattern(12, 1), pal = pattern(12, 2), ix(4, 1); if (how) mk(2, 2, 1, IL_RGB, IL_UNSIGNED_BYTE, px.data()); else mkpal(2, 2, IL_PAL_RGB24, 4, ix.data(), pal.data()); drain(); Img a = snap(); ILboolean r = ilConvertPal(t); auto e = errors(); eval(2); bool ok = known && !how; if (!!r != ok) { fail("%s", r ? "accepted" : "refused"); return; } if (!ok && (e.size() != 1 || e[0] != (how ? IL_ILLEGAL_OPERATION : IL_INVALID_PARAM))) { fail("error %s", e.empty() ? "none" : ename(e[0]).c_str()); return; } if (!ok && snap() != a) fail("changed the image"); });
}
SUITE(reg)
{
    batch("sizes", 7 * 1030, [](uint64_t k) { ILenum t = PTN[k % 7]; unsigned n = k / 7; bool ok = t && n && n % palbpp(t) == 0; note("type %x, %u bytes", t, n); init(); Bytes px = pattern(6, 1), old = pattern(24, 2), p = pattern(n ? n : 1, 3); mkpal(3, 2, IL_PAL_BGR24, 8, px.data(), old.data()); drain(); Img a = snap(); uint8_t* h = (uint8_t*)malloc(n ? n : 1); memcpy(h, p.data(), n); ilRegisterPal(h, n, t); free(h); auto e = errors(); eval(2); if (ok) { if (!e.empty()) { fail("error %s", ename(e[0]).c_str()); return; } p.resize(n); if (curpal() != p) { fail("other colours came back"); return; } queries(t, n / palbpp(t)); } else { if (e.size() != 1 || e[0] != IL_INVALID_PARAM) { fail("error %s", e.empty() ? "none" : ename(e[0]).c_str()); return; } if (snap() != a) fail("changed the image"); } });
    batch("types", 0x10000, [](uint64_t k) { bool ok = false; for (ILenum p : PT) if (p == k) ok = true; if (ok) return; note("type %x", (int)k); init(); Bytes px = pattern(6, 1), old = pattern(24, 2); static bool made; if (!made || nfails()) { mkpal(3, 2, IL_PAL_BGR24, 8, px.data(), old.data()); } drain(); ilRegisterPal(old.data(), 24, (ILenum)k); auto e = errors(); eval(); if (e.size() != 1 || e[0] != IL_INVALID_PARAM) fail("error %s", e.empty() ? "none" : ename(e[0]).c_str()); });
    // the palette is the image's own: a copy, not shared
    batch("self", 6 * 256, [](uint64_t k) { int t = k % 6, c = k / 6 + 1; note("%s/%d registered from the image itself", PN[t], c); init(); Bytes ix(4, 0), p = pattern(c * palbpp(PT[t]), 9); mkpal(2, 2, PT[t], c, ix.data(), p.data()); drain(); ilRegisterPal(ilGetPalette(), p.size(), PT[t]); eval(); if (!errors().empty() || curpal() != p) { fail("lost"); return; } queries(PT[t], c); });
}
static void put(Bytes& b, const std::string& s) { b.insert(b.end(), s.begin(), s.end()); }
static void p16(Bytes& b, int v) { b.push_back(v & 255); b.push_back(v >> 8 & 255); }
static void p32(Bytes& b, unsigned v) { p16(b, v); p16(b, v >> 16); }
struct PF { const char* name; const char* ext; Bytes b; Bytes rgb; };
// palette files by independent encoders
static PF palfile(int kind, int cols, int var)
{
    PF f; f.rgb = pattern(cols * 3, 60 + cols); f.ext = "pal";
    switch (kind) {
    case 0: { f.name = "JASC"; const char* nl = var & 1 ? "\r\n" : "\n"; const char* sp = var & 2 ? "  " : " "; put(f.b, std::string("JASC-PAL") + nl + "0100" + nl + sfmt("%d", cols) + nl); for (int i = 0; i < cols; i++) put(f.b, sfmt("%d%s%d%s%d%s", f.rgb[i * 3], sp, f.rgb[i * 3 + 1], sp, f.rgb[i * 3 + 2], nl)); break; }
    case 1: f.name = "Halo"; put(f.b, "AH"); p16(f.b, 0xe3); p16(f.b, cols * 6); f.b.push_back(10); f.b.push_back(0); p32(f.b, 0); p16(f.b, cols - 1); p16(f.b, 255); p16(f.b, 255); p16(f.b, 255); f.b.resize(f.b.size() + 20); for (uint8_t c : f.rgb) p16(f.b, c); break;
    case 2: f.name = "COL"; f.ext = "col"; f.rgb = pattern(768, 61); if (var & 1) { p32(f.b, 776); p16(f.b, 0xB123); p16(f.b, 0); } f.b.insert(f.b.end(), f.rgb.begin(), f.rgb.end()); break;
    case 3: f.name = "ACT"; f.ext = "act"; f.rgb = pattern(768, 62); f.b = f.rgb; break;
    default: f.name = "PLT"; f.ext = "plt"; p32(f.b, cols * 3); f.b.insert(f.b.end(), f.rgb.begin(), f.rgb.end());
    }
    return f;
}
SUITE(files)
{
    static const int NC[] = { 1, 2, 16, 17, 100, 255, 256 };
    batch("saved", 6 * 256 * 2, [](uint64_t k) { int over = k & 1, t = k / 2 % 6, c = k / 12 + 1; note("%s/%d saved and loaded%s", PN[t], c, over ? " over an old file" : ""); init(); Bytes ix = pattern(6, 4), p = pattern(c * palbpp(PT[t]), 9); for (auto& i : ix) i %= c; mkpal(3, 2, PT[t], c, ix.data(), p.data()); drain(); Img a = snap(); std::string fn = workdir() + "/x.pal"; unlink(fn.c_str()); if (over) { writefile(fn, pattern(9999, 2)); Bytes old = readfile(fn); ilDisable(IL_FILE_OVERWRITE); ILboolean r = ilSavePal(fn.c_str()); auto e = errors(); if (r || e.size() != 1 || e[0] != IL_FILE_ALREADY_EXISTS || readfile(fn) != old) { fail("an existing file is not protected"); return; } ilEnable(IL_FILE_OVERWRITE); }
        if (!ilSavePal(fn.c_str())) { fail("save: %s", ename(firsterr()).c_str()); return; } auto e = errors(); eval(3); if (!e.empty()) { fail("error on success"); return; } if (snap() != a) { fail("saving changed the image: %s", snap().diff(a).c_str()); return; }
        Bytes px = pattern(12, 1); if (k % 3) mk(2, 2, 1, IL_RGB, IL_UNSIGNED_BYTE, px.data()); drain(); if (!ilLoadPal(fn.c_str())) { fail("load: %s", ename(firsterr()).c_str()); return; } e = errors(); if (!e.empty()) { fail("error on success"); return; } auto got = colours(curpal(), ilGetInteger(IL_PALETTE_TYPE)), want = colours(p, PT[t]); if ((int)got.size() < c) { fail("%zu colours came back", got.size()); return; } for (size_t i = 0; i < got.size(); i++) for (int j = 0; j < 3; j++) if (got[i].c[j] != (i < want.size() ? want[i].c[j] : 0)) { fail("entry %zu came back as %d %d %d", i, got[i].c[0], got[i].c[1], got[i].c[2]); return; } queries(ilGetInteger(IL_PALETTE_TYPE), got.size()); });
    batch("loaded", 5 * 7 * 4 * 2, [](uint64_t k) { int had = k & 1; k /= 2; int var = k % 4; k /= 4; PF f = palfile(k % 5, NC[k / 5], var); note("%s/%zu variant %d%s", f.name, f.rgb.size() / 3, var, had ? ", replacing a palette" : ""); set_cpu_limit(60); init(); std::string fn = workdir() + "/x." + f.ext;
        Bytes ix = pattern(6, 4), old = pattern(12, 5), px = pattern(18, 6); for (auto& i : ix) i %= 3; auto make = [&] { if (had) mkpal(3, 2, IL_PAL_BGRA32, 3, ix.data(), old.data()); else mk(3, 2, 1, IL_RGB, IL_UNSIGNED_BYTE, px.data()); drain(); };
        make(); writefile(fn, f.b); Img a = snap(); if (!ilLoadPal(fn.c_str())) { fail("refused: %s", ename(firsterr()).c_str()); return; } auto e = errors(); eval(2); if (!e.empty()) { fail("error on success"); return; } auto got = colours(curpal(), ilGetInteger(IL_PALETTE_TYPE)), want = colours(f.rgb, IL_PAL_RGB24); if (!(got == want)) { fail("other colours (%zu/%zu)", got.size(), want.size()); return; } queries(ilGetInteger(IL_PALETTE_TYPE), got.size()); Img i = snap(); i.pal = a.pal; i.paltype = a.paltype; i.palbpp = a.palbpp; i.palcols = a.palcols; if (i != a) { fail("more than the palette changed"); return; }
        // every truncation: refused and nothing changed (cut digits or line ends of a text file may still be complete)
        for (size_t c = 0; c < f.b.size(); c++) { if (f.b.size() > 500 && c % 7 && c > 60 && c < f.b.size() - 20) continue; make(); Bytes t(f.b.begin(), f.b.begin() + c); writefile(fn, t); ILboolean r = ilLoadPal(fn.c_str()); auto er = errors(); eval(2); transition(); bool tail = (k % 5 == 0 && c + 4 >= f.b.size()) || (k % 5 == 2 && c == 768); if (!r) { if (er.empty()) { fail("cut to %zu: failed without an error", c); return; } if (snap() != a) { fail("cut to %zu: failed and changed the image: %s", c, snap().diff(a).c_str()); return; } } else if (!tail) { fail("cut to %zu of %zu: accepted", c, f.b.size()); return; } }
        unlink(fn.c_str()); make(); if (ilLoadPal(fn.c_str()) || firsterr() != IL_COULD_NOT_OPEN_FILE || snap() != a) fail("a missing file is not refused properly"); });
}
// distinct colours, spread over the cube
static Bytes distinct(int k, int n, int ch, int salt) { Bytes b; for (int i = 0; i < n; i++) { int c = i % k; uint8_t v[4] = { (uint8_t)(c * 37 + salt), (uint8_t)(c * (salt % 2 ? 1 : 91) + (c >> 3)), (uint8_t)(255 - c), 255 }; for (int j = 0; j < ch; j++) b.push_back(v[j]); } return b; }
static bool poor(const Img& a, const Img& b, int mx, bool neu, bool fills = false)
{
    double mean[3] = { 0 }, var = 0, err = 0; int n = a.w * a.h; for (int i = 0; i < n; i++) for (int c = 0; c < 3; c++) mean[c] += a.at(i % a.w, i / a.w)[c] / (double)n;
    for (int i = 0; i < n; i++) { const uint8_t* p = a.at(i % a.w, i / a.w); Px g = decode(b.at(i % a.w, i / a.w), IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, &b.pal, b.paltype); for (int c = 0; c < 3; c++) { var += (p[c] - mean[c]) * (p[c] - mean[c]) / n; err += (p[c] - g.c[c]) * (p[c] - g.c[c]) / n; } }
    eval(); double limit = fills ? neu ? var : var * 2 / std::pow(mx, 2 / 3.) : neu ? mx < 16 ? 1e30 : var : mx == 1 ? var * 1.05 + 1 : var * 2 / mx; if (err > limit) { fail("a poor approximation: the mean squared error is %.1f, that of one average colour %.1f", err, var); return true; } return false;
}
SUITE(quantise)
{
    static const ILenum F[] = { IL_RGB, IL_BGR, IL_RGBA, IL_BGRA, IL_LUMINANCE, IL_LUMINANCE_ALPHA };
    batch("fits", 6 * 2 * 2 * 256 * 2, [](uint64_t q) { int salt = q & 1; q /= 2; int org = q & 1, mode = q >> 1 & 1; q /= 4; ILenum f = F[q % 6]; int k = q / 6 + 1; if (f == IL_LUMINANCE_ALPHA && salt) return; note("%s with %d colours, %s, origin %d, colours %d", fname(f), k, mode ? "NEU" : "WU", org, salt); set_cpu_limit(60); init(); ilSetInteger(IL_QUANTIZATION_MODE, mode ? IL_NEU_QUANT : IL_WU_QUANT); int w = 16, h = (k + 15) / 16 + 1, n = channels(f); Bytes px = distinct(k, w * h, n == 2 ? 1 : n, 3 + salt * 12); if (n == 1 || n == 2) { Bytes g; for (int i = 0; i < w * h; i++) { g.push_back(i % k); if (n == 2) g.push_back(255); } px = g; } mk(w, h, 1, f, IL_UNSIGNED_BYTE, px.data(), org ? IL_ORIGIN_LOWER_LEFT : IL_ORIGIN_UPPER_LEFT); drain(); Img a = snap();
        if (!ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE)) { fail("refused: %s", ename(firsterr()).c_str()); return; } Img b = snap(); eval(3); int nc = b.palcols; for (uint8_t i : b.data) if (i >= nc) { fail("index %d with %d colours", i, nc); return; } if (nc > 256) { fail("%d colours", nc); return; } queries(b.paltype, nc);
        for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { Px p = decode(a.at(x, y), f, IL_UNSIGNED_BYTE), g = decode(b.at(x, y), IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, &b.pal, b.paltype); for (int c = 0; c < 3; c++) if (p.c[c] != g.c[c]) { fail("pixel %d,%d shows %g %g %g instead of %g %g %g", x, y, g.c[0], g.c[1], g.c[2], p.c[0], p.c[1], p.c[2]); return; } }
        if (!ilConvertImage(IL_RGB, IL_UNSIGNED_BYTE)) { fail("back: %s", ename(firsterr()).c_str()); return; } Img c = snap(); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { Px p = decode(a.at(x, y), f, IL_UNSIGNED_BYTE), g = decode(c.at(x, y), IL_RGB, IL_UNSIGNED_BYTE); for (int j = 0; j < 3; j++) if (p.c[j] != g.c[j]) { fail("pixel %d,%d differs after converting back", x, y); return; } } outcome(b.hash()); });
    batch("limit", 2 * 256 * 4, [](uint64_t q) { int mode = q & 1; q /= 2; int more = q % 4; q /= 4; int mx = q + 1; int k = more == 0 ? mx : more == 1 ? std::min(mx + 1, 256) : more == 2 ? 256 : std::max(1, mx / 2); note("at most %d colours, %d used, %s", mx, k, mode ? "NEU" : "WU"); set_cpu_limit(60); init(); ilSetInteger(IL_QUANTIZATION_MODE, mode ? IL_NEU_QUANT : IL_WU_QUANT); ilSetInteger(IL_MAX_QUANT_INDICES, mx); bool set = ilGetInteger(IL_MAX_QUANT_INDICES) == mx; drain(); if (!set) return; int w = 16, h = 20; Bytes px = distinct(k, w * h, 3, 3); mk(w, h, 1, IL_RGB, IL_UNSIGNED_BYTE, px.data()); drain(); Img a = snap(); if (!ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE)) { auto e = errors(); if (e.empty()) fail("refused without an error"); else if (snap() != a) fail("refused and changed"); else fail("refused: %s", ename(e[0]).c_str()); return; } Img b = snap(); std::set<int> used; eval(2); for (uint8_t i : b.data) { if (i >= mx) { fail("index %d", i); return; } used.insert(i); } if (k <= mx) for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { const uint8_t* p = a.at(x, y); Px g = decode(b.at(x, y), IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, &b.pal, b.paltype); if (g.c[0] != p[0] || g.c[1] != p[1] || g.c[2] != p[2]) { fail("pixel %d,%d changed", x, y); return; } }
        // too many colours: never worse than one average colour, and much better when there is room
        else if (poor(a, b, mx, mode)) return; outcome(b.hash()); });
    // a few colours, tiny images: all images of up to 4 pixels over three colours
    batch("tiny", 2 * (3 + 9 + 27 + 81) * 3, [](uint64_t q) { int mode = q & 1; q /= 2; int set = q % 3; q /= 3; int n = 1; uint64_t s = 3; while (q >= s) { q -= s; s *= 3; n++; } static const uint8_t P[3][3][3] = { { { 0, 0, 0 }, { 255, 255, 255 }, { 255, 0, 0 } }, { { 100, 100, 100 }, { 101, 100, 100 }, { 100, 101, 100 } }, { { 7, 200, 3 }, { 8, 201, 4 }, { 255, 254, 253 } } }; Bytes px; int qq = q; for (int i = 0; i < n; i++) { const uint8_t* c = P[set][qq % 3]; px.insert(px.end(), c, c + 3); qq /= 3; } note("%d pixels number %d colours %d %s", n, (int)q, set, mode ? "NEU" : "WU"); init(); ilSetInteger(IL_QUANTIZATION_MODE, mode ? IL_NEU_QUANT : IL_WU_QUANT); mk(n, 1, 1, IL_RGB, IL_UNSIGNED_BYTE, px.data()); drain(); if (!ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE) || !ilConvertImage(IL_RGB, IL_UNSIGNED_BYTE)) { fail("refused"); return; } Img b = snap(); eval(); if (b.data != px) fail("colours changed"); });
}
SUITE(apply)
{
    static const ILenum F[] = { IL_RGB, IL_BGR, IL_RGBA, IL_BGRA, IL_LUMINANCE, IL_LUMINANCE_ALPHA, IL_COLOUR_INDEX, IL_ALPHA };
    static const int NC[] = { 1, 2, 5, 16, 256 };
    batch("nearest", 8 * 5 * 2 * 2 * 4, [](uint64_t q) { int kind = q % 4; q /= 4; int org = q & 1, d = q >> 1 & 1; q /= 4; int c = NC[q % 5]; ILenum f = F[q / 5]; PF pf = palfile(kind == 3 ? 4 : kind, c, 0); note("%s %s/%zu origin %d depth %d", fname(f), pf.name, pf.rgb.size() / 3, org, d + 1); init(); int w = 9, h = 4, n = w * h * (d + 1); ILenum o = org ? IL_ORIGIN_LOWER_LEFT : IL_ORIGIN_UPPER_LEFT; Bytes px = pattern(n * channels(f), 8), pal = pattern(256 * 4, 10); if (f == IL_COLOUR_INDEX) mkpal(w, h, IL_PAL_BGRA32, 256, px.data(), pal.data(), o, d + 1); else mk(w, h, d + 1, f, IL_UNSIGNED_BYTE, px.data(), o); drain(); Img a = snap(); std::string fn = workdir() + "/a." + pf.ext; writefile(fn, pf.b); ILboolean r = ilApplyPal(fn.c_str()); auto e = errors(); eval(2);
        if (f == IL_ALPHA) { if (r || e.empty() || snap() != a) fail("not refused properly"); return; } if (!r) { fail("refused: %s", e.empty() ? "-" : ename(e[0]).c_str()); return; } if (!e.empty()) { fail("error on success"); return; } Img b = snap(); if (b.format != IL_COLOUR_INDEX || b.type != IL_UNSIGNED_BYTE || b.w != w || b.h != h || b.d != d + 1 || b.origin != (int)o) { fail("result is %s", b.desc().c_str()); return; } auto want = colours(pf.rgb, IL_PAL_RGB24); if (!(colours(b.pal, b.paltype) == want)) { fail("another palette"); return; }
        for (int i = 0; i < n; i++) { Px p = decode(a.data.data() + i * channels(f), f, IL_UNSIGNED_BYTE, &a.pal, a.paltype); auto dist = [&](int k) { double s = 0; for (int j = 0; j < 3; j++) s += (p.c[j] - want[k].c[j]) * (p.c[j] - want[k].c[j]); return s; }; int g = b.data[i]; if (g >= (int)want.size()) { fail("index %d", g); return; } for (size_t k = 0; k < want.size(); k++) if (dist(k) < dist(g)) { fail("pixel %d: entry %d though %zu is nearer", i, g, k); return; } }
        // a bad file changes nothing
        pf.b.resize(pf.b.size() / 2); writefile(fn, pf.b); b = snap(); r = ilApplyPal(fn.c_str()); e = errors(); eval(); if (r || e.empty() || snap() != b) fail("a cut palette file is not refused properly"); outcome(b.hash()); });
    batch("types", 9 * 7, [](uint64_t q) { ILenum t = TYPES[q % TYPES.size()], f = F[q / 9]; if (t == IL_UNSIGNED_BYTE || t == IL_BYTE || f == IL_COLOUR_INDEX) return; note("%s %s", fname(f), tname(t)); init(); Bytes px = typed_pattern(6 * channels(f), t, 3); mk(3, 2, 1, f, t, px.data()); drain(); PF pf = palfile(0, 5, 0); std::string fn = workdir() + "/a.pal"; writefile(fn, pf.b); Img a = snap(); ILboolean r = ilApplyPal(fn.c_str()); auto e = errors(); eval(); if (r || e.size() != 1 || e[0] != IL_ILLEGAL_OPERATION || snap() != a) fail("not refused properly"); });
}
SUITE(large)   // more pixels of one colour than 16 bits count
{
    static const int N[] = { 1, 2, 3, 17, 255, 256 }, L[][2] = { { 65537, 1 }, { 301, 299 }, { 1, 66000 } };
    batch("large", 6 * 3 * 2 * 3, [](uint64_t q) { set_cpu_limit(120); int k = N[q % 6]; q /= 6; const int* s = L[q % 3]; q /= 3; int mode = q & 1, shape = q / 2; int n = s[0] * s[1]; note("%dx%d with %d colours, %s, #%d", s[0], s[1], k, mode ? "NEU" : "WU", shape); Bytes d = distinct(k, k, 3, 7), px; px.reserve(n * 3); for (int i = 0; i < n; i++) { int c = shape == 0 ? i % k : shape == 1 ? (i < n - k ? 0 : n - 1 - i) : (int)((int64_t)i * k / n); px.insert(px.end(), &d[c * 3], &d[c * 3] + 3); }
        init(); ilSetInteger(IL_QUANTIZATION_MODE, mode ? IL_NEU_QUANT : IL_WU_QUANT); mk(s[0], s[1], 1, IL_RGB, IL_UNSIGNED_BYTE, px.data()); drain(); if (!ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE) || !ilConvertImage(IL_RGB, IL_UNSIGNED_BYTE)) { fail("refused"); return; } Img b = snap(); eval(); if (b.data != px) { size_t i = 0; while (b.data[i] == px[i]) i++; fail("colour of pixel %zu changed", i / 3); } outcome(b.hash()); });
    // many colours: the approximation stays a good one
    batch("many", 2 * 3 * 3, [](uint64_t q) { set_cpu_limit(120); int mode = q & 1, mx = q / 2 % 3 == 0 ? 16 : q / 2 % 3 == 1 ? 64 : 256; const int* s = L[q / 6]; int n = s[0] * s[1]; note("%dx%d, at most %d colours, %s", s[0], s[1], mx, mode ? "NEU" : "WU"); Bytes px(n * 3); for (int i = 0; i < n; i++) { px[i * 3] = i * 5 / 7; px[i * 3 + 1] = i / 256; px[i * 3 + 2] = (i * 3) >> 4; } init(); ilSetInteger(IL_QUANTIZATION_MODE, mode ? IL_NEU_QUANT : IL_WU_QUANT); ilSetInteger(IL_MAX_QUANT_INDICES, mx); mk(s[0], s[1], 1, IL_RGB, IL_UNSIGNED_BYTE, px.data()); drain(); Img a = snap(); if (!ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE)) { fail("refused"); return; } Img b = snap(); bool used[256] = { 0 }; int nu = 0; for (uint8_t i : b.data) { if (i >= b.palcols) { fail("index %d of %d", i, b.palcols); return; } nu += !used[i]; used[i] = true; } if (nu > mx) { fail("%d colours", nu); return; } if (!poor(a, b, mx, mode, true)) outcome(b.hash()); });
}
