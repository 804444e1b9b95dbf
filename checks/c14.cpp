// C14: the rules of the callback interface on every load and save of every format, with every single (and every lasting) refusal of a callback.
#include "corpus.h"
#include "vfs.h"
using namespace mc; using namespace ilx;
static ILuint nm;
static void fresh() { ilBindImage(nm); ilTexImage(1, 1, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, 0); drain(); }
static void boot() { set_cpu_limit(60); ilShutDown(); init(); vfs::reset(); vfs::fs().clear(); ilGenImages(1, &nm); ilBindImage(nm); vfs::install(); drain(); }
static bool rules(const char* what) { std::string v = vfs::verdict(); eval(); if (!v.empty()) return fail("%s: %s", what, v.c_str()); return true; }
// a handle of ours is still open and ours
static bool mine(const char* what, vfs::H* h) { eval(); if (!h->open || h->closes) return fail("%s: our handle was closed", what); if (vfs::opens) return fail("%s: opened a file", what); return rules(what); }
struct R { bool ok; uint64_t h; Tree t; std::vector<ILenum> e; };
static R take(ILboolean r) { R x; x.e = errors(); x.ok = r; x.h = 0; if (r) { x.t = snaptree(nm); x.h = x.t.hash(); drain(); } return x; }
static bool usable(const char* what) { uint8_t px[12] = { 1, 2, 3 }; drain(); ilBindImage(nm); if (!ilTexImage(2, 2, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, px) || ilGetError()) return fail("%s: the library is unusable afterwards", what); return true; }
static bool same(const char* what, const R& a, const R& b) { eval(); if (a.ok != b.ok) return fail("%s: %s, expected %s (%s)", what, b.ok ? "loads" : "fails", a.ok ? "loads" : "fails", b.e.empty() ? "-" : ename(b.e[0]).c_str()); if (a.h != b.h) return fail("%s: another image: %s", what, b.t.diff(a.t).c_str()); return true; }
// how: 0 name, 1 handle, 2 name by extension, 3 detected name, 4 detected handle
static R load(int how, const corpus::E& f, const std::string& name, const char* what, bool check = true)
{
    fresh(); vfs::reset(); ILboolean r; vfs::H* h = 0; (void)check;
    switch (how) { case 0: r = ilLoad(f.type, name.c_str()); break; case 1: h = vfs::make(name, 0, false); r = ilLoadF(f.type, h); break; case 2: r = ilLoadImage(name.c_str()); break; case 3: r = ilLoad(IL_TYPE_UNKNOWN, name.c_str()); break; default: h = vfs::make(name, 0, false); r = ilLoadF(IL_TYPE_UNKNOWN, h); }
    if (h) mine(what, h); else { rules(what); eval(); if (vfs::opens != vfs::closes) fail("%s: %ld opens, %ld closes", what, vfs::opens, vfs::closes); } return take(r);
}
static const char* HOW[] = { "load by name", "load by handle", "load by extension", "detected load by name", "detected load by handle" };
SUITE(loads)
{
    auto& C = corpus::all(thorough); std::vector<corpus::E> L(C.begin(), C.end());
    batch("good", L.size(), [&](uint64_t q) { const corpus::E& f = L[q]; note("%s", f.name.c_str()); boot(); std::string n = "dir/pic." + f.ext; vfs::fs()[n] = f.b;
        fresh(); vfs::reset(); R ref = take(ilLoadL(f.type, f.b.data(), f.b.size())); if (!ref.ok) { fail("lump: %s", ename(ref.e[0]).c_str()); return; } if (vfs::calls || vfs::opens || vfs::closes) { fail("a lump load calls the callbacks"); return; }
        for (int h = 0; h < 5; h++) { if (h >= 3 && !f.sig) continue; R r = load(h, f, n, HOW[h]); if (nfails() || !same(HOW[h], ref, r)) return; if (!vfs::calls) { fail("%s: did not use the callbacks", HOW[h]); return; } }
        // detection and validation through callbacks
        vfs::reset(); ILenum t = ilDetermineType(n.c_str()); rules("ilDetermineType"); if (f.sig && t != f.type) fail("ilDetermineType says %x", t); for (long off : { 0L, 5L }) { std::string m = "y"; vfs::fs()[m] = pattern((int)off, 3); auto& d = vfs::fs()[m]; d.insert(d.end(), f.b.begin(), f.b.end()); vfs::reset(); vfs::H* h = vfs::make(m, off, false); t = ilDetermineTypeF(h); if (f.sig && t != f.type) fail("ilDetermineTypeF at %ld says %x", off, t); mine("ilDetermineTypeF", h); if (h->pos != off) fail("ilDetermineTypeF moved the handle"); vfs::reset(); h = vfs::make(m, off, false); drain(); ilIsValidF(f.type, h); mine("ilIsValidF", h); if (h->pos != off) fail("ilIsValidF moved the handle"); drain(); }
        vfs::reset(); ilIsValid(f.type, n.c_str()); rules("ilIsValid"); drain(); if (nfails()) return;
        // a missing file, an open that is refused
        vfs::reset(); fresh(); Img a = snap(); if (ilLoad(f.type, "nothing") || firsterr() != IL_COULD_NOT_OPEN_FILE) fail("a missing file: no or another error"); if (snap() != a) fail("a missing file changed the image"); rules("missing file");
        // back to the default I/O
        std::string real = workdir() + "/r." + f.ext; writefile(real, f.b); ilResetRead(); vfs::reset(); fresh(); R r = take(ilLoad(f.type, real.c_str())); if (vfs::calls || vfs::opens) fail("ilResetRead: the callbacks are still called"); same("default I/O", ref, r); remove(real.c_str()); outcome(ref.h); });
    // every callback refused once, or from some point on
    batch("faults", L.size() * 2 * 2 * 2, [&](uint64_t q) { bool sticky = q & 1, handle = q >> 1 & 1, part = q >> 2 & 1; const corpus::E& f = L[q / 8]; note("%s by %s, %s refusal%s", f.name.c_str(), handle ? "handle" : "name", sticky ? "lasting" : "single", part ? ", short" : ""); boot(); std::string n = "p." + f.ext; vfs::fs()[n] = f.b; R ref = load(handle, f, n, "unfaulted"); if (nfails() || !ref.ok) return; long total = vfs::calls;
        for (long k = 0; k < total; k++) { fresh(); vfs::reset(); vfs::failat = k; vfs::sticky = sticky; vfs::shortmode = part; ILboolean r; vfs::H* h = 0; if (handle) { h = vfs::make(n, 0, false); r = ilLoadF(f.type, h); } else r = ilLoad(f.type, n.c_str()); auto e = errors(); eval(3); transition(); if (h) mine("load", h); else rules("load"); if (nfails()) { fail("refused %s, call %ld", vfs::failed.c_str(), k); return; } if (!r && e.empty()) { fail("call %ld (%s) refused: failed without an error", k, vfs::failed.c_str()); return; } if (r) snaptree(nm); drain(); if (!usable("after a refusal")) return; }
        same("load after the refusals", ref, load(handle, f, n, "unfaulted again")); });
    // cut files: handles are closed on every failure
    batch("cut", L.size(), [&](uint64_t q) { const corpus::E& f = L[q]; note("%s cut", f.name.c_str()); boot(); std::string n = "p." + f.ext; for (size_t c = 0; c < f.b.size(); c++) { if (f.b.size() > 300 && c > 200 && c < f.b.size() - 60 && c % 13) continue; Bytes b(f.b.begin(), f.b.begin() + c); vfs::fs()[n] = b; fresh(); R l = take(ilLoadL(f.type, b.data(), b.size())); for (int h = 0; h < 3; h++) { R r = load(h, f, n, HOW[h]); transition(); if (nfails() || !same(HOW[h], l, r)) { fail("cut to %zu", c); return; } } } });
}
SUITE(savesuite)
{
    using namespace saves;
    batch("good", NFM * KN.size() * NOPT, [](uint64_t q) { int o = q % NOPT; q /= NOPT; const F& f = FM[q % NFM]; const K& k = KN[q / NFM]; note("%s %s option %d", f.ext, kname(k).c_str(), o); boot(); if (!make(k, 4, 2)) return; options(o); bool ok; vfs::reset(); Bytes ref = saveL(f.type, &ok); drain(); if (vfs::calls || vfs::opens) { fail("a lump save calls the callbacks"); return; } Img a = snap(); drain(); std::string n = std::string("out.") + f.ext;
        for (int how = 0; how < 3; how++) { vfs::reset(); vfs::fs().clear(); vfs::H* h = 0; bool r; if (how == 2) { vfs::fs()[n] = pattern(9, 9); h = vfs::make(n, 9, true); r = ilSaveF(f.type, h) != 0; } else r = how ? ilSaveImage(n.c_str()) : ilSave(f.type, n.c_str()); auto e = errors(); const char* w = how == 0 ? "save by name" : how == 1 ? "save by extension" : "save by handle"; if (h) mine(w, h); else { rules(w); if (vfs::opens != vfs::closes) fail("%s: %ld opens, %ld closes", w, vfs::opens, vfs::closes); } eval(3); if (nfails()) return; if (r != ok) { fail("%s %s, the lump %s (%s)", w, r ? "works" : "fails", ok ? "works" : "fails", e.empty() ? "-" : ename(e[0]).c_str()); return; } if (!r) { if (e.empty()) fail("%s: failed without an error", w); continue; } Bytes g = vfs::fs()[n]; if (h) g.erase(g.begin(), g.begin() + 9); if (g != ref) { fail("%s: other bytes", w); return; } if (!vfs::calls) { fail("%s: did not use the callbacks", w); return; } }
        if (snap() != a) fail("the image changed"); if (!ok) return; std::string real = workdir() + "/r." + f.ext; remove(real.c_str()); ilResetWrite(); vfs::reset(); if (!ilSave(f.type, real.c_str()) || readfile(real) != ref || vfs::calls || vfs::opens) fail("ilResetWrite does not restore the default I/O"); remove(real.c_str()); outcome(fnv(ref.data(), ref.size())); });
    // reading callbacks only, writing callbacks only: the other direction stays as it was
    batch("independent", NFM, [](uint64_t q) { const F& f = FM[q]; note("%s", f.ext); boot(); if (!make(KN[0], 4, 4)) return; ilResetWrite(); std::string real = workdir() + "/r." + f.ext; remove(real.c_str()); vfs::reset(); if (!ilSave(f.type, real.c_str())) { drain(); return; } if (vfs::calls || vfs::opens) fail("ilResetWrite: callbacks used"); Bytes b = readfile(real); std::string n = std::string("in.") + f.ext; vfs::fs()[n] = b; if (f.type != IL_RAW && !ilLoad(f.type, n.c_str())) fail("ilResetWrite also reset the reading callbacks: %s", ename(firsterr()).c_str()); drain(); vfs::install(); ilResetRead(); make(KN[0], 4, 4); vfs::reset(); if (!ilSave(f.type, n.c_str()) || !vfs::opens) fail("ilResetRead also reset the writing callbacks"); if (f.type != IL_RAW && !ilLoad(f.type, real.c_str())) fail("default reading: %s", ename(firsterr()).c_str()); remove(real.c_str()); eval(4); });
}
// palette files and raw data files go through the callbacks as well
static Bytes palfile(int kind, int cols, std::string& ext) { Bytes b; auto u16 = [&](int v) { b.push_back(v & 255); b.push_back(v >> 8); }; Bytes rgb = pattern(kind == 0 || kind == 3 ? cols * 3 : 768, 7 + kind); switch (kind) { case 0: ext = "plt"; u16(cols * 3); u16(0); break; case 1: ext = "act"; break; case 2: ext = "col"; u16(776); u16(0); u16(0xB123); u16(0); break; case 3: ext = "pal"; b = { 'A', 'H' }; u16(0xe3); u16(cols * 6); u16(10); u16(0); u16(0); u16(cols - 1); u16(255); u16(255); u16(255); b.resize(b.size() + 20); for (uint8_t c : rgb) u16(c); return b; default: ext = "col"; } b.insert(b.end(), rgb.begin(), rgb.end()); return b; }
SUITE(palettes)
{
    static auto base = [](int had) { ilBindImage(nm); Bytes ix(4, 1), p = pattern(12, 3), px = pattern(12, 1); if (had) mkpal(2, 2, IL_PAL_RGB24, 4, ix.data(), p.data()); else mk(2, 2, 1, IL_RGB, IL_UNSIGNED_BYTE, px.data()); drain(); };
    // once: 0 as it is, 1 cut, 2 a byte changed; the default I/O is the reference
    static auto once = [](const Bytes& b, const std::string& ext, int had, const char* what, bool apply) { std::string n = workdir() + "/p." + ext; writefile(n, b); vfs::fs()[n] = b; ilResetRead(); base(had); vfs::reset(); ILboolean r0 = apply ? ilApplyPal(n.c_str()) : ilLoadPal(n.c_str()); auto e0 = errors(); if (vfs::calls || vfs::opens) return fail("%s: the default I/O calls the callbacks", what); Img a = snap(); vfs::install(); base(had); vfs::reset(); ILboolean r = apply ? ilApplyPal(n.c_str()) : ilLoadPal(n.c_str()); auto e = errors(); transition(); eval(3); if (!rules(what)) return false; if (vfs::opens != vfs::closes) return fail("%s: %ld opens, %ld closes", what, vfs::opens, vfs::closes); if (!vfs::opens) return fail("%s: did not use the callbacks", what); if (r != r0 || e.size() != e0.size()) return fail("%s: %s by callbacks, %s by the default I/O", what, r ? "loads" : "fails", r0 ? "loads" : "fails"); if (snap() != a) return fail("%s: another result", what); return true; };
    batch("files", 5 * 3 * 2 * 2, [](uint64_t q) { int apply = q & 1, had = q >> 1 & 1; q /= 4; static const int N[] = { 1, 16, 256 }; int cols = N[q % 3], kind = q / 3; if (cols < 256 && kind != 0 && kind != 3) return; std::string ext; Bytes b = palfile(kind, cols, ext); note("%s kind %d, %d colours, %s%s", ext.c_str(), kind, cols, apply ? "applied" : "loaded", had ? ", replacing" : ""); boot(); if (!once(b, ext, had, "the file", apply)) return;
        std::string n = workdir() + "/p." + ext; Img a; base(had); bool ok = ilLoadPal(n.c_str()); if (!ok) { fail("refused"); return; }
        for (size_t c = 0; c < b.size(); c++) { if (c > 64 && c + 8 < b.size() && c % 37) continue; if (kind == 3 && c < 8) continue; if (!once(Bytes(b.begin(), b.begin() + c), ext, had, mc::sfmt("cut to %zu", c).c_str(), apply)) return; }
        if (!apply) for (size_t i = 0; i < std::min<size_t>(b.size(), 48); i++) for (int v = 0; v < 256; v += v == 0 || v == 254 || v == 255 || thorough ? 1 : v < 64 ? 3 : 19) { Bytes t = b; t[i] = v; if (!once(t, ext, had, mc::sfmt("byte %zu is %d", i, v).c_str(), apply)) return; }
        // every refused callback
        writefile(n, b); vfs::fs()[n] = b; for (int sticky = 0; sticky < 2; sticky++) for (int part = 0; part < 2; part++) { long total = 1; for (long k = -1; k < total; k++) { base(had); Img was = snap(); vfs::reset(); vfs::failat = k; vfs::sticky = sticky; vfs::shortmode = part; ILboolean r = apply ? ilApplyPal(n.c_str()) : ilLoadPal(n.c_str()); auto e = errors(); transition(); if (k < 0) total = vfs::calls; if (!rules("a refusal")) { fail("call %ld (%s)", k, vfs::failed.c_str()); return; } if (!r && e.empty()) { fail("call %ld (%s) refused: no error", k, vfs::failed.c_str()); return; } if (!r && snap() != was) { fail("call %ld (%s) refused: the image changed", k, vfs::failed.c_str()); return; } } } vfs::reset(); remove(n.c_str()); if (!usable("afterwards")) return; outcome(q); });
}
SUITE(rawdata)
{
    static const int S[][3] = { { 1, 1, 1 }, { 3, 2, 1 }, { 2, 2, 3 }, { 5, 1, 1 } }; static const int BP[] = { 1, 3, 4 };
    batch("load", 4 * 3 * 3, [](uint64_t q) { int how = q % 3; q /= 3; int bpp = BP[q % 3]; const int* s = S[q / 3]; size_t z = (size_t)s[0] * s[1] * s[2] * bpp; note("%dx%dx%d of %d bytes %s", s[0], s[1], s[2], bpp, how == 0 ? "by name" : how == 1 ? "by handle" : "by lump"); Bytes all = pattern(z + 9, 5);
        for (size_t len = 0; len <= z + 4; len++) for (int sticky = 0; sticky < 2; sticky++) for (int part = 0; part < 2; part++) { if ((sticky || part) && len != z && len != z - 1) continue; long total = how == 2 ? 0 : 1; for (long k = -1; k < total; k++) { if (k >= 0 && len != z && len != z - 1) continue; boot(); long off = how == 1 ? 3 : 0; Bytes b(all.begin(), all.begin() + len); Bytes fb = pattern(off, 2); fb.insert(fb.end(), b.begin(), b.end()); std::string n = "raw.bin"; vfs::fs()[n] = fb; fresh(); vfs::reset(); vfs::H* h = how == 1 ? vfs::make(n, off, false) : 0; vfs::failat = k; vfs::sticky = sticky; vfs::shortmode = part; ILboolean r = how == 0 ? ilLoadData(n.c_str(), s[0], s[1], s[2], bpp) : how == 1 ? ilLoadDataF(h, s[0], s[1], s[2], bpp) : ilLoadDataL(b.data(), b.size(), s[0], s[1], s[2], bpp); auto e = errors(); transition(); eval(4); long calls = vfs::calls; std::string fl = vfs::failed; if (how == 1) mine("load", h); else rules("load"); if (how == 2 && (vfs::calls || vfs::opens)) fail("a lump calls the callbacks"); if (how == 0 && vfs::opens != vfs::closes) { if (!(k == 0 && fl == "open")) fail("%ld opens, %ld closes", vfs::opens, vfs::closes); } if (nfails()) { fail("%zu bytes, call %ld %s", len, k, fl.c_str()); return; }
            if (k < 0) { total = how == 2 ? 0 : calls; bool want = len >= z; if (!!r != want || r == !e.empty()) { fail("%zu of %zu bytes: returns %d with %zu errors", len, z, r, e.size()); return; } if (r) { Img i = snap(); static const ILenum FT[] = { 0, IL_LUMINANCE, 0, IL_RGB, IL_RGBA }; if (i.w != s[0] || i.h != s[1] || i.d != s[2] || i.format != FT[bpp] || i.type != IL_UNSIGNED_BYTE || i.origin != IL_ORIGIN_UPPER_LEFT || i.data != Bytes(all.begin(), all.begin() + z)) { fail("shows %s", i.desc().c_str()); return; } } } else if (!r && e.empty()) { fail("call %ld (%s) refused: no error", k, fl.c_str()); return; } if (k >= 0 && !usable("afterwards")) return; } }
        outcome(z); });
    batch("save", saves::KN.size(), [](uint64_t q) { using namespace saves; const K& k = KN[q]; note("%s", kname(k).c_str()); for (int sticky = 0; sticky < 2; sticky++) for (int part = 0; part < 2; part++) { long total = 1; for (long c = -1; c < total; c++) { boot(); if (!make(k, 3, 2)) return; Img a = snap(); std::string n = "out.bin"; vfs::reset(); vfs::failat = c; vfs::sticky = sticky; vfs::shortmode = part; ILboolean r = ilSaveData(n.c_str()); auto e = errors(); transition(); eval(3); if (!rules("save")) { fail("call %ld (%s)", c, vfs::failed.c_str()); return; } if (c < 0) { total = vfs::calls; if (!r || e.size() || vfs::opens != 1 || vfs::closes != 1) { fail("refused"); return; } if (vfs::fs()[n] != a.data) { fail("other bytes"); return; } } else { if (r || e.empty()) { fail("call %ld (%s) refused: returns %d with %zu errors", c, vfs::failed.c_str(), r, e.size()); return; } } if (snap() != a) { fail("the image changed"); return; } } } outcome(q); });
    batch("null", 2, [](uint64_t q) { note("%s of no name", q ? "ilSaveData" : "ilLoadData"); boot(); fresh(); Img a = snap(); vfs::reset(); ILboolean r = q ? ilSaveData(0) : ilLoadData(0, 1, 1, 1, 3); auto e = errors(); eval(3); if (r || e.size() != 1 || e[0] != IL_INVALID_PARAM) fail("returns %d, %s", r, e.empty() ? "-" : ename(e[0]).c_str()); if (vfs::opens) fail("opens a file"); if (snap() != a) fail("the image changed"); });
}
SUITE(large)   // files beyond every buffer and 16-bit count, read and written through callbacks
{
    using namespace saves; static const int KI[] = { 0, 1, 4, 8 };
    batch("large", NFM * 4 * 2 * 2, [](uint64_t q) { int c = q & 1; q /= 2; int o = q & 1; q /= 2; const F& f = FM[q % NFM]; const K& k = KN[KI[q / NFM]]; int w = f.pow2 ? 256 : 301, hh = f.pow2 ? 256 : 230; note("%s %s %dx%d option %d content %d", f.ext, kname(k).c_str(), w, hh, o, c); boot(); if (!saves::make(k, w, hh, 0, 5, c)) return; options(o); bool ok; Bytes ref = saveL(f.type, &ok); drain(); if (!ok) return; corpus::E e{ "large", f.type, f.ext, ref, f.sig }; std::string n = std::string("big.") + f.ext;
        for (int how = 0; how < 3; how++) { vfs::reset(); vfs::fs().clear(); vfs::H* h = 0; bool r; if (how == 2) { vfs::fs()[n] = pattern(9, 9); h = vfs::make(n, 9, true); r = ilSaveF(f.type, h) != 0; } else r = how ? ilSaveImage(n.c_str()) : ilSave(f.type, n.c_str()); auto er = errors(); if (h) mine("save", h); else rules("save"); if (nfails()) return; Bytes g = vfs::fs()[n]; if (how == 2) g.erase(g.begin(), g.begin() + std::min<size_t>(9, g.size())); eval(); if (!r || g != ref) { fail("save #%d: %zu bytes, the lump has %zu", how, g.size(), ref.size()); return; } }
        if (f.type == IL_RAW) return; fresh(); R want = take(ilLoadL(f.type, ref.data(), ref.size())); if (!want.ok) { fail("lump: %s", ename(want.e[0]).c_str()); return; } vfs::fs()[n] = ref; for (int how = 0; how < 5; how++) { if (how >= 3 && !f.sig) continue; R r = load(how, e, n, HOW[how]); if (nfails() || !same(HOW[how], want, r)) return; } outcome(want.h); });
}
