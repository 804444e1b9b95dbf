// C09: every file the library writes, through every channel, whole and cut at every byte: name, handle (at several offsets), lump, extension, detection.
#include "saves.h"
#include <set>
using namespace mc; using namespace ilx; using namespace saves;
static Bytes junk(size_t n) { return pattern((int)n, 77); }
static std::string P(const char* ext) { return workdir() + "/x." + ext; }
struct R { bool ok; uint64_t h; Tree t; std::vector<ILenum> e; };
static ILuint nm;
static R got(ILboolean r) { R x; x.e = errors(); x.ok = r; x.h = 0; if (r) { x.t = snaptree(nm); x.h = x.t.hash(); drain(); } return x; }
static void fresh() { drain(); ilBindImage(nm); ilTexImage(1, 1, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, 0); drain(); }
static R byL(ILenum t, const Bytes& b) { fresh(); uint8_t* p = (uint8_t*)malloc(b.size() ? b.size() : 1); if (b.size()) memcpy(p, b.data(), b.size()); R r = got(ilLoadL(t, p, b.size())); free(p); return r; }
static R byName(ILenum t, const std::string& fn) { fresh(); return got(ilLoad(t, fn.c_str())); }
static R byExt(const std::string& fn) { fresh(); return got(ilLoadImage(fn.c_str())); }
static R byF(ILenum t, const std::string& fn, long off) { fresh(); FILE* f = fopen(fn.c_str(), "rb"); fseek(f, off, SEEK_SET); R r = got(ilLoadF(t, f)); fclose(f); return r; }
static bool same(const char* what, const R& a, const R& b)
{
    eval(); if (a.ok != b.ok) return fail("%s: %s, the lump %s (%s)", what, b.ok ? "loads" : "fails", a.ok ? "loads" : "fails", ename((a.ok ? b : a).e.empty() ? 0 : (a.ok ? b : a).e[0]).c_str());
    if (!b.ok && b.e.empty()) return fail("%s fails without an error", what);
    if (a.ok && a.h != b.h) return fail("%s gives another image: %s", what, b.t.diff(a.t).c_str()); return true;
}
static const long OFF[] = { 0, 1, 13, 1000 };
// loads of the bytes b through every channel, compared with the lump
static bool channels_agree(ILenum type, const char* ext, const Bytes& b, bool sig, bool offs)
{
    R l = byL(type, b); if (!l.ok && l.e.empty()) return fail("lump load fails without an error"); std::string fn = P(ext); writefile(fn, b); bool ok = true;
    if (ok) ok = same("by name", l, byName(type, fn)); if (ok) ok = same("by handle", l, byF(type, fn, 0)); if (ok) ok = same("by extension", l, byExt(fn)); if (ok) ok = same("by lump again", l, byL(type, b));
    if (ok && sig && l.ok) { ok = same("by detected lump", l, byL(IL_TYPE_UNKNOWN, b)) && same("by detected handle", l, byF(IL_TYPE_UNKNOWN, fn, 0)) && same("by detected name", l, byName(IL_TYPE_UNKNOWN, fn)); std::string f2 = P("zzz"); writefile(f2, b); if (ok) ok = same("by detected name without a known extension", l, byExt(f2)); remove(f2.c_str()); }
    if (ok && offs) for (long o : OFF) if (o) { Bytes c = junk(o); c.insert(c.end(), b.begin(), b.end()); writefile(fn, c); if (!(ok = same(sfmt("by handle at %ld", o).c_str(), l, byF(type, fn, o)))) break; if (sig && l.ok && !(ok = same(sfmt("by detected handle at %ld", o).c_str(), l, byF(IL_TYPE_UNKNOWN, fn, o)))) break; }
    remove(fn.c_str()); outcome(l.h ^ (l.ok ? 1 : 2)); transition(); return ok;
}
// one image through every channel; level 0: whole file only, 1: all truncations too
static void run(const F& f, const K& k, int w, int h, int org, int opt, int content, bool cuts)
{
    set_cpu_limit(120); init(); ilGenImages(1, &nm); ilBindImage(nm); if (!make(k, w, h, org, 5, content)) { fail("make"); return; } options(opt); Img a = snap(); drain();
    // the probe, ilDetermineSize, and a save that fits exactly
    ILuint n0 = (ILuint)ilSaveL(f.type, 0, 0); auto e0 = errors(); eval();
    std::string fn = P(f.ext); remove(fn.c_str()); ILboolean r = ilSave(f.type, fn.c_str()); auto e1 = errors(); if (!r != !n0) { fail("the probe %s, a save to a file %s", n0 ? "succeeds" : "fails", r ? "succeeds" : "fails"); return; }
    if (!r) { if (e0.empty() || e1.empty()) fail("refused without an error"); return; }
    Bytes ref = readfile(fn); if (ref.size() != n0) { fail("the probe says %u, the file has %zu bytes", n0, ref.size()); return; }
    bool ok; Bytes l = saveL(f.type, &ok); drain(); eval(2); if (!ok || l != ref) { fail("lump (%zu bytes) and file (%zu bytes) differ", l.size(), ref.size()); return; }
    remove(fn.c_str()); if (!ilSaveImage(fn.c_str()) || readfile(fn) != ref) { fail("the extension-driven save differs"); return; } drain();
    for (long o : OFF) { writefile(fn, junk(o)); FILE* fp = fopen(fn.c_str(), "r+b"); fseek(fp, o, SEEK_SET); ILuint m = (ILuint)ilSaveF(f.type, fp); fclose(fp); auto e = errors(); eval(3); Bytes g = readfile(fn); if (m != n0) { fail("ilSaveF at %ld returned %u, not %u (%s)", o, m, n0, e.empty() ? "-" : ename(e[0]).c_str()); return; } Bytes head(g.begin(), g.begin() + std::min<size_t>(o, g.size())); if (head != junk(o)) { fail("ilSaveF at %ld changed what precedes", o); return; } Bytes tail(g.begin() + std::min<size_t>(o, g.size()), g.end()); if (tail != ref) { fail("ilSaveF at %ld wrote other bytes (%zu/%zu)", o, tail.size(), ref.size()); return; } }
    // over a longer old file: replaced when saved by name
    writefile(fn, junk(ref.size() + 100)); ilEnable(IL_FILE_OVERWRITE); if (!ilSave(f.type, fn.c_str()) || readfile(fn) != ref) { fail("a save over an old file leaves other bytes"); return; } drain(); ilDisable(IL_FILE_OVERWRITE);
    if (snap() != a) { fail("saving changed the image: %s", snap().diff(a).c_str()); return; }
    if (f.type == IL_RAW) { channels_agree(f.type, f.ext, ref, f.sig, true); return; }
    if (!channels_agree(f.type, f.ext, ref, f.sig, true)) return;
    if (cuts) for (size_t c = 0; c < ref.size(); c++) { if (ref.size() > 600 && c > 400 && c < ref.size() - 120 && c % 17) continue; Bytes t(ref.begin(), ref.begin() + c); if (!channels_agree(f.type, f.ext, t, f.sig, c % 5 == 0)) { fail("cut after %zu of %zu bytes", c, ref.size()); return; } }
}
SUITE(every)
{
    static const int SZ[][2] = { { 1, 1 }, { 4, 2 }, { 8, 8 }, { 7, 3 }, { 33, 2 } };
    batch("whole", (uint64_t)NFM * KN.size() * 5 * NOPT * 4, [](uint64_t q) { int c = q & 1, org = q >> 1 & 1; q /= 4; int o = q % NOPT; q /= NOPT; const int* s = SZ[q % 5]; q /= 5; const F& f = FM[q % NFM]; q /= NFM; note("%s %s %dx%d origin %d option %d content %d", f.ext, kname(KN[q]).c_str(), s[0], s[1], org, o, c); run(f, KN[q], s[0], s[1], org, o, c, false); });
    batch("cut", (uint64_t)NFM * KN.size() * 3, [](uint64_t q) { int o = q % 3; q /= 3; const F& f = FM[q % NFM]; q /= NFM; if (!thorough && q > 9) return; note("%s %s 4x2 option %d, cut", f.ext, kname(KN[q]).c_str(), o); run(f, KN[q], 4, 2, 0, o, 0, true); });
}
SUITE(large)   // files beyond every buffer and 16-bit count
{
    static const int SZ[][2] = { { 301, 299 }, { 1100, 64 } }; static const int KI[] = { 0, 1, 4, 8 };
    batch("large", (uint64_t)NFM * 4 * NOPT * 2 * 2, [](uint64_t q) { set_cpu_limit(120); int c = q & 1; q /= 2; const int* s = SZ[q & 1]; q /= 2; int o = q % NOPT; q /= NOPT; const F& f = FM[q % NFM]; q /= NFM; if (f.pow2) { static const int P2[][2] = { { 256, 256 }, { 1024, 64 } }; s = P2[s == SZ[1]]; } const K& k = KN[KI[q]]; note("%s %s %dx%d option %d content %d", f.ext, kname(k).c_str(), s[0], s[1], o, c); run(f, k, s[0], s[1], 0, o, c, false); });
}
// the types that are only read, too: hand-encoded files, whole and cut
#include "corpus.h"
SUITE(read)
{
    static std::vector<corpus::E> V; V.clear(); for (auto& e : corpus::all(thorough)) if (e.hand) V.push_back(e); { int k = 0; files::utxs([&](files::File&& f) { if (f.b.size() > 3500 || k++ >= (thorough ? 12 : 3)) return; V.push_back(corpus::E{ f.name, f.type, f.ext, f.b, f.sig, true, (int)f.fr.size() }); }, false); }
    batch("whole", V.size(), [](uint64_t q) { const corpus::E& e = V[q]; note("%s", e.name.c_str()); set_cpu_limit(60); ilShutDown(); init(); ilGenImages(1, &nm); ilBindImage(nm); if (!byL(e.type, e.b).ok) { fail("the lump is refused"); return; } channels_agree(e.type, e.ext.c_str(), e.b, e.sig, true); });
    batch("cut", V.size() * 16, [](uint64_t q) { const corpus::E& e = V[q / 16]; size_t part = q % 16; note("%s, cut", e.name.c_str()); set_cpu_limit(60); ilShutDown(); init(); ilGenImages(1, &nm); ilBindImage(nm); for (size_t c = part; c < e.b.size(); c += 16) { if (c > 160 && c / 16 % (thorough ? 2 : 8)) continue; Bytes t(e.b.begin(), e.b.begin() + c); if (!channels_agree(e.type, e.ext.c_str(), t, e.sig, c % 5 == 0)) { fail("cut after %zu of %zu bytes", c, e.b.size()); return; } } });
}
