// C22: no history leaks: after the images are deleted again the heap is what it was, and ilShutDown releases everything. ASan watches for dangling uses.
#include "calls.h"
#include "corpus.h"
#include "vfs.h"
using namespace mc; using namespace ilx; using namespace calls;
// Runs f until the heap is the same before and after it, at most n times; false when it grows every time.
static bool steady(const std::function<void()>& f, int n, size_t& a, size_t& b)
{
    for (int i = 0; i < n; i++) { a = heap_bytes(); f(); b = heap_bytes(); eval(); if (b <= a) return true; }
    return false;
}
static void report(const char* what, size_t a, size_t b) { fail("%s: the heap grows by %zu bytes every time", what, b - a); }
// every call on every kind of image
static void onecall(const Fix& fx, const Call& c)
{
    ILuint r = nm; (void)r; ilGenImages(1, &nm); ilGenImages(1, &other); ilBindImage(other); mk(2, 2, 1, IL_RGBA, IL_UNSIGNED_BYTE, (const ILubyte*)"0123456789abcdef"); ilBindImage(nm); fx.f(); ilEnable(IL_FILE_OVERWRITE);
    c.f(); transition(); drain(); ilBindImage(0); ILuint d[2] = { nm, other }; ilDeleteImages(2, d); drain();
}
SUITE(calls)
{
    init(); build(); fixtures(); ilShutDown(); static const int CH = 40; static int NC; NC = (CL.size() + CH - 1) / CH;
    batch("call", FX.size() * NC, [](uint64_t q) {
        set_cpu_limit(100); const Fix& fx = FX[q / NC]; size_t lo = q % NC * CH, hi = std::min(CL.size(), lo + CH), a, b; ilShutDown(); init();
        for (size_t i = lo; i < hi; i++) { const Call& c = CL[i]; note("%s on %s", c.n.c_str(), fx.n.c_str()); if (!steady([&] { onecall(fx, c); }, 4, a, b)) { report("call and delete", a, b); return; } outcome(i); }
        note("shutdown after calls %zu.. on %s", lo, fx.n.c_str());
        if (!steady([&] { init(); for (size_t i = lo; i < hi; i++) onecall(fx, CL[i]); ilShutDown(); }, 4, a, b)) report("ilInit, calls, ilShutDown", a, b); init();
    });
}
// whole and damaged files of every type
static const std::vector<corpus::E>* CO;
static void loadone(ILenum t, const ILubyte* p, size_t n) { ILuint m; ilGenImages(1, &m); ilBindImage(m); ilLoadL(t, p, n); transition(); drain(); ilBindImage(0); ilDeleteImages(1, &m); drain(); }
SUITE(loads)
{
    CO = &corpus::all(thorough); init();
    batch("file", CO->size(), [](uint64_t q) {
        set_cpu_limit(400); const auto& e = (*CO)[q]; size_t a, b, n = e.b.size(), st = thorough ? 1 : 1 + n / 600; ilShutDown(); init();
        for (size_t k = 0; k <= n; k += st) { Bytes c(e.b.begin(), e.b.begin() + k); note("%s cut at %zu", e.name.c_str(), k); if (!steady([&] { loadone(e.type, c.data(), k); }, 4, a, b)) { report("load and delete", a, b); return; } }
        for (size_t k = 0; k < n; k += st) for (int v : { 0, 255, 0x80 }) { if (n > 3000 && k > 1000 && !thorough) break; Bytes c = e.b; c[k] = v == 0x80 ? c[k] ^ 0x80 : v; note("%s byte %zu = %d", e.name.c_str(), k, c[k]); if (!steady([&] { loadone(e.type, c.data(), n); }, 4, a, b)) { report("load and delete", a, b); return; } }
        outcome(q);
    });
}
// saves that are refused: lumps of every size that is too small, and every single call of the installed functions
SUITE(refused)
{
    batch("save", (uint64_t)saves::NFM * saves::KN.size() * saves::NOPT, [](uint64_t q) {
        set_cpu_limit(200); int o = q % saves::NOPT; q /= saves::NOPT; const auto& f = saves::FM[q % saves::NFM]; const auto& k = saves::KN[q / saves::NFM]; size_t a, b; vfs::reset(); ilShutDown(); init(); ILuint m; ilGenImages(1, &m); ilBindImage(m); if (!saves::make(k, 9, 3)) return; saves::options(o); drain(); bool ok; size_t n = saveL(f.type, &ok).size(); drain(); if (!ok) n = 400; Bytes buf(n + 1);
        size_t st = thorough ? 1 : 1 + n / 40; for (size_t z = 0; z <= n; z += st) { note("%s %s option %d to %zu of %zu bytes", f.ext, saves::kname(k).c_str(), o, z, n); transition(); if (!steady([&] { ilSaveL(f.type, buf.data(), z ? z : 1); drain(); }, 4, a, b)) { report("the save", a, b); return; } }
        std::string nm = std::string("o.") + f.ext; vfs::fs().clear(); vfs::fs()[nm]; vfs::install(); long total = 1; for (long j = -1; j < total; j += j < 12 || thorough ? 1 : 1 + total / 20) { note("%s %s option %d, call %ld refused", f.ext, saves::kname(k).c_str(), o, j); transition(); if (!steady([&] { vfs::reset(); vfs::failat = j; vfs::sticky = j & 1; ilSave(f.type, nm.c_str()); drain(); if (j < 0) total = vfs::calls; vfs::drop(); vfs::bad.clear(); vfs::failed.clear(); vfs::failed.shrink_to_fit(); vfs::fs()[nm] = Bytes(); }, 5, a, b)) { report("the save", a, b); return; } }
        vfs::reset(); outcome(q * 2 + ok); ilShutDown(); init(); });
}
// histories
struct Op { std::string n; std::function<void()> f; };
static std::vector<Op> OP; static Bytes goodpng, badpng, goodbmp, gooddds; static int lp;
static ILenum myload(ILconst_string f) { (void)f; lp++; ilTexImage(2, 2, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, 0); return IL_NO_ERROR; }
static void ops()
{
    if (OP.size()) return; ILuint n; ilGenImages(1, &n); ilBindImage(n); mk(4, 4, 1, IL_RGBA, IL_UNSIGNED_BYTE, pattern(64, 2).data()); bool ok; goodpng = saveL(IL_PNG, &ok); goodbmp = saveL(IL_BMP, &ok); gooddds = saveL(IL_DDS, &ok); badpng = goodpng; badpng.resize(badpng.size() - 20); ilDeleteImages(1, &n); drain();
    auto o = [](const char* n, std::function<void()> f) { OP.push_back({ n, f }); };
    o("gen+bind", [] { ILuint n; ilGenImages(1, &n); ilBindImage(n); }); o("bind 2", [] { ilBindImage(2); }); o("bind 5", [] { ilBindImage(5); }); o("bind 0", [] { ilBindImage(0); });
    o("delete current", [] { ilDeleteImage(ilGetInteger(IL_CUR_IMAGE)); }); o("delete 2,3", [] { ILuint d[2] = { 2, 3 }; ilDeleteImages(2, d); });
    o("tex", [] { mk(3, 3, 1, IL_RGB, IL_UNSIGNED_BYTE, pattern(27, 1).data()); }); o("pal", [] { mkpal(3, 2, IL_PAL_BGRA32, 5, pattern(6, 1).data(), pattern(20, 2).data()); });
    o("load png", [] { ilLoadL(IL_PNG, goodpng.data(), goodpng.size()); }); o("load bad png", [] { ilLoadL(IL_PNG, badpng.data(), badpng.size()); }); o("load dds", [] { ilEnable(IL_KEEP_DXTC_DATA), ilSetInteger(IL_KEEP_DXTC_DATA, 1); ilLoadL(IL_DDS, gooddds.data(), gooddds.size()); });
    o("next 2", [] { ilCreateSubImage(IL_SUB_NEXT, 2); }); o("mip 2", [] { ilCreateSubImage(IL_SUB_MIPMAP, 2); }); o("layer 1", [] { ilCreateSubImage(IL_SUB_LAYER, 1); }); o("mipmaps", [] { iluBuildMipmaps(); }); o("active image 1", [] { ilActiveImage(1); }); o("active mip 1", [] { ilActiveMipmap(1); }); o("active layer 1", [] { ilActiveLayer(1); }); o("register mips", [] { ilRegisterNumImages(3); });
    o("convert", [] { ilConvertImage(IL_BGRA, IL_UNSIGNED_SHORT); }); o("to index", [] { ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE); }); o("scale", [] { iluImageParameter(ILU_FILTER, ILU_BILINEAR); iluScale(5, 5, 1); }); o("copy 2", [] { ilCopyImage(2); }); o("clone", [] { ILuint c = ilCloneCurImage(); ilBindImage(c); }); o("overlay 2", [] { ilOverlayImage(2, 1, 1, 0); }); o("dxtc", [] { ilImageToDxtcData(IL_DXT5); }); o("tex dxtc", [] { ilTexImageDxtc(4, 4, 1, IL_DXT1, pattern(8, 3).data()); }); o("alpha", [] { ILubyte* p = ilGetAlpha(IL_UNSIGNED_BYTE); free(p); ilSetAlpha(0.5); });
    o("push", [] { ilPushAttrib(IL_ALL_ATTRIB_BITS); }); o("pop", [] { ilPopAttrib(); }); o("string", [] { ilSetString(IL_TGA_ID_STRING, "hello"); ilSetString(IL_PNG_TITLE_STRING, "world"); }); o("handler", [] { ilRegisterLoad("png", myload); ilRegisterSave("qqq", myload); }); o("region", [] { static ILpointi P[4] = { { 0, 0 }, { 2, 0 }, { 2, 2 }, { 0, 2 } }; iluRegioniv(P, 4); }); o("save", [] { bool ok; saveL(IL_TGA, &ok); saveL(IL_TIF, &ok); saveL(IL_PNG, &ok); }); o("reset", [] { ilResetRead(); ilResetWrite(); ilResetMemory(); }); o("key", [] { ilKeyColour(0, 0, 0, 0); ilEnable(IL_USE_KEY_COLOUR); }); o("default", [] { ilDefaultImage(); }); o("profile", [] { ilSetString(IL_TIF_AUTHNAME_STRING, "me"); ilGetString(IL_TIF_AUTHNAME_STRING); });
}
static void play(const std::vector<int>& s, bool del)
{
    ilBindImage(1); mk(2, 2, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, pattern(4, 1).data()); ILuint n[2]; ilGenImages(2, n); ilBindImage(n[0]); mk(4, 4, 1, IL_RGBA, IL_UNSIGNED_BYTE, pattern(64, 1).data());
    for (int i : s) { OP[i].f(); transition(); }
    if (del) { while (ilGetError() != IL_NO_ERROR) ; for (int i = 0; i < 40; i++) ilPopAttrib(); iluRegioniv(0, 0); ilRemoveLoad("png"); ilRemoveSave("qqq"); ilBindImage(0); ilTexImage(1, 1, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, 0); for (ILuint i = 1; i < 40; i++) if (ilIsImage(i)) ilDeleteImage(i); }
    drain();
}
static void hist(int depth)
{
    init(); ops(); ilShutDown(); init(); std::vector<std::string> nm; for (auto& o : OP) nm.push_back(o.n);
    seqs("ops", nm, depth, [](const std::vector<int>& s) {
        size_t a, b; ilShutDown(); init();
        if (!steady([&] { play(s, true); }, 4, a, b)) { report("the history and deleting the images", a, b); return; }
        if (!steady([&] { init(); play(s, false); iluRegioniv(0, 0); ilShutDown(); }, 4, a, b)) { report("ilInit, the history, ilShutDown", a, b); return; } init(); outcome(fnv(s.data(), s.size() * sizeof(int)));
    });
}
SUITE(histories) { hist(thorough ? 3 : 2); }
SUITE_THOROUGH(deep) { hist(4); }
