// C23: every allocation the library makes is refused in turn, alone or together with all later ones.
#include "calls.h"
#include "corpus.h"
using namespace mc; using namespace ilx; using namespace calls;
static long cnt, at_ = -1; static long live; static bool all_, armed, hit;
static void* ILAPIENTRY al(ILsizei n) { if (armed) { long c = cnt++; if (at_ >= 0 && (c == at_ || (all_ && c > at_))) { hit = true; return 0; } } if (n > (600u << 20)) return 0; void* p = malloc(n); live += p != 0; return p; }
static void ILAPIENTRY fr(void const* p) { live -= p != 0; free((void*)p); }
static void arm(long at, bool all) { at_ = at; all_ = all; cnt = 0; hit = false; armed = true; } static void disarm() { armed = false; }
static Bytes good; static Img goodimg;
static void mkgood() { ilShutDown(); init(); ILuint n; ilGenImages(1, &n); ilBindImage(n); mk(3, 2, 1, IL_RGB, IL_UNSIGNED_BYTE, pattern(18, 77).data(), IL_ORIGIN_UPPER_LEFT); bool ok; good = saveL(IL_PNM, &ok); ilLoadL(IL_PNM, good.data(), good.size()); goodimg = snap(); ilShutDown(); }
static bool sane(const Tree& t, std::string& why) { const Img& i = t.img; if ((size_t)i.w * i.h * i.d * i.bpp * i.bpc != (size_t)i.size || i.data.size() != (size_t)i.size) { why = mc::sfmt("%dx%dx%d %d channels of %d bytes, but %zu bytes", (int)i.w, (int)i.h, (int)i.d, (int)i.bpp, (int)i.bpc, (size_t)i.size); return false; } for (auto* l : { &t.mips, &t.imgs, &t.lays, &t.faces }) for (auto& x : *l) if (!sane(x, why)) return false; return true; }
static bool given; static long kept;   // blocks outside of the library's life
// the library is usable: everything can be looked at, deleted, made and loaded
static bool usable()
{
    std::string why; for (ILuint n : { nm, other }) if (ilIsImage(n)) { Tree t = snaptree(n); eval(); if (!sane(t, why)) return fail("afterwards an image is inconsistent: %s", why.c_str()); }
    for (ILuint n : { nm, other }) if (ilIsImage(n)) ilDeleteImages(1, &n);
    drain(); ilInit(); drain(); ILuint n = 0; ilGenImages(1, &n); ilBindImage(n); eval(3); if (!n || !ilIsImage(n)) return fail("afterwards no image can be created"); if (!ilLoadL(IL_PNM, good.data(), good.size())) return fail("afterwards a good file does not load: %s", ename(firsterr())); Img g = snap(); if (g != goodimg) return fail("afterwards a good file loads wrongly: %s", goodimg.diff(g).c_str());
    ilDeleteImages(1, &n); ILenum e = firsterr(); if (e) return fail("afterwards deleting records %s", ename(e)); iluRegioniv(0, 0); drain(); ilShutDown(); if (live != kept && !given) return fail("%ld blocks are never released", live - kept); init(); return true;
}
static void enter() { disarm(); ilShutDown(); init(); iluInit(); ilGenImages(1, &nm); ilGenImages(1, &other); ilBindImage(other); mk(2, 2, 1, IL_RGBA, IL_UNSIGNED_BYTE, pattern(16, 8).data()); ilBindImage(nm); drain(); }
// setup() on a fresh library, then op() with each allocation refused; look() describes the result
static bool sweep(const std::string& name, const std::function<bool()>& setup, const std::function<int()>& op, const std::function<uint64_t()>& look, long maxn = 1000000)
{
    note("%s", name.c_str()); disarm(); ilShutDown(); kept = live; enter(); if (!setup()) return true; drain(); arm(-1, false); int r0 = op(); disarm(); long n = cnt; auto e0 = errors(); if (!n) return true; uint64_t h0 = look(); bool ok0 = r0 == 1 || (r0 == 2 && e0.empty());
    for (long k = 0; k < n && k < maxn; k++) for (int all = 0; all < 2; all++) {
        note("%s, %s %ld of %ld refused", name.c_str(), all ? "allocations from" : "allocation", k + 1, n); enter(); setup(); drain(); arm(k, all); int r = op(); disarm(); auto e = errors(); transition(); eval(2); bool ok = r == 1 || (r == 2 && e.empty());
        if (ok && ok0) { uint64_t h = look(); if (h != h0) return fail("success is claimed for a different result"); }
        if (!ok && e.empty() && ok0) return fail("fails without an error");
        outcome(fnv(name.data(), name.size()) ^ (ok * 77 + (e.empty() ? 0 : e[0])));
        if (!usable()) return false;
    }
    return true;
}
static uint64_t lookall() { uint64_t a = snaptree(nm).hash(), b = ilIsImage(other) ? snaptree(other).hash() : 7; return a * 31 + b; }
SUITE(ops)
{
    ilSetMemory(al, fr); init(); build(); fixtures(); mkgood(); ilShutDown(); static const int CH = 40; static int NC; NC = (CL.size() + CH - 1) / CH;
    batch("call", FX.size() * NC, [](uint64_t q) { set_cpu_limit(200); ilSetMemory(al, fr); const Fix& fx = FX[q / NC]; size_t lo = q % NC * CH, hi = std::min(CL.size(), lo + CH);
        for (size_t i = lo; i < hi; i++) { const Call& c = CL[i]; given = !c.n.compare(0, 10, "ilGetAlpha"); bool undef = !c.n.compare(0, 11, "ilTexImage(") || !c.n.compare(0, 16, "ilCreateSubImage") || !c.n.compare(0, 10, "iluNoisify");
            if (!sweep(c.n + " on " + fx.n, [&] { bool k = fx.f(); ilEnable(IL_FILE_OVERWRITE); return k; }, c.f, [&] { return undef ? 0 : lookall(); }, 60)) return; } });
}
SUITE(saves)
{
    using namespace saves; ilSetMemory(al, fr); mkgood(); static std::vector<std::array<int, 3>> J; if (J.empty()) for (int f = 0; f < NFM; f++) for (int k = 0; k < (int)KN.size(); k++) for (int o = 0; o < NOPT; o++) J.push_back({ f, k, o });
    batch("save", J.size(), [](uint64_t q) { set_cpu_limit(200); ilSetMemory(al, fr); auto j = J[q]; static Bytes b;
        sweep(mc::sfmt("saving %s as %s option %d", kname(KN[j[1]]).c_str(), FM[j[0]].ext, j[2]), [=] { bool k = saves::make(KN[j[1]], 5, 3); saves::options(j[2]); return k; }, [=] { bool ok; b.assign(1 << 20, 0); ILsizei n = ilSaveL(FM[j[0]].type, b.data(), b.size()); ok = n != 0; b.resize(n); return ok ? 1 : 0; }, [] { return fnv(b.data(), b.size()) ^ lookall(); }); });
}
static const std::vector<corpus::E>* CO;
SUITE(loads)
{
    // libmng itself loses a block when an allocation of its own is refused
    static std::vector<corpus::E> noMng; noMng.clear(); for (auto& e : corpus::all(thorough)) if (e.type != IL_MNG) noMng.push_back(e); ilSetMemory(al, fr); CO = &noMng; mkgood();
    batch("file", CO->size(), [](uint64_t q) { set_cpu_limit(400); ilSetMemory(al, fr); const auto& e = (*CO)[q];
        if (!sweep("loading " + e.name, [] { return mk(1, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, (const ILubyte*)"x"); }, [&] { return ilLoadL(e.type, e.b.data(), e.b.size()) ? 1 : 0; }, lookall)) return;
        std::string n = workdir() + "/f." + e.ext; writefile(n, e.b); sweep("loading the file " + e.name, [] { return mk(1, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, (const ILubyte*)"x"); }, [&] { return ilLoadImage(n.c_str()) ? 1 : 0; }, lookall); });
}
// names, attributes, strings, registrations, initialisation
static ILenum ILAPIENTRY hl(ILconst_string) { return 1; }
SUITE(state)
{
    ilSetMemory(al, fr); init(); mkgood();
    struct S { const char* n; std::function<int()> f; std::function<uint64_t()> look; }; static std::vector<S> V; if (V.empty()) {
        static ILuint ids[300]; auto isall = [] { uint64_t k = 0; for (int i = 0; i < 300; i++) k += ids[i] && ilIsImage(ids[i]); return k; };
        V.push_back({ "ilGenImages 300", [] { memset(ids, 0, sizeof ids); ilGenImages(300, ids); return 2; }, isall });
        V.push_back({ "ilGenImage x 300", [] { for (int i = 0; i < 300; i++) { ids[i] = ilGenImage(); if (!ids[i]) return 0; } return 1; }, isall });
        for (ILuint b : { 5u, 200u, 1030u, 3000u }) V.push_back({ "ilBindImage of a new name", [b] { ilBindImage(b); return 2; }, [b] { ilBindImage(b); return (uint64_t)ilGetInteger(IL_CUR_IMAGE); } });
        V.push_back({ "ilCloneCurImage", [] { ILuint n = ilCloneCurImage(); ids[0] = n; return n ? 1 : 0; }, [] { return snaptree(ids[0]).hash(); } });
        V.push_back({ "ilCopyImage", [] { return ilCopyImage(other) ? 1 : 0; }, lookall });
        V.push_back({ "ilDuplicateImage-like clone and delete", [] { ILuint n = ilCloneCurImage(); if (!n) return 0; ilDeleteImage(n); return 1; }, lookall });
        V.push_back({ "ilPushAttrib x 5 and strings", [] { for (int i = 0; i < 5; i++) { ilSetString(IL_TGA_ID_STRING, "identification"); ilSetString(IL_PNG_TITLE_STRING, "title of it"); ilPushAttrib(IL_ALL_ATTRIB_BITS); } for (int i = 0; i < 5; i++) ilPopAttrib(); return 2; }, [] { return (uint64_t)1; } });
        V.push_back({ "ilSetString", [] { ilSetString(IL_TGA_ID_STRING, "identification"); return 2; }, [] { const char* s = ilGetString(IL_TGA_ID_STRING); return s ? fnv(s, strlen(s)) : 0; } });
        V.push_back({ "ilRegisterLoad and ilRegisterSave", [] { for (const char* x : { "aaa", "bbb", "ccc" }) if (!ilRegisterLoad(x, hl) || !ilRegisterSave(x, (IL_SAVEPROC)hl)) return 0; return 1; }, [] { return (uint64_t)ilRemoveLoad("ccc") * 2 + ilRemoveSave("ccc"); } });
        V.push_back({ "ilRegisterPal", [] { ILubyte p[12] = { 1, 2, 3 }; ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE); ilRegisterPal(p, 12, IL_PAL_RGB24); return 2; }, lookall });
        V.push_back({ "ilShutDown and ilInit", [] { ilShutDown(); ilInit(); iluInit(); return 2; }, [] { return (uint64_t)ilGetInteger(IL_CUR_IMAGE); } });
        V.push_back({ "iluRegion and fill", [] { ILpointi p[4] = { { 0, 0 }, { 2, 0 }, { 2, 2 }, { 0, 2 } }; iluRegioniv(p, 4); iluNegative(); return 2; }, [] { return (uint64_t)0; } });
        V.push_back({ "iluLoadImage-like chain", [] { return ilCreateSubImage(IL_SUB_NEXT, 5) == 5 ? 1 : 0; }, [] { return (uint64_t)ilGetInteger(IL_NUM_IMAGES); } });
    }
    batch("state", V.size(), [](uint64_t q) { set_cpu_limit(300); ilSetMemory(al, fr); sweep(V[q].n, [] { return mk(4, 4, 1, IL_RGB, IL_UNSIGNED_BYTE, pattern(48, 1).data()); }, V[q].f, V[q].look, thorough ? 100000 : 400); });
}

// longer operations: quantisers, the resampling filters, palettes from and to files, whole saves
SUITE(deep)
{
    ilSetMemory(al, fr); init(); mkgood(); struct S { std::string n; std::function<int()> f; bool rnd; }; static std::vector<S> V; static Bytes big; if (V.empty()) {
        for (int m : { IL_WU_QUANT, IL_NEU_QUANT }) for (int c : { 256, 16 }) V.push_back({ mc::sfmt("quantiser %x to %d", m, c), [m, c] { ilSetInteger(IL_QUANTIZATION_MODE, m); ilSetInteger(IL_MAX_QUANT_INDICES, c); return ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE) ? 1 : 0; }, false });
        for (int f : { ILU_NEAREST, ILU_LINEAR, ILU_BILINEAR, ILU_SCALE_BOX, ILU_SCALE_TRIANGLE, ILU_SCALE_BELL, ILU_SCALE_BSPLINE, ILU_SCALE_LANCZOS3, ILU_SCALE_MITCHELL }) for (auto d : { std::array<int, 3>{ 25, 27, 1 }, std::array<int, 3>{ 5, 27, 1 }, std::array<int, 3>{ 27, 4, 1 }, std::array<int, 3>{ 7, 6, 1 }, std::array<int, 3>{ 9, 9, 3 } }) V.push_back({ mc::sfmt("iluScale filter %x to %dx%dx%d", f, d[0], d[1], d[2]), [f, d] { iluImageParameter(ILU_FILTER, f); return iluScale(d[0], d[1], d[2]) ? 1 : 0; }, false });
        V.push_back({ "iluBuildMipmaps", [] { return iluBuildMipmaps() ? 1 : 0; }, false }); V.push_back({ "iluRotate 30", [] { return iluRotate(30) ? 1 : 0; }, false }); V.push_back({ "iluRotate 90", [] { return iluRotate(90) ? 1 : 0; }, false });
        V.push_back({ "region and filters", [] { ILpointi p[5] = { { 1, 1 }, { 9, 2 }, { 12, 12 }, { 5, 8 }, { 1, 10 } }; iluRegioniv(p, 5); return iluNegative() && iluGammaCorrect(1.5f) && iluBlurAvg(1) ? 1 : 0; }, true });
        V.push_back({ "palette file", [] { std::string n = workdir() + "/p.pal"; ilEnable(IL_FILE_OVERWRITE); return ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE) && ilSavePal(n.c_str()) && ilLoadPal(n.c_str()) ? 1 : 0; }, false });
        V.push_back({ "apply a palette file", [] { std::string n = workdir() + "/q.pal"; FILE* f = fopen(n.c_str(), "w"); fputs("JASC-PAL\r\n0100\r\n3\r\n1 2 3\r\n200 100 50\r\n0 255 0\r\n", f); fclose(f); return ilApplyPal(n.c_str()) ? 1 : 0; }, false });
        for (const char* e : { "act", "col", "lbm", "hal" }) V.push_back({ mc::sfmt("load a .%s palette", e), [e] { std::string n = workdir() + "/r." + e; writefile(n, pattern(800, 3)); ilLoadPal(n.c_str()); return 2; }, false });
        for (auto& f : saves::FM) V.push_back({ mc::sfmt("save a file %s", f.ext), [f] { std::string n = workdir() + "/s." + f.ext; ilEnable(IL_FILE_OVERWRITE); return ilSaveImage(n.c_str()) ? 1 : 0; }, false });
        for (int t : { IL_DXT1, IL_DXT3, IL_DXT5, IL_3DC, IL_RXGB, IL_ATI1N }) { V.push_back({ mc::sfmt("DXTC data %x", t), [t] { return ilGetDXTCData(calls::buf, sizeof calls::buf, t) ? 1 : 0; }, false }); V.push_back({ mc::sfmt("surface %x and back", t), [t] { return ilSurfaceToDxtcData(t) && ilDxtcDataToSurface() ? 1 : 0; }, false }); }
        for (ILenum f : FORMATS) for (ILenum t : { IL_UNSIGNED_BYTE, IL_UNSIGNED_SHORT, IL_FLOAT, IL_HALF }) V.push_back({ mc::sfmt("load as %s %s", fname(f), tname(t)), [f, t] { ilEnable(IL_FORMAT_SET); ilEnable(IL_TYPE_SET); ilEnable(IL_ORIGIN_SET); ilSetInteger(IL_FORMAT_MODE, f); ilSetInteger(IL_TYPE_MODE, t); ilSetInteger(IL_ORIGIN_MODE, IL_ORIGIN_LOWER_LEFT); int k = ilLoadL(IL_PNM, good.data(), good.size()) ? 1 : 0; ilDisable(IL_FORMAT_SET); ilDisable(IL_TYPE_SET); ilDisable(IL_ORIGIN_SET); return k; }, false });
        V.push_back({ "strings and saves", [] { for (ILenum e : { IL_TGA_ID_STRING, IL_TGA_AUTHNAME_STRING, IL_TGA_AUTHCOMMENT_STRING, IL_PNG_AUTHNAME_STRING, IL_PNG_TITLE_STRING, IL_PNG_DESCRIPTION_STRING, IL_TIF_DESCRIPTION_STRING, IL_TIF_HOSTCOMPUTER_STRING, IL_TIF_DOCUMENTNAME_STRING, IL_TIF_AUTHNAME_STRING, IL_CHEAD_HEADER_STRING }) ilSetString(e, "a string"); bool k = ilSaveL(IL_TGA, calls::buf, sizeof calls::buf) && ilSaveL(IL_PNG, calls::buf, sizeof calls::buf) && ilSaveL(IL_TIF, calls::buf, sizeof calls::buf) ; (void)k; return 2; }, false });
        V.push_back({ "key colour and alpha", [] { ilEnable(IL_USE_KEY_COLOUR); ilKeyColour(1, 0, 0, 0); return ilConvertImage(IL_RGBA, IL_UNSIGNED_BYTE) && ilSetAlpha(0.5) ? 1 : 0; }, false });
    }
    static const ILenum KF[] = { IL_RGB, IL_RGBA, IL_LUMINANCE, IL_COLOUR_INDEX };
    batch("deep", V.size() * 4, [](uint64_t q) { set_cpu_limit(300); ilSetMemory(al, fr); given = false; auto& v = V[q / 4]; ILenum f = KF[q % 4]; big = pattern(16 * 16 * 4 * 2, 5 + q % 4); if (f == IL_COLOUR_INDEX && v.n.find("DXT") == 0) return;
        sweep(v.n + " of " + fname(f), [f] { if (f == IL_COLOUR_INDEX) { static Bytes ix, pl; if (ix.empty()) { ix = pattern(256, 1); for (auto& b : ix) b %= 200; pl = pattern(600, 2); } mkpal(16, 16, IL_PAL_RGB24, 200, ix.data(), pl.data()); } else mk(16, 16, 1, f, IL_UNSIGNED_BYTE, big.data()); return true; }, v.f, [&] { return v.rnd ? 0 : lookall() ^ fnv(calls::buf, 4096); }, thorough ? 100000 : 150); });
}
