// Every public call over a grid of (mostly bad) arguments, and every kind of current image. Used by C22, C23, C26.
#pragma once
#include "saves.h"
#include <IL/ilu.h>
#include <functional>
namespace calls {
using namespace ilx;
struct Call { std::string n; std::function<int()> f; bool bad; };    // f: 1 succeeded, 0 failed, 2 look at the errors; bad: must fail on every image
static std::vector<Call> CL; static ILuint nm, other; static ILubyte buf[1 << 16];
static void add(const std::string& n, std::function<int()> f, bool bad = false) { CL.push_back({ n, f, bad }); }
#define A(bad, call, ...) add(mc::sfmt(__VA_ARGS__), [=] { return (call) ? 1 : 0; }, bad)
#define V(bad, call, ...) add(mc::sfmt(__VA_ARGS__), [=] { call; return 2; }, bad)
static const ILuint U[] = { 0, 1, 2, 3, 4, 6, 0x40000000, 0x7fffffff, 0x80000000u, 0xfffffffeu, 0xffffffffu }; static const int NU = 11;
static const ILenum FB[] = { IL_RGB, IL_BGR, IL_RGBA, IL_BGRA, IL_LUMINANCE, IL_LUMINANCE_ALPHA, IL_ALPHA, IL_COLOUR_INDEX, 0, 0x1234, 0xffffffff }; static const ILenum TB[] = { IL_BYTE, IL_UNSIGNED_BYTE, IL_SHORT, IL_UNSIGNED_SHORT, IL_INT, IL_UNSIGNED_INT, IL_FLOAT, IL_DOUBLE, IL_HALF, 0, 0x1234, 0xffffffff };
static bool okf(ILenum f) { for (int i = 0; i < 8; i++) if (FB[i] == f) return true; return false; } static bool okt(ILenum t) { for (int i = 0; i < 9; i++) if (TB[i] == t) return true; return false; }
static const float FL[] = { 0, 1, -1, 0.5f, 2, 1e30f, -1e30f, 1.f / 0.f, -1.f / 0.f, 0.f / 0.f }; static const int NFL = 10;
static void build()
{
    if (CL.size()) return;
    for (ILuint u : U) { A(u > 8, ilActiveImage(u), "ilActiveImage(%u)", u); A(u > 8, ilActiveMipmap(u), "ilActiveMipmap(%u)", u); A(u > 8, ilActiveLayer(u), "ilActiveLayer(%u)", u); A(u > 8, ilActiveFace(u), "ilActiveFace(%u)", u); }
    for (ILenum f : FB) for (ILenum t : TB) { A(!okf(f) || !okt(t), ilConvertImage(f, t), "ilConvertImage(%x,%x)", f, t); for (int c : { 0, 1, 2, 3, 4, 5, 255 }) for (ILuint w : { 1u, 0xffffffffu }) A((f && !okf(f)) || !okt(t) || c == 0 || c > 4 || (f && c != channels(f)) || w > 9, ilTexImage(w, w, 1, c, f, t, 0), "ilTexImage(%u,%u,1,%d,%x,%x)", w, w, c, f, t);
        A(!okf(f) || !okt(t), ilCopyPixels(0, 0, 0, 1, 1, 1, f, t, buf), "ilCopyPixels(1x1,%x,%x)", f, t); V(!okf(f) || !okt(t), (memset(buf, 0x5a, 64), ilSetPixels(0, 0, 0, 1, 1, 1, f, t, buf)), "ilSetPixels(1x1,%x,%x)", f, t); }
    for (ILuint w : U) for (ILuint h : { 1u, 0x40000000u, 0xffffffffu }) for (ILuint d : { 1u, 3u, 0xffffffffu }) { bool big = w > 99 && (h > 99 || d > 99); A(big, ilTexImage(w, h, d, 4, IL_RGBA, IL_DOUBLE, 0), "ilTexImage(%u,%u,%u,4,RGBA,double)", w, h, d); A(w > 9 || h > 9, iluScale(w, h, d), "iluScale(%u,%u,%u)", w, h, d); A(big, iluEnlargeCanvas(w, h, d), "iluEnlargeCanvas(%u,%u,%u)", w, h, d); }
    A(true, ilTexImageDxtc(4, 4, 1, 0, buf), "ilTexImageDxtc(format 0)"); A(true, ilTexImageDxtc(4, 4, 1, IL_RGBA, buf), "ilTexImageDxtc(RGBA)"); A(true, ilTexImageDxtc(-4, 4, 1, IL_DXT1, buf), "ilTexImageDxtc(-4)"); A(true, ilTexImageDxtc(0, 4, 1, IL_DXT1, buf), "ilTexImageDxtc(0)"); A(false, ilTexImageDxtc(4, 4, 1, IL_DXT1, 0), "ilTexImageDxtc(null)"); A(true, ilTexImageDxtc(0x7fffffff, 0x7fffffff, 1, IL_DXT5, buf), "ilTexImageDxtc(huge)");
    for (ILenum f : { 0u, 1u, (ILenum)IL_RGBA, (ILenum)IL_DXT1, (ILenum)IL_DXT5, (ILenum)IL_DXT_NO_COMP, (ILenum)IL_3DC, 0xffffffffu }) { A(f < 2 || f == IL_RGBA || f == 0xffffffff, ilSurfaceToDxtcData(f), "ilSurfaceToDxtcData(%x)", f); A(f < 2 || f == IL_RGBA || f == 0xffffffff, ilImageToDxtcData(f), "ilImageToDxtcData(%x)", f); for (ILuint s : { 0u, 1u, 7u, 60000u }) A(f < 2 || f == IL_RGBA || f == 0xffffffff, ilGetDXTCData(s ? buf : 0, s, f), "ilGetDXTCData(%u,%x)", s, f); A(f < 2 || f == IL_RGBA || f == 0xffffffff, ilCompressFunc(f), "ilCompressFunc(%x)", f); ILuint z; A(f < 2 || f == IL_RGBA || f == 0xffffffff, (free(ilCompressDXT(0, 4, 4, 1, f, 0)), 0), "ilCompressDXT(null,%x)", f); (void)z; }
    A(false, ilDxtcDataToSurface(), "ilDxtcDataToSurface"); A(false, ilDxtcDataToImage(), "ilDxtcDataToImage"); A(false, ilInvertSurfaceDxtcDataAlpha(), "ilInvertSurfaceDxtcDataAlpha"); V(false, ilFlipSurfaceDxtcData(), "ilFlipSurfaceDxtcData");
    for (ILuint x : U) for (ILuint w : { 0u, 1u, 4u, 0x7fffffffu, 0xffffffffu }) { if (w < 9) { A(false, ilCopyPixels(x, 0, 0, w, 1, 1, IL_RGBA, IL_UNSIGNED_BYTE, buf) || w == 0, "ilCopyPixels(%u,%u)", x, w); V(false, (memset(buf, 0x33, 64), ilSetPixels(x, 0, 0, w, 1, 1, IL_RGBA, IL_UNSIGNED_BYTE, buf)), "ilSetPixels(%d,%u)", x, w); }
        A(w == 0 || x > 8 || w > 9, iluCrop(x, 0, 0, w, 1, 1), "iluCrop(%u,%u)", x, w); A(w == 0 || x > 8 || w > 9, iluCrop(0, x, 0, 1, w, 1), "iluCrop(y %u,%u)", x, w); }
    A(true, ilCopyPixels(0, 0, 0, 1, 1, 1, IL_RGB, IL_UNSIGNED_BYTE, 0), "ilCopyPixels(null)"); V(true, ilSetPixels(0, 0, 0, 1, 1, 1, IL_RGB, IL_UNSIGNED_BYTE, 0), "ilSetPixels(null)"); A(true, ilSetData(0), "ilSetData(null)");
    for (ILenum p : { (ILenum)IL_PAL_NONE, (ILenum)IL_PAL_RGB24, (ILenum)IL_PAL_RGB32, (ILenum)IL_PAL_RGBA32, (ILenum)IL_PAL_BGR24, (ILenum)IL_PAL_BGR32, (ILenum)IL_PAL_BGRA32, 0u, (ILenum)IL_RGB, 0xffffffffu }) { bool b = p == IL_PAL_NONE || p == 0 || p == IL_RGB || p == 0xffffffff; A(b, ilConvertPal(p), "ilConvertPal(%x)", p); for (ILuint s : { 0u, 1u, 3u, 768u, 1025u, 0xffffffffu }) V(b && p != IL_PAL_NONE, (memset(buf, 7, 1024), ilRegisterPal(s < 2000 ? buf : 0, s, p)), "ilRegisterPal(%u,%x)", s, p); }
    for (const char* n : { "", "/nonexistent/x.pal", "x.zzz", "/nonexistent/x.act", "/nonexistent/x" }) { A(true, ilLoadPal(n), "ilLoadPal(%s)", n); A(true, ilApplyPal(n), "ilApplyPal(%s)", n); A(true, ilSavePal(n), "ilSavePal(%s)", n); A(true, ilSaveImage(n), "ilSaveImage(%s)", n); A(true, ilSave(IL_BMP, n[0] == 'x' ? "/nonexistent/y" : n), "ilSave(bmp,%s)", n); A(true, ilSaveData(n[0] == 'x' ? "/nonexistent/y" : n), "ilSaveData(%s)", n); }
    A(true, ilLoadPal(0), "ilLoadPal(null)"); A(true, ilApplyPal(0), "ilApplyPal(null)"); A(true, ilSavePal(0), "ilSavePal(null)"); A(true, ilSaveImage(0), "ilSaveImage(null)"); A(true, ilSave(IL_BMP, 0), "ilSave(null)"); A(true, ilSaveData(0), "ilSaveData(null)"); A(true, ilSaveF(IL_BMP, 0), "ilSaveF(null)");
    for (auto& f : saves::FM) { ILenum t = f.type; for (ILuint s : { 1u, 3u, 20u, 65536u }) A(false, ilSaveL(t, buf, s), "ilSaveL(%s,%u)", f.ext, s); A(false, ilSaveL(t, 0, 0), "ilSaveL(%s,probe)", f.ext); }
    for (ILenum t : { 0u, 1u, (ILenum)IL_ICO, (ILenum)IL_GIF, (ILenum)IL_XPM, 0xffffffffu }) { A(true, ilSaveL(t, buf, 100), "ilSaveL(type %x)", t); A(true, ilSave(t, "/nonexistent/q.ico"), "ilSave(type %x)", t); A(true, ilSaveF(t, stdin), "ilSaveF(type %x)", t); }
    for (ILenum k : { (ILenum)IL_SUB_NEXT, (ILenum)IL_SUB_MIPMAP, (ILenum)IL_SUB_LAYER, 0u, 0x1234u, 0xffffffffu }) for (ILuint n : { 1u, 2u }) A((k != IL_SUB_NEXT && k != IL_SUB_MIPMAP && k != IL_SUB_LAYER), ilCreateSubImage(k, n), "ilCreateSubImage(%x,%u)", k, n);
    for (ILuint s : { 0u, 4711u, 0xffffffffu }) { A(s > 0, ilCopyImage(s), "ilCopyImage(%u)", s); A(s > 0, ilOverlayImage(s, 0, 0, 0), "ilOverlayImage(%u)", s); A(s > 0, ilBlit(s, 0, 0, 0, 0, 0, 0, 1, 1, 1), "ilBlit(%u)", s); A(false, iluCompareImage(s), "iluCompareImage(%u)", s); }
    for (ILuint x : U) { A(false, ilBlit(other, 0, 0, 0, x, 0, 0, 1, 1, 1), "ilBlit(src x %u)", x); A(false, ilBlit(other, x, 0, 0, 0, 0, 0, 1, 1, 1), "ilBlit(dest x %d)", (int)x); A(false, ilBlit(other, 0, 0, 0, 0, 0, 0, x, 1, 1), "ilBlit(width %u)", x); A(false, ilOverlayImage(other, x, 0, 0), "ilOverlayImage(%d)", (int)x); }
    for (ILenum o : { 0u, (ILenum)IL_ORIGIN_LOWER_LEFT, 0x1234u, 0xffffffffu }) { bool b = o != IL_ORIGIN_LOWER_LEFT; V(b, ilRegisterOrigin(o), "ilRegisterOrigin(%x)", o); A(b, ilOriginFunc(o), "ilOriginFunc(%x)", o); A(true, ilFormatFunc(o), "ilFormatFunc(%x)", o); A(true, ilTypeFunc(o), "ilTypeFunc(%x)", o); A(true, ilEnable(o), "ilEnable(%x)", o); A(true, ilDisable(o), "ilDisable(%x)", o); V(true, ilHint(o, IL_FASTEST), "ilHint(%x)", o); V(true, ilHint(IL_MEM_SPEED_HINT, o), "ilHint(mem,%x)", o); V(true, ilRegisterFormat(o), "ilRegisterFormat(%x)", o); V(true, ilRegisterType(o), "ilRegisterType(%x)", o); V(true, ilSetInteger(o, 1), "ilSetInteger(%x)", o); V(true, ilSetString(o, "x"), "ilSetString(%x)", o); V(true, iluImageParameter(o, o), "iluImageParameter(%x)", o); A(true, iluSetLanguage(o ? o : 99), "iluSetLanguage(%x)", o); }
    for (ILenum f : FB) if (!okf(f)) V(true, ilRegisterFormat(f), "ilRegisterFormat(%x)", f); for (ILenum t : TB) { if (!okt(t)) V(true, ilRegisterType(t), "ilRegisterType(%x)", t); add(mc::sfmt("ilGetAlpha(%x)", t), [=] { ILubyte* p = ilGetAlpha(t); if (p) memcpy(buf, p, std::min<size_t>(4096, (size_t)ilGetInteger(IL_IMAGE_WIDTH) * ilGetInteger(IL_IMAGE_HEIGHT) * ilGetInteger(IL_IMAGE_DEPTH) * bpc(t))); free(p); return p != 0; }, !okt(t)); }
    for (ILenum m : { (ILenum)IL_JPG_QUALITY, (ILenum)IL_MAX_QUANT_INDICES, (ILenum)IL_NEU_QUANT_SAMPLE, (ILenum)IL_QUANTIZATION_MODE, (ILenum)IL_DXTC_FORMAT, (ILenum)IL_ORIGIN_MODE, (ILenum)IL_TYPE_MODE, (ILenum)IL_FORMAT_MODE, (ILenum)IL_JPG_SAVE_FORMAT, (ILenum)IL_VTF_COMP }) for (int v : { -1, 100000, 0x7fffffff }) V(true, ilSetInteger(m, v), "ilSetInteger(%x,%d)", m, v);
    V(true, ilSetString(IL_TGA_ID_STRING, 0), "ilSetString(null)"); for (int k = 0; k < 3; k++) V(true, (ilPopAttrib()), "ilPopAttrib %d", k);
    A(true, ilRegisterLoad(0, 0), "ilRegisterLoad(null)"); A(true, ilRegisterSave(0, 0), "ilRegisterSave(null)"); V(false, ilRemoveLoad("none"), "ilRemoveLoad"); V(false, ilRemoveSave("none"), "ilRemoveSave"); V(false, ilGenImages(0, buf ? (ILuint*)buf : 0), "ilGenImages(0)"); V(true, ilGenImages(1, 0), "ilGenImages(null)"); V(false, ilDeleteImages(0, 0), "ilDeleteImages(0)");
    for (float x : FL) { A(false, iluContrast(x), "iluContrast(%g)", x); A(false, iluGammaCorrect(x), "iluGammaCorrect(%g)", x); A(false, iluRotate(x), "iluRotate(%g)", x); A(true, iluRotate3D(0, 0, 1, x), "iluRotate3D(%g)", x); A(false, iluSaturate1f(x), "iluSaturate1f(%g)", x); A(false, iluSaturate4f(x, 1, 1, x), "iluSaturate4f(%g)", x); A(false, iluScaleAlpha(x), "iluScaleAlpha(%g)", x); A(false, iluScaleColours(x, 1, 1), "iluScaleColours(%g)", x); A(false, iluSharpen(x, 1), "iluSharpen(%g)", x); A(false, iluWave(x), "iluWave(%g)", x); A(false, iluNoisify(x), "iluNoisify(%g)", x); A(false, iluReplaceColour(1, 2, 3, x), "iluReplaceColour(%g)", x); A(false, iluEnlargeImage(x, 1, 1), "iluEnlargeImage(%g)", x); A(false, ilSetAlpha(x), "ilSetAlpha(%g)", x); V(false, ilModAlpha(x), "ilModAlpha(%g)", x); }
    for (ILuint n : { 0u, 1u, 2u, 0x7fffffffu }) A(n == 0 && false, iluPixelize(n), "iluPixelize(%u)", n);
    A(false, iluAlienify(), "iluAlienify"); A(false, iluBlurAvg(1), "iluBlurAvg"); A(false, iluBlurGaussian(1), "iluBlurGaussian"); A(false, iluBuildMipmaps(), "iluBuildMipmaps"); A(false, iluEdgeDetectE(), "iluEdgeDetectE"); A(false, iluEdgeDetectP(), "iluEdgeDetectP"); A(false, iluEdgeDetectS(), "iluEdgeDetectS"); A(false, iluEmboss(), "iluEmboss"); A(false, iluEqualize(), "iluEqualize"); A(false, iluEqualize2(), "iluEqualize2"); A(false, iluFlipImage(), "iluFlipImage"); A(false, iluMirror(), "iluMirror"); A(false, iluInvertAlpha(), "iluInvertAlpha"); A(false, iluNegative(), "iluNegative"); A(false, iluSepia(), "iluSepia"); A(false, iluSwapColours(), "iluSwapColours"); A(true, iluConvolution(0, 1, 0), "iluConvolution(null)"); static ILint M[9] = { 1, 1, 1, 1, 1, 1, 1, 1, 1 }; A(true, iluConvolution(M, 0, 0), "iluConvolution(scale 0)");  static ILpointi P[3] = { { 0, 0 }, { 1, 0 }, { 0, 1 } }; V(true, iluRegioniv(P, 2), "iluRegioniv(2 points)"); V(true, iluGetImageInfo(0), "iluGetImageInfo(null)"); A(false, ilClampNTSC(), "ilClampNTSC"); A(false, ilClearImage(), "ilClearImage");
    for (const char* n : { (const char*)0, "", "/nonexistent/x.icc" }) { A(true, ilApplyProfile((ILstring)n, (ILstring)n), "ilApplyProfile(%s)", n ? n : "null"); A(true, ilLoadData(n, 1, 1, 1, 3), "ilLoadData(%s)", n ? n : "null"); A(true, ilLoadImage(n), "ilLoadImage(%s)", n ? n : "null"); A(true, ilLoad(IL_BMP, n), "ilLoad(%s)", n ? n : "null"); A(false, ilDetermineType(n) == IL_TYPE_UNKNOWN || 1, "ilDetermineType(%s)", n ? n : "null"); A(true, ilLoad(0x1234, n), "ilLoad(1234,%s)", n ? n : "null"); }
    for (ILuint x : U) for (ILuint s : { 0u, 1u, 4096u }) { if (x == 0 || x > 9) { A(x != 0, ilLoadDataL(buf, s, x, 1, 1, 3), "ilLoadDataL(%u,%u)", s, x); A(x != 0, ilLoadDataL(buf, s, 1, x, 2, 3), "ilLoadDataL(%u,1x%u)", s, x); } else A(x * 3 > s, ilLoadDataL(buf, s, x, 1, 1, 3), "ilLoadDataL(%u,%u)", s, x); } A(true, ilLoadDataL(0, 100, 1, 1, 1, 3), "ilLoadDataL(null)"); for (int c : { 0, 2, 5, 255 }) A(c != 2, ilLoadDataL(buf, 100, 1, 1, 1, c), "ilLoadDataL(%d channels)", c); A(true, ilLoadDataF(0, 1, 1, 1, 3), "ilLoadDataF(null)");
    for (ILenum t : { 0u, 0x1234u, 0xffffffffu }) { A(true, ilLoadL(t, buf, 1000), "ilLoadL(type %x)", t); A(true, ilLoadF(t, stdin), "ilLoadF(type %x)", t); A(false, ilIsValidL(t, buf, 100) || 1, "ilIsValidL(type %x)", t); } A(true, ilLoadL(IL_TGA, 0, 100), "ilLoadL(null)"); A(true, ilLoadL(IL_BMP, buf, 0), "ilLoadL(0)"); A(true, ilLoadF(IL_BMP, 0), "ilLoadF(null)"); A(false, ilDetermineTypeL(0, 0) || 1, "ilDetermineTypeL(null)");
    for (float x : FL) { V(false, ilClearColour(x, 0, 1, x), "ilClearColour(%g)", x); V(false, ilKeyColour(x, 0, 1, x), "ilKeyColour(%g)", x); V(false, (ilClearColour(x, 0.25f, 1, x), ilClearImage()), "ilClearColour(%g), clear", x); ILpointf P[3] = { { 0, 0 }, { x, 0.5f }, { 0.5f, x } }; V(false, (iluRegionfv((ILpointf*)P, 3), iluNegative(), iluRegionfv(0, 0)), "iluRegionfv(%g)", x); }
    for (ILuint n : U) { V(false, ilSetDuration(n), "ilSetDuration(%u)", n); if (n < 3) { V(false, ilRegisterNumImages(n), "ilRegisterNumImages(%u)", n); V(false, ilRegisterMipNum(n), "ilRegisterMipNum(%u)", n); V(false, ilRegisterNumFaces(n), "ilRegisterNumFaces(%u)", n); } }
    V(false, iluColoursUsed(), "iluColoursUsed"); V(false, ilResetRead(), "ilResetRead"); V(false, ilResetWrite(), "ilResetWrite"); V(false, ilGetPalette(), "ilGetPalette"); V(false, iluErrorString(4711), "iluErrorString"); for (ILenum e : { 0u, 0x1234u }) V(true, iluGetString(e), "iluGetString(%x)", e); V(false, ilTypeFromExt("x.zzz"), "ilTypeFromExt"); V(false, ilTypeFromExt(0), "ilTypeFromExt(null)");
    for (ILenum m : { 0u, 0x1234u, 0xffffffffu }) { V(true, ilGetInteger(m), "ilGetInteger(%x)", m); V(true, ilGetBoolean(m), "ilGetBoolean(%x)", m); V(true, ilGetString(m), "ilGetString(%x)", m); V(true, iluGetInteger(m), "iluGetInteger(%x)", m); V(true, ilIsEnabled(m), "ilIsEnabled(%x)", m); V(true, ilIsDisabled(m), "ilIsDisabled(%x)", m); }
}
struct Fix { std::string n; std::function<bool()> f; };
static std::vector<Fix> FX;
static void fixtures()
{
    if (FX.size()) return;
    for (size_t k = 0; k < saves::KN.size(); k++) FX.push_back({ saves::kname(saves::KN[k]), [k] { return saves::make(saves::KN[k], 3, 2); } });
    for (ILenum f : { (ILenum)IL_RGBA, (ILenum)IL_LUMINANCE, (ILenum)IL_ALPHA, (ILenum)IL_LUMINANCE_ALPHA, (ILenum)IL_BGR }) for (ILenum t : TYPES) FX.push_back({ mc::sfmt("%s %s 2x2x2", fname(f), tname(t)), [f, t] { return mk(2, 2, 2, f, t, typed_pattern(8 * channels(f), t, 3).data(), IL_ORIGIN_LOWER_LEFT); } });
    for (int c = 1; c <= 4; c++) FX.push_back({ mc::sfmt("no format, %d channels", c), [c] { return ilTexImage(3, 2, 1, c, 0, IL_UNSIGNED_BYTE, pattern(32, 1).data()) != 0; } });
    FX.push_back({ "indexed, no palette", [] { return mk(3, 2, 1, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, pattern(6, 1).data()); } });
    for (int k = 0; k < 6; k++) FX.push_back({ mc::sfmt("with a chain, kind %d", k), [k] { if (!saves::make(saves::KN[k & 1 ? 0 : 7], 4, 3)) return false; ILenum c = k < 2 ? IL_SUB_NEXT : k < 4 ? IL_SUB_MIPMAP : IL_SUB_LAYER; ilCreateSubImage(c, 2); if (c == IL_SUB_NEXT) ilActiveImage(1); if (c == IL_SUB_MIPMAP) ilActiveMipmap(1); if (c == IL_SUB_LAYER) ilActiveLayer(1); saves::make(saves::KN[5], 2, 2); ilBindImage(nm); return true; } });
    FX.push_back({ "second sub-image selected", [] { saves::make(saves::KN[1], 4, 3); ilCreateSubImage(IL_SUB_NEXT, 2); for (int i = 1; i < 3; i++) { ilBindImage(nm); ilActiveImage(i); ilClearImage(); } ilBindImage(nm); ilActiveImage(2); saves::make(saves::KN[7], 3, 3); return true; } });
    FX.push_back({ "second mipmap selected", [] { saves::make(saves::KN[1], 4, 4); ilCreateSubImage(IL_SUB_MIPMAP, 2); for (int i = 1; i < 3; i++) { ilBindImage(nm); ilActiveMipmap(i); ilClearImage(); } ilBindImage(nm); ilActiveMipmap(2); saves::make(saves::KN[12], 1, 1); return true; } });
    FX.push_back({ "DXTC data kept", [] { return ilTexImageDxtc(4, 4, 1, IL_DXT5, pattern(16, 9).data()) != 0; } });
    FX.push_back({ "DXTC surface", [] { return saves::make(saves::KN[1], 4, 4) && ilSurfaceToDxtcData(IL_DXT1); } });
    FX.push_back({ "pushed state", [] { ilPushAttrib(IL_ALL_ATTRIB_BITS); ilEnable(IL_ORIGIN_SET); ilPopAttrib(); return saves::make(saves::KN[0], 1, 1); } });
}
}
