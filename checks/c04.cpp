// C04: error stack. Model = list of the pending errors, newest last, capped at 32 by dropping the oldest.
#include "ilx.h"
#include <deque>
using namespace mc; using namespace ilx;

struct Model { std::deque<ILenum> e; void push(ILenum x) { e.push_back(x); if (e.size() > 32) e.pop_front(); } };
// distinguishable failing calls, each documented/known to record exactly one error
struct F { const char* n; ILenum err; bool (*f)(); };
static ILuint u0; 
static const F FAILS[] = {
    {"originfunc(7)", IL_INVALID_PARAM, [] { return ilOriginFunc(7) == IL_FALSE; }},
    {"enable(7)", IL_INVALID_ENUM, [] { return ilEnable(7) == IL_FALSE; }},
    {"popattrib", IL_STACK_UNDERFLOW, [] { ilPopAttrib(); return true; }},
    {"texture(badtype)", IL_INVALID_PARAM, [] { return ilTexImage(1, 1, 1, 3, IL_RGB, 0x77, 0) == IL_FALSE; }},
    {"getstring(7)", IL_INVALID_ENUM, [] { return ilGetString(7) == 0; }},
    {"activemip(9)", IL_ILLEGAL_OPERATION, [] { return ilActiveMipmap(9) == IL_FALSE; }},
    {"activeimage(9)", IL_ILLEGAL_OPERATION, [] { return ilActiveImage(9) == IL_FALSE; }},
    {"load(missing)", IL_COULD_NOT_OPEN_FILE, [] { return ilLoad(IL_BMP, "/nonexistent/x.bmp") == IL_FALSE; }},
    {"loadl(empty)", 0, [] { return ilLoadL(IL_BMP, "BM", 2) == IL_FALSE; }},
    {"savel(badtype)", IL_INVALID_ENUM, [] { char b[8]; return ilSaveL(0x7777, b, 8) == 0; }},
    {"setinteger(q)", IL_INVALID_PARAM, [] { ilSetInteger(IL_JPG_QUALITY, 1000); return true; }},
    {"convert(bad)", 0, [] { return ilConvertImage(7, 7) == IL_FALSE; }},
    {"getinteger(bad)", IL_INVALID_ENUM, [] { ilGetInteger(7); return true; }},
    {"geninvalid", IL_INVALID_VALUE, [] { ilGenImages(0, 0); return true; }},
    {"setdata(0)", IL_INVALID_PARAM, [] { return ilSetData(0) == IL_FALSE; }},
    {"hint", IL_INVALID_ENUM, [] { ilHint(1, 1); return true; }},
    {"blit(nosrc)", IL_INVALID_PARAM, [] { return ilBlit(4711, 0, 0, 0, 0, 0, 0, 1, 1, 1) == IL_FALSE; }},
    {"copyimage(none)", IL_INVALID_PARAM, [] { return ilCopyImage(4711) == IL_FALSE; }},
    {"savepal(nopal)", 0, [] { return ilSavePal("/nonexistent/x.pal") == IL_FALSE; }},
};
static const int NF = sizeof FAILS / sizeof *FAILS;
// calls that succeed: they must leave the pending errors alone and record none
struct G { const char* n; bool (*f)(); };
static const G GOOD[] = {
    {"getinteger", [] { return ilGetInteger(IL_IMAGE_WIDTH) == 2; }},
    {"getallstates", [] { ilGetInteger(IL_VERSION_NUM); ilGetInteger(IL_CUR_IMAGE); ilGetInteger(IL_PNG_ALPHA_INDEX); ilIsEnabled(IL_ORIGIN_SET); ilIsDisabled(IL_CONV_PAL); ilGetBoolean(IL_CONV_PAL); return true; }},
    {"getstring", [] { return ilGetString(IL_VENDOR) != 0 && ilGetString(IL_LOAD_EXT) != 0; }},
    {"errorstring", [] { return iluErrorString(IL_INVALID_ENUM) != 0; }},
    {"getdata", [] { return ilGetData() != 0; }},
    {"isimage", [] { return ilIsImage(4711) == IL_FALSE; }},
    {"setstate", [] { ilEnable(IL_CONV_PAL); ilDisable(IL_CONV_PAL); ilSetInteger(IL_JPG_QUALITY, 90); ilSetString(IL_TGA_ID_STRING, "x"); return ilOriginFunc(IL_ORIGIN_LOWER_LEFT) != 0; }},
    {"pushpop", [] { ilPushAttrib(IL_ALL_ATTRIB_BITS); ilPopAttrib(); return true; }},
    {"pushpop0", [] { ilPushAttrib(0); ilPopAttrib(); return true; }},
    {"convert", [] { return ilConvertImage(IL_RGBA, IL_UNSIGNED_SHORT) && ilConvertImage(IL_RGB, IL_UNSIGNED_BYTE); }},
    {"copypixels", [] { ILubyte b[12]; return ilCopyPixels(0, 0, 0, 2, 1, 1, IL_RGB, IL_UNSIGNED_BYTE, b) != 0; }},
    {"setpixels", [] { ILubyte b[3] = {1,2,3}; ilSetPixels(0, 0, 0, 1, 1, 1, IL_RGB, IL_UNSIGNED_BYTE, b); return true; }},
    {"genbinddel", [] { ILuint c = ilGetInteger(IL_CUR_IMAGE), n = ilGenImage(); ilBindImage(n); ilBindImage(c); ilDeleteImage(n); return ilGetInteger(IL_CUR_IMAGE) == (ILint)c; }},
    {"save+load bmp", [] { ILubyte b[4096]; ILuint n = ilSaveL(IL_BMP, b, 4096); return n && ilLoadL(IL_BMP, b, n); }},
    {"save+load tga", [] { ILubyte b[4096]; ILuint n = ilSaveL(IL_TGA, b, 4096); return n && ilLoadL(IL_TGA, b, n); }},
    {"save+load png", [] { ILubyte b[4096]; ILuint n = ilSaveL(IL_PNG, b, 4096); return n && ilLoadL(IL_PNG, b, n); }},
    {"save+load sgi", [] { ILubyte b[4096]; ILuint n = ilSaveL(IL_SGI, b, 4096); return n && ilLoadL(IL_SGI, b, n); }},
    {"save+load pnm", [] { ILubyte b[4096]; ILuint n = ilSaveL(IL_PNM, b, 4096); return n && ilLoadL(IL_PNM, b, n); }},
    {"save+load jpg", [] { ILubyte b[8192]; ILuint n = ilSaveL(IL_JPG, b, 8192); return n && ilLoadL(IL_JPG, b, n); }},
    {"save+load psd", [] { ILubyte b[8192]; ILuint n = ilSaveL(IL_PSD, b, 8192); return n && ilLoadL(IL_PSD, b, n); }},
    {"save+load pcx", [] { ILubyte b[8192]; ILuint n = ilSaveL(IL_PCX, b, 8192); return n && ilLoadL(IL_PCX, b, n); }},
    {"save+load tif", [] { ILubyte b[8192]; ILuint n = ilSaveL(IL_TIF, b, 8192); return n && ilLoadL(IL_TIF, b, n); }},
    {"save+load dds", [] { ILubyte b[8192]; ILuint n = ilSaveL(IL_DDS, b, 8192); return n && ilLoadL(IL_DDS, b, n); }},
    {"detect", [] { ILubyte b[4096]; ILuint n = ilSaveL(IL_PNG, b, 4096); return ilDetermineTypeL(b, n) == IL_PNG && ilIsValidL(IL_PNG, b, n) != 0; }},
    {"typefromext", [] { return ilTypeFromExt("x.png") == IL_PNG; }},
    {"ilu", [] { return iluFlipImage() && iluMirror() && iluNegative() && iluScale(4, 3, 1) && iluScale(2, 2, 1); }},
    {"mipmaps", [] { return iluBuildMipmaps() && ilActiveMipmap(1) && (ilBindImage(ilGetInteger(IL_CUR_IMAGE)), true); }},
    {"cleardata", [] { return ilClearImage() != 0; }},
    {"palette", [] { return ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE) && ilConvertPal(IL_PAL_BGR24) && ilConvertImage(IL_RGB, IL_UNSIGNED_BYTE); }},
};
static const int NG = sizeof GOOD / sizeof *GOOD;

static void prep() { init(); ILubyte px[12] = { 10, 20, 30, 40, 50, 60, 70, 80, 90, 100, 110, 120 }; ilTexImage(2, 2, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, px); drain(); }
static bool drainCheck(Model& m, size_t n)
{
    for (size_t i = 0; i < n; i++) {
        ILenum e = ilGetError(); eval(); ILenum w = m.e.empty() ? IL_NO_ERROR : m.e.back();
        if (!m.e.empty()) m.e.pop_back();
        if (w == 0xffff ? e == IL_NO_ERROR : e != w) return fail("read %zu gives %s, expected %s", i, ename(e).c_str(), ename(w).c_str());
    }
    return true;
}
static void push(Model& m, int k) { m.push(FAILS[k].err ? FAILS[k].err : 0xffff); }
// each failing call records exactly one error of the right kind, each good call none
SUITE(single)
{
    batch("fails", NF, [](uint64_t k) { prep(); note("%s", FAILS[k].n); Model m; if (!FAILS[k].f()) { fail("did not fail"); return; } auto e = errors(); eval(); if (e.empty()) { fail("failed without an error"); return; } if (FAILS[k].err && e[0] != FAILS[k].err) { fail("recorded %s", ename(e[0]).c_str()); return; } if (e.size() != 1 && FAILS[k].err) { fail("recorded %zu errors", e.size()); return; } outcome(e[0]); ilShutDown(); });
    batch("good", NG * 3, [](uint64_t q) { int k = q / 3, pend = q % 3; prep(); note("%s pending=%d", GOOD[k].n, pend); Model m;
        static const int some[3] = { 0, 2, 5 };
        if (pend == 1) for (int i = 0; i < 3; i++) { FAILS[some[i]].f(); push(m, some[i]); }
        if (pend == 2) for (int i = 0; i < 32; i++) { FAILS[some[i % 3]].f(); push(m, some[i % 3]); }
        if (!GOOD[k].f()) { fail("call failed"); return; }
        drainCheck(m, 40); outcome(q); ilShutDown(); });
}
// number of pending errors from 0 past the capacity, two phases (fill, read some, fill again, read all)
SUITE(capacity)
{
    batch("cap", 71 * 36 * 8, [](uint64_t q) {
        int a = q % 71, r = q / 71 % 36, b = q / (71 * 36) * 5; note("fill=%d read=%d refill=%d", a, r, b);
        static int seq[] = { 0, 1, 2, 5, 9, 4, 10, 13 }; int s = 0;
        prep(); Model m;
        for (int i = 0; i < a; i++) { int k = seq[(s++ * 5 + i / 3) % 8]; FAILS[k].f(); push(m, k); }
        transition(a + b);
        if (!drainCheck(m, r)) return;
        for (int i = 0; i < b; i++) { int k = seq[(s++ * 3 + i / 2) % 8]; FAILS[k].f(); push(m, k); }
        outcome(m.e.size() * 64 + r); drainCheck(m, 40); ilShutDown();
    });
}
// all interleavings of failing calls, good calls and reads
SUITE(seq)
{
    static const int fs[] = { 0, 1, 2, 3, 5, 7 }; static const int gs[] = { 0, 1, 7, 8, 9, 13, 16, 25, 28 };
    std::vector<std::string> nm; nm.push_back("read"); for (int f : fs) nm.push_back(FAILS[f].n); for (int g : gs) nm.push_back(GOOD[g].n);
    seqs("seq", nm, thorough ? 5 : 4, [](const std::vector<int>& s) {
        prep(); Model m;
        for (int k : s) {
            if (k == 0) { if (!drainCheck(m, 1)) return; }
            else if (k <= 6) { if (!FAILS[fs[k - 1]].f()) { fail("%s succeeded", FAILS[fs[k - 1]].n); return; } push(m, fs[k - 1]); }
            else { if (!GOOD[gs[k - 7]].f()) { fail("%s failed", GOOD[gs[k - 7]].n); return; } }
        }
        uint64_t h = 7; for (ILenum e : m.e) h = h * 131 + e; outcome(h);
        drainCheck(m, m.e.size() + 2); ilShutDown();
    });
}
