// C02: copies are deep; images are isolated. Every image is snapshotted (with all its chains) before and after each operation.
#include "ilx.h"
#include <algorithm>
#include <lcms2.h>
#include <sys/stat.h>
using namespace mc; using namespace ilx;
static const int NI = 3;
struct Op { const char* n; bool (*f)(); };     // operation on the current image; result irrelevant, only isolation and determinism count
static Bytes pal2 = pattern(30, 77), px = pattern(65536, 3);
static const Op OPS[] = {
    {"setpixels", [] { ilSetPixels(0, 0, 0, 1, 1, 1, IL_RGBA, IL_UNSIGNED_BYTE, px.data()); return true; }},
    {"rawwrite", [] { ILubyte* p = ilGetData(); if (p) p[0] ^= 0xff; return true; }},
    {"palwrite", [] { if (ilGetInteger(IL_PALETTE_NUM_COLS) > 0) { ILubyte* p = ilGetPalette(); if (p) p[1] ^= 0xff; } return true; }},
    {"convert", [] { return ilConvertImage(IL_BGRA, IL_UNSIGNED_SHORT) != 0; }},
    {"tolum", [] { return ilConvertImage(IL_LUMINANCE, IL_UNSIGNED_BYTE) != 0; }},
    {"convpal", [] { return ilConvertPal(IL_PAL_BGRA32) != 0; }},
    {"regpal", [] { ilRegisterPal(pal2.data(), 30, IL_PAL_RGB24); return true; }},
    {"tex", [] { return ilTexImage(2, 1, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, px.data()) != 0; }},
    {"flip", [] { return iluFlipImage() != 0; }},
    {"scale", [] { return iluScale(5, 2, 1) != 0; }},
    {"negative", [] { return iluNegative() != 0; }},
    {"mipmaps", [] { return iluBuildMipmaps() != 0; }},
    {"sub", [] { return ilCreateSubImage(IL_SUB_NEXT, 1) != 0; }},
    {"clear", [] { return ilClearImage() != 0; }},
    {"duration", [] { return ilSetDuration(ilGetInteger(IL_IMAGE_DURATION) + 5) != 0; }},
    {"alpha", [] { ilSetAlpha(0.5); return true; }},
    {"setdata", [] { return ilSetData(px.data()) != 0; }},
    {"loadl", [] { static const ILubyte f[] = "P6 1 2 255\n\1\2\3\4\5\6"; return ilLoadL(IL_PNM, f, sizeof f - 1) != 0; }},
    {"default", [] { return ilDefaultImage() != 0; }},
};
static const int NO = sizeof OPS / sizeof *OPS;
static void make(int cfg, int k)
{
    int c = (cfg + k) % 6;
    if (c == 0) mk(4, 2, 1, IL_RGB, IL_UNSIGNED_BYTE, pattern(24, k).data());
    if (c == 1) { Bytes ix = pattern(8, k); for (auto& b : ix) b &= 3; mkpal(4, 2, IL_PAL_RGB24, 4, ix.data(), pattern(12, 9 + k).data(), IL_ORIGIN_LOWER_LEFT); }
    if (c == 2) { mk(4, 4, 1, IL_RGBA, IL_UNSIGNED_BYTE, pattern(64, k).data(), IL_ORIGIN_LOWER_LEFT); iluBuildMipmaps(); ilSetDuration(40 + k); }
    if (c == 3) { mk(3, 2, 2, IL_LUMINANCE, IL_UNSIGNED_SHORT, pattern(24, k).data()); ilCreateSubImage(IL_SUB_NEXT, 2); ilSetDuration(11); }
    if (c == 4) mk(2, 2, 1, IL_BGRA, IL_FLOAT, typed_pattern(16, IL_FLOAT, k).data());
    if (c == 5) { Bytes ix = pattern(4, k); for (auto& b : ix) b &= 7; mkpal(2, 2, IL_PAL_BGRA32, 8, ix.data(), pattern(32, 1 + k).data()); }
    ilSetInteger(IL_IMAGE_OFFX, 3 + k); ilSetInteger(IL_IMAGE_OFFY, 17 + c); drain();
}
static Img strip(Img i) { i.nimg = i.nmip = i.nlay = i.nface = 0; return i; }
struct World { ILuint name[NI + 8]; std::vector<ILuint> live; std::map<ILuint, Tree> t; ILuint cur; };
static void snapAll(World& w) { w.t.clear(); for (ILuint n : w.live) w.t[n] = snaptree(n); ilBindImage(w.cur); drain(); }
static bool unchanged(World& w, ILuint except, const char* what)
{
    auto old = w.t; if ((ILuint)ilGetInteger(IL_CUR_IMAGE) != w.cur) return fail("%s changed the binding from %u to %d", what, w.cur, ilGetInteger(IL_CUR_IMAGE));
    snapAll(w);
    for (auto& p : old) { if (p.first == except) continue; if (!w.t.count(p.first)) continue; eval(); if (p.second != w.t[p.first]) return fail("%s is visible in image %u: %s", what, p.first, p.second.diff(w.t[p.first]).c_str()); }
    return true;
}
static bool step1(World& w, int op, const char* nm)
{
    // ops: 0..2 bind image k; 3..5 copy from image k; 6 clone; 7 delete last; 8 copy from unknown; 9.. operations on the current image
    if (op < 3) { if (op >= (int)w.live.size()) return true; w.cur = w.live[op]; ilBindImage(w.cur); return unchanged(w, 0, nm); }
    if (op < 6) { int k = op - 3; if (k >= (int)w.live.size() || w.live[k] == w.cur) return true; ILuint s = w.live[k]; Tree before = w.t[s];
        if (!ilCopyImage(s)) return fail("%s failed: %s", nm, ename(firsterr()).c_str()); Img i = snap(); eval();
        if (strip(i) != strip(before.img)) return fail("%s: copy differs: %s", nm, strip(before.img).diff(strip(i)).c_str());
        if (i.nimg || i.nmip || i.nlay || i.nface > 1) return fail("%s: copy has chains", nm);
        return unchanged(w, w.cur, nm); }
    if (op == 6) { Tree before = w.t[w.cur]; ILuint n = ilCloneCurImage(); if (!n) return fail("clone failed"); for (ILuint x : w.live) if (x == n) return fail("clone returned a live name"); if (!unchanged(w, 0, nm)) return false;
        w.live.push_back(n); snapAll(w); Img i = w.t[n].img; eval(); if (strip(i) != strip(before.img)) return fail("clone differs: %s", strip(before.img).diff(strip(i)).c_str()); return true; }
    if (op == 7) { if (w.live.size() < 2) return true; ILuint n = w.live.back() == w.cur ? w.live[0] : w.live.back(); w.live.erase(std::find(w.live.begin(), w.live.end(), n)); ilDeleteImage(n); return unchanged(w, n, nm); }
    if (op == 8) { Tree b = w.t[w.cur]; if (ilCopyImage(4711)) return fail("copy of an unknown name succeeded"); ILenum e = firsterr(); eval(); if (e != IL_INVALID_PARAM) return fail("copy of an unknown name gives %s", ename(e).c_str()); return unchanged(w, 0, nm); }
    OPS[op - 9].f(); drain(); return unchanged(w, w.cur, nm);
}
static std::vector<std::string> names() { std::vector<std::string> v = { "bind0", "bind1", "bind2", "copy0", "copy1", "copy2", "clone", "delete", "copy?" }; for (auto& o : OPS) v.push_back(o.n); return v; }
static void start(World& w, int cfg) { init(); for (int k = 0; k < NI; k++) { ILuint n = ilGenImage(); ilBindImage(n); make(cfg, k); w.live.push_back(n); } w.cur = w.live[0]; ilBindImage(w.cur); drain(); snapAll(w); }
SUITE(seq)
{
    static auto nm = names(); static int cfg;
    for (cfg = 0; cfg < (thorough ? 6 : 3); cfg++) {
        int c = thorough ? cfg : cfg * 2;
        seqs(sfmt("seq%d", cfg).c_str(), nm, 3, [c](const std::vector<int>& s) { World w; start(w, c); for (int o : s) if (!step1(w, o, nm[o].c_str())) return; uint64_t h = 1; for (auto& p : w.t) h = h * 31 + p.second.hash(); outcome(h); ilShutDown(); });
    }
}
// a copy behaves like its original: every pair of operations gives the same result on both
SUITE(twin)
{
    batch("twin", 6 * NO * NO, [](uint64_t q) { int c = q % 6, a = q / 6 % NO, b = q / 6 / NO; note("config %d: %s, %s", c, OPS[a].n, OPS[b].n); World w; init(); ILuint n[2]; ilGenImages(2, n);
        ilBindImage(n[0]); make(c, 0); ilBindImage(n[1]); make(c + 1, 1); if (!ilCopyImage(n[0])) { fail("copy"); return; } drain(); Img o = strip(snaptree(n[0]).img), y = strip(snaptree(n[1]).img); eval(); if (o != y) { fail("copy differs: %s", o.diff(y).c_str()); return; }
        bool r[2][2]; Img res[2]; for (int k = 0; k < 2; k++) { ilBindImage(n[k]); r[k][0] = OPS[a].f(); r[k][1] = OPS[b].f(); drain(); ilBindImage(n[k]); res[k] = strip(snap()); } eval(2);
        if (r[0][0] != r[1][0] || r[0][1] != r[1][1]) fail("results differ"); else if (res[0] != res[1]) fail("images differ: %s", res[0].diff(res[1]).c_str()); outcome(res[0].hash()); ilShutDown(); });
    // deletion in either order
    batch("del", 6 * 6 * 2, [](uint64_t q) { int c = q % 6, d = q / 6 % 6, o = q / 36; note("copy config %d over %d, delete %d", c, d, o); init(); ILuint n[2]; ilGenImages(2, n); ilBindImage(n[0]); make(c, 0); Tree t0 = snaptree(n[0]); ilBindImage(n[1]); make(d, 0); if (!ilCopyImage(n[0])) { fail("copy"); return; } Tree t1 = snaptree(n[1]); ilDeleteImage(n[o]); drain(); Tree t = snaptree(n[1 - o]); eval(); if (t != (o ? t0 : t1)) fail("the other image changed"); outcome(t.hash()); ilShutDown(); });
}
// colour profiles belong to the image as well: three images, loads of files with and without a profile, copies and deletions in every order; then what an embedded profile does
static Bytes psdfile(int k)   // 0, 1: with a profile; 2: without
{
    Bytes o, prof; auto u8 = [&](int v) { o.push_back(v); }; auto u16 = [&](int v) { u8(v >> 8); u8(v & 255); }; auto u32 = [&](uint32_t v) { u16(v >> 16); u16(v & 0xffff); }; auto s = [&](const char* t) { while (*t) u8(*t++); };
    if (k < 2) { cmsCIExyY w; cmsWhitePointFromTemp(&w, 6504); cmsCIExyYTRIPLE a = { { .64, .33, 1 }, { .30, .60, 1 }, { .15, .06, 1 } }, b = { { .30, .60, 1 }, { .15, .06, 1 }, { .64, .33, 1 } }; cmsToneCurve* c = cmsBuildGamma(0, k ? 2.2 : 1.0); cmsToneCurve* t[3] = { c, c, c }; cmsHPROFILE h = cmsCreateRGBProfile(&w, k ? &b : &a, t); cmsFreeToneCurve(c); cmsUInt32Number n = 0; cmsSaveProfileToMem(h, 0, &n); prof.resize(n); cmsSaveProfileToMem(h, prof.data(), &n); cmsCloseProfile(h); }
    s("8BPS"); u16(1); for (int i = 0; i < 6; i++) u8(0); u16(3); u32(1); u32(2); u16(8); u16(3); u32(0); size_t len = prof.size() + (prof.size() & 1); if (k < 2) { u32(12 + len); s("8BIM"); u16(0x040F); u16(0); u32(prof.size()); o.insert(o.end(), prof.begin(), prof.end()); if (prof.size() & 1) u8(0); } else u32(0);
    u32(0); u16(0); for (int i = 0; i < 6; i++) u8(20 + 37 * i + 5 * k); return o;
}
SUITE(profiles)
{
    static std::vector<std::string> n; static Bytes file[3], icc; for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) n.push_back(sfmt("load %d into %d", k, i)); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (i != j) n.push_back(sfmt("copy %d to %d", j, i)); for (int i = 0; i < 3; i++) n.push_back(sfmt("delete %d", i)); for (int i = 0; i < 3; i++) n.push_back(sfmt("clone %d over %d", i, (i + 1) % 3)); for (int k = 0; k < 3; k++) file[k] = psdfile(k);
    { cmsHPROFILE h = cmsCreate_sRGBProfile(); cmsUInt32Number z = 0; cmsSaveProfileToMem(h, 0, &z); icc.resize(z); cmsSaveProfileToMem(h, icc.data(), &z); cmsCloseProfile(h); }
    seqs("profiles", n, thorough ? 4 : 3, [](const std::vector<int>& q) {
        std::string of = workdir() + "/srgb.icc"; struct stat st; if (stat(of.c_str(), &st)) writefile(of, icc); struct R { int r; Img m; }; static std::vector<R> ref; auto apply = [&] { R x; drain(); x.r = ilApplyProfile(0, (char*)of.c_str()); drain(); x.m = strip(snap()); return x; };
        init(); if (ref.empty()) { std::vector<R> g; for (int k = 0; k < 3; k++) { ILuint t = ilGenImage(); ilBindImage(t); if (!ilLoadL(IL_PSD, file[k].data(), file[k].size())) { fail("load"); return; } g.push_back(apply()); if (g[k].r != (k < 2)) { fail("the profile of file %d is%s there", k, k < 2 ? " not" : ""); return; } } ref = g; }
        ilShutDown(); init(); ILuint im[3]; int has[3]; ilGenImages(3, im); auto load = [&](int i, int k) { ilBindImage(im[i]); has[i] = k; return ilLoadL(IL_PSD, file[k].data(), file[k].size()); }; load(0, 0); load(1, 2); load(2, 1);
        for (int o : q) { transition(); if (o < 9) { if (!load(o / 3, o % 3)) { fail("load"); return; } } else if (o < 15) { int c = o - 9, i = c / 2, j = (c % 2 + (c % 2 >= i)); ilBindImage(im[i]); if (has[j] < 0) { ilCopyImage(im[j]); has[i] = -1; } else { if (!ilCopyImage(im[j])) { fail("copy"); return; } has[i] = has[j]; } }
            else if (o < 18) { ilDeleteImages(1, &im[o - 15]); ilGenImages(1, &im[o - 15]); has[o - 15] = -1; } else { int i = o - 18, t = (i + 1) % 3; ilBindImage(im[i]); ILuint c = ilCloneCurImage(); if (!c) { fail("clone"); return; } ilDeleteImages(1, &im[t]); im[t] = c; has[t] = has[i]; } }
        for (int i = 2; i >= 0; i--) { if (has[i] < 0) continue; ilBindImage(im[i]); R x = apply(); eval(2); const R& w = ref[has[i]]; if (x.r != w.r) { fail("applying the embedded profile of image %d %s", i, x.r ? "succeeds" : "fails"); return; } if (x.m != w.m) { fail("image %d with its profile applied: %s", i, w.m.diff(x.m).c_str()); return; } }
        outcome(has[0] * 16 + has[1] * 4 + has[2]); ilShutDown(); });
}
