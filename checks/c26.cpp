// C26: every call that reports failure leaves the images, the selection and the state bit for bit as they were.
#include "calls.h"
using namespace mc; using namespace ilx; using namespace calls;
struct All { Tree a, b; State s; std::vector<ILint> sel; Bytes dx; bool operator==(const All& o) const { return a == o.a && b == o.b && s == o.s && sel == o.sel && dx == o.dx; } };
static void snapall(All& r)
{
    r.sel.clear(); for (ILenum e : { IL_CUR_IMAGE, IL_ACTIVE_IMAGE, IL_ACTIVE_MIPMAP, IL_ACTIVE_LAYER, IL_IMAGE_WIDTH, IL_IMAGE_FORMAT, IL_NUM_IMAGES, IL_NUM_MIPMAPS, IL_NUM_LAYERS, IL_NUM_FACES, IL_DXTC_DATA_FORMAT }) r.sel.push_back(ilGetInteger(e));
    r.s = state(); r.dx.clear(); if (r.sel.back() != IL_DXT_NO_COMP) { ILuint n = ilGetDXTCData(0, 0, r.sel.back()); r.dx.resize(n); if (n) ilGetDXTCData(r.dx.data(), n, r.sel.back()); }
    ILint ai = r.sel[1], am = r.sel[2], al = r.sel[3], c = r.sel[0]; r.a = snaptree(nm); r.b = snaptree(other); ilBindImage(c); if (ai) ilActiveImage(ai); if (al) ilActiveLayer(al); if (am) ilActiveMipmap(am); errors();
}
static std::string diff(const All& x, const All& y) { if (x.a != y.a) return "the current image changed: " + x.a.diff(y.a); if (x.b != y.b) return "another image changed: " + x.b.diff(y.b); if (!(x.s == y.s)) return "the state changed: " + x.s.diff(y.s); if (x.sel != y.sel) { for (size_t i = 0; i < x.sel.size(); i++) if (x.sel[i] != y.sel[i]) return mc::sfmt("the selection or image changed: value %zu was %d, is %d", i, x.sel[i], y.sel[i]); } if (x.dx != y.dx) return "the compressed data changed"; return ""; }
static bool enter(const Fix& fx, const Call* first)
{
    ilShutDown(); init(); iluInit(); ilGenImages(1, &nm); ilGenImages(1, &other); ilBindImage(other); mk(2, 2, 1, IL_RGBA, IL_UNSIGNED_BYTE, pattern(16, 8).data()); ilBindImage(nm); drain();
    if (!fx.f()) { fail("fixture"); return false; }
    ilEnable(IL_FILE_OVERWRITE); if (first) first->f(); drain(); return true;
}
static void sweep(const Fix& fx, const Call* first, size_t lo, size_t hi)
{
    bool fresh = true; All before, after;
    for (size_t i = lo; i < hi; i++) {
        const Call& c = CL[i]; if (first) note("%s after %s on %s", c.n.c_str(), first->n.c_str(), fx.n.c_str()); else note("%s on %s", c.n.c_str(), fx.n.c_str());
        if (fresh) { if (!enter(fx, first)) return; snapall(before); fresh = false; }
        int r = c.f(); auto e = errors(); eval(3); transition(); bool failed = r == 0 || (r == 2 && !e.empty());
        if (c.bad && !failed && c.n.compare(0, 17, "ilConvertImage(0,")) { fail("is not refused"); return; }
        if (!failed) { fresh = true; continue; }
        bool soft = c.n.compare(0, 15, "iluCompareImage") == 0;   // "different" is an answer, not a failure
        if (e.empty() && !soft) { fail("fails without an error"); return; }
        if (!c.n.compare(0, 12, "ilLoadDataL(") && isdigit(c.n[12]) && !strchr(c.n.c_str(), 'c')) { fresh = true; continue; }   // data that run out: the picture is replaced
        snapall(after); std::string d = diff(before, after); if (!d.empty()) { fail("%s", d.c_str()); return; } outcome(mc::fnv(c.n.data(), c.n.size()) ^ (e.empty() ? 0 : e[0]));
    }
}
SUITE(refused)
{
    init(); iluInit(); build(); fixtures(); ilShutDown(); static const int CH = 40; static int NC; NC = (CL.size() + CH - 1) / CH;
    batch("call", FX.size() * NC, [](uint64_t q) { set_cpu_limit(100); size_t lo = q % NC * CH; sweep(FX[q / NC], 0, lo, std::min(CL.size(), lo + CH)); });
}
// calls that are wrong for the image at hand only: a canvas smaller than the image, a part that is not inside of it, a member it does not have
SUITE(unfit)
{
    init(); iluInit(); build(); fixtures(); ilShutDown();
    batch("fixture", FX.size() * 4, [](uint64_t q) {
        set_cpu_limit(100); const Fix& fx = FX[q % FX.size()]; int kind = q / FX.size(); bool fresh = true; All before, after; int W = 1, H = 1, D = 1; auto turn = [&](const std::string& n, std::function<int()> f) {
            note("%s on %s", n.c_str(), fx.n.c_str()); if (fresh) { if (!enter(fx, 0)) return false; snapall(before); fresh = false; } int r = f(); auto e = errors(); eval(4); transition(); if (r) return fail("is not refused"); if (e.empty()) return fail("fails without an error"); snapall(after); std::string d = diff(before, after); outcome(e[0]); return d.empty() ? true : fail("%s", d.c_str()); };
        if (!enter(fx, 0)) return; W = ilGetInteger(IL_IMAGE_WIDTH); H = ilGetInteger(IL_IMAGE_HEIGHT); D = ilGetInteger(IL_IMAGE_DEPTH); int NI = ilGetInteger(IL_NUM_IMAGES), NM = ilGetInteger(IL_NUM_MIPMAPS), NL = ilGetInteger(IL_NUM_LAYERS), NF = ilGetInteger(IL_NUM_FACES); drain();
        if (kind == 0) { for (int w = 0; w <= W + 2; w++) for (int h = 0; h <= H + 2; h++) for (int d = 0; d <= D + 2; d++) if (w < W || h < H || d < D) for (ILenum pl : { ILU_CENTER, ILU_LOWER_LEFT, ILU_UPPER_RIGHT }) { if (!turn(sfmt("iluEnlargeCanvas(%d,%d,%d) placed %x", w, h, d, pl), [=] { iluImageParameter(ILU_PLACEMENT, pl); int r = iluEnlargeCanvas(w, h, d); iluImageParameter(ILU_PLACEMENT, ILU_CENTER); return r; })) return; } }
        if (kind == 1) { for (int x = 0; x <= W + 1; x++) for (int w = 0; w <= W + 2; w++) for (int y = 0; y <= H; y += H) for (int h = 0; h <= H + 1; h++) for (int z = 0; z <= D; z++) for (int d = 0; d <= D + 1; d++) if (w == 0 || h == 0 || x + w > W || y + h > H || (z > 1 && (d == 0 || z + d > D))) { if (!turn(sfmt("iluCrop(%d,%d,%d,%d,%d,%d)", x, y, z, w, h, d), [=] { return iluCrop(x, y, z, w, h, d); })) return; } }
        if (kind == 2) for (int k = 1; k < 5; k++) { struct { const char* n; ILboolean (ILAPIENTRY *f)(ILuint); int has; } T[] = { { "ilActiveImage", ilActiveImage, NI }, { "ilActiveMipmap", ilActiveMipmap, NM }, { "ilActiveLayer", ilActiveLayer, NL }, { "ilActiveFace", ilActiveFace, NF } }; for (auto& t : T) if (ilGetInteger(IL_ACTIVE_IMAGE) == 0 && ilGetInteger(IL_ACTIVE_MIPMAP) == 0) { auto f = t.f; int m = t.has + k; if (!turn(sfmt("%s(%d of %d)", t.n, m, t.has), [=] { return f(m); })) return; } }
        if (kind == 3) for (ILenum t : { 0u, (ILenum)IL_SUB_NEXT - 1, 1u, 0xffffffffu, (ILenum)IL_RGB }) for (ILuint c : { 1u, 2u, 3u }) { if (!turn(sfmt("ilCreateSubImage(%x,%u)", t, c), [=] { return ilCreateSubImage(t, c) != 0; })) return; }
    });
}
// every call again, after every other call (the successful ones leave every kind of result behind)
SUITE_THOROUGH(after)
{
    init(); iluInit(); build(); fixtures(); ilShutDown();
    batch("call", FX.size() * CL.size(), [](uint64_t q) { set_cpu_limit(200); q = q * 7919 % (FX.size() * CL.size()); sweep(FX[q / CL.size()], &CL[q % CL.size()], 0, CL.size()); });
}
