// C07: ilBlit / ilOverlayImage against a per-pixel compositing model.
#include "conv.h"
using namespace mc; using namespace ilx; using namespace conv;
struct Spec { int w, h, d; ILenum f, t, org; };
static ILuint dn, sn;
static Bytes tp(int n, ILenum t, uint32_t salt) { Bytes b = typed_pattern(n, t, salt); if (issg(t)) for (size_t i = bpc(t) - 1; i < b.size(); i += bpc(t)) b[i] &= 0x7f; if (isf(t)) for (int i = 0; i < n; i++) wrsample(b.data() + (size_t)i * bpc(t), t, ((i * 37 + salt * 11) % 257) / 256.0); return b; }
static bool build(Spec d, Spec s)
{
    init(); Bytes pal = pattern(48, 5);
    ILuint two[2]; ilGenImages(2, two); dn = two[0]; sn = two[1];
    for (int k = 0; k < 2; k++) { Spec x = k ? s : d; ilBindImage(two[k]); bool ok;
        if (x.f == IL_COLOUR_INDEX) { Bytes ix = pattern(x.w * x.h * x.d, k + 3); for (auto& b : ix) b %= 16; ok = mkpal(x.w, x.h, IL_PAL_RGB24, 16, ix.data(), pal.data(), x.org, x.d); }
        else { Bytes px = tp(x.w * x.h * x.d * channels(x.f), x.t, 7 + k); ok = mk(x.w, x.h, x.d, x.f, x.t, px.data(), x.org); }
        if (!ok) return fail("make %d: %x", k, ilGetError()); }
    ilBindImage(dn); drain(); return true;
}
// expected picture
static std::string check(const Img& D, const Img& S, const Img& R, bool blend, long dx, long dy, long dz, unsigned long sx, unsigned long sy, unsigned long sz, unsigned long w, unsigned long h, unsigned long dep)
{
    Img r = R; r.data = D.data; if (r != D) return "attributes changed: " + D.diff(R);
    int nc = channels(D.format), db = bpc(D.type); double DU = umax(D.type), SU = umax(S.type);
    bool bl = blend && (S.format == IL_RGBA || S.format == IL_BGRA || S.format == IL_LUMINANCE_ALPHA) && D.format != IL_ALPHA;
    for (int z = 0; z < D.d; z++) for (int y = 0; y < D.h; y++) for (int x = 0; x < D.w; x++) {
        long ox = x - dx, oy = y - dy, oz = z - dz; bool in = ox >= 0 && oy >= 0 && oz >= 0 && (unsigned long)ox < w && (unsigned long)oy < h && (unsigned long)oz < dep && ox + sx < (unsigned long)S.w && oy + sy < (unsigned long)S.h && oz + sz < (unsigned long)S.d && sx < 1u << 30 && sy < 1u << 30 && sz < 1u << 30;
        const uint8_t* rp = R.at(x, y, z); const uint8_t* dp = D.at(x, y, z);
        if (!in) { if (memcmp(rp, dp, nc * db)) return sfmt("pixel %d,%d,%d outside the overlap changed", x, y, z); continue; }
        const uint8_t* sp = S.at(ox + sx, oy + sy, oz + sz);
        if (D.format == IL_COLOUR_INDEX) { if (*rp != *sp) return sfmt("index at %d,%d is %d, expected %d", x, y, *rp, *sp); continue; }
        if (S.format == D.format && S.type == D.type && !bl) { if (memcmp(rp, sp, nc * db)) return sfmt("pixel %d,%d,%d is %s, source has %s", x, y, z, hex(rp, nc * db).c_str(), hex(sp, nc * db).c_str()); continue; }
        Px q = decode(sp, S.format, S.type, &S.pal, S.paltype);
        for (int c = 0; c < nc; c++) { Range g = expect(q, D.format, D.type, c); double v = rdsample(rp + c * db, (ILenum)D.type), o = rdsample(dp + c * db, (ILenum)D.type);
            if (g.skip) continue;
            if (bl) {
                if (comp(D.format, c) == 3) { if (memcmp(rp + c * db, dp + c * db, db)) return sfmt("alpha at %d,%d,%d changed", x, y, z); continue; }
                if (issg(D.type)) { double SM = (DU + 1) / 2; if (g.hi >= SM) continue; }
                Range ga = expect(q, IL_ALPHA, D.type, 0); if (ga.skip) continue; double a = q.c[3] / SU; if (issg(D.type)) { continue; }
                double m = std::max(std::fabs(g.lo - o), std::fabs(g.hi - o)), tol = m * (1.01 / std::min(isf(D.type) ? 1e9 : DU, isf(S.type) ? 1e9 : SU)) + (isf(D.type) ? 0 : 1.01) + DU * (isf(D.type) || DU > 1e9 ? 1e-5 : 0) + (D.type == IL_HALF || S.type == IL_HALF ? DU / 300 : 0);
                double lo = g.lo * a + o * (1 - a) - tol, hi = g.hi * a + o * (1 - a) + tol;
                if (!(v >= lo && v <= hi)) return sfmt("blended sample %d at %d,%d,%d is %.9g, expected %.9g..%.9g (dest %.9g alpha %.4g)", c, x, y, z, v, lo, hi, o, a);
            } else if (!fits(g, rp + c * db, D.type)) return sfmt("sample %d at %d,%d,%d is %.9g, expected %.9g..%.9g", c, x, y, z, raw(rp + c * db, D.type), g.lo, g.hi);
        }
    }
    return "";
}
static void go(Spec d, Spec s, bool blend, bool overlay, int dx, int dy, int dz, int sx, int sy, int sz, int w, int h, int dep)
{
    if (!build(d, s)) return; if (blend) ilEnable(IL_BLIT_BLEND); else ilDisable(IL_BLIT_BLEND);
    Img D = snap(); ilBindImage(sn); Img S = snap(); ilBindImage(dn); drain();
    bool ok = overlay ? ilOverlayImage(sn, dx, dy, dz) : ilBlit(sn, dx, dy, dz, sx, sy, sz, w, h, dep);
    auto e = errors(); if (ilGetInteger(IL_CUR_IMAGE) != (ILint)dn) fail("binding changed to %d", ilGetInteger(IL_CUR_IMAGE));
    Img R = snap(); ilBindImage(sn); Img S2 = snap(); eval(3); if (S2 != S) fail("source changed: %s", S.diff(S2).c_str());
    if (ilIsEnabled(IL_BLIT_BLEND) != blend) fail("IL_BLIT_BLEND changed");
    bool refuse = d.f == IL_COLOUR_INDEX && s.f != IL_COLOUR_INDEX;
    if (refuse) { if (ok || e.empty()) fail("into a palette image: ok=%d", ok); else if (R != D) fail("changed: %s", D.diff(R).c_str()); }
    else if (!ok || !e.empty()) fail("failed: %s", e.empty() ? "no error" : ename(e[0]).c_str());
    else { std::string x = overlay ? check(D, S, R, blend, dx, dy, dz, 0, 0, 0, s.w, s.h, s.d) : check(D, S, R, blend, dx, dy, dz, (unsigned)sx, (unsigned)sy, (unsigned)sz, (unsigned)w, (unsigned)h, (unsigned)dep); eval((uint64_t)D.w * D.h * D.d); if (!x.empty()) fail("%s", x.c_str()); }
    outcome(R.hash()); ilShutDown();
}
static const ILenum ORG[2] = { IL_ORIGIN_UPPER_LEFT, IL_ORIGIN_LOWER_LEFT };
SUITE(offsets)   // every offset and extent around a small pair of images, in x and y
{
    static const int ex[] = { 0, 1, 2, 3, 9, -1 }; static const int so[] = { 0, 1, 2, 3, 4, -1 };
    // x and y are explored jointly with coarser grids and separately with the full one
    batch("x", 4u * 13 * 6 * 6 * 2 * 2, [](uint64_t q) { int o = q % 4; q /= 4; int dx = (int)(q % 13) - 6; q /= 13; int sx = so[q % 6]; q /= 6; int w = ex[q % 6]; q /= 6; int bl = q % 2; q /= 2; int wide = q % 2;
        note("x: dx=%d sx=%d w=%d blend=%d org=%d wide=%d", dx, sx, w, bl, o, wide); go({ wide ? 6 : 4, 3, 1, IL_RGBA, IL_UNSIGNED_BYTE, ORG[o & 1] }, { wide ? 2 : 5, 4, 1, IL_RGBA, IL_UNSIGNED_BYTE, ORG[o >> 1] }, bl, false, dx, 0, 0, sx, 1, 0, w, 2, 1); });
    batch("y", 4u * 13 * 6 * 6 * 2 * 2, [](uint64_t q) { int o = q % 4; q /= 4; int dx = (int)(q % 13) - 6; q /= 13; int sx = so[q % 6]; q /= 6; int w = ex[q % 6]; q /= 6; int bl = q % 2; q /= 2; int wide = q % 2;
        note("y: dy=%d sy=%d h=%d blend=%d org=%d tall=%d", dx, sx, w, bl, o, wide); go({ 3, wide ? 6 : 4, 1, IL_RGB, IL_UNSIGNED_BYTE, ORG[o & 1] }, { 4, wide ? 2 : 5, 1, IL_RGBA, IL_UNSIGNED_BYTE, ORG[o >> 1] }, bl, false, 1, dx, 0, 0, sx, 0, 2, w, 1); });
    batch("z", 4u * 9 * 5 * 6 * 2, [](uint64_t q) { int o = q % 4; q /= 4; int dx = (int)(q % 9) - 4; q /= 9; int sx = so[q % 5]; q /= 5; int w = ex[q % 6]; q /= 6; int bl = q % 2;
        note("z: dz=%d sz=%d d=%d blend=%d org=%d", dx, sx, w, bl, o); go({ 2, 2, 3, IL_RGBA, IL_UNSIGNED_BYTE, ORG[o & 1] }, { 3, 2, 4, IL_RGBA, IL_UNSIGNED_BYTE, ORG[o >> 1] }, bl, false, 0, 0, dx, 0, 0, sx, 2, 2, w); });
    batch("xy", 5u * 5 * 4 * 4 * 4 * 4 * 4, [](uint64_t q) { static const int D[] = { -3, -1, 0, 2, 5 }, S[] = { 0, 1, 3, -2 }, E[] = { 1, 2, 8, -1 };
        int dx = D[q % 5]; q /= 5; int dy = D[q % 5]; q /= 5; int sx = S[q % 4]; q /= 4; int sy = S[q % 4]; q /= 4; int w = E[q % 4]; q /= 4; int h = E[q % 4]; q /= 4; int o = q;
        note("xy: dest %d,%d src %d,%d size %dx%d org=%d", dx, dy, sx, sy, w, h, o); go({ 4, 3, 1, IL_BGR, IL_UNSIGNED_BYTE, ORG[o & 1] }, { 3, 4, 1, IL_BGR, IL_UNSIGNED_BYTE, ORG[o >> 1] }, false, false, dx, dy, 0, sx, sy, 0, w, h, 1); });
    batch("extreme", 8 * 8 * 8 * 8, [](uint64_t q) { static const int X[] = { 0, 1, -1, 2, 0x7fffffff, (int)0x80000000, 0x40000000, -0x7fffffff };
        int dx = X[q % 8]; q /= 8; int sx = X[q % 8]; q /= 8; int w = X[q % 8]; q /= 8; int dy = X[q % 8]; note("extreme: dest %d,%d src %d size %d", dx, dy, sx, w);
        go({ 4, 3, 1, IL_RGB, IL_UNSIGNED_BYTE, ORG[0] }, { 3, 4, 1, IL_RGB, IL_UNSIGNED_BYTE, ORG[0] }, false, false, dx, dy, 0, sx, sx, 0, w, w, 1); });
}
SUITE(overlay)
{
    batch("overlay", 13u * 11 * 4 * 2 * 3, [](uint64_t q) { int dx = (int)(q % 13) - 6; q /= 13; int dy = (int)(q % 11) - 5; q /= 11; int o = q % 4; q /= 4; int bl = q % 2; q /= 2; int z = (int)q - 1;
        note("overlay %d,%d,%d blend=%d org=%d", dx, dy, z, bl, o); go({ 4, 3, 2, IL_RGB, IL_UNSIGNED_BYTE, ORG[o & 1] }, { 3, 4, 2, IL_BGRA, IL_UNSIGNED_BYTE, ORG[o >> 1] }, bl, true, dx, dy, z, 0, 0, 0, 0, 0, 0); });
}
SUITE(formats)   // every pair of formats and types
{
    struct FT { ILenum f, t; }; static std::vector<FT> v; if (v.empty()) for (ILenum f : FORMATS) for (ILenum t : TYPES) if (f != IL_COLOUR_INDEX || t == IL_UNSIGNED_BYTE) v.push_back({ f, t });
    batch("formats", v.size() * v.size() * 4 * 2, [](uint64_t q) { FT d = v[q % v.size()]; q /= v.size(); FT s = v[q % v.size()]; q /= v.size(); int o = q % 4; q /= 4; int bl = q;
        note("%s/%s onto %s/%s blend=%d org=%d", fname(s.f), tname(s.t), fname(d.f), tname(d.t), bl, o); go({ 3, 2, 1, d.f, d.t, ORG[o & 1] }, { 3, 3, 1, s.f, s.t, ORG[o >> 1] }, bl, o == 2, 1, -1, 0, 0, 0, 0, 3, 3, 1); });
}
SUITE(blendvalues)   // every pair of an 8-bit source value and alpha over several destination values
{
    batch("bv", 256, [](uint64_t a) { note("alpha %d", (int)a); init(); ILuint two[2]; ilGenImages(2, two); Bytes s, d; static const int dv[] = { 0, 1, 127, 128, 255 };
        for (int v = 0; v < 256; v++) for (int k = 0; k < 5; k++) { for (int c = 0; c < 3; c++) { s.push_back(v); d.push_back(dv[k]); } s.push_back(a); }
        ilBindImage(two[1]); mk(5, 256, 1, IL_RGBA, IL_UNSIGNED_BYTE, s.data()); ilBindImage(two[0]); mk(5, 256, 1, IL_RGB, IL_UNSIGNED_BYTE, d.data()); ilEnable(IL_BLIT_BLEND); if (!ilBlit(two[1], 0, 0, 0, 0, 0, 0, 5, 256, 1)) { fail("failed"); return; }
        Img r = snap(); eval(256 * 5); for (int i = 0; i < 1280; i++) { double w = s[i * 4] * (a / 255.0) + d[i * 3] * (1 - a / 255.0); for (int c = 0; c < 3; c++) if (std::fabs(r.data[i * 3 + c] - w) > 1.001) { fail("source %d over %d gives %d, expected %.2f", s[i * 4], d[i * 3], r.data[i * 3 + c], w); return; }
            if (a == 0 && r.data[i * 3] != d[i * 3]) { fail("transparent source changed the destination"); return; } if (a == 255 && r.data[i * 3] != s[i * 4]) { fail("opaque source not copied: %d became %d", s[i * 4], r.data[i * 3]); return; } } outcome(r.hash()); ilShutDown(); });
}
SUITE(refuse)
{
    batch("refuse", 24, [](uint64_t q) { int k = q % 3, ov = q / 3 % 2, st = q / 6; note("unknown source %d overlay=%d state=%d", k, ov, st); if (!build({ 3, 2, 1, IL_RGB, IL_UNSIGNED_BYTE, ORG[0] }, { 2, 2, 1, IL_RGBA, IL_UNSIGNED_BYTE, ORG[0] })) return;
        if (st & 1) ilEnable(IL_BLIT_BLEND); if (st & 2) ilDeleteImage(sn); Img D = snap(); ILuint name = k == 0 ? 99 : k == 1 ? 0xffffffffu : (st & 2) ? sn : 1000000; bool ok = ov ? ilOverlayImage(name, 0, 0, 0) : ilBlit(name, 0, 0, 0, 0, 0, 0, 2, 2, 1);
        auto e = errors(); eval(3); if (ok || e.empty()) fail("ok=%d errors=%zu", ok, e.size()); if (ilGetInteger(IL_CUR_IMAGE) != (ILint)dn) fail("binding changed"); Img R = snap(); if (R != D) fail("changed"); outcome(q); ilShutDown(); });
    batch("self", 2 * 7 * 7, [](uint64_t q) { int o = q % 2, dx = (int)(q / 2 % 7) - 3, dy = (int)(q / 14) - 3; note("self %d,%d org %d", dx, dy, o); if (!build({ 4, 4, 1, IL_RGB, IL_UNSIGNED_BYTE, ORG[o] }, { 2, 2, 1, IL_RGBA, IL_UNSIGNED_BYTE, ORG[0] })) return;
        Img D = snap(); if (!ilBlit(dn, dx, dy, 0, 0, 0, 0, 4, 4, 1)) { fail("failed %x", ilGetError()); return; } Img R = snap(); eval(); std::string x = check(D, D, R, false, dx, dy, 0, 0, 0, 0, 4, 4, 1); if (!x.empty()) fail("%s", x.c_str()); outcome(R.hash()); ilShutDown(); });
}
SUITE(large)   // sizes and offsets beyond 16 bits
{
    static const int L[][3] = { { 65537, 1, 1 }, { 1, 65537, 1 }, { 1, 1, 65537 }, { 301, 299, 1 } };
    batch("large", 4 * 4 * 2 * 4 * 2, [](uint64_t q) { set_cpu_limit(60); const int* z = L[q % 4]; q /= 4; int o = q % 4; q /= 4; int bl = q & 1; q /= 2; int m = q % 4; q /= 4; int a[3], b[3], n[3]; for (int i = 0; i < 3; i++) { bool l = z[i] > 1; a[i] = !l ? 0 : m == 0 ? 0 : m == 1 ? 260 : m == 2 ? -z[i] + 2 : z[i] - 7; b[i] = !l ? 0 : m == 1 ? 258 : m == 3 ? z[i] - 300 > 0 ? z[i] - 300 : 1 : 0; n[i] = !l ? 1 : m == 3 ? 5 : z[i]; }
        note("large %dx%dx%d orgs %d blend %d case %d %s", z[0], z[1], z[2], o, bl, m, q ? "overlay" : ""); go({ z[0], z[1], z[2], IL_RGB, IL_UNSIGNED_BYTE, ORG[o & 1] }, { z[0], z[1], z[2], IL_RGBA, IL_UNSIGNED_BYTE, ORG[o >> 1] }, bl, q, a[0], a[1], a[2], b[0], b[1], b[2], n[0], n[1], n[2]); });
}
