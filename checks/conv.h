// Oracle for format/type conversions: expected interval of one destination channel of one pixel.
#pragma once
#include "ilx.h"
#include <cmath>
#include <algorithm>
namespace conv {
using namespace ilx;
inline bool isf(ILenum t) { return t == IL_FLOAT || t == IL_DOUBLE || t == IL_HALF; }
inline bool issg(ILenum t) { return t == IL_BYTE || t == IL_SHORT || t == IL_INT; }
inline double umax(ILenum t) { return isf(t) ? 1.0 : bpc(t) == 1 ? 255.0 : bpc(t) == 2 ? 65535.0 : 4294967295.0; }
inline double raw(const uint8_t* p, ILenum t) // integers as raw bits
{ switch (t) { case IL_BYTE: case IL_UNSIGNED_BYTE: return *p; case IL_SHORT: case IL_UNSIGNED_SHORT: { uint16_t v; memcpy(&v, p, 2); return v; }
    case IL_INT: case IL_UNSIGNED_INT: { uint32_t v; memcpy(&v, p, 4); return v; } default: return rdsample(p, t); } }
inline bool graylike(ILenum f) { return f == IL_LUMINANCE || f == IL_LUMINANCE_ALPHA; }
inline bool hasalpha(ILenum f) { return f == IL_RGBA || f == IL_BGRA || f == IL_LUMINANCE_ALPHA || f == IL_ALPHA; }
// canonical R,G,B,A of a pixel in its own type (idx: channel order)
struct Px { double c[4]; ILenum type; bool grey, opq; };   // opq: no alpha of its own
inline Px decode(const uint8_t* p, ILenum f, ILenum t, const Bytes* pal = 0, ILenum paltype = 0)
{
    Px q; q.type = t; q.grey = false; q.opq = !hasalpha(f); double one = umax(t); int b = bpc(t);
    auto R = [&](int i) { return raw(p + i * b, t); };
    switch (f) {
    case IL_RGB: q.c[0] = R(0); q.c[1] = R(1); q.c[2] = R(2); q.c[3] = one; break;
    case IL_BGR: q.c[0] = R(2); q.c[1] = R(1); q.c[2] = R(0); q.c[3] = one; break;
    case IL_RGBA: q.c[0] = R(0); q.c[1] = R(1); q.c[2] = R(2); q.c[3] = R(3); break;
    case IL_BGRA: q.c[0] = R(2); q.c[1] = R(1); q.c[2] = R(0); q.c[3] = R(3); break;
    case IL_LUMINANCE: q.c[0] = q.c[1] = q.c[2] = R(0); q.c[3] = one; q.grey = true; break;
    case IL_LUMINANCE_ALPHA: q.c[0] = q.c[1] = q.c[2] = R(0); q.c[3] = R(1); q.grey = true; break;
    case IL_ALPHA: q.c[0] = q.c[1] = q.c[2] = 0; q.c[3] = R(0); q.grey = true; break;
    case IL_COLOUR_INDEX: {
        int n = palbpp(paltype), i = *p; q.type = IL_UNSIGNED_BYTE; q.c[0] = q.c[1] = q.c[2] = 0; q.c[3] = 255;
        if (pal && n && (size_t)(i + 1) * n <= pal->size()) { const uint8_t* e = pal->data() + i * n; bool bgr = paltype == IL_PAL_BGR24 || paltype == IL_PAL_BGR32 || paltype == IL_PAL_BGRA32;
            q.c[0] = e[bgr ? 2 : 0]; q.c[1] = e[1]; q.c[2] = e[bgr ? 0 : 2]; if (paltype == IL_PAL_RGBA32 || paltype == IL_PAL_BGRA32) q.c[3] = e[3]; }
        break; }
    }
    return q;
}
inline double lumw(const Px& q) { return q.grey ? q.c[0] : q.c[0] * 0.212671 + q.c[1] * 0.715160 + q.c[2] * 0.072169; }
// canonical component wanted by channel ch of format f: 0..2 = r,g,b, 3 = alpha, 4 = luminance
inline int comp(ILenum f, int ch)
{ switch (f) { case IL_RGB: case IL_RGBA: return ch; case IL_BGR: case IL_BGRA: return ch == 3 ? 3 : 2 - ch; case IL_LUMINANCE: return 4; case IL_LUMINANCE_ALPHA: return ch ? 3 : 4; default: return 3; } }
struct Range { double lo, hi; bool skip; };
inline Range expect(const Px& q, ILenum df, ILenum dt, int ch)
{
    int k = comp(df, ch); double v = k == 4 ? lumw(q) : q.c[k]; bool lum = k == 4 && !q.grey;
    double S = umax(q.type), D = umax(dt); Range r; r.skip = false;
    bool sf = isf(q.type), df_ = isf(dt);
    if (sf) {
        if (df_) { double e = std::fabs(v) * (q.type == IL_HALF || dt == IL_HALF ? 1.0 / 512 : lum ? 1e-5 : q.type == dt ? 0 : 1e-6); if (lum) e += 1e-6; if (dt == IL_HALF) e += 1e-7; r.lo = v - e; r.hi = v + e; }
        else { double c = v < 0 ? 0 : v > 1 ? 1 : v; double u = c * D; double e = (dt == IL_INT || dt == IL_UNSIGNED_INT ? 300.0 : 0.51) + (lum ? 1 + D * 1e-6 : 0); if (q.type == IL_HALF && lum) e += D / 1024; r.lo = u - e; r.hi = u + e;
            if (lum) { Px z = q; for (int i = 0; i < 3; i++) z.c[i] = z.c[i] < 0 ? 0 : z.c[i] > 1 ? 1 : z.c[i]; double u2 = lumw(z) * D; r.lo = std::min(r.lo, u2 - e); r.hi = std::max(r.hi, u2 + e); } }  // clamping before or after weighting
    } else if (df_) {
        if (issg(q.type)) { // only non-negative values have a defined meaning here
            double top = (S + 1) / 2; if (k == 3 && q.opq) { r.skip = false; } else for (int i = 0; i < 4; i++) if (q.c[i] >= top) { r.skip = true; }
        }
        double u = v / S, e = std::fabs(u) * (dt == IL_HALF ? 1.0 / 1000 : dt == IL_FLOAT ? 2e-7 : 1e-12) + (dt == IL_HALF ? 6.2e-8 : 0) + (lum ? 1.01 / S + std::fabs(u) * 1e-6 : 0); r.lo = u - e; r.hi = u + e;
    } else {
        double u, e;
        if (D > S) { u = v * (D / S); e = lum ? D / S + 1 : 0; }
        else if (D < S) { double sh = (S + 1) / (D + 1); u = std::floor(v / sh); e = lum ? 1 : 0; }
        else { u = v; e = lum ? 1 : 0; if (lum) u = std::floor(v); }
        if (lum) e += u * 1e-6;
        r.lo = u - e; r.hi = u + e;
    }
    return r;
}
// does the destination sample fit?
inline bool fits(const Range& r, const uint8_t* p, ILenum dt) { if (r.skip) return true; double v = raw(p, dt); return v >= r.lo && v <= r.hi; }
// compare a block of pixels; returns "" or a description
inline std::string cmp(const uint8_t* s, ILenum sf, ILenum st, const Bytes* pal, ILenum pt, const uint8_t* d, ILenum df, ILenum dt, size_t n)
{
    int sb = channels(sf) * bpc(st), db = bpc(dt), nc = channels(df);
    for (size_t i = 0; i < n; i++) { Px q = decode(s + i * sb, sf, st, pal, pt);
        for (int c = 0; c < nc; c++) { Range r = expect(q, df, dt, c); const uint8_t* p = d + (i * nc + c) * db;
            if (!fits(r, p, dt)) return mc::sfmt("pixel %zu channel %d is %.9g, expected %.9g..%.9g (source %s)", i, c, raw(p, dt), r.lo, r.hi, hex(s + i * sb, sb).c_str()); } }
    return "";
}
} // namespace conv
