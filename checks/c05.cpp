// C05: ilSetPixels / ilCopyPixels against a per-pixel model; caller buffers are exactly sized heap blocks (ASan guards both sides).
#include "conv.h"
using namespace mc; using namespace ilx; using namespace conv;
static const ILenum ORG[2] = { IL_ORIGIN_UPPER_LEFT, IL_ORIGIN_LOWER_LEFT };
struct Heap { uint8_t* p; size_t n; Heap(size_t n, uint32_t salt) : p((uint8_t*)malloc(n ? n : 1)), n(n) { Bytes b = pattern(n, salt); if (n) memcpy(p, b.data(), n); } ~Heap() { free(p); } Bytes bytes() const { return Bytes(p, p + n); } };
struct Cfg { int w, h, d; ILenum f, t; int org; int mode; };   // mode: 0 = IL_ORIGIN_SET off, 1/2 = on with UL/LL
static Img start(const Cfg& c, bool& ok)
{
    init(); Img i;
    if (c.f == IL_COLOUR_INDEX) { Bytes ix = pattern(c.w * c.h * c.d, 3); for (auto& b : ix) b %= 8; ok = mkpal(c.w, c.h, IL_PAL_RGB24, 8, ix.data(), pattern(24, 8).data(), ORG[c.org], c.d); }
    else ok = mk(c.w, c.h, c.d, c.f, c.t, typed_pattern(c.w * c.h * c.d * channels(c.f), c.t, 21).data(), ORG[c.org]);
    if (!ok) { fail("make"); return i; }
    if (c.mode) { ilOriginFunc(ORG[c.mode - 1]); ilEnable(IL_ORIGIN_SET); } drain(); return snap();
}
static inline size_t pix(const Cfg& c, int x, int y, int z) { bool flip = c.mode && c.mode - 1 != c.org; return ((size_t)z * c.h + (flip ? c.h - 1 - y : y)) * c.w + x; }
static void copy(const Cfg& c, unsigned xo, unsigned yo, unsigned zo, int w, int h, int d, ILenum f, ILenum t)
{
    bool ok; Img a = start(c, ok); if (!ok) return; int pb = channels(f) * bpc(t), sb = channels(c.f) * bpc(c.t); Heap buf((size_t)w * h * d * pb, 99); Bytes before = buf.bytes();
    ILuint r = ilCopyPixels(xo, yo, zo, w, h, d, f, t, buf.p); auto e = errors(); Img b = snap(); eval(3);
    if (a != b) { fail("changed the image: %s", a.diff(b).c_str()); return; }
    bool bad = f == IL_COLOUR_INDEX && c.f != IL_COLOUR_INDEX;
    if (bad) { if (r || e.empty()) fail("accepted"); else if (buf.bytes() != before) fail("wrote to the buffer"); return; }
    if (w && h && d && (r != (ILuint)(w * h * d * pb) || !e.empty())) { fail("returned %u, error %s", r, e.empty() ? "none" : ename(e[0]).c_str()); return; }
    for (int z = 0; z < d; z++) for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
        size_t o = ((size_t)(z * h + y) * w + x) * pb; bool in = (uint64_t)xo + x < (unsigned)c.w && (uint64_t)yo + y < (unsigned)c.h && (uint64_t)zo + z < (unsigned)c.d;
        if (!in) { if (memcmp(buf.p + o, before.data() + o, pb)) { fail("wrote to element %d,%d,%d, which lies outside of the image", x, y, z); return; } continue; }
        const uint8_t* s = a.data.data() + pix(c, xo + x, yo + y, zo + z) * sb;
        if (f == c.f && t == c.t) { if (memcmp(s, buf.p + o, pb)) { fail("element %d,%d,%d is %s, image has %s", x, y, z, hex(buf.p + o, pb).c_str(), hex(s, sb).c_str()); return; } }
        else if (f != IL_COLOUR_INDEX) { std::string m = cmp(s, c.f, c.t, &a.pal, a.paltype, buf.p + o, f, t, 1); if (!m.empty()) { fail("element %d,%d,%d: %s", x, y, z, m.c_str()); return; } }
    }
    eval((uint64_t)w * h * d); outcome(fnv(buf.p, buf.n)); ilShutDown();
}
static void set(const Cfg& c, int xo, int yo, int zo, int w, int h, int d, ILenum f, ILenum t, bool back = false)
{
    bool ok; Img a = start(c, ok); if (!ok) return; int pb = channels(f) * bpc(t), sb = channels(c.f) * bpc(c.t); Heap buf((size_t)w * h * d * pb, 5);
    { Bytes tp = typed_pattern(w * h * d * channels(f), t, 77); if (f == IL_COLOUR_INDEX) for (auto& v : tp) v %= 8; if (buf.n) memcpy(buf.p, tp.data(), buf.n); } Bytes before = buf.bytes();
    ilSetPixels(xo, yo, zo, w, h, d, f, t, buf.p); auto e = errors(); Img b = snap(); eval(3);
    if (buf.bytes() != before) { fail("changed the caller's buffer"); return; }
    Img b2 = b; b2.data = a.data; if (a != b2) { fail("changed attributes: %s", a.diff(b2).c_str()); return; }
    bool bad = (f == IL_COLOUR_INDEX) != (c.f == IL_COLOUR_INDEX);
    if (bad) { if (e.empty()) fail("accepted"); else if (a != b) fail("changed the image"); return; }
    if (w && h && d && !e.empty()) { fail("error %s", ename(e[0]).c_str()); return; }
    for (int z = 0; z < c.d; z++) for (int y = 0; y < c.h; y++) for (int x = 0; x < c.w; x++) {
        int64_t bx = (int64_t)x - xo, by = (int64_t)y - yo, bz = (int64_t)z - zo; bool in = bx >= 0 && by >= 0 && bz >= 0 && bx < w && by < h && bz < d; size_t o = pix(c, x, y, z) * sb; const uint8_t* q = b.data.data() + o;
        if (!in) { if (memcmp(q, a.data.data() + o, sb)) { fail("pixel %d,%d,%d outside of the block changed", x, y, z); return; } continue; }
        const uint8_t* s = buf.p + ((bz * h + by) * w + bx) * pb;
        if (f == c.f && t == c.t) { if (memcmp(s, q, sb)) { fail("pixel %d,%d,%d is %s, block has %s", x, y, z, hex(q, sb).c_str(), hex(s, sb).c_str()); return; } }
        else if (f != IL_COLOUR_INDEX) { std::string m = cmp(s, f, t, 0, 0, q, c.f, c.t, 1); if (!m.empty()) { fail("pixel %d,%d,%d: %s", x, y, z, m.c_str()); return; } }
    }
    eval((uint64_t)c.w * c.h * c.d);
    if (back && w && h && d) { // copying the block back gives what was written (inside the image) and leaves the rest of the buffer
        if (xo >= 0 && yo >= 0 && zo >= 0) { Heap g(buf.n, 7); Bytes gb = g.bytes(); ilCopyPixels(xo, yo, zo, w, h, d, f, t, g.p); for (int z = 0; z < d; z++) for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { bool in = xo + x < c.w && yo + y < c.h && zo + z < c.d; size_t o = ((z * h + y) * w + x) * pb; if (memcmp(g.p + o, in ? buf.p + o : gb.data() + o, pb)) { fail("reading back %d,%d,%d", x, y, z); return; } } eval(); } }
    outcome(b.hash()); ilShutDown();
}
SUITE(copy)
{
    batch("copy1", 2 * 3 * 9 * 9 * 3, [](uint64_t q) { Cfg c{ 5, 1, 1, IL_RGB, IL_UNSIGNED_BYTE, (int)(q & 1), 0 }; q /= 2; c.mode = q % 3; q /= 3; int xo = q % 9; q /= 9; int w = q % 9; q /= 9; int h = q; note("5x1 mode=%d,%d off=%d size=%dx%d", c.org, c.mode, xo, w, h); copy(c, xo, 0, 0, w, h, 1, IL_RGB, IL_UNSIGNED_BYTE); });
    batch("copy2", 2 * 3 * 7 * 6 * 8 * 7 * 2, [](uint64_t q) { Cfg c{ 4, 3, 1, IL_RGBA, IL_UNSIGNED_BYTE, (int)(q & 1), 0 }; q /= 2; c.mode = q % 3; q /= 3; int xo = q % 7; q /= 7; int yo = q % 6; q /= 6; int w = q % 8; q /= 8; int h = q % 7; q /= 7; note("4x3 mode=%d,%d off=%d,%d size=%dx%d %s", c.org, c.mode, xo, yo, w, h, q ? "converted" : ""); copy(c, xo, yo, 0, w, h, 1, q ? IL_BGR : IL_RGBA, q ? IL_UNSIGNED_SHORT : IL_UNSIGNED_BYTE); });
    batch("copy3", 6 * 5 * 4 * 5 * 5 * 4 * 5, [](uint64_t q) { Cfg c{ 3, 2, 3, IL_LUMINANCE, IL_UNSIGNED_SHORT, (int)(q & 1), 0 }; q /= 2; c.mode = q % 3; q /= 3; int xo = q % 5; q /= 5; int yo = q % 4; q /= 4; int zo = q % 5; q /= 5; int w = q % 5; q /= 5; int h = q % 4; q /= 4; int d = q; note("3x2x3 mode=%d,%d off=%d,%d,%d size=%dx%dx%d", c.org, c.mode, xo, yo, zo, w, h, d); copy(c, xo, yo, zo, w, h, d, IL_LUMINANCE, IL_UNSIGNED_SHORT); });
    batch("copyfar", 7 * 7 * 7 * 3, [](uint64_t q) { static const unsigned O[] = { 0, 1, 3, 0x7fffffffu, 0x80000000u, 0xffffffffu, 0xfffffffeu }; Cfg c{ 3, 2, 2, IL_RGB, IL_UNSIGNED_BYTE, 0, 0 }; unsigned a = O[q % 7], b = O[q / 7 % 7], e = O[q / 49 % 7]; int k = q / 343; note("offset %u,%u,%u size %d", a, b, e, k + 1); copy(c, a, b, e, k + 1, k + 1, k + 1, IL_RGB, k == 1 ? IL_FLOAT : IL_UNSIGNED_BYTE); });
}
SUITE(set)
{
    batch("set1", 2 * 3 * 14 * 9 * 5 * 4, [](uint64_t q) { Cfg c{ 5, 1, 1, IL_RGB, IL_UNSIGNED_BYTE, (int)(q & 1), 0 }; q /= 2; c.mode = q % 3; q /= 3; int xo = (int)(q % 14) - 6; q /= 14; int w = q % 9; q /= 9; int yo = (int)(q % 5) - 2; q /= 5; int h = q; note("5x1 mode=%d,%d off=%d,%d size=%dx%d", c.org, c.mode, xo, yo, w, h); set(c, xo, yo, 0, w, h, 1, IL_RGB, IL_UNSIGNED_BYTE, true); });
    batch("set2", 2 * 3 * 11 * 9 * 7 * 6 * 2, [](uint64_t q) { Cfg c{ 4, 3, 1, IL_RGBA, IL_UNSIGNED_BYTE, (int)(q & 1), 0 }; q /= 2; c.mode = q % 3; q /= 3; int xo = (int)(q % 11) - 5; q /= 11; int yo = (int)(q % 9) - 4; q /= 9; int w = q % 7; q /= 7; int h = q % 6; q /= 6; note("4x3 mode=%d,%d off=%d,%d size=%dx%d %s", c.org, c.mode, xo, yo, w, h, q ? "converted" : ""); set(c, xo, yo, 0, w, h, 1, q ? IL_BGR : IL_RGBA, q ? IL_UNSIGNED_SHORT : IL_UNSIGNED_BYTE, !q); });
    batch("set3", 6 * 6 * 5 * 6 * 4 * 3 * 4, [](uint64_t q) { Cfg c{ 3, 2, 3, IL_LUMINANCE, IL_UNSIGNED_SHORT, (int)(q & 1), 0 }; q /= 2; c.mode = q % 3; q /= 3; int xo = (int)(q % 6) - 2; q /= 6; int yo = (int)(q % 5) - 2; q /= 5; int zo = (int)(q % 6) - 2; q /= 6; int w = 1 + q % 4; q /= 4; int h = 1 + q % 3; q /= 3; int d = 1 + q; note("3x2x3 mode=%d,%d off=%d,%d,%d size=%dx%dx%d", c.org, c.mode, xo, yo, zo, w, h, d); set(c, xo, yo, zo, w, h, d, IL_LUMINANCE, IL_UNSIGNED_SHORT, true); });
    batch("setfar", 7 * 7 * 7 * 3, [](uint64_t q) { static const int O[] = { 0, 1, 3, 0x7fffffff, (int)0x80000000u, -1, -2 }; Cfg c{ 3, 2, 2, IL_RGB, IL_UNSIGNED_BYTE, 0, 0 }; int a = O[q % 7], b = O[q / 7 % 7], e = O[q / 49 % 7]; int k = q / 343; note("offset %d,%d,%d size %d", a, b, e, k + 1); set(c, a, b, e, k + 1, k + 1, k + 1, IL_RGB, k == 1 ? IL_FLOAT : IL_UNSIGNED_BYTE); });
}
SUITE(formats)
{
    struct FT { ILenum f, t; }; static std::vector<FT> v; if (v.empty()) for (ILenum f : FORMATS) for (ILenum t : TYPES) if (f != IL_COLOUR_INDEX || t == IL_UNSIGNED_BYTE) v.push_back({ f, t });
    batch("formats", v.size() * v.size() * 2 * 3, [](uint64_t q) { FT i = v[q % v.size()]; q /= v.size(); FT u = v[q % v.size()]; q /= v.size(); int k = q % 3; bool st = q / 3; Cfg c{ 3, 3, 2, i.f, i.t, k & 1, k ? 1 : 0 }; note("%s %s/%s image, %s/%s block org=%d", st ? "set" : "copy", fname(i.f), tname(i.t), fname(u.f), tname(u.t), k);
        if (st) set(c, 1, -1, 0, 3, 3, 2, u.f, u.t); else copy(c, 1, 1, 0, 3, 2, 2, u.f, u.t); });
    // illegal formats, types and buffers are refused
    batch("bad", 5 * 5 * 2 * 2, [](uint64_t q) { static const ILenum F[] = { 0, IL_RGB, 0x1234, 0x190b, IL_LUMINANCE }, T[] = { 0, IL_UNSIGNED_BYTE, 0x1409, 0x77, IL_FLOAT }; ILenum f = F[q % 5], t = T[q / 5 % 5]; int nul = q / 25 % 2, st = q / 50; note("%s format %x type %x %s", st ? "set" : "copy", f, t, nul ? "NULL" : "");
        bool vf = false, vt = false; for (ILenum x : FORMATS) vf |= x == f; for (ILenum x : TYPES) vt |= x == t; Cfg c{ 3, 2, 1, IL_RGB, IL_UNSIGNED_BYTE, 0, 0 }; bool ok; Img a = start(c, ok); Heap b(256, 1); Bytes bb = b.bytes(); ILuint r = 0; if (st) ilSetPixels(0, 0, 0, 2, 2, 1, f, t, nul ? 0 : b.p); else r = ilCopyPixels(0, 0, 0, 2, 2, 1, f, t, nul ? 0 : b.p); auto e = errors(); bool legal = vf && vt && !nul; eval(2);
        if (legal == !e.empty()) fail("errors: %zu", e.size()); else if (!legal && (r || snap() != a || b.bytes() != bb)) fail("had an effect"); outcome(q); ilShutDown(); });
}
SUITE(large)   // sizes and offsets beyond 16 bits
{
    static const int L[][3] = { { 65537, 1, 1 }, { 1, 65537, 1 }, { 1, 1, 65537 }, { 301, 299, 1 }, { 259, 5, 70 } }; struct U { ILenum f, t, g, u; }; static const U T[] = { { IL_RGB, IL_UNSIGNED_BYTE, IL_RGB, IL_UNSIGNED_BYTE }, { IL_LUMINANCE, IL_UNSIGNED_SHORT, IL_LUMINANCE, IL_UNSIGNED_SHORT }, { IL_RGBA, IL_UNSIGNED_BYTE, IL_BGR, IL_FLOAT }, { IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, IL_COLOUR_INDEX, IL_UNSIGNED_BYTE } };
    batch("large", 5 * 4 * 3 * 4 * 2, [](uint64_t q) { set_cpu_limit(60); const int* s = L[q % 5]; q /= 5; const U& u = T[q % 4]; q /= 4; Cfg c{ s[0], s[1], s[2], u.f, u.t, 0, (int)(q % 3) }; q /= 3; int m = q % 4; q /= 4; int o[3], n[3]; for (int i = 0; i < 3; i++) { o[i] = m == 0 ? 0 : m == 1 ? s[i] / 3 : m == 2 ? s[i] - 1 : s[i] > 300 ? 255 : 0; n[i] = m == 0 ? s[i] : m == 1 ? s[i] : m == 2 ? 2 : s[i] > 300 ? s[i] - 500 > 0 ? s[i] - 500 : 3 : s[i]; }
        note("%s %dx%dx%d %s/%s mode %d block %s/%s at %d,%d,%d size %dx%dx%d", q ? "set" : "copy", s[0], s[1], s[2], fname(u.f), tname(u.t), c.mode, fname(u.g), tname(u.u), o[0], o[1], o[2], n[0], n[1], n[2]); if (q) set(c, o[0], o[1], o[2], n[0], n[1], n[2], u.g, u.u, m == 3 && u.f == u.g); else copy(c, o[0], o[1], o[2], n[0], n[1], n[2], u.g, u.u); });
}
