// C32: operations on whole images (clear, alpha, NTSC limits, surfaces, information) against per-sample models.
#include "conv.h"
#include <set>
using namespace mc; using namespace ilx; using namespace conv;
static const ILenum ORG[2] = { IL_ORIGIN_UPPER_LEFT, IL_ORIGIN_LOWER_LEFT };
static const int DIM[][3] = { { 1, 1, 1 }, { 3, 2, 1 }, { 2, 3, 2 }, { 7, 1, 1 }, { 1, 5, 3 } };
static const int PALS[] = { IL_PAL_RGB24, IL_PAL_RGB32, IL_PAL_RGBA32, IL_PAL_BGR24, IL_PAL_BGR32, IL_PAL_BGRA32 };
struct Kind { ILenum f, t; int pal; };
static std::vector<Kind> kinds(bool half = true)
{
    std::vector<Kind> v; for (ILenum f : FORMATS) { if (f == IL_COLOUR_INDEX) { for (int p : PALS) v.push_back({ f, IL_UNSIGNED_BYTE, p }); continue; } for (ILenum t : TYPES) if (half || t != IL_HALF) v.push_back({ f, t, 0 }); }
    return v;
}
static bool make(const Kind& k, const int* d, int org, uint32_t salt = 7)
{
    if (k.f == IL_COLOUR_INDEX) { Bytes ix = pattern(d[0] * d[1] * d[2], salt); for (auto& b : ix) b %= 5; return mkpal(d[0], d[1], k.pal, 5, ix.data(), pattern(5 * palbpp(k.pal), salt + 3).data(), ORG[org], d[2]); }
    return mk(d[0], d[1], d[2], k.f, k.t, typed_pattern(d[0] * d[1] * d[2] * channels(k.f), k.t, salt).data(), ORG[org]);
}
static std::string kn(const Kind& k) { return sfmt("%s %s%s", fname(k.f), tname(k.t), k.pal ? sfmt(" palette %x", k.pal).c_str() : ""); }
// a sample that shows the value v (0..1); integers may round either way
static bool shows(const uint8_t* p, ILenum t, double v)
{
    double got = raw(p, t), D = umax(t), want = v * D;
    if (t == IL_DOUBLE || t == IL_FLOAT) return std::fabs(got - want) <= 1e-6; if (t == IL_HALF) return std::fabs(got - want) <= 1.0 / 1024;
    return std::fabs(got - want) < (bpc(t) == 4 ? 512 : 1);
}
static double cl(double v) { return v < 0 ? 0 : v > 1 ? 1 : v; }
static bool isE(double v) { return v == 0 || v == 1; }

// ---- ilClearColour / ilClearImage
static const float CC[][4] = { { 0, 0, 0, 0 }, { 1, 1, 1, 1 }, { 1, 0, 0, 0 }, { 0, 1, 0, 1 }, { 0, 0, 1, .5f }, { .2f, .4f, .6f, .8f }, { .8f, .8f, .8f, .25f }, { -1, 2, .5f, 7 }, { 5, 5, 5, -5 }, { .9f, .1f, .3f, 1 }, { .501f, .499f, .003f, .997f } };
static void clearone(const Kind& k, const int* d, int org, const float* c, bool sub)
{
    init(); ILuint n; ilGenImages(1, &n); ilBindImage(n);
    if (!make(k, d, org)) { fail("make"); return; }
    Tree before; if (sub) { ilSetDuration(77); if (!ilCreateSubImage(IL_SUB_NEXT, 1)) { fail("sub"); return; } ilActiveImage(1); if (!make(k, d, org, 9)) { fail("make sub"); return; } }
    Img was = snap(); Tree t0; if (sub) { t0 = snaptree(n); ilActiveImage(1); }
    ilClearColour(c[0], c[1], c[2], c[3]); bool ok = ilClearImage(); auto e = errors(); Img i = snap(); eval();
    if (!ok || !e.empty()) { fail("refused: %s", e.empty() ? "-" : ename(e[0]).c_str()); return; }
    Img w = was; w.data = i.data; w.pal = i.pal; w.paltype = i.paltype; w.palcols = i.palcols; w.palbpp = i.palbpp; if (i != w) { fail("attributes changed: %s", w.diff(i).c_str()); return; }
    if (k.f == IL_COLOUR_INDEX) {
        for (auto b : i.data) if (b) { fail("an index is %d", b); return; }
        for (auto b : i.pal) if (b) { fail("a palette entry is %d", b); return; }
        if (i.palcols < 1) fail("no palette left");
    } else {
        double r = cl(c[0]), g = cl(c[1]), b = cl(c[2]), a = cl(c[3]), l = r == g && g == b ? r : .212671 * r + .715160 * g + .072169 * b; int nc = channels(k.f), bp = bpc(k.t);
        for (size_t p = 0; p * bp < i.data.size(); p++) { int q = comp(k.f, p % nc); double v = q == 0 ? r : q == 1 ? g : q == 2 ? b : q == 3 ? a : l; const uint8_t* s = i.data.data() + p * bp;
            if (!shows(s, k.t, v)) { fail("pixel %zu channel %zu is %.9g, the colour has %.9g", p / nc, p % nc, raw(s, k.t), v * umax(k.t)); return; }
            if (isE(v) && !issg(k.t) && raw(s, k.t) != v * umax(k.t)) { fail("pixel %zu channel %zu is %.9g, not the extreme %.9g", p / nc, p % nc, raw(s, k.t), v * umax(k.t)); return; }
            if (memcmp(s, i.data.data() + (p % nc) * bp, bp)) { fail("pixel %zu differs from the first", p / nc); return; } }
    }
    if (sub) { Tree t1 = snaptree(n); if (t1.img != t0.img) fail("clearing the sub-image changed the base: %s", t0.img.diff(t1.img).c_str()); }
    outcome(i.hash()); ilShutDown();
}
SUITE(clear)
{
    static auto K = kinds(); size_t nc = sizeof CC / sizeof *CC, nd = sizeof DIM / sizeof *DIM;
    batch("clear", K.size() * nd * 2 * nc * 2, [=](uint64_t q) { const Kind& k = K[q % K.size()]; q /= K.size(); const int* d = DIM[q % nd]; q /= nd; int o = q & 1; q /= 2; const float* c = CC[q % nc]; q /= nc;
        note("clear %s %dx%dx%d origin %d to %g,%g,%g,%g%s", kn(k).c_str(), d[0], d[1], d[2], o, c[0], c[1], c[2], c[3], q ? ", sub-image" : ""); clearone(k, d, o, c, q); });
    // the whole cube of colours in 8 bits
    int L = thorough ? 16 : 6; batch("cube", (uint64_t)L * L * L, [=](uint64_t q) { float c[4] = { float(q % L) / (L - 1), float(q / L % L) / (L - 1), float(q / L / L) / (L - 1), .5f }; note("clear to %g,%g,%g", c[0], c[1], c[2]);
        for (Kind k : { Kind{ IL_RGB, IL_UNSIGNED_BYTE, 0 }, Kind{ IL_BGRA, IL_UNSIGNED_SHORT, 0 }, Kind{ IL_LUMINANCE_ALPHA, IL_FLOAT, 0 }, Kind{ IL_LUMINANCE, IL_UNSIGNED_BYTE, 0 } }) clearone(k, DIM[1], 0, c, false); });
}

// ---- ilSetAlpha / ilModAlpha / ilGetAlpha
static ILenum withalpha(ILenum f) { switch (f) { case IL_RGB: case IL_COLOUR_INDEX: return IL_RGBA; case IL_BGR: return IL_BGRA; case IL_LUMINANCE: return IL_LUMINANCE_ALPHA; default: return f; } }
static const double AV[] = { 0, 1, .5, .25, .8, .003, .9999, -1, 1.5, 300 };
static void alpha(const Kind& k, const int* d, int org, double v, bool mod)
{
    init(); if (!make(k, d, org)) { fail("make"); return; } Img a = snap(); bool ok = true;
    if (mod) ilModAlpha(v); else ok = ilSetAlpha(v); auto e = errors(); Img b = snap(); eval();
    if (!ok || !e.empty()) { fail("refused: %s", e.empty() ? "-" : ename(e[0]).c_str()); return; }
    ILenum f = withalpha(k.f); int nc = channels(f), bp = bpc(k.t), sb = channels(k.f) * bp; bool set = !mod || !hasalpha(k.f);
    if (!set) { if (a != b) fail("changed an image that has an alpha: %s", a.diff(b).c_str()); return; }
    if (b.format != (int)f || b.type != (int)k.t || b.w != a.w || b.h != a.h || b.d != a.d || b.origin != a.origin || b.data.size() != (size_t)d[0] * d[1] * d[2] * nc * bp) { fail("made %s", b.desc().c_str()); return; }
    if (f == k.f && b.pal != a.pal) { fail("palette"); return; }
    for (int p = 0; p < d[0] * d[1] * d[2]; p++) { Px s = decode(a.data.data() + p * sb, k.f, k.t, &a.pal, a.paltype);
        for (int c = 0; c < nc; c++) { const uint8_t* q = b.data.data() + (p * nc + c) * bp;
            if (comp(f, c) == 3) { if (!shows(q, k.t, cl(v)) || (isE(cl(v)) && raw(q, k.t) != cl(v) * umax(k.t))) { fail("alpha of pixel %d is %.9g, not %.9g", p, raw(q, k.t), cl(v) * umax(k.t)); return; } continue; }
            if (f == k.f) { if (memcmp(q, a.data.data() + p * sb + c * bp, bp)) { fail("channel %d of pixel %d changed", c, p); return; } continue; }
            Range r = expect(s, f, k.t, c); if (!fits(r, q, k.t)) { fail("channel %d of pixel %d is %.9g, was %.9g..%.9g", c, p, raw(q, k.t), r.lo, r.hi); return; } } }
    outcome(b.hash()); ilShutDown();
}
static void getalpha(const Kind& k, const int* d, int org, ILenum t)
{
    init(); if (!make(k, d, org)) { fail("make"); return; } Img a = snap(); ILubyte* p = ilGetAlpha(t); auto e = errors(); Img b = snap(); eval();
    if (!p) { fail("refused: %s", e.empty() ? "-" : ename(e[0]).c_str()); return; } if (!e.empty()) { fail("error %s", ename(e[0]).c_str()); return; }
    if (a != b) { fail("changed the image: %s", a.diff(b).c_str()); return; }
    int n = d[0] * d[1] * d[2], sb = channels(k.f) * bpc(k.t); std::string m = cmp(a.data.data(), k.f, k.t, &a.pal, a.paltype, p, IL_ALPHA, t, n); if (!m.empty()) fail("%s", m.c_str());
    (void)sb; outcome(fnv(p, n * bpc(t))); free(p); ilShutDown();
}
SUITE(alpha)
{
    static auto K = kinds(); size_t nv = sizeof AV / sizeof *AV, nd = thorough ? 5 : 3;
    batch("set", K.size() * nd * 2 * nv * 2, [=](uint64_t q) { const Kind& k = K[q % K.size()]; q /= K.size(); const int* d = DIM[q % nd]; q /= nd; int o = q & 1; q /= 2; double v = AV[q % nv]; q /= nv; note("%s %s %dx%dx%d origin %d to %g", q ? "ilModAlpha" : "ilSetAlpha", kn(k).c_str(), d[0], d[1], d[2], o, v); alpha(k, d, o, v, q); });
    batch("get", K.size() * 3 * TYPES.size() * 2, [](uint64_t q) { const Kind& k = K[q % K.size()]; q /= K.size(); const int* d = DIM[q % 3]; q /= 3; ILenum t = TYPES[q % TYPES.size()]; q /= TYPES.size(); note("ilGetAlpha(%s) %s %dx%dx%d origin %d", tname(t), kn(k).c_str(), d[0], d[1], d[2], (int)q); getalpha(k, d, q, t); });
}

// ---- ilClampNTSC
SUITE(ntsc)
{
    static auto K = kinds(); batch("ntsc", K.size() * 5 * 2 * 2, [](uint64_t q) { const Kind& k = K[q % K.size()]; q /= K.size(); const int* d = DIM[q % 5]; q /= 5; int o = q & 1; q /= 2; note("ilClampNTSC %s %dx%dx%d origin %d pattern %d", kn(k).c_str(), d[0], d[1], d[2], o, (int)q);
        init(); if (!make(k, d, o, 5 + 40 * q)) { fail("make"); return; } Img a = snap(); bool ok = ilClampNTSC(); auto e = errors(); Img b = snap(); eval();
        if (k.t != IL_UNSIGNED_BYTE) { if (ok || e.empty()) fail("accepted"); else if (a != b) fail("failed and changed the image"); return; }
        if (!ok || !e.empty()) { fail("refused"); return; }
        Img w = a; w.data = b.data; w.pal = b.pal; if (w != b) { fail("attributes changed: %s", w.diff(b).c_str()); return; }
        auto lim = [](int v) { return v < 16 ? 16 : v > 235 ? 235 : v; };
        if (k.f == IL_COLOUR_INDEX) { if (a.data != b.data) fail("indices changed"); int n = palbpp(k.pal); for (size_t i = 0; i < a.pal.size(); i++) if (i % n == 3 ? a.pal[i] != b.pal[i] && lim(a.pal[i]) != b.pal[i] : lim(a.pal[i]) != b.pal[i]) { fail("palette byte %zu is %d, was %d", i, b.pal[i], a.pal[i]); return; } }
        else { int nc = channels(k.f); if (a.pal != b.pal) fail("palette"); for (size_t i = 0; i < a.data.size(); i++) if (lim(a.data[i]) != b.data[i] && !(comp(k.f, i % nc) == 3 && a.data[i] == b.data[i])) { fail("sample %zu is %d, was %d", i, b.data[i], a.data[i]); return; } }
        outcome(b.hash()); ilShutDown(); });
    // every value in every position of a pixel
    batch("values", 256 * 4, [](uint64_t q) { int v = q & 255, c = q >> 8; note("ilClampNTSC value %d channel %d", v, c); init(); Bytes px = { 100, 101, 102, 103 }; px[c] = v; mk(1, 1, 1, IL_RGBA, IL_UNSIGNED_BYTE, px.data()); ilClampNTSC(); Img b = snap(); eval();
        for (int i = 0; i < 4; i++) { int w = px[i] < 16 ? 16 : px[i] > 235 ? 235 : px[i]; if (b.data[i] != w && !(i == 3 && b.data[i] == px[i])) fail("channel %d is %d", i, b.data[i]); } ilShutDown(); });
}

// ---- ilTexImageSurface, ilSetData, ilDefaultImage, ilSetDuration on every member of a chain
SUITE(surface)
{
    static auto K = kinds(); static const char* MEM[] = { "base", "image 1", "image 2", "mipmap 1", "layer 1" };
    batch("surface", K.size() * 4 * 5 * 2, [](uint64_t q) {
        const Kind& k = K[q % K.size()]; q /= K.size(); const int* d = DIM[q % 4]; q /= 4; int mem = q % 5; q /= 5; int org = q; note("ilTexImageSurface %s %dx%dx%d on %s origin %d", kn(k).c_str(), d[0], d[1], d[2], MEM[mem], org);
        init(); ILuint n; ilGenImages(1, &n); ilBindImage(n); int D0[3] = { 4, 4, 1 }; Kind k0{ IL_RGB, IL_UNSIGNED_BYTE, 0 }, kp{ IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, IL_PAL_BGRA32 };
        auto go = [&] { ilBindImage(n); switch (mem) { case 1: ilActiveImage(1); break; case 2: ilActiveImage(2); break; case 3: ilActiveMipmap(1); break; case 4: ilActiveLayer(1); break; } };
        if (!make(kp, D0, org)) { fail("make"); return; } bool c = ilCreateSubImage(IL_SUB_NEXT, 2) && ilCreateSubImage(IL_SUB_MIPMAP, 1) && ilCreateSubImage(IL_SUB_LAYER, 1); if (!c) { fail("chains"); return; }
        int keep = mem; for (mem = 1; mem < 5; mem++) { go(); if (mem == 1) { Bytes b = pattern(ilGetInteger(IL_IMAGE_SIZE_OF_DATA), 55); ilSetData(b.data()); } else if (mem == 2) make(k0, D0, 1 - org, mem); else { make(mem == 3 ? kp : k0, D0, 1 - org, mem); } } mem = keep; drain();
        Tree t0 = snaptree(n); go(); Img was = snap(); Bytes data = typed_pattern(d[0] * d[1] * d[2] * channels(k.f), k.t, 91);
        bool ok = ilTexImageSurface(d[0], d[1], d[2], channels(k.f), k.f, k.t, data.data()); auto e = errors(); Img i = snap(); Tree t1 = snaptree(n); eval(2);
        if (!ok || !e.empty()) { fail("refused"); return; }
        if (i.w != d[0] || i.h != d[1] || i.d != d[2] || i.format != (int)k.f || i.type != (int)k.t || i.data != data || i.origin != was.origin || i.cube != was.cube || i.dxtcf != IL_DXT_NO_COMP) { fail("delivered %s", i.desc().c_str()); return; }
        if (i.nimg != was.nimg || i.nmip != was.nmip || i.nlay != was.nlay || i.nface != was.nface) { fail("chains became %s", i.desc().c_str()); return; }
        // nothing else in the tree changed
        std::function<void(Tree&)> wipe = [&](Tree& t) { if (t.img == i || t.img == was) t.img = Img(); for (auto* v : { &t.mips, &t.imgs, &t.lays, &t.faces }) for (auto& s : *v) wipe(s); };
        wipe(t0); wipe(t1); if (t0 != t1) fail("other members changed: %s", t0.diff(t1).c_str());
        outcome(i.hash()); ilShutDown(); });
    batch("default", K.size() * 2 * 3, [](uint64_t q) { const Kind& k = K[q % K.size()]; q /= K.size(); int org = q & 1; q /= 2; note("ilDefaultImage over %s origin %d mode %d", kn(k).c_str(), org, (int)q); init(); make(k, DIM[2], org); if (q) { ilOriginFunc(ORG[q - 1]); ilEnable(IL_ORIGIN_SET); } ilSetDuration(5);
        bool ok = ilDefaultImage(); auto e = errors(); Img i = snap(); eval(); if (!ok || !e.empty()) { fail("refused"); return; } if (i.w != 64 || i.h != 64 || i.d != 1 || i.nimg || i.nmip || i.nlay || i.pal.size()) { fail("made %s", i.desc().c_str()); return; }
        std::set<std::string> col[2]; int nc = i.bpp * i.bpc; for (int y = 0; y < 64; y++) for (int x = 0; x < 64; x++) col[(x / 8 + y / 8) & 1].insert(std::string((const char*)i.at(x, y), nc));
        if (col[0].size() != 1 || col[1].size() != 1 || *col[0].begin() == *col[1].begin()) { fail("no checkerboard of 8x8 squares in two colours"); return; }
        int black = 0, yellow = 0; for (auto& s : { *col[0].begin(), *col[1].begin() }) { Px p = decode((const uint8_t*)s.data(), i.format, i.type); if (!p.c[0] && !p.c[1] && !p.c[2]) black++; else if (p.c[0] > .8 * umax(i.type) && p.c[1] > .8 * umax(i.type) && p.c[2] < .2 * umax(i.type)) yellow++; }
        if (black != 1 || yellow != 1) fail("the colours are not black and yellow"); ilShutDown(); });
    batch("data", K.size() * 5 * 2, [](uint64_t q) { const Kind& k = K[q % K.size()]; q /= K.size(); const int* d = DIM[q % 5]; q /= 5; note("ilSetData %s %dx%dx%d origin %d", kn(k).c_str(), d[0], d[1], d[2], (int)q); init(); make(k, d, q); ilSetDuration(9); Img a = snap();
        Bytes nw = typed_pattern(a.size / bpc(k.t), k.t, 123); uint8_t* h = (uint8_t*)malloc(nw.size()); memcpy(h, nw.data(), nw.size()); bool ok = ilSetData(h); auto e = errors(); bool same = !memcmp(h, nw.data(), nw.size()); memset(h, 0xEE, nw.size()); free(h); Img b = snap(); a.data = nw; eval();
        if (!ok || !e.empty()) fail("refused"); else if (!same) fail("changed the caller's data"); else if (a != b) fail("%s", a.diff(b).c_str()); ilShutDown(); });
    static const unsigned DUR[] = { 0, 1, 100, 65535, 65536, 0x7fffffff };
    batch("duration", 6 * 3, [](uint64_t q) { unsigned v = DUR[q % 6]; int on = q / 6; note("ilSetDuration(%u) on image %d", v, on); init(); ILuint n; ilGenImages(1, &n); ilBindImage(n); Kind k{ IL_RGB, IL_UNSIGNED_BYTE, 0 }; make(k, DIM[1], 0); ilCreateSubImage(IL_SUB_NEXT, 2); for (int i = 0; i < 3; i++) { ilBindImage(n); ilActiveImage(i); ilSetDuration(10 + i); }
        ilBindImage(n); ilActiveImage(on); Img s = snap(); bool ok = ilSetDuration(v); Img t = snap(); s.dur = v; eval(); if (!ok || s != t || !errors().empty()) fail("%s", s.diff(t).c_str()); for (int i = 0; i < 3; i++) { ilBindImage(n); ilActiveImage(i); int g = ilGetInteger(IL_IMAGE_DURATION), w = i == on ? (int)v : 10 + i; if (g != w) fail("image %d lasts %d, not %d", i, g, w); } ilShutDown(); });
}

// ---- iluGetImageInfo agrees with the getters on every member of a chain; iluGenImage/iluDeleteImage are ilGenImages+bind/ilDeleteImages
SUITE(info)
{
    static auto K = kinds(); batch("info", K.size() * 5 * 2 * 6 * 2, [](uint64_t q) { const Kind& k = K[q % K.size()]; q /= K.size(); const int* d = DIM[q % 5]; q /= 5; int org = q & 1; q /= 2; int mem = q % 6; q /= 6; note("info %s %dx%dx%d origin %d chain %d%s", kn(k).c_str(), d[0], d[1], d[2], org, mem, q ? " inside" : "");
        init(); ILuint n[3]; ilGenImages(3, n); ilBindImage(n[1]); make(k, d, org); static const ILenum SUBS[] = { IL_SUB_NEXT, IL_SUB_MIPMAP, IL_SUB_LAYER }; if (mem) { ilCreateSubImage(SUBS[(mem - 1) % 3], mem > 3 ? 3 : 1); if (mem > 3) ilCreateSubImage(SUBS[mem % 3], 2); }
        ilBindImage(n[1]); if (q) { switch (mem) { case 0: break; case 1: case 4: ilActiveImage(1); break; case 2: case 5: ilActiveMipmap(1); break; default: ilActiveLayer(1); } } drain();
        Img i = snap(); State s0 = state(); ILinfo I; memset(&I, 0xA5, sizeof I); iluGetImageInfo(&I); auto e = errors(); eval(); if (!e.empty()) { fail("error %s", ename(e[0]).c_str()); return; } if (snap() != i || !(state() == s0)) { fail("changed something"); return; }
        auto w = [&](const char* what, long long g, long long x) { if (g != x) fail("%s is %lld, not %lld", what, g, x); };
        w("Id", I.Id, n[1]); w("Width", I.Width, i.w); w("Height", I.Height, i.h); w("Depth", I.Depth, i.d); w("Bpp", I.Bpp, i.bpp); w("SizeOfData", I.SizeOfData, i.size); w("Format", I.Format, i.format); w("Type", I.Type, i.type); w("Origin", I.Origin, i.origin); w("PalType", I.PalType, i.paltype); w("PalSize", I.PalSize, i.palcols * i.palbpp);
        w("NumNext", I.NumNext, i.nimg); w("NumMips", I.NumMips, i.nmip); w("NumLayers", I.NumLayers, i.nlay); w("Data", I.Data == ilGetData(), 1); w("Palette", I.Palette == ilGetPalette(), 1); if (i.pal.size() && I.Palette && memcmp(I.Palette, i.pal.data(), i.pal.size())) fail("palette content"); ilShutDown(); });
    seqs("names", { "gen", "ilu gen", "delete first", "ilu delete first", "ilu delete last", "ilu delete current", "bind 0", "ilu delete unknown" }, thorough ? 6 : 5, [](const std::vector<int>& s) {
        init(); std::vector<ILuint> live; ILuint cur = ilGetInteger(IL_CUR_IMAGE); int i = 0; for (int o : s) { i++; auto gone = [&](size_t x) { ILuint v = live[x]; live.erase(live.begin() + x); if (v == cur) cur = 0; return v; }; ILuint v;
            switch (o) { case 0: ilGenImages(1, &v); for (auto x : live) if (x == v) fail("step %d: name %u given twice", i, v); live.push_back(v); break; case 1: v = iluGenImage(); if (!v) fail("no name"); for (auto x : live) if (x == v) fail("step %d: name %u given twice", i, v); live.push_back(v); cur = v; break;
            case 2: if (live.size()) { v = gone(0); ilDeleteImages(1, &v); } break; case 3: if (live.size()) iluDeleteImage(gone(0)); break; case 4: if (live.size()) iluDeleteImage(gone(live.size() - 1)); break; case 5: for (size_t x = 0; x < live.size(); x++) if (live[x] == cur) { iluDeleteImage(gone(x)); break; } break; case 6: ilBindImage(0); cur = 0; break; case 7: iluDeleteImage(4000); break; }
            auto e = errors(); eval(); if (o != 7 && !e.empty()) fail("step %d: %s", i, ename(e[0]).c_str()); if ((ILuint)ilGetInteger(IL_CUR_IMAGE) != cur) { fail("step %d: image %d is current, not %u", i, ilGetInteger(IL_CUR_IMAGE), cur); break; } for (auto x : live) if (!ilIsImage(x)) { fail("step %d: %u is no image", i, x); } if (nfails()) break; }
        transition(s.size()); ilShutDown(); });
}

// ---- sequences of the operations on a chain of two images, against a model of the bytes
SUITE(sequences)
{
    static const std::vector<std::string> N = { "clear red", "clear grey", "alpha 0.25", "alpha 1", "mod 0.5", "ntsc", "data", "surface 1x2 LA", "default", "select base", "select image 1", "to BGR", "to L" };
    static const Kind KS[] = { { IL_RGB, IL_UNSIGNED_BYTE, 0 }, { IL_BGRA, IL_UNSIGNED_BYTE, 0 }, { IL_LUMINANCE, IL_UNSIGNED_BYTE, 0 }, { IL_ALPHA, IL_UNSIGNED_BYTE, 0 } };
    for (const Kind& k : KS) seqs(sfmt("from %s", fname(k.f)).c_str(), N, thorough ? 5 : 4, [k](const std::vector<int>& s) {
        init(); ILuint n; ilGenImages(1, &n); ilBindImage(n); int d[3] = { 2, 1, 1 }; make(k, d, 0, 3); ilCreateSubImage(IL_SUB_NEXT, 1); ilActiveImage(1); make(k, d, 0, 4); ilBindImage(n); drain();
        struct M { int w, h; ILenum f; Bytes d; }; std::vector<M> m; for (int i = 0; i < 2; i++) { ilBindImage(n); ilActiveImage(i); Img g = snap(); m.push_back({ g.w, g.h, (ILenum)g.format, g.data }); } ilBindImage(n); size_t cur = 0; int st = 0;
        auto conv1 = [](M& x, ILenum f) { if (x.f == f) return; Bytes o; int sb = channels(x.f); for (size_t p = 0; p + sb <= x.d.size(); p += sb) { Px q = decode(x.d.data() + p, x.f, IL_UNSIGNED_BYTE); for (int c = 0; c < channels(f); c++) { int z = comp(f, c); o.push_back(z == 4 ? (int)(lumw(q) + 1e-9) : (int)q.c[z]); } } x.d = o; x.f = f; };
        auto convc = [&](ILenum f) { for (size_t i = cur; i < m.size(); i++) conv1(m[i], f); }; bool lum = false;
        for (int o : s) { st++; bool ok = true; M& x = m[cur]; int v;
            switch (o) {
            case 0: case 1: ilClearColour(o ? .4f : 1, o ? .4f : 0, o ? .4f : 0, 1); ok = ilClearImage(); { Bytes px; for (int c = 0; c < channels(x.f); c++) { int z = comp(x.f, c); px.push_back(z == 3 ? 255 : o ? 102 : z == 0 ? 255 : z == 4 ? 54 : 0); } for (size_t i = 0; i < x.d.size(); i++) x.d[i] = px[i % px.size()]; } break;
            case 2: case 3: case 4: v = o == 2 ? 64 : o == 3 ? 255 : 128; if (o == 4) { bool had = hasalpha(x.f); ilModAlpha(.5); if (had) break; } else ok = ilSetAlpha(o == 2 ? .25 : 1.); { ILenum f = withalpha(x.f); if (f != x.f) convc(f); int nc = channels(f); for (size_t i = nc - 1; i < x.d.size(); i += nc) x.d[i] = v; } break;
            case 5: ok = ilClampNTSC(); for (auto& b : x.d) b = b < 16 ? 16 : b > 235 ? 235 : b; break;
            case 6: { Bytes nw = pattern(x.d.size(), 31); ok = ilSetData(nw.data()); x.d = nw; break; }
            case 7: { Bytes nw = { 1, 2, 3, 4 }; ok = ilTexImageSurface(1, 2, 1, 2, IL_LUMINANCE_ALPHA, IL_UNSIGNED_BYTE, nw.data()); x = { 1, 2, IL_LUMINANCE_ALPHA, nw }; break; }
            case 8: ok = ilDefaultImage(); m.resize(cur + 1); { M& y = m[cur]; y.w = y.h = 64; y.f = IL_BGR; Img g = snap(); y.d = g.data; } break;
            case 9: ilBindImage(n); cur = 0; break;
            case 10: ilBindImage(n); ok = ilActiveImage(1); if (m.size() < 2) { if (ok) fail("step %d: selected a missing image", st); ok = true; drain(); cur = 0; } else cur = 1; break;
            case 11: ok = ilConvertImage(IL_BGR, IL_UNSIGNED_BYTE); convc(IL_BGR); break;
            case 12: ok = ilConvertImage(IL_LUMINANCE, IL_UNSIGNED_BYTE); convc(IL_LUMINANCE); lum = true; break;
            }
            auto e = errors(); if (!ok || !e.empty()) { fail("step %d (%s): refused", st, N[o].c_str()); break; }
            ILuint sel = cur; int ni = 0; for (size_t i = 0; i < m.size(); i++) { ilBindImage(n); if (i) ilActiveImage(i); Img g = snap(); if (!i) ni = g.nimg; eval(); if (g.w != m[i].w || g.h != m[i].h || g.format != (int)m[i].f || g.data.size() != m[i].d.size()) { fail("step %d (%s): image %zu is %s", st, N[o].c_str(), i, g.desc().c_str()); break; }
                for (size_t b = 0; b < g.data.size(); b++) if (std::abs(g.data[b] - m[i].d[b]) > (lum || o < 5 ? 1 : 0)) { fail("step %d (%s): image %zu sample %zu is %d, not %d", st, N[o].c_str(), i, b, g.data[b], m[i].d[b]); break; } if (nfails()) break; m[i].d = g.data; }
            if (!nfails() && ni != (int)m.size() - 1) fail("step %d (%s): %d sub-images", st, N[o].c_str(), ni);
            if (nfails()) break; ilBindImage(n); if (sel) ilActiveImage(sel); drain(); }
        transition(s.size()); ilShutDown(); });
}
SUITE(large)   // more pixels than 16 bits count
{
    static const int L[][3] = { { 65537, 1, 1 }, { 1, 65537, 1 }, { 1, 1, 65537 }, { 301, 299, 1 } }; static auto K = kinds(false);
    batch("large", K.size() * 4 * 4, [](uint64_t q) { set_cpu_limit(60); const Kind& k = K[q % K.size()]; q /= K.size(); const int* d = L[q % 4]; q /= 4; note("large %d %s %dx%dx%d", (int)q, kn(k).c_str(), d[0], d[1], d[2]); if (q == 0) clearone(k, d, 0, CC[5], false); else if (q == 1) alpha(k, d, 0, .25, false); else if (q == 2) alpha(k, d, 0, 1, true); else getalpha(k, d, 0, IL_UNSIGNED_BYTE); });
}
