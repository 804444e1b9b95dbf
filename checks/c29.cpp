// C29: origin, format, type and palette policies of a load, and the default image of a failed one.
#include "corpus.h"
#include "files.h"
#include <unistd.h>
using namespace mc; using namespace ilx;
struct Pol { ILenum org, fmt, type; bool conv; };
static const ILenum PO[] = { 0, IL_ORIGIN_UPPER_LEFT, IL_ORIGIN_LOWER_LEFT };
static const ILenum PF[] = { 0, IL_RGB, IL_RGBA, IL_BGR, IL_BGRA, IL_LUMINANCE, IL_LUMINANCE_ALPHA };
static const ILenum PT[] = { 0, IL_BYTE, IL_UNSIGNED_BYTE, IL_SHORT, IL_UNSIGNED_SHORT, IL_INT, IL_UNSIGNED_INT, IL_FLOAT, IL_DOUBLE };
static const int NP = 3 * 7 * 9 * 2;
static Pol pol(int i) { Pol p; p.org = PO[i % 3]; i /= 3; p.fmt = PF[i % 7]; i /= 7; p.type = PT[i % 9]; i /= 9; p.conv = i; return p; }
static std::string pn(const Pol& p) { return mc::sfmt("origin %s, format %s, type %s%s", p.org == 0 ? "-" : p.org == IL_ORIGIN_UPPER_LEFT ? "upper" : "lower", p.fmt ? fname(p.fmt) : "-", p.type ? tname(p.type) : "-", p.conv ? ", true colour" : ""); }
// the mode is set even where the policy is off, to a value that would show
static void apply(const Pol& p, bool other)
{
    if (p.org) { ilOriginFunc(p.org); ilEnable(IL_ORIGIN_SET); } else ilOriginFunc(other ? IL_ORIGIN_UPPER_LEFT : IL_ORIGIN_LOWER_LEFT);
    if (p.fmt) { ilFormatFunc(p.fmt); ilEnable(IL_FORMAT_SET); } else ilFormatFunc(other ? IL_LUMINANCE : IL_RGBA);
    if (p.type) { ilTypeFunc(p.type); ilEnable(IL_TYPE_SET); } else ilTypeFunc(other ? IL_FLOAT : IL_SHORT);
    if (p.conv) ilEnable(IL_CONV_PAL); drain();
}
static bool bytewide(ILenum t) { return t == IL_UNSIGNED_BYTE || t == IL_BYTE; }
static std::string one(const Img& a, const Img& b, const Pol& p)
{
    eval(4); ILenum wo = p.org ? p.org : a.origin; if (b.origin != wo) return mc::sfmt("origin 0x%x, expected 0x%x", b.origin, wo);
    ILenum wt = p.type ? p.type : a.type; if (b.type != wt) return mc::sfmt("type %s, expected %s", tname(b.type), tname(wt));
    if (p.fmt) { if (b.format != p.fmt) return mc::sfmt("format %s, expected %s", fname(b.format), fname(p.fmt)); }
    else if (a.format == IL_COLOUR_INDEX && (p.conv || !bytewide(wt))) { if (b.format != IL_RGB && b.format != IL_BGR && b.format != IL_RGBA && b.format != IL_BGRA) return mc::sfmt("format %s, expected true colour", fname(b.format)); bool al = a.paltype == IL_PAL_RGBA32 || a.paltype == IL_PAL_BGRA32; if (al && !conv::hasalpha(b.format)) return "the palette's alpha is lost"; }
    else if (b.format != a.format) return mc::sfmt("format %s, expected %s", fname(b.format), fname(a.format));
    if (a.w != b.w || a.h != b.h || a.d != b.d) return "dimensions differ"; if (a.dur != b.dur || a.offx != b.offx || a.offy != b.offy || a.cube != b.cube) return "attributes differ";
    if (b.format == a.format && b.type == a.type) { if (a.palcols != b.palcols || a.paltype != b.paltype || a.pal != b.pal) return "palette differs"; int n = a.bpp * a.bpc; for (int z = 0; z < a.d; z++) for (int y = 0; y < a.h; y++) for (int x = 0; x < a.w; x++) if (memcmp(a.at(x, y, z), b.at(x, y, z), n)) return mc::sfmt("pixel %d,%d,%d differs", x, y, z); return ""; }
    if (b.format == IL_COLOUR_INDEX) { if (a.palcols != b.palcols || a.paltype != b.paltype || a.pal != b.pal) return "palette differs"; for (int z = 0; z < a.d; z++) for (int y = 0; y < a.h; y++) for (int x = 0; x < a.w; x++) if (*a.at(x, y, z) != *b.at(x, y, z)) return mc::sfmt("index %d,%d,%d differs", x, y, z); return ""; }
    if (b.palcols || b.pal.size()) return "a true-colour image has a palette";
    int nb = channels(b.format);
    for (int z = 0; z < a.d; z++) for (int y = 0; y < a.h; y++) for (int x = 0; x < a.w; x++) { conv::Px q = conv::decode(a.at(x, y, z), a.format, a.type, &a.pal, a.paltype); for (int c = 0; c < nb; c++) { conv::Range r = conv::expect(q, b.format, b.type, c); const uint8_t* s = b.at(x, y, z) + c * b.bpc; if (!conv::fits(r, s, b.type)) return mc::sfmt("pixel %d,%d,%d channel %d is %g, expected %g..%g", x, y, z, c, conv::raw(s, b.type), r.lo, r.hi); } }
    return "";
}
static std::string cmp(const Tree& a, const Tree& b, const Pol& p, const std::string& at = "image")
{
    std::string s = one(a.img, b.img, p); if (!s.empty()) return at + ": " + s;
    struct Q { const std::vector<Tree>&x, &y; const char* n; } qs[] = { { a.mips, b.mips, "mipmap" }, { a.imgs, b.imgs, "sub-image" }, { a.lays, b.lays, "layer" }, { a.faces, b.faces, "face" } };
    for (auto& q : qs) { if (q.x.size() != q.y.size()) return mc::sfmt("%s: %zu %ss, expected %zu", at.c_str(), q.y.size(), q.n, q.x.size()); for (size_t i = 0; i < q.x.size(); i++) { s = cmp(q.x[i], q.y[i], p, at + mc::sfmt(" %s %zu", q.n, i + 1)); if (!s.empty()) return s; } }
    return "";
}
static ILuint nm;
static void boot() { set_cpu_limit(60); ilShutDown(); init(); ilGenImages(1, &nm); ilBindImage(nm); drain(); }
// 0 lump, 1 handle, 2 name and type, 3 name only
static ILboolean load(const corpus::E& e, int how)
{
    if (how == 0) return ilLoadL(e.type, e.b.data(), e.b.size()); std::string n = workdir() + "/f." + e.ext; writefile(n, e.b); ILboolean r;
    if (how == 1) { FILE* f = fopen(n.c_str(), "rb"); r = ilLoadF(e.type, f); fclose(f); } else r = how == 2 ? ilLoad(e.type, n.c_str()) : ilLoadImage(n.c_str()); remove(n.c_str()); return r;
}
static const std::vector<corpus::E>& C() { static std::vector<corpus::E> v; if (v.size()) return v; for (auto& e : corpus::all(thorough)) if (e.type != IL_CUT) v.push_back(e); for (int cube = 0; cube < 2; cube++) { files::Dds d; d.w = d.h = 4; d.bits = 24; d.flags = 0x40; d.r = 0xff0000; d.g = 0xff00; d.b = 0xff; d.mips = 3; if (cube) d.caps2 = 0xfe00; v.push_back({ cube ? "cube map" : "mipmaps", IL_DDS, "dds", files::dds(d, pattern((16 + 4 + 1) * 3 * (cube ? 6 : 1), 9)), true }); } return v; }
SUITE(files)
{
    batch("policy", C().size() * 2, [](uint64_t q) {
        const corpus::E& e = C()[q / 2]; int other = q & 1; note("%s%s", e.name.c_str(), other ? " (other modes)" : ""); boot(); if (!load(e, 0)) return; drain(); Tree ref = snaptree(nm); errors();
        const Tree ref0 = ref; for (int i = 0; i < NP; i += e.hand && !thorough ? 4 : 1) { Pol p = pol(i); ref = ref0; int how = thorough ? -1 : (i / 3 + i) % 4; for (int k = how < 0 ? 0 : how; k < (how < 0 ? 4 : how + 1); k++) { boot(); apply(p, other); ILboolean r = load(e, k); auto er = errors(); transition(); if (!r) { fail("%s: channel %d: the load fails (%s)", pn(p).c_str(), k, er.empty() ? "no error" : ename(er[0]).c_str()); return; } if (!er.empty()) { fail("%s: error %s", pn(p).c_str(), ename(er[0]).c_str()); return; } if ((ILuint)ilGetInteger(IL_CUR_IMAGE) != nm || ilGetInteger(IL_ACTIVE_IMAGE)) { fail("another image is selected"); return; }
            Tree t = snaptree(nm); if (e.type == IL_RAW && p.org) ref.img.origin = p.org; std::string s = cmp(ref, t, p); if (!s.empty()) { fail("%s: channel %d: %s", pn(p).c_str(), k, s.c_str()); return; } if (errors().size()) { fail("errors"); return; } outcome(t.hash()); } }
    });
}
// Raw files do not say how they are oriented: the origin policy does.
// every small tree of images, delivered by a registered handler
static int shape[5];
static bool def(int w, int h, int salt)
{
    ILenum o = salt & 1 ? IL_ORIGIN_LOWER_LEFT : IL_ORIGIN_UPPER_LEFT; static const struct { ILenum f, t; } M[] = { { IL_RGB, IL_UNSIGNED_BYTE }, { IL_COLOUR_INDEX, IL_UNSIGNED_BYTE }, { IL_BGRA, IL_UNSIGNED_BYTE }, { IL_LUMINANCE, IL_UNSIGNED_SHORT }, { IL_RGBA, IL_FLOAT } }; auto m = M[salt % 5];
    if (m.f == IL_COLOUR_INDEX) { Bytes ix = pattern(w * h, salt); for (auto& x : ix) x %= 9; return mkpal(w, h, salt & 2 ? IL_PAL_BGRA32 : IL_PAL_RGB24, 9, ix.data(), pattern(9 * 4, salt + 1).data(), o); }
    return mk(w, h, 1, m.f, m.t, typed_pattern(w * h * channels(m.f), m.t, salt).data(), o);
}
static int salt0;
static ILenum ILAPIENTRY handler(ILconst_string) 
{
    ILuint n = ilGetInteger(IL_CUR_IMAGE); int s = salt0; auto at = [&](int img, int face, int lay) { ilBindImage(n); if (img) ilActiveImage(img); if (face) ilActiveFace(face); if (lay) ilActiveLayer(lay); };
    if (!def(4, 3, s++)) return IL_INVALID_VALUE; 
    // sub-images, then on every one of them faces, layers and mipmaps
    if (shape[0]) ilCreateSubImage(IL_SUB_NEXT, shape[0]);
    for (int i = 0; i <= shape[0]; i++) { at(i, 0, 0); if (i) def(3 + i, 2, s++); if (shape[1]) ilCreateSubImage(IL_SUB_LAYER, shape[1]);
        for (int l = 0; l <= shape[1]; l++) { at(i, 0, l); if (l) def(2, 2 + l, s++); if (shape[2]) ilCreateSubImage(IL_SUB_MIPMAP, shape[2]); for (int m = 1; m <= shape[2]; m++) { at(i, 0, l); ilActiveMipmap(m); def(2, 1, s++); } } }
    ilBindImage(n); drain(); return IL_NO_ERROR;
}
SUITE(trees)
{
    batch("tree", 3 * 3 * 3 * 5, [](uint64_t q) {
        shape[0] = q % 3; q /= 3; shape[1] = q % 3; q /= 3; shape[2] = q % 3; q /= 3; salt0 = q; note("%d images, %d layers, %d mipmaps, first kind %d", shape[0], shape[1], shape[2], salt0); boot(); ilRegisterLoad("tree", handler); std::string f = workdir() + "/x.tree"; writefile(f, Bytes(4)); if (!ilLoadImage(f.c_str())) { fail("plain: %s", ename(firsterr()).c_str()); return; } drain(); Tree ref = snaptree(nm); errors();
        for (int i = 0; i < NP; i++) { Pol p = pol(i); boot(); ilRegisterLoad("tree", handler); apply(p, i & 1); if (!ilLoadImage(f.c_str())) { fail("%s: fails (%s)", pn(p).c_str(), ename(firsterr()).c_str()); return; } drain(); transition(); if ((ILuint)ilGetInteger(IL_CUR_IMAGE) != nm) { fail("another image is bound"); return; } Tree t = snaptree(nm); std::string s = cmp(ref, t, p); if (!s.empty()) { fail("%s: %s", pn(p).c_str(), s.c_str()); return; } outcome(t.hash()); }
        remove(f.c_str());
    });
}
SUITE(inside)   // a load into a selected sub-image, mipmap or layer touches only that
{
    batch("sub", C().size() * 3 * 4, [](uint64_t q) {
        int where = q % 3; q /= 3; int pk = q % 4; const corpus::E& e = C()[q / 4]; if (e.frames > 1 || (e.hand && !thorough)) return; note("%s into %s, policy %d", e.name.c_str(), where == 0 ? "sub-image 2" : where == 1 ? "mipmap 2" : "layer 2", pk); Pol p = pol(pk == 0 ? 0 : pk == 1 ? 2 : pk == 2 ? 1 + 3 * 4 : 1 + 3 * 5 + 21 * 7); if (pk == 3) p.conv = true;
        boot(); if (!load(e, 0)) return; drain(); Tree ref = snaptree(nm); boot(); mk(3, 2, 1, IL_RGB, IL_UNSIGNED_BYTE, pattern(18, 1).data()); ilCreateSubImage(where == 0 ? IL_SUB_NEXT : where == 1 ? IL_SUB_MIPMAP : IL_SUB_LAYER, 2); Tree before;
        ilBindImage(nm); before = snaptree(nm); auto sel = [&] { ilBindImage(nm); return where == 0 ? ilActiveImage(2) : where == 1 ? ilActiveMipmap(2) : ilActiveLayer(2); }; if (!sel()) { fail("selection"); return; } drain(); apply(p, 0);
        ILboolean r = load(e, q % 4); auto er = errors(); transition(); if (!r) { fail("fails: %s", er.empty() ? "no error" : ename(er[0]).c_str()); return; } if (e.type == IL_RAW && p.org) ref.img.origin = p.org; Img now = snap(); std::string s = one(ref.img, now, p); if (!s.empty()) { fail("the selected image: %s", s.c_str()); return; }
        Tree t = snaptree(nm); eval(2); t.img.nmip = before.img.nmip; t.img.nlay = before.img.nlay; if (t.img != before.img) { fail("the base image changed: %s", before.img.diff(t.img).c_str()); return; } if (where == 0) { if (t.imgs.size() != 2 || t.imgs[0] != before.imgs[0]) { fail("the other sub-images changed"); return; } s = cmp(ref, t.imgs[1], p); } else { auto& v = where == 1 ? t.mips : t.lays; if (v.size() < 2) s = "the chain was cut"; else { Tree x = v[1]; auto& w = where == 1 ? x.mips : x.lays; w.assign(v.begin() + 2, v.end()); s = cmp(ref, x, p); } } if (!s.empty()) fail("%s", s.c_str()); outcome(t.hash());
    });
}
// the default image: 64x64, squares of 8 in two colours
static std::string isdefault(const Tree& t, const Pol& p)
{
    Tree d; ILuint n; ilGenImages(1, &n); ilBindImage(n); ilDefaultImage(); d = snaptree(n); ilBindImage(nm); ilDeleteImages(1, &n); eval(3); if (d.img.w != 64 || d.img.h != 64) return "ilDefaultImage does not give 64x64";
    for (int y = 0; y < 64; y++) for (int x = 0; x < 64; x++) if (memcmp(d.img.at(x, y, 0), d.img.at((x / 8 + y / 8) % 2 ? 8 : 0, 0, 0), 3)) return "ilDefaultImage is not a checkerboard"; if (!memcmp(d.img.at(0, 0, 0), d.img.at(8, 0, 0), 3)) return "ilDefaultImage has one colour";
    return cmp(d, t, p);
}
SUITE(failing)
{
    batch("default", C().size() * 5 * 3 * 2, [](uint64_t q) {
        bool on = q & 1; q /= 2; int pk = q % 3; q /= 3; int kind = q % 5; corpus::E e = C()[q / 5]; if (e.hand && !thorough && (pk || kind > 2)) return; Pol p = pol(pk == 0 ? 0 : pk == 1 ? 1 + 3 * 2 : 2 + 3 * 5 + 21 * 8); note("%s case %d policy %d default %d", e.name.c_str(), kind, pk, on);
        if (kind == 0) e.b.resize(e.b.size() / 2); else if (kind == 1) { for (auto& x : e.b) x = 0x11; } else if (kind == 2) e.type = IL_PAL_RGB24; 
        boot(); mk(3, 2, 1, IL_RGB, IL_UNSIGNED_BYTE, pattern(18, 1).data()); drain(); apply(p, 0); if (on) ilEnable(IL_DEFAULT_ON_FAIL); ILboolean r;
        if (kind == 3) r = ilLoad(e.type, (workdir() + "/none." + e.ext).c_str()); else if (kind == 4) r = ilLoadImage((workdir() + "/none.zzz").c_str()); else r = load(e, q % 3); auto er = errors(); transition();
        if (r) return; if (er.empty()) { fail("fails without an error"); return; } if ((ILuint)ilGetInteger(IL_CUR_IMAGE) != nm) { fail("another image is bound"); return; } Tree t = snaptree(nm); std::string s = isdefault(t, p); if (on && !s.empty()) { fail("not the default image: %s", s.c_str()); return; } if (!on && s.empty()) { fail("the default image was delivered unasked"); return; }
        outcome(t.hash()); errors(); if (C()[q / 5].type == e.type) { boot(); }
    });
    // raw data follows the same rules
    batch("raw data", 3 * 3 * 2 * NP, [](uint64_t q) {
        int i = q % NP; q /= NP; int bpp = q % 3 == 0 ? 1 : q % 3 == 1 ? 3 : 4; q /= 3; int how = q % 3; q /= 3; bool shrt = q; Pol p = pol(i); note("%d bytes per pixel by %s %s%s", bpp, how == 0 ? "lump" : how == 1 ? "handle" : "name", pn(p).c_str(), shrt ? ", too short" : ""); boot(); Bytes b = pattern(3 * 2 * 2 * bpp, 7); apply(p, 0); ilEnable(IL_DEFAULT_ON_FAIL); drain(); if (shrt) b.pop_back(); ILboolean r; std::string n = workdir() + "/d";
        if (how == 0) r = ilLoadDataL(b.data(), b.size(), 3, 2, 2, bpp); else { writefile(n, b); if (how == 1) { FILE* f = fopen(n.c_str(), "rb"); r = ilLoadDataF(f, 3, 2, 2, bpp); fclose(f); } else r = ilLoadData(n.c_str(), 3, 2, 2, bpp); remove(n.c_str()); } auto er = errors(); transition(); if (r != !shrt) { fail("returns %d (%s)", r, er.empty() ? "-" : ename(er[0]).c_str()); return; }
        Tree t = snaptree(nm); if (shrt) { if (er.empty()) { fail("no error"); return; } std::string s = isdefault(t, p); if (!s.empty()) fail("%s", s.c_str()); return; }
        if (er.size()) { fail("error %s", ename(er[0]).c_str()); return; } boot(); mk(3, 2, 2, bpp == 1 ? IL_LUMINANCE : bpp == 3 ? IL_RGB : IL_RGBA, IL_UNSIGNED_BYTE, b.data(), IL_ORIGIN_UPPER_LEFT); Tree ref = snaptree(nm); std::string s = cmp(ref, t, p); if (!s.empty()) { fail("%s", s.c_str()); return; }
        // and back
        if (i == 0) { remove(n.c_str()); if (!ilSaveData(n.c_str())) { fail("ilSaveData: %s", ename(firsterr()).c_str()); return; } if (readfile(n) != b) fail("ilSaveData writes something else"); remove(n.c_str()); } outcome(t.hash());
    });
}
