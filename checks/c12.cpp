// C12: content detection, validity tests and extension lookup, over every channel.
#include "corpus.h"
#include "files.h"
#include "vfs.h"
using namespace mc; using namespace ilx;
// types with content detection, in the order of the interface
static const struct { ILenum t; const char* ext; } VT[] = { { IL_BLP, "blp" }, { IL_BMP, "bmp" }, { IL_DDS, "dds" }, { IL_DICOM, "dcm" }, { IL_GIF, "gif" }, { IL_HDR, "hdr" }, { IL_ICNS, "icns" }, { IL_ILBM, "lbm" }, { IL_IWI, "iwi" }, { IL_JPG, "jpg" }, { IL_LIF, "lif" }, { IL_MDL, "mdl" }, { IL_MP3, "mp3" }, { IL_PCX, "pcx" }, { IL_PIC, "pic" }, { IL_PNG, "png" }, { IL_PNM, "pnm" }, { IL_PSD, "psd" }, { IL_PSP, "psp" }, { IL_SCITEX, "ct" }, { IL_SGI, "sgi" }, { IL_SUN, "sun" }, { IL_TGA, "tga" }, { IL_TIF, "tif" }, { IL_TPL, "tpl" }, { IL_VTF, "vtf" }, { IL_XPM, "xpm" } };
static const int NV = sizeof VT / sizeof *VT;
// could these bytes be of this type at all? From the published signatures.
static bool may(const Bytes& b, ILenum t)
{
    auto at = [&](size_t o, const char* s, size_t n) { return b.size() >= o + n && !memcmp(&b[o], s, n); }; auto ci = [&](const char* s) { size_t n = strlen(s); if (b.size() < n) return false; for (size_t i = 0; i < n; i++) if (toupper(b[i]) != s[i]) return false; return true; };
    switch (t) {
    case IL_JPG: return at(0, "\xff\xd8", 2); case IL_DDS: return at(0, "DDS ", 4) && b.size() >= 128 && (at(4, "\x7c\0\0\0", 4) || at(4, "DDS ", 4)) && at(76, "\x20\0\0\0", 4) && (b[12] || b[13] || b[14] || b[15]) && (b[16] || b[17] || b[18] || b[19]); case IL_PNG: return at(0, "\x89PNG\r\n\x1a\n", 8); case IL_BMP: return at(0, "BM", 2) && b.size() >= 18; case IL_BLP: return at(0, "BLP2\1\0\0\0", 8); case IL_GIF: return ci("GIF87A") || ci("GIF89A"); case IL_HDR: return ci("#?RADIANCE") || (ci("#?RGBE") && b.size() >= 10);
    case IL_ICNS: return at(0, "icns", 4); case IL_IWI: return at(0, "IWi\x05", 4) || at(0, "IWi\x06", 4); case IL_ILBM: return at(0, "FORM", 4) && (at(8, "ILBM", 4) || at(8, "PBM ", 4)); case IL_LIF: return at(0, "Willy 7\0", 8); case IL_MDL: return at(0, "IDST\x0a\0\0\0", 8); case IL_MP3: return at(0, "ID3", 3); case IL_PCX: return b.size() >= 128 && b[0] == 10 && b[2] == 1 && b[1] <= 5 && b[1] != 1;
    case IL_PIC: return at(0, "\x53\x80\xf6\x34", 4); case IL_PNM: return b.size() >= 2 && b[0] == 'P' && b[1] >= '1' && b[1] <= '7'; case IL_PSD: return at(0, "8BPS\0\1\0\0\0\0\0\0", 12) && b.size() >= 26 && (b[12] || b[13]) && (b[14] || b[15] || b[16] || b[17]) && (b[18] || b[19] || b[20] || b[21]) && !b[22] && (b[23] == 1 || b[23] == 8 || b[23] == 16 || b[23] == 32); case IL_PSP: return ci("PAINT SHOP PRO IMAGE FILE\n\x1a") && b.size() >= 36 && b[32] >= 3 && b[32] <= 5 && !b[33]; case IL_SGI: return at(0, "\x01\xda", 2) && b.size() >= 512 && b[2] <= 1 && b[3] && (b[6] || b[7]) && (b[8] || b[9]) && (b[10] || b[11]); case IL_SCITEX: return at(80, "CT", 2); case IL_SUN: return at(0, "\x59\xa6\x6a\x95", 4) && b.size() >= 32 && !b[12] && !b[13] && !b[14] && (b[15] == 1 || b[15] == 8 || b[15] == 24 || b[15] == 32) && !b[20] && !b[21] && !b[22] && b[23] <= 5;
    case IL_TIF: return at(0, "II*\0", 4) || at(0, "MM\0*", 4); case IL_TPL: return at(0, "\0\x20\xaf\x30", 4); case IL_VTF: return at(0, "VTF\0\7\0\0\0", 8) && b.size() >= 63 && b[8] <= 5 && !b[9] && !b[10] && !b[11] && (b[16] || b[17]) && (b[18] || b[19]); case IL_XPM: return at(0, "/* XPM */", 9); case IL_DICOM: return at(128, "DICM", 4); case IL_KTX: return at(0, "\xABKTX 11\xBB\r\n\x1A\n", 12);
    case IL_TGA: { if (b.size() < 18) return false; static const int T[] = { 0, 1, 2, 3, 9, 10, 11 }; bool ok = false; for (int x : T) ok |= b[2] == x; int d = b[16]; return ok && (b[12] || b[13]) && (b[14] || b[15]) && (d == 8 || d == 15 || d == 16 || d == 24 || d == 32); }
    default: return false;
    }
}
static ILuint nm; static Tree before;
static void boot() { set_cpu_limit(60); ilShutDown(); init(); vfs::reset(); vfs::fs().clear(); ilGenImages(1, &nm); ilBindImage(nm); mk(3, 2, 1, IL_RGB, IL_UNSIGNED_BYTE, pattern(18, 3).data()); ilCreateSubImage(IL_SUB_NEXT, 1); ilActiveImage(1); drain(); }
static const long OFF[] = { 0, 7, 200 };
// every channel says the same; the result is returned
static bool detect(const Bytes& b, ILenum& T, bool names)
{
    Bytes x(b); uint8_t* p = (uint8_t*)malloc(b.size() ? b.size() : 1); if (b.size()) memcpy(p, b.data(), b.size()); T = ilDetermineTypeL(p, b.size()); std::vector<int> v; for (auto& t : VT) v.push_back(ilIsValidL(t.t, p, b.size())); bool same = b.empty() || !memcmp(p, b.data(), b.size()); free(p); drain(); eval(2); transition(); if (!same) return fail("the lump was changed");
    if (T != IL_TYPE_UNKNOWN && !may(b, T)) return fail("detected as type 0x%x without its signature", T); for (int i = 0; i < NV; i++) { eval(); if (v[i] && !may(b, VT[i].t)) return fail("valid %s without its signature", VT[i].ext); if (VT[i].t == T && !v[i]) return fail("detected as %s, but not valid", VT[i].ext); if (v[i] && T == IL_TYPE_UNKNOWN && VT[i].t != IL_DICOM) return fail("valid %s, but not detected", VT[i].ext); }
    for (long o : OFF) { if (o && !names) continue; Bytes c = pattern(o, 55); c.insert(c.end(), b.begin(), b.end()); std::string n = workdir() + "/d"; writefile(n, c); FILE* f = fopen(n.c_str(), "rb"); fseek(f, o, SEEK_SET); ILenum t = ilDetermineTypeF(f); eval(2); if (ftell(f) != o) { fclose(f); return fail("ilDetermineTypeF moved the handle from %ld", o); } if (t != T) { fclose(f); return fail("the handle at %ld is 0x%x, the lump 0x%x", o, t, T); }
        for (int i = 0; i < NV; i++) { int r = ilIsValidF(VT[i].t, f); eval(2); if (ftell(f) != o) { fclose(f); return fail("ilIsValidF(%s) moved the handle from %ld to %ld", VT[i].ext, o, (long)ftell(f)); } if (r != v[i]) { fclose(f); return fail("handle at %ld is%s valid %s, the lump is%s", o, r ? "" : " not", VT[i].ext, v[i] ? "" : " not"); } } fclose(f); remove(n.c_str()); drain();
        // through callbacks
        vfs::reset(); vfs::install(); vfs::fs()["c"] = c; vfs::H* h = vfs::make("c", o, false); t = ilDetermineTypeF(h); eval(2); std::string bad; if (h->pos != o) bad = "moved"; if (t != T) bad = mc::sfmt("is 0x%x, the lump 0x%x", t, T); for (int i = 0; bad.empty() && i < NV; i++) { int r = ilIsValidF(VT[i].t, h); if (h->pos != o || r != v[i]) bad = mc::sfmt("%s: %s", VT[i].ext, r != v[i] ? "disagrees" : "moved"); } if (bad.empty()) bad = vfs::verdict(); vfs::reset(); vfs::fs().clear(); ilResetRead(); ilResetWrite(); drain(); if (!bad.empty()) return fail("callback handle at %ld %s", o, bad.c_str()); }
    if (names) { for (int i = 0; i < NV; i++) { std::string n = workdir() + "/n." + VT[i].ext; writefile(n, b); ILenum t = ilDetermineType(n.c_str()); int r = ilIsValid(VT[i].t, n.c_str()); remove(n.c_str()); drain(); eval(2); if (t != T) return fail("the file is 0x%x, the lump 0x%x", t, T); if (r != v[i]) return fail("the file is%s valid %s, the lump is%s", r ? "" : " not", VT[i].ext, v[i] ? "" : " not"); } }
    return true;
}
static bool untouched() { if ((ILuint)ilGetInteger(IL_CUR_IMAGE) != nm || ilGetInteger(IL_ACTIVE_IMAGE) != 1) return fail("another image is selected"); Tree t = snaptree(nm); ilActiveImage(1); eval(2); if (t != before) return fail("the current image changed: %s", before.diff(t).c_str()); return true; }
static void begin() { boot(); before = snaptree(nm); ilActiveImage(1); drain(); }
static const std::vector<corpus::E>& C() { static std::vector<corpus::E> v; if (v.empty()) v = corpus::all(thorough); return v; }
SUITE(written)
{
    batch("file", C().size(), [](uint64_t q) { const corpus::E& e = C()[q]; note("%s", e.name.c_str()); begin(); ILenum T; if (!detect(e.b, T, true)) return; if (e.sig && T != e.type) { fail("detected as 0x%x", T); return; } if (e.type == IL_TGA && T != IL_TGA) { fail("a Targa file is detected as 0x%x", T); return; } untouched(); outcome(T);
        // content wins over the name
        if (e.sig) { std::string n = workdir() + "/wrong.xyz"; writefile(n, e.b); ILboolean r = ilLoadImage(n.c_str()); remove(n.c_str()); drain(); eval(); if (!r) fail("a file of an unknown extension is not loaded by content"); } });
    batch("cut", C().size(), [](uint64_t q) { const corpus::E& e = C()[q]; if (e.hand && !e.sig && !thorough) return; note("%s", e.name.c_str()); begin(); for (size_t n = 0; n <= e.b.size() && n < (thorough ? 4000 : e.hand ? 48 : 400); n++) { Bytes b(e.b.begin(), e.b.begin() + n); ILenum T; if (!detect(b, T, n < 40)) { step("cut to %zu bytes", n); return; } if (n == 0 && T != IL_TYPE_UNKNOWN) { fail("nothing is detected as 0x%x", T); return; } outcome(T * 64 + (n < 64 ? n : 64)); } untouched(); });
}
SUITE(bytes)
{
    batch("one and two bytes", 257, [](uint64_t q) { note("%d..", (int)q); begin(); ILenum T; if (q == 256) { for (int i = 0; i < 256; i++) { if (!detect(Bytes(1, i), T, true)) { step("%02x", i); return; } } untouched(); return; } for (int i = 0; i < 256; i++) { if (!detect(Bytes{ (uint8_t)q, (uint8_t)i }, T, false)) { step("%02x %02x", (int)q, i); return; } outcome(T); } untouched(); });
    // every byte of every signature and header changed
    static const int POS = thorough ? 140 : 32;
    static std::vector<size_t> first; first.clear(); for (size_t i = 0; i < C().size(); i++) { bool have = false; for (size_t j : first) have |= C()[j].type == C()[i].type; if (C()[i].hand && !C()[i].sig) have = true; if (!have || thorough) first.push_back(i); }
    batch("changed byte", first.size() * POS, [](uint64_t q) { const corpus::E& e = C()[first[q / POS]]; size_t p = q % POS; if (p >= e.b.size() || (e.hand && !thorough && (p % 2 || !e.sig))) return; note("%s byte %zu", e.name.c_str(), p); begin(); for (int v = 0; v < 256; v += thorough ? 1 : e.hand ? 17 : 3) { Bytes b = e.b; b[p] ^= v; ILenum T; if (!detect(b, T, v < 2)) { step("xor %02x", v); return; } outcome(T * 64 + p); } untouched(); });
    batch("constant", 256 * 2, [](uint64_t q) { note("%02x x %d", (int)(q / 2), q & 1 ? 4096 : 64); begin(); ILenum T; detect(Bytes(q & 1 ? 4096 : 64, q / 2), T, true); untouched(); outcome(T); });
    batch("nothing", 1, [](uint64_t) { begin(); ILenum T = ilDetermineTypeL(0, 0); if (T) fail("a null lump is 0x%x", T); T = ilDetermineTypeF(0); if (T) fail("a null handle is 0x%x", T); T = ilDetermineType(0); if (T) fail("a null name is 0x%x", T); T = ilDetermineType((workdir() + "/none.png").c_str()); if (T) fail("a missing file is 0x%x", T); T = ilTypeFromExt(0); if (T) fail("null"); T = ilTypeFromExt(""); if (T) fail("empty"); for (auto& t : VT) { if (ilIsValid(t.t, 0) || ilIsValidF(t.t, 0) || ilIsValidL(t.t, 0, 0) || ilIsValid(t.t, (workdir() + "/none." + t.ext).c_str())) fail("%s", t.ext); } drain(); for (ILenum t = 0; t < 0x1000; t++) { bool known = t == IL_EXR || t == IL_JP2 || t == IL_KTX; for (auto& x : VT) known |= x.t == t; if (known) continue; ILubyte b[64] = { 0 }; errors(); int r = ilIsValidL(t, b, 64) | ilIsValidF(t, stdin); auto e = errors(); eval(); if (r) fail("type 0x%x is valid", t); if (e.size() != 2 || e[0] != IL_INVALID_ENUM) { fail("type 0x%x: %zu errors", t, e.size()); return; } } untouched(); });
}
static const struct { const char* ext; ILenum t; } EX[] = { { "tga", IL_TGA }, { "vda", IL_TGA }, { "icb", IL_TGA }, { "vst", IL_TGA }, { "jpg", IL_JPG }, { "jpe", IL_JPG }, { "jpeg", IL_JPG }, { "jif", IL_JPG }, { "jfif", IL_JPG }, { "jp2", IL_JP2 }, { "jpx", IL_JP2 }, { "j2k", IL_JP2 }, { "j2c", IL_JP2 }, { "dds", IL_DDS }, { "png", IL_PNG }, { "bmp", IL_BMP }, { "dib", IL_BMP }, { "gif", IL_GIF }, { "blp", IL_BLP }, { "cut", IL_CUT }, { "ch", IL_SCITEX }, { "ct", IL_SCITEX }, { "sct", IL_SCITEX }, { "dcx", IL_DCX }, { "dcm", IL_DICOM }, { "dicom", IL_DICOM }, { "dpx", IL_DPX }, { "exr", IL_EXR }, { "fit", IL_FITS }, { "fits", IL_FITS }, { "ftx", IL_FTX }, { "hdr", IL_HDR }, { "iff", IL_IFF }, { "ilbm", IL_ILBM }, { "lbm", IL_ILBM }, { "ham", IL_ILBM }, { "ico", IL_ICO }, { "cur", IL_ICO }, { "icns", IL_ICNS }, { "iwi", IL_IWI }, { "jng", IL_JNG }, { "ktx", IL_KTX }, { "lif", IL_LIF }, { "mdl", IL_MDL }, { "mng", IL_MNG }, { "mp3", IL_MP3 }, { "pcd", IL_PCD }, { "pcx", IL_PCX }, { "pic", IL_PIC }, { "pix", IL_PIX }, { "pbm", IL_PNM }, { "pgm", IL_PNM }, { "pnm", IL_PNM }, { "ppm", IL_PNM }, { "pam", IL_PNM }, { "psd", IL_PSD }, { "pdd", IL_PSD }, { "psp", IL_PSP }, { "pxr", IL_PXR }, { "raw", IL_RAW }, { "rot", IL_ROT }, { "sgi", IL_SGI }, { "bw", IL_SGI }, { "rgb", IL_SGI }, { "rgba", IL_SGI }, { "sun", IL_SUN }, { "ras", IL_SUN }, { "rs", IL_SUN }, { "im1", IL_SUN }, { "im8", IL_SUN }, { "im24", IL_SUN }, { "im32", IL_SUN }, { "texture", IL_TEXTURE }, { "tif", IL_TIF }, { "tiff", IL_TIF }, { "tpl", IL_TPL }, { "utx", IL_UTX }, { "vtf", IL_VTF }, { "wal", IL_WAL }, { "wbmp", IL_WBMP }, { "wdp", IL_WDP }, { "hdp", IL_WDP }, { "xpm", IL_XPM } };
static const int NEX = sizeof EX / sizeof *EX;
static std::string cased(const char* e, int m) { std::string s = e; for (size_t i = 0; i < s.size(); i++) if (m >> i & 1) s[i] = toupper(s[i]); return s; }
SUITE(names)
{
    static const char* PRE[] = { "x.", ".", "a.b.", "/no/dir.tga/x.", "C:\\dir.png\\x.", "x..", "x.bmp." };
    batch("lookup", NEX * 128 * 7, [](uint64_t q) { int p = q % 7; q /= 7; int m = q % 128; q /= 128; if (m >> strlen(EX[q].ext)) return; std::string n = PRE[p] + cased(EX[q].ext, m); note("%s", n.c_str()); if (m == 0) begin(); ILenum t = ilTypeFromExt(n.c_str()); eval(); drain(); if (t != EX[q].t) fail("type 0x%x, expected 0x%x", t, EX[q].t); outcome(t); });
    // everything else is unknown: every string of up to two (three) letters or digits that is not in the list
    static const char* AL = "abcdefghijklmnopqrstuvwxyz0123456789 _"; static const int NA = 38;
    batch("others", 1 + NA + NA * NA + NA * NA * NA, [](uint64_t q) { std::string e; uint64_t k = q; if (k == 0) ; else if (k <= NA) e = std::string(1, AL[k - 1]); else if ((k -= 1 + NA) < NA * NA) e = { AL[k / NA], AL[k % NA] }; else { k -= NA * NA; e = { AL[k / NA / NA], AL[k / NA % NA], AL[k % NA] }; } note("%s", e.c_str()); ILenum w = IL_TYPE_UNKNOWN; for (auto& x : EX) if (e == x.ext) w = x.t; if (q == 0) begin(); ILenum t = ilTypeFromExt(("x." + e).c_str()); drain(); eval(); if (t != w) fail("type 0x%x, expected 0x%x", t, w); t = ilTypeFromExt(e.c_str()); drain(); if (t) fail("a name without an extension is 0x%x", t); outcome(t); });
    // each name loads and saves as the type it stands for
    batch("load", NEX * 4, [](uint64_t q) { int m = q % 4 == 0 ? 0 : q % 4 == 1 ? 127 : q % 4 == 2 ? 1 : 0x55; const auto& x = EX[q / 4]; std::string ext = cased(x.ext, m), n = workdir() + "/l." + ext; note("%s", ext.c_str()); begin();
        for (auto& e : C()) if (e.type == x.t) { boot(); writefile(n, e.b); if (!ilLoadL(e.type, e.b.data(), e.b.size())) continue; Tree a = snaptree(nm); drain(); boot(); ILboolean r = ilLoadImage(n.c_str()); auto er = errors(); eval(2); transition(); if (!r) { fail("%s is not loaded: %s", e.name.c_str(), er.empty() ? "-" : ename(er[0]).c_str()); return; } Tree b = snaptree(nm); Tree c; boot(); r = ilLoad(IL_TYPE_UNKNOWN, n.c_str()); c = snaptree(nm); if (!r || a.hash() == 0) { fail("ilLoad"); return; } (void)b; if (b != c) { fail("ilLoad and ilLoadImage differ"); return; } outcome(b.hash()); }
        // a file of another type is not loaded under this name as something else than what the name or the content says
        remove(n.c_str()); boot(); ilBindImage(nm); mk(4, 4, 1, IL_RGB, IL_UNSIGNED_BYTE, pattern(48, 2).data()); drain(); ILboolean s = ilSaveImage(n.c_str()); drain(); Bytes b1 = readfile(n); remove(n.c_str()); if (s) { bool w = false; for (auto& f : saves::FM) w |= f.type == x.t; eval(2); transition(); if (!w) { fail("saved, though the type is not writable"); return; } ILboolean s2 = ilSave(x.t, n.c_str()); Bytes b2 = readfile(n); remove(n.c_str()); drain(); if (!s2 || b1 != b2) { fail("ilSaveImage writes another type than the name says"); return; } } else { bool w = false; for (auto& f : saves::FM) w |= f.type == x.t && !strcmp(f.ext, x.ext); if (w) fail("the plain name of a writable type is not saved"); } });
}
