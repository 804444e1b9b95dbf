// C28: initialisation and shutdown in any order; every restart is a fresh start; calls outside a session fail cleanly. Every case runs in a child process that starts uninitialised.
#include "calls.h"
#include <IL/ilut.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace mc; using namespace ilx; using namespace calls;
static std::string child(const std::function<std::string()>& f)
{
    int p[2]; if (pipe(p)) return "pipe"; pid_t k = fork();
    if (k == 0) { close(p[0]); std::string s = f(); size_t o = 0; while (o < s.size()) { ssize_t n = write(p[1], s.data() + o, s.size() - o); if (n <= 0) break; o += n; } _exit(0); }
    close(p[1]); std::string s; char b[4096]; ssize_t n; while ((n = read(p[0], b, sizeof b)) > 0) s.append(b, n); close(p[0]); int st; waitpid(k, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) return "\1" + (WIFSIGNALED(st) ? mc::sfmt("killed by signal %d", WTERMSIG(st)) : mc::sfmt("exit status %d", WEXITSTATUS(st)));
    return s;
}
static Bytes png, tga;      // made in a child so that this process never initialises the library
static std::string name1, name2;
// Everything an application can see of a freshly started library.
static std::string fingerprint()
{
    std::string r; auto put = [&](const char* k, const std::string& v) { r += std::string(k) + "=" + v + "\n"; };
    auto errs = [&](const char* k) { std::string s; for (ILenum e : errors()) s += mc::sfmt("%x ", e); put(k, s); };
    auto img = [&](const char* k) { put(k, snap().desc() + mc::sfmt(" %llx", (unsigned long long)snap().hash())); errs("errors"); };
    errs("pending errors"); put("current", mc::sfmt("%d", ilGetInteger(IL_CUR_IMAGE))); std::string is; for (ILuint i = 0; i < 40; i++) is += ilIsImage(i) ? '1' : '0'; put("names in use", is);
    img("scratch image"); ilBindImage(0); img("default image");
    for (ILenum e : { IL_ORIGIN_SET, IL_FORMAT_SET, IL_TYPE_SET, IL_FILE_OVERWRITE, IL_CONV_PAL, IL_DEFAULT_ON_FAIL, IL_USE_KEY_COLOUR, IL_BLIT_BLEND, IL_SAVE_INTERLACED }) put(mc::sfmt("enabled %x", e).c_str(), mc::sfmt("%d", ilIsEnabled(e)));
    for (ILenum e : { IL_ORIGIN_MODE, IL_FORMAT_MODE, IL_TYPE_MODE, IL_KEEP_DXTC_DATA, IL_DXTC_FORMAT, IL_JPG_QUALITY, IL_JPG_SAVE_FORMAT, IL_JPG_PROGRESSIVE, IL_PNG_INTERLACE, IL_TGA_RLE, IL_BMP_RLE, IL_SGI_RLE, IL_PCD_PICNUM, IL_QUANTIZATION_MODE, IL_NEU_QUANT_SAMPLE, IL_MAX_QUANT_INDICES, IL_TGA_CREATE_STAMP, IL_PNG_ALPHA_INDEX, IL_VTF_COMP, IL_NVIDIA_COMPRESS, IL_SQUISH_COMPRESS, IL_COMPRESS_MODE, IL_INTERLACE_MODE }) put(mc::sfmt("value %x", e).c_str(), mc::sfmt("%d", ilGetInteger(e)));
    for (ILenum e : { IL_VENDOR, IL_VERSION_NUM, IL_LOAD_EXT, IL_SAVE_EXT, IL_TGA_ID_STRING, IL_TGA_AUTHNAME_STRING, IL_TGA_AUTHCOMMENT_STRING, IL_PNG_AUTHNAME_STRING, IL_PNG_TITLE_STRING, IL_PNG_DESCRIPTION_STRING, IL_TIF_DESCRIPTION_STRING, IL_TIF_HOSTCOMPUTER_STRING, IL_TIF_DOCUMENTNAME_STRING, IL_TIF_AUTHNAME_STRING, IL_CHEAD_HEADER_STRING }) { const char* s = ilGetString(e); put(mc::sfmt("string %x", e).c_str(), s ? s : ""); }
    errs("errors"); int pops = 0; for (; pops < 40; pops++) { ilPopAttrib(); if (!errors().empty()) break; } put("attribute levels", mc::sfmt("%d", pops));
    for (ILenum e : { ILU_FILTER, ILU_PLACEMENT }) put(mc::sfmt("ilu %x", e).c_str(), mc::sfmt("%d", iluGetInteger(e))); const char* es = iluErrorString(IL_INVALID_ENUM); put("language", es ? es : "(null)"); errs("errors");
    for (ILenum e : { ILUT_PALETTE_MODE, ILUT_OPENGL_CONV, ILUT_FORCE_INTEGER_FORMAT, ILUT_GL_USE_S3TC, ILUT_GL_GEN_S3TC, ILUT_GL_AUTODETECT_TEXTURE_TARGET, ILUT_D3D_MIPLEVELS, ILUT_MAXTEX_WIDTH, ILUT_MAXTEX_HEIGHT, ILUT_MAXTEX_DEPTH, ILUT_S3TC_FORMAT }) put(mc::sfmt("ilut %x", e).c_str(), mc::sfmt("%d", ilutGetInteger(e))); pops = 0; for (; pops < 40; pops++) { ilutPopAttrib(); if (!errors().empty()) break; } put("ilut levels", mc::sfmt("%d", pops)); errs("errors");
    ILuint n[3] = { 0, 0, 0 }; ilGenImages(3, n); put("new names", mc::sfmt("%u %u %u", n[0], n[1], n[2])); ilBindImage(n[0]);
    ilLoadL(IL_PNG, png.data(), png.size()); img("png"); iluScale(7, 5, 1); img("scaled"); iluEnlargeCanvas(9, 9, 1); img("enlarged"); iluContrast(1.5f); img("contrast"); iluNegative(); img("negative"); ilConvertImage(IL_COLOUR_INDEX, IL_UNSIGNED_BYTE); img("quantised");
    ilBindImage(n[1]); ilLoadL(IL_TGA, tga.data(), tga.size()); img("tga"); ilClearImage(); img("cleared"); ilBindImage(n[2]); ilLoadImage(name1.c_str()); img("file"); ilLoadImage("x.qqq"); img("unknown file"); put("type", mc::sfmt("%x", ilTypeFromExt("a.qqq"))); errs("errors");
    { static const ILubyte K[] = { 255, 128, 64, 0, 0, 0, 255, 127, 63, 9, 8, 7 }; mk(4, 1, 1, IL_RGB, IL_UNSIGNED_BYTE, K); ilEnable(IL_USE_KEY_COLOUR); ilConvertImage(IL_RGBA, IL_UNSIGNED_BYTE); ilDisable(IL_USE_KEY_COLOUR); img("keyed"); }
    std::string f = name2; unlink(f.c_str()); put("saved", mc::sfmt("%d", ilSaveImage(f.c_str()))); put("again", mc::sfmt("%d", ilSaveImage(f.c_str()))); errs("errors"); Bytes b = readfile(f); put("bytes", mc::sfmt("%zu %llx", b.size(), (unsigned long long)fnv(b.data(), b.size()))); unlink(f.c_str());
    ilLoadL(IL_PNG, png.data(), 40); img("bad png"); ilBindImage(n[1]); ilDeleteImages(3, n); put("after delete", mc::sfmt("%d", ilGetInteger(IL_CUR_IMAGE))); img("now");
    return r;
}
static std::string fresh;
static void prepare()
{
    if (fresh.size()) return; 
    std::string d = child([] { init(); ILuint n; ilGenImages(1, &n); ilBindImage(n); mk(4, 3, 1, IL_RGB, IL_UNSIGNED_BYTE, pattern(36, 5).data()); bool ok; Bytes a = saveL(IL_PNG, &ok), b = saveL(IL_TGA, &ok); return mc::sfmt("%05zu", a.size()) + std::string(a.begin(), a.end()) + std::string(b.begin(), b.end()); });
    if (d.size() < 6) { fail("no files"); return; } int k = atoi(d.substr(0, 5).c_str()); png.assign(d.begin() + 5, d.begin() + 5 + k); tga.assign(d.begin() + 5 + k, d.end()); 
}
static std::string restart() { ilInit(); iluInit(); ilutInit(); return fingerprint(); }
static std::string differ(const std::string& a, const std::string& b) { size_t i = 0, n = 1; while (true) { size_t x = a.find('\n', i), y = b.find('\n', i); if (x == std::string::npos || y == std::string::npos) return "length"; std::string l = a.substr(i, x - i), m = b.substr(i, y - i); if (l != m) return mc::sfmt("line %zu: %s after a fresh start, %s here", n, l.c_str(), m.c_str()); i = x + 1; n++; } }
static void names() { name1 = workdir() + "/in.png"; name2 = workdir() + "/out.tga"; writefile(name1, png); }
static bool judge(const std::string& g)
{
    std::string fr = child([] { return restart(); }); eval(); if (fr[0] == 1) return fail("a fresh start: %s", fr.c_str() + 1);
    if (g[0] == 1) return fail("%s", g.c_str() + 1); if (g != fr) return fail("%s", differ(fr, g).c_str()); return true;
}
struct Op { std::string n; std::function<void()> f; };
static std::vector<Op> OP; static bool insession;   // handlers registered before ilInit stay: that is how an application may set up the library
static ILenum myload(ILconst_string) { ilTexImage(2, 2, 1, 3, IL_RGB, IL_UNSIGNED_BYTE, 0); return IL_NO_ERROR; }
static ILHANDLE ILAPIENTRY noopen(ILconst_string) { return 0; }
static void ILAPIENTRY noclose(ILHANDLE) {}
static ILboolean ILAPIENTRY noeof(ILHANDLE) { return IL_TRUE; }
static ILint ILAPIENTRY nogetc(ILHANDLE) { return IL_EOF; }
static ILint ILAPIENTRY noread(void*, ILuint, ILuint, ILHANDLE) { return 0; }
static ILint ILAPIENTRY noseek(ILHANDLE, ILint, ILint) { return 1; }
static ILint ILAPIENTRY notell(ILHANDLE) { return 0; }
static ILint ILAPIENTRY noputc(ILubyte, ILHANDLE) { return -1; }
static ILint ILAPIENTRY nowrite(const void*, ILuint, ILuint, ILHANDLE) { return 0; }
static void ops()
{
    if (OP.size()) return; auto o = [](const char* n, std::function<void()> f) { OP.push_back({ n, f }); };
    o("ilInit", [] { ilInit(); insession = true; }); o("iluInit", [] { iluInit(); }); o("ilutInit", [] { ilutInit(); }); o("ilShutDown", [] { ilShutDown(); insession = false; });
    o("images", [] { ILuint n[5]; ilGenImages(5, n); ilBindImage(n[2]); mk(4, 4, 1, IL_RGBA, IL_UNSIGNED_BYTE, pattern(64, 1).data()); iluBuildMipmaps(); ilCreateSubImage(IL_SUB_NEXT, 2); ilActiveImage(1); ilDeleteImages(1, n); ilBindImage(30); });
    o("draw on the scratch and default images", [] { ilBindImage(1); mk(3, 1, 1, IL_RGB, IL_UNSIGNED_BYTE, pattern(9, 1).data()); ilRegisterOrigin(IL_ORIGIN_UPPER_LEFT); ilBindImage(0); mk(2, 1, 1, IL_RGB, IL_UNSIGNED_BYTE, pattern(9, 1).data()); });
    o("state", [] { for (ILenum e : { IL_ORIGIN_SET, IL_FORMAT_SET, IL_TYPE_SET, IL_FILE_OVERWRITE, IL_CONV_PAL, IL_DEFAULT_ON_FAIL, IL_USE_KEY_COLOUR }) ilEnable(e); ilDisable(IL_BLIT_BLEND); ilSetInteger(IL_ORIGIN_MODE, IL_ORIGIN_UPPER_LEFT); ilOriginFunc(IL_ORIGIN_UPPER_LEFT); ilFormatFunc(IL_BGRA); ilTypeFunc(IL_FLOAT); ilSetInteger(IL_KEEP_DXTC_DATA, 1); ilSetInteger(IL_JPG_QUALITY, 5); ilSetInteger(IL_TGA_RLE, 1); ilSetInteger(IL_QUANTIZATION_MODE, IL_NEU_QUANT); ilSetInteger(IL_MAX_QUANT_INDICES, 17); ilSetInteger(IL_PNG_INTERLACE, 1); ilSetInteger(IL_VTF_COMP, IL_DXT5); ilKeyColour(1, 2, 3, 4); });
    o("strings", [] { ilSetString(IL_TGA_ID_STRING, "abc"); ilSetString(IL_TIF_AUTHNAME_STRING, "me"); ilSetString(IL_PNG_TITLE_STRING, "t"); ilSetString(IL_CHEAD_HEADER_STRING, "h"); });
    o("push", [] { ilPushAttrib(IL_ALL_ATTRIB_BITS); ilutPushAttrib(ILUT_ALL_ATTRIB_BITS); }); o("errors", [] { for (int i = 0; i < 40; i++) ilSetInteger(0x7777, 1); }); o("hints", [] { ilHint(IL_MEM_SPEED_HINT, IL_LESS_MEM); ilHint(IL_COMPRESSION_HINT, IL_NO_COMPRESSION); });
    o("handlers", [] { if (!insession) return; ilRegisterLoad("png", myload); ilRegisterLoad("qqq", myload); ilRegisterSave("tga", myload); }); o("callbacks", [] { ilSetRead(noopen, noclose, noeof, nogetc, noread, noseek, notell); });
    o("clear colour", [] { ilClearColour(0, 0.5f, 0.25f, 1); }); o("key colour", [] { ilKeyColour(1, 0.5f, 0.25f, 0.5f); }); o("write callbacks", [] { ilSetWrite(noopen, noclose, noputc, noseek, notell, nowrite); });
    o("ilu parameters", [] { iluImageParameter(ILU_FILTER, ILU_BILINEAR); iluImageParameter(ILU_PLACEMENT, ILU_UPPER_LEFT); iluSetLanguage(ILU_GERMAN); static ILpointi P[3] = { { 0, 0 }, { 1, 0 }, { 0, 1 } }; iluRegioniv(P, 3); });
    o("ilut state", [] { ilutEnable(ILUT_PALETTE_MODE); ilutEnable(ILUT_GL_USE_S3TC); ilutSetInteger(ILUT_MAXTEX_WIDTH, 64); ilutSetInteger(ILUT_D3D_MIPLEVELS, 3); }); o("load", [] { ilLoadL(IL_PNG, png.data(), png.size()); ilLoadL(IL_TGA, tga.data(), 20); }); o("default image", [] { ilDefaultImage(); ilGetPalette(); ilGetData(); });
}
SUITE(order)
{
    prepare(); ops(); std::vector<std::string> nm; for (auto& o : OP) nm.push_back(o.n);
    seqs("ops", nm, thorough ? 4 : 3, [](const std::vector<int>& s) { transition(); names(); judge(child([&] { for (int i : s) OP[i].f(); ilShutDown(); return restart(); })); outcome(fnv(s.data(), s.size() * sizeof(int))); });
}
SUITE(outside)
{
    prepare(); build(); static const char* H[] = { "never initialised", "only iluInit", "after ilShutDown", "after images and ilShutDown", "ilutInit only" };
    batch("call", 5 * CL.size(), [](uint64_t q) {
        int h = q % 5; const Call& c = CL[q / 5]; note("%s: %s", H[h], c.n.c_str()); transition(); names(); nm = 2; other = 3;
        judge(child([&] { if (h == 1) iluInit(); if (h == 4) ilutInit(); if (h == 2 || h == 3) ilInit(); if (h == 3) { mk(4, 4, 1, IL_RGBA, IL_UNSIGNED_BYTE, pattern(64, 1).data()); ILuint n; ilGenImages(1, &n); ilBindImage(n); } if (h == 2 || h == 3) ilShutDown();
            int r = c.f(); auto e = errors(); if (c.bad && (r == 1 || (r == 2 && e.empty()))) return std::string("the call is not refused"); ilShutDown(); return restart(); })); outcome(q);
    });
}
