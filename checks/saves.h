// Formats the library writes through ilSave/ilSaveF/ilSaveL, kinds of images, and save options - shared by the I/O checks.
#pragma once
#include "conv.h"
#include <time.h>
namespace saves {
using namespace ilx;
struct F { ILenum type; const char* ext; bool pow2; bool sig; };          // sig: the file carries a signature
static const F FM[] = { { IL_BMP, "bmp", 0, 1 }, { IL_DDS, "dds", 0, 1 }, { IL_HDR, "hdr", 0, 1 }, { IL_JPG, "jpg", 0, 1 }, { IL_PCX, "pcx", 0, 1 }, { IL_PNG, "png", 0, 1 }, { IL_PNM, "pnm", 0, 1 }, { IL_PSD, "psd", 0, 1 }, { IL_RAW, "raw", 0, 0 }, { IL_SGI, "sgi", 0, 1 }, { IL_TGA, "tga", 0, 0 }, { IL_TIF, "tif", 0, 1 }, { IL_VTF, "vtf", 1, 1 }, { IL_WBMP, "wbmp", 0, 0 } };
static const int NFM = sizeof FM / sizeof *FM;
struct K { ILenum f, t, pal; int cols; };
static const std::vector<K> KN = { { IL_RGB, IL_UNSIGNED_BYTE, 0, 0 }, { IL_RGBA, IL_UNSIGNED_BYTE, 0, 0 }, { IL_BGR, IL_UNSIGNED_BYTE, 0, 0 }, { IL_BGRA, IL_UNSIGNED_BYTE, 0, 0 }, { IL_LUMINANCE, IL_UNSIGNED_BYTE, 0, 0 }, { IL_LUMINANCE_ALPHA, IL_UNSIGNED_BYTE, 0, 0 }, { IL_ALPHA, IL_UNSIGNED_BYTE, 0, 0 },
    { IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, IL_PAL_RGB24, 256 }, { IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, IL_PAL_BGRA32, 17 }, { IL_COLOUR_INDEX, IL_UNSIGNED_BYTE, IL_PAL_BGR24, 2 }, { IL_RGB, IL_UNSIGNED_SHORT, 0, 0 }, { IL_RGBA, IL_UNSIGNED_SHORT, 0, 0 }, { IL_LUMINANCE, IL_UNSIGNED_SHORT, 0, 0 }, { IL_RGB, IL_FLOAT, 0, 0 }, { IL_RGBA, IL_DOUBLE, 0, 0 }, { IL_RGB, IL_HALF, 0, 0 }, { IL_LUMINANCE, IL_UNSIGNED_INT, 0, 0 }, { IL_BGR, IL_BYTE, 0, 0 }, { IL_LUMINANCE, IL_SHORT, 0, 0 } };
inline std::string kname(const K& k) { return k.pal ? mc::sfmt("indexed palette %x/%d", k.pal, k.cols) : mc::sfmt("%s %s", fname(k.f), tname(k.t)); }
// makes the current image; content 0: pattern, 1: runs
inline bool make(const K& k, int w, int h, int org = 0, uint32_t salt = 5, int content = 0)
{
    ILenum o = org ? IL_ORIGIN_LOWER_LEFT : IL_ORIGIN_UPPER_LEFT; bool ok;
    if (k.f == IL_COLOUR_INDEX) { Bytes ix = pattern(w * h, salt); for (size_t i = 0; i < ix.size(); i++) ix[i] = content ? (i / 5) % k.cols : ix[i] % k.cols; ok = mkpal(w, h, k.pal, k.cols, ix.data(), pattern(k.cols * palbpp(k.pal), 31).data(), o); }
    else { Bytes p = typed_pattern(w * h * channels(k.f), k.t, salt); int n = channels(k.f) * bpc(k.t); if (content) for (int i = 0; i < w * h; i++) memcpy(&p[i * n], &p[(i / 5 % 3) * n], n); ok = mk(w, h, 1, k.f, k.t, p.data(), o); }
    return ok;
}
// options 0 default, 1 run length/compression/interlace on, 2 strings
static const int NOPT = 3;
inline void options(int o)
{
    if (o == 1) { ilEnable(IL_SAVE_INTERLACED); ilSetInteger(IL_TGA_RLE, 1); ilSetInteger(IL_SGI_RLE, 1); ilSetInteger(IL_PNG_INTERLACE, 1); ilHint(IL_COMPRESSION_HINT, IL_USE_COMPRESSION); }
    if (o == 2) { static const ILenum S[] = { IL_TGA_ID_STRING, IL_TGA_AUTHNAME_STRING, IL_TGA_AUTHCOMMENT_STRING, IL_PNG_AUTHNAME_STRING, IL_PNG_TITLE_STRING, IL_PNG_DESCRIPTION_STRING, IL_TIF_DESCRIPTION_STRING, IL_TIF_HOSTCOMPUTER_STRING, IL_TIF_DOCUMENTNAME_STRING, IL_TIF_AUTHNAME_STRING }; for (ILenum s : S) ilSetString(s, mc::sfmt("text of %x", s).c_str()); ilHint(IL_COMPRESSION_HINT, IL_NO_COMPRESSION); }
    drain();
}
} // namespace saves
// the clock stands still, so that files with a date can be compared
extern "C" time_t time(time_t* t) { if (t) *t = 1000000000; return 1000000000; }
