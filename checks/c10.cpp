// C10: damaged files. Every truncation and every single deviation of a corpus of small valid files is loaded by the real loaders (under AddressSanitizer).
#include "files.h"
#include "corpus.h"
#include "decoders.h"
#include <unistd.h>
#include <set>
using namespace mc; using namespace ilx; using namespace files;
struct Src { std::string name; ILenum type; Bytes b; };
static std::vector<Src> S;
// files of each kind (a kind is a name without its digits), and files spread evenly over the whole list
static void add(void (*gen)(const Sink&, bool), size_t num, size_t limit)
{
    std::vector<Src> all; gen([&](File&& f) { if (f.b.size() <= limit) all.push_back({ f.name, f.type, f.b }); }, false); std::vector<bool> use(all.size()); std::map<std::string, int> m;
    for (size_t i = 0; i < all.size(); i++) { std::string k; for (char c : all[i].name) if (!isdigit(c)) k += c; if (m.size() < num && m[k]++ < (thorough ? 3 : 1)) use[i] = true; } for (size_t i = 0; i < num; i++) use[(i * 2 + 1) * all.size() / (num * 2)] = true; for (size_t i = 0; i < all.size(); i++) if (use[i]) S.push_back(all[i]);
}
static void* ILAPIENTRY_alloc(const ILsizei n) { if (n > (24u << 20)) return 0; return malloc(n); }
static void il_free(const void* p) { free((void*)p); }
static Bytes good; static ILuint gn;
static void sane(const Tree& t) { const Img& i = t.img; if (i.w < 1 || i.h < 1 || i.d < 1) fail("delivers an image of %dx%dx%d", i.w, i.h, i.d); if ((long)i.size != (long)i.w * i.h * i.d * i.bpp * i.bpc) fail("delivers %ld bytes for %dx%dx%d of %dx%d", (long)i.size, i.w, i.h, i.d, i.bpp, i.bpc); if (i.bpp != channels(i.format) || i.bpc != bpc(i.type)) fail("delivers format %x type %x with %d channels of %d bytes", i.format, i.type, i.bpp, i.bpc); for (auto* l : { &t.mips, &t.imgs, &t.lays, &t.faces }) for (auto& q : *l) sane(q); eval(4); }
static bool load(ILenum type, const Bytes& b)
{
    Bytes c(b.begin(), b.end()); uint8_t* exact = (uint8_t*)malloc(c.size() ? c.size() : 1); memcpy(exact, c.data(), c.size()); ILboolean k = ilLoadL(type, exact, c.size()); free(exact); ILenum e = ilGetError(); transition(); eval(); while (ilGetError()) ;
    if (k) { Tree t = snaptree(gn); outcome(t.hash()); sane(t); } else { if (!e) return fail("fails without an error"); outcome(e); if (ilGetInteger(IL_IMAGE_WIDTH) < 1 && ilGetInteger(IL_IMAGE_SIZE_OF_DATA) > 0) return fail("leaves a broken image"); (void)snaptree(gn); drain(); }
    return !nfails();
}
static void setup() { ilShutDown(); ilSetMemory(ILAPIENTRY_alloc, il_free); init(); ilGenImages(1, &gn); ilBindImage(gn); drain(); }
static bool usable() { if (!ilLoadL(IL_PNM, good.data(), good.size()) || ilGetInteger(IL_IMAGE_WIDTH) != 2 || ilGetData()[2] != 'c') return fail("a good file does not load afterwards"); drain(); return true; }
// the checksums of a PNG file would hide almost all damage
static uint32_t crc(const uint8_t* p, size_t n) { uint32_t c = ~0u; while (n--) { c ^= *p++; for (int k = 0; k < 8; k++) c = c & 1 ? 0xEDB88320 ^ c >> 1 : c >> 1; } return ~c; }
static Bytes& refix(ILenum t, Bytes& c) { if (t == IL_PNG || t == IL_MNG) for (size_t p = 8; p + 12 <= c.size();) { size_t n = (size_t)c[p] << 24 | c[p + 1] << 16 | c[p + 2] << 8 | c[p + 3]; if (n > c.size() - p - 12) break; uint32_t k = crc(&c[p + 4], n + 4); for (int i = 0; i < 4; i++) c[p + 8 + n + i] = k >> (24 - 8 * i); p += n + 12; } return c; }
// libmng 2.0 itself overruns its row buffers when an embedded picture claims another size: the IHDR fields of MNG files stay as they are
static void mutate(const Src& s, int part)
{
    setup(); const Bytes& b = s.b; size_t n = b.size(); set_cpu_limit(120);
    auto go = [&](const Bytes& c) { if (s.type == IL_MNG && c.size() > 73 && n > 73 && !std::equal(c.begin() + 48, c.begin() + 73, b.begin() + 48)) return true; if (load(s.type, c)) return true; usable(); setup(); return nfails() < 3; };
    if (part == 0) { for (size_t k = 0; k <= n; k++) { note("%s cut at %zu", s.name.c_str(), k); if (!go(Bytes(b.begin(), b.begin() + k))) return; } Bytes t = b; t.insert(t.end(), 40, 0xFF); note("%s with 40 more bytes", s.name.c_str()); if (!go(t)) return; }
    if (part == 1) for (size_t k = 0; k < n; k++) for (int v = 0; v < (thorough ? 256 : 9); v++) { static const int V[] = { 0, 1, 2, 0x7F, 0x80, 0xFF, -1, -2, -3 }; Bytes c = b; int q = thorough ? (k < 256 ? v : v < 9 ? V[v] : -4) : V[v]; if (q == -4) break; c[k] = q >= 0 ? q : q == -1 ? b[k] ^ 1 : q == -2 ? b[k] + 1 : b[k] - 1; if (c[k] == b[k]) continue; note("%s byte %zu = %02x", s.name.c_str(), k, c[k]); if (!go(refix(s.type, c))) return; }
    if (part == 2) for (size_t k = 0; k + 1 < n; k++) for (int m = 0; m < 8; m++) { static const Bytes M[] = { { 0xFF, 0xFF }, { 0x7F, 0xFF }, { 0xFF, 0x7F }, { 0, 0 }, { 0xFF, 0xFF, 0xFF, 0xFF }, { 0x7F, 0xFF, 0xFF, 0xFF }, { 0xFF, 0xFF, 0xFF, 0x7F }, { 0, 0, 0, 0 } }; if (k + M[m].size() > n) continue; Bytes c = b; std::copy(M[m].begin(), M[m].end(), c.begin() + k); note("%s bytes %zu.. = %s", s.name.c_str(), k, hex(M[m], 9).c_str()); if (!go(refix(s.type, c))) return; }
    if (part == 3 && n > 2) for (size_t k = 0; k < n; k++) { Bytes c = b; c.erase(c.begin() + k); note("%s without byte %zu", s.name.c_str(), k); if (!go(c)) return; c = b; c.insert(c.begin() + k, b[k]); note("%s with byte %zu doubled", s.name.c_str(), k); if (!go(refix(s.type, c))) return; }
    usable();
}
static void run(const char* name, const std::vector<std::pair<void (*)(const Sink&, bool), size_t>>& g)
{
    good = {}; { W o; o.s("P6 2 1 255\nabcdef"); good = o.b; } S.clear(); for (auto& q : g) add(q.first, thorough ? 100 : 16, q.second);
    batch(name, S.size() * 4, [](uint64_t q) { mutate(S[q / 4], q % 4); });
}
#define FMT(n, gen, lim) SUITE(n) { run(#n, { { gen, lim } }); }
FMT(bmp, bmps, 1200) FMT(bmprle, files::bmprle, 1200) FMT(pcx, pcxs, 1200) FMT(pnm, pnms, 400) FMT(sgi, sgis, 900) FMT(tga, tgas, 400) FMT(psd, psds, 1200) FMT(hdr, hdrs, 1500) FMT(small, smalls, 2600) FMT(vtf, vtfs, 1500) FMT(png, pngs, 700) FMT(tiff, tiffs, 900) FMT(gif, gifs, 900) FMT(sun, suns, 900) FMT(ilbm, ilbms, 900) FMT(ico, icos, 1500) FMT(dcx, dcxs, 1500) FMT(pic, pics, 400) FMT(xpm, xpms, 500) FMT(dpx, dpxs, 2300) FMT(ktx, ktxs, 400) FMT(tpl, tpls, 500) FMT(blp, blps, 1400) FMT(iwi, iwis, 500) FMT(rot, rots, 500) FMT(scitex, scitexs, 2100) FMT(mdl, mdls, 2100) FMT(fits, fitss, 6000) FMT(dicom, dicoms, 500) FMT(raw, raws, 200) FMT(texture, textures, 300) FMT(mp3, mp3s, 700) FMT(icns, icnss, 3000) FMT(iff, iffs, 400) FMT(psp, psps, 1600) FMT(utx, utxs, 3500) FMT(mng, mngs, 800)
static void corp(const char* name, std::vector<ILenum> types) { { W o; o.s("P6 2 1 255\nabcdef"); good = o.b; } S.clear(); { std::map<ILenum, int> c; for (auto& e : corpus::all(thorough)) if (std::find(types.begin(), types.end(), e.type) != types.end() && e.b.size() < 2500 && c[e.type]++ < (thorough ? 30 : 5)) S.push_back({ e.name, e.type, e.b }); } batch(name, S.size() * 4, [](uint64_t q) { mutate(S[q / 4], q % 4); }); }
// block-compressed DDS files of every kind
static void ddsbc(const Sink& out, bool)
{
    static const struct { const char* c; int bs; } K[] = { { "DXT1", 8 }, { "ATI1", 8 }, { "DXT2", 16 }, { "DXT3", 16 }, { "DXT4", 16 }, { "DXT5", 16 }, { "ATI2", 16 }, { "RXGB", 16 } };
    for (int shape = 0; shape < 5; shape++) for (auto& k : K) { Dds q; q.fourcc = cc(k.c); q.w = shape == 3 ? 4 : 6; q.h = shape == 3 ? 4 : 5; int n = 4; if (shape == 1) { q.d = 3; n = 12; } if (shape == 2) { q.mips = 3; n = 6; } if (shape == 3) { q.caps2 = 0xFE00; n = 6; } if (shape == 4) { q.d = 2; q.mips = 3; n = 10; } q.linear = shape & 1 ? k.bs * n : 0;
        File f; f.name = sfmt("%s shape %c", k.c, 'a' + shape); f.type = IL_DDS; f.ext = "dds"; f.b = dds(q, rnd(k.bs * n, shape * 8 + k.bs)); out(std::move(f)); }
}
SUITE(dds) { corp("dds", { IL_DDS }); }
FMT(ddsraw, ddss, 400)
FMT(ddsbc, ddsbc, 400)
SUITE(jpg) { corp("jpg", { IL_JPG }); }
static void jpgs(const Sink& out, bool) { for (int k = 0; k < 12; k++) { File f; f.name = sfmt("JPEG kind %c", 'a' + k); f.type = IL_JPG; f.ext = "jpg"; f.b = dec::jpgfile(9 + k, 5, k % 6, k % 5, k / 6 ? 1 : k % 4, k % 3, k % 2 * 20, 40); out(std::move(f)); } }
FMT(jpgs, jpgs, 2500)
// PhotoCD files have a fixed size: every length around the edges of the header, the resolutions and their rows
SUITE(pcd)
{
    good = {}; { W o; o.s("P6 2 1 255\nabcdef"); good = o.b; }
    batch("pcd", 3 * 3, [](uint64_t q) { set_cpu_limit(120); int pn = q % 3, part = q / 3; static const struct { int w, h; size_t at; } R[] = { { 192, 128, 0x2000 }, { 384, 256, 0xb800 }, { 768, 512, 0x30000 } }; auto& r = R[pn]; Bytes b = rnd(r.at + r.w * r.h * 3 / 2 + 5, pn); setup(); ilSetInteger(IL_PCD_PICNUM, pn); drain();
        std::set<size_t> L; auto near = [&](size_t c) { for (int d = -2; d <= 2; d++) if ((long)c + d >= 0 && c + d <= b.size()) L.insert(c + d); }; if (part == 0) for (size_t c : { 0, 72, 73, 2048, 0x2000 }) near(c); if (part == 1) { near(r.at); near(r.at + r.w * r.h * 3 / 2); for (int k = 0; k < 7; k++) near(r.at + k * r.w); } if (part == 2) for (int y = 0; y < r.h * 3 / 2; y += thorough ? 3 : r.h / 8) near(r.at + (size_t)y * r.w);
        for (size_t n : L) { note("PCD resolution %d cut at %zu", pn, n); if (!load(IL_PCD, Bytes(b.begin(), b.begin() + n)) || nfails()) return; } usable(); });
}
