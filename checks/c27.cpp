// C27: results never depend on the contents of fresh memory. Heap blocks (malloc of the whole process) and the stack are filled with different patterns; all observable results must agree.
#include "calls.h"
#include "corpus.h"
#include <malloc.h>
#include <alloca.h>
using namespace mc; using namespace ilx; using namespace calls;
static volatile int pat = -1;
static inline void fill(void* p, size_t n) { if (pat >= 0 && p) memset(p, pat, n < (1u << 24) ? n : (1u << 24)); }
extern "C" { void* __libc_malloc(size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
void* malloc(size_t n) { if (n > (600u << 20)) return 0; void* p = __libc_malloc(n); fill(p, n); return p; }
void* realloc(void* o, size_t n) { if (n > (600u << 20)) return 0; size_t u = o ? malloc_usable_size(o) : 0; void* p = __libc_realloc(o, n); if (p && pat >= 0 && n > u) fill((char*)p + u, n - u); return p; }
void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); fill(p, n); return p; }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** r, size_t a, size_t n) { *r = memalign(a, n); return *r ? 0 : 12; } }
static void __attribute__((noinline)) smear() { size_t n = 96 << 10; volatile char* p = (volatile char*)alloca(n); if (pat >= 0) memset((void*)p, pat, n); asm volatile("" : : "r"(p) : "memory"); }
static const int PATS[] = { 0, 0xFF, 0xA5 };
static void put(Bytes& r, const void* p, size_t n) { r.insert(r.end(), (const uint8_t*)p, (const uint8_t*)p + n); }
static void puti(Bytes& r, long v) { put(r, &v, sizeof v); }
static void putimg(Bytes& r, const Img& i) { long v[] = { i.w, i.h, i.d, i.bpp, i.bpc, (long)i.format, (long)i.type, (long)i.origin, (long)i.size, i.dur, i.offx, i.offy, (long)i.cube, (long)i.paltype, i.palcols, i.palbpp, (long)i.dxtcf, i.nimg, i.nmip, i.nlay, i.nface }; put(r, v, sizeof v); put(r, i.data.data(), i.data.size()); put(r, i.pal.data(), i.pal.size()); }
static void putt(Bytes& r, const Tree& t) { putimg(r, t.img); for (auto* l : { &t.mips, &t.imgs, &t.lays, &t.faces }) { puti(r, l->size()); for (auto& i : *l) putt(r, i); } }
static void puttree(Bytes& r, ILuint n) { putt(r, snaptree(n)); }
static void puterr(Bytes& r) { for (ILenum e : errors()) puti(r, e); puti(r, -1); }
// f appends what can be observed; it must be the same for every pattern
static bool same(const std::function<void(Bytes&)>& f)
{
    Bytes r[3]; for (int i = 0; i < 3; i++) { r[i].reserve(1 << 16); pat = PATS[i]; smear(); f(r[i]); pat = -1; transition(); eval(); }
    for (int i = 1; i < 3; i++) if (r[i] != r[0]) { size_t k = 0; while (k < r[i].size() && k < r[0].size() && r[i][k] == r[0][k]) k++; return fail("the results with fresh memory %02x and %02x differ at byte %zu of %zu/%zu", PATS[0], PATS[i], k, r[0].size(), r[i].size()); }
    outcome(fnv(r[0].data(), r[0].size())); return true;
}
SUITE(ops)
{
    init(); build(); fixtures(); ilShutDown(); static const int CH = 40; static int NC; NC = (CL.size() + CH - 1) / CH;
    batch("call", FX.size() * NC, [](uint64_t q) {
        set_cpu_limit(100); const Fix& fx = FX[q / NC]; size_t lo = q % NC * CH, hi = std::min(CL.size(), lo + CH);
        for (size_t i = lo; i < hi; i++) { const Call& c = CL[i]; note("%s on %s", c.n.c_str(), fx.n.c_str()); if (!c.n.compare(0, 11, "ilTexImage(")) continue;   // an image defined without pixels has undefined ones
            if (c.n.find("iluNoisify") == 0 || c.n.find("ilCreateSubImage") == 0 || c.n.find("ilRegisterNum") == 0 || c.n.find("ilRegisterMip") == 0) continue;   // random or undefined by design
            if (!same([&](Bytes& r) { ilShutDown(); init(); memset(calls::buf, 0x11, sizeof calls::buf); ilGenImages(1, &nm); ilGenImages(1, &other); ilBindImage(other); mk(2, 2, 1, IL_RGBA, IL_UNSIGNED_BYTE, (const ILubyte*)"0123456789abcdef"); ilBindImage(nm); fx.f(); ilEnable(IL_FILE_OVERWRITE); drain();
                smear(); int k = c.f(); puti(r, k); puterr(r); put(r, calls::buf, 4096); if (k == 0 && !c.n.compare(0, 12, "ilLoadDataL(")) return;   /* data that run out leave undefined pixels */ puttree(r, nm); puttree(r, other); })) return; }
    });
}
SUITE(saves)
{
    using namespace saves; static std::vector<std::array<int, 4>> J; if (J.empty()) for (int f = 0; f < NFM; f++) for (int k = 0; k < (int)KN.size(); k++) for (int o = 0; o < NOPT; o++) for (int s = 0; s < (thorough ? 6 : 2); s++) J.push_back({ f, k, o, s });
    batch("save", J.size(), [](uint64_t q) { auto j = J[q]; static const int SZ[][2] = { { 3, 2 }, { 4, 4 }, { 1, 1 }, { 17, 3 }, { 5, 16 }, { 8, 8 } }; note("%s of %s option %d %dx%d", FM[j[0]].ext, kname(KN[j[1]]).c_str(), j[2], SZ[j[3]][0], SZ[j[3]][1]);
        same([&](Bytes& r) { ilShutDown(); init(); ILuint n; ilGenImages(1, &n); ilBindImage(n); saves::make(KN[j[1]], SZ[j[3]][0], SZ[j[3]][1]); saves::options(j[2]); drain(); smear(); bool ok; Bytes b = saveL(FM[j[0]].type, &ok); puti(r, ok); put(r, b.data(), b.size()); puterr(r); }); });
}
static const std::vector<corpus::E>* CO;
static void loadone(Bytes& r, ILenum t, const Bytes& b) { ilShutDown(); init(); ILuint n; ilGenImages(1, &n); ilBindImage(n); mk(1, 1, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, (const ILubyte*)"x"); drain(); smear(); ILboolean ok = ilLoadL(t, b.data(), b.size()); puti(r, ok); puterr(r); if (ok) puttree(r, n); }
SUITE(loads)
{
    CO = &corpus::all(thorough);
    batch("file", CO->size(), [](uint64_t q) {
        set_cpu_limit(400); const auto& e = (*CO)[q]; size_t n = e.b.size(), st = thorough ? 1 + n / 1500 : 1 + n / 800;
        for (size_t k = 0; k <= n; k += st) { Bytes c(e.b.begin(), e.b.begin() + k); note("%s cut at %zu", e.name.c_str(), k); if (!same([&](Bytes& r) { loadone(r, e.type, c); })) return; }
        for (size_t k = 0; k < n; k += st) for (int v : thorough ? std::vector<int>{ 0, 255, 0x80, 1 } : std::vector<int>{ 0, 255, 0x80 }) { Bytes c = e.b; c[k] = v == 0x80 || v == 64 || v == 2 ? c[k] ^ v : v; note("%s byte %zu = %d", e.name.c_str(), k, c[k]); if (!same([&](Bytes& r) { loadone(r, e.type, c); })) return; }
    });
}
