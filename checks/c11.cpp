// C11: every lump size from nothing to more than enough, for every format, kind and option; the buffer is an exactly sized heap block under AddressSanitizer.
#include "saves.h"
#include <set>
using namespace mc; using namespace ilx; using namespace saves;
static void run(const F& f, const K& k, int w, int h, int opt, int content, bool all)
{
    set_cpu_limit(60); init(); if (!make(k, w, h, 0, 5, content)) { fail("make"); return; } options(opt); drain();
    bool ok; Bytes ref = saveL(f.type, &ok); auto e = errors(); if (!ok) { if (e.empty()) fail("refused without an error"); return; }   // this kind is not representable
    if (!e.empty()) { fail("error %s on success", ename(e[0]).c_str()); return; } size_t n = ref.size(); Img a = snap(); std::vector<size_t> sz;
    if (all && n <= 20000) for (size_t i = 0; i <= n + 9; i++) sz.push_back(i);
    else { std::set<size_t> s; for (size_t i = 0; i < 64; i++) { s.insert(i); if (n >= i) s.insert(n - i); s.insert(n + i); } for (size_t i = 0; i < n; i += n / 97 + 1) s.insert(i); sz.assign(s.begin(), s.end()); }
    for (size_t z : sz) {
        uint8_t* b = (uint8_t*)malloc(z ? z : 1); memset(b, 0xA5, z ? z : 1); ILuint r = (ILuint)ilSaveL(f.type, b, z); auto er = errors(); eval(2);
        if (z >= n) { if (r != n || !er.empty()) { fail("size %zu (needs %zu): returned %u, error %s", z, n, r, er.empty() ? "none" : ename(er[0]).c_str()); free(b); return; } if (memcmp(b, ref.data(), n)) { fail("size %zu: different bytes", z); free(b); return; } for (size_t i = n; i < z; i++) if (b[i] != 0xA5) { fail("size %zu: byte %zu behind the file of %zu bytes was written", z, i, n); free(b); return; } }
        else { if (r) { fail("size %zu of %zu: claimed success with %u bytes", z, n, r); free(b); return; } if (er.empty()) { fail("size %zu of %zu: failed without an error", z, n); free(b); return; } }
        free(b); transition(); }
    eval(2); if (snap() != a) { fail("the image changed: %s", snap().diff(a).c_str()); return; }
    // the library still saves, to a buffer and to a file
    bool ok2; Bytes again = saveL(f.type, &ok2); if (!ok2 || again != ref) { fail("a later save differs"); return; }
    std::string fn = workdir() + "/x." + f.ext; remove(fn.c_str()); if (!ilSave(f.type, fn.c_str()) || readfile(fn) != ref) fail("a later save to a file differs"); remove(fn.c_str());
    outcome(fnv(ref.data(), n)); ilShutDown();
}
SUITE(every)
{
    static const int SZ[][2] = { { 1, 1 }, { 4, 2 }, { 8, 8 }, { 7, 3 } };
    batch("sizes", (uint64_t)NFM * KN.size() * 4 * NOPT * 2, [](uint64_t q) { int c = q & 1; q /= 2; int o = q % NOPT; q /= NOPT; const int* s = SZ[q % 4]; q /= 4; const F& f = FM[q % NFM]; q /= NFM; note("%s %s %dx%d option %d content %d", f.ext, kname(KN[q]).c_str(), s[0], s[1], o, c); run(f, KN[q], s[0], s[1], o, c, s[0] < 7 || q < 2 || thorough); });
    batch("bigger", NFM * 5 * 2, [](uint64_t q) { int o = q & 1; q /= 2; const F& f = FM[q % NFM]; q /= NFM; static const int KI[] = { 0, 1, 4, 7, 10 }; note("%s %s 64x32 option %d", f.ext, kname(KN[KI[q]]).c_str(), o); run(f, KN[KI[q]], 64, 32, o, 1, false); });
}
// unknown types and bad arguments
SUITE(refuse)
{
    batch("types", 0x600, [](uint64_t q) { note("type %x", (int)q); init(); make(KN[0], 3, 2); drain(); bool known = false; for (auto& f : FM) if (f.type == q) known = true; uint8_t b[4096]; memset(b, 0x5A, sizeof b); Img a = snap(); ILuint r = (ILuint)ilSaveL(q, b, sizeof b); auto e = errors(); eval(2); if (!r && e.empty()) fail("refused without an error"); if (!r && !known) for (uint8_t c : b) if (c != 0x5A) { fail("wrote to the buffer"); break; } if (r > sizeof b) fail("returned %u", r); if (a != snap()) fail("image changed"); });
}
