// C13: overwrite protection and refused writes, for every save entry point, format and kind of image.
#include "saves.h"
#include "vfs.h"
#include <unistd.h>
#include <sys/stat.h>
using namespace mc; using namespace ilx; using namespace saves;
static ILuint nm; static void boot() { set_cpu_limit(60); ilShutDown(); init(); vfs::reset(); vfs::fs().clear(); ilGenImages(1, &nm); ilBindImage(nm); drain(); }
struct T { ILenum type; const char* ext; bool mem; }; static std::vector<T> all() { std::vector<T> v; for (auto& f : FM) v.push_back({ f.type, f.ext, true }); v.push_back({ IL_CHEAD, "h", false }); v.push_back({ IL_JASC_PAL, "pal", false }); return v; }
// entry points by name: 0 ilSave 1 ilSaveImage 2 ilSave(unknown) 3 ilSavePal 4 ilSaveData
static ILboolean save(int how, ILenum t, const char* n) { switch (how) { case 0: return ilSave(t, n); case 1: return ilSaveImage(n); case 2: return ilSave(IL_TYPE_UNKNOWN, n); case 4: return ilSaveData(n); default: return ilSavePal(n); } }
static const char* HOW[] = { "ilSave", "ilSaveImage", "ilSave by extension", "ilSavePal", "ilSaveData" };
static Bytes old(int e) { return e == 0 ? Bytes() : e == 1 ? pattern(10, 3) : pattern(20000, 4); }
SUITE(protect)
{
    static std::vector<T> TT = all(); size_t NT = TT.size();
    batch("existing file", NT * KN.size() * 5 * 3, [NT](uint64_t q) { int e = q % 3; q /= 3; int how = q % 5; q /= 5; const T& t = TT[q % NT]; const K& k = KN[q / NT]; if ((how == 3 && t.type != IL_JASC_PAL) || (how == 4 && t.type != IL_RAW)) return; note("%s %s %s over %zu bytes", HOW[how], t.ext, kname(k).c_str(), old(e).size()); boot(); if (!make(k, 4, 4)) return; drain(); Img a = snap(); drain();
        std::string d = workdir(), n = d + "/x." + t.ext, fresh = d + "/y." + t.ext; remove(n.c_str()); remove(fresh.c_str());
        // what a save to a new file gives, protected or not
        bool can = save(how, t.type, fresh.c_str()); auto fe = errors(); Bytes ref = readfile(fresh); remove(fresh.c_str()); if (!can && fe.empty()) { fail("failed without an error"); return; } if (can && !fe.empty()) { fail("works, but error %s", ename(fe[0]).c_str()); return; }
        struct stat s0, s1; writefile(n, old(e)); stat(n.c_str(), &s0);
        for (int way = 0; way < 3; way++) { if (way == 0) ilDisable(IL_FILE_OVERWRITE); else if (way == 1) { ilEnable(IL_FILE_OVERWRITE); ilPushAttrib(IL_FILE_BIT); ilDisable(IL_FILE_OVERWRITE); } else { ilDisable(IL_FILE_OVERWRITE); ilPushAttrib(IL_FILE_BIT); ilEnable(IL_FILE_OVERWRITE); ilPopAttrib(); } drain(); bool r = save(how, t.type, n.c_str()); auto er = errors(); eval(3); transition(); Bytes now = readfile(n); stat(n.c_str(), &s1); if (now != old(e) || s0.st_ino != s1.st_ino || s0.st_mtim.tv_nsec != s1.st_mtim.tv_nsec) { fail("way %d: the protected file was changed", way); return; } if (r) { fail("way %d: claims to have saved", way); return; } if (er.size() != 1 || er[0] != IL_FILE_ALREADY_EXISTS) { if (can || er.empty()) { fail("way %d: %zu errors, the newest %s", way, er.size(), er.empty() ? "-" : ename(er[0]).c_str()); return; } } if (ilIsEnabled(IL_FILE_OVERWRITE)) { fail("way %d: the protection is off", way); return; }
            // a new file can be saved under protection
            r = save(how, t.type, fresh.c_str()); er = errors(); Bytes w = readfile(fresh); remove(fresh.c_str()); if (r != can || w != ref) { fail("way %d: protected: a new file %s", way, r != can ? r ? "is saved" : "is refused" : "gets other contents"); return; } if (way == 1) ilPopAttrib(); ilEnable(IL_FILE_OVERWRITE); }
        // unprotected: replaced, with nothing left of the old contents
        bool r = save(how, t.type, n.c_str()); auto er = errors(); eval(2); Bytes now = readfile(n); remove(n.c_str()); if (r != can) { fail("unprotected: %s", r ? "saved" : "refused"); return; } if (can && now != ref) { fail("the file is not exactly the new encoding (%zu bytes, expected %zu)", now.size(), ref.size()); return; } if (can && !er.empty()) { fail("error %s on success", ename(er[0]).c_str()); return; } if (snap() != a) fail("the image changed"); outcome(fnv(ref.data(), ref.size())); });
    // the lump and handle entry points do not look at names; a protected name does not hinder them
    batch("no name", NFM, [](uint64_t q) { const F& f = FM[q]; note("%s", f.ext); boot(); make(KN[0], 4, 4); ilDisable(IL_FILE_OVERWRITE); bool ok; saveL(f.type, &ok); if (!ok) fail("lump: %s", ename(firsterr()).c_str()); std::string n = workdir() + "/h"; FILE* h = fopen(n.c_str(), "w+b"); if (!ilSaveF(f.type, h)) fail("handle: %s", ename(firsterr()).c_str()); fclose(h); remove(n.c_str()); eval(2); });
}
SUITE(refused)
{
    // every write, putc, seek of a save refused once or for good, wholly or in part
    batch("callbacks", (uint64_t)NFM * KN.size() * NOPT * 2 * 2 * 2, [](uint64_t q) { bool sticky = q & 1, handle = q >> 1 & 1, part = q >> 2 & 1; q /= 8; int o = q % NOPT; q /= NOPT; const F& f = FM[q % NFM]; const K& k = KN[q / NFM]; note("%s %s option %d by %s, %s refusal%s", f.ext, kname(k).c_str(), o, handle ? "handle" : "name", sticky ? "lasting" : "single", part ? ", short" : ""); boot(); if (!make(k, 4, 2)) return; options(o); drain(); Img a = snap(); drain(); bool ok; Bytes ref = saveL(f.type, &ok); drain(); if (!ok) return; vfs::install(); std::string n = std::string("dir/o.") + f.ext; long total = 1;
        for (long j = -1; j < total; j++) { vfs::reset(); vfs::fs().clear(); vfs::failat = j; vfs::sticky = sticky; vfs::shortmode = part; bool r; vfs::H* h = 0; if (handle) { vfs::fs()[n]; h = vfs::make(n, 0, true); r = ilSaveF(f.type, h) != 0; } else r = ilSave(f.type, n.c_str()); auto e = errors(); eval(3); transition(); if (j < 0) { total = vfs::calls; if (!r || vfs::fs()[n] != ref) { fail("the unrefused save: %s", r ? "other bytes" : "refused"); return; } continue; }
            Bytes got = vfs::fs()[n]; std::string v = vfs::verdict(); if (!v.empty()) { fail("call %ld (%s) refused: %s", j, vfs::failed.c_str(), v.c_str()); return; } if (r && got != ref) { fail("call %ld (%s) refused: claims success, but the file is incomplete (%zu of %zu bytes)", j, vfs::failed.c_str(), got.size(), ref.size()); return; } if (r && vfs::failed == "write") { fail("write %ld refused: claims success", j); return; } if (!r && e.empty()) { fail("call %ld (%s) refused: failed without an error", j, vfs::failed.c_str()); return; } if (r && !e.empty()) { fail("call %ld: works, but error %s", j, ename(e[0]).c_str()); return; } if (snap() != a) { fail("call %ld (%s) refused: the image changed", j, vfs::failed.c_str()); return; } drain(); if ((ILuint)ilGetInteger(IL_CUR_IMAGE) != nm || ilGetInteger(IL_ACTIVE_IMAGE)) { fail("call %ld: another image is current", j); return; } }
        vfs::reset(); vfs::fs().clear(); if (!ilSave(f.type, n.c_str()) || vfs::fs()[n] != ref) fail("a later save fails or differs"); outcome(fnv(ref.data(), ref.size())); });
    // a real device that is full: everything is lost when the file is closed, at the latest
    batch("full device", all().size() * KN.size() * 2 * 2, [](uint64_t q) { static std::vector<T> TT = all(); bool big = q & 1, handle = q >> 1 & 1; q /= 4; const T& t = TT[q % TT.size()]; const K& k = KN[q / TT.size()]; note("%s %s %s%s", t.ext, kname(k).c_str(), handle ? "handle" : "name", big ? " big" : ""); if (handle && !t.mem && t.type != IL_JASC_PAL) return; boot(); if (!make(k, big ? 128 : 4, big ? 64 : 4)) return; drain(); Img a = snap(); drain(); std::string n = workdir() + "/full." + t.ext, y = workdir() + "/y." + t.ext; remove(n.c_str()); remove(y.c_str()); bool can = ilSave(t.type, y.c_str()); drain(); Bytes ref = readfile(y); remove(y.c_str()); if (symlink("/dev/full", n.c_str())) return; bool r; if (handle && !t.mem) r = ilSavePal(n.c_str()); else if (handle) { FILE* h = fopen(n.c_str(), "wb"); if (!h) return; setvbuf(h, 0, _IONBF, 0); r = ilSaveF(t.type, h) != 0; fclose(h); } else r = ilSave(t.type, n.c_str()); auto e = errors(); eval(2); transition(); remove(n.c_str()); if (r) { fail("claims to have saved to a full device"); return; } if (e.empty()) { fail("failed without an error"); return; } if (snap() != a) { fail("the image changed"); return; } drain(); bool c2 = ilSave(t.type, y.c_str()); if (c2 != can || readfile(y) != ref) fail("a later save fails or differs"); remove(y.c_str()); });
    // a directory that does not exist, a directory in place of the file
    batch("no place", all().size() * 3, [](uint64_t q) { static std::vector<T> TT = all(); const T& t = TT[q / 3]; int c = q % 3; note("%s case %d", t.ext, c); boot(); make(KN[0], 4, 4); Img a = snap(); drain(); std::string d = workdir() + "/dir." + t.ext; std::string n = c == 0 ? workdir() + "/none/x." + t.ext : c == 1 ? d : std::string(); if (c == 1) mkdir(d.c_str(), 0755); bool r = ilSave(t.type, n.c_str()); auto e = errors(); eval(2); if (c == 1) rmdir(d.c_str()); if (r) { fail("claims to have saved"); return; } if (e.empty()) fail("failed without an error"); if (snap() != a) fail("the image changed"); });
}
