// C25: error strings, string/integer queries and extension lists are total and consistent.
#include "ilx.h"
#include <IL/ilut.h>
#include <set>
#include <algorithm>
#include <strings.h>
#include <unistd.h>
using namespace mc; using namespace ilx;

static const char* LANG[8] = { "english", "arabic", "dutch", "japanese", "spanish", "german", "french", "italian" };
// one message of each language that identifies it: (code, text)
struct Id { ILenum code; const char* text; };
static const Id IDS[8] = { {IL_INTERNAL_ERROR, "internal error"}, {IL_INTERNAL_ERROR, "خطأ داخلي"}, {IL_INTERNAL_ERROR, "Interne fout"}, {IL_INTERNAL_ERROR, "内部エラー"},
    {IL_INTERNAL_ERROR, "error interno"}, {IL_INTERNAL_ERROR, "Interner Fehler"}, {IL_NO_ERROR, "pas d'erreur"}, {IL_NO_ERROR, "niente errore"} };
static bool defined_code(ILenum c) { return c == 0 || (c >= 0x501 && c <= 0x512) || (c >= 0x5E1 && c <= 0x5E7) || c == 0x5FF; }
static std::vector<ILenum> codes() { std::vector<ILenum> v; for (ILenum c = 0; c < 0x700; c++) if (defined_code(c)) v.push_back(c); return v; }

// the complete table of the current language; checks it on the way
static bool table(std::vector<std::string>& t)
{
    t.clear(); std::set<std::string> seen;
    for (ILenum c : codes()) {
        const char* s = (const char*)iluErrorString(c); eval();
        if (!s) return fail("iluErrorString(0x%x) is NULL", c);
        if (!*s) return fail("iluErrorString(0x%x) is empty", c);
        if (strstr(s, "IL_TEXT") || strchr(s, '"') || strchr(s, '\n')) return fail("iluErrorString(0x%x) is garbled: '%s'", c, s);
        if (!seen.insert(s).second) return fail("iluErrorString(0x%x) '%s' is the message of another code", c, s);
        t.push_back(s);
    }
    return true;
}
static std::vector<std::string> english_first[8];
static int identify()
{
    int r = -1;
    for (int l = 0; l < 8; l++) if (!strcmp((const char*)iluErrorString(IDS[l].code), IDS[l].text)) { if (r >= 0) return -2; r = l; }
    return r;
}
SUITE(languages)
{   // every sequence of language switches (including refused ones) of length three
    std::vector<std::string> names; std::vector<ILenum> en;
    for (int l = 0; l < 8; l++) { names.push_back(LANG[l]); en.push_back(ILU_ENGLISH + l); }
    const ILenum BAD[] = { 0, ILU_ENGLISH - 1, ILU_ITALIAN + 1, 7, 0xffffffffu };
    for (ILenum b : BAD) { names.push_back(sfmt("bad%x", b)); en.push_back(b); }
    seqs("switch", names, thorough ? 4 : 3, [&](const std::vector<int>& q) {
        init(); int cur = 0;
        if (identify() != 0) { iluSetLanguage(ILU_ENGLISH); }
        std::vector<std::string> t, u; if (!table(t)) return;
        for (int op : q) {
            transition(); ILboolean r = iluSetLanguage(en[op]); auto e = errors();
            if (op < 8) { if (!r || !e.empty()) { fail("iluSetLanguage(%s) refused", LANG[op]); return; } }
            else if (r || e.size() != 1 || e[0] != IL_INVALID_ENUM) { fail("iluSetLanguage(%x) gives %d and %zu errors", en[op], r, e.size()); return; }
            if (!table(u)) return;
            if (op < 8) { if (op != cur && u == t) { fail("%s and %s have the same messages", LANG[op], LANG[cur]); return; } if (op == cur && u != t) { fail("messages changed"); return; } cur = op; }
            else if (u != t) { fail("a refused language changed the messages"); return; }
            t = u;
            if (identify() != cur) { fail("messages of language %d given for %s", identify(), LANG[cur]); return; }
        }
        outcome(cur); });
    // within one language (beyond the unknown ones): every code of the range
    batch("codes", 8, [&](uint64_t l) {
        init(); note("%s", LANG[l]); iluSetLanguage(ILU_ENGLISH + l); std::string unk = (const char*)iluErrorString(IL_UNKNOWN_ERROR);
        auto chk = [&](ILenum c) { const char* s = (const char*)iluErrorString(c); eval(); if (!s) return fail("code 0x%x gives NULL", c); if (!defined_code(c) && unk != s) return fail("unknown code 0x%x gives '%s'", c, s); return true; };
        for (ILenum c = 0; c < 0x20000; c++) if (!chk(c)) return;
        for (int b = 16; b < 32; b++) for (int d = -3; d <= 3; d++) if (!chk((1u << b) + d)) return;
        for (ILenum c = 0xffffff00u; c != 0; c++) if (!chk(c)) return;
        for (ILenum c = 0x501; c < 0x600; c++) { if (!chk(c | 0x10000) || !chk(c | 0x80000000u)) return; }
        auto e = errors(); if (!e.empty()) fail("iluErrorString recorded %s", ename(e[0]).c_str()); outcome(fnv(unk)); });
    // the library codes name their library, whatever the language
    batch("libs", 8, [&](uint64_t l) {
        init(); note("%s", LANG[l]); iluSetLanguage(ILU_ENGLISH + l);
        const struct { ILenum c; const char* n; } L[] = { {IL_LIB_GIF_ERROR, "gif"}, {IL_LIB_JPEG_ERROR, "jpeg"}, {IL_LIB_PNG_ERROR, "png"}, {IL_LIB_TIFF_ERROR, "tiff"}, {IL_LIB_MNG_ERROR, "mng"}, {IL_LIB_JP2_ERROR, "jp2"}, {IL_LIB_EXR_ERROR, "exr"} };
        for (auto& x : L) { std::string s = (const char*)iluErrorString(x.c); eval(); for (auto& c : s) c = tolower((unsigned char)c); if (s.find(x.n) == std::string::npos) fail("message of the %s library error is '%s'", x.n, s.c_str()); } });
}

SUITE(queries)
{
    // every enum of the range through the string getters of the three libraries
    batch("strings", 3 * 0x2100, [&](uint64_t k) {
        int lib = k / 0x2100; ILenum e = k % 0x2100; ilInit(); iluInit(); ilutInit(); drain(); note("%s(0x%x)", lib == 0 ? "ilGetString" : lib == 1 ? "iluGetString" : "ilutGetString", e);
        bool known = e == IL_VENDOR || e == IL_VERSION_NUM; if (lib == 0) known = known || e == IL_LOAD_EXT || e == IL_SAVE_EXT || (e >= IL_TGA_ID_STRING && e <= IL_TIF_AUTHNAME_STRING) || e == IL_CHEAD_HEADER_STRING;
        State s0 = state(); const char* s = (const char*)(lib == 0 ? ilGetString(e) : lib == 1 ? iluGetString(e) : ilutGetString(e)); auto er = errors(); eval();
        if (known) { bool meta = e < 0x800; if (meta) { if (s && *s) fail("unset string reads '%s'", s); ilSetString(e, "text of the state"); s = (const char*)ilGetString(e); if (s && strcmp(s, "text of the state")) fail("reads '%s' after it was set", s); ilSetString(e, ""); s0 = state(); ilSetString(e, "text of the state"); s = (const char*)ilGetString(e); }
            if (!s) { fail("NULL"); return; } if (!er.empty()) fail("recorded %s", ename(er[0]).c_str()); bool ext = e == IL_VENDOR || e == IL_VERSION_NUM || e == IL_LOAD_EXT || e == IL_SAVE_EXT; if (ext && !*s) fail("empty"); for (const char* p = s; *p; p++) if ((unsigned char)*p < 32) { fail("control character"); break; } outcome(fnv(std::string(s))); }
        else { if (s) fail("text '%s' for an unknown name", s); if (er.size() != 1 || !(er[0] == IL_INVALID_ENUM || er[0] == IL_INVALID_PARAM)) fail("%zu errors for an unknown name", er.size()); }
        if (known && e < 0x800) { ilSetString(e, ""); drain(); } if (!(state() == s0)) fail("state changed: %s", state().diff(s0).c_str()); });
    batch("bigstrings", 3 * 64, [&](uint64_t k) {
        int lib = k / 64; ILenum e = (k & 1) ? (1u << (k % 64 / 2)) | 0xDE2 : ~(1u << (k % 64 / 2)); init(); note("lib%d 0x%x", lib, e); if (e == 0xDE2) return;
        const char* s = (const char*)(lib == 0 ? ilGetString(e) : lib == 1 ? iluGetString(e) : ilutGetString(e)); eval(); if (s && e != 0xDE2) fail("text '%s'", s); if (!s && errors().size() != 1) fail("no error"); });
    // integer queries of ILU and ILUT: known ones answer without error, unknown ones report one error and return 0 / leave the target alone
    batch("integers", 2 * 0x2100, [&](uint64_t k) {
        int lib = k / 0x2100; ILenum e = k % 0x2100; ilInit(); iluInit(); ilutInit(); drain(); note("%s(0x%x)", lib == 0 ? "iluGetInteger" : "ilutGetInteger", e);
        ILint v = 0x5a5a5a5a; lib == 0 ? iluGetIntegerv(e, &v) : ilutGetIntegerv(e, &v); auto er = errors(); eval();
        ILint w = lib == 0 ? iluGetInteger(e) : ilutGetInteger(e); auto er2 = errors();
        if (er.size() > 1 || er2.size() != er.size()) { fail("%zu and %zu errors", er.size(), er2.size()); return; }
        if (er.size()) { if (v != 0x5a5a5a5a) fail("target written although refused"); if (w) fail("%d returned although refused", w); }
        else { if (v != w) fail("two values %d %d", v, w); if (v == 0x5a5a5a5a) fail("nothing written and no error"); }
        if (lib == 0 && e == ILU_VERSION_NUM && (er.size() || v != ILU_VERSION)) fail("version %d", v);
        if (lib == 0 && e == ILU_FILTER && (er.size() || v != ILU_NEAREST)) fail("filter %d", v);
        if (lib == 1 && e == ILUT_VERSION_NUM && (er.size() || v != ILUT_VERSION)) fail("version %d", v); });
    // iluImageParameter: every (name, value) pair of the range
    batch("imageparam", 0x400, [&](uint64_t k) {
        ILenum p = 0x2400 + k; init(); note("iluImageParameter(0x%x)", p); bool okname = p == ILU_FILTER || p == ILU_PLACEMENT;
        iluImageParameter(ILU_FILTER, ILU_NEAREST);
        for (ILenum v = 0x2400; v < 0x2800; v++) {
            bool okf = v == ILU_NEAREST || v == ILU_LINEAR || v == ILU_BILINEAR || v == ILU_SCALE_BOX || v == ILU_SCALE_TRIANGLE || v == ILU_SCALE_BELL || v == ILU_SCALE_BSPLINE || v == ILU_SCALE_LANCZOS3 || v == ILU_SCALE_MITCHELL;
            bool okp = v == ILU_LOWER_LEFT || v == ILU_LOWER_RIGHT || v == ILU_UPPER_LEFT || v == ILU_UPPER_RIGHT || v == ILU_CENTER;
            ILint before = iluGetInteger(ILU_FILTER); drain(); iluImageParameter(p, v); auto er = errors(); eval(); ILint f = iluGetInteger(ILU_FILTER);
            bool legal = okname && (p == ILU_FILTER ? okf : okp);
            if (legal ? !er.empty() : er.size() != 1) { fail("value 0x%x: %zu errors, legal=%d", v, er.size(), legal); return; }
            ILint want = legal && p == ILU_FILTER ? (ILint)v : before; if (f != want) { fail("value 0x%x: filter reads 0x%x, expected 0x%x", v, f, want); return; }
        }
        iluImageParameter(ILU_FILTER, ILU_NEAREST); iluImageParameter(ILU_PLACEMENT, ILU_CENTER); drain(); });
}

static std::vector<std::string> split(const char* s)
{
    std::vector<std::string> v; std::string c; for (const char* p = s;; p++) { if (*p == ' ' || !*p) { v.push_back(c); c.clear(); if (!*p) break; } else c += *p; }
    if (!v.empty() && v.back().empty()) v.pop_back();      // a trailing separator
    return v;
}
static std::vector<std::string> lists[2];
static void getlists() { init(); lists[0] = split((const char*)ilGetString(IL_LOAD_EXT)); lists[1] = split((const char*)ilGetString(IL_SAVE_EXT)); }
// formats of this build: refused although they have an extension
static bool loads(const char* fn, ILenum* type = 0)
{
    ILenum t = ilTypeFromExt(fn); if (type) *type = t; if (t == IL_TYPE_UNKNOWN) { drain(); return false; }
    Bytes b(3, 0x11); drain(); ILboolean r = ilLoadL(t, b.data(), (ILuint)b.size()); auto e = errors(); if (r) return true;
    for (ILenum x : e) if (x == IL_INVALID_ENUM) return false; return true;
}
static bool saves(const std::string& ext)
{
    std::string fn = workdir() + "/x." + ext; unlink(fn.c_str()); drain(); ILboolean r = ilSaveImage(fn.c_str()); auto e = errors(); unlink(fn.c_str());
    if (r) return true; for (ILenum x : e) if (x == IL_INVALID_EXTENSION) return false; return true;
}
static std::string variant(const std::string& s, int m) { std::string r = s; for (size_t i = 0; i < r.size(); i++) if ((m == 1) || (m == 2 && i % 2 == 0)) r[i] = toupper(r[i]); return r; }
SUITE(extensions)
{
    getlists();
    batch("shape", 2, [&](uint64_t k) {
        init(); note("%s list", k ? "save" : "load"); std::set<std::string> s; eval();
        for (auto& x : lists[k]) { if (x.empty()) { fail("empty entry (double separator)"); return; } for (char c : x) if (!isalnum((unsigned char)c) || isupper((unsigned char)c)) { fail("entry '%s'", x.c_str()); return; } if (!s.insert(x).second) { fail("entry '%s' twice", x.c_str()); return; } }
        if (s.size() < 10) fail("only %zu entries", s.size()); });
    // each listed extension is usable, in any capitalisation; nothing else is: all names of up to three (thorough: four) characters, and every single edit of every listed name
    std::set<std::string> names; const std::string A = "abcdefghijklmnopqrstuvwxyz0123456789";
    for (int k = 0; k < 2; k++) for (auto& x : lists[k]) { names.insert(x); for (size_t i = 0; i <= x.size(); i++) { if (i < x.size()) names.insert(x.substr(0, i) + x.substr(i + 1)); for (char c : A) { names.insert(x.substr(0, i) + c + x.substr(i)); if (i < x.size()) names.insert(x.substr(0, i) + c + x.substr(i + 1)); } } }
    for (const char* x : { "dicom", "texture", "jpeg2000", "exrs", "openexr", "tiffs", "header", "image", "palette", "ppmz", "psd2", "jfif", "dib" }) names.insert(x);
    names.erase("");
    std::vector<std::string> nv(names.begin(), names.end());
    auto test = [&](const std::string& x, int m) {
        std::string v = variant(x, m), fn = "dir.ext/name." + v; eval();
        bool inl = std::find(lists[0].begin(), lists[0].end(), x) != lists[0].end(), ins = std::find(lists[1].begin(), lists[1].end(), x) != lists[1].end();
        if (m && v == x) return true;
        if (loads(fn.c_str()) != inl) return fail("'%s' is %s the load list, but a load of that name is %s", v.c_str(), inl ? "in" : "not in", inl ? "refused" : "dispatched");
        Bytes p = pattern(2 * 2 * 3, 1); mk(2, 2, 1, IL_RGB, IL_UNSIGNED_BYTE, p.data()); drain();
        if (x != "pal" && x != "mng" && saves(v) != ins) return fail("'%s' is %s the save list, but a save under that name is %s", v.c_str(), ins ? "in" : "not in", ins ? "refused" : "accepted");
        outcome(inl * 2 + ins); return true; };
    batch("edits", nv.size() * 3, [&](uint64_t k) { init(); note("%s/%d", nv[k / 3].c_str(), (int)(k % 3)); test(nv[k / 3], k % 3); });
    uint64_t n = 36 + 36 * 36 + 36 * 36 * 36; if (thorough) n += 36ull * 36 * 36 * 36;
    batch("all", (n + 35) / 36, [&](uint64_t blk) {
        init(); note("block %llu", (unsigned long long)blk);
        for (uint64_t k = blk * 36; k < blk * 36 + 36 && k < n; k++) { uint64_t r = k, len = 1, c = 36; while (r >= c) { r -= c; c *= 36; len++; } std::string x; for (uint64_t i = 0; i < len; i++) { x += A[r % 36]; r /= 36; } if (!test(x, 0)) return; } });
}
