// C20: frame, mipmap, layer and face chains against a model tree of nodes with four links each.
#include "ilx.h"
#include <memory>
using namespace mc; using namespace ilx;
enum { MIP, NXT, LAY, FAC };
static const char* KN[] = { "mipmap", "image", "layer", "face" };
struct Node { int tag = 0, w = 1, h = 1, d = 1; std::shared_ptr<Node> l[4]; };
typedef std::shared_ptr<Node> P;
struct World { P base, cur; ILuint name; int next; std::vector<ILenum> err; World() : base(new Node), cur(base), name(0), next(0) {} };
static int len(const P& n, int k) { int c = 0; for (P x = n->l[k]; x; x = x->l[k]) c++; return c; }
static ILboolean act(int k, ILuint n) { return k == MIP ? ilActiveMipmap(n) : k == NXT ? ilActiveImage(n) : k == LAY ? ilActiveLayer(n) : ilActiveFace(n); }
static const ILenum NUMQ[] = { IL_NUM_MIPMAPS, IL_NUM_IMAGES, IL_NUM_LAYERS, IL_NUM_FACES }, ACTQ[] = { IL_ACTIVE_MIPMAP, IL_ACTIVE_IMAGE, IL_ACTIVE_LAYER, IL_ACTIVE_FACE };
// the selected image is the model's one, and everything it reports agrees
static bool here(World& w, const P& n, const char* where)
{
    eval(); int t = ilGetInteger(IL_IMAGE_DURATION); if (t != n->tag) return fail("%s: image %d is selected instead of image %d", where, t, n->tag);
    if (ilGetInteger(IL_IMAGE_WIDTH) != n->w || ilGetInteger(IL_IMAGE_HEIGHT) != n->h || ilGetInteger(IL_IMAGE_DEPTH) != n->d) return fail("%s: image %d is %dx%dx%d, expected %dx%dx%d", where, t, ilGetInteger(IL_IMAGE_WIDTH), ilGetInteger(IL_IMAGE_HEIGHT), ilGetInteger(IL_IMAGE_DEPTH), n->w, n->h, n->d);
    for (int k = 0; k < 4; k++) {
        int c = len(n, k), g = ilGetInteger(NUMQ[k]); if (g != c) return fail("%s: image %d reports %d %ss, it has %d", where, t, g, KN[k], c);
        ILint gv = -7; ilGetIntegerv(NUMQ[k], &gv); if (gv != c) return fail("%s: %s count through ilGetIntegerv is %d, expected %d", where, KN[k], gv, c);
        int pos = 0, i = 0; if (n != w.base) for (P x = w.base->l[k]; x; x = x->l[k]) { i++; if (x == n) { pos = i; break; } }
        g = ilGetInteger(ACTQ[k]); if (g != pos) return fail("%s: IL_ACTIVE_%s is %d, expected %d", where, KN[k], g, pos);
    }
    if ((ILuint)ilGetInteger(IL_CUR_IMAGE) != w.name) return fail("%s: name %d is bound, expected %u", where, ilGetInteger(IL_CUR_IMAGE), w.name);
    return true;
}
static bool errs(World& w, const char* where)
{
    auto e = errors(); if (e.size() != w.err.size()) return fail("%s: %zu errors recorded (%s), expected %zu", where, e.size(), e.empty() ? "-" : ename(e[0]).c_str(), w.err.size());
    for (size_t i = 0; i < e.size(); i++) if (e[i] != w.err[w.err.size() - 1 - i]) return fail("%s: error %s, expected %s", where, ename(e[i]).c_str(), ename(w.err[w.err.size() - 1 - i]).c_str());
    w.err.clear(); return true;
}
// walks every member of every chain reachable from the base
typedef std::vector<std::pair<int, int>> Path;
static bool goTo(World& w, const Path& p) { ilBindImage(w.name); for (auto& s : p) if (!act(s.first, s.second)) return fail("cannot select %s %d", KN[s.first], s.second); return true; }
static bool walk(World& w, const P& n, Path p, int depth, uint64_t& h)
{
    if (!goTo(w, p) || !here(w, n, "tree walk")) return false; h = h * 31 + n->tag; transition();
    if (depth > 3) return true;
    for (int k = 0; k < 4; k++) {
        if (!p.empty() && p.back().first == k) continue;
        int c = len(n, k); P x = n; for (int j = 1; j <= c; j++) { x = x->l[k]; Path q = p; q.push_back({k, j}); h = h * 7 + k; if (!walk(w, x, q, depth + 1, h)) return false; }
        // beyond the end: refused without moving
        for (ILuint j : { (ILuint)c + 1, (ILuint)c + 2, 0x7fffffffu, 0xffffffffu }) { if (!goTo(w, p)) return false; if (act(k, j)) return fail("selecting %s %u of %d succeeds", KN[k], j, c); w.err.push_back(IL_ILLEGAL_OPERATION); if (!errs(w, "beyond the end") || !here(w, n, "after a refused selection")) return false; }
        if (!goTo(w, p)) return false; if (!act(k, 0)) return fail("selecting %s 0 fails", KN[k]); if (!here(w, n, "selection 0")) return false;
    }
    return true;
}
static bool full(World& w) { uint64_t h = 0; if (!errs(w, "before the walk")) return false; bool ok = walk(w, w.base, {}, 0, h) && errs(w, "tree walk"); outcome(h); return ok; }
static Path find(World& w, const P& n) { // some path to n: breadth first
    std::vector<std::pair<P, Path>> q{{w.base, {}}}; for (size_t i = 0; i < q.size() && i < 400; i++) { if (q[i].first == n) return q[i].second; for (int k = 0; k < 4; k++) { if (q[i].second.size() && q[i].second.back().first == k) continue; int j = 0; for (P x = q[i].first->l[k]; x; x = x->l[k]) { Path p = q[i].second; p.push_back({k, ++j}); q.push_back({x, p}); } } } return {}; }
// gives the members of a chain distinguishable contents, then returns to the selected image
static bool tag(World& w, const P& from, int k)
{
    Path p = find(w, from), pc = find(w, w.cur); int c = len(from, k); P x = from;
    for (int j = 1; j <= c; j++) { x = x->l[k]; if (!goTo(w, p) || !act(k, j)) return fail("cannot select new %s %d of %d", KN[k], j, c); x->tag = ++w.next; ilSetDuration(x->tag); }
    return goTo(w, pc);
}
static P chain(int k, int n, int ww = 1, int hh = 1, int dd = 1) { P head; P* at = &head; for (int i = 0; i < n; i++) { at->reset(new Node); (*at)->w = ww; (*at)->h = hh; (*at)->d = dd; at = &(*at)->l[k]; } return head; }
static void create(World& w, int k, ILuint n)
{
    transition(); ILuint r = ilCreateSubImage(k == MIP ? IL_SUB_MIPMAP : k == NXT ? IL_SUB_NEXT : IL_SUB_LAYER, n);
    if (r != n) { fail("ilCreateSubImage(%s, %u) returned %u", KN[k], n, r); return; }
    if (n) { w.cur->l[k] = chain(k, n); tag(w, w.cur, k); }
}
static void reg(World& w, int k, ILuint n)
{
    transition(); ILboolean r = k == MIP ? ilRegisterMipNum(n) : k == NXT ? ilRegisterNumImages(n) : ilRegisterNumFaces(n); if (!r) { fail("register %s %u failed", KN[k], n); return; }
    w.cur = w.base; w.cur->l[k] = chain(k, n); tag(w, w.cur, k);
}
static void select(World& w, int k, ILuint n)
{
    transition(); P x = w.cur; ILuint i = 0; while (i < n && x) { x = x->l[k]; i++; } ILboolean r = act(k, n);
    if (r != (x != 0)) { fail("selecting %s %u returned %d", KN[k], n, r); return; } if (x) w.cur = x; else w.err.push_back(IL_ILLEGAL_OPERATION);
}
static void mips(World& w)
{
    transition(); if (!iluBuildMipmaps()) { fail("iluBuildMipmaps failed"); return; }
    P n = w.cur; n->l[MIP].reset(); int a = n->w, b = n->h, c = n->d;
    while (a > 1 || b > 1 || c > 1) { a = a > 1 ? a / 2 : 1; b = b > 1 ? b / 2 : 1; c = c > 1 ? c / 2 : 1; n->l[MIP] = chain(MIP, 1, a, b, c); n = n->l[MIP]; }
    tag(w, w.cur, MIP);
}
static void tex(World& w, int a, int b, int c) { transition(); if (!ilTexImage(a, b, c, 1, IL_LUMINANCE, IL_UNSIGNED_BYTE, 0)) { fail("ilTexImage"); return; } memset(ilGetData(), 7, a * b * c); w.cur->w = a; w.cur->h = b; w.cur->d = c; w.cur->tag = ++w.next; for (auto& l : w.cur->l) l.reset(); ilSetDuration(w.cur->tag); }
static void start(World& w) { init(); ilGenImages(1, &w.name); ilBindImage(w.name); tex(w, 4, 3, 1); }
struct Op { std::string n; std::function<void(World&)> f; };
static std::vector<Op> ops(bool small)
{
    std::vector<Op> o;
    for (int k : { MIP, NXT, LAY }) for (ILuint n : { 1u, 2u, 3u }) if (!(small && n == 1)) o.push_back({ sfmt("create_%s_%u", KN[k], n), [k, n](World& w) { create(w, k, n); } });
    for (int k = 0; k < 4; k++) for (ILuint n : { 1u, 2u, 3u }) if (!(small && n == 3)) o.push_back({ sfmt("select_%s_%u", KN[k], n), [k, n](World& w) { select(w, k, n); } });
    for (int k : { MIP, NXT, FAC }) o.push_back({ sfmt("register_%s_2", KN[k]), [k](World& w) { reg(w, k, 2); } });
    o.push_back({ "bind", [](World& w) { ilBindImage(w.name); w.cur = w.base; } });
    o.push_back({ "buildmipmaps", [](World& w) { mips(w); } });
    o.push_back({ "tex5x2", [](World& w) { tex(w, 5, 2, 1); } });
    return o;
}
static bool run(World& w, const std::vector<Op>& o, const std::vector<int>& s) { for (int i : s) { o[i].f(w); if (nfails()) return false; if (!errs(w, o[i].n.c_str()) || !here(w, w.cur, o[i].n.c_str())) return false; } return full(w); }
SUITE(sequences)   // every sequence of creations, selections, registrations, mipmap builds and rebinds; the whole tree walked at the end
{
    static std::vector<Op> o = ops(!thorough); static std::vector<std::string> nm; for (auto& x : o) nm.push_back(x.n);
    seqs("ops", nm, thorough ? 4 : 3, [](const std::vector<int>& s) { World w; start(w); if (nfails()) return; run(w, o, s); });
}
SUITE(counts)   // every chain length 0..40 (and long ones) of every kind, from the base and from inside every other chain, every selection in and beyond the range
{
    batch("len", 4 * 44 * 5, [](uint64_t q) {
        int k = q % 4, n = q / 4 % 44, from = q / 176; if (n >= 40) n = 100 + (n - 40) * 300; note("%s x %d from %d", KN[k], n, from); World w; start(w);
        if (from) { if (from - 1 == FAC) reg(w, FAC, 2); else create(w, from - 1, 2); select(w, from - 1, 2); if (nfails()) return; }
        if (k == FAC) reg(w, k, n); else if (n) { create(w, k, n); } else create(w, k, 0); if (nfails()) return;
        if (n < 60) { if (k != from - 1 || k == FAC) { full(w); } else { full(w); } return; }
        here(w, w.cur, "long chain"); P x = w.cur; select(w, k, n); here(w, w.cur, "last of a long chain"); select(w, k, 1); here(w, w.cur, "past the last"); errs(w, "past the last"); });
}
SUITE(refused)   // bad kinds and impossible requests change nothing
{
    batch("enum", 0x1000, [](uint64_t e) { if (e == IL_SUB_NEXT || e == IL_SUB_MIPMAP || e == IL_SUB_LAYER) return; note("%d", (int)e); World w; start(w); create(w, MIP, 2); create(w, NXT, 2); create(w, LAY, 1); select(w, NXT, 1); if (nfails()) return;
        if (ilCreateSubImage(e, 3)) { fail("ilCreateSubImage accepts kind %d", (int)e); return; } w.err.push_back(IL_INVALID_ENUM); if (errs(w, "bad kind")) { ilGetInteger(IL_IMAGE_WIDTH); full(w); } });
}
SUITE(mipmaps)   // iluBuildMipmaps: number, size, format and contents of every level, over sizes, depths, formats, types and filters; earlier chains replaced; other chains kept
{
    static const int S[][3] = { {1,1,1}, {2,1,1}, {1,2,1}, {3,1,1}, {2,2,1}, {5,3,1}, {8,8,1}, {7,9,1}, {16,1,1}, {1,1,4}, {4,2,3}, {5,6,7}, {33,17,1}, {1,32,2} };
    static const ILenum FI[] = { ILU_NEAREST, ILU_LINEAR, ILU_BILINEAR };
    batch("build", 14 * 8 * 9 * 3 * 2, [](uint64_t q) {
        const int* s = S[q % 14]; ILenum f = FORMATS[q / 14 % 8], t = TYPES[q / 112 % 9], fi = FI[q / 1008 % 3], org = q / 3024 ? IL_ORIGIN_LOWER_LEFT : IL_ORIGIN_UPPER_LEFT;
        if (f == IL_COLOUR_INDEX && t != IL_UNSIGNED_BYTE) return; note("%dx%dx%d %s %s filter %x", s[0], s[1], s[2], fname(f), tname(t), fi);
        init(); ILuint n; ilGenImages(1, &n); ilBindImage(n); Bytes b = typed_pattern(s[0] * s[1] * s[2] * channels(f), t, 5); ilx::Bytes pal = pattern(48, 3); if (f == IL_COLOUR_INDEX) for (auto& x : b) x &= 15;
        if (f == IL_COLOUR_INDEX ? !mkpal(s[0], s[1], IL_PAL_RGB24, 16, b.data(), pal.data(), org, s[2]) : !mk(s[0], s[1], s[2], f, t, b.data(), org)) { fail("setup"); return; }
        ilCreateSubImage(IL_SUB_MIPMAP, 3); Img base = snap(); base.nmip = 0; iluImageParameter(ILU_FILTER, fi); drain();
        if (!iluBuildMipmaps()) { fail("refused: %s", ename(firsterr()).c_str()); return; } auto e = errors(); if (!e.empty()) { fail("succeeds with %s", ename(e[0]).c_str()); return; }
        std::vector<std::vector<int>> want; int a = s[0], bb = s[1], c = s[2]; while (a > 1 || bb > 1 || c > 1) { a = a > 1 ? a / 2 : 1; bb = bb > 1 ? bb / 2 : 1; c = c > 1 ? c / 2 : 1; want.push_back({a, bb, c}); }
        if (ilGetInteger(IL_NUM_MIPMAPS) != (int)want.size()) { fail("%d levels, expected %zu", ilGetInteger(IL_NUM_MIPMAPS), want.size()); return; }
        Img now = snap(); now.nmip = 0; if (now != base) { fail("the base image changed:%s", base.diff(now).c_str()); return; }
        // each level equals the scaled previous level
        ILuint m; ilGenImages(1, &m); uint64_t h = 0;
        for (size_t i = 0; i < want.size(); i++) {
            ilBindImage(n); if (i) ilActiveMipmap(i); Img prev = snap(); ilBindImage(n); if (!ilActiveMipmap(i + 1)) { fail("level %zu", i + 1); return; } Img g = snap(); eval();
            if (g.w != want[i][0] || g.h != want[i][1] || g.d != want[i][2]) { fail("level %zu is %dx%dx%d", i + 1, g.w, g.h, g.d); return; }
            if (g.origin != base.origin || g.type != base.type || (f != IL_COLOUR_INDEX && g.format != base.format)) { fail("level %zu has another format, type or origin", i + 1); return; }
            ilBindImage(m); if (prev.format == IL_COLOUR_INDEX ? !mkpal(prev.w, prev.h, prev.paltype, prev.palcols, prev.data.data(), prev.pal.data(), prev.origin, prev.d) : !mk(prev.w, prev.h, prev.d, prev.format, prev.type, prev.data.data(), prev.origin)) { fail("copy"); return; }
            if (!iluScale(g.w, g.h, g.d)) { fail("scale"); return; } Img sc = snap();
            // an indexed base gets its levels in true colour unless the filter only picks pixels
            if (sc.format != g.format) { if (sc.format != IL_COLOUR_INDEX) { fail("level %zu is %s", i + 1, fname(g.format)); return; } continue; }
            if (sc.data != g.data || sc.pal != g.pal) { fail("level %zu is not the scaled previous level: %s, expected %s", i + 1, hex(g.data, 24).c_str(), hex(sc.data, 24).c_str()); return; } h = h * 31 + g.hash();
        }
        outcome(h); });
}
SUITE(loaded)   // chains built by the loaders: the number of frames and levels a file holds
{
    batch("gif", 12 * 4, [](uint64_t q) {   // animated GIF with q frames
        int frames = 1 + q % 12, delay = q / 12; note("gif %d frames", frames); init(); ILuint n; ilGenImages(1, &n); ilBindImage(n); ilGenImages(1, &n); ilBindImage(n); ilCreateSubImage(IL_SUB_NEXT, 3); ilCreateSubImage(IL_SUB_MIPMAP, 2);
        Bytes f = { 'G','I','F','8','9','a', 2,0, 2,0, 0x80, 0, 0, 255,0,0, 0,255,0 };
        for (int i = 0; i < frames; i++) { Bytes x = { 0x21, 0xf9, 4, 0, (uint8_t)(i + delay), 0, 0, 0, 0x2c, 0,0,0,0, 2,0,2,0, 0, 2, 3 };
            // LZW codes: clear(4), the four pixels, end(5); the code size grows to 4 bits after the third pixel
            uint32_t acc = 0; int nb = 0; auto put = [&](int c, int w) { acc |= (uint32_t)c << nb; nb += w; }; put(4, 3); for (int k = 0; k < 4; k++) put((i >> k) & 1, k < 3 ? 3 : 4); put(5, 4); for (int k = 0; k < 3; k++) x.push_back(acc >> (8 * k)); x.push_back(0); f.insert(f.end(), x.begin(), x.end()); }
        f.push_back(0x3b);
        if (!ilLoadL(IL_GIF, f.data(), f.size())) { fail("load fails: %s", ename(firsterr()).c_str()); return; }
        eval(); if (ilGetInteger(IL_NUM_IMAGES) != frames - 1) { fail("%d further images, the file holds %d frames", ilGetInteger(IL_NUM_IMAGES), frames); return; }
        if (ilGetInteger(IL_NUM_MIPMAPS)) fail("mipmaps of the earlier image remain");
        for (int i = 0; i < frames; i++) { ilBindImage(n); if (!ilActiveImage(i)) { fail("frame %d", i); return; } Img g = snap(); for (int k = 0; k < 4; k++) { const uint8_t* p = g.at(k % 2, k / 2); const uint8_t* c = g.format == IL_COLOUR_INDEX ? &g.pal[*p * g.palbpp] : p; int want = (i >> k) & 1; if ((c[0] == 255) != !want || (c[1] == 255) != want) { fail("frame %d pixel %d is not the one stored (%s)", i, k, hex(g.data).c_str()); return; } } if (ilGetInteger(IL_NUM_IMAGES) != frames - 1 - i) { fail("rest of the chain"); return; } }
        outcome(frames); });
    batch("wal", 1, [](uint64_t) { init(); ILuint n; ilGenImages(1, &n); ilBindImage(n); Bytes f(100 + 16 * 16 + 64 + 16 + 4); auto le = [&](int o, uint32_t v) { for (int i = 0; i < 4; i++) f[o + i] = v >> (8 * i); }; memcpy(&f[0], "tex", 3); le(32, 16); le(36, 16); le(40, 100); le(44, 356); le(48, 420); le(52, 436); for (int i = 100; i < 440; i++) f[i] = i;
        if (!ilLoadL(IL_WAL, f.data(), f.size())) { fail("load: %s", ename(firsterr()).c_str()); return; } if (ilGetInteger(IL_NUM_MIPMAPS) != 3) { fail("%d mipmaps", ilGetInteger(IL_NUM_MIPMAPS)); return; }
        for (int i = 0; i < 4; i++) { ilBindImage(n); ilActiveMipmap(i); eval(); if (ilGetInteger(IL_IMAGE_WIDTH) != 16 >> i || ilGetInteger(IL_NUM_MIPMAPS) != 3 - i || ilGetInteger(IL_ACTIVE_MIPMAP) != i) { fail("level %d", i); return; } if (ilGetData()[0] != f[i == 0 ? 100 : i == 1 ? 356 : i == 2 ? 420 : 436]) fail("level %d holds other data", i); } });
}
