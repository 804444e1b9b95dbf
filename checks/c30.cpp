// C30 - files produced by independent encoders load with exactly the picture they encode.
#include "files.h"
#include "conv.h"
#include "decoders.h"
using namespace mc; using namespace ilx; using namespace files;
static std::string same(const Fr& f, const Img& m, double tol)
{
    if (m.w != f.w || m.h != f.h || m.d != f.d) return sfmt("is %dx%dx%d, not %dx%dx%d", m.w, m.h, m.d, f.w, f.h, f.d);
    if (f.dur >= 0 && m.dur != f.dur) return sfmt("has duration %d, not %d", m.dur, f.dur); if (f.ox >= 0 && (m.offx != f.ox || m.offy != f.oy)) return sfmt("is at %d,%d, not %d,%d", m.offx, m.offy, f.ox, f.oy);
    if (f.index) { if (m.bpp != 1 || m.type != IL_UNSIGNED_BYTE) return "is not indexed"; for (int y = 0; y < f.h; y++) for (int x = 0; x < f.w; x++) if (*m.at(x, y) != f.p[y * f.w + x].c[0]) return sfmt("index at %d,%d is %d, not %g", x, y, *m.at(x, y), f.p[y * f.w + x].c[0]); return ""; }
    double one = conv::umax(m.type); if (m.bpp == 0) return "has no channels";
    for (int z = 0; z < f.d; z++) for (int y = 0; y < f.h; y++) for (int x = 0; x < f.w; x++) { const uint8_t* p = m.at(x, y, z); if (!p) return "has too little data"; auto q = conv::decode(p, m.format, m.type, &m.pal, m.paltype); double o = m.format == IL_COLOUR_INDEX ? 255 : one; const P& w = f.p[(z * f.h + y) * f.w + x]; if (w.c[0] < 0 && q.c[3] == 0) continue; // transparent: any colour
        for (int c = 0; c < 4; c++) { double v = q.c[c] * 255 / o, d = fabs(v - w.c[c]); if (!(d <= tol + (conv::isf(m.type) ? fabs(w.c[c]) * 1e-2 * (tol != 0) : 0) + 1e-3)) return sfmt("pixel %d,%d,%d is %.6g,%.6g,%.6g,%.6g, not %.6g,%.6g,%.6g,%.6g (%s %s)", x, y, z, q.c[0] * 255 / o, q.c[1] * 255 / o, q.c[2] * 255 / o, q.c[3] * 255 / o, w.c[0], w.c[1], w.c[2], w.c[3], fname(m.format), tname(m.type)); } }
    return "";
}
static void one(const File& f)
{
    note("%s", f.name.c_str()); ilShutDown(); init(); ILuint n = 0; ilGenImages(1, &n); ilBindImage(n); drain(); step("ilLoadL(%s), %zu bytes %s", f.ext, f.b.size(), hex(f.b, 200).c_str());
    if (getenv("MC_DUMP")) writefile(std::string(getenv("MC_DUMP")) + "/" + f.name, f.b);
    bool k = ilLoadL(f.type, f.b.data(), f.b.size()); auto e = errors(); if (!k) { fail("refused, error %x", e.empty() ? 0 : e[0]); return; } if (!e.empty()) { fail("loads, but records error %x", e[0]); return; }
    Tree t = snaptree(n); outcome(t.hash()); transition(); if (t.imgs.size() + 1 != f.fr.size()) { fail("has %zu frames, not %zu", t.imgs.size() + 1, f.fr.size()); return; }
    if (t.mips.size() != f.mip.size()) { fail("has %zu mipmaps, not %zu", t.mips.size(), f.mip.size()); return; }
    for (size_t i = 0; i < f.fr.size(); i++) { std::string d = same(f.fr[i], i ? t.imgs[i - 1].img : t.img, f.tol); eval(1 + f.fr[i].p.size()); if (!d.empty()) { fail("frame %zu %s", i, d.c_str()); return; } }
    for (size_t i = 0; i < f.mip.size(); i++) { std::string d = same(f.mip[i], t.mips[i].img, f.tol); eval(1 + f.mip[i].p.size()); if (!d.empty()) { fail("mipmap %zu %s", i + 1, d.c_str()); return; } }
    if (!f.face.empty()) { for (size_t i = 0; i < f.face.size(); i++) { const Tree& F = i ? t.imgs[i - 1] : t; if (F.faces.size() + 1 != f.face[i].size()) { fail("frame %zu has %zu faces, not %zu", i, F.faces.size() + 1, f.face[i].size()); return; }
            for (size_t k = 0; k < f.face[i].size(); k++) { const Tree& G = k ? F.faces[k - 1] : F; if (G.mips.size() + 1 != f.face[i][k].size()) { fail("frame %zu face %zu has %zu mipmaps, not %zu", i, k, G.mips.size(), f.face[i][k].size() - 1); return; }
                for (size_t m = 0; m < f.face[i][k].size(); m++) { const Fr& q = f.face[i][k][m]; std::string d = same(q, m ? G.mips[m - 1].img : G.img, f.tol); eval(1 + q.p.size()); if (!d.empty()) { fail("frame %zu face %zu level %zu %s", i, k, m, d.c_str()); return; } } } } }
    else if (!t.faces.empty()) { fail("has %zu faces", t.faces.size() + 1); return; }
    if (f.sig && (ILenum)ilDetermineTypeL(f.b.data(), f.b.size()) != f.type) { drain(); fail("is taken for type %x", (unsigned)ilDetermineTypeL(f.b.data(), f.b.size())); return; }
}
static void run(const char* name, void (*gen)(const Sink&, bool))
{
    static std::map<std::string, std::vector<File>> all; auto& v = all[name]; if (v.empty()) gen([&](File&& f) { v.push_back(std::move(f)); }, thorough);
    batch(name, v.size(), [&v](uint64_t q) { set_cpu_limit(20); one(v[q]); });
}
SUITE(bmp) { run("bmp", bmps); }
SUITE(bmprle) { run("bmprle", files::bmprle); }
SUITE(pcx) { run("pcx", pcxs); }
SUITE(pnm) { run("pnm", pnms); }
SUITE(sgi) { run("sgi", sgis); }
SUITE(tga) { run("tga", tgas); }
SUITE(psd) { run("psd", psds); }
SUITE(hdr) { run("hdr", hdrs); }
SUITE(small) { run("small", smalls); }
SUITE(vtf) { run("vtf", vtfs); }
SUITE(png) { run("png", pngs); }
SUITE(tiff) { run("tiff", tiffs); }
SUITE(gif) { run("gif", gifs); }
SUITE(sun) { run("sun", suns); }
SUITE(ilbm) { run("ilbm", ilbms); }
SUITE(ico) { run("ico", icos); }
SUITE(dcx) { run("dcx", dcxs); }
SUITE(pic) { run("pic", pics); }
SUITE(xpm) { run("xpm", xpms); }
SUITE(dpx) { run("dpx", dpxs); }
SUITE(ktx) { run("ktx", ktxs); }
SUITE(tpl) { run("tpl", tpls); }
SUITE(blp) { run("blp", blps); }
SUITE(iwi) { run("iwi", iwis); }
SUITE(rot) { run("rot", rots); }
SUITE(scitex) { run("scitex", scitexs); }
SUITE(mdl) { run("mdl", mdls); }
SUITE(fits) { run("fits", fitss); }
SUITE(dicom) { run("dicom", dicoms); }
SUITE(raw) { run("raw", raws); }
SUITE(dds) { run("dds", ddss); }
SUITE(texture) { run("texture", textures); }
SUITE(mp3) { run("mp3", mp3s); }
SUITE(icns) { run("icns", icnss); }
SUITE(iff) { run("iff", iffs); }
SUITE(psp) { run("psp", psps); }
SUITE(utx) { run("utx", utxs); }
SUITE(mng) { run("mng", mngs); }
// PhotoCD: the three resolutions in one file; the row order depends on a poorly documented orientation byte, so the pictures are symmetric
SUITE(pcd)
{
    batch("pcd", 3 * 3 * 4, [](uint64_t q) { set_cpu_limit(30); int pn = q % 3; q /= 3; int want = q % 3; int salt = q / 3; static const struct { int w, h; size_t at; } R[] = { { 192, 128, 0x2000 }, { 384, 256, 0xb800 }, { 768, 512, 0x30000 } }; note("PCD resolution %d asked for after %d, content %d", pn, want, salt);
        Bytes b(R[2].at + R[2].w * R[2].h * 3 / 2, 0); memcpy(&b[0], "PCD_OPA", 7); memcpy(&b[0x800], "PCD_IPI", 7); b[72] = salt & 1 ? 8 : 0; std::vector<double> ex; int w = R[pn].w, h = R[pn].h;
        for (int r = 0; r < 3; r++) { int W = R[r].w, H = R[r].h; uint8_t* p = &b[R[r].at]; Bytes n = rnd(W * 3, salt * 5 + r); auto f = [&](int i, int k) { return salt == 3 ? (i * 3 + k * 11) & 255 : n[(i + k * W) % (W * 3)]; };
            for (int y = 0; y < H / 2; y++) { int s = std::min(y, H / 2 - 1 - y); Bytes Y0(W), Y1(W), C(W); for (int x = 0; x < W; x++) { uint8_t u = f(x, s % 7), v = f(x + 3, s % 5); if (y < H / 4) { Y0[x] = u; Y1[x] = v; } else { Y0[x] = v; Y1[x] = u; } C[x] = f(x + 9, s % 3) / 2 + 64; } memcpy(p, &Y0[0], W); memcpy(p + W, &Y1[0], W); memcpy(p + 2 * W, &C[0], W); p += 3 * W;
                if (r == pn) for (int k = 0; k < 2; k++) for (int x = 0; x < W; x++) { double L = (k ? Y1 : Y0)[x] * 0.005498 * 256, c1 = C[x / 2] - 156., c2 = C[W / 2 + x / 2] - 137.; ex.push_back(L + 0.0051681 * 256 * c2); ex.push_back(L - 0.0015446 * 256 * c1 - 0.0026325 * 256 * c2); ex.push_back(L + 0.0079533 * 256 * c1); } } }
        ilShutDown(); init(); ILuint n = ilGenImage(); ilBindImage(n); ilSetInteger(IL_PCD_PICNUM, want); ilSetInteger(IL_PCD_PICNUM, pn); drain(); transition(); if (!ilLoadL(IL_PCD, b.data(), b.size())) { fail("refused"); return; } auto e = errors(); if (!e.empty()) { fail("loads, but records error %x", e[0]); return; } Img m = snap(); if (m.w != w || m.h != h || m.format != IL_RGB || m.type != IL_UNSIGNED_BYTE) { fail("is %dx%d", m.w, m.h); return; }
        outcome(fnv(m.data.data(), m.data.size())); for (size_t i = 0; i < ex.size(); i++) { double v = std::min(255., std::max(0., ex[i])); eval(); if (fabs(m.data[i] - v) > 1.01) { fail("sample %zu (row %zu) is %d, not %g", i, i / 3 / w, m.data[i], v); return; } } });
}

// JPEG files of the reference encoder, with markers of every length around the sizes of read buffers; what they show is what the reference decoder finds
SUITE(jpeg)
{
    struct J { int w, h, space, samp, mode, restart; size_t marker; int quality; }; static std::vector<J> v; if (v.empty()) { int N = thorough ? 20 : 10; for (int w = 1; w <= N; w++) for (int h = 1; h <= N; h++) for (int sp = 0; sp < 6; sp++) v.push_back({ w, h, sp, (w + h) % 5, (w * 3 + h) % 4, h % 3, 0, w % 2 ? 100 : 40 });
        for (int w : { 17, 33 }) for (int sp = 0; sp < 6; sp++) for (int sa = 0; sa < (sp ? 5 : 1); sa++) for (int mo = 0; mo < 4; mo++) for (int re = 0; re < 4; re++) for (int qu : { 5, 75, 100 }) v.push_back({ w, 21, sp, sa, mo, re, 0, qu });
        for (size_t m : { 1, 2, 100, 65000, 65001, 70000, 195000 }) v.push_back({ 9, 7, 1, 0, 0, 0, m, 90 }); for (size_t base : { 2048, 4096, 8192, 12288, 16384, 32768, 61440 }) for (int k = thorough ? -700 : -48; k <= 8; k++) v.push_back({ 5, 4, 1 - (k & 1), 0, 0, 0, base + k, 90 }); for (int s : { 100, 300 }) for (int mo = 0; mo < 4; mo++) v.push_back({ s, s / 2 + 1, 1, 3, mo, 0, 0, 95 }); }
    batch("jpeg", v.size(), [](uint64_t q) { const J& j = v[q]; File f; f.name = sfmt("JPEG %dx%d space %d sampling %d mode %d restart %d marker %zu quality %d", j.w, j.h, j.space, j.samp, j.mode, j.restart, j.marker, j.quality); f.type = IL_JPG; f.ext = "jpg"; f.b = dec::jpgfile(j.w, j.h, j.space, j.samp, j.mode, j.restart, j.marker, j.quality); dec::Pic p = dec::jpg(f.b); Fr r = pic(p.w, p.h); for (int y = 0; y < p.h; y++) for (int x = 0; x < p.w; x++) { double* t = p.at(x, y); r.p[y * p.w + x] = px(t[0], t[1], t[2], t[3]); } f.fr = { r }; f.tol = j.space > 2 ? 0.51 : 0; set_cpu_limit(20); one(f); });
}
