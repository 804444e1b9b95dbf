// Small files of every type the library reads: those it writes, plus (files.h) hand-encoded ones.
#pragma once
#include "saves.h"
#include "files.h"
namespace corpus {
using namespace ilx;
struct E { std::string name; ILenum type; std::string ext; Bytes b; bool sig; bool hand = false; int frames = 1; };
// hand-encoded files: for every kind (a name without its digits) the smallest file of at least 3x2
inline void extra(std::vector<E>& r, bool more)
{
    static void (*const G[])(const files::Sink&, bool) = { files::bmps, files::bmprle, files::pcxs, files::pnms, files::sgis, files::tgas, files::psds, files::hdrs, files::smalls, files::vtfs, files::pngs, files::tiffs, files::gifs, files::suns, files::ilbms, files::icos, files::dcxs, files::pics, files::xpms, files::dpxs, files::ktxs, files::tpls, files::blps, files::iwis, files::rots, files::scitexs, files::mdls, files::fitss, files::dicoms, files::raws, files::textures, files::ddss, files::mp3s, files::icnss, files::iffs, files::psps, files::utxs, files::mngs };
    for (auto g : G) {
        std::map<std::string, E> m; std::vector<std::string> order; std::map<std::string, size_t> cost;
        g([&](files::File&& f) { if (f.b.size() > (more ? 4000 : 3000)) return; std::string k; for (char c : f.name) if (!isdigit(c)) k += c; size_t small = (f.fr[0].w < 3 || f.fr[0].h < 2) ? 100000 : 0, c = f.b.size() + small; if (!m.count(k)) order.push_back(k); else if (cost[k] <= c) return; cost[k] = c; m[k] = E{ f.name, f.type, f.ext, f.b, f.sig, true, (int)f.fr.size() }; }, false);
        size_t max = more ? 12 : 2; for (size_t i = 0; i < order.size() && i < max; i++) r.push_back(m[order[order.size() <= max ? i : i * order.size() / max]]);
    }
}
inline const std::vector<E>& all(bool more = false)
{
    static std::vector<E> v[2]; auto& r = v[more]; if (!r.empty()) return r; init();
    for (auto& f : saves::FM) for (size_t k = 0; k < saves::KN.size(); k++) for (int o = 0; o < 2; o++) {
        if (!more && (k > 10 || (o && f.type != IL_TGA && f.type != IL_SGI && f.type != IL_TIF && f.type != IL_PNG && f.type != IL_JPG && f.type != IL_BMP))) continue;
        ilShutDown(); init(); ILuint n; ilGenImages(1, &n); ilBindImage(n); if (!saves::make(saves::KN[k], 4, 2, 0, 5, o)) continue; saves::options(o); bool ok; Bytes b = saveL(f.type, &ok); drain(); if (ok) r.push_back({ mc::sfmt("%s %s option %d", f.ext, saves::kname(saves::KN[k]).c_str(), o), f.type, f.ext, b, f.sig }); }
    ilShutDown(); extra(r, more); return r;
}
} // namespace corpus
