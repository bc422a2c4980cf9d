// Short documents in which one place is repeated until sizes leave 8 or 16 bits.
#pragma once
#include "lockstep.hpp"

namespace h {

struct Grown {
    str data, what;
    bool large = false; // above 65535
};

inline Grown grown_data(Rng& r, const Cfg& cfg, const str& d) {
    Gen g{r, cfg, d};
    str base = r.chance(3, 4) ? make_doc(g, r.range(1, 4), 1, 4, true).data : any_data(r, cfg, d, 4);
    Grown out;
    // what is repeated: by kind of character, so that the rare ones are met
    std::vector<std::pair<size_t, size_t>> places;
    auto chars = [&](auto is) {
        for (size_t i = 0; i < base.size(); ++i) {
            if (is(base[i])) places.emplace_back(i, 1);
        }
    };
    switch (r.below(8)) {
    case 0: chars([&](char x) { return cfg.is_tl(x) || cfg.is_tr(x); }); break;
    case 1: chars([&](char x) { return cfg.Q && x == cfg.q; }); break;
    case 2: chars([&](char x) { return cfg.is_esc(x); }); break;
    case 3: {
        for (size_t i = base.find(d); i != str::npos; i = base.find(d, i + 1)) places.emplace_back(i, d.size());
        break;
    }
    case 4: chars([&](char x) { return x == '\r' || x == '\n'; }); break;
    case 5: {
        // a few characters
        if (base.size() > 4) {
            const size_t at = r.below(base.size() - 4);
            places.emplace_back(at, r.range(2, 4));
        }
        break;
    }
    case 6: {
        // spacing which is not there yet
        const str sp = cfg.tl + cfg.tr;
        if (!sp.empty()) {
            size_t at = r.below(base.size() + 1);
            if (const size_t f = base.find(d, at); f != str::npos) at = f + (r.chance(1, 2) ? d.size() : 0);
            base.insert(at, 1, r.pick(sp));
            places.emplace_back(at, 1);
        }
        break;
    }
    default: break;
    }
    if (places.empty()) chars([&](char x) { return (x >= 'a' && x <= 'z') || (x >= '0' && x <= '9'); });
    if (places.empty()) {
        base = "x" + base;
        places.emplace_back(0, 1);
    }
    const auto [at, len] = r.pick(places);
    const str unit = base.substr(at, len);
    size_t target = (r.chance(3, 5) ? 65536 : r.pick(std::vector<size_t>{256, 32768, 131072, 512})) - 4 + r.below(9);
    // the size of what is before or behind, the repeated text itself, or the number of its copies
    if (unit.find('\n') != str::npos && target > 600) {
        // each line is a row, or a line of a row
        target = r.chance(1, 6) && !cfg.ML ? target : 250 + r.below(300);
    }
    const size_t n = r.chance(1, 2) ? target : target / len + 1;
    str run;
    run.reserve(n * len);
    for (size_t i = 0; i < n; ++i) run += unit;
    base.replace(at, len, run);
    out.data = base;
    out.large = base.size() > 65535;
    out.what = show(unit) + " at " + std::to_string(at) + " " + std::to_string(n) + " times";
    return out;
}

// a case of such a document, compared with the model in the given aspects
template <typename Pred>
inline void grown_case(Ctx& c, Rng& rng, Pred&& pred, unsigned aspects, Ops ops) {
    const Setup& s = pick_setup(rng, pred);
    const str d = rng.chance(1, 2) ? "," : pick_delim(rng, s.cfg);
    const Grown g = grown_data(rng, s.cfg, d);
    Lockstep l{c, rng, s, any_mode(rng), rng.chance(1, 4), g.data, d, aspects, ops, {"(grown: " + g.what + ")"}};
    if (l.run()) {
        c.feature("grown documents");
        c.feature_if(g.large, "grown documents above 64 KiB");
        c.nontrivial(hash_str(g.data, hash_str(s.name + d)));
    }
}

} // namespace h
