// C02: rows which are well-formed by construction are decoded exactly.
#include "grown.hpp"
using namespace h;

SCENARIO(decode, 100) {
    const Setup& s = any_setup(rng);
    const Cfg& cfg = s.cfg;
    const str d = pick_delim(rng, cfg);
    Gen g{rng, cfg, d};
    Doc doc = make_doc(g, rng.range(1, 8), 1, 5, true);
    const Mode mode = any_mode(rng);
    const bool file = rng.chance(1, 4);
    auto desc = [&] { return describe(s, mode, file, d, doc.data); };

    // the oracle is the construction; the model has to agree with it
    Model m{doc.data, cfg, d};
    Opened o{c, s, mode, file, doc.data, d};
    std::vector<strs> rows = doc.rows;
    if (cfg.IH) {
        // the first physical line is dropped
        if (std::count(doc.data.begin(), doc.data.end(), '\n') == 0 ||
            read_row(m.lines, 0, cfg, d).lines() != 1) {
            return;
        }
        rows.erase(rows.begin());
    }
    for (auto& row : rows) {
        const Want w = m.next(row.size());
        if (w.err != OK || w.vals != row) {
            std::fprintf(stderr, "harness: model disagrees with construction: "
                         "%s vs %s (%s); %s\n", show(w.vals).c_str(),
                         show(row).c_str(), err_name(w.err), desc().c_str());
            std::_Exit(90);
        }
        Want exact;
        exact.vals = row;
        const Obs got = o.sut->next(static_cast<int>(row.size()));
        if (!check_read(c, got, exact, row.size(), desc)) {
            return;
        }
        c.feature("rows");
        c.feature("fields", row.size());
        c.feature_if(w.row->lines() > 1, "multiline rows");
        for (auto& v : row) {
            c.feature_if(v.size() > 100, "long fields");
            c.feature_if(v.find(d) != str::npos, "delimiter inside value");
            c.feature_if(cfg.Q && v.find(cfg.q) != str::npos, "quote inside value");
        }
    }
    c.check(o.sut->state().eof, "rows-left", desc);
    c.nontrivial(hash_str(doc.data, hash_str(s.name + d)));
    c.feature(("setup:" + s.name).c_str());
    if (rng.chance(1, 50)) c.sample(desc());
}

// long fields
SCENARIO(sizes, 2) {
    const Setup& s = pick_setup(rng, [](const Cfg& x) { return !x.IH; });
    const Cfg& cfg = s.cfg;
    const str d = pick_delim(rng, cfg);
    Gen g{rng, cfg, d};
    std::vector<strs> rows;
    str data;
    for (size_t n = rng.range(1, 4); n > 0; --n) {
        strs v;
        for (size_t k = rng.range(1, 4); k > 0; --k) {
            static const std::vector<size_t> sizes = {60, 127, 255, 511, 1023, 4095, 8191, 32767, 65535, 131071};
            v.push_back(g.value(rng.chance(1, 2) ? rng.pick(sizes) - 2 + rng.below(6) : rng.below(20), cfg.ML && cfg.limit == 0));
        }
        str t = g.row(v);
        if (t.empty()) {
            v = {"x"};
            t = "x";
        }
        data += t + pick_eol(rng, 2);
        rows.push_back(v);
        for (auto& x : v) {
            c.feature_if(x.size() > 4000, "fields above 4000 bytes");
            c.feature_if(x.size() > 65000, "fields above 65000 bytes");
        }
    }
    const Mode mode = any_mode(rng);
    const bool file = rng.chance(1, 4);
    auto desc = [&] {
        str l = "row lengths";
        for (auto& v : rows) {
            for (auto& x : v) l += " " + std::to_string(x.size());
            l += ";";
        }
        return l + " " + describe(s, mode, file, d, data);
    };
    Opened o{c, s, mode, file, data, d};
    for (auto& row : rows) {
        const Obs got = o.sut->next(static_cast<int>(row.size()));
        if (!c.check(got.ok, "valid-row-rejected", desc) ||
            !c.check(got.vals == row, "wrong-values", desc)) {
            return;
        }
    }
    c.check(o.sut->state().eof, "rows-left", desc);
    c.nontrivial(hash_str(data, hash_str(s.name + d)));
}

// many columns
SCENARIO(wide, 4) {
    const Setup& s = any_setup(rng);
    const Cfg& cfg = s.cfg;
    const str d = pick_delim(rng, cfg);
    Gen g{rng, cfg, d};
    static const std::vector<size_t> counts = {7, 31, 64, 128, 255, 256, 257, 300, 511, 1000};
    const size_t n = d.size() < 8 && rng.chance(1, 40) ? 65530 + rng.below(20) : rng.pick(counts);
    strs v;
    for (size_t i = 0; i < n; ++i) {
        v.push_back(g.legal(rng.chance(1, 2) ? g.value(rng.below(4), false) : std::to_string(i), false));
    }
    const str line = g.row(v);
    str copy = line;
    const Mode mode = any_mode(rng);
    auto conv = s.conv(mode);
    std::vector<std::pair<size_t, size_t>> ranges;
    const Obs got = conv->split(copy.data(), d, ranges);
    auto desc = [&] {
        return "converter " + s.name + ", delimiter " + show(d) + ", " + std::to_string(n) + " columns, split into " +
               std::to_string(ranges.size()) + ", line " + show(line, 2000);
    };
    if (!c.check(got.ok, "valid-row-rejected", desc) || !c.check(got.vals == v, "wrong-values", desc)) {
        return;
    }
    c.feature("wide rows");
    c.feature_if(n > 65535, "rows of more than 65535 columns");
    c.nontrivial(hash_str(line, hash_str(s.name)));
}

// places repeated until sizes leave 8 or 16 bits
SCENARIO(grown, 2) {
    Ops ops;
    ops.ignore = ops.header = ops.use = ops.exists = 0;
    grown_case(c, rng, [](const Cfg&) { return true; }, VALUES | ENDS, ops);
}
