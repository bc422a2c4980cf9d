// C03: malformed rows are rejected and never disturb other rows.
#include "grown.hpp"
using namespace h;

static bool can_be_malformed(const Cfg& c) {
    return c.Q || !c.esc.empty();
}

// which rows are malformed is known by construction
SCENARIO(isolation, 100) {
    const Setup& s = pick_setup(rng, can_be_malformed);
    const Cfg& cfg = s.cfg;
    const str d = pick_delim(rng, cfg);
    Gen g{rng, cfg, d};
    struct Item {
        bool good;
        strs vals;
        Err kind;
    };
    std::vector<Item> items;
    str data;
    const size_t n = rng.range(1, 10), cols = rng.range(1, 4);
    const unsigned style = static_cast<unsigned>(rng.below(3));
    for (size_t i = 0; i < n; ++i) {
        Item it{true, {}, OK};
        str t;
        if (rng.chance(1, 2)) {
            // only kinds which end with their line, except for the last row
            t = g.malformed(cols, it.kind, i + 1 < n);
            it.good = false;
        }
        if (t.empty()) {
            it.good = true;
            it.vals = g.values(cols, true);
            t = g.row(it.vals);
            if (t.empty()) {
                it.vals = {"x"};
                t = "x";
            }
        }
        items.push_back(it);
        const bool last = i + 1 == n;
        data += t;
        if (!last || t.back() == '\n') {
            data += pick_eol(rng, style);
        }
    }
    if (cfg.IH) {
        data = "h\n" + data;
    }
    const Mode mode = any_mode(rng);
    const bool file = rng.chance(1, 4);
    auto desc = [&] { return describe(s, mode, file, d, data); };
    Opened o{c, s, mode, file, data, d};
    bool after_bad = false;
    for (size_t i = 0; i < items.size(); ++i) {
        auto& it = items[i];
        Want w;
        w.err = it.good ? OK : it.kind;
        w.vals = it.vals;
        const Obs got = o.sut->next(static_cast<int>(cols));
        if (!check_read(c, got, w, cols, desc)) {
            return;
        }
        // the state of the error belongs to this row
        const bool valid = o.sut->state().valid;
        if (mode != THROW &&
            !c.expect(valid, it.good, "stale-validity", desc)) {
            return;
        }
        if (it.good) {
            c.feature("good rows");
            c.feature_if(after_bad, "good rows after malformed rows");
        } else {
            c.feature((str{"malformed:"} + err_name(it.kind)).c_str());
        }
        after_bad = !it.good;
    }
    c.check(o.sut->state().eof, "rows-left", desc);
    c.nontrivial(hash_str(data, hash_str(s.name + d)));
    if (rng.chance(1, 60)) c.sample(desc());
}

// arbitrary damage: the model decides which rows are malformed
SCENARIO(damage, 60) {
    const Setup& s = pick_setup(rng, can_be_malformed);
    const str d = pick_delim(rng, s.cfg);
    Gen g{rng, s.cfg, d};
    const str data = rng.chance(1, 2)
                         ? g.hostile(rng.below(120))
                         : g.mutate(make_doc(g, rng.range(1, 6), 1, 4, true).data,
                                    rng.range(1, 8));
    Ops ops;
    ops.ignore = ops.header = ops.use = ops.exists = 0;
    ops.wrong_arity_in = 30;
    Lockstep l{c, rng, s, any_mode(rng), rng.chance(1, 4), data, d,
               VALUES | ENDS, ops, {}};
    if (l.run()) {
        c.nontrivial(hash_str(data, hash_str(s.name + d)));
    }
}

// the same on one reused converter
SCENARIO(converter, 60) {
    const Setup& s = pick_setup(rng, [](const Cfg& x) {
        return can_be_malformed(x) && !x.ML;
    });
    const Cfg& cfg = s.cfg;
    const str d = pick_delim(rng, cfg);
    Gen g{rng, cfg, d};
    const Mode mode = any_mode(rng);
    auto conv = s.conv(mode);
    str hist;
    for (size_t i = rng.range(2, 6); i > 0; --i) {
        const size_t cols = rng.range(1, 4);
        Want w;
        str t;
        if (rng.chance(1, 2)) {
            t = g.malformed(cols, w.err, true);
        } else {
            w.vals = g.values(cols, false);
            t = g.row(w.vals);
            if (t.empty()) {
                continue;
            }
        }
        hist += " " + show(t);
        str line = t;
        const Obs got = conv->convert(line.data(), static_cast<int>(cols), d);
        auto desc = [&] {
            return str{"converter "} + s.name + ", " + mode_name[mode] +
                   " errors, delimiter " + show(d) + ", lines" + hist;
        };
        if (!check_read(c, got, w, cols, desc)) {
            return;
        }
        c.feature(w.err == OK ? "converted lines" : "rejected lines");
        // and by a splitter
        str copy = t;
        bool open = false;
        std::vector<std::pair<size_t, size_t>> ranges;
        const Obs sp = conv->splitter(copy.data(), d, open, ranges);
        if (!c.expect(sp.ok, w.err == OK, "splitter-outcome", desc) ||
            (sp.ok && !c.expect(sp.vals, w.vals, "splitter-values", desc)) ||
            (mode == STRING && !c.expect(sp.msg.empty(), sp.ok, "splitter-message", desc)) ||
            !c.expect(open, w.err == UNTERM_QUOTE, "splitter-open-quote", desc)) {
            return;
        }
        c.feature("split lines");
    }
    c.nontrivial(hash_str(hist, hash_str(s.name + d)));
}

// selected columns do not hide that a row is malformed
SCENARIO(selected, 40) {
    const Setup& s = pick_setup(rng, [](const Cfg& x) { return can_be_malformed(x) && !x.IH; });
    const Cfg& cfg = s.cfg;
    const str d = pick_delim(rng, cfg);
    Gen g{rng, cfg, d};
    const size_t cols = rng.range(2, 5);
    strs names;
    for (size_t i = 0; i < cols; ++i) {
        names.push_back("n" + std::to_string(i));
    }
    str data = g.row(names) + "\n";
    std::vector<size_t> order;
    for (size_t i = 0; i < cols; ++i) {
        order.push_back(i);
    }
    for (size_t i = 0; i < cols; ++i) {
        std::swap(order[i], order[rng.below(cols)]);
    }
    order.resize(rng.range(1, std::min<size_t>(cols, 4)));
    struct Item {
        Err err = OK;
        strs vals;
    };
    std::vector<Item> items;
    const size_t n = rng.range(1, 8);
    for (size_t i = 0; i < n; ++i) {
        Item it;
        str t;
        if (rng.chance(1, 2)) {
            // malformed in any column, most often as wide as the header
            t = g.malformed(rng.chance(1, 6) ? rng.range(1, 6) : cols, it.err, i + 1 < n);
        }
        if (t.empty()) {
            it.err = OK;
            it.vals = g.values(cols, false);
            t = g.row(it.vals);
        }
        items.push_back(it);
        data += t + "\n";
    }
    const Mode mode = any_mode(rng);
    const bool file = rng.chance(1, 4);
    strs chosen;
    for (size_t i : order) {
        chosen.push_back(names[i]);
    }
    auto desc = [&] { return "selected " + show(chosen) + ", " + describe(s, mode, file, d, data); };
    Opened o{c, s, mode, file, data, d};
    if (!c.check(o.sut->use_fields(chosen).ok, "not-selected", desc)) {
        return;
    }
    for (auto& it : items) {
        Want w;
        w.err = it.err;
        if (it.err == OK) {
            for (size_t i : order) {
                w.vals.push_back(it.vals[i]);
            }
        }
        const Obs got = o.sut->next(static_cast<int>(order.size()));
        if (!check_read(c, got, w, order.size(), desc)) {
            return;
        }
        c.feature(it.err == OK ? "good rows with selected columns" : "malformed rows with selected columns");
    }
    c.check(o.sut->state().eof, "rows-left", desc);
    c.nontrivial(hash_str(data, hash_str(s.name + d)));
}

// places repeated until sizes leave 8 or 16 bits
SCENARIO(grown, 2) {
    Ops ops;
    ops.header = ops.exists = 0;
    grown_case(c, rng, [](const Cfg&) { return true; }, VALUES | ENDS, ops);
}
