// C05: multiline rows are joined exactly, within the configured limit.
#include "grown.hpp"
using namespace h;

static bool ml(const Cfg& c) {
    return c.ML;
}

// row with the given number of embedded line breaks
static strs ml_values(Rng& r, Gen& g, size_t cols, size_t breaks) {
    strs v;
    for (size_t i = 0; i < cols; ++i) {
        str x = g.value(g.len(), false);
        if (r.chance(1, 10)) {
            // joined buffers grow over their initial sizes
            x += str(r.range(90, 140), 'k');
        }
        v.push_back(x);
    }
    for (size_t i = 0; i < breaks; ++i) {
        str& x = v[r.below(cols)];
        const size_t at = r.chance(1, 3) ? (r.chance(1, 2) ? 0 : x.size())
                                         : r.below(x.size() + 1);
        // never splits an existing break into something else
        if (at > 0 && x[at - 1] == '\r') {
            x.insert(0, "\n");
        } else {
            x.insert(at, r.chance(1, 2) ? "\n" : "\r\n");
        }
    }
    return v;
}

SCENARIO(joined, 100) {
    const Setup& s = pick_setup(rng, ml);
    const Cfg& cfg = s.cfg;
    const str d = pick_delim(rng, cfg);
    Gen g{rng, cfg, d};
    std::vector<strs> rows;
    str data;
    const unsigned style = static_cast<unsigned>(rng.below(3));
    const size_t n = rng.range(1, 5);
    for (size_t i = 0; i < n; ++i) {
        size_t b = rng.chance(1, 8) ? rng.range(0, 40) : rng.below(5);
        if (cfg.limit > 0) {
            b = rng.chance(1, 2) ? cfg.limit : rng.below(cfg.limit + 1);
        }
        strs v = ml_values(rng, g, rng.range(1, 4), b);
        str t = g.row(v);
        if (t.empty()) {
            v = {"x"};
            t = "x";
        }
        c.feature("joined rows", g.breaks(t) > 0);
        c.feature("embedded breaks", g.breaks(t));
        c.feature_if(cfg.limit > 0 && g.breaks(t) == cfg.limit,
                     "rows exactly at the limit");
        rows.push_back(v);
        data += t;
        if (i + 1 < n || t.back() == '\n' || rng.chance(1, 2)) {
            data += pick_eol(rng, style);
        }
    }
    if (cfg.IH) {
        data = "h\n" + data;
    }
    const Mode mode = any_mode(rng);
    const bool file = rng.chance(1, 3);
    auto desc = [&] { return describe(s, mode, file, d, data); };
    Opened o{c, s, mode, file, data, d};
    for (auto& r : rows) {
        Want w;
        w.vals = r;
        if (!check_read(c, o.sut->next(static_cast<int>(r.size())), w, r.size(),
                        desc)) {
            return;
        }
    }
    c.check(o.sut->state().eof, "rows-left", desc);
    c.nontrivial(hash_str(data, hash_str(s.name + d)));
    if (rng.chance(1, 60)) c.sample(desc());
}

// more lines than allowed are needed
SCENARIO(limit, 60) {
    const Setup& s = pick_setup(rng, [](const Cfg& x) {
        return x.ML && x.limit > 0;
    });
    const Cfg& cfg = s.cfg;
    const str d = pick_delim(rng, cfg);
    Gen g{rng, cfg, d};
    const size_t cols = rng.range(1, 3);
    str data;
    const size_t before = rng.below(3);
    std::vector<strs> rows;
    for (size_t i = 0; i < before; ++i) {
        strs v = ml_values(rng, g, cols, rng.below(cfg.limit + 1));
        str t = g.row(v);
        if (t.empty()) {
            v = {"x"};
            t = "x";
        }
        rows.push_back(v);
        data += t + pick_eol(rng, 2);
    }
    const strs over = ml_values(rng, g, cols, cfg.limit + rng.range(1, 3));
    const str over_text = g.row(over);
    data += over_text + "\n";
    const Mode mode = any_mode(rng);
    const bool file = rng.chance(1, 3);
    auto desc = [&] { return describe(s, mode, file, d, data); };
    if (cfg.IH) {
        return;
    }
    Opened o{c, s, mode, file, data, d};
    Model m{data, cfg, d};
    for (auto& r : rows) {
        Want w;
        w.vals = r;
        m.next(cols);
        if (!check_read(c, o.sut->next(static_cast<int>(cols)), w, cols,
                        desc)) {
            return;
        }
    }
    Want w;
    w.err = LIMIT;
    m.next(cols);
    if (!check_read(c, o.sut->next(static_cast<int>(cols)), w, cols, desc)) {
        return;
    }
    c.feature("rows over the limit");
    // what is left is read by the same rules
    for (int i = 0; i < 10 && !m.eof(); ++i) {
        const int k = pick_arity(rng, m, 50);
        const Want x = m.next(static_cast<size_t>(k));
        if (!check_read(c, o.sut->next(k), x, static_cast<size_t>(k), desc)) {
            return;
        }
    }
    c.nontrivial(hash_str(data, hash_str(s.name + d)));
}

// open at the end of the data
SCENARIO(open_end, 40) {
    const Setup& s = pick_setup(rng, [](const Cfg& x) {
        return x.ML && !x.IH;
    });
    const Cfg& cfg = s.cfg;
    const str d = pick_delim(rng, cfg);
    Gen g{rng, cfg, d};
    const size_t cols = rng.range(1, 3);
    Err kind = OK;
    str bad = g.malformed(cols, kind, false);
    if (kind == MISMATCHED || bad.empty()) {
        return;
    }
    // lines after the open place still belong to the row
    const size_t more = cfg.limit > 0 ? rng.below(cfg.limit) : rng.below(4);
    if (kind == UNTERM_QUOTE) {
        for (size_t i = 0; i < more; ++i) bad += "\nmore";
        if (rng.chance(1, 2)) bad += pick_eol(rng, 2);
    } else if (rng.chance(1, 2)) {
        bad += pick_eol(rng, 2);
    }
    str data;
    strs v;
    const bool first = rng.chance(1, 2);
    if (first) {
        v = g.values(cols, true);
        str t = g.row(v);
        if (t.empty()) {
            v = {"x"};
            t = "x";
        }
        data = t + pick_eol(rng, 2);
    }
    data += bad;
    const Mode mode = any_mode(rng);
    const bool file = rng.chance(1, 3);
    auto desc = [&] { return describe(s, mode, file, d, data); };
    Opened o{c, s, mode, file, data, d};
    if (first) {
        Want w;
        w.vals = v;
        if (!check_read(c, o.sut->next(static_cast<int>(cols)), w, cols,
                        desc)) {
            return;
        }
    }
    Want w;
    w.err = kind;
    if (!check_read(c, o.sut->next(static_cast<int>(cols)), w, cols, desc)) {
        return;
    }
    c.check(o.sut->state().eof, "rows-left", desc);
    c.feature((str{"open at the end:"} + err_name(kind)).c_str());
    c.nontrivial(hash_str(data, hash_str(s.name + d)));
}

// arbitrary data over the characters which matter
SCENARIO(hostile_lines, 100) {
    const Setup& s = pick_setup(rng, ml);
    const Cfg& cfg = s.cfg;
    const str d = rng.chance(2, 3) ? "," : pick_delim(rng, cfg);
    str data;
    str alpha = "ab" + d;
    if (cfg.Q) alpha += str(3, cfg.q);
    alpha += cfg.esc + cfg.esc + cfg.tr + "\n\n";
    for (size_t n = rng.below(60); n > 0; --n) {
        const char x = rng.pick(alpha);
        data += x == '\n' && rng.chance(1, 3) ? "\r\n" : str(1, x);
    }
    Ops ops;
    ops.ignore = ops.header = ops.use = ops.exists = 0;
    ops.wrong_arity_in = 40;
    Lockstep l{c, rng, s, any_mode(rng), rng.chance(1, 4), data, d,
               VALUES | ENDS, ops, {}};
    if (l.run()) {
        c.nontrivial(hash_str(data, hash_str(s.name + d)));
    }
}

// rows of very many lines
SCENARIO(many_lines, 1) {
    const Setup& s = pick_setup(rng, [](const Cfg& x) { return x.ML && !x.IH && (x.limit == 0 || x.limit > 100); });
    const Cfg& cfg = s.cfg;
    const str d = pick_delim(rng, cfg);
    Gen g{rng, cfg, d};
    static const std::vector<size_t> counts = {100, 254, 255, 256, 257, 299, 300, 301, 512, 2000};
    std::vector<strs> rows;
    std::vector<bool> fits;
    str data;
    for (size_t n = rng.range(1, 3); n > 0; --n) {
        size_t b = rng.pick(counts);
        strs v = {"a", ""};
        for (size_t i = 0; i < b; ++i) {
            v[1] += (rng.chance(1, 4) ? g.legal(std::to_string(i), false) : "") + (rng.chance(1, 4) ? "\r\n" : "\n");
        }
        v[1] += "e";
        if (!cfg.ml_q() || rng.chance(1, 2)) v[1] = g.legal(v[1], true);
        str t = g.row(v);
        b = g.breaks(t);
        const bool fit = cfg.limit == 0 || b <= cfg.limit;
        rows.push_back(v);
        fits.push_back(fit);
        data += t + "\n";
        c.feature("lines joined", b);
        c.feature_if(fit && b > 255, "rows of more than 256 lines");
        if (!fit) break; // what follows depends on how the rest is read
    }
    const Mode mode = any_mode(rng);
    const bool file = rng.chance(1, 3);
    auto desc = [&] { return describe(s, mode, file, d, data); };
    Opened o{c, s, mode, file, data, d};
    for (size_t i = 0; i < rows.size(); ++i) {
        const Obs got = o.sut->next(2);
        if (!c.check(got.ok == fits[i], fits[i] ? "valid-row-rejected" : "limit-exceeded", desc)) return;
        if (fits[i] && !c.check(got.vals == rows[i], "wrong-values", desc)) return;
    }
    c.nontrivial(hash_str(data, hash_str(s.name + d)));
}

// rows of many columns, some of which are asked for
SCENARIO(wide_joined, 12) {
    const Setup& s = pick_setup(rng, [](const Cfg& x) { return x.ML && !x.IH; });
    const Cfg& cfg = s.cfg;
    const str d = pick_delim(rng, cfg);
    Gen g{rng, cfg, d};
    const size_t cols = rng.chance(1, 10) ? rng.range(40, 300) : rng.range(7, 24);
    strs head;
    for (size_t i = 0; i < cols; ++i) head.push_back("h" + std::to_string(i));
    str data = g.row(head) + pick_eol(rng, 2);
    std::vector<strs> rows;
    for (size_t n = rng.range(1, 4); n > 0; --n) {
        size_t b = rng.range(1, 6);
        if (cfg.limit > 0) b = rng.range(1, std::min<size_t>(cfg.limit, 8));
        rows.push_back(ml_values(rng, g, cols, b));
        data += g.row(rows.back()) + pick_eol(rng, 2);
    }
    strs want;
    std::vector<size_t> at;
    for (size_t k = rng.range(1, max_arity); k > 0; --k) {
        const size_t i = rng.below(cols);
        if (std::find(at.begin(), at.end(), i) == at.end()) {
            at.push_back(i);
            want.push_back(head[i]);
        }
    }
    const Mode mode = any_mode(rng);
    const bool file = rng.chance(1, 3);
    auto desc = [&] { return "fields " + show(want) + " " + describe(s, mode, file, d, data); };
    Opened o{c, s, mode, file, data, d};
    if (!c.check(o.sut->use_fields(want).ok, "fields-rejected", desc)) return;
    for (auto& r : rows) {
        Want w;
        for (size_t i : at) w.vals.push_back(r[i]);
        if (!check_read(c, o.sut->next(static_cast<int>(at.size())), w, at.size(), desc)) return;
        c.feature("rows of many columns");
    }
    c.check(o.sut->state().eof, "rows-left", desc);
    c.nontrivial(hash_str(data, hash_str(s.name + d)));
}

// places repeated until sizes leave 8 or 16 bits
SCENARIO(grown, 2) {
    Ops ops;
    ops.header = ops.use = ops.exists = 0;
    grown_case(c, rng, ml, VALUES | ENDS, ops);
}
