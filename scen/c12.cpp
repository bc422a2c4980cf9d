// C12: skipping removes exactly the skipped rows.
#include "twin.hpp"
using namespace h;

// ignore_next drops the next row, by construction
SCENARIO(skip_rows, 100) {
    const Setup& s = any_setup(rng);
    const Cfg& cfg = s.cfg;
    const str d = pick_delim(rng, cfg);
    Gen g{rng, cfg, d};
    const size_t cols = rng.range(1, 4), n = rng.range(1, 10);
    std::vector<strs> rows;
    std::vector<size_t> line_of; // physical line of each row
    str data;
    size_t line = 0;
    std::vector<bool> bad, multi;
    auto lines_of = [](const str& t) {
        return static_cast<size_t>(std::count(t.begin(), t.end(), '\n')) + 1;
    };
    for (size_t i = 0; i < n; ++i) {
        if (cfg.IE && rng.chance(1, 4)) {
            data += "\n";
            ++line;
        }
        Err kind = OK;
        str t;
        strs v;
        bool is_bad = false;
        if (rng.chance(1, 6)) {
            t = g.malformed(cols, kind, true);
            is_bad = !t.empty();
        }
        if (!is_bad) {
            // a header is always a single line
            v = g.values(cols, !(cfg.IH && i == 0) && rng.chance(1, 2));
            t = g.row(v);
            if (cfg.limit > 0 && lines_of(t) > cfg.limit + 1) {
                v = g.values(cols, false);
                t = g.row(v);
            }
            if (t.empty() && cfg.IE) {
                v = {"x"};
                t = "x";
            }
        }
        rows.push_back(v);
        bad.push_back(is_bad);
        line_of.push_back(line);
        line += lines_of(t);
        multi.push_back(lines_of(t) > 1);
        data += t;
        if (i + 1 < n || t.empty() || t.back() == '\n' ||
            rng.chance(1, 2)) {
            data += pick_eol(rng, 2);
        }
    }
    const Mode mode = any_mode(rng);
    const bool file = rng.chance(1, 3);
    str hist;
    auto desc = [&] {
        return describe(s, mode, file, d, data) + ", calls" + hist;
    };
    Opened o{c, s, mode, file, data, d};
    size_t at = cfg.IH ? 1 : 0;
    if (cfg.IH) c.feature("ignored headers");
    const unsigned skip_in = static_cast<unsigned>(rng.range(2, 5));
    while (at < n) {
        const State st = o.sut->state();
        if (!c.expect(st.line, line_of[at], "wrong-line", [&] {
                return "line() is " + std::to_string(st.line) + " before row " +
                       std::to_string(at) + " in line " +
                       std::to_string(line_of[at]) + "; " + desc();
            })) {
            return;
        }
        if (rng.chance(1, skip_in)) {
            hist += " ignore";
            const bool left = o.sut->ignore_next();
            c.feature_if(multi[at], "ignored multiline rows");
            ++at;
            c.feature("ignored rows");
            c.feature_if(at == n, "ignored last rows");
            if (!c.expect(left, at < n, "ignore-result", desc)) {
                return;
            }
            continue;
        }
        hist += " next" + std::to_string(cols);
        Want w;
        w.vals = rows[at];
        const size_t k = rows[at].empty() ? cols : rows[at].size();
        if (bad[at]) w.err = MISMATCHED;
        if (!check_read(c, o.sut->next(static_cast<int>(k)), w, k, desc)) {
            return;
        }
        c.feature("read rows");
        ++at;
    }
    const State st = o.sut->state();
    c.check(st.eof, "rows-left", desc);
    c.check(!o.sut->ignore_next(), "ignore-result", desc);
    c.expect(o.sut->state() == st, true, "ignore-at-end-changed-state", desc);
    c.nontrivial(hash_str(data + hist, hash_str(s.name + d)));
    if (rng.chance(1, 60)) c.sample(desc());
}

// the header is skipped by a selection only if it has not been passed
SCENARIO(selection_and_header, 60) {
    const Setup& s = pick_setup(rng, [](const Cfg& x) { return !x.IH; });
    const Cfg& cfg = s.cfg;
    const str d = pick_delim(rng, cfg);
    Gen g{rng, cfg, d};
    const size_t cols = rng.range(1, 4), n = rng.range(0, 6);
    strs head;
    for (size_t i = 0; i < cols; ++i) {
        head.push_back("H" + std::to_string(i));
    }
    str data;
    std::vector<strs> rows{head};
    size_t lead = 0;
    if (cfg.IE) {
        lead = rng.below(3);
        data += str(lead, '\n');
    }
    data += g.row(head) + pick_eol(rng, 2);
    for (size_t i = 0; i < n; ++i) {
        strs v = g.values(cols, true);
        str t = g.row(v);
        if (t.empty()) {
            v = {"x"};
            t = "x";
        }
        rows.push_back(v);
        data += t + pick_eol(rng, 2);
    }
    const Mode mode = any_mode(rng);
    const bool file = rng.chance(1, 3);
    str hist;
    auto desc = [&] {
        return describe(s, mode, file, d, data) + ", calls" + hist;
    };
    Opened o{c, s, mode, file, data, d};
    size_t at = 0;
    while (at < rows.size()) {
        const size_t what = rng.below(4);
        if (what == 0) {
            hist += " use_fields(all)";
            if (!c.check(o.sut->use_fields(head).ok, "selection-failed", desc)) {
                return;
            }
            c.feature(at == 0 ? "selections before the header"
                              : "selections after the header");
            if (at == 0) at = 1;
        } else if (what == 1) {
            hist += " header";
            o.sut->header();
            o.sut->field_exists("H0");
            c.feature("queries");
        } else {
            hist += " next";
            Want w;
            w.vals = rows[at++];
            if (!check_read(c, o.sut->next(static_cast<int>(cols)), w, cols,
                            desc)) {
                return;
            }
        }
        if (!c.expect(o.sut->state().eof, at == rows.size(), "wrong-eof",
                      desc)) {
            return;
        }
    }
    c.nontrivial(hash_str(data + hist, hash_str(s.name + d)));
}

SCENARIO(arbitrary, 60) {
    const Setup& s = any_setup(rng);
    const str d = pick_delim(rng, s.cfg);
    const str data = any_data(rng, s.cfg, d);
    Ops ops;
    ops.next = 4;
    ops.ignore = 4;
    Lockstep l{c, rng, s, any_mode(rng), rng.chance(1, 4), data, d,
               VALUES | ENDS | SKIPS | STATE, ops, {}};
    if (l.run()) {
        c.nontrivial(hash_str(data, hash_str(s.name + d)));
    }
}

// skipping many rows
SCENARIO(many, 1) {
    const Setup& s = pick_setup(rng, [](const Cfg& x) { return !x.IH && x.limit != 1; });
    const bool ml = s.cfg.ml_q();
    const str d = ",";
    const size_t n = rng.chance(1, 3) ? 65500 + rng.below(200) : rng.pick(std::vector<size_t>{250, 300, 1000, 5000});
    str data;
    const str q = s.cfg.Q ? str(1, s.cfg.q) : "";
    for (size_t i = 0; i < n; ++i) {
        if (ml && rng.chance(1, 20)) {
            data += q + "a\nb" + q;
        } else if (rng.chance(1, 20)) {
            data += str(rng.below(400), 'k') + "x";
        } else {
            data += "s";
        }
        data += d + std::to_string(i) + (rng.chance(1, 3) ? "\r\n" : "\n");
    }
    const Mode mode = any_mode(rng);
    const bool file = rng.chance(1, 2);
    Opened o{c, s, mode, file, data, d};
    size_t i = 0;
    auto desc = [&] { return "row " + std::to_string(i) + " of " + std::to_string(n) + ", setup " + s.name + (file ? ", file" : ", buffer"); };
    while (i < n) {
        for (size_t k = rng.chance(1, 8) ? rng.below(20000) : rng.below(40); k > 0 && i < n; --k, ++i) {
            if (!c.check(o.sut->ignore_next() == (i + 1 < n), "ignore-result", desc)) return;
        }
        if (i == n) break;
        const Obs got = o.sut->next(2);
        if (!c.check(got.ok && got.vals[1] == std::to_string(i), "wrong-row-after-skipping", desc)) return;
        ++i;
    }
    c.check(o.sut->state().eof, "rows-left", desc);
    c.feature("rows skipped or read", n);
    c.nontrivial(hash_str(data));
}
