// C06: empty lines are skipped only on request and otherwise are rows.
#include "lockstep.hpp"
using namespace h;

static str empties(Rng& r, size_t max, size_t& n) {
    str out;
    n = r.chance(1, 2) ? 0 : r.chance(1, 50) ? r.range(5, 300) : r.range(1, max);
    for (size_t i = 0; i < n; ++i) out += r.chance(1, 3) ? "\r\n" : "\n";
    return out;
}

// with ignore_empty: the same rows as without the empty lines
SCENARIO(ignored, 100) {
    const Setup& s = pick_setup(rng, [](const Cfg& x) { return x.IE; });
    const Cfg& cfg = s.cfg;
    const str d = pick_delim(rng, cfg);
    Gen g{rng, cfg, d};
    const size_t cols = rng.range(1, 4), n = rng.chance(1, 25) ? rng.range(20, 90) : rng.range(0, 6);
    size_t k = 0, total = 0;
    str bare, data = empties(rng, 4, k);
    c.feature_if(k > 0, "empty lines at the start");
    total += k;
    strs head;
    for (size_t i = 0; i < cols; ++i) {
        head.push_back("h" + std::to_string(i) + g.legal("x", false));
    }
    const str head_text = g.row(head);
    bare += head_text;
    data += head_text;
    std::vector<strs> rows;
    for (size_t i = 0; i < n; ++i) {
        const str eol = pick_eol(rng, 2);
        str e = empties(rng, 3, k);
        total += k;
        c.feature_if(k > 0 && i == 0, "empty lines after the header");
        c.feature_if(k > 0 && i > 0, "empty lines between rows");
        strs v = g.values(cols, true);
        str t = g.row(v);
        if (t.empty()) {
            v = {"x"};
            t = "x";
        }
        rows.push_back(v);
        bare += eol + t;
        data += eol + e + t;
    }
    if (data.back() == '\n' || rng.chance(2, 3)) {
        bare += "\n";
        data += "\n" + empties(rng, 4, k);
        total += k;
        c.feature_if(k > 0, "empty lines at the end");
    }
    const Mode mode = any_mode(rng);
    const bool file = rng.chance(1, 3);
    auto desc = [&] { return describe(s, mode, file, d, data); };
    Opened with{c, s, mode, file, data, d};
    bool header_read = false;
    strs order = head;
    std::vector<size_t> map;
    if (!cfg.IH) {
        if (rng.chance(1, 2)) {
            const Obs h = with.sut->header();
            if (!c.expect(h.vals, head, "header", desc)) {
                return;
            }
            if (!c.expect(with.sut->raw_header().vals, strs{head_text},
                          "raw-header", desc)) {
                return;
            }
        }
        if (rng.chance(1, 2)) {
            for (size_t i = 0; i < cols; ++i) {
                if (rng.chance(1, 2)) map.push_back(i);
            }
            if (!map.empty()) {
                strs f;
                for (size_t i : map) f.push_back(head[i]);
                if (!c.check(with.sut->use_fields(f).ok, "use-fields", desc)) {
                    return;
                }
                header_read = true;
                c.feature("selections");
            }
        }
        if (!header_read && rng.chance(1, 2)) {
            with.sut->ignore_next();
            header_read = true;
        }
    } else {
        header_read = true;
    }
    if (!header_read) {
        rows.insert(rows.begin(), head);
    }
    for (auto& r : rows) {
        if (!c.check(!with.sut->state().eof, "row-lost", desc)) {
            return;
        }
        Want w;
        if (map.empty()) {
            w.vals = r;
        } else {
            for (size_t i : map) w.vals.push_back(r[i]);
        }
        if (!check_read(c, with.sut->next(static_cast<int>(w.vals.size())), w,
                        w.vals.size(), desc)) {
            return;
        }
        c.feature("rows");
    }
    c.check(with.sut->state().eof, "row-invented", desc);
    c.feature("ignored empty lines", total);
    c.nontrivial(hash_str(data, hash_str(s.name + d)));
    if (rng.chance(1, 60)) c.sample(desc());
}

// without: each empty line is a row with one empty field
SCENARIO(rows, 100) {
    const Setup& s = pick_setup(rng, [](const Cfg& x) { return !x.IE; });
    const Cfg& cfg = s.cfg;
    const str d = pick_delim(rng, cfg);
    Gen g{rng, cfg, d};
    const size_t cols = rng.range(1, 4);
    std::vector<strs> rows;
    str data;
    for (size_t i = rng.chance(1, 25) ? rng.range(20, 300) : rng.range(1, 8); i > 0; --i) {
        if (rng.chance(1, 2)) {
            rows.push_back({""});
            data += pick_eol(rng, 2);
        } else {
            strs v = g.values(cols, true);
            str t = g.row(v);
            rows.push_back(v);
            data += t + pick_eol(rng, 2);
        }
    }
    if (cfg.IH) {
        data = "h\n" + data;
    }
    const Mode mode = any_mode(rng);
    const bool file = rng.chance(1, 3);
    auto desc = [&] { return describe(s, mode, file, d, data); };
    Opened o{c, s, mode, file, data, d};
    for (auto& r : rows) {
        const size_t k = rng.chance(1, 3) ? 1 : cols;
        Want w;
        if (r.size() == k) {
            w.vals = r;
        } else {
            w.err = COLUMNS;
        }
        if (!check_read(c, o.sut->next(static_cast<int>(k)), w, k, desc)) {
            return;
        }
        const bool empty = r.size() == 1 && r[0].empty();
        c.feature_if(empty && k == 1, "empty lines as one column");
        c.feature_if(empty && k > 1, "empty lines as an error");
        c.feature_if(!empty, "other rows");
    }
    c.check(o.sut->state().eof, "row-invented", desc);
    c.nontrivial(hash_str(data, hash_str(s.name + d)));
}

// arbitrary data with many line breaks
SCENARIO(breaks, 60) {
    const Setup& s = any_setup(rng);
    const str d = pick_delim(rng, s.cfg);
    str data;
    for (size_t n = rng.below(24); n > 0; --n) {
        data += rng.chance(1, 3) ? "\n"
                : rng.chance(1, 3) ? "\r\n"
                : rng.chance(1, 3) ? d
                                   : str(1, static_cast<char>(rng.range('a', 'd')));
    }
    Ops ops;
    ops.use = ops.exists = 2;
    Lockstep l{c, rng, s, any_mode(rng), rng.chance(1, 3), data, d,
               VALUES | ENDS | HEADER, ops, {}};
    if (l.run()) {
        c.nontrivial(hash_str(data, hash_str(s.name + d)));
    }
}

// lines of nothing but trimmed characters are not empty: rows of one empty
// column, for ignore_empty as well
SCENARIO(blank, 40) {
    const Setup& s = pick_setup(rng, [](const Cfg& x) { return !x.IH && (!x.tl.empty() || !x.tr.empty()); });
    const Cfg& cfg = s.cfg;
    const str d = pick_delim(rng, cfg);
    str data;
    strs want;
    for (size_t n = rng.range(1, 8); n > 0; --n) {
        str t;
        switch (rng.below(4)) {
        case 0:
            for (size_t k = rng.range(1, 4); k > 0; --k) t += rng.pick(cfg.tl.empty() ? cfg.tr : cfg.tl);
            want.push_back("");
            c.feature("blank lines");
            break;
        case 1:
            if (!cfg.IE) want.push_back("");
            break;
        case 2:
            t = "\f";
            want.push_back(t);
            break;
        default:
            t = "r" + std::to_string(n);
            want.push_back(t);
        }
        data += t + pick_eol(rng, 2);
    }
    const Mode mode = any_mode(rng);
    const bool file = rng.chance(1, 3);
    auto desc = [&] { return describe(s, mode, file, d, data); };
    Opened o{c, s, mode, file, data, d};
    for (auto& x : want) {
        if (!c.check(!o.sut->state().eof, "row-lost", desc)) return;
        Want w;
        w.vals = {x};
        if (!check_read(c, o.sut->next(1), w, 1, desc)) return;
    }
    c.check(o.sut->state().eof, "row-invented", desc);
    c.nontrivial(hash_str(data, hash_str(s.name + d)));
}
