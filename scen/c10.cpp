// C10: selecting fields is an exact projection by header name.
#include "lockstep.hpp"
using namespace h;

struct Table {
    strs head;
    std::vector<strs> rows; // rows of an other size are irregular
    str data;
};

static Table make_table(Rng& rng, Gen& g, size_t n) {
    Table t;
    const size_t cols = rng.range(1, 6);
    while (t.head.size() < cols) {
        str v = g.value(rng.chance(1, 3) ? rng.below(3) : rng.range(1, 6), false);
        if (std::find(t.head.begin(), t.head.end(), v) == t.head.end()) {
            t.head.push_back(v);
        }
        if (rng.chance(1, 4) && t.head.size() < cols) {
            // names which only differ at the end
            v = t.head.back() + "_";
            v = g.legal(v, false);
            if (std::find(t.head.begin(), t.head.end(), v) == t.head.end()) {
                t.head.push_back(v);
            }
        }
    }
    str text = g.row(t.head);
    if (text.empty()) {
        t.head = {"x"};
        text = "x";
    }
    const unsigned style = static_cast<unsigned>(rng.below(3));
    t.data = text + pick_eol(rng, style);
    for (size_t i = 0; i < n; ++i) {
        size_t k = t.head.size();
        if (rng.chance(1, 8)) {
            k = rng.range(1, 6);
        }
        strs v = g.values(k, true);
        str x = g.row(v);
        if (x.empty()) {
            v = {"y"};
            x = "y";
        }
        t.rows.push_back(v);
        t.data += x;
        if (i + 1 < n || x.back() == '\n' || rng.chance(1, 2)) {
            t.data += pick_eol(rng, style);
        }
    }
    return t;
}

SCENARIO(projection, 100) {
    const Setup& s = pick_setup(rng, [](const Cfg& x) { return !x.IH; });
    const Cfg& cfg = s.cfg;
    const str d = pick_delim(rng, cfg);
    Gen g{rng, cfg, d};
    const Table t = make_table(rng, g, rng.range(1, 8));
    const Mode mode = any_mode(rng);
    const bool file = rng.chance(1, 4);
    str hist;
    auto desc = [&] {
        return describe(s, mode, file, d, t.data) + ", calls" + hist;
    };
    Opened o{c, s, mode, file, t.data, d};
    std::vector<size_t> map;
    bool header_pending = true;
    size_t at = 0;
    auto select = [&] {
        std::vector<size_t> order;
        for (size_t i = 0; i < t.head.size(); ++i) order.push_back(i);
        for (size_t i = order.size(); i > 1; --i) {
            std::swap(order[i - 1], order[rng.below(i)]);
        }
        order.resize(rng.range(1, order.size()));
        strs f;
        for (size_t i : order) f.push_back(t.head[i]);
        hist += " use_fields(" + show(f, 40) + ")";
        const Obs u = o.sut->use_fields(f);
        map = order;
        header_pending = false;
        c.feature("selections");
        return c.check(u.ok, "selection-failed", [&] {
            return u.msg + "; " + desc();
        });
    };
    if (rng.chance(4, 5)) {
        if (!select()) {
            return;
        }
    } else {
        hist += " ignore";
        o.sut->ignore_next();
        header_pending = false;
    }
    while (at < t.rows.size()) {
        if (rng.chance(1, 4) && !o.sut->state().eof) {
            if (!select()) {
                return;
            }
            c.feature_if(at > 0, "selections during the read");
        }
        if (rng.chance(1, 15)) {
            // a selection which fails leaves the previous one
            hist += " bad";
            const Obs u = o.sut->use_fields({t.head[0], t.head[0] + "?!"});
            if (!c.check(!u.ok, "bad-selection-accepted", desc)) {
                return;
            }
        }
        const strs& row = t.rows[at];
        size_t k = map.empty() ? row.size() : map.size();
        if (rng.chance(1, 8)) {
            k = rng.range(1, max_arity);
        }
        Want w;
        if (map.empty()) {
            w.err = k == row.size() ? OK : COLUMNS;
            w.vals = row;
        } else if (k != map.size()) {
            w.err = MAPPING;
        } else if (row.size() != t.head.size()) {
            w.err = COLUMNS;
        } else {
            for (size_t i : map) w.vals.push_back(row[i]);
        }
        hist += " next" + std::to_string(k);
        if (!check_read(c, o.sut->next(static_cast<int>(k)), w, k, desc)) {
            return;
        }
        c.feature((str{"rows:"} + err_name(w.err)).c_str());
        c.feature_if(!map.empty() && w.err == OK, "projected rows");
        ++at;
    }
    c.check(o.sut->state().eof, "rows-left", desc);
    (void)header_pending;
    c.nontrivial(hash_str(t.data + hist, hash_str(s.name + d)));
    if (rng.chance(1, 60)) c.sample(desc());
}

// arbitrary headers, selections and rows
SCENARIO(arbitrary, 60) {
    const Setup& s = pick_setup(rng, [](const Cfg& x) { return !x.IH; });
    const str d = pick_delim(rng, s.cfg);
    const str data = any_data(rng, s.cfg, d);
    Ops ops;
    ops.use = 5;
    ops.header = ops.exists = 0;
    ops.wrong_arity_in = 12;
    Lockstep l{c, rng, s, any_mode(rng), rng.chance(1, 4), data, d,
               VALUES | ENDS | HEADER, ops, {}};
    if (l.run()) {
        c.nontrivial(hash_str(data, hash_str(s.name + d)));
    }
}

// wide tables
SCENARIO(wide, 3) {
    const Setup& s = pick_setup(rng, [](const Cfg& x) { return !x.IH; });
    const Cfg& cfg = s.cfg;
    const str d = pick_delim(rng, cfg);
    Gen g{rng, cfg, d};
    static const std::vector<size_t> counts = {7, 15, 33, 64, 129, 255, 256, 257, 300, 700};
    const size_t n = rng.pick(counts);
    strs head;
    for (size_t i = 0; i < n; ++i) head.push_back(g.legal("c" + std::to_string(i), false));
    str data = g.row(head) + "\n";
    std::vector<strs> rows;
    for (size_t r = rng.range(1, 4); r > 0; --r) {
        const size_t w = rng.chance(2, 3) ? n : rng.chance(1, 2) ? n + 256 : n - 1 + rng.below(3);
        strs v;
        for (size_t i = 0; i < w; ++i) v.push_back(g.legal(std::to_string(r) + "v" + std::to_string(i), false));
        data += g.row(v) + "\n";
        rows.push_back(v);
    }
    if (s.cfg.esc.empty() && !s.cfg.Q) {
        // names and values must not contain the delimiter; nothing was dropped
        std::vector<strs> all = rows;
        all.push_back(head);
        for (auto& v : all) {
            for (auto& x : v) if (x.empty()) return;
        }
        strs u = head;
        std::sort(u.begin(), u.end());
        if (std::unique(u.begin(), u.end()) != u.end()) return;
    }
    const Mode mode = any_mode(rng);
    const bool file = rng.chance(1, 4);
    str hist;
    auto desc = [&] { return std::to_string(n) + " columns, selections" + hist + "; " + describe(s, mode, file, d, data); };
    Opened o{c, s, mode, file, data, d};
    std::vector<size_t> map;
    for (auto& row : rows) {
        if (map.empty() || rng.chance(1, 2)) {
            map.clear();
            strs f;
            for (size_t k = rng.range(1, 6); k > 0; --k) {
                const size_t i = rng.chance(1, 4) ? n - 1 - rng.below(2) : rng.below(n);
                if (std::find(map.begin(), map.end(), i) != map.end()) continue;
                map.push_back(i);
                f.push_back(head[i]);
            }
            hist += " " + show(f, 200);
            if (!c.check(o.sut->use_fields(f).ok, "selection-failed", desc)) return;
            c.feature_if(*std::max_element(map.begin(), map.end()) > 255, "selected columns above 255");
        }
        Want w;
        if (row.size() != n) {
            w.err = COLUMNS;
        } else {
            for (size_t i : map) w.vals.push_back(row[i]);
        }
        if (!check_read(c, o.sut->next(static_cast<int>(map.size())), w, map.size(), desc)) return;
    }
    c.feature("wide tables");
    c.nontrivial(hash_str(data + hist, hash_str(s.name + d)));
}
