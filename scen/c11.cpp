// C11: header queries report the header as written and disturb nothing.
#include "twin.hpp"
using namespace h;

static str header_data(Rng& rng, Gen& g) {
    const size_t cols = rng.range(1, 5);
    str head;
    Err kind = OK;
    switch (rng.below(6)) {
    case 0:
        head = g.malformed(cols, kind, false);
        break;
    case 1:
        head = g.hostile(rng.below(20));
        for (auto& x : head) x = x == '\n' ? 'n' : x;
        break;
    case 2: {
        // duplicates
        strs v = g.values(cols, false);
        v.push_back(v[rng.below(v.size())]);
        head = g.row(v);
        break;
    }
    default:
        head = g.row(g.values(cols, false));
    }
    str data = head;
    if (rng.chance(1, 12)) {
        return data;
    }
    data += pick_eol(rng, 2);
    Doc rest = make_doc(g, rng.below(5), cols, cols, true);
    return data + rest.data;
}

SCENARIO(queries, 100) {
    const Setup& s = pick_setup(rng, [](const Cfg& x) { return !x.IH; });
    const str d = pick_delim(rng, s.cfg);
    Gen g{rng, s.cfg, d};
    const str data = header_data(rng, g);
    Ops ops;
    ops.next = 5;
    ops.header = 5;
    ops.exists = 5;
    ops.use = 2;
    Lockstep l{c, rng, s, any_mode(rng), rng.chance(1, 4), data, d, HEADER, ops,
               {}};
    if (l.run()) {
        c.nontrivial(hash_str(data, hash_str(s.name + d)));
        if (rng.chance(1, 60)) c.sample(l.desc());
    }
}

// reads with and without queries in between
SCENARIO(undisturbed, 60) {
    const Setup& s = pick_setup(rng, [](const Cfg& x) { return !x.IH; });
    const str d = pick_delim(rng, s.cfg);
    Gen g{rng, s.cfg, d};
    const str data = rng.chance(1, 2) ? header_data(rng, g)
                                      : any_data(rng, s.cfg, d);
    const Mode mode = any_mode(rng);
    const bool file = rng.chance(1, 4);
    str hist;
    auto desc = [&] {
        return describe(s, mode, file, d, data) + ", calls" + hist;
    };
    Opened a{c, s, mode, file, data, d, "a.csv"};
    Opened b{c, s, mode, file, data, d, "b.csv"};
    const auto calls = make_calls(rng, data, s.cfg, d, 2);
    for (auto& x : calls) {
        for (size_t n = rng.below(3); n > 0; --n) {
            Call q;
            const size_t kind = rng.below(3);
            q.kind = kind == 0   ? Call::HEADER
                     : kind == 1 ? Call::RAW
                                 : Call::EXISTS;
            q.names = {g.value(1, false)};
            const State before = a.sut->state();
            apply(*a.sut, q);
            const State after = a.sut->state();
            hist += " [" + q.text() + "]";
            c.feature("queries");
            if (!c.check(before.line == after.line && before.pos == after.pos &&
                             before.eof == after.eof,
                         "query-moved-the-parser", desc)) {
                return;
            }
        }
        if (x.kind == Call::HEADER || x.kind == Call::RAW ||
            x.kind == Call::EXISTS) {
            continue;
        }
        hist += " " + x.text();
        // skipping and iterating over nothing do not touch the error of the
        // call before
        const bool keeps = x.kind == Call::IGNORE ||
                           (x.kind == Call::ITERATE && b.sut->state().eof);
        Result p = apply(*a.sut, x), q = apply(*b.sut, x);
        p.msg = without_source(p.msg, a.source_name);
        q.msg = without_source(q.msg, b.source_name);
        if (keeps) {
            p.st.valid = q.st.valid = p.ok = q.ok = true;
            p.msg = q.msg = "";
        }
        if (!c.expect(show_result(p), show_result(q), "disturbed-by-queries",
                      [&] {
                          return "with queries: " + show_result(p) +
                                 " without: " + show_result(q) + "; " + desc();
                      })) {
            return;
        }
        c.feature("compared calls");
    }
    c.nontrivial(hash_str(data + hist, hash_str(s.name + d)));
}

// wide headers
SCENARIO(wide, 3) {
    const Setup& s = pick_setup(rng, [](const Cfg& x) { return !x.IH && (x.Q || !x.esc.empty()); });
    const Cfg& cfg = s.cfg;
    const str d = pick_delim(rng, cfg);
    Gen g{rng, cfg, d};
    static const std::vector<size_t> counts = {7, 33, 64, 129, 255, 256, 257, 300, 700};
    const size_t n = rng.pick(counts);
    strs head;
    for (size_t i = 0; i < n; ++i) {
        str x = "c" + std::to_string(i) + "_" + (rng.chance(1, 4) ? g.value(rng.below(6), false) : "") + ".";
        head.push_back(x);
    }
    // long names and, sometimes, one which exists twice
    if (rng.chance(1, 3)) head[rng.below(n)] += str(rng.pick(counts), 'L') + "x";
    const size_t a = rng.below(n), b = rng.below(n);
    const bool twice = a != b && rng.chance(1, 3);
    if (twice) head[a] = head[b];
    const str line = g.row(head);
    const str data = line + pick_eol(rng, 2) + "1\n";
    const Mode mode = any_mode(rng);
    const bool file = rng.chance(1, 4);
    auto desc = [&] { return std::to_string(n) + " columns" + (twice ? ", " + std::to_string(a) + " equals " + std::to_string(b) : "") + "; " + describe(s, mode, file, d, data); };
    Opened o{c, s, mode, file, data, d};
    if (!c.check(o.sut->raw_header().vals == strs{line}, "raw-header", desc)) return;
    const Obs h = o.sut->header();
    if (!c.check(h.ok && h.vals == head, "header", desc)) return;
    for (int i = 0; i < 4; ++i) {
        const str& name = head[rng.chance(1, 3) ? n - 1 : rng.below(n)];
        const Obs e = o.sut->field_exists(name);
        if (!c.check(twice ? !e.ok : e.ok && e.flag, "field-exists", desc)) return;
        const Obs no = o.sut->field_exists(name + "?");
        if (!c.check(twice ? !no.ok : no.ok && !no.flag, "field-invented", desc)) return;
    }
    c.feature("wide headers");
    c.feature_if(twice, "wide headers with a duplicate");
    c.nontrivial(hash_str(data, hash_str(s.name + d)));
}

// the first queries, at any point and also after the end
SCENARIO(late, 30) {
    const Setup& s = pick_setup(rng, [](const Cfg& x) { return !x.IH; });
    const Cfg& cfg = s.cfg;
    const str d = pick_delim(rng, cfg);
    Gen g{rng, cfg, d};
    const strs head = g.values(rng.range(1, 5), false);
    const str line = g.row(head);
    if (line.empty()) return;
    str data = line;
    const size_t n = rng.below(5);
    for (size_t i = 0; i < n; ++i) data += pick_eol(rng, 2) + "x";
    if (rng.chance(1, 2)) data += "\n";
    const Mode mode = any_mode(rng);
    const bool file = rng.chance(1, 4);
    const size_t reads = rng.chance(1, 2) ? n + 1 : rng.below(n + 2);
    auto desc = [&] { return std::to_string(reads) + " rows read; " + describe(s, mode, file, d, data); };
    Opened o{c, s, mode, file, data, d};
    for (size_t i = 0; i < reads; ++i) {
        if (rng.chance(1, 3)) o.sut->ignore_next();
        else static_cast<void>(o.sut->next(static_cast<int>(rng.range(1, 3))));
    }
    if (rng.chance(1, 3)) o.sut->move_construct();
    std::set<str> all(head.begin(), head.end());
    const bool unique = all.size() == head.size();
    for (int i = 0; i < 3; ++i) {
        switch (rng.below(3)) {
        case 0: {
            const Obs h = o.sut->header();
            if (!c.check(h.ok && h.vals == head, "header", desc)) return;
            break;
        }
        case 1:
            if (!c.check(o.sut->raw_header().vals == strs{line}, "raw-header", desc)) return;
            break;
        default: {
            const str name = rng.chance(1, 2) ? rng.pick(head) : g.value(3, false);
            const Obs e = o.sut->field_exists(name);
            if (!c.check(unique ? e.ok && e.flag == (all.count(name) > 0) : !e.ok && !e.flag, "field-exists", [&] { return "field " + show(name) + "; " + desc(); })) return;
        }
        }
    }
    c.feature_if(reads > n, "first queries after the end");
    c.nontrivial(hash_str(data, hash_str(s.name + d)));
}
