// C22: reading always progresses, ends, and stays ended.
#include "twin.hpp"
using namespace h;

SCENARIO(ends, 100) {
    const Setup& s = any_setup(rng);
    const str d = pick_delim(rng, s.cfg);
    const str data = rng.chance(1, 10) ? "" : any_data(rng, s.cfg, d);
    const Mode mode = any_mode(rng);
    const bool file = rng.chance(1, 3);
    str hist;
    auto desc = [&] {
        return describe(s, mode, file, d, data) + ", calls" + hist;
    };
    const auto lines = split_lines(data);
    Opened o{c, s, mode, file, data, d};
    // each read consumes at least one line and at least one byte
    size_t reads = 0;
    std::vector<size_t> starts;
    bool heads = false;
    while (!o.sut->state().eof) {
        const State a = o.sut->state();
        if (!c.check(a.pos < data.size(), "not-eof-without-data", desc)) {
            return;
        }
        const int k = static_cast<int>(rng.range(1, 4));
        hist += " next" + std::to_string(k);
        o.sut->next(k);
        const State b = o.sut->state();
        if (!c.check(b.line > a.line && b.pos > a.pos, "no-progress", desc) ||
            !c.check(++reads <= lines.size(), "too-many-reads", desc)) {
            return;
        }
        c.feature("reads");
        if (!s.cfg.IH && rng.chance(1, 10)) {
            hist += " header";
            o.sut->header();
            heads = true;
        }
    }
    // nothing but empty ignored lines may be left
    const State end = o.sut->state();
    if (!c.check(end.pos == data.size() && end.line == lines.size(),
                 "eof-before-the-end", desc)) {
        return;
    }
    // every further call fails in the same way and changes nothing
    str first_msg;
    for (size_t i = rng.range(1, 6); i > 0; --i) {
        const size_t what = rng.below(4);
        if (what == 0) {
            hist += " ignore";
            if (!c.check(!o.sut->ignore_next(), "ignore-at-end", desc)) {
                return;
            }
        } else if (what == 1) {
            hist += " iterate";
            std::vector<strs> rows;
            o.sut->iterate_rest(static_cast<int>(rng.range(1, 4)), 100, rows);
            if (!c.check(rows.empty(), "iterated-past-end", desc)) {
                return;
            }
        } else {
            const int k = static_cast<int>(rng.range(1, 4));
            hist += " next" + std::to_string(k);
            const Obs got = o.sut->next(k);
            Want w;
            w.err = AT_EOF;
            if (!check_read(c, got, w, static_cast<size_t>(k), desc)) {
                return;
            }
            if (first_msg.empty()) {
                first_msg = got.msg;
            } else if (!c.expect(got.msg, first_msg, "message-at-end", desc)) {
                return;
            }
            c.feature("reads at the end of the data");
        }
        State st = o.sut->state();
        if (!c.check(st.eof && st.line == end.line && st.pos == end.pos,
                     "state-changed-at-end", [&] {
                         return "line() " + std::to_string(st.line) +
                                " position() " + std::to_string(st.pos) +
                                (st.eof ? "" : " not eof") + "; " + desc();
                     })) {
            return;
        }
    }
    (void)heads;
    c.nontrivial(hash_str(data + hist, hash_str(s.name + d)));
    if (rng.chance(1, 60)) c.sample(desc());
}

// eof() says whether a row remains, after every kind of call
SCENARIO(eof_indication, 60) {
    const Setup& s = any_setup(rng);
    const str d = pick_delim(rng, s.cfg);
    const str data = any_data(rng, s.cfg, d, 4);
    Ops ops;
    ops.ignore = 4;
    ops.use = 3;
    ops.move = 1;
    ops.past_end = 6;
    Lockstep l{c, rng, s, any_mode(rng), rng.chance(1, 3), data, d, ENDS | SKIPS,
               ops, {}};
    if (l.run()) {
        c.nontrivial(hash_str(data, hash_str(s.name + d)));
    }
}

// bytes of any value, including NUL: reading still ends
SCENARIO(any_bytes, 40) {
    const Setup& s = any_setup(rng);
    const str d = pick_delim(rng, s.cfg);
    Gen g{rng, s.cfg, d};
    str data = g.hostile(rng.below(100), true);
    for (size_t n = rng.below(4); n > 0 && !data.empty(); --n) {
        data[rng.below(data.size())] = '\0';
    }
    const Mode mode = any_mode(rng);
    const bool file = rng.chance(1, 3);
    auto desc = [&] { return describe(s, mode, file, d, data); };
    Opened o{c, s, mode, file, data, d};
    size_t reads = 0;
    const size_t lines =
        static_cast<size_t>(std::count(data.begin(), data.end(), '\n')) + 1;
    while (!o.sut->state().eof) {
        o.sut->next(static_cast<int>(rng.range(1, 3)));
        if (!c.check(++reads <= lines, "too-many-reads", desc)) {
            return;
        }
    }
    c.nontrivial(hash_str(data, hash_str(s.name + d)));
}

// no delimiter: every row is an error, which uses it up
SCENARIO(no_delimiter, 10) {
    const Setup& s = any_setup(rng);
    const str data = any_data(rng, s.cfg, ",");
    const Mode mode = any_mode(rng);
    const bool file = rng.chance(1, 3);
    str hist;
    auto desc = [&] { return describe(s, mode, file, "", data) + ", calls" + hist; };
    const auto lines = split_lines(data);
    Opened o{c, s, mode, file, data, ""};
    size_t reads = 0;
    while (!o.sut->state().eof) {
        const State a = o.sut->state();
        hist += " next";
        const Obs got = o.sut->next(static_cast<int>(rng.range(1, 3)));
        bool nothing = true;
        for (auto& v : got.vals) {
            nothing = nothing && v.empty();
        }
        const State b = o.sut->state();
        if (!c.check(!got.ok && nothing, "accepted-without-delimiter", desc) ||
            !c.check(b.line > a.line && b.pos > a.pos && b.pos <= data.size(), "no-progress", desc) ||
            !c.check(++reads <= lines.size(), "too-many-reads", desc)) {
            return;
        }
        // the line of the row is the only one, unless lines are joined or skipped
        if (!s.cfg.ML && !s.cfg.IE && !c.expect(b.line, a.line + 1, "lines-used-up", desc)) {
            return;
        }
        if (!s.cfg.IH && rng.chance(1, 4)) {
            hist += " field_exists";
            if (!c.check(!o.sut->field_exists("a").ok, "header-without-delimiter", desc)) {
                return;
            }
        }
        c.feature("reads without a delimiter");
    }
    const State end = o.sut->state();
    c.check(end.pos == data.size() && end.line == lines.size(), "eof-before-the-end", desc);
    c.nontrivial(hash_str(data, hash_str(s.name)));
}

// what is appended to a file whose end was reached is not read
SCENARIO(growing_file, 10) {
    const Setup& s = any_setup(rng);
    const str d = pick_delim(rng, s.cfg);
    const str data = rng.chance(1, 6) ? "" : any_data(rng, s.cfg, d, 4);
    const Mode mode = any_mode(rng);
    str hist;
    auto desc = [&] { return describe(s, mode, true, d, data) + ", calls" + hist; };
    Opened o{c, s, mode, true, data, d};
    while (!o.sut->state().eof) {
        if (rng.chance(1, 3)) {
            o.sut->ignore_next();
        } else {
            o.sut->next(static_cast<int>(rng.range(1, 3)));
        }
    }
    const State end = o.sut->state();
    for (size_t i = rng.range(1, 8); i > 0; --i) {
        if (rng.chance(1, 2)) {
            hist += " append";
            std::FILE* f = std::fopen(o.source_name.c_str(), "ab");
            if (!c.check(f != nullptr, "not-a-file", desc)) return;
            const str more = (rng.chance(1, 2) ? "\n" : "") + str{"x"} + d + "y\n\nz\n";
            std::fwrite(more.data(), 1, more.size(), f);
            std::fclose(f);
        }
        const size_t what = rng.below(5);
        if (what == 4) {
            hist += " move";
            o.sut->move_construct();
        } else if (what == 0) {
            hist += " ignore";
            if (!c.check(!o.sut->ignore_next(), "ignore-at-end", desc)) return;
        } else if (what == 1) {
            hist += " iterate";
            std::vector<strs> rows;
            o.sut->iterate_rest(static_cast<int>(rng.range(1, 4)), 100, rows);
            if (!c.check(rows.empty(), "iterated-past-end", desc)) return;
        } else {
            hist += " next";
            const Obs got = o.sut->next(static_cast<int>(rng.range(1, 3)));
            if (!c.check(!got.ok, "read-at-end", desc)) return;
        }
        const State st = o.sut->state();
        if (!c.check(st.eof && st.line == end.line && st.pos == end.pos, "state-changed-at-end", desc)) return;
        c.feature("calls behind the end of a growing file");
    }
    c.nontrivial(hash_str(data + hist, hash_str(s.name + d)));
}
