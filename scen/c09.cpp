// C09: line() and position() account exactly for what has been consumed.
#include "grown.hpp"
using namespace h;

SCENARIO(accounting, 100) {
    const Setup& s = any_setup(rng);
    const str d = pick_delim(rng, s.cfg);
    str data = any_data(rng, s.cfg, d);
    if (rng.chance(1, 10)) {
        data.insert(rng.below(data.size() + 1), str(rng.range(100, 300), 'L'));
    }
    Ops ops;
    ops.header = ops.use = ops.exists = 2;
    ops.ignore = 2;
    ops.iterate = 1;
    ops.past_end = 5;
    Lockstep l{c, rng, s, any_mode(rng), rng.chance(1, 2), data, d, STATE, ops,
               {}};
    if (l.run()) {
        c.nontrivial(hash_str(data, hash_str(s.name + d)));
        if (rng.chance(1, 60)) c.sample(l.desc());
    }
}

// the bytes from position() onwards are what remains to be read: a second
// parser given only those reads the same. Nothing but the library is trusted.
SCENARIO(resume, 60) {
    const Setup& s = pick_setup(rng, [](const Cfg& x) { return !x.IH; });
    const str d = pick_delim(rng, s.cfg);
    const str data = any_data(rng, s.cfg, d, 10);
    const Mode mode = any_mode(rng);
    const bool file = rng.chance(1, 2);
    str hist;
    auto desc = [&] {
        return describe(s, mode, file, d, data) + ", calls" + hist;
    };
    Opened a{c, s, mode, file, data, d, "a.csv"};
    size_t last_line = a.sut->state().line, last_pos = a.sut->state().pos;
    for (size_t i = rng.below(6); i > 0 && !a.sut->state().eof; --i) {
        const int k = static_cast<int>(rng.range(1, 4));
        hist += " next" + std::to_string(k);
        a.sut->next(k);
        const State st = a.sut->state();
        if (!c.check(st.line > last_line && st.pos > last_pos,
                     "does-not-advance", desc)) {
            return;
        }
        last_line = st.line;
        last_pos = st.pos;
    }
    const State st = a.sut->state();
    if (!c.check(st.pos <= data.size(), "position-past-end", desc)) {
        return;
    }
    const str consumed = data.substr(0, st.pos);
    const size_t breaks = static_cast<size_t>(
        std::count(consumed.begin(), consumed.end(), '\n'));
    const size_t lines =
        breaks + (!consumed.empty() && consumed.back() != '\n' ? 1 : 0);
    if (!c.expect(st.line, lines, "line-and-position-disagree", [&] {
            return "line() is " + std::to_string(st.line) + ", position() " +
                   std::to_string(st.pos) + " is after " +
                   std::to_string(lines) + " lines; " + desc();
        })) {
        return;
    }
    Opened b{c, s, mode, rng.chance(1, 3), data.substr(st.pos), d, "b.csv"};
    for (int i = 0; i < 12; ++i) {
        const State x = a.sut->state(), y = b.sut->state();
        if (!c.check(x.eof == y.eof && x.line == st.line + y.line &&
                         x.pos == st.pos + y.pos,
                     "resumed-state", desc)) {
            return;
        }
        if (x.eof) {
            break;
        }
        const int k = static_cast<int>(rng.range(1, 4));
        hist += " next" + std::to_string(k);
        const Obs p = a.sut->next(k), q = b.sut->next(k);
        if (!c.check(p.ok == q.ok && p.vals == q.vals, "resumed-rows", desc)) {
            return;
        }
    }
    c.feature("resumed reads");
    c.nontrivial(hash_str(data + hist, hash_str(s.name + d)));
}

// more lines and bytes than fit into small counters
SCENARIO(many, 1) {
    const Setup& s = pick_setup(rng, [](const Cfg& x) { return !x.IH && x.limit != 1 && x.limit != 2; });
    const bool ml = s.cfg.ml_q();
    const str d = ",";
    const size_t n = rng.chance(1, 3) ? 65500 + rng.below(200) : rng.pick(std::vector<size_t>{250, 300, 1000, 5000, 20000});
    struct At { size_t line, pos; };
    std::vector<At> at; // in front of each row
    str data;
    size_t line = 0;
    auto blank = [&] {
        while (s.cfg.IE && rng.chance(1, 20)) {
            data += rng.chance(1, 2) ? "\n" : "\r\n";
            ++line;
        }
    };
    blank();
    for (size_t i = 0; i < n; ++i) {
        at.push_back({line, data.size()});
        str q = s.cfg.Q ? str(1, s.cfg.q) : "";
        if (ml && rng.chance(1, 50)) {
            data += q + "a\nb\r\n" + q + d + "1";
            line += 2;
        } else {
            data += rng.chance(1, 500) ? str(5000, 'k') : std::to_string(i);
            data += d + "1";
        }
        data += rng.chance(1, 3) ? "\r\n" : "\n";
        ++line;
        blank();
    }
    // a skipped empty line is in front of the row which follows it
    const Mode mode = any_mode(rng);
    const bool file = rng.chance(1, 2);
    Opened o{c, s, mode, file, data, d};
    for (size_t i = 0; i < n; ++i) {
        const State st = o.sut->state();
        auto desc = [&] {
            return "row " + std::to_string(i) + " of " + std::to_string(n) + ", line() " + std::to_string(st.line) + " position() " +
                   std::to_string(st.pos) + " instead of " + std::to_string(at[i].line) + " and " + std::to_string(at[i].pos) + ", setup " + s.name + (file ? ", file" : ", buffer");
        };
        if (!c.check(!st.eof && st.line == at[i].line && st.pos == at[i].pos, "wrong-account", desc)) return;
        if (rng.chance(1, 3)) {
            o.sut->ignore_next();
        } else {
            o.sut->next(2);
        }
    }
    const State st = o.sut->state();
    c.check(st.eof && st.line == line && st.pos == data.size(), "wrong-account-at-end", [&] {
        return "line() " + std::to_string(st.line) + " position() " + std::to_string(st.pos) + " of " + std::to_string(line) + " lines and " + std::to_string(data.size()) + " bytes, setup " + s.name;
    });
    c.feature("rows accounted for", n);
    c.feature_if(n > 65535, "documents of more than 65535 rows");
    c.nontrivial(hash_str(data));
}

// places repeated until sizes leave 8 or 16 bits
SCENARIO(grown, 2) {
    Ops ops;
    ops.ignore = 2;
    grown_case(c, rng, [](const Cfg&) { return true; }, STATE, ops);
}
