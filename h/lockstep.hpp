// Random call sequences executed on the library and on the model in lockstep.
#pragma once
#include "run.hpp"

namespace h {

enum Aspect : unsigned {
    VALUES = 1,   // outcome of the reads
    STATE = 2,    // line(), position()
    ENDS = 4,     // eof()
    HEADER = 8,   // outcome of header queries and selections
    SKIPS = 16,   // return value of ignore_next
    MESSAGES = 32,
    ALL_ASPECTS = 63
};

struct Ops {
    unsigned next = 10, ignore = 1, header = 1, use = 1, exists = 1, move = 0,
             iterate = 0;
    unsigned wrong_arity_in = 8;
    size_t past_end = 3; // calls made after the end of the data
    size_t max_ops = 60;
    bool select_before_eof_only = true;
};

// numbers in a text, in order
inline std::vector<size_t> numbers(const str& s) {
    std::vector<size_t> out;
    for (size_t i = 0; i < s.size();) {
        if (s[i] >= '0' && s[i] <= '9') {
            size_t v = 0;
            while (i < s.size() && s[i] >= '0' && s[i] <= '9') {
                v = v * 10 + static_cast<size_t>(s[i++] - '0');
            }
            out.push_back(v);
        } else {
            ++i;
        }
    }
    return out;
}

// what a message has to contain
inline bool check_message(Ctx& c, const str& msg, const Want& w,
                          const str& source, const Cfg& cfg,
                          const std::function<str()>& desc) {
    if (w.err == NO_FIELDS) {
        return c.check(!msg.empty(), "empty-message", desc);
    }
    if (!c.check(msg.compare(0, source.size(), source) == 0,
                 "message-without-source", [&] {
                     return "message " + show(msg) + " does not name " +
                            source + "; " + desc();
                 })) {
        return false;
    }
    str rest = msg.substr(source.size());
    std::vector<size_t> want;
    if (w.row_error) {
        want.push_back(w.line);
    }
    switch (w.err) {
    case MISMATCHED:
        if (cfg.ML) {
            // the position is relative to the joined row
            auto got = numbers(rest);
            return c.check(!got.empty() && got[0] == w.line, "message-line",
                           [&] {
                               return "message " + show(msg) +
                                      " does not name line " +
                                      std::to_string(w.line) + "; " + desc();
                           });
        }
        want.push_back(w.row->err_pos);
        break;
    case COLUMNS:
    case MAPPING:
        want.push_back(w.n1);
        want.push_back(w.n2);
        break;
    case BAD_FIELD:
    case REPEATED:
    case DUPLICATE: {
        const bool ends = rest.size() >= w.what.size() &&
                          rest.compare(rest.size() - w.what.size(),
                                       w.what.size(), w.what) == 0;
        return c.check(ends, "message-field", [&] {
            return "message " + show(msg) + " does not name the field " +
                   show(w.what) + "; " + desc();
        });
    }
    case BAD_HEADER:
        return c.check(rest.size() > 3, "message-empty", desc);
    default:
        break;
    }
    return c.expect(numbers(rest) == want, true, "message-numbers", [&] {
        str n;
        for (auto x : want) n += std::to_string(x) + " ";
        return "message " + show(msg) + " should contain the numbers " + n +
               "; " + desc();
    });
}

struct Lockstep {
    Ctx& c;
    Rng& rng;
    const Setup& s;
    Mode mode;
    bool file;
    const str& data;
    str d;
    unsigned aspects;
    Ops ops;
    std::vector<str> history;
    Opened::Wrap wrap{};

    str desc() const {
        str h;
        size_t from = history.size() > 40 ? history.size() - 40 : 0;
        for (size_t i = from; i < history.size(); ++i) {
            h += (i > from ? " " : "") + history[i];
        }
        return describe(s, mode, file, d, data) + ", calls: " + h;
    }

    // returns a digest of the trace, 0 on failure
    bool run() {
        Model m{data, s.cfg, d};
        Opened o{c, s, mode, file, data, d, "f.csv", wrap};
        auto de = [this] { return desc(); };
        ISut& t = *o.sut;

        if (!c.check(o.sut->open().ok, "open-failed", de)) {
            return false;
        }
        if (!state(m, t)) {
            return false;
        }
        size_t past = 0;
        for (size_t n = 0; n < ops.max_ops; ++n) {
            if (m.eof() && past++ >= ops.past_end) {
                break;
            }
            if (!step(m, o)) {
                return false;
            }
        }
        return true;
    }

    bool state(Model& m, ISut& t) {
        auto de = [this] { return desc(); };
        if (aspects & STATE) {
            return check_state(c, t, m, de);
        }
        if (aspects & ENDS) {
            return check_eof(c, t, m, de);
        }
        return true;
    }

    bool errors(const Obs& got, const Want& w, const Opened& o) {
        if ((aspects & MESSAGES) && mode != BOOL && w.err != OK && !got.ok) {
            c.feature((str{"message:"} + err_name(w.err)).c_str());
            return check_message(c, got.msg, w, o.source_name, s.cfg,
                                 [this] { return desc(); });
        }
        return true;
    }

    bool step(Model& m, Opened& o) {
        ISut& t = *o.sut;
        auto de = [this] { return desc(); };
        const bool heads = !s.cfg.IH;
        const unsigned total = ops.next + ops.ignore +
                               (heads ? ops.header + ops.use + ops.exists : 0) +
                               ops.move + ops.iterate;
        unsigned x = static_cast<unsigned>(rng.below(total));
        auto is = [&](unsigned w) {
            if (x < w) {
                x = ~0u;
                return true;
            }
            x -= w;
            return false;
        };
        if (is(ops.next)) {
            const int k = pick_arity(rng, m, ops.wrong_arity_in);
            history.push_back("next" + std::to_string(k));
            const bool was_eof = m.eof();
            const Want w = m.next(static_cast<size_t>(k));
            const Obs got = t.next(k);
            c.feature((str{"read:"} + err_name(w.err)).c_str());
            if (w.row) c.feature_if(w.row->lines() > 1, "joined rows");
            if ((aspects & VALUES) || (was_eof && (aspects & ENDS))) {
                if (!check_read(c, got, w, static_cast<size_t>(k), de)) {
                    return false;
                }
            }
            return errors(got, w, o) && state(m, t);
        }
        if (is(ops.ignore)) {
            history.push_back("ignore");
            const bool want = m.ignore_next();
            const bool got = t.ignore_next();
            c.feature("ignored rows");
            if (aspects & SKIPS) {
                if (!c.expect(got, want, "ignore-result", [&] {
                        return str{"ignore_next returned "} +
                               (got ? "true" : "false") + "; " + desc();
                    })) {
                    return false;
                }
            }
            return state(m, t);
        }
        if (is(ops.move)) {
            if (rng.chance(1, 2)) {
                history.push_back("move");
                t.move_construct();
            } else {
                history.push_back("assign");
                static const char other[] = "\"x,\\\n1,2\ny";
                t.move_assign(other, sizeof(other) - 1);
            }
            c.feature("moves");
            return state(m, t);
        }
        if (is(ops.iterate)) {
            const int k = pick_arity(rng, m, 20);
            const size_t max = rng.range(1, 5);
            history.push_back("iterate" + std::to_string(k) + "/" +
                              std::to_string(max));
            std::vector<strs> want_rows, got_rows;
            Want w;
            // an iteration reads until the end or until it is stopped; with
            // exceptions it ends with the first error
            while (want_rows.size() < max && !m.eof()) {
                w = m.next(static_cast<size_t>(k));
                if (w.err != OK && mode == THROW) {
                    break;
                }
                want_rows.push_back(
                    w.err == OK ? w.vals : strs(static_cast<size_t>(k)));
            }
            const Obs got = t.iterate_rest(k, max, got_rows);
            c.feature("iterations");
            c.feature("iterated rows", got_rows.size());
            if (aspects & VALUES) {
                if (!c.expect(got_rows, want_rows, "iterated-rows", [&] {
                        str g;
                        for (auto& r : got_rows) g += show(r) + " ";
                        return "iterated over " + g + "; " + desc();
                    })) {
                    return false;
                }
                if (!want_rows.empty() || w.err != OK) {
                    if (!c.expect(got.ok, w.err == OK, "iteration-validity",
                                  de)) {
                        return false;
                    }
                }
            }
            return state(m, t);
        }
        if (is(ops.header)) {
            if (rng.chance(1, 2)) {
                history.push_back("raw_header");
                const Obs got = t.raw_header();
                if (aspects & HEADER) {
                    return c.expect(got.vals, strs{m.raw_header}, "raw-header",
                                    [&] {
                                        return "raw_header() is " +
                                               show(got.vals) + "; " + desc();
                                    }) &&
                           state(m, t);
                }
                return state(m, t);
            }
            history.push_back("header");
            const Want w = m.header();
            const Obs got = t.header();
            c.feature((str{"header:"} + err_name(w.err)).c_str());
            if (aspects & HEADER) {
                if (!outcome(got, w, "header")) {
                    return false;
                }
                if (w.err == OK &&
                    !c.expect(got.vals, w.vals, "header-fields", [&] {
                        return "header() is " + show(got.vals) +
                               " instead of " + show(w.vals) + "; " + desc();
                    })) {
                    return false;
                }
            }
            return errors(got, w, o) && state(m, t);
        }
        if (is(ops.exists)) {
            const str f = field(m);
            history.push_back("field_exists(" + show(f, 40) + ")");
            const Want w = m.field_exists(f);
            const Obs got = t.field_exists(f);
            c.feature(w.flag ? "existing fields" : "missing fields");
            if (aspects & HEADER) {
                if (!outcome(got, w, "field_exists")) {
                    return false;
                }
                if (!c.expect(got.flag, w.flag, "field-exists", de)) {
                    return false;
                }
            }
            return errors(got, w, o) && state(m, t);
        }
        if (m.eof() && ops.select_before_eof_only) {
            return true;
        }
        if (is(ops.use)) {
            strs f;
            const size_t n = rng.chance(1, 20) ? 0 : rng.range(1, 4);
            const Want h = m.header();
            strs pool = h.vals;
            for (size_t i = 0; i < n; ++i) {
                if (!pool.empty() && !rng.chance(1, 12)) {
                    const size_t j = rng.below(pool.size());
                    f.push_back(pool[j]);
                    if (!rng.chance(1, 12)) {
                        pool.erase(pool.begin() + static_cast<long>(j));
                    }
                } else {
                    if (h.vals.empty() || rng.chance(1, 3)) {
                        f.push_back(field(m));
                    }
                }
            }
            if (f.empty() && n != 0) {
                return true;
            }
            history.push_back("use_fields(" + show(f, 40) + ")");
            const Want w = m.use_fields(f);
            const Obs got = t.use_fields(f);
            c.feature((str{"selection:"} + err_name(w.err)).c_str());
            if (aspects & HEADER) {
                if (!outcome(got, w, "use_fields")) {
                    return false;
                }
            }
            return errors(got, w, o) && state(m, t);
        }
        return true;
    }

    bool outcome(const Obs& got, const Want& w, const char* what) {
        return c.expect(got.ok, w.err == OK, "header-call-outcome", [&] {
            return str{what} + (got.ok ? " succeeded" : " failed") + " (" +
                   got.msg + "), expected " + err_name(w.err) + "; " + desc();
        });
    }

    str field(const Model& m) {
        const Want h = m.header();
        if (!h.vals.empty() && rng.chance(2, 3)) {
            str f = rng.pick(h.vals);
            if (rng.chance(1, 6)) f += "x";
            if (rng.chance(1, 12) && !f.empty()) f.pop_back();
            return f;
        }
        Gen g{rng, s.cfg, d};
        return g.value(rng.below(4), false);
    }
};

} /* namespace h */
