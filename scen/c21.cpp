// C21: iteration visits the same rows as repeated reads.
#include "lockstep.hpp"
#include "restr.hpp"
using namespace h;

using std::optional;
using std::string;
using std::tuple;

// every setup against the model, iterations mixed with everything else
SCENARIO(lockstep, 60) {
    const Setup& s = any_setup(rng);
    const str d = pick_delim(rng, s.cfg);
    const str data = any_data(rng, s.cfg, d, 10);
    Ops ops;
    ops.iterate = 14;
    ops.next = 6;
    Lockstep l{c, rng, s, any_mode(rng), rng.chance(1, 4), data, d, VALUES | STATE | ENDS, ops, {}};
    if (l.run()) {
        c.nontrivial(hash_str(data, hash_str(s.name + d)));
    }
}

namespace {

struct Visit {
    bool ok = false;
    str msg, vals;
    size_t line = 0, pos = 0;
    bool eof = false;
    bool operator==(const Visit& o) const {
        return ok == o.ok && msg == o.msg && vals == o.vals && line == o.line && pos == o.pos && eof == o.eof;
    }
    str text() const {
        return str{ok ? "ok" : "error"} + " " + show(msg, 120) + " (" + vals + ") line " + std::to_string(line) +
               " position " + std::to_string(pos) + (eof ? " eof" : "");
    }
};

template <typename Obj, typename... Ts>
struct Loops {
    using Row = RowRef<Ts...>;
    using ret = typename Row::ret;

    static const ret& flat(const ret& r) {
        return r;
    }
    static const ret& flat(const Obj& o) {
        return o.v;
    }
    template <typename P>
    static void place(P& p, Visit& v) {
        v.line = p.line();
        v.pos = p.position();
        v.eof = p.eof();
    }
    template <typename P, typename V>
    static Visit visit(P& p, const V& x) {
        Visit v;
        v.ok = p.valid();
        if constexpr (P::h_text && !P::h_throws) v.msg = p.error_msg();
        v.vals = Row::show_row(flat(x));
        place(p, v);
        return v;
    }
    // the row which a plain read gives
    template <typename P>
    static Visit plain(P& p) {
        if constexpr (P::h_throws) {
            try {
                auto x = p.template get_next<Ts...>();
                return visit(p, x);
            } catch (const ss::exception& e) {
                Visit v;
                v.msg = e.what();
                place(p, v);
                return v;
            }
        } else {
            auto x = p.template get_next<Ts...>();
            return visit(p, x);
        }
    }

    // visits up to max rows in one of several ways; returns them
    template <typename P, typename It>
    static void loop(P& p, It range, int how, size_t max, size_t cap, std::vector<Visit>& out) {
        auto body = [&] {
            switch (how) {
            case 0:
                for (auto& x : range) {
                    out.push_back(visit(p, x));
                    if (out.size() >= max) break;
                }
                break;
            case 1:
                for (auto it = range.begin(); it != range.end(); ++it) {
                    out.push_back(visit(p, *it));
                    if (out.size() >= max || out.size() > cap) break;
                }
                break;
            case 2: {
                // postfix: the value is the one before the increment
                auto it = range.begin();
                const auto end = range.end();
                while (!(it == end)) {
                    Visit v = visit(p, *it);
                    if (out.size() + 1 >= max || out.size() > cap) {
                        out.push_back(v);
                        break;
                    }
                    // pushed first, since the increment may throw
                    out.push_back(v);
                    auto old = it++;
                    if (Row::show_row(flat(*old)) != v.vals || Row::show_row(flat(*old.operator->())) != v.vals) {
                        out.back().vals += " (old value changed)";
                    }
                }
                break;
            }
            default: {
                // a range can be started again and again
                while (out.size() < max && out.size() <= cap) {
                    auto it = range.begin();
                    if (it == range.end()) break;
                    out.push_back(visit(p, *it.operator->()));
                }
            }
            }
        };
        if constexpr (P::h_throws) {
            try {
                body();
            } catch (const ss::exception& e) {
                Visit v;
                v.msg = e.what();
                place(p, v);
                out.push_back(v);
            }
        } else {
            body();
        }
    }

    template <template <typename...> class Par>
    static void run(Ctx& c, Rng& rng, const Hints& hints) {
        const Cfg cfg = qe_cfg();
        Gen g{rng, cfg, ","};
        using P = Par<ss::quote<'"'>, ss::escape<'\\'>>;
        constexpr size_t n = sizeof...(Ts);
        str data;
        size_t lines = 0;
        for (size_t k = rng.below(12); k > 0; --k) {
            strs f = row_fields(rng, n, hints);
            for (auto& x : f) {
                str t;
                for (char ch : x) {
                    if (ch != '\n' && ch != '\0') t += ch;
                }
                x = t;
            }
            Err kind = OK;
            data += rng.chance(1, 10) ? g.malformed(n, kind, true) : rng.chance(1, 12) ? str{} : g.row(f);
            if (k > 1 || rng.chance(1, 2)) data += rng.chance(1, 4) ? "\r\n" : "\n";
            ++lines;
        }
        Heap b{data};
        P p{b.p, b.n}, twin{b.p, b.n};
        str hist;
        auto desc = [&] { return Row::types() + ", data " + show(data) + ", calls" + hist; };
        for (size_t step = 0, past = 0; past < 2 && step < 40; ++step) {
            if (p.eof()) ++past;
            std::vector<Visit> got, want;
            const size_t max = rng.range(1, rng.chance(1, 5) ? 100 : 4);
            const int how = static_cast<int>(rng.below(6));
            if (how == 4) {
                hist += " get_next";
                if (p.eof()) continue;
                got.push_back(plain(p));
                want.push_back(plain(twin));
            } else if (how == 5) {
                hist += " ignore_next";
                const bool x = p.ignore_next(), y = twin.ignore_next();
                if (!c.check(x == y, "ignore-differs", desc)) return;
                continue;
            } else {
                const bool object = rng.chance(1, 2);
                hist += str{object ? " iterate_object" : " iterate"} + std::to_string(how) + "/" + std::to_string(max);
                if (object) {
                    loop(p, p.template iterate_object<Obj, Ts...>(), how, max, lines + 2, got);
                } else {
                    loop(p, p.template iterate<Ts...>(), how, max, lines + 2, got);
                }
                // the same number of plain reads; an exception ends a loop
                while (!twin.eof() && want.size() < max) {
                    want.push_back(plain(twin));
                    if (!want.back().ok && P::h_throws) break;
                }
                c.feature("loops");
                c.feature("visited rows", got.size());
                if (want.empty()) c.feature("loops at the end");
            }
            if (!c.check(got.size() == want.size(), "visited-count", [&] {
                    return "visited " + std::to_string(got.size()) + " rows instead of " + std::to_string(want.size()) + "; " + desc();
                })) return;
            for (size_t i = 0; i < got.size(); ++i) {
                if (!c.check(got[i] == want[i], "visited-rows", [&] {
                        return "visited " + got[i].text() + " instead of " + want[i].text() + "; " + desc();
                    })) return;
                c.feature(got[i].ok ? "visited valid rows" : "visited errors");
            }
            if (!c.check(p.eof() == twin.eof() && p.position() == twin.position() && p.line() == twin.line(), "state-differs", desc)) return;
        }
        c.nontrivial(hash_str(data + hist, hash_str(Row::types())));
        if (rng.chance(1, 400)) c.sample(desc());
    }
    static void any(Ctx& c, Rng& rng, const Hints& hints) {
        switch (rng.below(3)) {
        case 0: run<PlainParser>(c, rng, hints); break;
        case 1: run<TextParser>(c, rng, hints); break;
        default: run<ThrowParser>(c, rng, hints);
        }
    }
};

template <typename R>
struct Obj {
    R v{};
    Obj() = default;
    template <typename... As>
    Obj(As... as) : v{std::move(as)...} {
    }
};

const strs words{"a", "abc", "", "x y", "q\"q", ",", "true"};
const strs ints{"0", "1", "-1", "7", "42", "10", "x", "", "99999999999"};

} // namespace

SCENARIO(loops, 100) {
    switch (rng.below(5)) {
    case 0: Loops<Obj<tuple<string, int>>, string, int>::any(c, rng, {words, ints}); break;
    case 1: Loops<Obj<int>, int>::any(c, rng, {ints}); break;
    case 2: Loops<Obj<string>, string>::any(c, rng, {words}); break;
    case 3: Loops<Obj<tuple<string, int>>, ss::ne<string>, void, ss::ir<int, 0, 10>>::any(c, rng, {words, words, ints}); break;
    default: Loops<Obj<tuple<optional<int>, string, string>>, optional<int>, string, string>::any(c, rng, {ints, words, words}); break;
    }
}
