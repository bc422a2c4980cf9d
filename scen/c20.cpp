// C20: substitute conversions apply in order to the same row, exactly once each.
#include "restr.hpp"
using namespace h;

using std::optional;
using std::string;
using std::tuple;
using std::variant;

namespace {

// everything user code observed during one chain
strs trace;

// a user defined type, so that attempts are visible
struct Tap {
    str text;
    bool operator==(const Tap& o) const {
        return text == o.text;
    }
};

} // namespace

template <>
inline bool ss::extract(const char* b, const char* e, Tap& dst) {
    dst.text.assign(b, e);
    trace.push_back("tap " + show(dst.text));
    return dst.text.find('!') == str::npos;
}

namespace h {
template <>
struct Ref<Tap> {
    using type = Tap;
    static Tri accepts(const str& t) {
        return t.find('!') == str::npos ? YES : NO;
    }
    static bool same(const type& x, const str& t) {
        return x.text == t;
    }
    static str name() {
        return "tap";
    }
    static str show_value(const type& x) {
        return show(x.text);
    }
};
} // namespace h

namespace {

enum Callback {
    NONE,
    VOID_NONE,  // void f()
    BOOL_NONE,  // bool f()
    VOID_ALL,   // void f(const value&)
    BOOL_ALL,   // bool f(const value&)
    VALUE_ALL,  // bool f(value)
    VOID_EACH,  // void f(const element&...)
    BOOL_EACH,  // bool f(const element&...)
    INT_EACH,   // int f(element...)
    PTR_EACH,   // const char* f(element...)
};

constexpr bool decides(Callback k) {
    return k == BOOL_NONE || k == BOOL_ALL || k == VALUE_ALL || k == BOOL_EACH || k == INT_EACH || k == PTR_EACH;
}

// object of the values
template <typename V>
struct Obj {
    Obj() = default;
    template <typename... As>
    Obj(As... as) : v{std::move(as)...} {
    }
    V v{};
};

template <bool Object, Callback K, typename... Ts>
struct Stage {
    using Row = RowRef<Ts...>;
    using ret = typename Row::ret;
    using value = std::conditional_t<Object, Obj<ret>, ret>;
    static constexpr Callback callback = K;

    static const ret& flat(const ret& r) {
        return r;
    }
    template <typename V>
    static const V& flat(const Obj<V>& o) {
        return o.v;
    }

    // callables of fixed signatures
    template <typename R>
    struct No {
        std::function<bool(const ret*)> f;
        R operator()() const {
            return static_cast<R>(f(nullptr));
        }
    };
    template <typename R, typename Arg>
    struct All {
        std::function<bool(const ret*)> f;
        R operator()(Arg v) const {
            return static_cast<R>(f(&flat(v)));
        }
    };
    template <typename R, typename T>
    struct Each {
        std::function<bool(const ret*)> f;
        R operator()(const T& v) const {
            return static_cast<R>(f(&v));
        }
    };
    template <typename R, typename... Es>
    struct Each<R, tuple<Es...>> {
        std::function<bool(const ret*)> f;
        R operator()(const Es&... es) const {
            const ret v{es...};
            if constexpr (std::is_pointer_v<R>) {
                return f(&v) ? "x" : nullptr;
            } else if constexpr (std::is_same_v<R, int>) {
                return f(&v) ? -8 : 0;
            } else {
                return static_cast<R>(f(&v));
            }
        }
    };
    template <typename F, typename Go>
    static auto with_callback(F f, Go&& go) {
        std::function<bool(const ret*)> fn = f;
        if constexpr (K == NONE) {
            return go(ss::none{});
        } else if constexpr (K == VOID_NONE) {
            return go(No<void>{fn});
        } else if constexpr (K == BOOL_NONE) {
            return go(No<bool>{fn});
        } else if constexpr (K == VOID_ALL) {
            return go(All<void, const value&>{fn});
        } else if constexpr (K == BOOL_ALL) {
            return go(All<bool, const value&>{fn});
        } else if constexpr (K == VALUE_ALL) {
            return go(All<bool, value>{fn});
        } else if constexpr (K == VOID_EACH) {
            return go(Each<void, ret>{fn});
        } else if constexpr (K == BOOL_EACH) {
            return go(Each<bool, ret>{fn});
        } else if constexpr (K == INT_EACH) {
            return go(Each<int, ret>{fn});
        } else {
            return go(Each<const char*, ret>{fn});
        }
    }
};

// what the calls of a chain are told to do
struct Plan {
    bool result[8];  // of the callbacks
    int on_error[8]; // behind a stage: 0 none, 1 without arguments, 2 with the message
    int taken = 0;   // additional calls of values()
};

template <typename T>
struct Taps {
    static void add(strs&, const str&) {
    }
};
template <>
struct Taps<Tap> {
    static void add(strs& v, const str& t) {
        v.push_back("tap " + show(t));
    }
};
template <typename T>
struct Taps<optional<T>> : Taps<T> {};

template <typename... Stages>
struct Chain {
    // f: columns of the row, or null if there is no row which could be read
    struct Expected {
        strs trace;
        int holds = -1; // stage holding the value
        bool open = false;
    };

    template <typename S, typename... Ts>
    static bool attempt(Expected& e, const strs* f) {
        if (!f || f->size() != sizeof...(Ts)) {
            return false;
        }
        const Outcome o = RowRef<Ts...>::outcome(*f);
        if (o.fail == UNDECIDED) e.open = true;
        size_t i = 0;
        ((i <= o.column || o.fail == CONVERTS ? Taps<Ts>::add(e.trace, (*f)[i]) : (void)0, ++i), ...);
        return o.fail == CONVERTS;
    }
    template <bool O, Callback K, typename... Ts>
    static void expect_stage(Stage<O, K, Ts...>*, Expected& e, int n, const strs* f, const Plan& plan) {
        if (e.holds < 0 && attempt<Stage<O, K, Ts...>, Ts...>(e, f)) {
            if (K != NONE) e.trace.push_back("callback " + std::to_string(n));
            if (!decides(K) || plan.result[n]) e.holds = n;
        }
        if (e.holds < 0 && plan.on_error[n]) {
            e.trace.push_back("on_error " + std::to_string(n));
        }
    }
    static Expected expected(const strs* f, const Plan& plan) {
        Expected e;
        int n = 0;
        ((expect_stage(static_cast<Stages*>(nullptr), e, n, f, plan), ++n), ...);
        return e;
    }

    template <typename P>
    struct Run {
        Ctx& c;
        P& p;
        const strs* f;
        const Plan& plan;
        const Model& m;
        bool bad = false;
        str why;

        // within callbacks, the parser stands behind the row and tells whether it was converted
        void inside(const str& where, bool valid) {
            if (p.valid() != valid || p.eof() != m.eof() || p.line() != m.line() || p.position() != m.position()) {
                bad = true;
                why = "within " + where + ": line " + std::to_string(p.line()) + " position " + std::to_string(p.position()) +
                      (p.eof() ? " eof" : "") + (p.valid() ? " valid" : " invalid");
            }
            c.feature("states within callbacks");
        }

        template <bool O, Callback K, typename... Ts>
        auto callback(Stage<O, K, Ts...>*, int n) {
            return [this, n](const typename RowRef<Ts...>::ret* v) {
                trace.push_back("callback " + std::to_string(n));
                inside(trace.back(), true);
                if (!f || (v && (f->size() != sizeof...(Ts) || !RowRef<Ts...>::same(*v, *f)))) {
                    bad = true;
                    why = "callback " + std::to_string(n) + " called with " + (v ? RowRef<Ts...>::show_row(*v) : str{"-"});
                }
                return plan.result[n];
            };
        }
        template <typename Comp>
        auto error(Comp comp, int n) {
            if (plan.on_error[n] == 1) {
                return comp.on_error([this, n] {
                    trace.push_back("on_error " + std::to_string(n));
                    inside(trace.back(), false);
                });
            }
            if (plan.on_error[n] == 2) {
                if constexpr (P::h_text) {
                    return comp.on_error([this, n](const string& e) {
                        trace.push_back("on_error " + std::to_string(n));
                        inside(trace.back(), false);
                        if (e.empty() || e != p.error_msg()) {
                            bad = true;
                            why = "on_error with the message " + show(e);
                        }
                    });
                } else {
                    return comp.on_error([n]() { trace.push_back("on_error " + std::to_string(n)); });
                }
            }
            return comp;
        }

        template <bool O, Callback K, typename... Ts>
        auto first(Stage<O, K, Ts...>* s) {
            using S = Stage<O, K, Ts...>;
            return error(S::with_callback(callback(s, 0), [this](auto fun) {
                if constexpr (O) {
                    if constexpr (K == NONE) {
                        return p.template try_object<typename S::value, Ts...>();
                    } else {
                        return p.template try_object<typename S::value, Ts...>(fun);
                    }
                } else if constexpr (K == NONE) {
                    return p.template try_next<Ts...>();
                } else {
                    return p.template try_next<Ts...>(fun);
                }
            }), 0);
        }
        template <typename Comp, bool O, Callback K, typename... Ts>
        auto more(Comp comp, Stage<O, K, Ts...>* s, int n) {
            using S = Stage<O, K, Ts...>;
            return error(S::with_callback(callback(s, n), [&comp](auto fun) {
                if constexpr (O) {
                    if constexpr (K == NONE) {
                        return comp.template or_object<typename S::value, Ts...>();
                    } else {
                        return comp.template or_object<typename S::value, Ts...>(fun);
                    }
                } else if constexpr (K == NONE) {
                    return comp.template or_else<Ts...>();
                } else {
                    return comp.template or_else<Ts...>(fun);
                }
            }), n);
        }
        template <typename Comp>
        auto all(Comp comp, int) {
            return comp;
        }
        template <typename Comp, typename S, typename... Ss>
        auto all(Comp comp, int n, S* s, Ss*... ss) {
            return all(more(comp, s, n), n + 1, ss...);
        }
        template <typename S, typename... Ss>
        auto go(S* s, Ss*... ss) {
            auto comp = all(first(s), 1, ss...);
            // the values can be taken as often as it is convenient
            for (int i = plan.taken; i > 0; --i) {
                static_cast<void>(comp.values());
            }
            return comp.values();
        }
    };

    template <size_t I, typename V>
    static void held(const V& v, const strs* f, int want, str& bad) {
        using S = std::tuple_element_t<I, tuple<Stages...>>;
        const auto& o = std::get<I>(v);
        if (o.has_value() != (static_cast<int>(I) == want)) {
            bad = "alternative " + std::to_string(I) + (o ? " holds a value" : " is empty");
        } else if (o && !S::Row::same(S::flat(*o), *f)) {
            bad = "alternative " + std::to_string(I) + " holds " + S::Row::show_row(S::flat(*o));
        }
        if constexpr (I + 1 < sizeof...(Stages)) {
            held<I + 1>(v, f, want, bad);
        }
    }

    template <template <typename...> class Par>
    static void run(Ctx& c, Rng& rng, const std::vector<size_t>& widths, const Hints& hints) {
        using P = Par<ss::quote<'"'>, ss::escape<'\\'>, ss::multiline_restricted<2>>;
        Cfg cfg = qe_cfg();
        cfg.ML = true;
        cfg.limit = 2;
        Gen g{rng, cfg, ","};
        str data;
        // a part of the runs selects columns
        std::vector<size_t> chosen;
        size_t width = 0;
        if (rng.chance(1, 3)) {
            const size_t k = rng.pick(widths);
            width = k + rng.below(3);
            for (size_t i = 0; i < width; ++i) {
                chosen.push_back(i);
                data += (i ? "," : "") + str{"n"} + std::to_string(i);
            }
            data += "\n";
            for (size_t i = 0; i < width; ++i) std::swap(chosen[i], chosen[rng.below(width)]);
            chosen.resize(k);
            c.feature("runs with selected columns");
        }
        for (size_t k = rng.range(1, 7); k > 0; --k) {
            strs f = row_fields(rng, chosen.empty() || rng.chance(1, 8) ? rng.pick(widths) : width, hints);
            for (auto& x : f) {
                str t;
                for (char ch : x) {
                    if (ch != '\0') t += ch;
                }
                x = t;
                if (rng.chance(1, 12)) x += "\nb";
            }
            Err kind = OK;
            data += rng.chance(1, 8) ? g.malformed(f.size(), kind, k > 1) : g.row(f);
            data += rng.chance(1, 4) ? "\r\n" : "\n";
        }
        Model m{data, cfg, ","};
        Heap b{data};
        P p{b.p, b.n};
        str hist;
        if (!chosen.empty()) {
            auto n = [&](size_t i) { return "n" + std::to_string(chosen[i]); };
            switch (chosen.size()) {
            case 1: p.use_fields(n(0)); break;
            case 2: p.use_fields(n(0), n(1)); break;
            case 3: p.use_fields(n(0), n(1), n(2)); break;
            default: p.use_fields(n(0), n(1), n(2), n(3));
            }
            m.ignore_next();
            for (size_t i = 0; i < chosen.size(); ++i) hist += " " + n(i);
            hist += " selected";
        }
        auto desc = [&] { return str{P::h_text ? "string" : "bool"} + " errors, data " + show(data) + ", rows" + hist; };
        for (size_t past = 0; past < 2;) {
            Plan plan;
            for (size_t i = 0; i < 8; ++i) {
                plan.result[i] = rng.chance(3, 5);
                plan.on_error[i] = static_cast<int>(rng.below(3));
            }
            plan.taken = rng.chance(1, 3) ? static_cast<int>(rng.below(3)) : 0;
            optional<strs> f;
            if (m.eof()) {
                ++past;
                hist += " end";
                c.feature("chains at the end");
            } else {
                const Row r = m.peek();
                if (r.err == OK) f = r.fields;
                if (f && !chosen.empty()) {
                    strs part;
                    if (f->size() == width) {
                        for (size_t i : chosen) part.push_back((*f)[i]);
                    }
                    f = part; // no columns: no conversion succeeds
                }
                hist += " " + (f ? show(*f, 60) : str{"unreadable"});
                c.feature(f ? "chains on rows" : "chains on unreadable rows");
                m.next(1);
            }
            const strs* row = f ? &*f : nullptr;
            const Expected e = expected(row, plan);
            trace.clear();
            Run<P> r{c, p, row, plan, m};
            const auto values = r.go(static_cast<Stages*>(nullptr)...);
            const bool valid = p.valid();
            if (e.open) {
                c.feature("undecided rows");
            } else {
                str bad = r.bad ? r.why : "";
                auto text = [&] {
                    str pl;
                    for (size_t i = 0; i < sizeof...(Stages); ++i) {
                        pl += str{plan.result[i] ? "true" : "false"} + "/" + std::to_string(plan.on_error[i]) + " ";
                    }
                    return bad + ", observed " + show(trace, 60) + " expected " + show(e.trace, 60) + ", valid() " +
                           (valid ? "true" : "false") + ", plan " + pl + "; " + types() + "; " + desc();
                };
                if (!c.check(!r.bad, "callback-arguments", text)) return;
                if (!c.check(trace == e.trace, "calls", text)) return;
                held<0>(values, row, e.holds, bad);
                if (!c.check(bad.empty(), "alternatives", text)) return;
                if (!c.check(valid == (e.holds >= 0), "validity", text)) return;
                if (e.holds >= 0) {
                    c.features["held by alternative " + std::to_string(e.holds)]++;
                } else {
                    c.feature("held by none");
                }
                if constexpr (P::h_text) {
                    if (!c.check(valid == p.error_msg().empty(), "message", text)) return;
                }
            }
            // one row, exactly
            if (!c.check(p.eof() == m.eof() && p.line() == m.line() && p.position() == m.position(), "rows-consumed", [&] {
                    return "line " + std::to_string(p.line()) + " position " + std::to_string(p.position()) + "; " + desc();
                })) return;
        }
        c.nontrivial(hash_str(data, hash_str(types())));
        if (rng.chance(1, 300)) c.sample(types() + ", " + desc());
    }
    static str types() {
        str s;
        ((s += "<" + Stages::Row::types() + ">"), ...);
        return s;
    }
    static void any(Ctx& c, Rng& rng, const std::vector<size_t>& widths, const Hints& hints) {
        if (rng.chance(1, 2)) {
            run<PlainParser>(c, rng, widths, hints);
        } else {
            run<TextParser>(c, rng, widths, hints);
        }
    }
};

const strs mixed{"0", "1", "-1", "7", "x", "abc", "", "1.5", "!", "a!", "true", "99999999999", "c"};

} // namespace

SCENARIO(chains, 100) {
    const Hints hs{mixed};
    switch (rng.below(13)) {
    case 0: Chain<Stage<false, NONE, int>>::any(c, rng, {1, 1, 2}, hs); break;
    case 1: Chain<Stage<false, BOOL_ALL, int>, Stage<false, BOOL_NONE, double>, Stage<false, NONE, string>>::any(c, rng, {1, 1, 1, 2}, hs); break;
    case 2: Chain<Stage<false, VOID_EACH, int, int>, Stage<false, BOOL_EACH, int, string>, Stage<true, BOOL_ALL, string, string>, Stage<false, NONE, int, int, int>>::any(c, rng, {2, 2, 3}, hs); break;
    case 3: Chain<Stage<true, VOID_ALL, int, string>, Stage<true, NONE, string>, Stage<false, INT_EACH, Tap, Tap>>::any(c, rng, {1, 2, 2}, hs); break;
    case 4: Chain<Stage<false, BOOL_NONE, Tap>, Stage<false, BOOL_ALL, Tap, Tap>, Stage<false, VALUE_ALL, Tap>, Stage<true, VALUE_ALL, Tap, int>>::any(c, rng, {1, 1, 2}, hs); break;
    case 5: Chain<Stage<false, NONE, int, void>, Stage<false, VOID_NONE, void, int>, Stage<false, BOOL_ALL, string, void>>::any(c, rng, {2, 2, 2, 3}, hs); break;
    case 6: Chain<Stage<false, BOOL_ALL, ss::ir<int, 0, 5>>, Stage<true, BOOL_NONE, ss::ne<string>>, Stage<false, VALUE_ALL, string>>::any(c, rng, {1, 1, 1, 2}, hs); break;
    case 7: Chain<Stage<false, PTR_EACH, char, optional<int>>, Stage<false, BOOL_EACH, variant<int, bool>, string>, Stage<true, VALUE_ALL, string, string>>::any(c, rng, {2, 2, 1}, hs); break;
    case 8: Chain<Stage<false, INT_EACH, double, double, double>, Stage<true, VOID_NONE, double, double>, Stage<false, BOOL_ALL, double>>::any(c, rng, {1, 2, 3}, {{"1", "2.5", "x", "-3", "1e2", "0"}}); break;
    case 9: Chain<Stage<true, BOOL_ALL, int>, Stage<true, BOOL_ALL, int>, Stage<true, BOOL_ALL, int>, Stage<true, BOOL_ALL, int>>::any(c, rng, {1, 1, 1, 2}, hs); break;
    case 10: Chain<Stage<false, NONE, Tap, int>, Stage<false, NONE, Tap, string>, Stage<false, BOOL_EACH, Tap, Tap, Tap>>::any(c, rng, {2, 2, 3}, hs); break;
    case 11: Chain<Stage<false, NONE, int>, Stage<false, BOOL_ALL, int, int>, Stage<false, VOID_EACH, int, int, int>, Stage<false, NONE, int, Tap>, Stage<false, BOOL_EACH, Tap, string>, Stage<true, NONE, double>, Stage<false, INT_EACH, string>, Stage<false, VOID_ALL, string, string, string>>::any(c, rng, {1, 2, 3, 4}, hs); break;
    default: Chain<Stage<false, VOID_ALL, string, string>, Stage<false, VOID_EACH, string, string, string>>::any(c, rng, {1, 2, 3}, hs); break;
    }
}
