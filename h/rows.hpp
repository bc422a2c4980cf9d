// Rows of typed columns: what a list of types promises for a row, and running
// rows through the parser and the converter in all error modes.
#pragma once
#include "gen.hpp"
#include "ref.hpp"
#include <memory>

namespace h {

// reference value of an accepted text
template <typename T>
T ref_value(const str& t) {
    if constexpr (std::is_same_v<T, std::string>) {
        return t;
    } else if constexpr (std::is_same_v<T, bool>) {
        return t == "1" || t == "true";
    } else if constexpr (std::is_floating_point_v<T>) {
        if constexpr (std::is_same_v<T, float>) {
            return std::strtof(t.c_str(), nullptr);
        } else {
            return std::strtod(t.c_str(), nullptr);
        }
    } else if constexpr (std::is_integral_v<T> && sizeof(T) == 1) {
        return static_cast<T>(t[0]);
    } else if constexpr (std::is_integral_v<T>) {
        i128 v = 0;
        ref_int(t, true, -(static_cast<i128>(1) << 80), static_cast<i128>(1) << 80, v);
        return static_cast<T>(v);
    } else {
        // numeric wrapper
        i128 v = 0;
        ref_int(t, true, -1000, 1000, v);
        return T{static_cast<typename T::type>(v)};
    }
}

// one requested column. Restrictions specialise this with
//   base, ok(value) and message()
template <typename T>
struct Col {
    using base = T;
    static constexpr bool restricted = false;
    static bool ok(const str&) {
        return true;
    }
    static str message() {
        return "";
    }
    static str name() {
        return Ref<T>::name();
    }
};

template <>
struct Col<void> {
    using base = void;
    static constexpr bool restricted = false;
    static str name() {
        return "void";
    }
};

template <typename T>
bool same_value(const T& a, const T& b) {
    return a == b;
}
template <typename T>
bool same_value(const ss::numeric_wrapper<T>& a, const ss::numeric_wrapper<T>& b) {
    return static_cast<T>(a) == static_cast<T>(b);
}

enum Fail { CONVERTS, NOT_CONVERTED, RESTRICTED, UNDECIDED };

struct Outcome {
    Fail fail = CONVERTS;
    size_t column = 0;
    str message;
};

template <typename... Ts>
struct RowRef {
    template <typename... Us>
    struct pack {};
    template <typename Acc, typename... Us>
    struct keep;
    template <typename... As>
    struct keep<pack<As...>> {
        using type = pack<As...>;
    };
    template <typename... As, typename U, typename... Us>
    struct keep<pack<As...>, U, Us...> {
        using type = typename std::conditional_t<
            std::is_void_v<U>, keep<pack<As...>, Us...>,
            keep<pack<As..., std::conditional_t<std::is_void_v<U>, int, typename Col<U>::base>>, Us...>>::type;
    };
    template <typename P>
    struct value;
    template <typename A>
    struct value<pack<A>> {
        using type = A;
    };
    template <typename A, typename B, typename... As>
    struct value<pack<A, B, As...>> {
        using type = std::tuple<A, B, As...>;
    };
    using ret = typename value<typename keep<pack<>, Ts...>::type>::type;
    static constexpr size_t count = sizeof...(Ts);

    template <typename T>
    static void column(Outcome& o, const str& t, size_t i) {
        if constexpr (!std::is_void_v<T>) {
            if (o.fail != CONVERTS) {
                return;
            }
            const Tri a = Ref<typename Col<T>::base>::accepts(t);
            o.column = i;
            if (a == OPEN) {
                o.fail = UNDECIDED;
            } else if (a == NO) {
                o.fail = NOT_CONVERTED;
            } else if (!Col<T>::ok(t)) {
                o.fail = RESTRICTED;
                o.message = Col<T>::message();
            }
        }
    }
    static Outcome outcome(const strs& f) {
        Outcome o;
        size_t i = 0;
        ((column<Ts>(o, f[i], i), ++i), ...);
        return o;
    }

    template <size_t N>
    static const auto& nth(const ret& v) {
        if constexpr (one) {
            return v;
        } else {
            return std::get<N>(v);
        }
    }
    static constexpr bool one = ((std::is_void_v<Ts> ? 0 : 1) + ...) == 1;

    template <typename T, size_t I, size_t N, typename F, typename... Rest>
    static void each(const ret& v, F&& f) {
        if constexpr (!std::is_void_v<T>) {
            f(nth<N>(v), I, static_cast<T*>(nullptr));
        }
        if constexpr (sizeof...(Rest) > 0) {
            next<I + 1, N + (std::is_void_v<T> ? 0 : 1), F, Rest...>(v, std::forward<F>(f));
        }
    }
    template <size_t I, size_t N, typename F, typename T, typename... Rest>
    static void next(const ret& v, F&& f) {
        each<T, I, N, F, Rest...>(v, std::forward<F>(f));
    }

    static bool same(const ret& v, const strs& fields) {
        bool ok = true;
        next<0, 0>(v, fields, ok);
        return ok;
    }
    template <size_t I, size_t N>
    static void next(const ret& v, const strs& fields, bool& ok) {
        auto f = [&](const auto& x, size_t i, auto* p) {
            using T = std::remove_pointer_t<decltype(p)>;
            ok = ok && Ref<typename Col<T>::base>::same(x, fields[i]);
        };
        next<I, N, decltype(f)&, Ts...>(v, f);
    }
    static bool defaults(const ret& v) {
        bool ok = true;
        auto f = [&](const auto& x, size_t, auto*) {
            using B = std::decay_t<decltype(x)>;
            ok = ok && is_default<B>(x);
        };
        next<0, 0, decltype(f)&, Ts...>(v, f);
        return ok;
    }
    static str show_row(const ret& v) {
        str s;
        auto f = [&](const auto& x, size_t, auto*) {
            using B = std::decay_t<decltype(x)>;
            s += (s.empty() ? "" : " | ") + Ref<B>::show_value(x);
        };
        next<0, 0, decltype(f)&, Ts...>(v, f);
        return s;
    }
    static str types() {
        str s;
        ((s += (s.empty() ? "" : ",") + Col<Ts>::name()), ...);
        return s;
    }
};

// --- running rows -----------------------------------------------------------

template <typename R>
struct Read {
    bool ok = false;
    bool threw = false;
    str msg;
    std::optional<R> value;
};

template <typename P, typename F>
auto reading(P& p, F&& f) {
    using R = decltype(f());
    Read<R> r;
    if constexpr (P::h_throws) {
        try {
            r.value.emplace(f());
            r.ok = true;
        } catch (const ss::exception& e) {
            r.threw = true;
            r.msg = e.what();
        }
    } else {
        r.value.emplace(f());
        r.ok = p.valid();
        if constexpr (P::h_text) {
            r.msg = p.error_msg();
        }
    }
    return r;
}

template <typename... O>
struct PlainParser : ss::parser<O...> {
    static constexpr bool h_throws = false, h_text = false;
    using ss::parser<O...>::parser;
};
template <typename... O>
struct TextParser : ss::parser<O..., ss::string_error> {
    static constexpr bool h_throws = false, h_text = true;
    using ss::parser<O..., ss::string_error>::parser;
};
template <typename... O>
struct ThrowParser : ss::parser<O..., ss::throw_on_error> {
    static constexpr bool h_throws = true, h_text = true;
    using ss::parser<O..., ss::throw_on_error>::parser;
};
template <typename... O>
struct PlainConverter : ss::converter<O...> {
    static constexpr bool h_throws = false, h_text = false;
};
template <typename... O>
struct TextConverter : ss::converter<O..., ss::string_error> {
    static constexpr bool h_throws = false, h_text = true;
};
template <typename... O>
struct ThrowConverter : ss::converter<O..., ss::throw_on_error> {
    static constexpr bool h_throws = true, h_text = true;
};

// decides one read of a row
template <typename... Ts, typename R>
bool decide(Ctx& c, const Read<R>& got, const strs& f, const std::function<str()>& desc) {
    using Ref_row = RowRef<Ts...>;
    static_assert(std::is_same_v<R, typename Ref_row::ret>);
    auto shown = [&] {
        return (got.ok ? "read " : "error ") + show(got.msg, 200) + " " +
               (got.value ? Ref_row::show_row(*got.value) : str{"-"}) + " for columns " +
               show(f, 80) + " as " + Ref_row::types() + "; " + desc();
    };
    if (f.size() != Ref_row::count) {
        c.features["wrong column counts"]++;
        return c.check(!got.ok && (!got.value || Ref_row::defaults(*got.value)),
                       got.ok ? "wrong-count-accepted" : "values-with-error", shown);
    }
    const Outcome o = Ref_row::outcome(f);
    if (o.fail == UNDECIDED) {
        c.features["undecided rows"]++;
        return true;
    }
    if (o.fail == CONVERTS) {
        c.features["converted rows"]++;
        return c.check(got.ok, "valid-row-rejected", shown) &&
               c.check(Ref_row::same(*got.value, f), "wrong-values", shown);
    }
    c.features[o.fail == RESTRICTED ? "restricted rows" : "rows not converted"]++;
    if (!c.check(!got.ok, o.fail == RESTRICTED ? "restriction-ignored" : "invalid-row-accepted", shown)) {
        return false;
    }
    if (got.value && !c.check(Ref_row::defaults(*got.value), "values-with-error", shown)) {
        return false;
    }
    if (!got.msg.empty() && o.fail == RESTRICTED) {
        return c.check(got.msg.find(o.message) != str::npos, "restriction-message", shown);
    }
    return true;
}

using Hints = std::vector<strs>;

// fields for a list of types; mostly from the hints of the column
inline strs row_fields(Rng& r, size_t n, const Hints& hints) {
    strs f;
    for (size_t i = 0; i < n; ++i) {
        const strs& h = hints[i % hints.size()];
        str t = !h.empty() && r.chance(4, 5) ? r.pick(h) : field_text(r);
        f.push_back(plain_text(t, '\0'));
    }
    if (r.chance(1, 10)) {
        if (r.chance(1, 2) && f.size() > 1) {
            f.pop_back();
        } else {
            f.push_back(field_text(r));
        }
    }
    return f;
}

inline Cfg qe_cfg() {
    Cfg c;
    c.Q = true;
    c.esc = "\\";
    return c;
}

template <template <typename...> class Par, template <typename...> class Conv, typename... Ts>
void rows_case(Ctx& c, Rng& rng, const Hints& hints) {
    const Cfg cfg = qe_cfg();
    Gen g{rng, cfg, ","};
    std::vector<strs> rows;
    str data;
    for (size_t n = rng.range(1, 6); n > 0; --n) {
        strs f = row_fields(rng, sizeof...(Ts), hints);
        for (auto& x : f) {
            str t;
            for (char ch : x) {
                if (ch != '\n' && ch != '\0') t += ch;
            }
            x = t;
        }
        str line = g.row(f);
        if (line.empty()) {
            f = {"x"};
            line = "x";
        }
        rows.push_back(f);
        data += line + (rng.chance(1, 4) ? "\r\n" : "\n");
    }
    auto desc = [&] { return "data " + show(data); };
    using P = Par<ss::quote<'"'>, ss::escape<'\\'>>;
    using C = Conv<ss::quote<'"'>, ss::escape<'\\'>>;
    {
        Heap b{data};
        P p{b.p, b.n};
        for (auto& f : rows) {
            const auto got = reading(p, [&] { return p.template get_next<Ts...>(); });
            if (!decide<Ts...>(c, got, f, desc)) {
                return;
            }
        }
        if (!c.check(p.eof(), "rows-left", desc)) {
            return;
        }
    }
    if (rng.chance(1, 2)) {
        // one converter for all rows
        C conv;
        for (auto& f : rows) {
            str t = g.row(f);
            if (t.empty()) continue;
            Heap b{t, true};
            const auto got = reading(conv, [&] { return conv.template convert<Ts...>(b.p); });
            if (!decide<Ts...>(c, got, f, [&] { return "converter, line " + show(t) + " of " + desc(); })) {
                return;
            }
        }
    }
    c.nontrivial(hash_str(data, hash_str(RowRef<Ts...>::types())));
    if (rng.chance(1, 400)) c.sample(RowRef<Ts...>::types() + ": " + show(data, 200));
}

template <typename... Ts>
void any_rows(Ctx& c, Rng& rng, const Hints& hints) {
    switch (rng.below(3)) {
    case 0:
        rows_case<PlainParser, PlainConverter, Ts...>(c, rng, hints);
        break;
    case 1:
        rows_case<TextParser, TextConverter, Ts...>(c, rng, hints);
        break;
    default:
        rows_case<ThrowParser, ThrowConverter, Ts...>(c, rng, hints);
    }
}

} /* namespace h */
