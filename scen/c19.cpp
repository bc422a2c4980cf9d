// C19: objects, tuples and tied structs carry the same values as plain reads.
#include "restr.hpp"
using namespace h;

using std::optional;
using std::string;
using std::tuple;
using std::variant;

namespace {

// what one read showed
struct Out {
    bool ok = false;
    str msg, vals;
    size_t line = 0, pos = 0;
    bool eof = false;
    bool operator==(const Out& o) const {
        return ok == o.ok && msg == o.msg && vals == o.vals && line == o.line && pos == o.pos && eof == o.eof;
    }
    str text() const {
        return str{ok ? "ok" : "error"} + " " + show(msg, 200) + " (" + vals + ") line " + std::to_string(line) +
               " position " + std::to_string(pos) + (eof ? " eof" : "");
    }
};

template <typename T>
struct same_type {
    using type = T;
};

// all forms of reading one list of types
template <typename Obj, typename Tied, typename... Ts>
struct Forms {
    using Row = RowRef<Ts...>;
    using ret = typename Row::ret;
    static constexpr bool has_tied = !std::is_void_v<Tied>;

    static ret flat(const ret& r) {
        return r;
    }
    template <typename X>
    static ret flat(const X& x) {
        return x.values();
    }

    // runs one read, value filled with whatever was returned
    template <typename P, typename F>
    static Out guarded(P& p, F&& f) {
        Out o;
        optional<ret> v;
        if constexpr (P::h_throws) {
            try {
                f(v);
                o.ok = true;
                o.vals = v ? Row::show_row(*v) : "-";
            } catch (const ss::exception& e) {
                o.msg = e.what();
            }
        } else {
            f(v);
            o.ok = p.valid();
            if constexpr (P::h_text) o.msg = p.error_msg();
            o.vals = v ? Row::show_row(*v) : "-";
        }
        return o;
    }

    static constexpr int parser_forms = 14;
    static const char* form_name(int f) {
        static const char* const n[] = {"get_next<Ts...>", "get_next<tuple>", "get_object<Obj, Ts...>",
                                        "get_object<Obj, tuple>", "get_next<Tied>", "iterate<Ts...>",
                                        "iterate<tuple>", "iterate_object<Obj, Ts...>", "iterate<Tied>",
                                        "try_next<Ts...>", "try_object<Obj, Ts...>", "try_next<tuple>",
                                        "try_next<Tied>", "iterate_object<Obj, tuple>"};
        return n[f];
    }

    template <typename It>
    static void first(It&& it, optional<ret>& v) {
        for (auto& x : it) {
            v = flat(x);
            break;
        }
    }
    template <typename P, typename Comp>
    static void composite(P&, Comp&& comp, optional<ret>& v) {
        auto [o] = comp.values();
        if (o) {
            v = flat(*o);
        } else {
            v.emplace(); // nothing stands for default values
        }
    }

    template <typename P>
    static Out read(P& p, int form) {
        constexpr bool tr = !P::h_throws;
        auto f = [&](optional<ret>& v) {
            switch (form) {
            case 1: v = flat(p.template get_next<tuple<Ts...>>()); return;
            case 2: v = flat(p.template get_object<Obj, Ts...>()); return;
            case 3: v = flat(p.template get_object<Obj, tuple<Ts...>>()); return;
            case 4: if constexpr (has_tied) { v = flat(p.template get_next<Tied>()); return; } break;
            case 5: first(p.template iterate<Ts...>(), v); return;
            case 6: first(p.template iterate<tuple<Ts...>>(), v); return;
            case 7: first(p.template iterate_object<Obj, Ts...>(), v); return;
            case 8: if constexpr (has_tied) { first(p.template iterate<Tied>(), v); return; } break;
            case 9: if constexpr (tr) { composite(p, p.template try_next<Ts...>(), v); return; } break;
            case 10: if constexpr (tr) { composite(p, p.template try_object<Obj, Ts...>(), v); return; } break;
            case 11: if constexpr (tr) { composite(p, p.template try_next<tuple<Ts...>>(), v); return; } break;
            case 12: if constexpr (tr && has_tied) { composite(p, p.template try_next<Tied>(), v); return; } break;
            case 13: first(p.template iterate_object<Obj, tuple<Ts...>>(), v); return;
            default: break;
            }
            v = flat(p.template get_next<Ts...>());
        };
        Out o = guarded(p, f);
        o.line = p.line();
        o.pos = p.position();
        o.eof = p.eof();
        return o;
    }

    static constexpr int converter_forms = 13;
    static const char* conv_name(int f) {
        static const char* const n[] = {"convert<Ts...>(line)", "convert<tuple>(line)", "convert_object<Obj, Ts...>(line)",
                                        "convert_object<Obj, tuple>(line)", "convert<Tied>(line)",
                                        "convert<Ts...>(split)", "convert<tuple>(split)",
                                        "convert_object<Obj, Ts...>(split)", "convert<Tied>(split)",
                                        "convert<Ts...>()", "convert<tuple>()", "convert_object<Obj, Ts...>()",
                                        "convert<Tied>()"};
        return n[f];
    }
    template <typename C>
    static Out convert(C& c, int form, char* l, const str& d) {
        auto f = [&](optional<ret>& v) {
            const ss::split_data* s = nullptr;
            if (form >= 5) s = &c.split(l, d);
            switch (form) {
            case 1: v = flat(c.template convert<tuple<Ts...>>(l, d)); return;
            case 2: v = flat(c.template convert_object<Obj, Ts...>(l, d)); return;
            case 3: v = flat(c.template convert_object<Obj, tuple<Ts...>>(l, d)); return;
            case 4: if constexpr (has_tied) { v = flat(c.template convert<Tied>(l, d)); return; } break;
            case 5: v = flat(c.template convert<Ts...>(*s)); return;
            case 6: v = flat(c.template convert<tuple<Ts...>>(*s)); return;
            case 7: v = flat(c.template convert_object<Obj, Ts...>(*s)); return;
            case 8: if constexpr (has_tied) { v = flat(c.template convert<Tied>(*s)); return; } break;
            case 9: v = flat(c.template convert<Ts...>()); return;
            case 10: v = flat(c.template convert<tuple<Ts...>>()); return;
            case 11: v = flat(c.template convert_object<Obj, Ts...>()); return;
            case 12: if constexpr (has_tied) { v = flat(c.template convert<Tied>()); return; } break;
            default: break;
            }
            if (form >= 5) {
                v = flat(c.template convert<Ts...>());
            } else {
                v = flat(c.template convert<Ts...>(l, d));
            }
        };
        return guarded(c, f);
    }

    template <template <typename...> class Par, template <typename...> class Conv>
    static void run(Ctx& c, Rng& rng, const Hints& hints) {
        const Cfg cfg = qe_cfg();
        const str d = rng.chance(3, 4) ? "," : "::";
        Gen g{rng, cfg, d};
        using P = Par<ss::quote<'"'>, ss::escape<'\\'>>;
        using C = Conv<ss::quote<'"'>, ss::escape<'\\'>>;
        constexpr size_t n = sizeof...(Ts);
        str data;
        strs lines;
        const bool mapped = rng.chance(1, 5);
        strs names;
        if (mapped) {
            for (size_t i = 0; i < n; ++i) names.push_back("f" + std::to_string(i));
            data = g.row(names) + "\n";
            for (size_t i = 0; i + 1 < n; ++i) std::swap(names[i], names[i + rng.below(n - i)]);
        }
        for (size_t k = rng.range(1, 8); k > 0; --k) {
            strs f = row_fields(rng, n, hints);
            for (auto& x : f) {
                str t;
                for (char ch : x) {
                    if (ch != '\n' && ch != '\0') t += ch;
                }
                x = t;
            }
            Err kind = OK;
            lines.push_back(rng.chance(1, 8) ? g.malformed(n, kind, true) : g.row(f));
            data += lines.back() + (rng.chance(1, 4) ? "\r\n" : "\n");
        }
        str hist;
        auto desc = [&] {
            return Row::types() + ", delimiter " + show(d) + ", data " + show(data) + ", calls" + hist;
        };
        {
            Heap b{data};
            P plain{b.p, b.n, d}, p{b.p, b.n, d};
            if (mapped) {
                plain.use_fields(names);
                p.use_fields(names);
            }
            for (size_t k = 0; k < lines.size(); ++k) {
                const int form = static_cast<int>(rng.below(parser_forms));
                hist += str{" "} + form_name(form);
                const Out want = read(plain, 0);
                const Out got = read(p, form);
                if (!c.check(want == got, (str{"differs:"} + form_name(form)).c_str(), [&] {
                        return got.text() + " instead of " + want.text() + "; " + desc();
                    })) {
                    return;
                }
                c.feature(want.ok ? "equal rows" : "equal failures");
                c.features[str{"form "} + form_name(form)]++;
            }
            if (!c.check(p.eof() && plain.eof(), "rows-left", desc)) return;
        }
        if (!mapped) {
            C conv;
            for (auto& l : lines) {
                const int form = static_cast<int>(rng.below(converter_forms));
                hist = str{" "} + conv_name(form) + " of " + show(l);
                C fresh;
                Heap a{l, true}, b{l, true};
                const Out want = convert(fresh, 0, a.p, d);
                const Out got = convert(conv, form, b.p, d);
                if (!c.check(want == got, (str{"converter differs:"} + conv_name(form)).c_str(), [&] {
                        return got.text() + " instead of " + want.text() + "; " + desc();
                    })) {
                    return;
                }
                c.feature("equal conversions");
                c.features[str{"form "} + conv_name(form)]++;
            }
        }
        c.nontrivial(hash_str(data, hash_str(Row::types())));
        if (rng.chance(1, 400)) c.sample(desc());
    }

    static void any(Ctx& c, Rng& rng, const Hints& hints) {
        switch (rng.below(3)) {
        case 0: run<PlainParser, PlainConverter>(c, rng, hints); break;
        case 1: run<TextParser, TextConverter>(c, rng, hints); break;
        default: run<ThrowParser, ThrowConverter>(c, rng, hints);
        }
    }
};

// objects: aggregates, classes with constructors, tied structs
struct A3 {
    string a;
    int b;
    double d;
    auto values() const {
        return tuple<string, int, double>{a, b, d};
    }
};
struct T3 {
    string a;
    int b;
    double d;
    auto tied() {
        return std::tie(a, b, d);
    }
    auto values() const {
        return tuple<string, int, double>{a, b, d};
    }
};
class C2 {
public:
    C2() = default;
    C2(string a, int b) : all{std::move(a), b} {
    }
    auto values() const {
        return all;
    }

private:
    tuple<string, int> all{};
};
struct T2 {
    auto tied() {
        return std::tie(a, b);
    }
    string a;
    int b;
    auto values() const {
        return tuple<string, int>{a, b};
    }
};
struct A1 {
    int x;
    int values() const {
        return x;
    }
};
struct T1 {
    int x;
    auto tied() {
        return std::tie(x);
    }
    int values() const {
        return x;
    }
};
struct AO {
    optional<int> a;
    variant<int, string> b;
    char c;
    auto values() const {
        return tuple<optional<int>, variant<int, string>, char>{a, b, c};
    }
};
struct TO {
    optional<int> a;
    variant<int, string> b;
    char c;
    auto tied() {
        return std::tie(a, b, c);
    }
    auto values() const {
        return tuple<optional<int>, variant<int, string>, char>{a, b, c};
    }
};
// members in an order different from the columns
struct TX {
    double d = 0;
    string a;
    int b = 0;
    TX() = default;
    TX(string x, int y, double z) : d{z}, a{std::move(x)}, b{y} {
    }
    auto tied() const {
        return std::tie(a, b, d);
    }
    auto values() const {
        return tuple<string, int, double>{a, b, d};
    }
};
struct Vec {
    std::vector<string> v;
    Vec() : v(3) {
    }
    Vec(string a, string b, string d) : v{std::move(a), std::move(b), std::move(d)} {
    }
    auto values() const {
        return tuple<string, string, string>{v[0], v[1], v[2]};
    }
};
struct TS {
    string a, b, d;
    auto tied() {
        return std::tie(a, b, d);
    }
    auto values() const {
        return tuple<string, string, string>{a, b, d};
    }
};
struct T6 {
    short a;
    unsigned b;
    long long c;
    bool d;
    char e;
    float f;
    auto tied() {
        return std::tie(a, b, c, d, e, f);
    }
    auto values() const {
        return tuple<short, unsigned, long long, bool, char, float>{a, b, c, d, e, f};
    }
};

// constructed from the values even if it could be from anything
struct Any {
    tuple<string, int> all{};
    Any() = default;
    Any(string a, int b) : all{std::move(a), b} {
    }
    template <typename T>
    explicit Any(const T&) : all{"made of something else", -1} {
    }
    auto values() const {
        return all;
    }
};
struct Inner {
    int a;
    string b;
};
// an aggregate with an aggregate, filled by the elision of its braces
struct Outer {
    string s;
    double d;
    Inner in;
    auto values() const {
        return tuple<string, double, int, string>{s, d, in.a, in.b};
    }
};
struct TI {
    string s;
    double d;
    Inner in;
    auto tied() {
        return std::tie(s, d, in.a, in.b);
    }
    auto values() const {
        return tuple<string, double, int, string>{s, d, in.a, in.b};
    }
};
// many members
struct A14 {
    int a[7];
    string b[7];
    template <size_t... Is>
    auto all(std::index_sequence<Is...>) const {
        return tuple_cat(tuple{a[Is]...}, tuple{b[Is]...});
    }
    auto values() const {
        return all(std::make_index_sequence<7>{});
    }
};
struct T14 {
    int a0, a1, a2, a3, a4, a5, a6;
    string b0, b1, b2, b3, b4, b5, b6;
    auto tied() {
        return std::tie(a0, a1, a2, a3, a4, a5, a6, b0, b1, b2, b3, b4, b5, b6);
    }
    auto values() const {
        return tuple{a0, a1, a2, a3, a4, a5, a6, b0, b1, b2, b3, b4, b5, b6};
    }
};

const strs words{"a", "abc", "", "x y", "q\"q", ",", "a::b", "\\", "true"};
const strs ints{"0", "1", "-1", "7", "42", "10", "x", "", "99999999999"};
const strs good{"0", "1", "-1", "7", "42", "10"};
const strs nums{"1.5", "2", "x", "", "1e3", "-0.25"};
const strs bools{"0", "1", "true", "false", "no"};
const strs chars{"a", "b", "ab", "", "1"};

} // namespace

SCENARIO(forms, 100) {
    switch (rng.below(12)) {
    case 0: Forms<A3, T3, string, int, double>::any(c, rng, {words, ints, nums}); break;
    case 1: Forms<TX, TX, string, int, double>::any(c, rng, {words, ints, nums}); break;
    case 2: Forms<C2, T2, string, int>::any(c, rng, {words, ints}); break;
    case 3: Forms<C2, void, string, void, int>::any(c, rng, {words, words, ints}); break;
    case 4: Forms<T2, void, void, ss::ne<string>, ss::ir<int, 0, 10>>::any(c, rng, {words, words, ints}); break;
    case 5: Forms<A1, T1, int>::any(c, rng, {ints}); break;
    case 6: Forms<AO, TO, optional<int>, variant<int, string>, char>::any(c, rng, {ints, ints, chars}); break;
    case 7: Forms<Vec, TS, string, string, string>::any(c, rng, {words, words, words}); break;
    case 8: Forms<Any, void, string, int>::any(c, rng, {words, ints}); break;
    case 9: Forms<Outer, TI, string, double, int, string>::any(c, rng, {words, nums, ints, words}); break;
    case 10: Forms<A14, T14, int, int, int, int, int, int, int, string, string, string, string, string, string, string>::any(c, rng, {good, good, good, good, good, good, good, words, words, words, words, words, words, words}); break;
    default: Forms<T6, T6, short, unsigned, long long, bool, char, float>::any(c, rng, {ints, ints, ints, bools, chars, nums}); break;
    }
}

// containers as objects
SCENARIO(containers, 10) {
    const Cfg cfg = qe_cfg();
    Gen g{rng, cfg, ","};
    str data;
    for (size_t k = rng.range(1, 6); k > 0; --k) {
        strs f = row_fields(rng, 2, {words, words});
        str line = g.row(f);
        str t;
        for (char ch : line) {
            if (ch != '\n') t += ch;
        }
        data += t + "\n";
    }
    auto desc = [&] { return "data " + show(data); };
    Heap b{data};
    using P = ss::parser<ss::quote<'"'>, ss::escape<'\\'>, ss::string_error>;
    P p{b.p, b.n}, v{b.p, b.n}, w{b.p, b.n};
    while (!p.eof()) {
        const auto [x, y] = p.get_next<string, string>();
        const auto vec = v.get_object<std::vector<string>, string, string>();
        if (!c.check(vec == std::vector<string>{x, y} && v.valid() == p.valid() && v.error_msg() == p.error_msg(), "vector-object", [&] {
                return show(vec) + " instead of " + show(strs{x, y}) + "; " + desc();
            })) return;
        strs seen;
        for (auto& o : w.iterate_object<std::vector<string>, string, string>()) {
            seen = o;
            break;
        }
        if (!c.check(seen == vec && w.valid() == p.valid() && w.error_msg() == p.error_msg(), "vector-iterated", desc)) return;
        c.feature("container rows");
    }
    c.check(v.eof() && w.eof(), "rows-left", desc);
    c.nontrivial(hash_str(data));
}

// containers of one or more numbers: the columns are their elements
template <size_t... Is>
static void numbers_case(Ctx& c, Rng& rng, std::index_sequence<Is...>) {
    constexpr size_t n = sizeof...(Is);
    str data;
    std::vector<std::vector<int>> rows;
    for (size_t k = rng.range(1, 5); k > 0; --k) {
        std::vector<int> v;
        for (size_t i = 0; i < n; ++i) {
            v.push_back(static_cast<int>(rng.below(9)));
            data += (i ? "," : "") + std::to_string(v.back());
        }
        rows.push_back(v);
        data += "\n";
    }
    auto desc = [&] { return "data " + show(data); };
    ss::parser<ss::string_error> p{data.data(), data.size()}, q{data.data(), data.size()}, t{data.data(), data.size()};
    size_t i = 0;
    for (auto& v : q.iterate_object<std::vector<int>, std::conditional_t<(Is < n), int, int>...>()) {
        if (!c.check(i < rows.size() && v == rows[i], "vector-iterated", desc)) return;
        ++i;
    }
    if (!c.check(i == rows.size(), "rows-left", desc)) return;
    for (auto& want : rows) {
        const auto v = p.get_object<std::vector<int>, std::conditional_t<(Is < n), int, int>...>();
        if (!c.check(v == want, "vector-object", desc)) return;
        const auto [x] = t.try_object<std::vector<int>, std::conditional_t<(Is < n), int, int>...>().values();
        if (!c.check(x && *x == want, "vector-tried", desc)) return;
        str line;
        for (size_t k = 0; k < n; ++k) line += (k ? "," : "") + std::to_string(want[k]);
        ss::converter<> conv;
        if (!c.check((conv.convert_object<std::vector<int>, std::conditional_t<(Is < n), int, int>...>(line.c_str())) == want, "vector-converted", desc)) return;
    }
    c.feature("containers of numbers", rows.size());
    c.nontrivial(hash_str(data));
}

SCENARIO(numbers, 10) {
    switch (rng.below(3)) {
    case 0: numbers_case(c, rng, std::make_index_sequence<1>{}); break;
    case 1: numbers_case(c, rng, std::make_index_sequence<2>{}); break;
    default: numbers_case(c, rng, std::make_index_sequence<4>{});
    }
}
