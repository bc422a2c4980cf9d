// C18: a row converts completely or not at all; user defined conversions are
// called at most once per column, in order, with exactly the bytes of it.
#include "restr.hpp"
using namespace h;

using std::optional;
using std::string;
using std::variant;

namespace {
// one call of user code: which column and what it was given
struct Seen {
    int n;
    str text;
    bool operator==(const Seen& o) const {
        return n == o.n && text == o.text;
    }
    bool operator<(const Seen& o) const {
        return n != o.n ? n < o.n : text < o.text;
    }
};
std::vector<Seen> seen;

str show_seen(const std::vector<Seen>& v) {
    str s;
    for (auto& x : v) s += std::to_string(x.n) + ":" + show(x.text, 60) + " ";
    return s;
}
} // namespace

// a user defined type; writes to the destination before it decides
template <int N>
struct Tap {
    str text;
    int writes = 0;
    bool operator==(const Tap& o) const {
        return text == o.text && writes == o.writes;
    }
};

static bool tap_accepts(const str& t) {
    return t.find('!') == str::npos;
}

#define TAP(N)                                                                 \
    template <>                                                                \
    inline bool ss::extract(const char* b, const char* e, Tap<N>& dst) {       \
        seen.push_back({N, str{b, e}});                                        \
        dst.text.assign(b, e);                                                 \
        ++dst.writes;                                                          \
        return tap_accepts(dst.text);                                          \
    }
TAP(0)
TAP(1)
TAP(2)
TAP(3)
TAP(4)

// a restriction of it
template <int N>
struct Short {
    bool ss_valid(const Tap<N>& t) const {
        seen.push_back({100 + N, t.text});
        return t.text.size() < 4;
    }
    const char* error() const {
        return "too long";
    }
};

namespace h {
template <int N>
struct Ref<Tap<N>> {
    using type = Tap<N>;
    static Tri accepts(const str& t) {
        return tap_accepts(t) ? YES : NO;
    }
    static bool same(const type& x, const str& t) {
        return x.text == t && x.writes == 1;
    }
    static str name() {
        return "tap" + std::to_string(N);
    }
    static str show_value(const type& x) {
        return show(x.text, 60) + "/" + std::to_string(x.writes);
    }
};
template <int N>
struct Col<Short<N>> {
    using base = Tap<N>;
    static constexpr bool restricted = true;
    static bool ok(const str& t) {
        return t.size() < 4;
    }
    static str message() {
        return "too long";
    }
    static str name() {
        return "short" + std::to_string(N);
    }
};
} // namespace h

// the calls a column makes when it is converted
template <typename T>
struct Calls {
    static void add(std::vector<Seen>&, const str&) {
    }
};
template <int N>
struct Calls<Tap<N>> {
    static void add(std::vector<Seen>& v, const str& t) {
        v.push_back({N, t});
    }
};
template <int N>
struct Calls<Short<N>> {
    static void add(std::vector<Seen>& v, const str& t) {
        v.push_back({N, t});
        if (tap_accepts(t)) v.push_back({100 + N, t});
    }
};
template <typename T>
struct Calls<optional<T>> : Calls<T> {};
template <typename T, typename... Ts>
struct Calls<variant<T, Ts...>> {
    static void add(std::vector<Seen>& v, const str& t) {
        Calls<T>::add(v, t);
        if constexpr (sizeof...(Ts) > 0) {
            if (Ref<T>::accepts(t) == NO) Calls<variant<Ts...>>::add(v, t);
        }
    }
};

template <typename... Ts>
static std::vector<Seen> all_calls(const strs& f) {
    std::vector<Seen> v;
    size_t i = 0;
    ((Calls<Ts>::add(v, f[i]), ++i), ...);
    return v;
}

static bool is_subsequence(const std::vector<Seen>& a, const std::vector<Seen>& b) {
    size_t j = 0;
    for (auto& x : a) {
        while (j < b.size() && !(b[j] == x)) ++j;
        if (j++ == b.size()) return false;
    }
    return true;
}

template <typename... Ts, typename R>
static bool decide_calls(Ctx& c, const Read<R>& got, const strs& f, bool ordered,
                         const std::function<str()>& desc) {
    const auto calls = seen;
    if (!decide<Ts...>(c, got, f, desc)) {
        return false;
    }
    c.feature("user conversions", calls.size());
    if (f.size() != sizeof...(Ts)) {
        return c.check(calls.empty(), "conversions-with-wrong-count", [&] {
            return "called " + show_seen(calls) + "; " + desc();
        });
    }
    auto want = all_calls<Ts...>(f);
    auto have = calls;
    auto text = [&] {
        return "called " + show_seen(calls) + "for columns " + show(f, 60) + " as " + RowRef<Ts...>::types() +
               "; " + desc();
    };
    if (!ordered) {
        std::sort(want.begin(), want.end());
        std::sort(have.begin(), have.end());
    }
    if (got.ok) {
        return c.check(have == want, "conversion-calls", text);
    }
    return c.check(is_subsequence(have, want), "conversion-calls", text);
}

static str tap_text(Rng& r) {
    static const strs pool{"a", "ab", "abcd", "!", "a!", "!b", "x y", "", "0", "7", "1.5", "abcdefgh", "\"", "\\", "q\"q", "e\\e", ",", "a,b"};
    return r.chance(1, 12) ? field_text(r) : r.pick(pool);
}

template <template <typename...> class Par, template <typename...> class Conv, typename... Ts>
static void taps(Ctx& c, Rng& rng) {
    const Cfg cfg = qe_cfg();
    Gen g{rng, cfg, ","};
    using P = Par<ss::quote<'"'>, ss::escape<'\\'>>;
    using C = Conv<ss::quote<'"'>, ss::escape<'\\'>>;
    constexpr size_t n = sizeof...(Ts);
    const bool mapped = rng.chance(1, 3);
    const size_t width = mapped ? n + rng.below(3) : n;

    auto field = [&] {
        str t, u = tap_text(rng);
        for (char x : u) {
            if (x != '\n' && x != '\0') t += x;
        }
        return t;
    };
    std::vector<strs> rows;
    strs head;
    str data;
    std::vector<size_t> sel;
    strs names;
    if (mapped) {
        for (size_t i = 0; i < width; ++i) {
            head.push_back("f" + std::to_string(i));
            sel.push_back(i);
        }
        for (size_t i = 0; i + 1 < width; ++i) std::swap(sel[i], sel[i + rng.below(width - i)]);
        sel.resize(n);
        for (size_t i : sel) names.push_back(head[i]);
        data = g.row(head) + "\n";
    }
    for (size_t k = rng.range(1, 6); k > 0; --k) {
        size_t w = width;
        if (rng.chance(1, 7)) w = rng.chance(1, 2) && w > 1 ? w - 1 : w + 1;
        strs f;
        for (size_t i = 0; i < w; ++i) f.push_back(field());
        str line = g.row(f);
        if (line.empty()) {
            f = {"x"};
            line = "x";
        }
        rows.push_back(f);
        data += line + (rng.chance(1, 4) ? "\r\n" : "\n");
    }
    auto desc = [&] {
        return (mapped ? "fields " + show(names) + ", " : str{}) + "data " + show(data);
    };
    auto project = [&](const strs& f) {
        // a wrong number of columns stays a wrong one
        if (!mapped) return f;
        if (f.size() != width) return strs(n + 1, "");
        strs out;
        for (size_t i : sel) out.push_back(f[i]);
        return out;
    };
    {
        Heap b{data};
        P p{b.p, b.n};
        if (mapped) p.use_fields(names);
        for (auto& f : rows) {
            seen.clear();
            const auto got = reading(p, [&] { return p.template get_next<Ts...>(); });
            if (!decide_calls<Ts...>(c, got, project(f), !mapped, desc)) return;
        }
        if (!c.check(p.eof(), "rows-left", desc)) return;
        c.features[mapped ? "mapped reads" : "plain reads"] += rows.size();
        // nothing is converted past the end
        seen.clear();
        const auto got = reading(p, [&] { return p.template get_next<Ts...>(); });
        if (!c.check(!got.ok && seen.empty() && (!got.value || RowRef<Ts...>::defaults(*got.value)), "conversions-at-the-end", desc)) return;
    }
    if (!mapped) {
        C conv;
        for (auto& f : rows) {
            str t = g.row(f);
            if (t.empty()) continue;
            Heap b{t, true};
            seen.clear();
            const auto got = reading(conv, [&] { return conv.template convert<Ts...>(b.p); });
            if (!decide_calls<Ts...>(c, got, f, true, [&] { return "converter, line " + show(t) + " of " + desc(); })) {
                return;
            }
        }
    }
    c.nontrivial(hash_str(data, hash_str(RowRef<Ts...>::types())));
    if (rng.chance(1, 400)) c.sample(RowRef<Ts...>::types() + ": " + show(data, 200));
}

template <typename... Ts>
static void any_taps(Ctx& c, Rng& rng) {
    switch (rng.below(3)) {
    case 0: taps<PlainParser, PlainConverter, Ts...>(c, rng); break;
    case 1: taps<TextParser, TextConverter, Ts...>(c, rng); break;
    default: taps<ThrowParser, ThrowConverter, Ts...>(c, rng);
    }
}

SCENARIO(taps, 100) {
    switch (rng.below(14)) {
    case 0: any_taps<Tap<0>>(c, rng); break;
    case 1: any_taps<Tap<0>, Tap<1>, Tap<2>>(c, rng); break;
    case 2: any_taps<Tap<0>, void, Tap<1>, int>(c, rng); break;
    case 3: any_taps<int, Tap<0>>(c, rng); break;
    case 4: any_taps<optional<Tap<0>>, Tap<1>>(c, rng); break;
    case 5: any_taps<variant<Tap<0>, string>, Tap<1>, variant<int, Tap<2>>>(c, rng); break;
    case 6: any_taps<Short<0>, Tap<1>, Short<2>>(c, rng); break;
    case 7: any_taps<void, Short<0>>(c, rng); break;
    case 8: any_taps<string, Tap<0>, double, Tap<1>, bool>(c, rng); break;
    case 9: any_taps<void, void, Tap<0>, void>(c, rng); break;
    case 10: any_taps<optional<variant<int, Tap<0>>>, void, Tap<1>>(c, rng); break;
    case 11: any_taps<Tap<0>, Tap<0>, Tap<0>, Tap<0>>(c, rng); break;
    case 12: any_taps<char, ss::ne<string>, Tap<4>, optional<int>>(c, rng); break;
    default: any_taps<Tap<3>, Short<4>>(c, rng); break;
    }
}

// many built-in types: one failing column leaves nothing behind
SCENARIO(all_or_nothing, 60) {
    static const strs ints{"0", "1", "-1", "7", "42", "x", "", "99999999999", "1x", " 1"};
    static const strs nums{"1.5", "2", "x", "", "1e3", "-0"};
    static const strs words{"a", "abc", "", "true", "0", "!"};
    switch (rng.below(8)) {
    case 0: any_rows<int, double, string, char>(c, rng, {ints, nums, words, words}); break;
    case 1: any_rows<string, void, int>(c, rng, {words, words, ints}); break;
    case 2: any_rows<void, void, bool>(c, rng, {words, words, words}); break;
    case 3: any_rows<short, unsigned, long, unsigned char, float>(c, rng, {ints, ints, ints, words, nums}); break;
    case 4: any_rows<optional<int>, optional<double>, variant<int, bool>>(c, rng, {ints, nums, words}); break;
    case 5: any_rows<string, string, string, string, string, int>(c, rng, {words, words, words, words, words, ints}); break;
    case 6: any_rows<int, string>(c, rng, {ints, words}); break;
    default: any_rows<ss::int8, ss::uint8, void, long long>(c, rng, {ints, ints, words, ints}); break;
    }
}

// rows of many typed columns
template <size_t I>
using Cell = std::tuple_element_t<I % 13, std::tuple<int, string, Tap<0>, double, void*, optional<int>, char, Short<1>, Tap<2>,
                                                     unsigned char, variant<int, string>, ss::ne<string>, bool>>;
template <size_t I>
using Wide = std::conditional_t<std::is_same_v<Cell<I>, void*>, void, Cell<I>>;

template <template <typename...> class Par, size_t... Is>
static void wide_rows(Ctx& c, Rng& rng, std::index_sequence<Is...>) {
    static const std::vector<strs> good{{"0", "-7", "42"}, {"", "a", "xyz"}, {"", "ab", "x"}, {"1.5", "2", "-0.25"}, {"", "zz"}, {"5", "x", ""}, {"x", "1"}, {"", "abc", "q"}, {"", "t"}, {"a", " "}, {"1", "x", ""}, {"e", "ne"}, {"true", "0", "1"}};
    static const std::vector<strs> bad{{"x", "", "99999999999", "1 "}, {"a"}, {"!", "a!"}, {"x", "1x"}, {"a"}, {"a"}, {"", "xx"}, {"abcd", "!", "!aaaaa"}, {"!"}, {"", "abc"}, {"a"}, {""}, {"", "2", "truex"}};
    constexpr size_t n = sizeof...(Is);
    Cfg cfg;
    cfg.Q = true;
    cfg.esc = "\\";
    Gen g{rng, cfg, ","};
    using P = Par<ss::quote<'"'>, ss::escape<'\\'>>;
    std::vector<strs> rows;
    str data;
    for (size_t k = rng.range(2, 5); k > 0; --k) {
        strs f;
        for (size_t i = 0; i < n; ++i) f.push_back(rng.pick(good[i % 13]));
        // mostly near the limits of small integers, and at the end
        static const std::vector<size_t> marks = {0, 63, 64, 127, 128, 254, 255, 256, 257};
        if (rng.chance(1, 2)) {
            for (size_t b = rng.range(1, 2); b > 0; --b) {
                size_t i = rng.chance(1, 3) ? rng.pick(marks) : rng.chance(1, 3) ? n - 1 : rng.below(n);
                i = std::min(i, n - 1);
                f[i] = rng.pick(bad[i % 13]);
            }
        }
        if (rng.chance(1, 8)) f.pop_back();
        else if (rng.chance(1, 8)) f.push_back("0");
        rows.push_back(f);
        data += g.row(f) + "\n";
    }
    Heap b{data};
    P p{b.p, b.n};
    for (auto& f : rows) {
        seen.clear();
        const auto got = reading(p, [&] { return p.template get_next<Wide<Is>...>(); });
        if (!decide_calls<Wide<Is>...>(c, got, f, true, [&] { return std::to_string(n) + " columns, row " + show(f); })) return;
        c.feature("rows of many types");
    }
    c.check(p.eof(), "rows-left", [&] { return show(data); });
    c.nontrivial(hash_str(data));
}

SCENARIO(wide_typed, 1) {
    switch (rng.below(4)) {
    case 0: wide_rows<PlainParser>(c, rng, std::make_index_sequence<65>{}); break;
    case 1: wide_rows<TextParser>(c, rng, std::make_index_sequence<130>{}); break;
    case 2: wide_rows<ThrowParser>(c, rng, std::make_index_sequence<65>{}); break;
    default: wide_rows<PlainParser>(c, rng, std::make_index_sequence<261>{}); break;
    }
}

// rows whose number of columns differs by what small sizes lose
template <template <typename...> class Par, template <typename...> class Con>
static void far_counts_case(Ctx& c, Rng& rng) {
    using P = Par<ss::quote<'"'>>;
    static const std::vector<size_t> extra{0, 16, 32, 64, 128, 256, 512, 1024, 65536, 32768};
    const bool header = rng.chance(1, 2);
    const size_t base = rng.range(1, 4);
    const size_t head = base + (header && rng.chance(1, 2) ? rng.below(2) ? 256 : extra[rng.below(8)] : 0);
    const size_t k = header ? std::min<size_t>(head, rng.range(1, 4)) : base;
    str data, text = std::to_string(k) + " columns are read of";
    if (header) {
        for (size_t i = 0; i < head; ++i) data += (i ? ",f" : "f") + std::to_string(i);
        data += "\n";
        text += " (header of " + std::to_string(head) + ")";
    }
    std::vector<size_t> widths;
    std::vector<size_t> select;
    for (size_t i = 0; i < k; ++i) select.push_back(head - 1 - i);
    for (size_t n = rng.range(1, 4); n > 0; --n) {
        const size_t full = header ? head : base;
        size_t w = full;
        if (rng.chance(2, 3)) {
            const size_t e = rng.pick(extra);
            w = rng.chance(1, 3) && full > e ? full - e : full + e;
        }
        widths.push_back(w);
        text += " " + std::to_string(w);
        for (size_t i = 0; i < w; ++i) data += (i ? "," : "") + std::to_string(i % 1000);
        data += "\n";
    }
    Heap b{data};
    P p{b.p, b.n};
    Con<ss::quote<'"'>> conv;
    if (header) {
        // use_fields takes its names as arguments
        switch (k) {
        case 1: p.use_fields("f" + std::to_string(select[0])); break;
        case 2: p.use_fields("f" + std::to_string(select[0]), "f" + std::to_string(select[1])); break;
        case 3: p.use_fields("f" + std::to_string(select[0]), "f" + std::to_string(select[1]), "f" + std::to_string(select[2])); break;
        default: p.use_fields("f" + std::to_string(select[0]), "f" + std::to_string(select[1]), "f" + std::to_string(select[2]), "f" + std::to_string(select[3])); break;
        }
    }
    auto desc = [&] { return text; };
    for (size_t w : widths) {
        const bool want = w == (header ? head : base);
        std::vector<int> got;
        bool ok = false;
        str msg;
        auto keep = [&](const auto& r) {
            ok = r.ok;
            msg = r.msg;
        };
        switch (k) {
        case 1: {
            const auto r = reading(p, [&] { return p.template get_next<int>(); });
            keep(r);
            if (ok) got = {*r.value};
            break;
        }
        case 2: {
            const auto r = reading(p, [&] { return p.template get_next<int, int>(); });
            keep(r);
            if (ok) got = {std::get<0>(*r.value), std::get<1>(*r.value)};
            break;
        }
        case 3: {
            const auto r = reading(p, [&] { return p.template get_next<int, int, int>(); });
            keep(r);
            if (ok) got = {std::get<0>(*r.value), std::get<1>(*r.value), std::get<2>(*r.value)};
            break;
        }
        default: {
            const auto r = reading(p, [&] { return p.template get_next<int, int, int, int>(); });
            keep(r);
            if (ok) got = {std::get<0>(*r.value), std::get<1>(*r.value), std::get<2>(*r.value), std::get<3>(*r.value)};
        }
        }
        c.feature(want ? "rows of the right width" : "rows of a far width");
        if (!c.check(ok == want, "far-count", [&] { return "row of " + std::to_string(w) + " columns " + (ok ? "accepted" : "rejected " + msg) + "; " + desc(); })) return;
        if (ok) {
            std::vector<int> values;
            for (size_t i = 0; i < k; ++i) values.push_back(static_cast<int>((header ? select[i] : i) % 1000));
            c.check(got == values, "far-count-values", desc);
        } else if (P::h_text) {
            c.check(msg.find(std::to_string(w)) != str::npos, "far-count-message", [&] { return msg + "; " + desc(); });
        }
        if (!header && k == 2) {
            str line;
            for (size_t i = 0; i < w; ++i) line += (i ? "," : "") + std::to_string(i % 1000);
            Heap l{line, true};
            const auto r = reading(conv, [&] { return conv.template convert<int, int>(l.p); });
            c.check(r.ok == want, "far-count", [&] { return "line of " + std::to_string(w) + " columns"; });
        }
    }
    c.check(p.eof(), "rows-left", desc);
    c.nontrivial(hash_str(text));
}

SCENARIO(far_counts, 2) {
    switch (rng.below(3)) {
    case 0: far_counts_case<PlainParser, PlainConverter>(c, rng); break;
    case 1: far_counts_case<TextParser, TextConverter>(c, rng); break;
    default: far_counts_case<ThrowParser, ThrowConverter>(c, rng); break;
    }
}
