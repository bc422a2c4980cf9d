// C17: restrictions accept exactly the values they describe.
#include "restr.hpp"
using namespace h;

using std::string;

// custom validators record what they are called with
static strs calls;

template <typename T>
struct even {
    bool ss_valid(const T& v) const {
        calls.push_back(Ref<T>::show_value(v));
        return v % 2 == 0;
    }
    const char* error() const {
        return "number not even";
    }
};

struct short_text {
    bool ss_valid(const string& v) {
        calls.push_back(show(v));
        return v.size() <= 3;
    }
};

// a validator of an optional: the conversion never fails, the value can
struct has_value {
    bool ss_valid(const std::optional<int>& v) const {
        calls.push_back(v ? std::to_string(*v) : "nullopt");
        return v.has_value();
    }
    str text = "no value";
    const char* error() const {
        return text.c_str();
    }
};

namespace h {
template <typename T>
struct Col<even<T>> {
    using base = T;
    static constexpr bool restricted = true;
    static bool ok(const str& t) {
        return (t.back() - '0') % 2 == 0;
    }
    static str message() {
        return "number not even";
    }
    static str name() {
        return "even<" + Ref<T>::name() + ">";
    }
};
template <>
struct Col<short_text> {
    using base = string;
    static constexpr bool restricted = true;
    static bool ok(const str& t) {
        return t.size() <= 3;
    }
    static str message() {
        return "validation error";
    }
    static str name() {
        return "short_text";
    }
};
template <>
struct Col<has_value> {
    using base = std::optional<int>;
    static constexpr bool restricted = true;
    static bool ok(const str& t) {
        return Ref<int>::accepts(t) == YES;
    }
    static str message() {
        return "no value";
    }
    static str name() {
        return "has_value";
    }
};
} /* namespace h */

// texts at and around the bounds used below
static const strs ints{"-11", "-10", "-9", "-6", "-5", "-4", "-1", "0", "1", "2", "3", "4", "5", "6", "9",
                       "10", "11", "19", "20", "21", "99", "100", "101", "-2147483648", "2147483647",
                       "00010", "-0", "x", ""};
static const strs wide{"0", "1", "254", "255", "256", "4294967295", "4294967296", "4294967297",
                       "9223372036854775806", "9223372036854775807", "9223372036854775808",
                       "18446744073709551614", "18446744073709551615", "18446744073709551616",
                       "-9223372036854775808", "-9223372036854775807", "-1"};
static const strs small{"0", "1", "9", "10", "11", "99", "100", "101", "127", "128", "-1", "-128", "-100", "-101", "200", "255"};
static const strs floats{"0", "-0", "-0.0", "0.0", "1e-300", "-1e-300", "1e-40", "9.999999", "10", "10.0",
                         "10.000001", "1e1", "-1", "-1.5", "5", "9.99999999999999999999", "10.0000000001",
                         "3", "3.0", "3.0000001", "100", "99.5", "x"};
static const strs chars{"a", "b", "c", "d", "A", "`", "1", "", "ab", " "};
static const strs texts{"", "a", "abc", "abcd", " ", "\t", "0", "long text", "''"};
static const strs bools{"0", "1", "true", "false", "2"};

SCENARIO(rows, 100) {
    switch (rng.below(33)) {
    case 0: any_rows<ss::ir<int, 0, 10>>(c, rng, {ints}); break;
    case 1: any_rows<ss::oor<int, 0, 10>>(c, rng, {ints}); break;
    case 2: any_rows<ss::gt<int, -5>, ss::gte<int, -5>>(c, rng, {ints}); break;
    case 3: any_rows<ss::lt<int, 20>, ss::lte<int, 20>>(c, rng, {ints}); break;
    case 4: any_rows<ss::ax<int, 10, 20>, ss::nx<int, 10, 20>>(c, rng, {ints, {"10", "20", "11", "9", "0"}}); break;
    case 5: any_rows<ss::ax<int, 1, 2, 3, 4, 5>>(c, rng, {ints}); break;
    case 6: any_rows<ss::nx<int, 1, 2, 3, 4, 5>, void>(c, rng, {ints, texts}); break;
    case 7: any_rows<ss::ax<int, 5>, ss::nx<int, 5>>(c, rng, {ints, {"5", "5", "4", "6"}}); break;
    case 8: any_rows<ss::ir<double, 0, 10>>(c, rng, {floats}); break;
    case 9: any_rows<ss::ir<float, 0, 10>, int>(c, rng, {floats, ints}); break;
    case 10: any_rows<ss::oor<double, 0, 10>>(c, rng, {floats}); break;
    case 11: any_rows<ss::gte<double, 0>, ss::gt<double, 0>>(c, rng, {floats}); break;
    case 12: any_rows<ss::lt<float, 10>, ss::lte<float, 10>>(c, rng, {floats}); break;
    case 13: any_rows<ss::ne<string>, string>(c, rng, {texts}); break;
    case 14: any_rows<void, ss::ne<string>, ss::ir<int, 0, 99>>(c, rng, {texts, texts, ints}); break;
    case 15: any_rows<ss::nx<char, 'a', 'b'>, ss::ax<char, 'a', 'b'>>(c, rng, {chars}); break;
    case 16: any_rows<ss::ir<char, 'a', 'c'>>(c, rng, {chars}); break;
    case 17: any_rows<ss::gt<unsigned long long, 9223372036854775807ull>>(c, rng, {wide}); break;
    case 18: any_rows<ss::lte<unsigned, 4294967295u>, ss::gte<unsigned, 4294967295u>>(c, rng, {wide}); break;
    case 19: any_rows<ss::ir<long long, std::numeric_limits<long long>::min(), -1ll>>(c, rng, {wide}); break;
    case 20: any_rows<ss::oor<long, 0l, 255l>>(c, rng, {wide}); break;
    case 21: any_rows<ss::ir<short, -10, 100>>(c, rng, {small}); break;
    case 22: any_rows<ss::nx<bool, true>, ss::ax<bool, true>>(c, rng, {bools}); break;
    case 23: any_rows<ss::ir<int, 10, 10>, ss::oor<int, 10, 10>>(c, rng, {ints}); break;
    case 24: any_rows<ss::gte<unsigned short, 100>, ss::lt<unsigned short, 100>>(c, rng, {small}); break;
    case 25: any_rows<even<int>, void, ss::ir<int, 0, 10>>(c, rng, {ints}); break;
    case 26: any_rows<short_text, int>(c, rng, {texts, ints}); break;
    case 27: any_rows<has_value, even<unsigned long>>(c, rng, {ints, wide}); break;
    case 28: any_rows<ss::ax<int, 1, 2, 3, 4, 5, 6>, ss::nx<int, 6, 5, 4, 3, 2, 1, 0>>(c, rng, {{"1", "2", "3", "4", "5", "6", "7", "0", "9"}}); break;
    case 29: any_rows<ss::nx<char, 'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j'>>(c, rng, {{"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "`", "A"}}); break;
    case 30: any_rows<ss::ax<unsigned long, 1ul, 2ul, 3ul, 4ul, 5ul, 9ul, 10ul, 11ul, 19ul, 20ul, 21ul, 99ul, 100ul, 101ul, 18446744073709551615ul, 4294967296ul>>(c, rng, {rng.chance(1, 2) ? ints : wide}); break;
    case 31: any_rows<ss::ne<string>, short_text, even<short>>(c, rng, {texts, texts, small}); break;
    default: any_rows<ss::gt<int, 10>, ss::lt<int, 10>, ss::gte<int, 10>, ss::lte<int, 10>, ss::ir<int, 9, 11>>(c, rng, {ints}); break;
    }
}

// every value around the bounds, for every restriction at once
template <typename R>
static void around(Ctx& c, long from, long to) {
    static ss::converter<ss::string_error> conv;
    for (long v = from; v <= to; ++v) {
        const str t = std::to_string(v);
        const auto got = conv.convert<R>(t.c_str());
        const Outcome o = RowRef<R>::outcome({t});
        auto desc = [&] {
            return Col<R>::name() + " of " + t + (conv.valid() ? " accepted" : " rejected: " + conv.error_msg());
        };
        if (o.fail == UNDECIDED) continue;
        c.check(conv.valid() == (o.fail == CONVERTS), "bounds", desc);
        if (conv.valid()) {
            c.check((Ref<typename Col<R>::base>::same(got, t)), "bounds-value", desc);
        }
        c.feature("values around bounds");
    }
}

SCENARIO(bounds, 1) {
    around<ss::ir<int, -3, 7>>(c, -20, 20);
    around<ss::oor<int, -3, 7>>(c, -20, 20);
    around<ss::ir<int, 5, 5>>(c, -20, 20);
    around<ss::oor<int, 5, 5>>(c, -20, 20);
    around<ss::ir<short, 100, 200>>(c, 80, 220);
    around<ss::gt<long, -100l>>(c, -120, 120);
    around<ss::gte<long, -100l>>(c, -120, 120);
    around<ss::lt<long, 100l>>(c, -120, 120);
    around<ss::lte<long, 100l>>(c, -120, 120);
    around<ss::ax<int, -1, 0, 1, 17>>(c, -20, 20);
    around<ss::nx<int, -1, 0, 1, 17>>(c, -20, 20);
    around<ss::ir<double, -2, 2>>(c, -20, 20);
    around<ss::oor<float, -2, 2>>(c, -20, 20);
    around<ss::ax<double, 2, 3>>(c, -20, 20);
    around<ss::nx<float, 2, 3>>(c, -20, 20);
    around<ss::ax<unsigned, 1u, 2u>>(c, 0, 20);
    around<ss::gt<unsigned long long, 7ull>>(c, 0, 20);
    around<ss::ax<int, -9, -7, -5, -3, -1, 0, 2, 4, 6, 8, 10, 12, 14, 16, 18, 20>>(c, -20, 20);
    around<ss::nx<int, -9, -7, -5, -3, -1, 0, 2, 4, 6, 8, 10, 12, 14, 16, 18, 20>>(c, -20, 20);
    around<ss::ax<int, -9, -7, -5, -3, -1, 0, 2>>(c, -20, 20);
    around<ss::nx<short, -9, -7, -5, -3, -1, 0, 2, 4>>(c, -20, 20);
    around<ss::ax<long, -9, -7, -5, -3, -1, 0>>(c, -20, 20);
    around<ss::nx<double, -9, -7, -5, -3, -1, 0, 2, 4, 6>>(c, -20, 20);
    around<even<int>>(c, -20, 20);
    c.nontrivial(1);
}

// a validator is called with the converted value, once, if there is one
SCENARIO(validator_calls, 30) {
    static ss::converter<> conv;
    const str a = rng.chance(4, 5) ? rng.pick(ints) : field_text(rng);
    const str b = plain_text(rng.chance(1, 2) ? rng.pick(texts) : field_text(rng));
    const str d = rng.chance(4, 5) ? rng.pick(wide) : int_text(rng);
    const str line = plain_text(a) + "," + b + "," + plain_text(d) + ",7";
    const strs f{plain_text(a), b, plain_text(d), "7"};
    calls.clear();
    const auto got = conv.convert<even<int>, short_text, even<unsigned long long>, has_value>(line.c_str());
    static_cast<void>(got);
    const strs seen = calls;
    strs want;
    bool ok = true;
    auto step = [&](bool converts, const str& shown, bool passes) {
        if (!ok) return;
        if (converts) want.push_back(shown);
        ok = converts && passes;
    };
    const bool ia = Ref<int>::accepts(f[0]) == YES;
    step(ia, ia ? std::to_string(ref_value<int>(f[0])) : "", ia && ref_value<int>(f[0]) % 2 == 0);
    step(true, show(f[1]), f[1].size() <= 3);
    const bool id = Ref<unsigned long long>::accepts(f[2]) == YES;
    step(id, id ? std::to_string(ref_value<unsigned long long>(f[2])) : "",
         id && ref_value<unsigned long long>(f[2]) % 2 == 0);
    step(true, "7", true);
    auto desc = [&] { return "line " + show(line) + " validators called with " + show(seen) + " instead of " + show(want); };
    c.check(conv.valid() == ok, "validator-outcome", desc);
    // validators of columns behind the failing one do not matter
    strs head = seen;
    if (!ok && head.size() > want.size()) head.resize(want.size());
    c.expect(head, want, "validator-calls", desc);
    if (ok) c.expect(seen.size(), want.size(), "validator-calls", desc);
    c.feature("validator calls", seen.size());
    c.nontrivial(hash_str(line));
}

// what a validator keeps in itself belongs to one value
struct explaining {
    string why;
    bool used = false;
    bool ss_valid(const int& v) {
        why += "[bad " + std::to_string(v) + "]";
        const bool first = !used;
        used = true;
        return first && v % 3 != 0;
    }
    const char* error() const {
        return why.c_str();
    }
};
struct explaining_text {
    string why = "<";
    bool ss_valid(const string& v) {
        why += v;
        return why.size() < 6;
    }
    const char* error() {
        why += ">";
        return why.c_str();
    }
};

SCENARIO(own_state, 30) {
    static ss::converter<ss::string_error> used;
    std::vector<strs> rows;
    str data;
    for (size_t n = rng.range(1, 8); n > 0; --n) {
        strs f{std::to_string(rng.below(30)), str(rng.below(9), static_cast<char>(rng.range('a', 'z'))), std::to_string(rng.below(30))};
        data += f[0] + "," + f[1] + "," + f[2] + "\n";
        rows.push_back(f);
    }
    ss::parser<ss::string_error> p{data.data(), data.size()};
    ss::parser<ss::throw_on_error> q{data.data(), data.size()};
    ss::parser<> s{data.data(), data.size()};
    auto desc = [&] { return "rows " + show(data); };
    for (auto& f : rows) {
        str want, show_want;
        auto number = [&](const str& t) {
            if (want.empty() && std::stoi(t) % 3 == 0) want = "[bad " + std::to_string(std::stoi(t)) + "]";
        };
        number(f[0]);
        if (want.empty() && f[1].size() > 4) want = "<" + f[1] + ">";
        number(f[2]);
        auto judge = [&](bool ok, const str& msg, const auto& v, const char* what) {
            c.check(ok == want.empty(), "own-state-outcome", [&] { return str{what} + ": " + msg + ", row " + show(f) + ", " + desc(); });
            if (ok) {
                c.check(std::get<0>(v) == std::stoi(f[0]) && std::get<1>(v) == f[1] && std::get<2>(v) == std::stoi(f[2]), "own-state-value", desc);
            } else if (!msg.empty()) {
                const size_t at = msg.find(want);
                c.check(at != str::npos && msg.find(want[0], at + want.size()) == str::npos, "own-state-message", [&] {
                    return str{what} + ": message " + show(msg) + " instead of one with " + want + ", row " + show(f) + ", " + desc();
                });
            }
        };
        const auto a = p.get_next<explaining, explaining_text, explaining>();
        judge(p.valid(), p.error_msg(), a, "parser");
        const auto b = s.get_next<explaining, explaining_text, explaining>();
        judge(s.valid(), "", b, "parser without messages");
        try {
            const auto d = q.get_next<explaining, explaining_text, explaining>();
            judge(true, "", d, "parser with exceptions");
        } catch (const ss::exception& e) {
            judge(false, e.what(), b, "parser with exceptions");
        }
        const str line = f[0] + "," + f[1] + "," + f[2];
        const auto d = used.convert<explaining, explaining_text, explaining>(line.c_str());
        judge(used.valid(), used.error_msg(), d, "converter");
        c.feature("values checked by validators with a state", 12);
    }
    c.nontrivial(hash_str(data));
}

// not-a-number equals no value and lies on no side of one
SCENARIO(not_a_number, 1) {
    auto one = [&](const str& t, auto* r, bool want) {
        using R = std::remove_pointer_t<decltype(r)>;
        using B = typename Col<R>::base;
        ss::converter<> conv;
        const B plain = conv.convert<B>(t.c_str());
        if (!conv.valid() || plain == plain) {
            c.feature("texts which are not a number to the library either");
            return;
        }
        const B got = conv.convert<R>(t.c_str());
        auto desc = [&] { return Col<R>::name() + " of " + t + (conv.valid() ? " accepted" : " rejected"); };
        c.check(conv.valid() == want && (got != got) == want, "not-a-number", desc);
        c.feature("not-a-number restricted");
    };
    for (const str t : {"nan", "-nan", "NaN", "NAN", "nan(1)", "-NaN"}) {
        one(t, static_cast<ss::ir<double, 0, 10>*>(nullptr), false);
        one(t, static_cast<ss::ir<float, -10, 10>*>(nullptr), false);
        one(t, static_cast<ss::gt<double, 0>*>(nullptr), false);
        one(t, static_cast<ss::gte<float, 0>*>(nullptr), false);
        one(t, static_cast<ss::lt<double, 0>*>(nullptr), false);
        one(t, static_cast<ss::lte<float, 0>*>(nullptr), false);
        one(t, static_cast<ss::nx<double, 0, 1>*>(nullptr), false);
        one(t, static_cast<ss::ax<double, 0, 1>*>(nullptr), true);
    }
    c.nontrivial(1);
}
