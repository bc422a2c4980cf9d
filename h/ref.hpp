// Reference for the conversion of one field: which texts a type accepts and
// what the value is. Written from the documentation; nothing in here calls the
// library or uses the functions the library converts with.
#pragma once
#include <charconv>
#include "core.hpp"
#include <cmath>
#include <limits>
#include <optional>
#include <string_view>
#include <tuple>
#include <variant>

#ifdef USE_SINGLE_HEADER
#include "ssp.hpp"
#else
#include <ss/parser.hpp>
#endif

namespace h {

using i128 = __int128;

// optional sign and digits; the magnitude saturates far above any type
inline bool ref_int_text(const str& t, bool& neg, i128& mag) {
    size_t i = 0;
    neg = false;
    if (i < t.size() && t[i] == '-') {
        neg = true;
        ++i;
    }
    if (i == t.size()) {
        return false;
    }
    const i128 cap = static_cast<i128>(1) << 100;
    mag = 0;
    for (; i < t.size(); ++i) {
        if (t[i] < '0' || t[i] > '9') {
            return false;
        }
        if (mag < cap) {
            mag = mag * 10 + (t[i] - '0');
        }
    }
    return true;
}

inline bool ref_int(const str& t, bool is_signed, i128 min, i128 max, i128& v) {
    bool neg = false;
    i128 mag = 0;
    if (!ref_int_text(t, neg, mag) || (neg && !is_signed)) {
        return false;
    }
    v = neg ? -mag : mag;
    return v >= min && v <= max;
}

// arbitrary precision, just enough for comparing decimals with binary numbers
struct Big {
    std::vector<uint32_t> w; // little endian
    explicit Big(uint64_t v = 0) {
        while (v) {
            w.push_back(static_cast<uint32_t>(v));
            v >>= 32;
        }
    }
    void mul_add(uint32_t m, uint32_t a) {
        uint64_t carry = a;
        for (auto& x : w) {
            carry += static_cast<uint64_t>(x) * m;
            x = static_cast<uint32_t>(carry);
            carry >>= 32;
        }
        if (carry) {
            w.push_back(static_cast<uint32_t>(carry));
        }
    }
    void pow10(size_t n) {
        for (; n >= 9; n -= 9) {
            mul_add(1000000000u, 0);
        }
        for (; n > 0; --n) {
            mul_add(10, 0);
        }
    }
    void shl(size_t n) {
        if (w.empty()) {
            return;
        }
        const size_t words = n / 32, bits = n % 32;
        if (bits) {
            uint32_t carry = 0;
            for (auto& x : w) {
                const uint32_t c = x >> (32 - bits);
                x = (x << bits) | carry;
                carry = c;
            }
            if (carry) {
                w.push_back(carry);
            }
        }
        w.insert(w.begin(), words, 0);
    }
    int cmp(const Big& o) const {
        if (w.size() != o.w.size()) {
            return w.size() < o.w.size() ? -1 : 1;
        }
        for (size_t i = w.size(); i-- > 0;) {
            if (w[i] != o.w[i]) {
                return w[i] < o.w[i] ? -1 : 1;
            }
        }
        return 0;
    }
};

// a decimal number as written: digits * 10^exp
struct Decimal {
    bool neg = false;
    str digits; // without leading and trailing zeros
    long exp = 0;
};

enum Tri { NO = 0, YES = 1, OPEN = 2 };

// -?(d+(.d*)?|.d+)([eE][+-]?d+)?
// OPEN: words (inf, nan) which no property talks about
inline Tri ref_decimal(const str& t, Decimal& d) {
    size_t i = 0;
    const size_t n = t.size();
    auto digit = [&](size_t k) { return k < n && t[k] >= '0' && t[k] <= '9'; };
    d = Decimal{};
    if (i < n && t[i] == '-') {
        d.neg = true;
        ++i;
    }
    str ds;
    long point = 0;
    bool any = false;
    const size_t start = i;
    while (digit(i)) {
        ds += t[i++];
        any = true;
    }
    if (i < n && t[i] == '.') {
        ++i;
        while (digit(i)) {
            ds += t[i++];
            --point;
            any = true;
        }
    }
    if (!any) {
        // words
        str low;
        for (size_t k = start; k < n; ++k) {
            low += static_cast<char>(std::tolower(static_cast<unsigned char>(t[k])));
        }
        return low.compare(0, 3, "inf") == 0 || low.compare(0, 3, "nan") == 0
                   ? OPEN
                   : NO;
    }
    long e = 0;
    if (i < n && (t[i] == 'e' || t[i] == 'E')) {
        ++i;
        bool en = false;
        if (i < n && (t[i] == '-' || t[i] == '+')) {
            en = t[i] == '-';
            ++i;
        }
        if (!digit(i)) {
            return NO;
        }
        while (digit(i)) {
            if (e < 100000000) {
                e = e * 10 + (t[i] - '0');
            }
            ++i;
        }
        if (en) {
            e = -e;
        }
    }
    if (i != n) {
        return NO;
    }
    size_t b = 0;
    while (b < ds.size() && ds[b] == '0') ++b;
    ds = ds.substr(b);
    while (!ds.empty() && ds.back() == '0') {
        ds.pop_back();
        ++point;
    }
    d.digits = ds;
    d.exp = point + e;
    return YES;
}

// compares d with f * 2^k
inline int compare(const Decimal& d, uint64_t f, long k) {
    if (d.digits.empty() || f == 0) {
        return d.digits.empty() ? (f == 0 ? 0 : -1) : 1;
    }
    // far away: decided by the magnitude
    const double lg = (static_cast<double>(d.digits.size()) +
                       static_cast<double>(d.exp)) *
                      3.3219280948873623;
    const double lf = std::log2(static_cast<double>(f)) + static_cast<double>(k);
    if (lg > lf + 8) return 1;
    if (lg < lf - 8) return -1;
    Big a;
    for (size_t i = 0; i < d.digits.size();) {
        uint32_t m = 1, v = 0;
        for (int j = 0; j < 9 && i < d.digits.size(); ++j, ++i) {
            v = v * 10 + static_cast<uint32_t>(d.digits[i] - '0');
            m *= 10;
        }
        if (a.w.empty()) {
            a = Big{v};
        } else {
            a.mul_add(m, v);
        }
    }
    Big b{f};
    if (d.exp >= 0) {
        a.pow10(static_cast<size_t>(d.exp));
    } else {
        b.pow10(static_cast<size_t>(-d.exp));
    }
    if (k >= 0) {
        b.shl(static_cast<size_t>(k));
    } else {
        a.shl(static_cast<size_t>(-k));
    }
    return a.cmp(b);
}

template <typename F>
struct Bits {
    static constexpr int man = std::is_same_v<F, double> ? 52 : 23;
    static constexpr long min_exp = std::is_same_v<F, double> ? -1074 : -149;
    static constexpr long max_exp = std::is_same_v<F, double> ? 971 : 104;
    using U = std::conditional_t<std::is_same_v<F, double>, uint64_t, uint32_t>;
    static U of(F x) {
        U u;
        std::memcpy(&u, &x, sizeof(u));
        return u;
    }
    static F from(U u) {
        F x;
        std::memcpy(&x, &u, sizeof(x));
        return x;
    }
    // |x| == f * 2^k
    static void split(F x, uint64_t& f, long& k) {
        const U u = of(x);
        const uint64_t m = u & ((static_cast<U>(1) << man) - 1);
        const long e = static_cast<long>((u >> man) & ((1u << (std::is_same_v<F, double> ? 11 : 8)) - 1));
        if (e == 0) {
            f = m;
            k = min_exp;
        } else {
            f = m | (static_cast<uint64_t>(1) << man);
            k = min_exp + e - 1;
        }
    }
};

// r is d rounded to the nearest, half to even
template <typename F>
bool rounded(const Decimal& d, F r) {
    using B = Bits<F>;
    if (std::isnan(r) || std::signbit(r) != d.neg) {
        return false;
    }
    if (std::isinf(r)) {
        // half way between the largest number and the one which would follow
        return compare(d, (static_cast<uint64_t>(1) << (B::man + 2)) - 1,
                       B::max_exp - 1) >= 0;
    }
    uint64_t f = 0;
    long k = 0;
    B::split(r, f, k);
    const bool even = f % 2 == 0;
    const int up = compare(d, 2 * f + 1, k - 1);
    if (up > 0 || (up == 0 && !even)) {
        return false;
    }
    if (f == 0) {
        return true;
    }
    const bool edge = f == (static_cast<uint64_t>(1) << B::man) && k > B::min_exp;
    const int down = edge ? compare(d, 4 * f - 1, k - 2)
                          : compare(d, 2 * f - 1, k - 1);
    return down > 0 || (down == 0 && even);
}

// what happens to be open: overflows and underflows may be rejected
template <typename F>
bool may_be_rejected(const Decimal& d) {
    using B = Bits<F>;
    if (d.digits.empty()) {
        return false;
    }
    return compare(d, (static_cast<uint64_t>(1) << (B::man + 2)) - 1,
                   B::max_exp - 1) >= 0 ||
           compare(d, 1, B::min_exp - 1) <= 0;
}

////////////////////////////////////////////////////////////////
// Ref<T>: accepts(text) and same(value, text) for accepted texts
////////////////////////////////////////////////////////////////

template <typename T, typename = void>
struct Ref;

template <typename T>
struct Ref<T, std::enable_if_t<std::is_integral_v<T> && (sizeof(T) > 1)>> {
    using type = T;
    static bool get(const str& t, i128& v) {
        return ref_int(t, std::is_signed_v<T>, std::numeric_limits<T>::min(),
                       std::numeric_limits<T>::max(), v);
    }
    static Tri accepts(const str& t) {
        i128 v;
        return get(t, v) ? YES : NO;
    }
    static bool same(const T& x, const str& t) {
        i128 v = 0;
        return get(t, v) && static_cast<i128>(x) == v;
    }
    static str name() {
        return str{std::is_signed_v<T> ? "int" : "uint"} +
               std::to_string(sizeof(T) * 8);
    }
    static str show_value(const T& x) {
        return std::to_string(x);
    }
};

template <typename T>
struct Ref<ss::numeric_wrapper<T>> {
    using type = ss::numeric_wrapper<T>;
    static bool get(const str& t, i128& v) {
        return ref_int(t, std::is_signed_v<T>, std::numeric_limits<T>::min(),
                       std::numeric_limits<T>::max(), v);
    }
    static Tri accepts(const str& t) {
        i128 v;
        return get(t, v) ? YES : NO;
    }
    static bool same(const type& x, const str& t) {
        i128 v = 0;
        return get(t, v) && static_cast<i128>(static_cast<T>(x)) == v;
    }
    static str name() {
        return std::is_signed_v<T> ? "ss::int8" : "ss::uint8";
    }
    static str show_value(const type& x) {
        return std::to_string(static_cast<int>(static_cast<T>(x)));
    }
};

template <typename T>
struct Ref<T, std::enable_if_t<std::is_integral_v<T> && sizeof(T) == 1 &&
                               !std::is_same_v<T, bool>>> {
    using type = T;
    static Tri accepts(const str& t) {
        return t.size() == 1 ? YES : NO;
    }
    static bool same(const T& x, const str& t) {
        return t.size() == 1 && x == static_cast<T>(t[0]);
    }
    static str name() {
        return std::is_same_v<T, char>          ? "char"
               : std::is_same_v<T, signed char> ? "int8_t"
                                                : "uint8_t";
    }
    static str show_value(const T& x) {
        return std::to_string(static_cast<int>(x));
    }
};

template <>
struct Ref<bool> {
    using type = bool;
    static Tri accepts(const str& t) {
        return t == "0" || t == "1" || t == "true" || t == "false" ? YES : NO;
    }
    static bool same(const bool& x, const str& t) {
        return x == (t == "1" || t == "true");
    }
    static str name() {
        return "bool";
    }
    static str show_value(const bool& x) {
        return x ? "true" : "false";
    }
};

template <typename T>
struct Ref<T, std::enable_if_t<std::is_floating_point_v<T>>> {
    using type = T;
    static Tri accepts(const str& t) {
        Decimal d;
        const Tri x = ref_decimal(t, d);
        return x == YES && may_be_rejected<T>(d) ? OPEN : x;
    }
    static bool same(const T& x, const str& t) {
        Decimal d;
        return ref_decimal(t, d) != YES || rounded<T>(d, x);
    }
    static str name() {
        return sizeof(T) == 8 ? "double" : "float";
    }
    static str show_value(const T& x) {
        // whatever the locale
        char b[64];
        return {b, std::to_chars(b, b + sizeof(b), static_cast<double>(x), std::chars_format::general, 20).ptr};
    }
};

template <typename T>
struct Ref<T, std::enable_if_t<std::is_same_v<T, std::string> ||
                               std::is_same_v<T, std::string_view>>> {
    using type = T;
    static Tri accepts(const str&) {
        return YES;
    }
    static bool same(const T& x, const str& t) {
        return x == t;
    }
    static str name() {
        return std::is_same_v<T, std::string> ? "string" : "string_view";
    }
    static str show_value(const T& x) {
        return show(str{x});
    }
};

template <typename T>
struct Ref<std::optional<T>> {
    using type = std::optional<T>;
    static Tri accepts(const str&) {
        return YES;
    }
    static bool same(const type& x, const str& t) {
        const Tri a = Ref<T>::accepts(t);
        if (a == OPEN) {
            return !x || Ref<T>::same(*x, t);
        }
        if (a == NO) {
            return !x;
        }
        return x && Ref<T>::same(*x, t);
    }
    static str name() {
        return "optional<" + Ref<T>::name() + ">";
    }
    static str show_value(const type& x) {
        return x ? Ref<T>::show_value(*x) : str{"nullopt"};
    }
};

template <typename... Ts>
struct Ref<std::variant<Ts...>> {
    using type = std::variant<Ts...>;
    static Tri accepts(const str& t) {
        Tri r = NO;
        ((r = r == NO ? Ref<Ts>::accepts(t) : r), ...);
        return r;
    }
    template <size_t I>
    static bool alt(const type& x, const str& t) {
        using A = std::variant_alternative_t<I, type>;
        const Tri a = Ref<A>::accepts(t);
        if (a == YES || (a == OPEN && x.index() == I)) {
            return x.index() == I && Ref<A>::same(std::get<I>(x), t);
        }
        if constexpr (I + 1 < sizeof...(Ts)) {
            return alt<I + 1>(x, t);
        } else {
            return false;
        }
    }
    static bool same(const type& x, const str& t) {
        return alt<0>(x, t);
    }
    static str name() {
        str s = "variant<";
        ((s += Ref<Ts>::name() + ","), ...);
        s.back() = '>';
        return s;
    }
    template <size_t... Is>
    static str sv(const type& x, std::index_sequence<Is...>) {
        str s;
        ((x.index() == Is
              ? (void)(s = std::to_string(Is) + ":" +
                           Ref<std::variant_alternative_t<Is, type>>::show_value(
                               std::get<Is>(x)))
              : (void)0),
         ...);
        return s;
    }
    static str show_value(const type& x) {
        return sv(x, std::index_sequence_for<Ts...>{});
    }
};

////////////////////////////////////////////////////////////////
// texts which are interesting for the conversions
////////////////////////////////////////////////////////////////

inline str digits_of(i128 v) {
    if (v == 0) return "0";
    const bool neg = v < 0;
    if (neg) v = -v;
    str s;
    while (v > 0) {
        s += static_cast<char>('0' + static_cast<int>(v % 10));
        v /= 10;
    }
    if (neg) s += '-';
    return {s.rbegin(), s.rend()};
}

inline str int_text(Rng& r) {
    static const int widths[] = {7, 8, 15, 16, 31, 32, 63, 64};
    str t;
    switch (r.below(8)) {
    case 0:
    case 1:
    case 2: {
        // around the bounds of the types
        const int w = widths[r.below(8)];
        i128 v = static_cast<i128>(1) << w;
        if (r.chance(1, 2)) v = -v;
        v += static_cast<i128>(r.range(0, 6)) - 3;
        t = digits_of(v);
        break;
    }
    case 3:
    case 4: {
        // any number of digits
        for (size_t n = r.range(1, r.chance(1, 6) ? 60 : 21); n > 0; --n) {
            t += static_cast<char>(r.range('0', '9'));
        }
        if (r.chance(1, 3)) t = "-" + t;
        break;
    }
    case 5:
        t = digits_of(static_cast<i128>(r.range(0, 600)) - 300);
        break;
    case 6: {
        // powers of ten around the bounds
        i128 v = 1;
        for (size_t n = r.below(24); n > 0; --n) v *= 10;
        if (r.chance(1, 2)) --v;
        t = digits_of(r.chance(1, 3) ? -v : v);
        break;
    }
    default:
        for (size_t n = r.below(5); n > 0; --n) t += r.pick("-+0129 a.");
    }
    if (r.chance(1, 6)) {
        const bool neg = !t.empty() && t[0] == '-';
        t = (neg ? "-" : "") + str(r.range(1, 30), '0') + t.substr(neg);
    }
    if (r.chance(1, 5)) {
        // damage
        static const std::vector<str> bits{"+", "-", " ", "x", ".", "e", "_", "'", "\t",
                                           "0x", "\xb2", "u", "L", "e1", ".0", "\r"};
        const str& b = r.pick(bits);
        const size_t at = r.chance(1, 3) ? 0 : r.chance(1, 2) ? t.size() : r.below(t.size() + 1);
        t.insert(at, b);
    }
    return t;
}

inline str decimal_text(Rng& r) {
    str t;
    if (r.chance(1, 3)) t += '-';
    const size_t a = r.below(r.chance(1, 8) ? 40 : 8), b = r.below(r.chance(1, 8) ? 40 : 8);
    for (size_t i = 0; i < a; ++i) t += static_cast<char>(r.range('0', '9'));
    if (b > 0 || a == 0 || r.chance(1, 3)) {
        t += '.';
        for (size_t i = 0; i < b; ++i) t += static_cast<char>(r.range('0', '9'));
        if (a == 0 && b == 0) t += '5';
    }
    if (r.chance(1, 3)) {
        t += r.chance(1, 2) ? 'e' : 'E';
        if (r.chance(1, 2)) t += r.chance(1, 2) ? '-' : '+';
        t += std::to_string(r.below(r.chance(1, 4) ? 340 : 20));
    }
    if (r.chance(1, 10)) {
        static const std::vector<str> bits{"+", "-", " ", "x", ".", "e", "_", "f", "\t",
                                           "0x", "1", "E1", "p1", "d1", "\r"};
        t.insert(r.below(t.size() + 1), r.pick(bits));
    }
    return t;
}

// a text for any of the types
inline str stretched(Rng& r, const str& t);
inline str field_text(Rng& r) {
    if (r.chance(1, 60)) return stretched(r, field_text(r));
    switch (r.below(8)) {
    case 0:
    case 1:
        return int_text(r);
    case 2:
        return decimal_text(r);
    case 3: {
        static const std::vector<str> words{"true", "false", "1", "0", "", "TRUE", "True", "tru",
                                            "truee", "fals", "falsee", "01", "00", "10", "2",
                                            "t", "f", "yes", " 1", "1 ", "true ", "false\r"};
        return r.pick(words);
    }
    case 4:
        return str(1, static_cast<char>(r.range(33, 126)));
    case 5:
        return digits_of(static_cast<i128>(r.range(0, 40)) - 10);
    case 6: {
        str t;
        for (size_t n = r.below(8); n > 0; --n) t += static_cast<char>(r.range(33, 255));
        return t;
    }
    default: {
        str t;
        for (size_t n = r.below(20); n > 0; --n) t += static_cast<char>(r.range('a', 'z'));
        return t;
    }
    }
}

// a text which is longer by a number of characters that is lost where sizes are
// kept in few bits or text is copied to buffers of some size
inline size_t stretch(Rng& r) {
    static const std::vector<size_t> sizes{16, 31, 32, 63, 64, 100, 127, 128, 192, 255, 256, 256, 256, 512, 768, 1000, 1024, 2048, 4095, 4096};
    if (r.chance(1, 12)) return r.chance(1, 2) ? 65536 : 32768;
    return r.pick(sizes);
}
inline str stretched(Rng& r, const str& t) {
    const size_t n = stretch(r);
    switch (r.below(6)) {
    case 0:
    case 1:
    case 2: {
        // leading zeros do not matter to numbers
        const bool neg = !t.empty() && t[0] == '-';
        return (neg ? "-" : "") + str(n, '0') + t.substr(neg);
    }
    case 3: return t + str(n, static_cast<char>(r.range(33, 126)));
    case 4: return str(n, static_cast<char>(r.range(33, 126))) + t;
    default: {
        str f;
        for (size_t i = 0; i < n; ++i) f += static_cast<char>(r.range('a', 'z'));
        return r.chance(1, 2) ? t + f : f + t;
    }
    }
}

// without the bytes which would end the field or the line
inline str plain_text(str t, char delim = ',') {
    str out;
    for (char x : t) {
        if (x != '\0' && x != '\n' && x != delim) out += x;
    }
    while (!out.empty() && out.back() == '\r') out.pop_back();
    return out;
}

////////////////////////////////////////////////////////////////
// one field, through every way of converting it
////////////////////////////////////////////////////////////////

struct Heap {
    char* p;
    size_t n;
    explicit Heap(const str& s, bool terminated = false)
        : n{s.size() + (terminated ? 1 : 0)} {
        p = static_cast<char*>(std::malloc(n ? n : 1));
        std::memcpy(p, s.data(), s.size());
        if (terminated) p[s.size()] = '\0';
    }
    ~Heap() {
        std::free(p);
    }
    Heap(const Heap&) = delete;
};

template <typename T>
str verdict(bool ok, const T& v, const str& t) {
    const Tri want = Ref<T>::accepts(t);
    if (want == OPEN) {
        return ok && !Ref<T>::same(v, t) ? "wrong-value" : "";
    }
    if (ok != (want == YES)) {
        return ok ? "accepted-invalid" : "rejected-valid";
    }
    return ok && !Ref<T>::same(v, t) ? "wrong-value" : "";
}

template <typename T>
bool is_default(const T& v) {
    return v == T{};
}
template <typename T>
bool is_default(const ss::numeric_wrapper<T>& v) {
    return static_cast<T>(v) == 0;
}

// the text alone, ending exactly at the end of an allocation
template <typename T>
bool check_extract(Ctx& c, const str& t) {
    Heap b{t};
    T v{};
    // what an object holds does not matter
    static const char held[] = "7";
    if (hash_str(t) & 1) (void)ss::extract(static_cast<const char*>(held), static_cast<const char*>(held + 1), v);
    const bool ok = ss::extract(static_cast<const char*>(b.p), static_cast<const char*>(b.p + b.n), v);
    const str bad = verdict<T>(ok, v, t);
    c.features[str{ok ? "accepted " : "rejected "} + Ref<T>::name()]++;
    return c.check(bad.empty(), (Ref<T>::name() + ":" + bad).c_str(), [&] {
        return "extract of " + show(t) + " to " + Ref<T>::name() +
               (ok ? " gives " + Ref<T>::show_value(v) : str{" fails"});
    });
}

// as a column of a line, with digits behind the delimiters
template <typename T>
bool check_convert(Ctx& c, const str& text, ss::converter<>& conv) {
    const str t = plain_text(text);
    Heap line{"7," + t + ",9", true};
    const auto got = conv.convert<std::string_view, T, int>(line.p);
    const bool ok = conv.valid();
    const T& v = std::get<1>(got);
    const str bad = verdict<T>(ok, v, t);
    if (!c.check(bad.empty(), (Ref<T>::name() + ":column:" + bad).c_str(), [&] {
            return "column " + show(t) + " to " + Ref<T>::name() +
                   (ok ? " gives " + Ref<T>::show_value(v) : str{" fails"});
        })) {
        return false;
    }
    const bool rest = ok ? std::get<0>(got) == "7" && std::get<2>(got) == 9
                         : std::get<0>(got).empty() && std::get<2>(got) == 0 &&
                               is_default(v);
    return c.check(rest, (Ref<T>::name() + ":other-columns").c_str(), [&] {
        return "row " + show(str{line.p}) + (ok ? " converted" : " failed") +
               " but the columns are " + show(str{std::get<0>(got)}) + ", " +
               Ref<T>::show_value(v) + ", " + std::to_string(std::get<2>(got));
    });
}

// as rows of a single column
template <typename T>
bool check_rows(Ctx& c, const strs& texts) {
    str data;
    strs rows;
    for (auto& x : texts) {
        str t = plain_text(x);
        if (t.empty()) continue;
        rows.push_back(t);
        data += t + (rows.size() % 3 ? "\n" : "\r\n");
    }
    if (rows.size() % 2 && !data.empty()) {
        data.pop_back();
        if (!data.empty() && data.back() == '\r') data.pop_back();
    }
    Heap b{data};
    ss::parser<> p{b.p, b.n};
    for (auto& t : rows) {
        const T v = p.get_next<T>();
        const bool ok = p.valid();
        const str bad = verdict<T>(ok, v, t);
        if (!c.check(bad.empty() && (ok || is_default(v)),
                     (Ref<T>::name() + ":row:" + bad).c_str(), [&] {
                         return "row " + show(t) + " to " + Ref<T>::name() +
                                (ok ? " gives " : " fails and gives ") +
                                Ref<T>::show_value(v) + ", data " + show(data);
                     })) {
            return false;
        }
    }
    return c.check(p.eof(), "rows-left", [&] { return "data " + show(data); });
}

} /* namespace h */
