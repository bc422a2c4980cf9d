// C14: floating point values are correctly rounded or rejected.
#include "ref.hpp"
#include <clocale>
using namespace h;

static ss::converter<> shared;

template <typename F>
static void all_ways(Ctx& c, const str& t) {
    check_extract<F>(c, t);
    if (t.size() < 4000) check_convert<F>(c, t, shared);
    c.feature_if(t.size() >= 60 && t.size() <= 68, "lengths around 64");
    c.feature_if(t.size() > 68, "lengths above 68");
}

// a bit pattern with all exponents equally likely
template <typename F>
static F any_float(Rng& r) {
    using B = Bits<F>;
    for (;;) {
        typename B::U u = static_cast<typename B::U>(r.next());
        switch (r.below(6)) {
        case 0:
            // few bits
            u &= static_cast<typename B::U>(~0ull << r.range(B::man - 10, B::man));
            break;
        case 1:
            u |= ((static_cast<typename B::U>(1) << B::man) - 1);
            u -= static_cast<typename B::U>(r.below(3));
            break;
        case 2:
            // subnormal
            u &= ((static_cast<typename B::U>(1) << r.range(1, B::man + 1)) - 1);
            break;
        default:
            break;
        }
        const F x = B::from(u);
        if (std::isfinite(x)) {
            return x;
        }
    }
}

template <typename F>
static void round_trip(Ctx& c, F x, const char* format) {
    char b[64];
    std::snprintf(b, sizeof(b), format, static_cast<double>(x));
    const str t = b;
    F got{};
    Heap e{t};
    const bool ok = ss::extract(static_cast<const char*>(e.p),
                                static_cast<const char*>(e.p + e.n), got);
    c.check(ok && Bits<F>::of(got) == Bits<F>::of(x), "round-trip", [&] {
        return "printed " + t + ", read " + (ok ? Ref<F>::show_value(got) : "nothing");
    });
    c.feature("round trips");
}

SCENARIO(round_trips, 100) {
    const double x = any_float<double>(rng);
    round_trip<double>(c, x, "%.17g");
    round_trip<double>(c, x, "%.16e");
    round_trip<double>(c, x, "%.25e");
    const float y = any_float<float>(rng);
    round_trip<float>(c, y, "%.9g");
    round_trip<float>(c, y, "%.8e");
    round_trip<float>(c, y, "%.20e");
    c.nontrivial(Bits<double>::of(x));
}

static str pad(Rng& r, str t) {
    // to lengths around the sizes of internal buffers, without a change of value
    if (r.chance(1, 2)) return t;
    static const std::vector<size_t> sizes{60, 62, 63, 64, 65, 66, 80, 127, 128, 129, 255, 256, 800, 2000};
    const size_t want = r.pick(sizes);
    if (t.size() >= want) return t;
    const size_t e = t.find_first_of("eE");
    str m = t.substr(0, e), x = e == str::npos ? "" : t.substr(e);
    if (m.find('.') != str::npos && r.chance(1, 2)) {
        m += str(want - t.size(), '0');
    } else {
        const bool neg = m[0] == '-';
        m = (neg ? "-" : "") + str(want - t.size(), '0') + m.substr(neg);
    }
    return m + x;
}

// exact decimal expansions of the points half way between two numbers, and
// texts which differ from them in a far digit
template <typename F>
static str halfway(Rng& r) {
    using B = Bits<F>;
    const F x = std::fabs(any_float<F>(r));
    uint64_t f;
    long k;
    B::split(x, f, k);
    // (2f + 1) * 2^(k - 1)
    const long double m = std::ldexp(static_cast<long double>(2 * f + 1), static_cast<int>(k - 1));
    static char b[1600];
    const int prec = static_cast<int>(r.range(std::is_same_v<F, double> ? 770 : 120, 780));
    std::snprintf(b, sizeof(b), "%.*Le", prec, m);
    str t = b;
    const size_t e = t.find('e');
    str mant = t.substr(0, e), ex = t.substr(e);
    switch (r.below(4)) {
    case 0:
        break;
    case 1:
        mant += str(r.below(100), '0') + "1"; // just above
        break;
    case 2: {
        // just below: the last digit which is not zero, decreased
        const size_t at = mant.find_last_not_of("0.");
        if (at != str::npos) {
            --mant[at];
            for (size_t i = at + 1; i < mant.size(); ++i) {
                if (mant[i] != '.') mant[i] = '9';
            }
        }
        break;
    }
    default:
        // without the zeros at the end
        while (mant.back() == '0') mant.pop_back();
        if (mant.back() == '.') mant.pop_back();
    }
    return (r.chance(1, 3) ? "-" : "") + mant + ex;
}

SCENARIO(halfway_points, 20) {
    const str t = halfway<double>(rng), u = halfway<float>(rng);
    all_ways<double>(c, t);
    all_ways<float>(c, u);
    all_ways<float>(c, t);
    all_ways<double>(c, u);
    c.feature("points half way", 2);
    c.nontrivial(hash_str(t + u));
}

SCENARIO(random_texts, 100) {
    str t;
    switch (rng.below(4)) {
    case 0:
        t = pad(rng, decimal_text(rng));
        break;
    case 1: {
        char b[400];
        std::snprintf(b, sizeof(b), rng.chance(1, 2) ? "%.*g" : "%.*e",
                      static_cast<int>(rng.range(1, 60)), any_float<double>(rng));
        t = pad(rng, b);
        break;
    }
    case 2: {
        // plain notation, up to hundreds of digits
        static char b[2000];
        double x = any_float<double>(rng);
        if (std::fabs(x) > 1e60) x = std::fmod(x, 1e60);
        std::snprintf(b, sizeof(b), "%.*f", static_cast<int>(rng.below(200)), x);
        t = pad(rng, b);
        break;
    }
    default: {
        // integers with many digits, exponents which undo the digits
        const size_t n = rng.range(1, 70);
        for (size_t i = 0; i < n; ++i) t += static_cast<char>(rng.range('0', '9'));
        if (rng.chance(1, 2)) t += "e-" + std::to_string(rng.below(2 * n + 1));
        if (rng.chance(1, 3)) t = "-" + t;
        t = pad(rng, t);
    }
    }
    if (rng.chance(1, 6)) {
        static const std::vector<str> bits{"x", " ", "+", "-", ".", "e", "f", "\t", "1 ", "L", "\xff", "'", "_", "e5", "\r", "(", ")", "0x"};
        t.insert(rng.chance(1, 3) ? 0 : rng.chance(1, 2) ? t.size() : rng.below(t.size() + 1), rng.pick(bits));
    }
    all_ways<double>(c, t);
    all_ways<float>(c, t);
    c.nontrivial(hash_str(t));
    if (rng.chance(1, 800)) c.sample(show(t, 200));
}

// numbers of any length, with exponents which undo the length
SCENARIO(long_texts, 2) {
    str digits;
    for (size_t n = rng.range(1, 25); n > 0; --n) digits += static_cast<char>(rng.range(n == 1 ? '1' : '0', '9'));
    const size_t n = stretch(rng);
    const long e = static_cast<long>(rng.below(40)) - 20;
    str t;
    switch (rng.below(5)) {
    case 0: t = str(n, '0') + digits + "e" + std::to_string(e); break;
    case 1: t = "0." + str(n, '0') + digits + "e" + std::to_string(static_cast<long>(n) + e); break;
    case 2: t = digits + str(n, '0') + "e" + std::to_string(e - static_cast<long>(n)); break;
    case 3: t = digits + "." + str(n, '0') + "e" + std::to_string(e); break;
    default: t = digits + "." + str(n, '0') + digits + "e" + std::to_string(e); break;
    }
    if (rng.chance(1, 2)) t = "-" + t;
    if (rng.chance(1, 10)) t += rng.pick("xe.- ");
    check_extract<double>(c, t);
    check_extract<float>(c, t);
    check_convert<double>(c, t, shared);
    check_convert<float>(c, t, shared);
    c.feature("long texts");
    c.feature_if(t.size() > 4096, "texts of more than 4096 characters");
    c.nontrivial(hash_str(t));
}

SCENARIO(rows, 20) {
    strs v;
    for (size_t n = rng.range(1, 8); n > 0; --n) v.push_back(pad(rng, decimal_text(rng)));
    check_rows<double>(c, v);
    check_rows<float>(c, v);
    c.nontrivial(hash_str(show(v)));
}

// every short text over the characters which matter
SCENARIO(exhaustive_texts, 10) {
    static const str alpha = "-+.0159eE x";
    const size_t n = alpha.size();
    const size_t prefix = c.idx % (n * n * n);
    const str p{alpha[prefix % n], alpha[prefix / n % n], alpha[prefix / n / n]};
    strs all{"", p.substr(0, 1), p.substr(0, 2), p};
    for (char x : alpha) {
        all.push_back(p + x);
        for (char y : alpha) all.push_back(p + x + y);
    }
    for (auto& t : all) {
        check_extract<double>(c, t);
        check_extract<float>(c, t);
    }
    c.feature("texts enumerated", all.size());
    c.nontrivial(hash_str(p));
}
