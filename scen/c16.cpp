// C16: optional and variant conversions select the documented alternative.
#include "rows.hpp"
using namespace h;

using std::optional;
using std::string;
using std::variant;

static const strs ints{"0", "1", "-1", "7", "42", "2147483647", "2147483648", "-2147483648", "99999999999999999999", "-"};
static const strs nums{"1.5", "2", "-0.25", "1e3", ".5", "abc", "", "1.5x", "3.", "7"};
static const strs chars{"a", "1", "0", "-", "ab", "", "x", "9", "\xe4"};
static const strs bools{"true", "false", "0", "1", "2", "tru", "x", "", "12"};
static const strs bytes{"0", "255", "256", "-1", "127", "128", "-128", "-129", "7", "a"};

// variants of many alternatives
using many = variant<ss::int8, ss::uint8, short, unsigned short, int, unsigned, long, unsigned long, float, char, string>;
using others = variant<bool, char, ss::uint8, ss::int8, unsigned short, short, unsigned, int, long, double, optional<int>, string>;
static const strs sizes{"0", "-128", "-129", "127", "128", "255", "256", "-32768", "-32769", "32767", "65535", "65536", "2147483647",
                        "2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808",
                        "18446744073709551615", "18446744073709551616", "1.5", "x", "xy", "", "true"};

// single fields through every way of converting them
template <typename T>
static void one(Ctx& c, Rng& rng, const strs& hints) {
    static ss::converter<> shared;
    const str t = rng.chance(2, 3) ? rng.pick(hints) : field_text(rng);
    check_extract<T>(c, t);
    check_convert<T>(c, t, shared);
    c.nontrivial(hash_str(t, hash_str(Ref<T>::name())));
}

SCENARIO(fields, 100) {
    switch (rng.below(19)) {
    case 0: one<optional<int>>(c, rng, ints); break;
    case 1: one<optional<double>>(c, rng, nums); break;
    case 2: one<optional<string>>(c, rng, chars); break;
    case 3: one<optional<char>>(c, rng, chars); break;
    case 4: one<optional<bool>>(c, rng, bools); break;
    case 5: one<variant<int, double, string>>(c, rng, nums); break;
    case 6: one<variant<string, int>>(c, rng, ints); break;
    case 7: one<variant<int, string>>(c, rng, ints); break;
    case 8: one<variant<float, char>>(c, rng, nums); break;
    case 9: one<variant<bool, int, char>>(c, rng, bools); break;
    case 10: one<variant<char, int>>(c, rng, ints); break;
    case 11: one<optional<variant<int, char>>>(c, rng, chars); break;
    case 12: one<variant<short, int, long long, double>>(c, rng, ints); break;
    case 13: one<variant<ss::uint8, ss::int8, unsigned short>>(c, rng, bytes); break;
    case 14: one<variant<optional<int>, string>>(c, rng, ints); break;
    case 15: one<many>(c, rng, sizes); break;
    case 16: one<others>(c, rng, sizes); break;
    case 17: one<optional<variant<short, unsigned short, int, unsigned, long, unsigned long, double, ss::int8, char, bool>>>(c, rng, sizes); break;
    default: one<optional<ss::int8>>(c, rng, bytes); break;
    }
}

// several of them in rows, many rows on one parser and converter
SCENARIO(rows, 60) {
    switch (rng.below(12)) {
    case 0: any_rows<int, optional<int>, string>(c, rng, {ints, ints, chars}); break;
    case 1: any_rows<optional<int>>(c, rng, {ints}); break;
    case 2: any_rows<variant<int, double>, optional<double>>(c, rng, {nums, nums}); break;
    case 3: any_rows<optional<variant<int, char>>, variant<bool, int, char>, int>(c, rng, {chars, bools, ints}); break;
    case 4: any_rows<variant<int, char>>(c, rng, {chars}); break;
    case 5: any_rows<void, optional<char>, void, variant<ss::uint8, double>>(c, rng, {chars, chars, chars, bytes}); break;
    case 6: any_rows<variant<int, string>, variant<string, int>, variant<char, string>>(c, rng, {ints, ints, chars}); break;
    case 7: any_rows<optional<string>, optional<bool>, optional<unsigned>, int>(c, rng, {chars, bools, ints, ints}); break;
    case 8: any_rows<variant<short, long>, variant<float, string>>(c, rng, {ints, nums}); break;
    case 9: any_rows<many, int, others>(c, rng, {sizes, ints, sizes}); break;
    case 10: any_rows<variant<variant<ss::int8, short>, variant<unsigned short, int>, variant<unsigned, long>, variant<unsigned long, double>, variant<bool, char>>, optional<many>>(c, rng, {sizes, sizes}); break;
    default: any_rows<optional<optional<int>>, variant<variant<int, bool>, char>>(c, rng, {ints, bools}); break;
    }
}
