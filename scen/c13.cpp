// C13: integers convert exactly or fail.
#include "ref.hpp"
using namespace h;

template <typename F>
static void each_type(F&& f) {
    f(static_cast<short*>(nullptr));
    f(static_cast<unsigned short*>(nullptr));
    f(static_cast<int*>(nullptr));
    f(static_cast<unsigned*>(nullptr));
    f(static_cast<long*>(nullptr));
    f(static_cast<unsigned long*>(nullptr));
    f(static_cast<long long*>(nullptr));
    f(static_cast<unsigned long long*>(nullptr));
    f(static_cast<ss::int8*>(nullptr));
    f(static_cast<ss::uint8*>(nullptr));
}

static ss::converter<> shared;

SCENARIO(random_texts, 100) {
    const str t = int_text(rng);
    each_type([&](auto* p) {
        using T = std::remove_pointer_t<decltype(p)>;
        check_extract<T>(c, t);
        check_convert<T>(c, t, shared);
    });
    c.nontrivial(hash_str(t));
    if (rng.chance(1, 500)) c.sample(show(t));
}

// numbers and others of any length
SCENARIO(long_texts, 4) {
    const str base = rng.chance(1, 2) ? int_text(rng) : std::to_string(rng.below(200));
    const str t = stretched(rng, base);
    each_type([&](auto* p) {
        using T = std::remove_pointer_t<decltype(p)>;
        check_extract<T>(c, t);
        check_convert<T>(c, t, shared);
    });
    c.feature("long texts");
    c.feature_if(t.size() > 300, "texts of more than 300 characters");
    c.nontrivial(hash_str(t));
}

SCENARIO(rows, 30) {
    strs v;
    for (size_t n = rng.range(1, 8); n > 0; --n) v.push_back(int_text(rng));
    each_type([&](auto* p) {
        using T = std::remove_pointer_t<decltype(p)>;
        check_rows<T>(c, v);
    });
    c.nontrivial(hash_str(show(v)));
}

// every number around the bounds of the small types
SCENARIO(exhaustive_numbers, 20) {
    // 140000 numbers, in blocks
    const long block = 28;
    const long first = -70000 + static_cast<long>(c.idx % 5000) * block;
    for (long v = first; v < first + block; ++v) {
        const str t = std::to_string(v);
        each_type([&](auto* p) {
            using T = std::remove_pointer_t<decltype(p)>;
            check_extract<T>(c, t);
        });
    }
    c.feature("numbers enumerated", static_cast<uint64_t>(block));
    c.nontrivial(hash_str(std::to_string(first)));
}

// every short text over the characters which matter
SCENARIO(exhaustive_texts, 20) {
    static const str alpha = "-+01289 .a\xff";
    const size_t n = alpha.size(); // 11^3 prefixes + up to 2 more characters
    const size_t prefix = c.idx % (n * n * n);
    const str p{alpha[prefix % n], alpha[prefix / n % n], alpha[prefix / n / n]};
    strs all{"", p.substr(0, 1), p.substr(0, 2), p};
    for (char x : alpha) {
        all.push_back(p + x);
        for (char y : alpha) all.push_back(p + x + y);
    }
    for (auto& t : all) {
        each_type([&](auto* q) {
            using T = std::remove_pointer_t<decltype(q)>;
            check_extract<T>(c, t);
        });
    }
    c.feature("texts enumerated", all.size());
    c.nontrivial(hash_str(p));
}
