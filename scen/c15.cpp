// C15: text, boolean and character conversions are exact.
#include "ref.hpp"
using namespace h;

static ss::converter<> shared;

template <typename F>
static void each_type(F&& f) {
    f(static_cast<std::string*>(nullptr));
    f(static_cast<std::string_view*>(nullptr));
    f(static_cast<bool*>(nullptr));
    f(static_cast<char*>(nullptr));
    f(static_cast<int8_t*>(nullptr));
    f(static_cast<uint8_t*>(nullptr));
    f(static_cast<ss::int8*>(nullptr));
    f(static_cast<ss::uint8*>(nullptr));
}

static void all_types(Ctx& c, const str& t, bool column) {
    each_type([&](auto* p) {
        using T = std::remove_pointer_t<decltype(p)>;
        check_extract<T>(c, t);
        if (column) check_convert<T>(c, t, shared);
    });
}

// every text of one or two bytes
SCENARIO(exhaustive_bytes, 10) {
    const unsigned a = static_cast<unsigned>(c.idx % 256);
    const str first(1, static_cast<char>(a));
    all_types(c, first, true);
    for (unsigned b = 0; b < 256; ++b) {
        all_types(c, first + static_cast<char>(b), b % 16 == a % 16);
    }
    c.feature("texts enumerated", 257);
    c.nontrivial(a);
}

// every change of one byte of the words, and every cut of them
SCENARIO(words, 10) {
    static const strs words{"true", "false", "1", "0"};
    const unsigned b = static_cast<unsigned>(c.idx % 256);
    for (auto& w : words) {
        for (size_t at = 0; at <= w.size(); ++at) {
            all_types(c, w.substr(0, at), true);
            all_types(c, w.substr(at), true);
            str t = w;
            t.insert(at, 1, static_cast<char>(b));
            all_types(c, t, true);
            all_types(c, w.substr(0, at) + static_cast<char>(b), true);
            if (at < w.size()) {
                t = w;
                t[at] = static_cast<char>(b);
                all_types(c, t, true);
                t = w;
                t.erase(at, 1);
                all_types(c, t, true);
            }
        }
    }
    c.feature("changed words");
    c.nontrivial(b);
}

SCENARIO(random_texts, 100) {
    str t = field_text(rng);
    if (rng.chance(1, 10)) {
        t = "";
        for (size_t n = rng.below(rng.chance(1, 10) ? 5000 : 300); n > 0; --n) {
            t += static_cast<char>(rng.below(256));
        }
    }
    all_types(c, t, true);
    c.nontrivial(hash_str(t));
}

// words followed or preceded by any number of characters
SCENARIO(long_texts, 20) {
    static const strs words{"true", "false", "1", "0", "a", "", "12", "-3"};
    const str t = stretched(rng, rng.pick(words));
    all_types(c, t, true);
    c.feature("long texts");
    c.nontrivial(hash_str(t));
}

SCENARIO(rows, 30) {
    strs v;
    for (size_t n = rng.range(1, 8); n > 0; --n) v.push_back(field_text(rng));
    each_type([&](auto* p) {
        using T = std::remove_pointer_t<decltype(p)>;
        if constexpr (!std::is_same_v<T, std::string_view>) {
            check_rows<T>(c, v);
        }
    });
    c.nontrivial(hash_str(show(v)));
}

// views of the parser keep their bytes until the next read
SCENARIO(views, 30) {
    std::vector<strs> rows;
    str data;
    for (size_t n = rng.range(1, 6); n > 0; --n) {
        strs v;
        for (int i = 0; i < 3; ++i) {
            str t;
            for (size_t k = rng.below(rng.chance(1, 6) ? 400 : 12); k > 0; --k) {
                t += static_cast<char>(rng.range(33, 255));
            }
            v.push_back(plain_text(t));
        }
        rows.push_back(v);
        data += v[0] + "," + v[1] + "," + v[2] + (rng.chance(1, 4) ? "\r\n" : "\n");
    }
    const bool file = rng.chance(1, 3);
    auto run = [&](auto& p) {
        for (auto& r : rows) {
            const auto [a, b, x] = p.template get_next<std::string_view, std::string_view, std::string_view>();
            // nothing is read by the queries
            static_cast<void>(p.eof());
            static_cast<void>(p.line());
            static_cast<void>(p.header());
            static_cast<void>(p.field_exists("x"));
            c.feature("views read");
            if (!c.check(a == r[0] && b == r[1] && x == r[2], "view-bytes", [&] {
                    return "views " + show(str{a}) + " " + show(str{b}) + " " + show(str{x}) +
                           " of row " + show(r) + ", data " + show(data);
                })) {
                return;
            }
        }
        c.check(p.eof(), "rows-left", [&] { return show(data); });
    };
    if (file) {
        File f{c, data};
        ss::parser<> p{f.path};
        run(p);
    } else {
        Heap b{data};
        ss::parser<> p{b.p, b.n};
        run(p);
    }
    c.nontrivial(hash_str(data));
}
