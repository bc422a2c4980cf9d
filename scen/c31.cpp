// C31: error messages identify the failing place.
#include "grown.hpp"
#include "twin.hpp"
using namespace h;

SCENARIO(places, 100) {
    const Setup& s = any_setup(rng);
    const str d = pick_delim(rng, s.cfg);
    const str data = any_data(rng, s.cfg, d);
    Ops ops;
    ops.header = 2;
    ops.use = 2;
    ops.exists = 2;
    ops.wrong_arity_in = 3;
    Lockstep l{c, rng, s, rng.chance(1, 2) ? STRING : THROW, rng.chance(1, 3),
               data, d, MESSAGES, ops, {}};
    if (l.run()) {
        c.nontrivial(hash_str(data, hash_str(s.name + d)));
        if (rng.chance(1, 60)) c.sample(l.desc());
    }
}

// failed conversions and restrictions name the column and the decoded text
struct Named {
    int v;
};

template <typename P>
static bool read4(P& p, int which, str& msg) {
    try {
        switch (which) {
        case 0:
            static_cast<void>(p.template get_next<int, std::string, double, bool>());
            break;
        case 1:
            static_cast<void>(p.template get_next<std::string, ss::ir<int, 0, 99>, char, ss::ne<std::string>>());
            break;
        case 2:
            static_cast<void>(p.template get_next<void, ss::gte<int, 10>, void, unsigned char>());
            break;
        default:
            static_cast<void>(p.template get_next<std::variant<int, double>, ss::nx<char, 'a', 'b'>, std::optional<int>, ss::ax<int, 1, 2>>());
        }
        if constexpr (!std::is_same_v<typename P::throwing, std::true_type>) {
            msg = p.error_msg();
            return p.valid();
        } else {
            return true;
        }
    } catch (const ss::exception& e) {
        msg = e.what();
        return false;
    }
}

template <bool Throw, typename... O>
struct Par : ss::parser<O...> {
    using throwing = std::integral_constant<bool, Throw>;
    using ss::parser<O...>::parser;
};

static bool is_int(const str& t) {
    size_t i = t.size() > 0 && t[0] == '-' ? 1 : 0;
    if (i == t.size() || t.size() > 9) return false;
    for (; i < t.size(); ++i) {
        if (t[i] < '0' || t[i] > '9') return false;
    }
    return true;
}
// simple forms; nothing else which could be taken as a number is generated
static bool is_dbl(const str& t) {
    const size_t p = t.find('.');
    if (p == str::npos) return is_int(t);
    return is_int(t.substr(0, p)) && p + 1 < t.size() &&
           is_int(t.substr(p + 1)) && t[p + 1] != '-';
}

// column which fails first, or -1
static int failing(int which, const strs& f, str& restriction) {
    restriction.clear();
    auto num = [](const str& t) { return std::atoi(t.c_str()); };
    switch (which) {
    case 0:
        if (!is_int(f[0])) return 0;
        if (!is_dbl(f[2])) return 2;
        if (f[3] != "0" && f[3] != "1" && f[3] != "true" && f[3] != "false") return 3;
        return -1;
    case 1:
        if (!is_int(f[1])) return 1;
        if (num(f[1]) < 0 || num(f[1]) > 99) {
            restriction = "validation error";
            return 1;
        }
        if (f[2].size() != 1) return 2;
        if (f[3].empty()) {
            restriction = "empty field";
            return 3;
        }
        return -1;
    case 2:
        if (!is_int(f[1])) return 1;
        if (num(f[1]) < 10) {
            restriction = "validation error";
            return 1;
        }
        return -2; // the last column is not decided here
    default:
        if (!is_int(f[0]) && !is_dbl(f[0])) return 0;
        if (f[1].size() != 1) return 1;
        if (f[1] != "a" && f[1] != "b") {
            restriction = "value excluded";
            return 1;
        }
        if (!is_int(f[3])) return 3;
        if (num(f[3]) == 1 || num(f[3]) == 2) {
            restriction = "value excluded";
            return 3;
        }
        return -1;
    }
}

template <typename P>
static void columns_case(Ctx& c, Rng& rng, const char* setup, const Cfg& cfg) {
    Gen g{rng, cfg, ","};
    auto cell = [&]() -> str {
        switch (rng.below(8)) {
        case 0:
            return std::to_string(static_cast<int>(rng.below(250)) - 100);
        case 1:
        case 2:
            return std::to_string(rng.below(120));
        case 3:
            return std::to_string(rng.below(99)) + "." + std::to_string(rng.below(99));
        case 4:
            return rng.chance(1, 2) ? "true" : "false";
        case 5:
            return str(1, static_cast<char>(rng.range('a', 'c')));
        case 6:
            return rng.chance(1, 3) ? "" : str(1, rng.chance(1, 2) ? '1' : '0');
        default:
            for (;;) {
                // not a number in any notation, or one of the simple forms
                str v = g.value(rng.chance(1, 20) ? rng.range(100, 3000) : rng.range(1, 6), true);
                const bool digit =
                    v.find_first_of("0123456789") != str::npos;
                const bool other = v.find_first_not_of(
                                       "0123456789.+-eExXpPaAbBcCdDfFnNiItTyY"
                                       "()_") != str::npos;
                if (v.empty() || is_dbl(v) || (other && v[0] != '.') ||
                    (!digit && v.size() < 3)) {
                    return v;
                }
            }
        }
    };
    std::vector<strs> rows;
    str data;
    std::vector<size_t> last_line;
    for (size_t i = rng.range(1, 4); i > 0; --i) {
        strs v;
        for (int k = 0; k < 4; ++k) v.push_back(cell());
        rows.push_back(v);
        data += g.row(v) + "\n";
        last_line.push_back(
            static_cast<size_t>(std::count(data.begin(), data.end(), '\n')));
        if (cfg.IE && rng.chance(1, 3)) data += "\n";
    }
    const bool file = rng.chance(1, 3);
    auto desc = [&] { return str{setup} + ", data " + show(data); };
    std::unique_ptr<File> fl;
    std::unique_ptr<P> p;
    str source = "CSV data buffer";
    if (file) {
        fl = std::make_unique<File>(c, data);
        source = fl->path;
        p = std::make_unique<P>(fl->path, ",");
    } else {
        p = std::make_unique<P>(data.data(), data.size());
    }
    for (size_t i = 0; i < rows.size(); ++i) {
        const int which = static_cast<int>(rng.below(4));
        str msg, restriction;
        const bool ok = read4(*p, which, msg);
        const int col = failing(which, rows[i], restriction);
        if (col == -2) {
            continue;
        }
        auto dd = [&] {
            return "row " + show(rows[i]) + " types " + std::to_string(which) +
                   " message " + show(msg) + "; " + desc();
        };
        if (!c.expect(ok, col < 0, "conversion-outcome", dd) || col < 0) {
            continue;
        }
        c.feature(restriction.empty() ? "failed conversions"
                                      : "failed restrictions");
        const str& text = rows[i][static_cast<size_t>(col)];
        const str prefix = source + " " + std::to_string(last_line[i]) + ":";
        c.check(msg.compare(0, prefix.size(), prefix) == 0, "message-line", dd);
        const str quoted = "'" + text + "'";
        const size_t at = msg.rfind(quoted);
        if (!c.check(at != str::npos && at + quoted.size() == msg.size(),
                     "message-text", dd)) {
            continue;
        }
        const auto n = numbers(msg.substr(prefix.size(), at - prefix.size()));
        c.check(n == std::vector<size_t>{static_cast<size_t>(col) + 1},
                "message-column", dd);
        if (!restriction.empty()) {
            c.check(msg.find(restriction) != str::npos, "message-restriction",
                    dd);
        }
    }
    c.nontrivial(hash_str(data));
}

SCENARIO(columns, 60) {
    Cfg q;
    q.Q = true;
    q.esc = "\\";
    q.ML = true;
    Cfg t;
    t.tl = t.tr = " ";
    t.IE = true;
    t.esc = "\\";
    switch (rng.below(4)) {
    case 0:
        columns_case<Par<false, ss::quote<'"'>, ss::escape<'\\'>, ss::multiline,
                         ss::string_error>>(c, rng, "QE+ML string", q);
        break;
    case 1:
        columns_case<Par<true, ss::quote<'"'>, ss::escape<'\\'>, ss::multiline,
                         ss::throw_on_error>>(c, rng, "QE+ML throw", q);
        break;
    case 2:
        columns_case<Par<false, ss::trim<' '>, ss::escape<'\\'>,
                         ss::ignore_empty, ss::string_error>>(
            c, rng, "ET+IE string", t);
        break;
    default:
        columns_case<Par<true, ss::trim<' '>, ss::escape<'\\'>,
                         ss::ignore_empty, ss::throw_on_error>>(
            c, rng, "ET+IE throw", t);
    }
}

// sources which cannot be opened are named
SCENARIO(opening, 2) {
    const Setup& s = any_setup(rng);
    const bool file = rng.chance(1, 2);
    const str path = c.scratch + "/missing-" + std::to_string(rng.below(100));
    for (Mode m : {STRING, THROW}) {
        auto p = file ? s.file(m, path, ",") : s.buffer(m, nullptr, 0, ",");
        const str msg = p->open().msg;
        auto desc = [&] { return "message " + show(msg); };
        c.check(!p->open().ok && msg.size() > 3, "open-message", desc);
        if (file) {
            c.check(msg.find(path) != str::npos, "open-message-file", desc);
        }
        c.feature("opening errors");
    }
    c.nontrivial(hash_str(path));
}

// line and column numbers above 255 and 65535
SCENARIO(far_places, 1) {
    const Setup& s = any_setup(rng);
    const size_t n = rng.chance(1, 6) ? 65530 + rng.below(20) : rng.pick(std::vector<size_t>{100, 250, 256, 300, 1000, 5000});
    const str d = ",";
    str data;
    size_t line = 0;
    for (size_t i = 0; i < n; ++i) {
        if (s.cfg.IE && i > 0 && rng.chance(1, 10)) {
            data += "\n";
            ++line;
        }
        data += "x\n";
        ++line;
    }
    data += "y,z\n";
    ++line;
    const Mode mode = rng.chance(1, 2) ? STRING : THROW;
    const bool file = rng.chance(1, 2);
    Opened o{c, s, mode, file, data, d};
    for (size_t i = s.cfg.IH ? 1 : 0; i < n; ++i) o.sut->ignore_next();
    const Obs got = o.sut->next(3);
    auto desc = [&] { return "line " + std::to_string(line) + " message " + show(got.msg) + ", setup " + s.name; };
    const str prefix = o.source_name + " " + std::to_string(line) + ":";
    c.check(!got.ok && got.msg.compare(0, prefix.size(), prefix) == 0, "message-line", desc);
    const auto nums = numbers(got.msg.size() > prefix.size() ? got.msg.substr(prefix.size()) : "");
    c.check(nums == std::vector<size_t>{3, 2}, "message-numbers", desc);
    c.feature("messages for far lines");
    c.nontrivial(hash_str(s.name, n));
}

// failing columns with high numbers
template <typename P, size_t... Is>
static void wide_case(Ctx& c, Rng& rng, std::index_sequence<Is...>) {
    constexpr size_t n = sizeof...(Is);
    static const std::vector<size_t> marks = {0, 1, 9, 10, 99, 126, 127, 128, 254, 255, 256, 257, n - 1};
    const size_t bad = std::min(rng.chance(2, 3) ? rng.pick(marks) : rng.below(n), n - 1);
    const bool second = rng.chance(1, 2);
    str data;
    for (size_t i = 0; i < n; ++i) {
        data += (i ? "," : "") + (i == bad || (second && i > bad && rng.chance(1, 9)) ? "bad" + std::to_string(i) : std::to_string(i));
    }
    data += "\n";
    P p{data.data(), data.size(), ","};
    str msg;
    bool ok = true;
    try {
        static_cast<void>(p.template get_next<std::conditional_t<(Is < n), int, int>...>());
        if constexpr (!std::is_same_v<typename P::throwing, std::true_type>) {
            ok = p.valid();
            if (!ok) msg = p.error_msg();
        }
    } catch (const ss::exception& e) {
        ok = false;
        msg = e.what();
    }
    auto desc = [&] { return "column " + std::to_string(bad + 1) + " of " + std::to_string(n) + ", message " + show(msg); };
    const str quoted = "'bad" + std::to_string(bad) + "'", prefix = "CSV data buffer 1:";
    const size_t at = msg.rfind(quoted);
    if (!c.check(!ok && at != str::npos && msg.compare(0, prefix.size(), prefix) == 0, "message-text", desc)) return;
    c.check(numbers(msg.substr(prefix.size(), at - prefix.size())) == std::vector<size_t>{bad + 1}, "message-column", desc);
    c.feature("failing columns of wide rows");
    c.nontrivial(hash_str(data));
}

SCENARIO(wide_columns, 4) {
    if (rng.chance(1, 2)) {
        wide_case<Par<false, ss::string_error>>(c, rng, std::make_index_sequence<300>{});
    } else {
        wide_case<Par<true, ss::throw_on_error>>(c, rng, std::make_index_sequence<140>{});
    }
}

// places repeated until sizes leave 8 or 16 bits
SCENARIO(grown, 2) {
    Ops ops;
    ops.wrong_arity_in = 4;
    grown_case(c, rng, [](const Cfg&) { return true; }, MESSAGES, ops);
}
