// C35: the work done is proportional to the data. The same piece is repeated
// n and 16 n times; sixteen times the data must not need much more than sixteen
// times the work.
#include "run.hpp"
#include "work.hpp"
using namespace h;

long long portable_line(char*& line, size_t& n, FILE* f);

namespace {

constexpr size_t factor = 16;

// work which grows with the square of the data would be up to 256 times as much
bool proportional(uint64_t small, uint64_t big) {
    return big <= small * factor * 2 + 20000;
}

struct Plan {
    uint64_t seed;
    int k;          // values per read
    bool mixed;     // skips, iterations
    bool queries;   // header queries between the rows
    size_t moves;   // a move every so many reads
    strs select{};  // fields selected before reading
    bool header = false; // header() is called
};

uint64_t read_all(Ctx& c, const Setup& s, Mode mode, bool file, const str& data, const str& d, const Plan& plan, size_t stop = 0) {
    std::unique_ptr<File> f;
    std::unique_ptr<Exact> b;
    if (file) {
        f = std::make_unique<File>(c, data);
    } else {
        b = std::make_unique<Exact>(data);
    }
    work::units = 0;
    std::unique_ptr<ISut> p;
    {
        work::Count w;
        p = file ? s.file(mode, f->path, d) : s.buffer(mode, b->p, b->n, d);
    }
    size_t i = 0;
    std::vector<strs> rows;
    if (!plan.select.empty()) {
        work::Count w;
        p->use_fields(plan.select);
    }
    if (plan.header) {
        work::Count w;
        p->header();
        p->raw_header();
    }
    for (; !p->state().eof && (stop == 0 || i < stop); ++i) {
        const uint64_t r = mix(plan.seed + i % 64);
        work::Count w;
        if (plan.queries && r % 5 == 0) {
            if (r % 2) {
                p->header();
            } else {
                p->field_exists("none");
            }
        }
        if (plan.moves > 0 && i % plan.moves == 0) p->move_construct();
        const size_t how = plan.mixed ? (r >> 8) % 6 : 0;
        if (how == 1) {
            p->ignore_next();
        } else if (how == 2) {
            rows.clear();
            p->iterate_rest(plan.k, 1, rows);
        } else {
            p->next(plan.k);
        }
    }
    c.feature("reads", i);
    return work::units;
}

void judge(Ctx& c, const char* what, uint64_t small, uint64_t big, const std::function<str()>& desc) {
    ++c.events;
    c.feature(what);
    c.feature(big > small * factor ? "more than proportional, within the bound" : "at most proportional");
    c.check(proportional(small, big), "work-grows", [&] {
        return str{what} + ": " + std::to_string(small) + " units of work for some data, " + std::to_string(big) + " for " +
               std::to_string(factor) + " times as much; " + desc();
    });
    if (std::getenv("VERIF_SHOW_WORK")) {
        std::fprintf(stderr, "%s %.2f %llu %s\n", what, double(big) / double(small), (unsigned long long)small, desc().substr(0, 150).c_str());
    }
}

str repeat(const str& x, size_t n) {
    str out;
    out.reserve(x.size() * n);
    for (size_t i = 0; i < n; ++i) out += x;
    return out;
}

} // namespace

// many rows
SCENARIO(rows, 60) {
    const Setup& s = any_setup(rng);
    const Cfg& cfg = s.cfg;
    const str d = pick_delim(rng, cfg);
    Gen g{rng, cfg, d};
    const size_t cols = rng.range(1, 5);
    str piece, head;
    for (size_t i = 0; i < cols; ++i) head += (i ? d : str{}) + g.encode("fn" + std::to_string(i));
    head += "\n";
    for (size_t n = rng.range(1, 5); n > 0; --n) {
        Err kind = OK;
        str t = g.row(g.values(rng.chance(1, 8) ? rng.range(1, 5) : cols, true));
        if (rng.chance(1, 5)) t = g.malformed(cols, kind, !(cfg.ML && cfg.limit > 0));
        if (rng.chance(1, 8)) t = "";
        piece += t + (rng.chance(1, 4) ? "\r\n" : "\n");
    }
    const size_t n0 = std::max<size_t>(40, 8000 / (piece.size() + 1));
    const Mode mode = any_mode(rng);
    const bool file = rng.chance(1, 2);
    Plan plan{rng.next(), static_cast<int>(cols), rng.chance(1, 2), !cfg.IH && rng.chance(1, 3), rng.chance(1, 3) ? rng.range(1, 9) : 0};
    if (!cfg.IH && rng.chance(1, 4)) {
        plan.select.push_back("fn" + std::to_string(rng.below(cols)));
        plan.k = 1;
        c.feature("rows of selected fields");
    }
    auto desc = [&] { return "a piece repeated " + std::to_string(n0) + " times, " + describe(s, mode, file, d, head + piece); };
    const uint64_t a = read_all(c, s, mode, file, head + repeat(piece, n0), d, plan);
    const uint64_t b = read_all(c, s, mode, file, head + repeat(piece, n0 * factor), d, plan);
    judge(c, file ? "many rows of a file" : "many rows of a buffer", a, b, desc);
    c.nontrivial(hash_str(piece, hash_str(s.name + d, plan.seed)));
    if (rng.chance(1, 60)) c.sample(desc());
}

// long rows: a value or the spacing of one made of a repeated piece, and of many lines
SCENARIO(long_rows, 90) {
    const Setup& s = any_setup(rng);
    const Cfg& cfg = s.cfg;
    const str d = pick_delim(rng, cfg);
    Gen g{rng, cfg, d};
    const char* what = "long rows";
    str before, piece, after;
    const str break_ = rng.chance(1, 3) ? "\r\n" : "\n";
    switch (rng.below(14)) {
    case 0:
        piece = g.legal(g.value(rng.range(1, 8), false), false);
        if (piece.empty()) piece = "v";
        piece = g.unquoted(piece);
        break;
    case 1:
        if (!cfg.Q) return;
        what = "long quoted values";
        before = str(1, cfg.q);
        piece = g.quoted("v" + g.value(rng.range(1, 8), false));
        piece = piece.substr(piece.find(cfg.q) + 1);
        piece.erase(piece.rfind(cfg.q));
        if (rng.chance(3, 4)) after = before;
        break;
    case 2:
        if (!cfg.Q) return;
        what = "many doubled quotes";
        before = after = str(1, cfg.q);
        piece = str(2, cfg.q) + (rng.chance(1, 2) ? "x" : "");
        break;
    case 3:
        if (cfg.esc.empty()) return;
        what = "many escapes";
        piece = str(1, rng.pick(cfg.esc)) + (rng.chance(1, 3) ? str(1, rng.pick(cfg.esc)) : rng.chance(1, 2) ? "x" : d);
        if (cfg.Q && rng.chance(1, 2)) before = after = str(1, cfg.q);
        break;
    case 4:
        if (cfg.tl.empty() && cfg.tr.empty()) return;
        what = "long spacing";
        piece = str(1, rng.pick(cfg.tl + cfg.tr));
        before = rng.chance(1, 2) ? "" : "a";
        after = rng.chance(1, 2) ? "" : cfg.Q && rng.chance(1, 2) ? str(1, cfg.q) + "b" + str(1, cfg.q) : "b";
        break;
    case 5:
    case 6:
        if (!cfg.ml_q() || cfg.limit > 0) return;
        what = "rows of many quoted lines";
        before = rng.chance(1, 2) ? "x" + d + str(1, cfg.q) : str(1, cfg.q);
        piece = str(rng.below(30), 'l') + (rng.chance(1, 3) ? str(2, cfg.q) : "") + (cfg.esc.empty() || rng.chance(1, 2) ? "" : str(1, cfg.esc[0]) + (rng.chance(1, 2) ? "e" : "")) + break_;
        if (rng.chance(3, 4)) after = str(1, cfg.q) + d + "y";
        break;
    case 7:
    case 12:
        if (!cfg.ml_e() || cfg.limit > 0) return;
        what = "rows of many escaped lines";
        before = rng.chance(1, 2) ? "x" + d : "";
        piece = str(rng.below(30), 'l') + (rng.chance(1, 3) ? str(4, cfg.esc[0]) : "") + str(1, rng.pick(cfg.esc)) + break_;
        if (rng.chance(3, 4)) after = "z" + d + "y";
        break;
    case 8:
        what = "many columns";
        piece = g.unquoted("v") + (rng.chance(1, 2) ? "" : g.pad(cfg.tr)) + d;
        after = "w";
        break;
    case 9:
        if (d.size() < 2) return;
        what = "parts of delimiters";
        piece = d.substr(0, 1);
        if (piece.find_first_not_of(d) == str::npos && d.find_first_not_of(piece) == str::npos) piece += "x";
        after = "w";
        break;
    case 10:
        what = "many empty lines";
        piece = break_;
        before = "a\n";
        after = "b";
        break;
    default:
        if (!cfg.Q) return;
        what = "mismatched quotes";
        before = str(1, cfg.q) + "a" + str(1, cfg.q);
        piece = "b" + str(1, cfg.q);
    }
    const bool lines = piece.find('\n') != str::npos;
    const size_t n0 = std::max<size_t>(lines ? 100 : 30, (lines ? 4000 : 6000) / piece.size());
    const bool first = !lines && rng.chance(1, 4); // the long one is the header
    if (first) c.feature("long headers");
    auto data = [&](size_t n) { return (first ? str{} : str{"first\n"}) + before + repeat(piece, n) + after + "\nlast" + d + "1\n" + before + repeat(piece, n) + after; };
    const Mode mode = any_mode(rng);
    const bool file = rng.chance(1, 2);
    Plan plan{rng.next(), static_cast<int>(rng.range(1, 3)), rng.chance(1, 2), false, rng.chance(1, 4) ? 1u : 0u};
    plan.header = !cfg.IH && rng.chance(1, 2);
    work::reallocs = !lines;
    auto desc = [&] { return describe(s, mode, file, d, before + "|" + piece + "|" + after) + ", the middle repeated " + std::to_string(n0) + " times"; };
    const uint64_t a = read_all(c, s, mode, file, data(n0), d, plan);
    const uint64_t b = read_all(c, s, mode, file, data(n0 * factor), d, plan);
    work::reallocs = false;
    judge(c, what, a, b, desc);
    c.nontrivial(hash_str(before + piece + after, hash_str(s.name + d, plan.seed)));
    if (rng.chance(1, 60)) c.sample(desc());
}

// what has not been reached costs nothing
SCENARIO(tail, 30) {
    const Setup& s = any_setup(rng);
    const Cfg& cfg = s.cfg;
    const str d = pick_delim(rng, cfg);
    Gen g{rng, cfg, d};
    str first;
    const size_t n = rng.range(2, 20);
    for (size_t i = 0; i < n + 2; ++i) {
        const str t = g.row(g.values(3, false));
        first += (t.empty() ? "x" : t) + "\n";
    }
    const str more = repeat(rng.chance(1, 3) ? first : "tail\n", 5000);
    const Mode mode = any_mode(rng);
    const bool file = rng.chance(1, 3);
    const Plan plan{rng.next(), 3, rng.chance(1, 2), !cfg.IH && rng.chance(1, 2), rng.chance(1, 2) ? rng.range(1, 4) : 0};
    auto desc = [&] { return describe(s, mode, file, d, first); };
    const uint64_t a = read_all(c, s, mode, file, first, d, plan, n);
    const uint64_t b = read_all(c, s, mode, file, first + more, d, plan, n);
    ++c.events;
    c.feature("data not reached");
    c.check(b <= a + a / 2 + 2000, "work-for-what-is-not-read", [&] {
        return std::to_string(a) + " units of work for " + std::to_string(n) + " rows, " + std::to_string(b) + " if " + std::to_string(more.size()) + " bytes follow; " + desc();
    });
    c.nontrivial(hash_str(first, hash_str(s.name + d, plan.seed)));
}

// moving does not depend on what has been read
SCENARIO(moves, 30) {
    const Setup& s = any_setup(rng);
    const Cfg& cfg = s.cfg;
    const str d = pick_delim(rng, cfg);
    Gen g{rng, cfg, d};
    auto cost = [&](size_t cols, size_t len, Mode mode) {
        str head, row;
        for (size_t i = 0; i < cols; ++i) head += (i ? d : str{}) + "c" + std::to_string(i);
        row = str(len, 'r');
        Exact b{head + "\n" + row + d + "\n" + row + "\n" + row + "\n"};
        auto p = s.buffer(mode, b.p, b.n, d);
        if (!cfg.IH) p->field_exists("c0");
        p->next(2);
        p->next(1);
        work::units = 0;
        work::Count w;
        p->move_construct();
        return work::units;
    };
    const Mode mode = any_mode(rng);
    const size_t cols = rng.range(100, 600), len = rng.range(5000, 50000);
    const uint64_t a = cost(3, 20, mode), b = cost(cols, len, mode);
    ++c.events;
    c.feature("moves");
    c.check(b <= a + a / 2 + 200, "move-depends-on-data", [&] {
        return std::to_string(a) + " units of work for a move, " + std::to_string(b) + " with " + std::to_string(cols) + " header fields and rows of " +
               std::to_string(len) + " bytes, setup " + s.name;
    });
    c.nontrivial(hash_str(s.name + d, cols * 100000 + len));
}

// what has been read before costs nothing: rows after a wide header and a long row
SCENARIO(after, 40) {
    const Setup& s = any_setup(rng);
    const Cfg& cfg = s.cfg;
    const str d = pick_delim(rng, cfg);
    Gen g{rng, cfg, d};
    str rows;
    for (size_t i = 0; i < 12; ++i) {
        Err kind = OK;
        const str t = rng.chance(1, 6) ? g.malformed(2, kind, !(cfg.ML && cfg.limit > 0)) : g.row(g.values(rng.chance(1, 4) ? 1 : 2, false));
        rows += (t.empty() ? "x" : t) + "\n";
    }
    const Mode mode = any_mode(rng);
    const bool file = rng.chance(1, 2);
    const Plan plan{rng.next(), 2, rng.chance(1, 2), false, 0};
    const bool failed = rng.chance(1, 4); // the long row is not read as it should be
    const bool asked = !cfg.IH && rng.chance(1, 2);
    if (asked) c.feature("rows after queries");
    auto cost = [&](size_t cols, size_t lines, size_t len) {
        str head, data;
        for (size_t i = 0; i < cols; ++i) head += (i ? d : str{}) + "c" + std::to_string(i);
        data = head + "\n";
        str value = repeat("v", len);
        if (cfg.ml_q() && cfg.limit == 0) value = str(1, cfg.q) + repeat("v\n", len / 2) + str(1, cfg.q);
        data += value + d + value + (failed ? d + value : str{}) + "\n" + repeat("v" + d + "w\n", lines) + "v" + d + "w\n" + rows;
        std::unique_ptr<File> f;
        std::unique_ptr<Exact> b;
        if (file) {
            f = std::make_unique<File>(c, data);
        } else {
            b = std::make_unique<Exact>(data);
        }
        auto p = file ? s.file(mode, f->path, d) : s.buffer(mode, b->p, b->n, d);
        if (asked) p->field_exists("c1");
        for (size_t i = 0; i < lines + 2; ++i) p->next(2);
        work::units = 0;
        std::vector<strs> got;
        for (size_t i = 0; i < 9; ++i) {
            const size_t how = plan.mixed ? mix(plan.seed + i) % 4 : 0;
            work::Count w;
            if (how == 1) {
                p->ignore_next();
            } else if (how == 2) {
                got.clear();
                p->iterate_rest(2, 1, got);
            } else {
                p->next(2);
            }
            p->state();
        }
        for (size_t i = 0; i < 5; ++i) p->next(2);
        for (size_t i = 0; i < 3; ++i) {
            // the end
            work::Count w;
            p->next(2);
            p->ignore_next();
            p->state();
        }
        return work::units;
    };
    const size_t cols = rng.chance(1, 2) ? 2 : rng.range(200, 1000), lines = rng.chance(1, 2) ? 1 : rng.range(100, 2000);
    const size_t len = cols == 2 && lines == 1 ? rng.range(20000, 90000) : rng.chance(1, 2) ? 20 : rng.range(10000, 50000);
    auto desc = [&] {
        return describe(s, mode, file, d, rows) + ", after a header of " + std::to_string(cols) + " fields, a row of values of " + std::to_string(len) + " bytes and " +
               std::to_string(lines) + " more";
    };
    const uint64_t x = cost(2, 1, 20), y = cost(cols, lines, len);
    ++c.events;
    c.feature("rows after much else");
    if (failed) c.feature("rows after a long row which fails");
    c.check(y <= x + x / 2 + 2000, "work-for-what-was-read", [&] { return std::to_string(x) + " units of work for some rows, " + std::to_string(y) + " in " + desc(); });
    c.nontrivial(hash_str(rows, hash_str(s.name + d, cols * 100000 + lines * 1000 + len)));
    if (rng.chance(1, 60)) c.sample(desc());
}

// a converter which has converted a long line
SCENARIO(converter_after, 20) {
    const Setup& s = any_setup(rng);
    const str d = pick_delim(rng, s.cfg);
    Gen g{rng, s.cfg, d};
    const Mode mode = any_mode(rng);
    const str line = g.row(g.values(3, false));
    const size_t cols = rng.range(1, 800), len = rng.range(20, 20000) / cols + 1;
    const bool open = s.cfg.Q && rng.chance(1, 4);
    const int k = static_cast<int>(rng.range(1, 4));
    auto cost = [&](const str& before) {
        auto conv = s.conv(mode);
        std::vector<char> b;
        for (const str& l : {before, line, line}) {
            b.assign(l.begin(), l.end());
            b.push_back('\0');
            work::units = 0;
            work::Count w;
            conv->convert(b.data(), k, d);
        }
        return work::units;
    };
    const uint64_t x = cost("a" + d + "b"), y = cost((open ? str(1, s.cfg.q) : str{}) + repeat(str(len, 'l') + d, cols) + "e");
    ++c.events;
    c.feature("lines after a long one");
    c.check(y <= x + x / 2 + 200, "work-for-what-was-read", [&] {
        return std::to_string(x) + " units of work for a line, " + std::to_string(y) + " after one of " + std::to_string(cols) + " columns of " + std::to_string(len) +
               " bytes; setup " + s.name + ", delimiter " + show(d) + ", line " + show(line);
    });
    c.nontrivial(hash_str(line, hash_str(s.name + d, cols * 100000 + len)));
}

// converters: long lines, many columns, and many lines one after the other
SCENARIO(converters, 50) {
    const Setup& s = any_setup(rng);
    const Cfg& cfg = s.cfg;
    const str d = pick_delim(rng, cfg);
    Gen g{rng, cfg, d};
    const Mode mode = any_mode(rng);
    str piece;
    while (piece.empty()) {
        Err kind = OK;
        piece = rng.chance(1, 8) ? g.malformed(2, kind, true) : g.row(g.values(rng.range(1, 4), false));
    }
    const bool join = rng.chance(1, 2); // one line, or as many
    const bool cached = rng.chance(1, 2);
    const size_t n0 = std::max<size_t>(40, 8000 / piece.size());
    const int k = static_cast<int>(rng.range(1, 4));
    auto cost = [&](size_t n) {
        auto conv = s.conv(mode);
        const str line = join ? repeat(piece + d, n) + "end" : piece;
        std::vector<std::pair<size_t, size_t>> ranges;
        std::vector<char> b;
        work::units = 0;
        for (size_t i = 0; i < (join ? 2 : n); ++i) {
            b.assign(line.begin(), line.end());
            b.push_back('\0');
            ranges.clear();
            work::Count w;
            if (cached) {
                conv->split(b.data(), d, ranges);
                conv->convert_split(k);
                conv->convert_split(k);
            } else {
                conv->convert(b.data(), k, d);
            }
        }
        return work::units;
    };
    auto desc = [&] {
        return str{"converter, setup "} + s.name + ", " + mode_name[mode] + " errors, delimiter " + show(d) + (join ? ", columns " : ", lines ") + show(piece) + " repeated " +
               std::to_string(n0) + " times" + (cached ? ", split first" : "");
    };
    const uint64_t a = cost(n0), b = cost(n0 * factor);
    judge(c, join ? "columns of converters" : "lines of converters", a, b, desc);
    c.nontrivial(hash_str(piece, hash_str(s.name + d, n0 * 8 + static_cast<size_t>(k) * 2 + cached)));
}

namespace {

struct Pair {
    int n;
    std::string s;
    auto tied() { return std::tie(n, s); }
};

template <typename... O>
uint64_t typed(const str& data, size_t how) {
    Exact b{data};
    work::units = 0;
    work::Count w;
    ss::parser<O...> p{b.p, b.n};
    switch (how) {
    case 0:
        while (!p.eof()) p.template get_object<Pair, int, std::string>();
        break;
    case 1:
        while (!p.eof()) p.template get_next<std::optional<int>, std::variant<int, double, std::string>>();
        break;
    case 2:
        while (!p.eof()) {
            p.template try_next<int, int>([](const auto&) { return true; }).template or_else<std::string, char>().template or_else<std::string, std::string_view>().on_error([] {}).values();
        }
        break;
    case 3:
        for (auto&& [x, y] : p.template iterate<std::optional<double>, std::string>()) {
            (void)x;
            (void)y;
        }
        break;
    case 4:
        while (!p.eof()) p.template get_next<ss::ax<int, 3, 4>, ss::ne<std::string>>();
        break;
    default:
        for (auto&& x : p.template iterate_object<Pair, int, std::string>()) (void)x;
    }
    return work::units;
}

} // namespace

// rows read as other types
SCENARIO(typed_rows, 30) {
    str piece;
    for (size_t n = rng.range(1, 6); n > 0; --n) {
        piece += (rng.chance(2, 3) ? std::to_string(rng.below(rng.chance(1, 2) ? 9 : 5000000)) : str(rng.range(1, 12), 'x')) + "," + (rng.chance(1, 2) ? std::to_string(rng.below(5000)) : str(rng.below(12), 'y'));
        piece += rng.chance(1, 8) ? ",z\n" : "\n";
    }
    const size_t n0 = std::max<size_t>(40, 8000 / piece.size());
    const size_t how = rng.below(6);
    const bool strings = rng.chance(1, 2);
    auto cost = [&](size_t n) { return strings ? typed<ss::string_error>(repeat(piece, n), how) : typed<>(repeat(piece, n), how); };
    const uint64_t a = cost(n0), b = cost(n0 * factor);
    judge(c, "typed rows", a, b, [&] { return show(piece) + " repeated " + std::to_string(n0) + " times, kind of read " + std::to_string(how) + (strings ? ", string errors" : ""); });
    c.nontrivial(hash_str(piece, how * 2 + strings));
}

// long values of numbers and texts
SCENARIO(typed_values, 30) {
    ss::converter<ss::string_error> conv;
    const std::vector<str> pieces = {"0", "9", "x", " ", "-", "."};
    const std::vector<str> before = {"", "1", "-", "0.", "1e"};
    const str x = rng.pick(pieces), y = rng.pick(before);
    const size_t how = rng.below(7);
    auto cost = [&](size_t n) {
        const str line = y + repeat(x, n) + "," + y + repeat(x, n);
        std::vector<char> b(line.begin(), line.end());
        b.push_back('\0');
        work::units = 0;
        work::Count w;
        switch (how) {
        case 0: conv.convert<int, short>(b.data()); break;
        case 1: conv.convert<unsigned long long, unsigned char>(b.data()); break;
        case 2: conv.convert<std::string_view, std::string>(b.data()); break;
        case 3: conv.convert<std::optional<int>, std::variant<int, bool, char, std::string>>(b.data()); break;
        case 4: conv.convert<bool, char>(b.data()); break;
        case 5: conv.convert<ss::gte<long, 1>, ss::ne<std::string>>(b.data()); break;
        default: conv.convert<double, float>(b.data());
        }
        return work::units;
    };
    const uint64_t a = cost(4000), b = cost(4000 * factor);
    judge(c, "long values", a, b, [&] { return show(y) + " and " + show(x) + " repeated, kind of conversion " + std::to_string(how); });
    c.nontrivial(hash_str(x + "|" + y, how));
}

// the line reader of other systems
SCENARIO(portable_reader, 10) {
    const size_t len = rng.range(2000, 20000), lines = rng.chance(1, 2) ? 1 : rng.range(1, 5);
    const bool grow = rng.chance(1, 2); // longer lines, else more of them
    auto cost = [&](size_t n) {
        File f{c, repeat(str(len * (grow ? n : 1), 'x') + "\n", lines * (grow ? 1 : n))};
        FILE* in = std::fopen(f.path.c_str(), "rb");
        char* line = nullptr;
        size_t size = 0;
        work::units = 0;
        work::reallocs = true;
        {
            work::Count w;
            while (portable_line(line, size, in) != -1) {
            }
        }
        work::reallocs = false;
        std::free(line);
        std::fclose(in);
        return work::units;
    };
    const uint64_t a = cost(1), b = cost(factor);
    judge(c, grow ? "long lines of the portable reader" : "many lines of the portable reader", a, b, [&] { return std::to_string(lines) + " lines of " + std::to_string(len) + " bytes"; });
    c.nontrivial(len * 100 + lines * 2 + grow);
}
