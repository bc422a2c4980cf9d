// C33: memory in use is bounded by the longest row. The same rows are read
// again and again from one source; what is live after many repetitions has to
// be what was live after a few.
#include "live.hpp"
#include "rows.hpp"
#include "twin.hpp"
using namespace h;

namespace {

// what may be live after n rounds when it was at most few after a few: the
// buffers change places, so the largest may be met late
size_t allowed(size_t few) {
    return 3 * few + 4096;
}

template <typename Round>
void rounds(Ctx& c, size_t rows, const Round& round, const std::function<str()>& desc, const char* what) {
    if (!live::active()) return;
    const long before = static_cast<long>(live::bytes());
    long few = 0, peak = 0;
    size_t n = 0;
    bool more = true;
    auto sample = [&] {
        const long now = static_cast<long>(live::bytes()) - before;
        peak = std::max(peak, now);
        if (n < 4) few = std::max(few, now);
    };
    while (more) {
        more = round(sample);
        ++n;
        sample();
    }
    ++c.events;
    if (n < 20) {
        std::fprintf(stderr, "harness: too few rounds\n");
        std::_Exit(91);
    }
    c.feature("rounds", n);
    c.feature(what, n * rows);
    c.check(peak <= static_cast<long>(allowed(static_cast<size_t>(std::max(few, 0L)))), "memory-grows", [&] {
        return std::to_string(few) + " bytes in use while the rows are read for the first times, " + std::to_string(peak) +
               " later (" + std::to_string(n) + " times); " + desc();
    });
}

} // namespace

SCENARIO(parsers, 100) {
    const Setup& s = any_setup(rng);
    const Mode mode = any_mode(rng);
    const str d = pick_delim(rng, s.cfg);
    // rows which end in any case, so that a round is a round
    Gen g{rng, s.cfg, d};
    const size_t cols = rng.range(1, 4);
    str one;
    size_t rows = rng.range(1, 12), longest = 0;
    for (size_t i = 0; i < rows; ++i) {
        Err kind = OK;
        str t = g.row(g.values(rng.chance(1, 6) ? rng.range(1, 5) : cols, true));
        if (rng.chance(1, 5)) t = g.malformed(cols, kind, true);
        if (s.cfg.ML && s.cfg.limit > 0 && (s.cfg.ml_q() || s.cfg.ml_e()) && rng.chance(1, 4)) {
            // too many lines
            const bool q = s.cfg.ml_q() && (!s.cfg.ml_e() || rng.chance(1, 2));
            t = q ? str(1, s.cfg.q) : str{};
            for (size_t k = s.cfg.limit + rng.range(1, 4); k > 0; --k) t += q ? "x\n" : "x" + str(1, s.cfg.esc[0]) + "\n";
            t += "y";
            c.feature("rows of too many lines");
        }
        if (t.empty() || rng.chance(1, 8)) t = s.cfg.IE && rng.chance(1, 2) ? str{} : str{"x"};
        longest = std::max(longest, t.size());
        one += t + (rng.chance(1, 4) ? "\r\n" : "\n");
    }
    const size_t times = std::max<size_t>(40, 3000 / rows);
    str header;
    strs names;
    for (size_t i = 0; i < cols; ++i) {
        names.push_back("field name " + std::to_string(i));
        header += (i ? d : str{}) + (s.cfg.esc.empty() && (s.cfg.is_tl('f') || s.cfg.is_tr('0')) ? "f" : "") + "fn" + std::to_string(i);
        names.back() = "fn" + std::to_string(i);
    }
    if (rng.chance(1, 5)) {
        header += d + "fn0";
        c.feature("headers with duplicates");
    } else if (rng.chance(1, 6)) {
        Err kind = OK;
        const str t = g.malformed(cols, kind, true);
        if (!t.empty()) {
            header = t;
            c.feature("malformed headers");
        }
    }
    header += "\n";
    str data = header;
    for (size_t i = 0; i < times; ++i) data += one;
    const bool file = rng.chance(1, 2);
    const bool queries = !s.cfg.IH && rng.chance(1, 2);
    const uint64_t seed = rng.next();
    const size_t loops = rng.below(3);
    auto desc = [&] { return describe(s, mode, file, d, header + one) + " repeated " + std::to_string(times) + " times" + (queries ? ", with queries" : ""); };
    std::unique_ptr<File> f;
    std::unique_ptr<Exact> b;
    if (file) {
        f = std::make_unique<File>(c, data);
    } else {
        b = std::make_unique<Exact>(data);
    }
    std::unique_ptr<ISut> p;
    size_t calls = 0;
    const char* what = queries ? "rows with queries" : "rows";
    rounds(
        c, rows,
        [&](const auto& sample) {
            if (!p) p = file ? s.file(mode, f->path, d) : s.buffer(mode, b->p, b->n, d);
            Rng r{mix(seed ^ (calls % 7))}; // a few kinds of rounds
            ++calls;
            const size_t until = std::min(data.size(), p->state().pos + one.size());
            do {
                switch (r.below(8)) {
                case 0:
                    p->ignore_next();
                    break;
                case 1:
                    if (queries) p->field_exists(r.chance(1, 2) ? names[0] : "none");
                    break;
                case 2:
                    if (queries && !p->state().eof && loops > 0) {
                        const str x = names[r.below(names.size())];
                        p->use_fields(r.chance(1, 4) ? strs{x, x} : r.chance(1, 6) ? strs{"none"} : strs{x});
                    }
                    break;
                case 3:
                    if (queries) p->header();
                    break;
                case 4: {
                    std::vector<strs> got;
                    p->iterate_rest(static_cast<int>(cols), r.range(1, 3), got);
                    break;
                }
                case 5:
                    if (loops > 1) p->move_construct();
                    break;
                default:
                    p->next(static_cast<int>(r.chance(1, 8) ? r.range(1, max_arity) : cols));
                }
                sample();
            } while (!p->state().eof && p->state().pos < until);
            return !p->state().eof || calls < 20;
        },
        desc, what);
    c.nontrivial(hash_str(one, hash_str(s.name + d, seed)));
    if (rng.chance(1, 60)) c.sample(desc());
}

SCENARIO(converters, 60) {
    const Setup& s = any_setup(rng);
    const Mode mode = any_mode(rng);
    const str d = pick_delim(rng, s.cfg);
    Gen g{rng, s.cfg, d};
    strs lines;
    for (size_t n = rng.range(1, 8); n > 0; --n) {
        Err kind = OK;
        lines.push_back(rng.chance(1, 5) ? g.malformed(rng.range(1, 4), kind, true) : g.row(g.values(rng.range(1, 4), true)));
    }
    std::unique_ptr<IConv> conv;
    const uint64_t seed = rng.next();
    size_t n = 0;
    auto desc = [&] { return str{"converter, setup "} + s.name + ", " + mode_name[mode] + " errors, lines " + show(lines); };
    rounds(
        c, lines.size(),
        [&](const auto& sample) {
            if (!conv) conv = s.conv(mode);
            Rng r{mix(seed ^ (n % 5))};
            ++n;
            for (auto& l : lines) {
                std::vector<char> b(l.begin(), l.end());
                b.push_back('\0');
                if (r.chance(1, 3)) {
                    std::vector<std::pair<size_t, size_t>> ranges;
                    conv->split(b.data(), d, ranges);
                    conv->convert_split(static_cast<int>(r.range(1, 4)));
                } else {
                    conv->convert(b.data(), static_cast<int>(r.range(1, 4)), d);
                }
            }
            sample();
            return n < 400;
        },
        desc, "converted lines");
    c.nontrivial(hash_str(show(lines), hash_str(s.name + d, seed)));
}

namespace {

struct Obj {
    int a;
    double b;
    std::string s;
    auto tied() {
        return std::tie(a, b, s);
    }
};

template <typename P>
void typed_row(P& p, Rng& r) {
    try {
        switch (r.below(9)) {
        case 0: (void)p.template get_next<int, double, std::string>(); break;
        case 6: (void)p.template get_next<char, ss::ir<int, 0, 5>, bool>(); break;
        case 7: (void)p.template get_next<ss::oor<int, 0, 5>, void, char>(); break;
        case 1: (void)p.template get_next<Obj>(); break;
        case 2: (void)p.template get_object<Obj, int, double, std::string>(); break;
        case 3: (void)p.template get_next<std::optional<int>, std::variant<int, std::string>, ss::ne<std::string>>(); break;
        case 4:
            for (auto& x : p.template iterate<std::string, std::string, std::string>()) {
                (void)x;
                break;
            }
            break;
        case 5:
            for (auto& x : p.template iterate_object<Obj, int, double, std::string>()) {
                (void)x;
                break;
            }
            break;
        default:
            if constexpr (P::h_throws) {
                (void)p.template get_next<int, void, std::string>();
            } else {
                (void)p.template try_next<int, int, int>([](auto&&...) { return false; })
                    .on_error([] {})
                    .template or_object<Obj, int, double, std::string>([](auto&) {})
                    .template or_else<std::string, void, std::string>()
                    .values();
            }
        }
    } catch (const ss::exception&) {
    }
}

template <template <typename...> class Par>
void typed_case(Ctx& c, Rng& rng) {
    using P = Par<ss::quote<'"'>, ss::escape<'\\'>, ss::multiline>;
    static const strs pool{"1", "2.5", "x", "\"quoted, long enough to be allocated by strings\"", "", "\"a\nb\"", "-7", "\"open",
                           "a long text, which is not quoted and has to be allocated", "1e5"};
    str one;
    const size_t rows = rng.range(1, 10);
    for (size_t i = 0; i < rows; ++i) {
        for (size_t k = rng.chance(1, 6) ? 2 : 3; k > 0; --k) {
            str t = rng.pick(pool);
            if (t == "\"open") t += "\"x";
            one += t + (k > 1 ? "," : "\n");
        }
    }
    str data;
    const size_t times = std::max<size_t>(40, 2000 / rows);
    for (size_t i = 0; i < times; ++i) data += one;
    const uint64_t seed = rng.next();
    std::optional<P> p;
    size_t n = 0;
    rounds(
        c, rows,
        [&](const auto& sample) {
            if (!p) p.emplace(data.data(), data.size(), ",");
            Rng r{mix(seed ^ (n % 5))};
            ++n;
            const size_t until = std::min(data.size(), p->position() + one.size());
            do {
                typed_row(*p, r);
                sample();
            } while (!p->eof() && p->position() < until);
            return !p->eof() || n < 20;
        },
        [&] { return "typed reads of " + show(one) + " repeated " + std::to_string(times) + " times"; }, "typed rows");
    c.nontrivial(hash_str(one, seed));
}

} // namespace

SCENARIO(typed, 60) {
    switch (rng.below(3)) {
    case 0: typed_case<PlainParser>(c, rng); break;
    case 1: typed_case<TextParser>(c, rng); break;
    default: typed_case<ThrowParser>(c, rng);
    }
}

// parsers which come and go
SCENARIO(lives, 40) {
    const Setup& s = any_setup(rng);
    const Mode mode = any_mode(rng);
    const str d = rng.chance(1, 12) ? str{} : pick_delim(rng, s.cfg);
    const str data = any_data(rng, s.cfg, d.empty() ? "," : d);
    Exact b{data};
    File f{c, data};
    const str none = c.scratch + "/none.csv";
    const uint64_t seed = rng.next();
    size_t n = 0;
    auto open = [&](Rng& r) {
        switch (r.below(r.chance(1, 2) ? 4 : 2)) {
        case 0: return s.file(mode, f.path, d);
        case 1: return s.buffer(mode, b.p, b.n, d);
        case 2: c.feature("missing files"); return s.file(mode, none, d);
        default: c.feature("null buffers"); return s.buffer(mode, nullptr, r.below(3), d);
        }
    };
    auto use = [](ISut& p, Rng& r, bool queries) {
        for (size_t k = r.below(6); k > 0; --k) {
            switch (r.below(queries ? 5 : 3)) {
            case 0: p.ignore_next(); break;
            case 3: p.header(); break;
            case 4: p.field_exists("none"); break;
            default: p.next(static_cast<int>(r.range(1, 3)));
            }
        }
    };
    auto desc = [&] { return describe(s, mode, false, d, data); };
    rounds(
        c, 1,
        [&](const auto& sample) {
            Rng r{mix(seed ^ (n % 11))};
            ++n;
            {
                auto p = open(r);
                if (!p->open().threw) {
                    use(*p, r, !s.cfg.IH);
                    auto q = open(r);
                    if (!q->open().threw) {
                        if (r.chance(1, 3)) use(*q, r, !s.cfg.IH);
                        if (r.chance(1, 2)) q->take(*p, r.chance(1, 2));
                        use(*q, r, !s.cfg.IH);
                        if (r.chance(1, 3)) q->move_assign(b.p, b.n);
                    }
                }
            }
            sample();
            return n < 300;
        },
        desc, "parsers");
    c.nontrivial(hash_str(data, hash_str(s.name + d, seed)));
}
