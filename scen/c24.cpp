// C24: a converter depends only on its arguments and matches the parser.
#include "lockstep.hpp"
#include "restr.hpp"
using namespace h;

using std::optional;
using std::string;
using std::tuple;
using std::variant;

namespace {

str text(const Obs& o) {
    return str{o.ok ? "ok" : "error"} + " " + show(o.msg, 200) + " " + show(o.vals, 200);
}
bool same(const Obs& a, const Obs& b) {
    return a.ok == b.ok && a.msg == b.msg && a.vals == b.vals && a.threw == b.threw;
}

// a line for the setup, possibly malformed, possibly with line breaks
str any_line(Rng& r, const Cfg& cfg, const str& d) {
    Gen g{r, cfg, d};
    const size_t cols = r.range(1, 5);
    switch (r.below(8)) {
    case 0: {
        Err kind = OK;
        const str t = g.malformed(cols, kind, true);
        return t;
    }
    case 1:
        return g.hostile(r.below(24));
    case 2:
        return r.chance(1, 2) ? str{} : g.row(g.values(1, false));
    default:
        return g.row(g.values(cols, r.chance(1, 3)));
    }
}

str without_nul(str s) {
    s.erase(std::remove(s.begin(), s.end(), '\0'), s.end());
    return s;
}

// a converter of a setup with multiline is meant for complete rows
bool complete(const str& line, const Cfg& cfg, const str& d) {
    const Scan s = scan_row(line, cfg, d);
    return s.err != UNTERM_QUOTE && s.err != UNTERM_ESCAPE;
}

} // namespace

SCENARIO(history, 100) {
    const Setup& s = any_setup(rng);
    const Mode mode = any_mode(rng);
    const str d0 = pick_delim(rng, s.cfg);
    auto used = s.conv(mode);
    str hist, digest;
    auto desc = [&] {
        return str{"setup "} + s.name + ", " + mode_name[mode] + " errors," + hist;
    };
    const size_t n = rng.range(2, 14);
    for (size_t i = 0; i < n; ++i) {
        const str d = rng.chance(1, 4) ? pick_delim(rng, s.cfg) : d0;
        const str line = without_nul(any_line(rng, s.cfg, d));
        if (s.cfg.ML && !complete(line, s.cfg, d)) {
            continue;
        }
        digest += line + "\n";
        auto count = [&] {
            const Scan sc = scan_row(line, s.cfg, d);
            size_t k = sc.err == OK && !line.empty() ? sc.fields.size() : 0;
            return k == 0 || k > max_arity || rng.chance(1, 6)
                       ? static_cast<int>(rng.range(1, max_arity))
                       : static_cast<int>(k);
        };
        auto fresh = [&](int k) {
            auto f = s.conv(mode);
            Heap b{line, true};
            return f->convert(b.p, k, d);
        };
        if (rng.chance(1, 8)) {
            hist += " copy";
            used = used->clone();
            c.feature("copies");
        }
        Heap b{line, true};
        if (rng.chance(1, 2)) {
            const int k = count();
            hist += " convert" + std::to_string(k) + "(" + show(line, 100) + "," + show(d) + ")";
            const Obs want = fresh(k);
            const Obs got = used->convert(b.p, k, d);
            c.feature(want.ok ? "converted lines" : "lines not converted");
            if (!c.check(same(got, want), "depends-on-history", [&] {
                    return "got " + text(got) + " instead of " + text(want) + "; " + desc();
                })) {
                return;
            }
            // the split of the line stays for further conversions
            if (want.ok && rng.chance(1, 3)) {
                const int k2 = count();
                hist += " again" + std::to_string(k2);
                const Obs w2 = fresh(k2);
                const Obs g2 = used->convert_split(k2);
                c.feature("converted again");
                if (!c.check(same(g2, w2), "differs-when-repeated", [&] {
                        return "got " + text(g2) + " instead of " + text(w2) + "; " + desc();
                    })) {
                    return;
                }
            }
            continue;
        }
        if (rng.chance(1, 3)) {
            hist += " splitter(" + show(line, 100) + "," + show(d) + ")";
            auto once = s.conv(mode);
            Heap e{line, true};
            bool open1 = false, open2 = false;
            std::vector<std::pair<size_t, size_t>> r1, r2;
            const Obs got = used->splitter(b.p, d, open1, r1), want = once->splitter(e.p, d, open2, r2);
            c.feature("lines of a reused splitter");
            if (!c.check(same(got, want) && open1 == open2 && (!got.ok || r1 == r2), "splitter-depends-on-history", [&] {
                    return "got " + text(got) + " instead of " + text(want) + "; " + desc();
                })) {
                return;
            }
            // the same columns and error as a converter
            if (!line.empty()) {
                auto f = s.conv(mode);
                Heap e2{line, true};
                const Scan sc = scan_row(line, s.cfg, d);
                const size_t k = std::min<size_t>(max_arity, std::max<size_t>(1, sc.fields.size()));
                const Obs conv = f->convert(e2.p, static_cast<int>(k), d);
                if (sc.err != OK || sc.fields.size() <= max_arity) {
                    c.check(got.ok == conv.ok && got.msg == conv.msg && (!got.ok || got.vals == conv.vals), "splitter-differs", [&] {
                        return "splitter " + text(got) + " converter " + text(conv) + "; " + desc();
                    });
                }
            }
            continue;
        }
        hist += " split(" + show(line, 100) + "," + show(d) + ")";
        std::vector<std::pair<size_t, size_t>> ranges;
        const Obs sp = used->split(b.p, d, ranges);
        if (!sp.ok) {
            // what was split cannot be used
            continue;
        }
        for (size_t j = rng.range(1, 4); j > 0; --j) {
            const int k = count();
            const bool given = rng.chance(1, 2);
            hist += (given ? " given" : " cached") + std::to_string(k);
            const Obs want = fresh(k);
            const Obs got = given ? used->convert_given(k) : used->convert_split(k);
            c.feature(given ? "conversions of given splits" : "conversions of kept splits");
            if (!c.check(same(got, want), "split-differs", [&] {
                    return "got " + text(got) + " instead of " + text(want) + "; " + desc();
                })) {
                return;
            }
            if (want.ok && !c.expect(sp.vals, want.vals, "split-values", [&] {
                    return "split into " + show(sp.vals) + " but converted to " + show(want.vals) + "; " + desc();
                })) {
                return;
            }
        }
    }
    c.nontrivial(hash_str(digest, hash_str(s.name)));
    if (rng.chance(1, 60)) c.sample(desc());
}

// rows of a document: each read by the parser and converted as a line
SCENARIO(parser, 60) {
    const Setup& s = any_setup(rng);
    const Mode mode = any_mode(rng);
    const str d = pick_delim(rng, s.cfg);
    const str data = without_nul(any_data(rng, s.cfg, d));
    Opened o{c, s, mode, rng.chance(1, 2), data, d};
    Model m{data, s.cfg, d};
    auto conv = s.conv(mode);
    auto desc = [&] { return describe(s, mode, !!o.file, d, data); };
    for (size_t row = 1; !m.eof(); ++row) {
        const size_t first = m.pend;
        const int k = pick_arity(rng, m, 5);
        const Want w = m.next(static_cast<size_t>(k));
        const Obs got = o.sut->next(k);
        const size_t lines = w.row->next - first;
        // the text of the row
        const size_t from = m.lines[first].begin;
        const size_t to = m.lines[w.row->next - 1].begin + m.lines[w.row->next - 1].text.size();
        const str line = data.substr(from, to - from);
        if (line.empty() || (s.cfg.ML && (w.err == UNTERM_QUOTE || w.err == UNTERM_ESCAPE || w.err == LIMIT))) {
            // no row of its own
            continue;
        }
        Heap b{line, true};
        const Obs want = conv->convert(b.p, k, d);
        c.feature(want.ok ? "rows" : "rows not converted");
        c.feature_if(lines > 1, "joined rows");
        str msg = got.msg;
        const str prefix = o.source_name + " " + std::to_string(w.line) + ": ";
        const bool named = !want.ok && mode != BOOL;
        // positions in joined rows are those after the joined lines were edited
        const bool position = w.err == MISMATCHED && lines > 1;
        if (!c.check(got.ok == want.ok && got.vals == want.vals &&
                         (!named || position || msg == prefix + want.msg),
                     "parser-differs", [&] {
                         return "row " + show(line) + " read as " + text(got) + " but converted to " + text(want) +
                                "; " + desc();
                     })) {
            return;
        }
    }
    c.nontrivial(hash_str(data, hash_str(s.name + d)));
}

// --- typed ------------------------------------------------------------------

namespace {

template <typename... Ts>
struct T {};

template <typename C, typename... Ts>
str convert_all(C& conv, char* line, T<Ts...>) {
    const auto r = reading(conv, [&] { return conv.template convert<Ts...>(line); });
    return str{r.ok ? "ok" : "error"} + " " + show(r.msg, 300) + " (" +
           (r.value ? RowRef<Ts...>::show_row(*r.value) : str{"-"}) + ")";
}
template <typename C, typename... Ts>
str convert_kept(C& conv, T<Ts...>) {
    const auto r = reading(conv, [&] { return conv.template convert<Ts...>(); });
    return str{r.ok ? "ok" : "error"} + " " + show(r.msg, 300) + " (" +
           (r.value ? RowRef<Ts...>::show_row(*r.value) : str{"-"}) + ")";
}
template <typename P, typename... Ts>
str read_one(P& p, T<Ts...>) {
    const auto r = reading(p, [&] { return p.template get_next<Ts...>(); });
    return str{r.ok ? "ok" : "error"} + " " + show(r.msg, 300) + " (" +
           (r.value ? RowRef<Ts...>::show_row(*r.value) : str{"-"}) + ")";
}

template <typename F>
str with_types(size_t i, F&& f) {
    switch (i) {
    case 0: return f(T<int, double, string>{});
    case 1: return f(T<string, string, string>{});
    case 2: return f(T<optional<int>, variant<int, double, string>, void>{});
    case 3: return f(T<ss::ir<int, 1, 9>, double, ss::ne<string>>{});
    case 4: return f(T<char, bool>{});
    case 5: return f(T<void, float>{});
    case 6: return f(T<string>{});
    default: return f(T<long long, ss::uint8, bool, string>{});
    }
}

strs typed_fields(Rng& r) {
    static const strs pool{"1", "0", "5", "12", "300", "-7", "1.5", "2e3", "true", "false", "x", "abc", "", " 1",
                           "a\"b", "a,b", "99999999999"};
    strs f;
    for (size_t n = r.range(1, 4); n > 0; --n) f.push_back(r.pick(pool));
    return f;
}

template <template <typename...> class Par, template <typename...> class Con>
void typed_case(Ctx& c, Rng& rng) {
    using C = Con<ss::quote<'"'>, ss::escape<'\\'>>;
    using P = Par<ss::quote<'"'>, ss::escape<'\\'>>;
    const Cfg cfg = qe_cfg();
    Gen g{rng, cfg, ","};
    C used;
    str hist, data;
    std::vector<std::pair<size_t, str>> results;
    for (size_t n = rng.range(2, 12); n > 0; --n) {
        str line;
        if (rng.chance(1, 8)) {
            Err kind;
            line = g.malformed(2, kind, true);
        } else {
            line = g.row(typed_fields(rng));
        }
        if (line.empty() || line.find('\n') != str::npos) continue;
        const size_t t = rng.below(8);
        hist += " " + std::to_string(t) + ":" + show(line, 60);
        auto fresh = [&](size_t k) {
            return with_types(k, [&](auto types) {
                C f;
                Heap b{line, true};
                return convert_all(f, b.p, types);
            });
        };
        const str want = fresh(t);
        Heap b{line, true};
        const str got = with_types(t, [&](auto types) { return convert_all(used, b.p, types); });
        c.feature(want[0] == 'o' ? "typed rows" : "typed rows not converted");
        if (!c.expect(got, want, "typed-depends-on-history", [&] {
                return "got " + got + " instead of " + want + " after" + hist;
            })) {
            return;
        }
        // other types on the same line without splitting it again
        const bool split = scan_row(line, qe_cfg(), ",").err == OK;
        for (size_t k = split ? rng.below(3) : 0; k > 0; --k) {
            const size_t u = rng.below(8);
            hist += " kept " + std::to_string(u);
            const str w2 = fresh(u);
            const str g2 = with_types(u, [&](auto types) { return convert_kept(used, types); });
            c.feature("typed conversions of kept splits");
            if (!c.expect(g2, w2, "typed-differs-when-repeated", [&] {
                    return "got " + g2 + " instead of " + w2 + " after" + hist;
                })) {
                return;
            }
        }
        data += line + "\n";
        results.push_back({t, want});
    }
    Heap all{data};
    P p{all.p, all.n};
    size_t row = 0;
    for (auto& [t, want] : results) {
        ++row;
        str got = with_types(t, [&](auto types) { return read_one(p, types); });
        const str prefix = "CSV data buffer " + std::to_string(row) + ": ";
        const size_t at = got.find(prefix);
        if (at != str::npos) got.erase(at, prefix.size());
        if (!c.expect(got, want, "typed-parser-differs", [&] {
                return "row " + std::to_string(row) + " read as " + got + " but converted to " + want + ", data " +
                       show(data);
            })) {
            return;
        }
    }
    c.nontrivial(hash_str(data));
}

} // namespace

SCENARIO(typed, 60) {
    switch (rng.below(3)) {
    case 0: typed_case<PlainParser, PlainConverter>(c, rng); break;
    case 1: typed_case<TextParser, TextConverter>(c, rng); break;
    default: typed_case<ThrowParser, ThrowConverter>(c, rng);
    }
}

// ranges which were not split by the converter they are given to
namespace {

template <typename C>
void ranges_case(Ctx& c, Rng& rng, const char* name) {
    C conv;
    ss::converter<ss::quote<'"'>, ss::escape<'\\'>> other;
    str hist = name;
    for (size_t n = rng.range(1, 8); n > 0; --n) {
        if (rng.chance(1, 2)) {
            // an unrelated line of its own, well-formed
            str own = "own";
            for (size_t k = rng.below(5); k > 0; --k) own += ",x";
            Heap b{own, true};
            hist += " split(" + own + ")";
            if (rng.chance(1, 2)) {
                static_cast<void>(conv.split(b.p));
            } else {
                const auto r = reading(conv, [&] { return conv.template convert<string, string>(b.p); });
                static_cast<void>(r);
            }
        }
        strs f;
        for (size_t k = rng.range(1, 5); k > 0; --k) {
            str t;
            if (rng.chance(2, 3)) {
                t = rng.pick(strs{"1", "0", "5", "300", "-7", "1.5", "true", "x", "abc", "", " 1", "a,b", "\"q\"", "\\e"});
            } else {
                // any bytes: nothing is split anymore
                for (size_t i = rng.below(6); i > 0; --i) t += static_cast<char>(rng.below(256));
            }
            f.push_back(t);
        }
        std::vector<std::unique_ptr<Heap>> held;
        ss::split_data elems;
        str line;
        std::unique_ptr<Heap> whole;
        const bool split = rng.chance(1, 3);
        if (split) {
            // ranges of an other converter
            strs plain;
            for (auto& t : f) plain.push_back(plain_text(t));
            for (auto& t : plain) t.erase(std::remove_if(t.begin(), t.end(), [](char x) { return x == '"' || x == '\\'; }), t.end());
            f = plain;
            for (size_t i = 0; i < f.size(); ++i) line += (i ? "," : "") + f[i];
            if (line.empty()) continue;
            whole = std::make_unique<Heap>(line, true);
            elems = other.split(whole->p);
        } else {
            for (auto& t : f) {
                held.push_back(std::make_unique<Heap>(t));
                elems.emplace_back(held.back()->p, held.back()->p + held.back()->n);
            }
        }
        hist += " given" + show(f);
        auto desc = [&] { return hist; };
        auto texts = [&](auto got, size_t want, const strs& vals) {
            c.feature("conversions of foreign ranges");
            c.feature_if(want != f.size(), "foreign ranges of an other number");
            c.check(got.ok == (want == f.size()), "foreign-outcome", [&] {
                return str{got.ok ? "accepted" : "rejected"} + " as " + std::to_string(want) + " columns " + show(got.msg) + "; " + desc();
            });
            if (got.ok && got.value) c.expect(vals, f, "foreign-values", desc);
        };
        switch (rng.chance(2, 3) ? f.size() : rng.range(1, 5)) {
        case 1: {
            const auto r = reading(conv, [&] { return conv.template convert<string>(elems); });
            texts(r, 1, r.value ? strs{*r.value} : strs{});
            break;
        }
        case 2: {
            const auto r = reading(conv, [&] { return conv.template convert<string, string>(elems); });
            texts(r, 2, r.value ? strs{std::get<0>(*r.value), std::get<1>(*r.value)} : strs{});
            break;
        }
        case 3: {
            const auto r = reading(conv, [&] { return conv.template convert<std::tuple<string, std::string_view, string>>(elems); });
            texts(r, 3, r.value ? strs{std::get<0>(*r.value), str{std::get<1>(*r.value)}, std::get<2>(*r.value)} : strs{});
            break;
        }
        default: {
            // typed
            using R = RowRef<int, optional<double>, variant<bool, string>, string>;
            const auto r = reading(conv, [&] { return conv.template convert<int, optional<double>, variant<bool, string>, string>(elems); });
            const bool want = f.size() == 4 && Ref<int>::accepts(f[0]) == YES;
            c.feature("typed conversions of foreign ranges");
            c.check(r.ok == want, "foreign-outcome", [&] { return show(r.msg) + "; " + desc(); });
            if (r.ok && want) {
                C again;
                const auto r2 = reading(again, [&] { return again.template convert<int, optional<double>, variant<bool, string>, string>(elems); });
                c.check(r2.ok && R::show_row(*r.value) == R::show_row(*r2.value) && std::get<3>(*r.value) == f[3] &&
                            std::get<0>(*r.value) == ref_value<int>(f[0]),
                        "foreign-values", desc);
            }
        }
        }
    }
    c.nontrivial(hash_str(hist));
}

} // namespace

SCENARIO(foreign_ranges, 40) {
    switch (rng.below(6)) {
    case 0: ranges_case<PlainConverter<>>(c, rng, "plain:"); break;
    case 1: ranges_case<TextConverter<>>(c, rng, "text errors:"); break;
    case 2: ranges_case<ThrowConverter<>>(c, rng, "exceptions:"); break;
    case 3: ranges_case<TextConverter<ss::quote<'"'>>>(c, rng, "quote:"); break;
    case 4: ranges_case<PlainConverter<ss::quote<'"'>, ss::escape<'\\'>, ss::trim<' '>, ss::multiline>>(c, rng, "all:"); break;
    default: ranges_case<ThrowConverter<ss::escape<'\\'>>>(c, rng, "escape, exceptions:"); break;
    }
}
