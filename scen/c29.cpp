// C29: a failing allocation is reported and nothing is lost or damaged.
// Every program is run once to count its allocations, then once for every
// allocation with that one failing.
#include "restr.hpp"
#include "tracked.hpp"
#include "twin.hpp"
using namespace h;

namespace {

enum After { DESTROY, MOVE, ASSIGN_FROM, ASSIGN_TO, GO_ON };
const char* const after_name[] = {"destroyed", "moved", "moved into another", "assigned to", "used further"};

constexpr size_t max_points = 600;

// the allocations to fail: all of them, or a sample of many
std::vector<size_t> points(Rng& r, size_t n) {
    std::vector<size_t> v;
    for (size_t i = 0; i < n; ++i) {
        if (n <= max_points || r.chance(max_points, static_cast<unsigned>(n))) v.push_back(i);
    }
    return v;
}

// runs f with the allocations of the harness excepted
template <typename F>
str untracked(F&& f) {
    alloc::Pause p;
    return f();
}

// long enough for strings to be allocated, of all kinds
str long_data(Rng& r, const Cfg& cfg, const str& d, size_t rows) {
    Gen g{r, cfg, d};
    str data;
    for (size_t n = r.range(1, rows); n > 0; --n) {
        strs v = g.values(r.range(1, 4), true);
        for (auto& x : v) {
            if (r.chance(1, 3)) {
                for (size_t k = r.range(10, 40); k > 0; --k) x += static_cast<char>(r.range('a', 'z'));
            }
        }
        Err kind = OK;
        data += r.chance(1, 5) ? g.malformed(r.range(1, 3), kind, r.chance(1, 2)) : g.row(v);
        if (r.chance(1, 12)) data.insert(data.size() / 2, str(r.range(100, 600), 'L'));
        data += n > 1 || r.chance(3, 4) ? (r.chance(1, 4) ? "\r\n" : "\n") : "";
    }
    return data;
}

} // namespace

// --- parsers of all setups ---------------------------------------------------

namespace {

struct Program {
    const Setup& s;
    Mode mode;
    bool file;
    str path, d;
    Exact buf;
    std::vector<Call> calls;
    str text;

    std::unique_ptr<ISut> open() const {
        return std::make_unique<Tracked>([&] { return file ? s.file(mode, path, d) : s.buffer(mode, buf.p, buf.n, d); });
    }
};

// results of the calls from the given one on
void run_calls(ISut& t, const Program& p, size_t from, std::vector<str>& out) {
    for (size_t i = from; i < p.calls.size(); ++i) {
        const Result r = apply(t, p.calls[i]);
        out.push_back(p.calls[i].text() + ": " + show_result(r));
    }
}

// after the call which ran out of memory: a query is given again or left out,
// a reading call has used up its row. Either the parser is at its end, or everything is
// as it would have been.
bool goes_on(Ctx& c, ISut& t, const Program& p, size_t failed, const std::vector<str>& with_it,
             const std::vector<str>* without_it, const std::function<str()>& desc) {
    const auto kind = p.calls[failed].kind;
    const bool reads = kind == Call::NEXT || kind == Call::IGNORE || kind == Call::ITERATE;
    if (t.state().eof) {
        for (size_t i = failed; i < p.calls.size(); ++i) {
            const Result r = apply(t, p.calls[i]);
            const auto k = p.calls[i].kind;
            if (!c.check(t.state().eof && !(k == Call::NEXT && r.ok) && !(k == Call::IGNORE && r.flag) && r.rows.empty(),
                         "row-after-the-end", [&] { return p.calls[i].text() + " gave " + show_result(r) + "; " + desc(); })) {
                return false;
            }
        }
        c.feature("ended by a failure");
        return true;
    }
    std::vector<str> rest;
    // not given again, it had no effect
    const std::vector<str>& base = without_it ? *without_it : with_it;
    const size_t from = reads || without_it ? failed + 1 : failed;
    run_calls(t, p, from, rest);
    c.feature("calls after a failure", rest.size());
    // how far an iteration came is not told
    if (kind == Call::ITERATE) return true;
    // the validity is that of the last call which tells it
    bool told = false;
    auto without = [](const str& t) {
        // of an iteration over nothing, the error of another call as well
        const size_t at = t.compare(0, 7, "iterate") == 0 ? t.find(" rows  line ") : str::npos;
        return t.substr(at == str::npos ? 0 : at, t.rfind(' ') - (at == str::npos ? 0 : at));
    };
    for (size_t i = 0; i < rest.size(); ++i) {
        const auto k = p.calls[from + i].kind;
        told = told || !(k == Call::IGNORE || k == Call::RAW || k == Call::MOVE ||
                        (k == Call::ITERATE && base[from + i].find(" rows  line ") != str::npos));
        if (!c.check(told ? rest[i] == base[from + i] : without(rest[i]) == without(base[from + i]), "wrong-after-a-failure", [&] {
                return "after " + p.calls[failed].text() + " ran out of memory, " + rest[i] + " instead of " + base[from + i] + "; " + desc();
            })) {
            return false;
        }
    }
    c.feature(reads ? "reads gone on behind a failure" : without_it ? "queries left out after a failure" : "queries repeated after a failure");
    return true;
}

} // namespace

SCENARIO(parsers, 100) {
    if (!alloc::active()) return;
    const Setup& s = any_setup(rng);
    const str d = pick_delim(rng, s.cfg);
    const str data = long_data(rng, s.cfg, d, 6);
    Program p{s, any_mode(rng), rng.chance(1, 2), {}, d, Exact{data}, make_calls(rng, data, s.cfg, d, 2, 14, 1), {}};
    std::unique_ptr<File> f;
    if (p.file) {
        f = std::make_unique<File>(c, data);
        p.path = f->path;
    }
    for (auto& x : p.calls) p.text += " " + x.text();
    str at;
    auto desc = [&] { return at + describe(s, p.mode, p.file, d, data) + ", calls" + p.text; };

    // without a failure
    std::vector<str> base;
    size_t total = 0;
    {
        Resources res;
        {
            auto t = p.open();
            if (!c.check(t->open().ok, "open-failed", desc)) return;
            run_calls(*t, p, 0, base);
        }
        total = alloc::count();
        if (!res.check(c, desc)) return;
    }

    for (const size_t n : points(rng, total)) {
        const auto after = static_cast<After>(rng.below(5));
        at = "allocation " + std::to_string(n) + " of " + std::to_string(total) + " failing, then " + after_name[after] +
             "; ";
        Resources res;
        bool good = true;
        {
            std::unique_ptr<ISut> t;
            alloc::fail_at(static_cast<long>(n));
            bool reported = false;
            try {
                t = p.open();
                c.feature_if(alloc::failed(), "failures while opening which were not needed");
            } catch (const std::bad_alloc&) {
                reported = true;
                c.feature("failures reported while opening");
            }
            if (t && !t->open().ok) {
                // only opening the file itself may report it this way
                good = c.check(p.file && alloc::failed() && t->open().msg.find("\n") == str::npos, "not-opened", desc);
                c.feature("files not opened");
                t.reset();
            }
            size_t i = 0;
            for (; t && good && !reported && i < p.calls.size(); ++i) {
                const bool before = alloc::failed();
                try {
                    const Result r = apply(*t, p.calls[i]);
                    // the library or the runtime did without it
                    good = c.check(p.calls[i].text() + ": " + show_result(r) == base[i],
                                   alloc::failed() ? "wrong-result-without-memory" : "wrong-result", [&] {
                                       return "call " + std::to_string(i) + " " + p.calls[i].text() + " gave " +
                                              show_result(r) + " instead of " + base[i] + "; " + desc();
                                   });
                    c.feature_if(alloc::failed() && !before, "failures without effect");
                } catch (const std::bad_alloc&) {
                    good = c.check(alloc::failed() && !before, "reported-without-failure", desc);
                    reported = true;
                    c.feature("failures reported");
                }
            }
            good = c.check(alloc::failed() || total == 0, "failure-not-reached", desc) && good;
            alloc::fail_at(-1);
            if (t && reported && good) {
                // safe whatever is done with it
                c.feature(after_name[after]);
                static_cast<void>(t->state());
                switch (after) {
                case DESTROY: break;
                case MOVE: {
                    t->move_construct();
                    break;
                }
                case ASSIGN_FROM: {
                    auto u = p.open();
                    static_cast<void>(u->next(1));
                    u->take(*t, true);
                    if (rng.chance(1, 2)) t.swap(u);
                    u.reset();
                    break;
                }
                case ASSIGN_TO: {
                    // as good as new with another one's source
                    auto u = p.open();
                    t->take(*u, rng.chance(2, 3));
                    if (rng.chance(1, 2)) u.reset();
                    std::vector<str> again;
                    run_calls(*t, p, 0, again);
                    good = c.check(again == base, "assigned-differs", [&] {
                        size_t k = 0;
                        while (again[k] == base[k]) ++k;
                        return again[k] + " instead of " + base[k] + "; " + desc();
                    });
                    break;
                }
                case GO_ON: {
                    const auto k = p.calls[i - 1].kind;
                    std::vector<str> less;
                    const bool drop = (k == Call::USE || k == Call::EXISTS || k == Call::HEADER) && rng.chance(1, 2);
                    if (drop) {
                        auto u = p.open();
                        for (size_t q = 0; q < p.calls.size(); ++q) {
                            less.push_back(q == i - 1 ? str{} : p.calls[q].text() + ": " + show_result(apply(*u, p.calls[q])));
                        }
                    }
                    good = goes_on(c, *t, p, i - 1, base, drop ? &less : nullptr, desc);
                    break;
                }
                }
            }
        }
        c.feature("failing allocations");
        if (!res.check(c, desc) || !good) return;
    }
    at.clear();
    c.nontrivial(hash_str(data, hash_str(s.name + p.text)));
    if (rng.chance(1, 60)) c.sample(std::to_string(total) + " allocations: " + desc());
}

// --- converters --------------------------------------------------------------

SCENARIO(converters, 30) {
    if (!alloc::active()) return;
    const Setup& s = any_setup(rng);
    const Mode mode = any_mode(rng);
    const str d = pick_delim(rng, s.cfg);
    Gen g{rng, s.cfg, d};
    struct Step {
        str line;
        int k, how;
    };
    std::vector<Step> steps;
    str text;
    for (size_t n = rng.range(1, 5); n > 0; --n) {
        strs v = g.values(rng.range(1, 5), true);
        for (auto& x : v) {
            if (rng.chance(1, 3)) x += str(rng.range(10, 30), 'v');
        }
        Err kind = OK;
        str line = rng.chance(1, 5) ? g.malformed(3, kind, true) : g.row(v);
        line.erase(std::remove(line.begin(), line.end(), '\0'), line.end());
        const Scan sc = scan_row(line, s.cfg, d);
        if (s.cfg.ML && (sc.err == UNTERM_QUOTE || sc.err == UNTERM_ESCAPE)) continue;
        steps.push_back({line, static_cast<int>(rng.chance(1, 6) ? rng.range(1, max_arity) : std::max<size_t>(1, v.size())),
                         static_cast<int>(rng.below(4))});
        text += " " + show(line, 100) + "/" + std::to_string(steps.back().how);
    }
    str at;
    auto desc = [&] {
        return at + "converter, setup " + s.name + ", " + mode_name[mode] + " errors, delimiter " + show(d) + ", lines" +
               text;
    };
    // one step; exceptions pass through
    auto step = [&](std::unique_ptr<IConv>& conv, const Step& x) {
        Heap b{x.line, true};
        Obs o;
        std::vector<std::pair<size_t, size_t>> ranges;
        {
            alloc::Track t;
            switch (x.how) {
            case 0: o = conv->convert(b.p, x.k, d); break;
            case 1:
                o = conv->split(b.p, d, ranges);
                if (!o.threw) o = conv->convert_split(x.k);
                break;
            case 2:
                o = conv->split(b.p, d, ranges);
                if (!o.threw) o = conv->convert_given(x.k);
                break;
            default: {
                auto n = conv->clone();
                conv.swap(n);
                o = conv->convert(b.p, x.k, d);
                n.reset();
            }
            }
        }
        return str{o.ok ? "ok " : "error "} + show(o.msg) + " " + show(o.ok ? o.vals : strs{});
    };
    auto make = [&] {
        alloc::Track t;
        return s.conv(mode);
    };
    auto release = [](std::unique_ptr<IConv>& x) {
        alloc::Track t;
        x.reset();
    };
    std::vector<str> base;
    size_t total;
    {
        Resources res;
        auto conv = make();
        for (auto& x : steps) base.push_back(step(conv, x));
        release(conv);
        total = alloc::count();
        if (!res.check(c, desc)) return;
    }
    for (const size_t n : points(rng, total)) {
        at = "allocation " + std::to_string(n) + " of " + std::to_string(total) + " failing; ";
        Resources res;
        std::unique_ptr<IConv> conv;
        bool reported = false, good = true;
        alloc::fail_at(static_cast<long>(n));
        try {
            conv = make();
        } catch (const std::bad_alloc&) {
            conv = nullptr;
        }
        size_t i = 0;
        for (; conv && good && i < steps.size(); ++i) {
            try {
                const str r = step(conv, steps[i]);
                // a converter starts again with every line
                good = c.expect(r, base[i], "wrong-conversion", [&] {
                    return "line " + std::to_string(i) + ": " + r + " instead of " + base[i] +
                           (reported ? ", after the failure was reported; " : "; ") + desc();
                });
                c.feature_if(reported, "conversions after a failure");
            } catch (const std::bad_alloc&) {
                good = c.check(alloc::failed() && !reported, "reported-without-failure", desc);
                reported = true;
                c.feature("failed conversions");
            }
        }
        good = c.check(alloc::failed() || total == 0, "failure-not-reached", desc) && good;
        c.feature("failing allocations of converters");
        alloc::fail_at(-1);
        if (conv && reported && rng.chance(1, 3)) {
            alloc::Track t;
            auto copy = conv->clone();
            conv.swap(copy);
            copy.reset();
        }
        release(conv);
        if (!res.check(c, desc) || !good) return;
    }
    at.clear();
    c.nontrivial(hash_str(text, hash_str(s.name + d)));
}

// --- typed reads, objects, substitutes, loops, selections --------------------

namespace {

struct Obj {
    int x;
    std::string s;
    std::optional<std::string> o;
    auto tied() {
        return std::tie(x, s, o);
    }
};

str show_obj(const Obj& x) {
    return std::to_string(x.x) + "/" + show(x.s) + "/" + (x.o ? show(*x.o) : str{"-"});
}

// runs one call on the library, the result as text
template <typename P>
str typed_call(P& p, int kind) {
    using std::optional;
    using std::string;
    using std::variant;
    auto row = [&](auto get, auto shown) {
        return untracked([&] {
            const auto r = reading(p, [&] {
                alloc::Track t;
                return get();
            });
            return str{r.ok ? "ok " : "error "} + show(r.msg) + " " + (r.ok && r.value ? shown(*r.value) : str{"-"});
        });
    };
    auto tup = [](const auto& v) {
        return std::apply([](const auto&... x) {
            str t;
            ((t += Ref<std::decay_t<decltype(x)>>::show_value(x) + ";"), ...);
            return t;
        }, v);
    };
    switch (kind) {
    case 0: return row([&] { return p.template get_next<int, string, optional<string>>(); }, tup);
    case 1: return row([&] { return p.template get_next<variant<int, string>, ss::ne<string>, void>(); },
                       [](const auto& v) {
                           return (std::holds_alternative<int>(std::get<0>(v))
                                       ? std::to_string(std::get<int>(std::get<0>(v)))
                                       : show(std::get<string>(std::get<0>(v)))) + ";" + show(std::get<1>(v));
                       });
    case 2: return row([&] { return p.template get_next<ss::ir<int, 0, 100>, string, string>(); }, tup);
    case 3: return row([&] { return p.template get_next<Obj>(); }, show_obj);
    case 4: return row([&] { return p.template get_object<Obj, int, string, optional<string>>(); }, show_obj);
    case 5: return row([&] {
        str t;
        size_t left = 2;
        for (auto& x : p.template iterate<int, string, string>()) {
            untracked([&] { t += tup(x); return str{}; });
            if (--left == 0) break;
        }
        return t;
    }, [](const str& t) { return t; });
    case 6: return row([&] {
        // fields in another order, by name
        p.use_fields("third field of them", "first field of them", "second field of them");
        return 0;
    }, [](int) { return str{}; });
    case 7: return row([&] { return p.header(); }, [](const auto& v) { return show(v); });
    case 8: return row([&] { return p.field_exists("second field of them"); }, [](bool b) { return str{b ? "1" : "0"}; });
    case 9: return row([&] { return p.raw_header(); }, [](const str& t) { return show(t); });
    default:
        if constexpr (P::h_throws) {
            return row([&] { return p.ignore_next(); }, [](bool b) { return str{b ? "1" : "0"}; });
        } else {
            return untracked([&] {
                str t;
                alloc::Track on;
                bool keep = kind == 10;
                auto r = p.template try_next<int, string, string>([&](const auto&) { return keep; })
                             .on_error([&] { untracked([&] { t += "failed "; return str{}; }); })
                             .template or_else<string, string, string>([&](auto&) {})
                             .template or_object<Obj, int, string, optional<string>>()
                             .on_error([&] { untracked([&] { t += "none "; return str{}; }); })
                             .values();
                alloc::Pause off;
                auto& [a, b, o] = r;
                if (a) t += "a " + tup(*a);
                if (b) t += "b " + tup(*b);
                if (o) t += "o " + show_obj(*o);
                return t + (p.valid() ? " valid" : " invalid");
            });
        }
    }
}

template <template <typename...> class Par>
void typed(Ctx& c, Rng& rng) {
    using P = Par<ss::quote<'"'>, ss::escape<'\\'>, ss::trim<' '>, ss::multiline>;
    Cfg cfg = qe_cfg();
    cfg.tl = cfg.tr = " ";
    cfg.ML = true;
    const str d = rng.chance(1, 2) ? "," : "::";
    Gen g{rng, cfg, d};
    str data;
    const bool named = rng.chance(1, 2);
    if (named) data = g.row({"first field of them", "second field of them", "third field of them"}) + "\n";
    for (size_t n = rng.range(1, 5); n > 0; --n) {
        strs v;
        for (size_t k = rng.chance(1, 6) ? 2 : 3; k > 0; --k) {
            v.push_back(rng.chance(1, 2) ? std::to_string(rng.below(200))
                                         : str(rng.range(0, 2), ' ') + str(rng.range(1, 40), 'x') + "\n,y");
        }
        Err kind = OK;
        data += rng.chance(1, 10) ? g.malformed(3, kind, true) : g.row(v);
        data += rng.chance(1, 5) ? "\r\n" : "\n";
    }
    std::vector<int> kinds;
    str text;
    if (named && rng.chance(2, 3)) kinds.push_back(6);
    for (size_t n = rng.range(2, 7); n > 0; --n) kinds.push_back(static_cast<int>(rng.below(13)));
    for (int k : kinds) text += " " + std::to_string(k);
    str at;
    std::unique_ptr<File> f;
    Exact b{data};
    if (rng.chance(1, 3)) f = std::make_unique<File>(c, data);
    auto desc = [&] {
        return at + (P::h_throws ? "throw" : P::h_text ? "string" : "bool") + " errors, delimiter " + show(d) + (f ? ", file " : ", buffer ") +
               show(data, 1500) + ", typed calls" + text;
    };
    auto open = [&](std::optional<P>& p) {
        // given as they are, so that the copies are the library's own
        const str path = f ? f->path : str{};
        alloc::Track t;
        f ? p.emplace(path, d) : p.emplace(b.p, b.n, d);
    };
    auto call = [&](P& p, int kind) {
        return typed_call(p, kind) + " line " + std::to_string(p.line()) + " position " + std::to_string(p.position()) +
               (p.eof() ? " eof" : "");
    };
    auto close = [&](std::optional<P>& p) {
        alloc::Track t;
        p.reset();
    };
    std::vector<str> base;
    size_t total;
    {
        Resources res;
        std::optional<P> p;
        open(p);
        for (int k : kinds) base.push_back(call(*p, k));
        close(p);
        total = alloc::count();
        if (!res.check(c, desc)) return;
    }
    for (const size_t n : points(rng, total)) {
        at = "allocation " + std::to_string(n) + " of " + std::to_string(total) + " failing; ";
        Resources res;
        bool good = true, reported = false;
        {
            std::optional<P> p;
            alloc::fail_at(static_cast<long>(n));
            try {
                open(p);
            } catch (const std::bad_alloc&) {
                reported = true;
            } catch (const ss::exception&) {
                reported = true; // could not be opened
                good = c.check(f && alloc::failed(), "not-opened", desc);
            }
            if (p && !p->valid()) {
                reported = true;
                good = c.check(f && alloc::failed(), "not-opened", desc);
            }
            size_t i = 0;
            for (; p && good && !reported && i < kinds.size(); ++i) {
                try {
                    const str r = call(*p, kinds[i]);
                    good = c.expect(r, base[i], "wrong-typed-result", [&] {
                        return "call " + std::to_string(i) + ": " + r + " instead of " + base[i] + "; " + desc();
                    });
                } catch (const std::bad_alloc&) {
                    reported = true;
                    good = c.check(alloc::failed(), "reported-without-failure", desc);
                    c.feature("failed typed calls");
                }
            }
            alloc::fail_at(-1);
            c.feature("failing allocations of typed reads");
            if (p && good && reported && i > 0) {
                switch (rng.below(4)) {
                case 0: {
                    alloc::Track t;
                    P q{std::move(*p)};
                    break;
                }
                case 1: {
                    std::optional<P> q;
                    open(q);
                    {
                        alloc::Track t;
                        *p = std::move(*q);
                    }
                    close(q);
                    for (size_t k = 0; k < kinds.size() && good; ++k) {
                        good = c.expect(call(*p, kinds[k]), base[k], "assigned-differs", desc);
                    }
                    break;
                }
                case 2:
                {
                    // as in goes_on
                    const int failed = kinds[i - 1];
                    const bool ended = p->eof(), reads = failed < 6 || failed > 9;
                    bool told = false;
                    for (size_t k = reads && !ended ? i : i - 1; k < kinds.size() && good; ++k) {
                        const str r = call(*p, kinds[k]);
                        if (ended) {
                            good = c.check(p->eof() && (kinds[k] > 4 || r.compare(0, 3, "ok ") != 0), "row-after-the-end", [&] {
                                return "call " + std::to_string(k) + ": " + r + "; " + desc();
                            });
                        } else if (failed != 5) {
                            // without the validity of an earlier call
                            told = told || !(kinds[k] == 9 || kinds[k] == 5 || (P::h_throws && kinds[k] > 9));
                            auto shown = [&](const str& t) { return told ? t : t.substr(t.rfind(" line ")); };
                            good = c.expect(shown(r), shown(base[k]), "wrong-after-a-failure", [&] {
                                return "call " + std::to_string(k) + ": " + r + " instead of " + base[k] + ", call " +
                                       std::to_string(i - 1) + " ran out of memory; " + desc();
                            });
                        }
                    }
                    c.feature(ended ? "typed reads ended by a failure" : "typed reads gone on behind a failure");
                    break;
                }
                default:;
                }
            }
            close(p);
        }
        if (!res.check(c, desc) || !good) return;
    }
    at.clear();
    c.nontrivial(hash_str(data, hash_str(text)));
}

} // namespace

SCENARIO(typed, 60) {
    if (!alloc::active()) return;
    switch (rng.below(3)) {
    case 0: typed<PlainParser>(c, rng); break;
    case 1: typed<TextParser>(c, rng); break;
    default: typed<ThrowParser>(c, rng);
    }
}
