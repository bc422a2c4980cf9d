// C32: exceptions of user code reach the caller as they are, and reading goes on
// with the row behind the one being read.
#include "restr.hpp"
using namespace h;

using std::string;

namespace {

struct Boom {
    str text;
};
struct Other_error : std::runtime_error {
    using std::runtime_error::runtime_error;
};

[[noreturn]] void raise(const str& t) {
    if (t.find("?s") != str::npos) throw ss::exception{t};
    if (t.find("?r") != str::npos) throw Other_error{t};
    throw Boom{t};
}

// what left a call
struct Left {
    enum Kind { NOTHING, BOOM, RUNTIME, SSP } kind = NOTHING;
    str text;
};

template <typename F>
Left leaving(F&& f) {
    try {
        f();
        return {};
    } catch (const Boom& e) {
        return {Left::BOOM, e.text};
    } catch (const Other_error& e) {
        return {Left::RUNTIME, e.what()};
    } catch (const ss::exception& e) {
        return {Left::SSP, e.what()};
    }
}

} // namespace

// accepts, rejects ('!') or throws ('?')
struct Mine {
    str text;
};
template <>
inline bool ss::extract(const char* b, const char* e, Mine& dst) {
    dst.text.assign(b, e);
    if (dst.text.find('?') != str::npos) raise(dst.text);
    return dst.text.find('!') == str::npos;
}

// the same as a restriction of strings
struct Checked {
    bool ss_valid(const string& t) const {
        if (t.find('?') != str::npos) raise(t);
        return t.find('!') == str::npos;
    }
};

// an object whose constructor throws
struct Built {
    str a, b;
    Built() = default;
    Built(const string& x, const string& y) : a{x}, b{y} {
        if (x.find('?') != str::npos) raise(x);
        if (y.find('?') != str::npos) raise(y);
    }
};

struct Pair {
    str a, b;
};

namespace {

struct Row {
    enum Kind { FINE, REJECTED, THROWS, UNREADABLE } kind = FINE;
    strs f;
    str what; // text of the exception
};

str marker(Rng& r) {
    static const strs pool{"?", "?s", "?r"};
    return r.pick(pool);
}

str plain_field(Rng& r) {
    static const strs pool{"a", "b c", "", "12", "x,y", "q\"q", "l\nm", "long enough to be allocated somewhere", "e\\e", " t "};
    return r.pick(pool);
}

template <template <typename...> class Par>
void rows(Ctx& c, Rng& rng) {
    using P = Par<ss::quote<'"'>, ss::escape<'\\'>, ss::multiline>;
    Cfg cfg = qe_cfg();
    cfg.ML = true;
    Gen g{rng, cfg, ","};
    std::vector<Row> rows;
    str data;
    for (size_t n = rng.range(1, 9); n > 0; --n) {
        Row x;
        const size_t w = rng.below(10);
        x.f = {plain_field(rng) + "u", plain_field(rng)};
        const size_t at = rng.below(2);
        if (w < 3) {
            x.kind = Row::THROWS;
            x.f[at] += marker(rng) + plain_field(rng);
            x.what = x.f[at];
        } else if (w < 5) {
            x.kind = Row::REJECTED;
            x.f[at] += "!";
        } else if (w < 6) {
            x.kind = Row::UNREADABLE;
            data += "\"a\"b,c\n";
            rows.push_back(x);
            continue;
        }
        data += g.row(x.f) + (rng.chance(1, 4) ? "\r\n" : "\n");
        rows.push_back(x);
    }
    if (rng.chance(1, 6)) {
        data.pop_back();
        if (data.back() == '\r') data.pop_back();
    }
    std::unique_ptr<File> f;
    Heap b{data};
    if (rng.chance(1, 3)) f = std::make_unique<File>(c, data);
    str text;
    auto desc = [&] {
        return str{P::h_throws ? "throw" : P::h_text ? "string" : "bool"} + " errors, " + (f ? "file " : "buffer ") +
               show(data, 1500) + ", calls" + text;
    };
    auto open = [&](std::optional<P>& p) { f ? p.emplace(f->path) : p.emplace(b.p, b.n); };
    std::optional<P> sut, twin;
    open(sut);
    open(twin);
    auto same_state = [&] {
        P &p = *sut, &q = *twin;
        return c.check(p.line() == q.line() && p.position() == q.position() && p.eof() == q.eof(), "state-after-exception", [&] {
            return "line " + std::to_string(p.line()) + " position " + std::to_string(p.position()) + (p.eof() ? " eof" : "") +
                   " instead of line " + std::to_string(q.line()) + " position " + std::to_string(q.position()) +
                   (q.eof() ? " eof; " : "; ") + desc();
        });
    };
    // row the twin passes with plain reads
    auto pass = [&] {
        static_cast<void>(reading(*twin, [&] { return twin->template get_next<string, string>(); }));
    };
    auto expect_left = [&](const Left& l, const str& what, bool decorated) {
        auto shown = [&] { return "exception " + std::to_string(l.kind) + " " + show(l.text) + " for " + show(what) + "; " + desc(); };
        const Left::Kind k = what.find("?s") != str::npos ? Left::SSP : what.find("?r") != str::npos ? Left::RUNTIME : Left::BOOM;
        c.feature(k == Left::SSP ? "exceptions of the library's type" : "exceptions of other types");
        if (!c.check(l.kind == k, "wrong-exception", shown)) return false;
        if (decorated && k == Left::SSP) {
            return c.check(l.text.find(what) != str::npos, "wrong-exception-text", shown);
        }
        return c.check(l.text == what, "wrong-exception-text", shown);
    };
    // one read of row x: what left it, what it showed
    auto one = [&](const Row& x, const str& thrown, bool decorated, bool good, const str& shown, auto&& read) {
        bool valid = false;
        str got;
        const Left l = leaving([&] {
            got = read();
            valid = sut->valid();
        });
        pass();
        if (!same_state()) return false;
        if (!thrown.empty()) {
            c.feature("rows left by exceptions");
            return expect_left(l, thrown, decorated);
        }
        auto text = [&] { return "read " + (valid ? got : "error " + l.text) + " of " + show(x.f) + "; " + desc(); };
        if (!good) {
            c.feature("rows with errors");
            if (P::h_throws) return c.check(l.kind == Left::SSP, "no-error", text);
            return c.check(l.kind == Left::NOTHING && !valid, "no-error", text);
        }
        c.feature("rows read");
        return c.check(l.kind == Left::NOTHING && valid && got == shown, "wrong-row", text);
    };
    size_t i = 0;
    while (i < rows.size()) {
        const Row& x = rows[i];
        P& p = *sut;
        if (rng.chance(1, 10)) {
            P q{std::move(p)};
            sut.emplace(std::move(q));
            text += " move";
            continue;
        }
        const bool fine = x.kind == Row::FINE || x.kind == Row::THROWS;
        const str thrown = x.kind == Row::THROWS ? x.what : str{};
        const size_t form = rng.below(P::h_throws ? 7 : 11);
        text += " " + std::to_string(form);
        const str both = x.f[0] + "|" + x.f[1];
        bool ok = true;
        ++i;
        switch (form) {
        case 0:
            ok = one(x, thrown, P::h_throws, fine, both, [&] {
                auto [a, b] = p.template get_next<Mine, Mine>();
                return a.text + "|" + b.text;
            });
            break;
        case 1:
            ok = one(x, thrown, P::h_throws, fine, both, [&] {
                auto [a, b] = p.template get_next<Checked, Checked>();
                return a + "|" + b;
            });
            break;
        case 2:
            ok = one(x, thrown, false, x.kind != Row::UNREADABLE, both, [&] {
                auto o = p.template get_object<Built, string, string>();
                return o.a + "|" + o.b;
            });
            break;
        case 3:
            ok = one(x, thrown, P::h_throws, x.kind != Row::UNREADABLE, both, [&] {
                auto [a, b] = p.template get_next<std::optional<Mine>, std::variant<Mine, string>>();
                return (a ? a->text : x.f[0]) +
                       "|" + (std::holds_alternative<Mine>(b) ? std::get<Mine>(b).text : std::get<string>(b));
            });
            break;
        case 4:
        case 5: {
            // a loop, left by its body, by a conversion or at its end
            const size_t max = rng.range(1, 5);
            const bool body = rng.chance(1, 3);
            const str mark = "?s body"; // not decorated
            size_t seen = 0, want = 0;
            bool good = true;
            str expected;
            size_t used = 0; // rows which are used up
            bool library = false;
            for (size_t k = i - 1; k < rows.size(); ++k) {
                ++used;
                if (rows[k].kind == Row::THROWS) {
                    expected = rows[k].what;
                    break;
                }
                if (P::h_throws && rows[k].kind != Row::FINE) {
                    library = true;
                    break;
                }
                ++want;
                if (want == max) {
                    if (body) expected = mark;
                    break;
                }
            }
            const Left l = leaving([&] {
                for (const auto& [a, b] : p.template iterate<Mine, Mine>()) {
                    const Row& y = rows[i - 1 + seen];
                    ++seen;
                    const bool valid = p.valid();
                    good = good && valid == (y.kind == Row::FINE);
                    if (valid) good = good && a.text == y.f[0] && b.text == y.f[1];
                    if (seen == max) {
                        if (body) raise(mark);
                        break;
                    }
                }
            });
            text += "(" + std::to_string(used) + ")";
            i += used - 1;
            for (size_t k = used; k > 0; --k) pass();
            c.feature("loops");
            ok = same_state() && c.check(good && seen == want, "wrong-rows-in-loop", [&] {
                return std::to_string(seen) + " rows instead of " + std::to_string(want) + "; " + desc();
            });
            if (ok && !expected.empty()) {
                c.feature("loops left by exceptions");
                ok = expect_left(l, expected, P::h_throws && expected != mark);
            } else if (ok) {
                ok = c.check(l.kind == (library ? Left::SSP : Left::NOTHING), "wrong-exception", desc);
            }
            break;
        }
        case 6: {
            const Left l = leaving([&] { static_cast<void>(p.ignore_next()); });
            static_cast<void>(twin->ignore_next());
            ok = c.check(l.kind == Left::NOTHING, "exception-of-ignored", desc) && same_state();
            break;
        }
        default:
            if constexpr (!P::h_throws) {
                // a chain whose callbacks may throw
                bool t[4];
                for (auto& y : t) y = rng.chance(1, 4);
                static const strs marks{"? first callback", "?r first error", "?s second callback", "? second error"};
                str want = thrown;
                if (want.empty()) {
                    if (x.kind == Row::FINE) {
                        want = t[0] ? marks[0] : str{};
                    } else if (t[1]) {
                        want = marks[1];
                    } else if (x.kind == Row::REJECTED) {
                        want = t[2] ? marks[2] : str{};
                    } else {
                        want = t[3] ? marks[3] : str{};
                    }
                }
                auto maybe = [&](int k) {
                    if (t[k]) raise(marks[static_cast<size_t>(k)]);
                };
                c.feature("chains");
                ok = one(x, want, false, x.kind != Row::UNREADABLE, both, [&]() -> str {
                    if (form < 9) {
                        auto [a, b] = p.template try_next<Mine, Mine>([&](auto&&...) { maybe(0); })
                                          .on_error([&] { maybe(1); })
                                          .template or_else<string, string>([&](auto&&...) { maybe(2); })
                                          .on_error([&] { maybe(3); })
                                          .values();
                        if (a) return std::get<0>(*a).text + "|" + std::get<1>(*a).text;
                        return b ? std::get<0>(*b) + "|" + std::get<1>(*b) : str{"none"};
                    }
                    auto [a, b] = p.template try_next<Checked, Checked>([&](auto&&...) { maybe(0); return true; })
                                      .on_error([&] { maybe(1); })
                                      .template or_object<Pair, string, string>([&](const Pair&) { maybe(2); })
                                      .on_error([&] { maybe(3); })
                                      .values();
                    if (a) return std::get<0>(*a) + "|" + std::get<1>(*a);
                    return b ? b->a + "|" + b->b : str{"none"};
                });
            }
        }
        if (!ok) return;
    }
    if (!c.check(sut->eof(), "rows-left", desc)) return;
    c.nontrivial(hash_str(data, hash_str(text)));
    if (rng.chance(1, 200)) c.sample(desc());
}

template <template <typename...> class Conv>
void lines(Ctx& c, Rng& rng) {
    using C = Conv<ss::quote<'"'>, ss::escape<'\\'>>;
    const Cfg cfg = qe_cfg();
    Gen g{rng, cfg, ","};
    C conv;
    str text;
    auto desc = [&] { return str{C::h_throws ? "throw" : C::h_text ? "string" : "bool"} + " errors, lines" + text; };
    for (size_t n = rng.range(2, 8); n > 0; --n) {
        strs f{plain_field(rng) + "u", plain_field(rng)};
        const size_t w = rng.below(3), at = rng.below(2);
        str what;
        if (w == 0) {
            f[at] += marker(rng) + plain_field(rng);
            what = f[at];
        } else if (w == 1) {
            f[at] += "!";
        }
        Heap b{g.row(f), true};
        text += " " + show(str{b.p});
        str got;
        bool valid = false;
        const Left l = leaving([&] {
            if (rng.chance(1, 2)) {
                auto [x, y] = conv.template convert<Mine, Mine>(b.p);
                got = x.text + "|" + y.text;
            } else {
                auto [x, y] = conv.template convert<Checked, Checked>(b.p);
                got = x + "|" + y;
            }
            valid = conv.valid();
        });
        bool ok;
        if (w == 0) {
            c.feature("lines left by exceptions");
            const Left::Kind k = what.find("?s") != str::npos   ? Left::SSP
                                 : what.find("?r") != str::npos ? Left::RUNTIME
                                                                : Left::BOOM;
            ok = c.check(l.kind == k && l.text.find(what) != str::npos, "wrong-exception", desc);
        } else if (w == 1) {
            ok = c.check(C::h_throws ? l.kind == Left::SSP : !valid, "no-error", desc);
        } else {
            ok = c.check(valid && got == f[0] + "|" + f[1], "wrong-row", [&] { return "converted " + got + "; " + desc(); });
        }
        if (!ok) return;
    }
    c.nontrivial(hash_str(text));
}

} // namespace

SCENARIO(rows, 100) {
    switch (rng.below(3)) {
    case 0: rows<PlainParser>(c, rng); break;
    case 1: rows<TextParser>(c, rng); break;
    default: rows<ThrowParser>(c, rng);
    }
}
SCENARIO(lines, 30) {
    switch (rng.below(3)) {
    case 0: lines<PlainConverter>(c, rng); break;
    case 1: lines<TextConverter>(c, rng); break;
    default: lines<ThrowConverter>(c, rng);
    }
}
