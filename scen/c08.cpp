// C08: the error modes differ only in how errors are reported.
#include "restr.hpp"
#include "twin.hpp"
using namespace h;

using std::optional;
using std::string;
using std::variant;

// a user defined type and restriction
struct Word {
    string text;
    bool operator==(const Word& o) const {
        return text == o.text;
    }
};
template <>
inline bool ss::extract(const char* b, const char* e, Word& dst) {
    dst.text.assign(b, e);
    return dst.text.find('!') == string::npos;
}
struct Small {
    bool ss_valid(const Word& w) const {
        return w.text.size() < 4;
    }
    const char* error() const {
        return "word is too long";
    }
};
struct Unnamed {
    bool ss_valid(const Word& w) const {
        return w.text.size() < 3;
    }
};
namespace h {
template <>
struct Ref<Word> {
    static str show_value(const Word& x) {
        return show(x.text, 60);
    }
};
template <>
struct Col<Small> {
    using base = Word;
    static str name() {
        return "small";
    }
};
template <>
struct Col<Unnamed> {
    using base = Word;
    static str name() {
        return "unnamed";
    }
};
template <>
struct Col<Word> {
    using base = Word;
    static str name() {
        return "word";
    }
};
} // namespace h

// typed rows: the parsers and converters of the three modes side by side
template <typename... Ts>
static void typed_case(Ctx& c, Rng& rng, const Hints& hints) {
    Cfg cfg = qe_cfg();
    cfg.ML = true;
    cfg.limit = 2;
    Gen g{rng, cfg, ","};
    str data;
    strs lines;
    // the header has as many columns as the types, or more
    const size_t width = sizeof...(Ts) + (rng.chance(1, 3) ? 1 : 0);
    const bool use = sizeof...(Ts) == 2 && rng.chance(1, 2);
    if (use) {
        data = width == 2 ? "n0,n1\n" : "n0,n1,n2\n";
    }
    for (size_t n = rng.range(1, 6); n > 0; --n) {
        strs f = row_fields(rng, use ? width : sizeof...(Ts), hints);
        for (auto& x : f) x = plain_text(x, '\0');
        Err kind = OK;
        lines.push_back(rng.chance(1, 10) ? g.malformed(f.size(), kind, n > 1) : g.row(f));
        data += lines.back() + "\n";
    }
    using B = PlainParser<ss::quote<'"'>, ss::escape<'\\'>, ss::multiline_restricted<2>>;
    using T = TextParser<ss::quote<'"'>, ss::escape<'\\'>, ss::multiline_restricted<2>>;
    using X = ThrowParser<ss::quote<'"'>, ss::escape<'\\'>, ss::multiline_restricted<2>>;
    Heap mem{data};
    B b{mem.p, mem.n};
    T t{mem.p, mem.n};
    X x{mem.p, mem.n};
    size_t row = 0;
    auto desc = [&] { return "row " + std::to_string(row) + " as " + RowRef<Ts...>::types() + (use ? " of fields n1 and n0" : "") + ", data " + show(data); };
    if (use) {
        b.use_fields("n1", "n0");
        t.use_fields("n1", "n0");
        x.use_fields("n1", "n0");
    }
    auto same = [&](auto& rb, auto& rt, auto& rx) {
        if (!c.check(rb.ok == rt.ok && rt.ok == rx.ok, "modes-differ", desc) ||
            !c.expect(rt.msg, rx.msg, "messages-differ", [&] {
                return "string: " + show(rt.msg) + " exception: " + show(rx.msg) + "; " + desc();
            }) ||
            !c.check(rt.ok == rt.msg.empty(), "message-and-validity", desc)) {
            return false;
        }
        const str vb = RowRef<Ts...>::show_row(*rb.value), vt = RowRef<Ts...>::show_row(*rt.value);
        if (!c.expect(vb, vt, "values-differ", desc)) {
            return false;
        }
        c.feature(rb.ok ? "typed rows which convert" : "typed rows which fail");
        return !rb.ok || c.expect(vb, RowRef<Ts...>::show_row(*rx.value), "values-differ", desc);
    };
    while (!b.eof()) {
        if (!c.check(!t.eof() && !x.eof(), "modes-differ", desc)) return;
        const auto rb = reading(b, [&] { return b.template get_next<Ts...>(); });
        const auto rt = reading(t, [&] { return t.template get_next<Ts...>(); });
        const auto rx = reading(x, [&] { return x.template get_next<Ts...>(); });
        if (!same(rb, rt, rx)) return;
        if (!c.check(b.line() == t.line() && t.line() == x.line() && b.position() == t.position() &&
                         t.position() == x.position(), "state-differs", desc)) {
            return;
        }
        ++row;
    }
    if (!c.check(t.eof() && x.eof(), "modes-differ", desc)) return;
    if (!use) {
        PlainConverter<ss::quote<'"'>, ss::escape<'\\'>> cb;
        TextConverter<ss::quote<'"'>, ss::escape<'\\'>> ct;
        ThrowConverter<ss::quote<'"'>, ss::escape<'\\'>> cx;
        row = 0;
        for (auto& l : lines) {
            str l1 = l, l2 = l, l3 = l;
            const auto rb = reading(cb, [&] { return cb.template convert<Ts...>(l1.data()); });
            const auto rt = reading(ct, [&] { return ct.template convert<Ts...>(l2.data()); });
            const auto rx = reading(cx, [&] { return cx.template convert<Ts...>(l3.data()); });
            if (!same(rb, rt, rx)) return;
            ++row;
        }
    }
    c.nontrivial(hash_str(data, hash_str(RowRef<Ts...>::types())));
}

SCENARIO(typed, 100) {
    const Hints hs{{"0", "1", "-1", "7", "11", "x", "abc", "", "1.5", "!", "a!", "true", "99999999999", "c", "300", "-129", "nan", "1e999"}};
    switch (rng.below(14)) {
    case 0: typed_case<int, ss::ir<int, 0, 10>>(c, rng, hs); break;
    case 1: typed_case<ss::ne<string>, ss::ax<char, 'a', 'c'>>(c, rng, hs); break;
    case 2: typed_case<ss::nx<int, 0, 1>, void, ss::oor<int, 0, 10>>(c, rng, hs); break;
    case 3: typed_case<optional<int>, variant<int, double>>(c, rng, hs); break;
    case 4: typed_case<ss::gt<double, 0>, bool>(c, rng, hs); break;
    case 5: typed_case<Word, Small>(c, rng, hs); break;
    case 6: typed_case<Small, Unnamed, void>(c, rng, hs); break;
    case 7: typed_case<ss::lte<short, 7>, ss::gte<unsigned short, 7>>(c, rng, hs); break;
    case 8: typed_case<ss::int8, ss::uint8>(c, rng, hs); break;
    case 9: typed_case<float>(c, rng, hs); break;
    case 10: typed_case<Unnamed>(c, rng, hs); break;
    case 11: typed_case<ss::lt<long, 7l>, unsigned char>(c, rng, hs); break;
    case 12: typed_case<variant<bool, char>, string, optional<double>>(c, rng, hs); break;
    default: typed_case<unsigned long long, signed char>(c, rng, hs); break;
    }
}

SCENARIO(same_outcome, 100) {
    const Setup& s = any_setup(rng);
    const str used = pick_delim(rng, s.cfg);
    const str data = any_data(rng, s.cfg, used);
    // an iteration is stopped by the first exception, so it is left out
    const auto calls = make_calls(rng, data, s.cfg, used, 3, 30, 0, false);
    // without a delimiter every row and every header is an error
    const str d = rng.chance(1, 60) ? "" : used;
    c.feature_if(d.empty(), "sources without a delimiter");
    const bool file = rng.chance(1, 4);
    str hist;
    auto desc = [&] {
        return describe(s, BOOL, file, d, data) + ", calls" + hist;
    };
    Opened b{c, s, BOOL, file, data, d, "b.csv"};
    Opened t{c, s, STRING, file, data, d, "t.csv"};
    Opened x{c, s, THROW, file, data, d, "x.csv"};
    for (auto& call : calls) {
        hist += " " + call.text();
        Result rb = apply(*b.sut, call), rt = apply(*t.sut, call),
               rx = apply(*x.sut, call);
        const str mt = without_source(rt.msg, t.source_name),
                  mx = without_source(rx.msg, x.source_name);
        if (!c.expect(mt, mx, "messages-differ", [&] {
                return "string: " + show(mt) + " exception: " + show(mx) +
                       "; " + desc();
            })) {
            return;
        }
        if (!c.check(rt.ok == rt.msg.empty(), "message-and-validity", desc)) {
            return;
        }
        // validity is the one of the last call
        const bool sticky = call.kind == Call::RAW || call.kind == Call::IGNORE;
        if (!sticky &&
            !c.check(rb.st.valid == rb.ok && rt.st.valid == rt.ok && rx.st.valid,
                     "validity", desc)) {
            return;
        }
        if (!c.expect(rb.st.valid, rt.st.valid, "validity-differs", desc)) {
            return;
        }
        for (auto* r : {&rb, &rt, &rx}) {
            r->msg.clear();
            r->st.valid = true;
        }
        const str p = show_result(rb), q = show_result(rt), u = show_result(rx);
        if (!c.check(p == q && q == u, "modes-differ", [&] {
                return "bool: " + p + " string: " + q + " exceptions: " + u +
                       "; " + desc();
            })) {
            return;
        }
        c.feature(rb.ok ? "calls which succeeded" : "calls which failed");
    }
    c.nontrivial(hash_str(data + hist, hash_str(s.name + d)));
    if (rng.chance(1, 60)) c.sample(desc());
}

// sources which cannot be opened
SCENARIO(not_opened, 2) {
    const Setup& s = any_setup(rng);
    const bool file = rng.chance(1, 2);
    const str path = c.scratch + "/missing-" + std::to_string(rng.below(100));
    auto open = [&](Mode m) {
        return file ? s.file(m, path, ",") : s.buffer(m, nullptr, 0, ",");
    };
    auto b = open(BOOL), t = open(STRING), x = open(THROW);
    auto desc = [&] {
        return (file ? str{"missing file"} : str{"null buffer"}) + ", setup " +
               s.name;
    };
    if (!c.check(!b->open().ok && !t->open().ok && x->open().threw,
                 "not-opened-accepted", desc)) {
        return;
    }
    c.expect(t->open().msg, x->open().msg, "messages-differ", desc);
    c.check(b->state().eof && t->state().eof, "not-opened-eof", desc);
    // reading fails too and nothing is invented
    const Obs rb = b->next(1), rt = t->next(1);
    c.check(!rb.ok && !rt.ok && rb.vals == strs{""} && rt.vals == strs{""},
            "read-without-source", desc);
    c.feature("sources which cannot be opened");
    c.nontrivial(hash_str(path + s.name));
}

// the same for converters
SCENARIO(converters, 60) {
    const Setup& s = any_setup(rng);
    const str d = rng.chance(1, 40) ? "" : pick_delim(rng, s.cfg);
    Gen g{rng, s.cfg, d.empty() ? "," : d};
    auto b = s.conv(BOOL), t = s.conv(STRING), x = s.conv(THROW);
    str hist;
    for (size_t i = rng.range(1, 5); i > 0; --i) {
        Err kind = OK;
        str line = rng.chance(1, 3)   ? g.malformed(rng.range(1, 3), kind, false)
                   : rng.chance(1, 2) ? g.row(g.values(rng.range(1, 4), true))
                                      : g.hostile(rng.below(12));
        if (s.cfg.ML) {
            // what is left open is only decided by a parser
            Scan sc = scan_row(line, s.cfg, d.empty() ? "," : d);
            if (sc.err == UNTERM_ESCAPE || sc.err == UNTERM_QUOTE) continue;
        }
        const int k = static_cast<int>(
            std::min<size_t>(max_arity, std::max<size_t>(1,
                rng.chance(1, 4) ? rng.range(1, 4)
                                 : scan_row(line, s.cfg, d.empty() ? "," : d)
                                       .fields.size())));
        hist += " " + show(line) + "/" + std::to_string(k);
        auto desc = [&] {
            return "converter " + s.name + ", delimiter " + show(d) +
                   ", lines" + hist;
        };
        str l1 = line, l2 = line, l3 = line;
        const Obs rb = b->convert(l1.data(), k, d);
        const Obs rt = t->convert(l2.data(), k, d);
        const Obs rx = x->convert(l3.data(), k, d);
        if (!c.check(rb.ok == rt.ok && rt.ok == rx.ok, "modes-differ", desc) ||
            !c.expect(rt.msg, rx.msg, "messages-differ", desc) ||
            !c.check(rt.ok == rt.msg.empty(), "message-and-validity", desc)) {
            return;
        }
        if (!c.expect(rb.vals, rt.vals, "values-differ", desc)) {
            return;
        }
        if (rb.ok && !c.expect(rb.vals, rx.vals, "values-differ", desc)) {
            return;
        }
        c.feature(rb.ok ? "conversions" : "failed conversions");
    }
    c.nontrivial(hash_str(hist, hash_str(s.name + d)));
}
