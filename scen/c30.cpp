// C30: equivalent ways to write a setup, and options which do not matter.
#include "ref.hpp"
#include "spell.hpp"
#include "twin.hpp"
using namespace h;

namespace {

str call_text(const std::vector<Call>& calls) {
    str t;
    for (auto& x : calls) t += " " + x.text();
    return t;
}

// calls on one source, one line per call
strs trace_of(ISut& t, const std::vector<Call>& calls, const str& source) {
    strs out;
    Obs o = t.open();
    out.push_back(str{o.ok ? "open " : "not open "} + o.msg);
    if (!o.ok) return out;
    for (auto& x : calls) {
        Result r = apply(t, x);
        r.msg = without_source(r.msg, source);
        out.push_back(x.text() + ": " + show_result(r));
    }
    return out;
}

strs trace_of(IConv& conv, const strs& lines, const std::vector<int>& arity, const str& d) {
    strs out;
    for (size_t i = 0; i < lines.size(); ++i) {
        Heap b{lines[i], true};
        std::vector<std::pair<size_t, size_t>> ranges;
        Obs o = conv.convert(b.p, arity[i], d);
        str t = str{o.ok ? "ok " : "error "} + show(o.msg) + " " + show(o.vals);
        Heap b2{lines[i], true};
        o = conv.split(b2.p, d, ranges);
        t += " split";
        for (auto& [x, y] : ranges) t += " " + std::to_string(x) + "-" + std::to_string(y);
        if (!o.threw) {
            o = conv.convert_split(arity[i]);
            t += str{o.ok ? " ok " : " error "} + show(o.msg) + " " + show(o.vals);
        } else {
            t += " " + show(o.msg);
        }
        out.push_back(t);
    }
    return out;
}

bool same(Ctx& c, const strs& a, const strs& b, const char* key, const std::function<str()>& desc) {
    for (size_t i = 0; i < std::min(a.size(), b.size()); ++i) {
        if (!c.check(a[i] == b[i], key, [&] { return a[i] + " but " + b[i] + "; " + desc(); })) return false;
    }
    return c.check(a.size() == b.size(), key, desc);
}

} // namespace

// all spellings of a family behave as the first one
SCENARIO(spellings, 100) {
    Family& f = families()[rng.below(families().size())];
    const str d = pick_delim(rng, f.cfg);
    str data = any_data(rng, f.cfg, d);
    const bool file = rng.chance(1, 3);
    std::unique_ptr<File> p;
    Exact b{data};
    if (file) p = std::make_unique<File>(c, data);
    const auto calls = make_calls(rng, data, f.cfg, d, 3, 40, 1);
    strs first;
    for (auto& s : f.spellings) {
        auto t = file ? s.file(p->path, d) : s.buffer(b.p, b.n, d);
        auto got = trace_of(*t, calls, file ? p->path : "CSV data buffer");
        if (&s == &f.spellings[0]) {
            first = got;
            continue;
        }
        c.feature("spellings compared");
        if (!same(c, got, first, "spelling-matters", [&] {
                return s.text + " but " + f.spellings[0].text + ", delimiter " + show(d) + (file ? ", file " : ", buffer ") +
                       show(data, 1500) + ", calls" + call_text(calls);
            })) {
            return;
        }
    }
    c.features["family " + f.name]++;
    c.nontrivial(hash_str(data, hash_str(f.name + d)));
    if (rng.chance(1, 100)) c.sample(f.name + ", delimiter " + show(d) + ", data " + show(data, 300));
}

SCENARIO(converter_spellings, 40) {
    Family& f = families()[rng.below(families().size())];
    const str d = pick_delim(rng, f.cfg);
    Gen g{rng, f.cfg, d};
    strs lines;
    std::vector<int> arity;
    for (size_t n = rng.range(1, 6); n > 0; --n) {
        Err kind = OK;
        const size_t cols = rng.range(1, 5);
        str line = rng.chance(1, 4) ? g.malformed(cols, kind, true) : rng.chance(1, 4) ? g.hostile(rng.below(30)) : g.row(g.values(cols, true));
        line.erase(std::remove(line.begin(), line.end(), '\0'), line.end());
        const Scan sc = scan_row(line, f.cfg, d);
        if (f.cfg.ML && (sc.err == UNTERM_QUOTE || sc.err == UNTERM_ESCAPE)) continue;
        lines.push_back(line);
        arity.push_back(static_cast<int>(rng.chance(1, 6) ? rng.range(1, max_arity) : cols));
    }
    strs first;
    for (auto& s : f.spellings) {
        auto conv = s.conv();
        auto got = trace_of(*conv, lines, arity, d);
        if (&s == &f.spellings[0]) {
            first = got;
            continue;
        }
        c.feature("converter spellings compared");
        if (!same(c, got, first, "converter-spelling-matters", [&] {
                return s.text + " but " + f.spellings[0].text + ", delimiter " + show(d) + ", lines " + show(lines);
            })) {
            return;
        }
    }
    c.nontrivial(hash_str(show(lines), hash_str(f.name + d)));
}

namespace {

// what b has in addition to a; false if b is not an extension of a
struct Extra {
    str chars;
    bool ml = false, ie = false;
    size_t limit = 0; // no row may have more line breaks, if restricted
};

bool extends(const Cfg& a, const Cfg& b, Extra& x) {
    if (a.IH != b.IH) return false;
    if (a.Q && (!b.Q || a.q != b.q)) return false;
    if (!a.Q && b.Q) x.chars += b.q;
    auto more = [&](const str& p, const str& q) {
        for (char ch : p) {
            if (q.find(ch) == str::npos) return false;
        }
        for (char ch : q) {
            if (p.find(ch) == str::npos) x.chars += ch;
        }
        return true;
    };
    if (!more(a.esc, b.esc) || !more(a.tl, b.tl) || !more(a.tr, b.tr)) return false;
    // new options must not take over characters the other one uses for something else
    for (char ch : x.chars) {
        if ((a.Q && ch == a.q) || a.is_esc(ch)) return false;
    }
    if (a.ML && !b.ML) return false;
    x.ml = !a.ML && b.ML;
    if (a.ML && a.limit != b.limit) return false;
    if (a.IE && !b.IE) return false;
    x.ie = !a.IE && b.IE;
    return true;
}

} // namespace

// data which does not use the characters of an option is read the same
SCENARIO(unused_options, 80) {
    static std::vector<std::pair<const Setup*, const Setup*>> pairs;
    if (pairs.empty()) {
        for (auto& a : setups()) {
            for (auto& b : setups()) {
                Extra x;
                if (&a != &b && extends(a.cfg, b.cfg, x)) pairs.push_back({&a, &b});
            }
        }
        c.feature("pairs of setups", pairs.size());
    }
    const auto [a, b] = rng.pick(pairs);
    Extra x;
    extends(a->cfg, b->cfg, x);
    const str d = pick_delim(rng, b->cfg);
    str data = any_data(rng, a->cfg, d);
    {
        str t;
        for (char ch : data) {
            if (x.chars.find(ch) == str::npos) t += ch;
        }
        data = t;
    }
    if (x.ie) {
        // no empty lines
        str t;
        bool start = true;
        for (size_t i = 0; i < data.size(); ++i) {
            if (start && (data[i] == '\n' || (data[i] == '\r' && i + 1 < data.size() && data[i + 1] == '\n'))) t += 'x';
            t += data[i];
            start = data[i] == '\n';
        }
        data = t;
        if (data.empty()) return;
    }
    if (x.ml) {
        // nothing which would continue on the next line
        Model m{data, a->cfg, d};
        while (!m.eof()) {
            const auto err = m.peek().err;
            if (err == UNTERM_QUOTE || err == UNTERM_ESCAPE || escaped_end(m.lines[m.pend].text, a->cfg)) {
                c.feature("skipped: rows which would continue");
                return;
            }
            m.ignore_next();
        }
    }
    const Mode mode = any_mode(rng);
    const bool file = rng.chance(1, 3);
    std::unique_ptr<File> p;
    Exact e{data};
    if (file) p = std::make_unique<File>(c, data);
    const auto calls = make_calls(rng, data, a->cfg, d, 3, 40, 1);
    strs t[2];
    for (int k = 0; k < 2; ++k) {
        const Setup& s = k ? *b : *a;
        auto sut = file ? s.file(mode, p->path, d) : s.buffer(mode, e.p, e.n, d);
        t[k] = trace_of(*sut, calls, file ? p->path : "CSV data buffer");
    }
    c.feature("unused options");
    c.feature_if(x.ml, "unused multiline");
    c.feature_if(x.ie, "unused ignore_empty");
    c.feature_if(!x.chars.empty(), "unused characters");
    if (!same(c, t[0], t[1], "unused-option-matters", [&] {
            return "setups " + a->name + " and " + b->name + ", " + mode_name[mode] + " errors, delimiter " + show(d) +
                   (file ? ", file " : ", buffer ") + show(data, 1500) + ", calls" + call_text(calls);
        })) {
        return;
    }
    c.nontrivial(hash_str(data, hash_str(a->name + b->name + d)));
    if (rng.chance(1, 100)) c.sample(a->name + " and " + b->name + ", delimiter " + show(d) + ", data " + show(data, 300));
}
