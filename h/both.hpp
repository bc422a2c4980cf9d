// Random jobs on both builds of the library, traces compared.
#pragma once
#include "restr.hpp"
#include "trace.hpp"
#include "twin.hpp"

namespace h {

inline bool same_traces(Ctx& c, const tr::Job& job, const char* key, const std::function<str()>& desc) {
    tr::Trace a, b;
    trace_main(job, a);
    trace_alt(job, b);
    for (size_t i = 0; i < std::min(a.size(), b.size()); ++i) {
        ++c.events;
        if (a[i] != b[i]) {
            c.fail(key, "step " + std::to_string(i) + ": " + a[i] + " but " + b[i] + "; " + desc());
            return false;
        }
    }
    return c.check(a.size() == b.size(), key, [&] {
        return "different numbers of results: " + std::to_string(a.size()) + " and " + std::to_string(b.size()) +
               "; " + desc();
    });
}

inline std::vector<tr::Call> convert_calls(const std::vector<Call>& calls, str& text) {
    std::vector<tr::Call> out;
    for (auto& x : calls) {
        text += " " + x.text();
        tr::Call y;
        y.kind = x.kind;
        y.k = x.k;
        y.max = x.max;
        y.names = x.names;
        out.push_back(y);
    }
    return out;
}

// any setup, mode, source and calls
inline void parser_case(Ctx& c, Rng& rng, bool nul = false) {
    const Setup& s = any_setup(rng);
    const Mode mode = any_mode(rng);
    const str d = pick_delim(rng, s.cfg);
    str data = any_data(rng, s.cfg, d);
    if (rng.chance(1, 6)) {
        data.insert(rng.below(data.size() + 1), str(rng.range(60, 700), 'L'));
    }
    if (!nul) data.erase(std::remove(data.begin(), data.end(), '\0'), data.end());
    tr::Job j;
    str text;
    j.calls = convert_calls(make_calls(rng, data, s.cfg, d, 3, 40, 1), text);
    j.setup = s.name;
    j.mode = mode;
    j.delim = d;
    const bool file = rng.chance(1, 2);
    std::unique_ptr<File> f;
    Exact b{data};
    if (file) {
        f = std::make_unique<File>(c, data);
        j.path = f->path;
    } else {
        j.data = b.p;
        j.size = b.n;
    }
    auto desc = [&] { return describe(s, mode, file, d, data) + ", calls" + text; };
    if (same_traces(c, j, "traces-differ", desc)) {
        c.feature("parser traces");
        c.feature("calls", j.calls.size());
        c.nontrivial(hash_str(data, hash_str(s.name + d)));
        if (rng.chance(1, 60)) c.sample(desc());
    }
}

inline void converter_case(Ctx& c, Rng& rng) {
    const Setup& s = any_setup(rng);
    tr::Job j;
    j.kind = tr::Job::CONVERTER;
    j.mode = any_mode(rng);
    j.setup = s.name;
    j.delim = pick_delim(rng, s.cfg);
    Gen g{rng, s.cfg, j.delim};
    str text;
    for (size_t n = rng.range(1, 8); n > 0; --n) {
        Err kind = OK;
        const size_t cols = rng.range(1, 5);
        str line = rng.chance(1, 4)   ? g.malformed(cols, kind, true)
                   : rng.chance(1, 5) ? g.hostile(rng.below(30))
                                      : g.row(g.values(cols, true));
        line.erase(std::remove(line.begin(), line.end(), '\0'), line.end());
        const Scan sc = scan_row(line, s.cfg, j.delim);
        if (s.cfg.ML && (sc.err == UNTERM_QUOTE || sc.err == UNTERM_ESCAPE)) continue;
        tr::Call x;
        x.k = static_cast<int>(rng.chance(1, 8) ? rng.range(1, max_arity) : cols);
        j.calls.push_back(x);
        j.lines.push_back(line);
        text += " " + show(line, 100);
    }
    auto desc = [&] { return str{"converter, setup "} + s.name + ", " + mode_name[j.mode] + " errors, lines" + text; };
    if (same_traces(c, j, "conversions-differ", desc)) {
        c.feature("converted lines", j.lines.size());
        c.nontrivial(hash_str(text, hash_str(s.name)));
    }
}

// a field both back ends of floating points have to agree on
inline str agreed_field(Rng& r) {
    static const strs pool{"1", "0", "5", "12", "300", "-7", "1.5", "2e3", "true", "false", "x", "abc", "", "1.5x",
                           "9", "-0", "-0.0", "1e-3", ".5", "5.", "a\"b", "a,b", "99999999999", "1e", "e1", "0x1p3",
                           "+1", "-", "1e5", "00012", "1 ", " 1", "\t1", "1\n2", "0.1", "16777217", "9007199254740993"};
    switch (r.below(4)) {
    case 0: {
        char b[200];
        double v;
        const uint64_t bits = r.next();
        std::memcpy(&v, &bits, sizeof(v));
        // values of both types, in the range of normal floats
        if (!(v > 1e-30 && v < 1e30) && !(v < -1e-30 && v > -1e30)) v = static_cast<double>(r.next()) / 4096;
        std::snprintf(b, sizeof(b), r.chance(1, 2) ? "%.*g" : "%.*e", static_cast<int>(r.range(1, 60)), v);
        return b;
    }
    case 1:
        return std::to_string(static_cast<int64_t>(r.next()) >> r.below(60));
    default:
        return r.pick(pool);
    }
}

inline void typed_case(Ctx& c, Rng& rng) {
    Cfg cfg = qe_cfg();
    cfg.tl = cfg.tr = " ";
    cfg.ML = true;
    tr::Job j;
    j.kind = tr::Job::TYPED;
    j.mode = any_mode(rng);
    j.delim = rng.chance(1, 2) ? "," : rng.chance(1, 2) ? "::" : "\t";
    j.seed = rng.next();
    Gen g{rng, cfg, j.delim};
    str data;
    const bool fields = rng.chance(1, 4);
    if (fields) {
        data = g.row({"a", "b", "c", "d"}) + "\n";
        tr::Call x;
        x.names = {"c", "a", "b"};
        if (rng.chance(1, 3)) x.names.pop_back();
        j.calls.push_back(x);
    }
    for (size_t n = rng.range(1, 10); n > 0; --n) {
        Err kind = OK;
        strs f;
        for (size_t k = fields ? (rng.chance(1, 10) ? 3 : 4) : rng.chance(1, 8) ? 1 : rng.range(2, 4); k > 0; --k) {
            f.push_back(agreed_field(rng));
        }
        data += rng.chance(1, 12) ? g.malformed(3, kind, true) : g.row(f);
        data += rng.chance(1, 5) ? "\r\n" : "\n";
    }
    std::unique_ptr<File> f;
    Exact b{data};
    if (rng.chance(1, 3)) {
        f = std::make_unique<File>(c, data);
        j.path = f->path;
    } else {
        j.data = b.p;
        j.size = b.n;
    }
    auto desc = [&] { return str{mode_name[j.mode]} + " errors, delimiter " + show(j.delim) + ", data " + show(data, 1500); };
    if (same_traces(c, j, "typed-traces-differ", desc)) {
        c.feature("typed traces");
        c.nontrivial(hash_str(data, j.seed));
        if (rng.chance(1, 60)) c.sample(desc());
    }
}

} /* namespace h */
