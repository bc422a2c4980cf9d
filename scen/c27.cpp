// C27: both line readers deliver the same lines.
#include "both.hpp"
#include "tracked.hpp"
using namespace h;

namespace {

// lengths around the sizes of the internal buffers
size_t pick_length(Rng& r) {
    static const std::vector<size_t> sizes{0, 1, 2, 63, 126, 127, 128, 129, 254, 255, 256, 380, 381, 382, 383, 508, 509,
                                           510, 511, 512, 635, 762, 1016, 1023, 1024, 2048, 4095, 4096, 4097};
    if (r.chance(1, 200)) return (size_t{1} << r.range(13, r.chance(1, 20) ? 20 : 16)) + r.below(5) - 2;
    switch (r.below(5)) {
    case 0: return r.below(12);
    case 1: return r.below(700);
    case 2: return 127 * r.range(1, 12) + r.below(5) - 2;
    case 3: return (size_t{128} << r.below(6)) + r.below(5) - 2;
    default: return r.pick(sizes);
    }
}

str lines_of(Rng& r) {
    str data;
    for (size_t n = r.range(0, 8); n > 0; --n) {
        const size_t len = pick_length(r);
        const unsigned base = static_cast<unsigned>(r.below(200));
        for (size_t i = 0; i < len; ++i) {
            const char ch = static_cast<char>((base + i * 7) % 255 + 1);
            data += ch == '\n' ? 'n' : ch;
        }
        if (r.chance(1, 4)) data += '\r';
        if (n > 1 || r.chance(1, 2)) data += '\n';
    }
    return data;
}

} // namespace

// the readers alone, against each other and the data
SCENARIO(readers, 100) {
    const str data = lines_of(rng);
    File f{c, data};
    tr::Job j;
    j.kind = tr::Job::READER;
    j.path = f.path;
    j.seed = rng.next();
    j.initial = rng.chance(1, 2) ? 0 : rng.range(1, 300);
    auto desc = [&] {
        str l;
        size_t b = 0;
        while (b < data.size()) {
            const size_t e = data.find('\n', b);
            l += " " + std::to_string((e == str::npos ? data.size() : e + 1) - b);
            b = e == str::npos ? data.size() : e + 1;
        }
        return "lines of sizes" + l + (!data.empty() && data.back() == '\n' ? "" : " (no line break at the end)") +
               ", first buffer of " + std::to_string(j.initial) + " bytes, seed " + std::to_string(j.seed);
    };
    Resources res;
    std::vector<str> want;
    for (size_t b = 0; b < data.size();) {
        const size_t e = data.find('\n', b);
        const size_t n = (e == str::npos ? data.size() : e + 1) - b;
        want.push_back(data.substr(b, n));
        b += n;
        c.feature_if(n > 126, "lines longer than the buffer");
        c.feature_if(n % 127 <= 2, "lines around multiples of the buffer");
        c.feature("lines");
    }
    want.insert(want.end(), 3, "end");
    for (int alt = 0; alt < 2; ++alt) {
        tr::Trace got;
        {
            alloc::Track t;
            alt ? trace_alt(j, got) : trace_main(j, got);
        }
        const bool ok = c.check(got == want, alt ? "portable-reader-differs" : "reader-differs", [&] {
            size_t i = 0;
            while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
            return "line " + std::to_string(i) + " is " + (i < got.size() ? show(got[i], 300) : str{"missing"}) +
                   " instead of " + (i < want.size() ? show(want[i], 300) : str{"nothing"}) + "; " + desc();
        });
        got.clear();
        got.shrink_to_fit();
        if (!res.check(c, desc) || !ok) return;
    }
    c.nontrivial(hash_str(data, j.seed));
    if (rng.chance(1, 60)) c.sample(desc());
}

// parsers of both builds on the same files
SCENARIO(parsers, 60) {
    parser_case(c, rng);
}
SCENARIO(long_lines, 40) {
    const Setup& s = any_setup(rng);
    tr::Job j;
    j.mode = any_mode(rng);
    j.setup = s.name;
    j.delim = ",";
    str data = lines_of(rng);
    for (size_t i = rng.below(20); i > 0 && !data.empty(); --i) {
        static const str marks = ",\",\\\n,,";
        data[rng.below(data.size())] = rng.pick(marks);
    }
    File f{c, data};
    j.path = f.path;
    str text;
    j.calls = convert_calls(make_calls(rng, data, s.cfg, j.delim, 3, 40, 1), text);
    auto desc = [&] { return describe(s, static_cast<Mode>(j.mode), true, ",", data) + ", calls" + text; };
    if (same_traces(c, j, "traces-differ", desc)) {
        c.feature("parser traces");
        c.nontrivial(hash_str(data, hash_str(s.name)));
    }
}
SCENARIO(typed, 20) {
    typed_case(c, rng);
}
