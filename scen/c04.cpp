// C04: every row is delivered exactly once and in order, for every length.
#include "run.hpp"
using namespace h;

static size_t boundary_length(Rng& r) {
    static const std::vector<size_t> around = {64,   120,  126,  127,   128,
                                               129,  130,  254,  256,   258,
                                               512,  1024, 2048, 4096,  8192,
                                               384, 640, 16384, 32768, 65536};
    const size_t i = r.chance(1, 8) ? r.below(around.size())
                                    : r.below(r.chance(1, 3) ? 17 : 13);
    const size_t b = around[i];
    return b - std::min<size_t>(b, 4) + r.below(8);
}

// body of a row which identifies the row and each position in it
static str body(size_t index, size_t len, uint64_t salt) {
    str s = "r" + std::to_string(index) + ":";
    uint64_t x = mix(salt + index);
    while (s.size() < len) {
        x = x * 6364136223846793005ull + 1442695040888963407ull;
        s += static_cast<char>('a' + (x >> 59) % 26);
    }
    s.resize(len);
    return s;
}

SCENARIO(lengths, 100) {
    const Setup& s = pick_setup(rng, [](const Cfg& x) { return !x.IH; });
    const Cfg& cfg = s.cfg;
    const str d = pick_delim(rng, cfg);
    Gen g{rng, cfg, d};
    std::vector<strs> rows;
    str data;
    const size_t n = rng.range(1, 12);
    const unsigned style = static_cast<unsigned>(rng.below(3));
    size_t longest = 0;
    for (size_t i = 0; i < n; ++i) {
        strs v;
        const size_t cols = rng.range(1, 3);
        for (size_t k = 0; k < cols; ++k) {
            const size_t len = k > 0 || rng.chance(1, 4) ? rng.below(12)
                                                         : boundary_length(rng);
            str b = body(i * 4 + k, len, rng.next());
            if (!b.empty() && rng.chance(1, 6)) {
                // a carriage return which is data
                b[rng.below(b.size())] = '\r';
            }
            v.push_back(g.legal(b, false));
        }
        str t;
        if (rng.chance(1, 2)) {
            // written as it is, if that is legal
            bool plain = true;
            for (size_t k = 0; k < cols; ++k) {
                bool safe = cfg.const_line() || cfg.esc.empty();
                for (char x : v[k]) safe = safe || !g.is_delim_char(x);
                for (char x : v[k]) {
                    if (g.is_delim_char(x) || cfg.is_tl(x) || cfg.is_tr(x)) {
                        safe = false;
                    }
                }
                plain = plain && safe &&
                        (v[k].empty() || v[k].back() != '\r');
                t += (k ? d : str{}) + v[k];
            }
            if (!plain) {
                t = g.row(v);
            }
        } else {
            t = g.row(v);
        }
        if (t.empty() && cfg.IE) {
            v = {"x"};
            t = "x";
        }
        longest = std::max(longest, t.size());
        rows.push_back(v);
        data += t;
        if (i + 1 < n || t.empty() || rng.chance(1, 2)) {
            data += pick_eol(rng, style);
            c.feature("terminated rows");
        } else {
            c.feature("last rows without a line break");
        }
        c.feature_if(t.size() >= 120 && t.size() <= 136, "lengths around 128");
        c.feature_if(t.size() > 4000, "lengths above 4000");
        c.feature_if(t.find('\r') != str::npos, "rows with carriage returns");
    }
    const Mode mode = any_mode(rng);
    const bool file = rng.chance(1, 2);
    auto desc = [&] {
        str l;
        for (auto& x : split_lines(data)) {
            l += " " + std::to_string(x.text.size()) +
                 (x.eol.empty() ? "" : x.eol.size() == 1 ? "LF" : "CRLF");
        }
        return "line lengths" + l + "; " + describe(s, mode, file, d, data);
    };
    Opened o{c, s, mode, file, data, d};
    for (size_t i = 0; i < rows.size(); ++i) {
        if (!c.check(!o.sut->state().eof, "row-lost", desc)) {
            return;
        }
        Want w;
        w.vals = rows[i];
        const Obs got = o.sut->next(static_cast<int>(rows[i].size()));
        if (!check_read(c, got, w, rows[i].size(), desc)) {
            return;
        }
        c.feature("rows");
    }
    c.check(o.sut->state().eof, "row-invented", desc);
    c.nontrivial(hash_str(data, hash_str(s.name + d)));
    if (rng.chance(1, 200)) c.sample(desc().substr(0, 600));
}

// exactly the line feed and a carriage return in front of it end a line
SCENARIO(line_ends, 60) {
    const Setup& s = pick_setup(rng, [](const Cfg& x) {
        for (char ch : str("\r\x1a\f\v\xff\xfe\xc2\x85\xef\xbb\xbfrx0123456789")) {
            if (x.is_tl(ch) || x.is_tr(ch) || x.is_esc(ch) || (x.Q && x.q == ch)) return false;
        }
        return !x.IH;
    });
    const str d = pick_delim(rng, s.cfg);
    static const strs ends = {"", "", "\r", "\r\r", "\r\r\r", "\x1a", "\f", "\v", "\xff", "\xc2\x85"};
    static const strs starts = {"", "", "", "\r", "\n", "\x1a", "\xef\xbb\xbf", "\xfe\xff"};
    std::vector<strs> rows;
    str data;
    const size_t n = rng.range(1, 6);
    for (size_t i = 0; i < n; ++i) {
        str head = rng.pick(starts);
        if (head == "\n") head = "";
        const bool cr = rng.chance(1, 2), last = i + 1 == n && rng.chance(1, 2);
        strs v{head + "r" + std::to_string(i), str(rng.chance(1, 20) ? rng.below(140) : rng.below(3), 'x') + rng.pick(ends)};
        data += v[0] + d + v[1];
        if (!last) {
            data += cr ? "\r\n" : "\n";
        }
        // one carriage return in front of a line feed belongs to the break
        if (!last && !cr && !v[1].empty() && v[1].back() == '\r') {
            v[1].pop_back();
        }
        c.feature_if(v[1].find('\r') != str::npos, "rows which end with a carriage return");
        c.feature_if(last, "last rows without a line break");
        rows.push_back(v);
    }
    const Mode mode = any_mode(rng);
    const bool file = rng.chance(1, 2);
    auto desc = [&] { return describe(s, mode, file, d, data); };
    Opened o{c, s, mode, file, data, d};
    for (auto& v : rows) {
        if (!c.check(!o.sut->state().eof, "row-lost", desc)) {
            return;
        }
        Want w;
        w.vals = v;
        if (!check_read(c, o.sut->next(2), w, 2, desc)) {
            return;
        }
    }
    c.check(o.sut->state().eof, "row-invented", desc);
    c.nontrivial(hash_str(data, hash_str(s.name + d)));
}

// many rows, counted and identified
SCENARIO(volume, 1) {
    const Setup& s = pick_setup(rng, [](const Cfg& x) { return !x.IH; });
    const str d = ",";
    const size_t n = rng.chance(1, 4) ? rng.range(30000, 60000) : rng.range(2000, 12000);
    const unsigned style = static_cast<unsigned>(rng.below(3));
    str data;
    std::vector<size_t> lens;
    const uint64_t salt = rng.next();
    for (size_t i = 0; i < n; ++i) {
        lens.push_back(rng.chance(1, 40) ? rng.below(3000) : rng.below(40));
        data += "n" + std::to_string(i) + d + body(i, lens.back() + 8, salt);
        if (i + 1 < n || rng.chance(1, 2)) data += pick_eol(rng, style);
    }
    const Mode mode = any_mode(rng);
    const bool file = rng.chance(2, 3);
    Opened o{c, s, mode, file, data, d};
    size_t i = 0;
    while (!o.sut->state().eof) {
        auto desc = [&] {
            return "row " + std::to_string(i) + " of " + std::to_string(n) +
                   ", setup " + s.name + (file ? " file" : " buffer");
        };
        const Obs got = o.sut->next(2);
        if (!c.check(got.ok && i < n, "row-lost-or-invented", desc)) {
            return;
        }
        const strs want = {"n" + std::to_string(i),
                           body(i, lens[i] + 8, salt)};
        if (!c.expect(got.vals, want, "wrong-values", desc)) {
            return;
        }
        ++i;
    }
    c.expect(i, n, "rows-lost", [&] {
        return "read " + std::to_string(i) + " of " + std::to_string(n) +
               " rows, setup " + s.name + (file ? ", file" : ", buffer");
    });
    c.feature("rows", n);
    c.feature("bytes", data.size());
    c.feature_if(data.size() > (1u << 20), "documents above 1 MiB");
    c.nontrivial(hash_str(data));
}
