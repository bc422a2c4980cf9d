// Workload generators. Well-formed rows are correct by construction: the value
// is chosen first and then written in one of its legal encodings.
#pragma once
#include "model.hpp"

namespace h {

struct Gen {
    Rng& r;
    const Cfg& c;
    str d; // delimiter

    Gen(Rng& rng, const Cfg& cfg, str delim)
        : r{rng}, c{cfg}, d{std::move(delim)} {
    }

    bool is_delim_char(char x) const {
        return d.find(x) != str::npos;
    }
    // the delimiter behind the text is the first one; parts of it are fine
    bool delim_free(const str& t) const {
        for (size_t i = t.size() < d.size() ? 0 : t.size() - d.size(); i < t.size(); ++i) {
            // one which starts here could only end in the delimiter
            bool same = true;
            for (size_t k = 0; k < d.size() && same; ++k) {
                same = (i + k < t.size() ? t[i + k] : d[i + k - t.size()]) == d[k];
            }
            if (same) return false;
        }
        return t.find(d) == str::npos;
    }
    str end_of(const str& t) const {
        return t.size() > 2 * d.size() ? t.substr(t.size() - 2 * d.size()) : t;
    }
    bool can_nl() const {
        return c.ml_q() || c.ml_e();
    }

    // --- values -----------------------------------------------------------

    char any_char(bool nl) {
        switch (r.below(16)) {
        case 0:
            return c.Q ? c.q : '"';
        case 1:
            return c.esc.empty() ? '\\' : r.pick(c.esc);
        case 2:
            return c.tl.empty() ? ' ' : r.pick(c.tl);
        case 3:
            return c.tr.empty() ? ' ' : r.pick(c.tr);
        case 4:
        case 5:
            return r.pick(d);
        case 6:
            return nl && r.chance(1, 2) ? '\n' : '.';
        case 7:
            return r.chance(1, 3) ? '\r' : ';';
        case 8:
            return static_cast<char>(r.range(128, 255));
        case 9:
            return static_cast<char>(r.range(33, 126));
        case 10:
            return static_cast<char>(r.chance(1, 2) ? r.range(1, 9)
                                                    : r.range(14, 31));
        default:
            return static_cast<char>(r.chance(1, 2) ? r.range('a', 'e')
                                                    : r.range('0', '9'));
        }
    }

    // makes a value which can be written down under the setup
    str legal(str v, bool nl) const {
        str out;
        for (size_t i = 0; i < v.size(); ++i) {
            const char x = v[i];
            if (x == '\0') continue;
            if (x == '\n' && !(nl && can_nl())) continue;
            out += x;
            // only the end can be new
            if (!c.Q && c.esc.empty() && !delim_free(end_of(out))) out.pop_back();
        }
        if (!c.Q) {
            // would be taken as a part of the line break
            while (!out.empty() && out.back() == '\r') out.pop_back();
        }
        if (!c.Q && c.esc.empty()) {
            size_t b = 0, e = out.size();
            while (b < e && c.is_tl(out[b])) ++b;
            while (e > b && (c.is_tr(out[e - 1]) || out[e - 1] == '\r')) --e;
            out = out.substr(b, e - b);
        }
        return out;
    }

    str value(size_t len, bool nl) {
        str v;
        for (size_t i = 0; i < len; ++i) {
            const char x = any_char(nl);
            if (x == '\n' && r.chance(1, 3)) {
                v += '\r';
            }
            v += x;
        }
        if (d.size() > 1 && len > 0 && r.chance(1, 8)) {
            // a part of the delimiter
            v.insert(r.below(v.size() + 1), d.substr(0, r.chance(1, 2) ? d.size() - 1 : r.below(d.size())));
        }
        return legal(v, nl);
    }

    size_t len() {
        switch (r.below(20)) {
        case 0:
            return r.range(100, 400);
        case 1:
        case 2:
            return r.range(10, 40);
        default:
            return r.below(7);
        }
    }

    // --- encoding ---------------------------------------------------------

    str pad(const str& chars) {
        str s;
        if (!chars.empty() && r.chance(1, 2)) {
            size_t n = r.below(4);
            if (r.chance(1, 40)) n = r.range(5, 150);
            for (; n > 0; --n) s += r.pick(chars);
        }
        return s;
    }

    bool can_unquoted(const str& v) const {
        if (!v.empty() && v.back() == '\r') {
            return false;
        }
        if (!c.esc.empty()) {
            return v.find('\n') == str::npos || c.ml_e();
        }
        if (v.empty()) {
            return true;
        }
        if (c.Q && v[0] == c.q) return false;
        if (c.is_tl(v[0]) || c.is_tr(v.back())) return false;
        for (char x : v) {
            if (x == '\n') return false;
        }
        return delim_free(v);
    }

    str esc() {
        return str(1, r.pick(c.esc));
    }

    str unquoted(const str& v) {
        const unsigned extra = r.chance(1, 4) ? 3 : 0; // needless escapes
        // escaping all of its characters keeps a delimiter apart, and so does
        // escaping the one which would complete it
        const bool all = r.chance(1, 2);
        str out, run; // what follows the last escaped character
        for (size_t i = 0; i < v.size(); ++i) {
            const char x = v[i];
            if (c.esc.empty()) {
                out += x;
                continue;
            }
            const bool crlf = x == '\r' && i + 1 < v.size() && v[i + 1] == '\n';
            if (crlf && r.chance(1, 2)) {
                out += esc() + "\r\n";
                run = "";
                ++i;
                continue;
            }
            bool need = c.is_esc(x) || (all ? is_delim_char(x) : !delim_free(end_of(run) + x)) || x == '\n';
            need = need || (i == 0 && ((c.Q && x == c.q) || c.is_tl(x)));
            need = need || (i + 1 == v.size() && c.is_tr(x));
            if (need || (extra && r.chance(1, extra))) {
                // an escaped \r in front of a line break would be the break
                out += esc();
                run = "";
            } else {
                run += x;
            }
            out += x;
        }
        return pad(c.tl) + out + pad(c.tr);
    }

    str quoted(const str& v) {
        const bool e = !c.esc.empty();
        const unsigned extra = e && r.chance(1, 4) ? 3 : 0;
        str out(1, c.q);
        for (size_t i = 0; i < v.size(); ++i) {
            const char x = v[i];
            if (x == c.q) {
                out += e && r.chance(1, 2) ? esc() : str(1, c.q);
            } else if (c.is_esc(x)) {
                out += esc();
            } else if (extra && r.chance(1, extra)) {
                out += esc();
            }
            out += x;
        }
        out += c.q;
        return pad(c.tl) + out + pad(c.tr);
    }

    str encode(const str& v) {
        if (c.Q && (!can_unquoted(v) || r.chance(1, 2))) {
            return quoted(v);
        }
        return unquoted(v);
    }

    // a row of values; single empty columns are kept from being empty lines
    // if those are ignored
    str row(const strs& vals) {
        str out;
        for (size_t i = 0; i < vals.size(); ++i) {
            out += (i ? d : str{}) + encode(vals[i]);
        }
        return out;
    }

    size_t breaks(const str& s) const {
        return static_cast<size_t>(std::count(s.begin(), s.end(), '\n'));
    }

    strs values(size_t n, bool nl) {
        strs v;
        for (size_t i = 0; i < n; ++i) v.push_back(value(len(), nl));
        if (c.IE && n == 1 && v[0].empty()) v[0] = "x";
        if (c.limit > 0) {
            size_t left = c.limit;
            for (auto& x : v) {
                str y;
                for (char ch : x) {
                    if (ch == '\n' && left-- == 0) {
                        left = 0;
                        continue;
                    }
                    y += ch;
                }
                x = legal(y, nl);
                if (c.IE && n == 1 && x.empty()) x = "x";
            }
        }
        return v;
    }

    // --- malformed rows ---------------------------------------------------
    // returns an empty string if the setup has no malformed rows.
    // Only kinds which end with the line are made if closed is set.
    str malformed(size_t cols, Err& kind, bool closed) {
        std::vector<Err> kinds;
        if (c.Q) {
            kinds.push_back(MISMATCHED);
            if (!c.ML || !closed) kinds.push_back(UNTERM_QUOTE);
        }
        if (!c.esc.empty() && (!c.ML || !closed)) {
            kinds.push_back(UNTERM_ESCAPE);
        }
        if (kinds.empty()) {
            return {};
        }
        kind = r.pick(kinds);
        const size_t at = kind == MISMATCHED ? r.below(cols) : cols - 1;
        str out;
        for (size_t i = 0; i < cols; ++i) {
            out += i ? d : str{};
            str v = value(r.below(6), false);
            if (i != at) {
                if (i < at) {
                    out += encode(v);
                } else {
                    out += "z"; // not looked at
                }
                continue;
            }
            while (!v.empty() && v.back() == '\r') v.pop_back();
            if (kind == MISMATCHED) {
                str q = quoted(v);
                while (c.is_tr(q.back())) q.pop_back();
                str junk(1, static_cast<char>(r.range('a', 'e')));
                while (is_delim_char(junk[0]) || c.is_tr(junk[0])) junk = "Z";
                out += q + pad(c.tr) + junk + "z";
            } else if (kind == UNTERM_QUOTE) {
                str q = quoted(v);
                while (c.is_tr(q.back())) q.pop_back();
                q.pop_back();
                out += q;
            } else {
                if (c.Q && r.chance(1, 2)) {
                    str q = quoted(v);
                    while (c.is_tr(q.back())) q.pop_back();
                    q.pop_back();
                    out += q + esc();
                } else {
                    str u = unquoted(v);
                    out += u + esc();
                }
            }
        }
        return out;
    }

    // --- hostile data -----------------------------------------------------
    str hostile(size_t n, bool nul = false) {
        str alpha = "a1,";
        if (c.Q) alpha += str(2, c.q);
        alpha += c.Q ? "" : "\"";
        alpha += c.esc + c.esc;
        alpha += c.tl + c.tr;
        alpha += d + d;
        str out;
        const unsigned nl = static_cast<unsigned>(r.range(3, 14));
        while (out.size() < n) {
            if (r.chance(1, nl)) {
                out += r.chance(1, 3) ? "\r\n" : "\n";
            } else if (r.chance(1, 40)) {
                out += '\r';
            } else if (r.chance(1, 40)) {
                out += static_cast<char>(r.range(nul ? 0 : 1, 255));
            } else if (r.chance(1, 4)) {
                out += d;
            } else {
                out += r.pick(alpha);
            }
        }
        return out;
    }

    str mutate(str s, size_t edits) {
        str alpha = str{"a1,\"\n"} + str(1, c.q) + c.esc + c.tl + c.tr + d;
        for (; edits > 0 && !s.empty(); --edits) {
            const size_t at = r.below(s.size());
            switch (r.below(4)) {
            case 0:
                s.erase(at, 1 + r.below(3));
                break;
            case 1:
                s.insert(at, 1, r.pick(alpha));
                break;
            case 2:
                s[at] = r.pick(alpha);
                break;
            default:
                s.insert(at, s.substr(at, r.below(6)));
            }
        }
        return s;
    }
};

// delimiters which do not share characters with the setup
inline str pick_delim(Rng& r, const Cfg& c) {
    static const strs pool = {",", ",", ",", ",", ";",  "|",  "\t", ":",  "::",
                              "--", "<>", ",,", "abc", "-->", ";,;", "aab", "=",
                              " ", "\xa7", "\x01", "\xe2\x82\xac", "\xff\xfe", "\x7f", "----------------",
                              "abababac", "<==>", "abcab", ";,,;,,;", "(this delimiter is longer than thirty-two bytes)"};
    for (;;) {
        str d = r.pick(pool);
        if (r.chance(1, 100)) {
            // longer than any size kept in few bits
            const str unit = d;
            const size_t n = r.chance(1, 2) ? r.range(250, 600) : r.range(10, 40);
            while (d.size() < n) d += unit;
            if (r.chance(1, 2)) d += "@";
        }
        bool ok = true;
        for (char x : d) {
            ok = ok && !(c.Q && x == c.q) && !c.is_esc(x) && !c.is_tl(x) &&
                 !c.is_tr(x);
        }
        if (ok) {
            return d;
        }
    }
}

struct Doc {
    str data;
    std::vector<strs> rows;
};

inline str pick_eol(Rng& r, unsigned style) {
    return style == 0 ? "\n" : style == 1 ? "\r\n" : r.chance(1, 2) ? "\n" : "\r\n";
}

// a document of well-formed rows, correct by construction
inline Doc make_doc(Gen& g, size_t rows, size_t min_cols, size_t max_cols,
                    bool nl) {
    Doc doc;
    Rng& r = g.r;
    const unsigned style = static_cast<unsigned>(r.below(3));
    for (size_t i = 0; i < rows; ++i) {
        strs v = g.values(r.range(min_cols, max_cols), nl);
        str t = g.row(v);
        if (g.c.IE && t.empty()) {
            v = {"x"};
            t = "x";
        }
        doc.rows.push_back(v);
        doc.data += t;
        if (i + 1 < rows || t.empty() || t.back() == '\n' || r.chance(2, 3)) {
            doc.data += pick_eol(r, style);
        }
    }
    return doc;
}

} /* namespace h */
