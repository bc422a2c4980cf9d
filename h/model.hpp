// Reference model: what the documentation promises, written from the row down
// (no in place editing, no buffers, no resumption), so that it shares nothing
// with the way the library works. It is the oracle of the behavioural checks.
#pragma once
#include "core.hpp"

namespace h {

struct Cfg {
    bool Q = false;
    char q = '"';
    str esc;  // escape characters, empty if disabled
    str tl;   // trimmed on the left of a field
    str tr;   // trimmed on the right of a field
    bool ML = false;
    size_t limit = 0; // 0 -> unlimited
    bool IE = false;
    bool IH = false;

    bool is_esc(char c) const {
        return esc.find(c) != str::npos;
    }
    bool is_tl(char c) const {
        return tl.find(c) != str::npos;
    }
    bool is_tr(char c) const {
        return tr.find(c) != str::npos;
    }
    // joining of lines is possible
    bool ml_q() const {
        return ML && Q;
    }
    bool ml_e() const {
        return ML && !esc.empty();
    }
    // the header is decoded with multiline disabled
    Cfg header() const {
        Cfg c = *this;
        c.ML = false;
        return c;
    }
    bool const_line() const {
        return !Q && esc.empty();
    }
};

enum Err {
    OK = 0,
    MISMATCHED,    // a closing quote followed by something else
    UNTERM_QUOTE,  //
    UNTERM_ESCAPE, //
    LIMIT,         // more lines than allowed needed
    COLUMNS,       // wrong number of columns
    MAPPING,       // wrong number of requested types for the selected fields
    AT_EOF,        // nothing to be read
    BAD_FIELD,     // field not present in the header
    REPEATED,      // field selected multiple times
    DUPLICATE,     // header with duplicates
    NO_FIELDS,     // nothing selected
    BAD_HEADER,    // header could not be decoded
};

inline const char* err_name(Err e) {
    static const char* const names[] =
        {"ok",      "mismatched-quote", "unterminated-quote",
         "unterminated-escape", "multiline-limit", "column-count",
         "mapping-count", "end-of-data", "unknown-field", "repeated-field",
         "duplicate-header", "no-fields", "bad-header"};
    return names[e];
}

struct Scan {
    Err err = OK;
    strs fields;
    size_t err_pos = 0;
};

// decodes one complete row (line breaks already joined)
inline Scan scan_row(const str& s, const Cfg& c, const str& d) {
    Scan out;
    const size_t n = s.size();
    size_t i = 0;
    auto delim_at = [&](size_t k) {
        return k + d.size() <= n && s.compare(k, d.size(), d) == 0;
    };
    auto left = [&] {
        while (i < n && c.is_tl(s[i])) ++i;
    };
    auto right = [&](size_t k) {
        while (k < n && c.is_tr(s[k])) ++k;
        return k;
    };

    left();
    for (;;) {
        str val;
        bool more = false;
        if (c.Q && i < n && s[i] == c.q) {
            ++i;
            for (;;) {
                if (i == n) {
                    out.err = UNTERM_QUOTE;
                    return out;
                }
                if (s[i] == c.q) {
                    const size_t k = right(i + 1);
                    if (k < n && delim_at(k)) {
                        i = k + d.size();
                        more = true;
                        break;
                    }
                    if (k == n) {
                        i = n;
                        break;
                    }
                    if (s[i + 1] == c.q) {
                        val += c.q;
                        i += 2;
                        continue;
                    }
                    out.err = MISMATCHED;
                    out.err_pos = i;
                    return out;
                }
                if (c.is_esc(s[i])) {
                    if (i + 1 == n) {
                        out.err = UNTERM_ESCAPE;
                        return out;
                    }
                    val += s[i + 1];
                    i += 2;
                    continue;
                }
                val += s[i++];
            }
        } else {
            for (;;) {
                const size_t k = right(i);
                if (k == n) {
                    i = n;
                    break;
                }
                if (delim_at(k)) {
                    i = k + d.size();
                    more = true;
                    break;
                }
                if (k > i) {
                    val.append(s, i, k - i);
                    i = k;
                    continue;
                }
                if (c.is_esc(s[i])) {
                    if (i + 1 == n) {
                        out.err = UNTERM_ESCAPE;
                        return out;
                    }
                    val += s[i + 1];
                    i += 2;
                    continue;
                }
                val += s[i++];
            }
        }
        out.fields.push_back(val);
        if (!more) {
            return out;
        }
        left();
    }
}

struct Line {
    size_t begin = 0; // offset of the first byte
    str text;         // without the line break
    str eol;          // "\n", "\r\n" or ""
    size_t end() const {
        return begin + text.size() + eol.size();
    }
};

inline std::vector<Line> split_lines(const str& data) {
    std::vector<Line> out;
    size_t b = 0;
    while (b < data.size()) {
        const size_t e = data.find('\n', b);
        Line l;
        l.begin = b;
        if (e == str::npos) {
            l.text = data.substr(b);
            b = data.size();
        } else {
            if (e > b && data[e - 1] == '\r') {
                l.text = data.substr(b, e - 1 - b);
                l.eol = "\r\n";
            } else {
                l.text = data.substr(b, e - b);
                l.eol = "\n";
            }
            b = e + 1;
        }
        out.push_back(std::move(l));
    }
    return out;
}

struct Row {
    Err err = OK;
    strs fields;
    str raw;             // joined text
    size_t err_pos = 0;  // offset of the offending quote in raw
    size_t first = 0;    // index of the first physical line
    size_t next = 0;     // index of the line after the row
    size_t lines() const {
        return next - first;
    }
};

// odd number of escapes at the end of the line
inline bool escaped_end(const str& s, const Cfg& c) {
    size_t n = 0;
    while (n < s.size() && c.is_esc(s[s.size() - 1 - n])) ++n;
    return n % 2 == 1;
}

inline Row read_row(const std::vector<Line>& lines, size_t at, const Cfg& c,
                    const str& d) {
    Row r;
    r.first = at;
    r.next = at + 1;
    r.raw = lines[at].text;
    size_t appended = 0;

    // returns false if the row cannot be continued
    auto append = [&](Err at_end) {
        if (c.limit > 0 && appended >= c.limit) {
            r.err = LIMIT;
            return false;
        }
        if (r.next >= lines.size()) {
            r.err = at_end;
            return false;
        }
        r.raw += lines[r.next - 1].eol + lines[r.next].text;
        ++r.next;
        ++appended;
        return true;
    };
    auto join_escaped = [&] {
        while (c.ml_e() && escaped_end(lines[r.next - 1].text, c)) {
            if (!append(UNTERM_ESCAPE)) {
                return false;
            }
        }
        return true;
    };

    if (!join_escaped()) {
        return r;
    }
    for (;;) {
        Scan s = scan_row(r.raw, c, d);
        if (s.err == UNTERM_QUOTE && c.ml_q()) {
            if (!append(UNTERM_QUOTE) || !join_escaped()) {
                return r;
            }
            continue;
        }
        r.err = s.err;
        r.err_pos = s.err_pos;
        if (r.err == OK) {
            r.fields = std::move(s.fields);
        }
        return r;
    }
}

// expected outcome of one call
struct Want {
    Err err = OK;
    strs vals;
    bool flag = false; // returned boolean (ignore_next, field_exists)
    str what;          // name of the field an error is about
    size_t n1 = 0, n2 = 0; // expected / actual counts
    size_t line = 0;   // number of the last physical line of the row
    bool row_error = false; // reported with the line number
    const Row* row = nullptr;
};

class Model {
public:
    Model(const str& data, const Cfg& cfg, const str& delim)
        : c{cfg}, d{delim}, lines{split_lines(data)}, total{data.size()} {
        pend = skip(0);
        if (c.IH) {
            if (!eof()) {
                pend = skip(pend + 1);
            }
        } else {
            raw_header = eof() ? str{} : lines[pend].text;
            header_line = pend;
        }
    }

    bool eof() const {
        return pend >= lines.size();
    }
    size_t line() const {
        return pend;
    }
    size_t position() const {
        return eof() ? total : lines[pend].begin;
    }

    Want next(size_t k) {
        Want w;
        if (eof()) {
            w.err = AT_EOF;
            return w;
        }
        last = read_row(lines, pend, c, d);
        pend = skip(last.next);
        w.row = &last;
        w.line = last.next;
        w.row_error = true;
        if (last.err != OK) {
            w.err = last.err;
            return w;
        }
        if (!mapping.empty()) {
            if (k != mapping.size()) {
                w.err = MAPPING;
                w.n1 = mapping.size();
                w.n2 = k;
                return w;
            }
            if (last.fields.size() != header_cols) {
                w.err = COLUMNS;
                w.n1 = header_cols;
                w.n2 = last.fields.size();
                return w;
            }
            for (size_t m : mapping) {
                w.vals.push_back(last.fields[m]);
            }
            return w;
        }
        if (last.fields.size() != k) {
            w.err = COLUMNS;
            w.n1 = k;
            w.n2 = last.fields.size();
            return w;
        }
        w.vals = last.fields;
        return w;
    }

    // the row which would be read next
    Row peek() const {
        return read_row(lines, pend, c, d);
    }

    bool ignore_next() {
        if (!eof()) {
            pend = skip(read_row(lines, pend, c, d).next);
        }
        return !eof();
    }

    Want header() const {
        Want w;
        const Scan s = scan_row(raw_header, c.header(), d);
        if (s.err != OK) {
            w.err = BAD_HEADER;
        } else {
            w.vals = s.fields;
        }
        return w;
    }

    Want header_fields() const {
        Want w = header();
        if (w.err != OK) {
            return w;
        }
        for (size_t i = 0; i < w.vals.size(); ++i) {
            for (size_t j = 0; j < i; ++j) {
                if (w.vals[i] == w.vals[j]) {
                    w.err = DUPLICATE;
                    w.what = w.vals[i];
                    w.vals.clear();
                    return w;
                }
            }
        }
        return w;
    }

    Want field_exists(const str& f) const {
        Want w = header_fields();
        if (w.err == OK) {
            w.flag = std::count(w.vals.begin(), w.vals.end(), f) > 0;
            w.vals.clear();
        }
        return w;
    }

    Want use_fields(const strs& fields) {
        Want w = header_fields();
        if (w.err != OK) {
            return w;
        }
        const strs head = std::move(w.vals);
        w.vals.clear();
        if (fields.empty()) {
            w.err = NO_FIELDS;
            return w;
        }
        std::vector<size_t> m;
        for (auto& f : fields) {
            if (std::count(fields.begin(), fields.end(), f) != 1) {
                w.err = REPEATED;
                w.what = f;
                return w;
            }
            const auto it = std::find(head.begin(), head.end(), f);
            if (it == head.end()) {
                w.err = BAD_FIELD;
                w.what = f;
                return w;
            }
            m.push_back(static_cast<size_t>(it - head.begin()));
        }
        mapping = m;
        header_cols = head.size();
        if (pend == header_line && !eof()) {
            pend = skip(pend + 1);
        }
        return w;
    }

    Cfg c;
    str d;
    std::vector<Line> lines;
    size_t total;
    size_t pend = 0;
    str raw_header;
    size_t header_line = 0;
    std::vector<size_t> mapping;
    size_t header_cols = 0;
    Row last;

private:
    size_t skip(size_t i) const {
        while (c.IE && i < lines.size() && lines[i].text.empty()) ++i;
        return std::min(i, lines.size());
    }
};

} /* namespace h */
