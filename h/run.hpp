// Opening sources and comparing what the library shows with the model.
#pragma once
#include "gen.hpp"
#include "sut.hpp"

namespace h {

// exact size heap copy, so that anything past the data is not readable
struct Exact {
    char* p;
    size_t n;
    explicit Exact(const str& s) : n{s.size()} {
        p = static_cast<char*>(std::malloc(n ? n : 1));
        std::memcpy(p, s.data(), n);
    }
    ~Exact() {
        std::free(p);
    }
    Exact(const Exact&) = delete;
};

struct Opened {
    std::unique_ptr<File> file;
    std::unique_ptr<Exact> buf;
    std::unique_ptr<ISut> sut;
    str source_name;

    using Wrap = std::function<std::unique_ptr<ISut>(
        const std::function<std::unique_ptr<ISut>()>&)>;

    Opened(str name, std::unique_ptr<ISut> x)
        : sut{std::move(x)}, source_name{std::move(name)} {
    }
    Opened(const Ctx& c, const Setup& s, Mode m, bool use_file, const str& data,
           const str& delim, const char* name = "f.csv",
           const Wrap& wrap = nullptr) {
        auto make = [&]() -> std::unique_ptr<ISut> {
            return use_file ? s.file(m, file->path, delim)
                            : s.buffer(m, buf->p, buf->n, delim);
        };
        if (use_file) {
            file = std::make_unique<File>(c, data, name);
            source_name = file->path;
        } else {
            buf = std::make_unique<Exact>(data);
            source_name = "CSV data buffer";
        }
        sut = wrap ? wrap(make) : make();
    }
};

inline const Setup& pick_setup(Rng& r,
                               const std::function<bool(const Cfg&)>& ok) {
    std::vector<const Setup*> v;
    for (auto& s : setups()) {
        if (ok(s.cfg)) {
            v.push_back(&s);
        }
    }
    return *v[r.below(v.size())];
}

inline const Setup& any_setup(Rng& r) {
    return setups()[r.below(setups().size())];
}

inline Mode any_mode(Rng& r) {
    return static_cast<Mode>(r.below(3));
}

inline str describe(const Setup& s, Mode m, bool file, const str& d,
                    const str& data) {
    return str{"setup "} + s.name + ", " + mode_name[m] + " errors, " +
           (file ? "file" : "buffer") + ", delimiter " + show(d) + ", data " +
           show(data, 1500);
}

// value and validity of one read
inline bool check_read(Ctx& c, const Obs& got, const Want& want, size_t arity,
                       const std::function<str()>& desc) {
    if (want.err == OK) {
        if (!c.check(got.ok, "valid-row-rejected", [&] {
                return "row " + show(want.vals) + " reported as an error (" +
                       got.msg + "); " + desc();
            })) {
            return false;
        }
        return c.expect(got.vals, want.vals, "wrong-values", [&] {
            return "read " + show(got.vals) + " instead of " +
                   show(want.vals) + "; " + desc();
        });
    }
    if (!c.check(!got.ok, "invalid-row-accepted", [&] {
            return str{"read "} + show(got.vals) + " without an error, " +
                   err_name(want.err) + " expected; " + desc();
        })) {
        return false;
    }
    if (got.threw) {
        return true;
    }
    return c.expect(got.vals, strs(arity), "values-with-error", [&] {
        return str{"error ("} + err_name(want.err) +
               ") returned together with " + show(got.vals) + "; " + desc();
    });
}

inline bool check_state(Ctx& c, ISut& s, const Model& m,
                        const std::function<str()>& desc) {
    const State st = s.state();
    bool ok = c.expect(st.eof, m.eof(), "wrong-eof", [&] {
        return str{"eof() is "} + (st.eof ? "true" : "false") + "; " + desc();
    });
    ok = c.expect(st.line, m.line(), "wrong-line", [&] {
        return "line() is " + std::to_string(st.line) + " instead of " +
               std::to_string(m.line()) + "; " + desc();
    }) && ok;
    ok = c.expect(st.pos, m.position(), "wrong-position", [&] {
        return "position() is " + std::to_string(st.pos) + " instead of " +
               std::to_string(m.position()) + "; " + desc();
    }) && ok;
    return ok;
}

inline bool check_eof(Ctx& c, ISut& s, const Model& m,
                      const std::function<str()>& desc) {
    const bool e = s.state().eof;
    return c.expect(e, m.eof(), "wrong-eof", [&] {
        return str{"eof() is "} + (e ? "true" : "false") + "; " + desc();
    });
}

// arity for the next read: mostly the one which fits
inline int pick_arity(Rng& r, const Model& m, unsigned wrong_in = 8) {
    size_t n = 0;
    if (!m.mapping.empty()) {
        n = m.mapping.size();
    } else if (!m.eof()) {
        n = m.peek().fields.size();
    }
    if (n == 0 || n > max_arity || r.chance(1, wrong_in)) {
        return static_cast<int>(r.range(1, max_arity));
    }
    return static_cast<int>(n);
}

// bytes which other programs treat specially, at the places where they do
inline str dress(Rng& r, str data) {
    static const strs heads = {"\xef\xbb\xbf", "\xff\xfe", "\xfe\xff", "sep=,\n",
                               "#c\n", "\x1a", "\r", "\n", "\f", " "};
    static const strs tails = {"\r", "\r\r", "\x1a", "\x1a\n", "\f", "\n\r",
                               "\r\n\r", "\x04", "\xff", "\xff\n", "\n\n", "\r\n\r\n"};
    static const strs mids = {"\x1a", "\xff", "\f", "\r", "\v", "#", "\xef\xbb\xbf",
                              "\xe2\x80\xa8", "\xc2\x85", "\r\r\n", "\n\r"};
    if (r.chance(1, 8)) {
        // long runs of the same
        str run;
        const str x = r.chance(1, 2) ? "\n" : r.chance(1, 2) ? "\r\n" : r.chance(1, 2) ? " " : "\"\"";
        for (size_t n = r.range(5, 300); n > 0; --n) run += x;
        size_t at = std::min(data.find('\n', r.below(data.size() + 1)), data.size());
        return data.insert(std::min(at + r.below(2), data.size()), run);
    }
    switch (r.below(4)) {
    case 0:
        return r.pick(heads) + data;
    case 1:
        return data + r.pick(tails);
    case 2:
        return r.pick(heads) + data + r.pick(tails);
    default: {
        size_t at = r.below(data.size() + 1);
        if (r.chance(1, 2)) {
            // next to a line break
            at = std::min(data.find('\n', at), data.size());
            at = std::min(at + r.below(2), data.size());
        }
        return data.insert(at, r.pick(mids));
    }
    }
}

inline str any_plain_data(Rng& r, const Cfg& cfg, const str& d, size_t max_rows);

// random data for the setup: well-formed, mutated or hostile
inline str any_data(Rng& r, const Cfg& cfg, const str& d, size_t max_rows = 8) {
    if (r.chance(1, 80)) max_rows *= 8;
    str data = any_plain_data(r, cfg, d, max_rows);
    return r.chance(1, 10) ? dress(r, std::move(data)) : data;
}

inline str any_plain_data(Rng& r, const Cfg& cfg, const str& d, size_t max_rows) {
    Gen g{r, cfg, d};
    switch (r.below(4)) {
    case 0:
        return make_doc(g, r.below(max_rows + 1), 1, 5, true).data;
    case 1:
        return g.mutate(make_doc(g, r.below(max_rows + 1), 1, 4, true).data,
                        r.range(1, 6));
    case 2:
        return g.hostile(r.below(16 * max_rows));
    default: {
        // regular table with occasional bad and empty rows
        const size_t cols = r.range(1, 4);
        str out;
        const unsigned style = static_cast<unsigned>(r.below(3));
        for (size_t i = r.below(max_rows + 1); i > 0; --i) {
            Err kind = OK;
            str t = g.row(g.values(cols, true));
            if (r.chance(1, 5)) {
                t = g.malformed(cols, kind, false);
            } else if (r.chance(1, 8)) {
                t = "";
            }
            out += t;
            if (i > 1 || r.chance(2, 3)) {
                out += pick_eol(r, style);
            }
        }
        return out;
    }
    }
}

} /* namespace h */
