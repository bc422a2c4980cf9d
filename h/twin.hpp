// Several parsers driven by the same calls; their traces have to agree.
#pragma once
#include "lockstep.hpp"

namespace h {

struct Call {
    enum Kind { NEXT, IGNORE, HEADER, RAW, EXISTS, USE, ITERATE, MOVE } kind;
    int k = 1;
    size_t max = 0;
    strs names;
    str text() const {
        switch (kind) {
        case NEXT:
            return "next" + std::to_string(k);
        case IGNORE:
            return "ignore";
        case HEADER:
            return "header";
        case RAW:
            return "raw_header";
        case EXISTS:
            return "field_exists(" + show(names[0], 40) + ")";
        case USE:
            return "use_fields(" + show(names, 40) + ")";
        case ITERATE:
            return "iterate" + std::to_string(k) + "/" + std::to_string(max);
        case MOVE:
            return "move";
        }
        return "";
    }
};

struct Result {
    bool ok = true;
    str msg;
    strs vals;
    bool flag = false;
    std::vector<strs> rows;
    State st;
};

// calls which make sense for the data, chosen with the help of the model
inline std::vector<Call> make_calls(Rng& r, const str& data, const Cfg& cfg,
                                    const str& d, size_t past_end = 2,
                                    size_t max = 30, unsigned move = 0,
                                    bool iterate = true) {
    Model m{data, cfg, d};
    std::vector<Call> out;
    size_t past = 0;
    while (out.size() < max) {
        if (m.eof() && past++ >= past_end) {
            break;
        }
        Call x;
        const size_t w = r.below(20 + move);
        if (w < 11) {
            x.kind = Call::NEXT;
            x.k = pick_arity(r, m, 6);
            m.next(static_cast<size_t>(x.k));
        } else if (w < 12) {
            x.kind = Call::IGNORE;
            m.ignore_next();
        } else if (w < 13) {
            if (!iterate) continue;
            x.kind = Call::ITERATE;
            x.k = pick_arity(r, m, 20);
            x.max = r.range(1, 4);
            // the model follows the modes which do not throw
            for (size_t i = 0; i < x.max && !m.eof(); ++i) {
                m.next(static_cast<size_t>(x.k));
            }
        } else if (w >= 20) {
            x.kind = Call::MOVE;
        } else if (cfg.IH) {
            continue;
        } else if (w < 15) {
            x.kind = Call::HEADER;
        } else if (w < 16) {
            x.kind = Call::RAW;
        } else {
            const Want h = m.header();
            Gen g{r, cfg, d};
            auto name = [&] {
                return !h.vals.empty() && !r.chance(1, 6) ? r.pick(h.vals)
                                                          : g.value(2, false);
            };
            if (w < 18) {
                x.kind = Call::EXISTS;
                x.names = {name()};
            } else {
                if (m.eof()) continue;
                x.kind = Call::USE;
                for (size_t i = r.range(1, 3); i > 0; --i) {
                    x.names.push_back(name());
                }
                m.use_fields(x.names);
            }
        }
        out.push_back(x);
    }
    return out;
}

inline Result apply(ISut& s, const Call& x) {
    Result r;
    Obs o;
    o.ok = true;
    switch (x.kind) {
    case Call::NEXT:
        o = s.next(x.k);
        break;
    case Call::IGNORE:
        o.flag = s.ignore_next();
        break;
    case Call::HEADER:
        o = s.header();
        break;
    case Call::RAW:
        o = s.raw_header();
        break;
    case Call::EXISTS:
        o = s.field_exists(x.names[0]);
        break;
    case Call::USE:
        o = s.use_fields(x.names);
        break;
    case Call::ITERATE:
        o = s.iterate_rest(x.k, x.max, r.rows);
        break;
    case Call::MOVE:
        s.move_construct();
        break;
    }
    r.ok = o.ok;
    r.msg = o.msg;
    r.vals = o.ok ? o.vals : strs{};
    r.flag = o.flag;
    r.st = s.state();
    return r;
}

inline str show_result(const Result& r) {
    str rows;
    for (auto& x : r.rows) rows += show(x) + ";";
    return str{r.ok ? "ok" : "error"} + " " + show(r.msg) + " " +
           show(r.vals) + (r.flag ? " true" : " false") + " rows " + rows +
           " line " + std::to_string(r.st.line) + " position " +
           std::to_string(r.st.pos) + (r.st.eof ? " eof" : "") +
           (r.st.valid ? " valid" : " invalid");
}

inline str without_source(str msg, const str& source) {
    if (msg.compare(0, source.size(), source) == 0) {
        msg = "SOURCE" + msg.substr(source.size());
    }
    return msg;
}

} /* namespace h */
