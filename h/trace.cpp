// Runs a job on the library this file is compiled with.
#include "trace.hpp"
#include "restr.hpp"
#include "twin.hpp"
using namespace h;

using std::optional;
using std::string;
using std::tuple;
using std::variant;

namespace {

void run_parser(const tr::Job& j, tr::Trace& out) {
    const Setup* s = nullptr;
    for (auto& x : setups()) {
        if (x.name == j.setup) s = &x;
    }
    if (!s) {
        std::fprintf(stderr, "harness: unknown setup\n");
        std::_Exit(91);
    }
    const Mode m = static_cast<Mode>(j.mode);
    if (j.kind == tr::Job::CONVERTER) {
        auto conv = s->conv(m);
        for (size_t i = 0; i < j.lines.size(); ++i) {
            Heap b{j.lines[i], true};
            const Obs o = conv->convert(b.p, j.calls[i].k, j.delim);
            out.push_back(str{o.ok ? "ok " : "error "} + show(o.msg) + " " + show(o.vals));
            if (j.between) j.between();
        }
        return;
    }
    auto p = j.path.empty() ? s->buffer(m, j.data, j.size, j.delim) : s->file(m, j.path, j.delim);
    out.push_back(str{p->open().ok ? "open " : "error "} + p->open().msg);
    if (!p->open().ok) return;
    for (auto& x : j.calls) {
        Call y;
        y.kind = static_cast<Call::Kind>(x.kind);
        y.k = x.k;
        y.max = x.max;
        y.names = x.names;
        out.push_back(y.text() + ": " + show_result(apply(*p, y)));
        if (j.between) j.between();
    }
}

// --- typed ------------------------------------------------------------------

struct Pt {
    int x;
    double y;
    string s;
    bool operator==(const Pt& o) const {
        return x == o.x && y == o.y && s == o.s;
    }
    auto tied() {
        return std::tie(x, y, s);
    }
};

template <typename P, typename... Ts>
str one(P& p) {
    const auto r = reading(p, [&] { return p.template get_next<Ts...>(); });
    return RowRef<Ts...>::types() + ": " + (r.ok ? "ok " : "error ") + show(r.msg, 400) + " " +
           (r.value ? RowRef<Ts...>::show_row(*r.value) : str{"-"});
}

str show_pt(const Pt& p) {
    return Ref<int>::show_value(p.x) + "/" + Ref<double>::show_value(p.y) + "/" + show(p.s);
}

template <typename P>
str object(P& p, bool tied) {
    const auto r = reading(p, [&] {
        return tied ? p.template get_next<Pt>() : p.template get_object<Pt, int, double, string>();
    });
    return str{r.ok ? "object " : "error "} + show(r.msg, 400) + " " +
           (r.ok && r.value ? show_pt(*r.value) : str{"-"});
}

template <typename P>
str chain(P& p, Rng& r) {
    if constexpr (P::h_throws) {
        return one<P, string, string, string>(p);
    } else {
        str t = "chain";
        const bool keep = r.chance(2, 3);
        auto [a, b, o, d] = p.template try_next<ss::ir<int, 0, 100>, double, string>([&](auto& row) {
                                 t += " first(" + RowRef<int, double, string>::show_row(row) + ")";
                                 return keep;
                             })
                                .on_error([&] { t += " failed"; })
                                .template or_else<float, optional<int>>([&](float, auto&) { t += " second"; })
                                .template or_object<Pt, int, double, string>()
                                .template or_else<string, void, variant<bool, char>>([&] { t += " fourth"; })
                                .on_error([&] { t += " none"; })
                                .values();
        t += a ? " a:" + RowRef<int, double, string>::show_row(*a) : str{};
        t += b ? " b:" + RowRef<float, optional<int>>::show_row(*b) : str{};
        t += o ? " o:" + show_pt(*o) : str{};
        t += d ? " d:" + RowRef<string, variant<bool, char>>::show_row(*d) : str{};
        t += p.valid() ? " valid" : " invalid";
        if constexpr (P::h_text) t += " " + show(p.error_msg());
        return t;
    }
}

// texts, so that it depends on the functions alone
template <typename P>
str text_chain(P& p, Rng& r) {
    if constexpr (P::h_throws) {
        return one<P, string, string, string>(p);
    } else {
        str t = "texts";
        const size_t keep = r.below(4);
        auto [a, b, d] = p.template try_next<string, string, string>([&](const auto& row) {
                              t += " first(" + RowRef<string, string, string>::show_row(row) + ")";
                              return keep == 0;
                          })
                             .on_error([&] { t += " failed"; })
                             .template or_else<string, string>([&](const auto& x, const string&) {
                                 t += " second(" + show(x) + ")";
                                 return keep < 2;
                             })
                             .template or_else<string, ss::ne<string>, void>([&](auto&&...) { return keep < 3; })
                             .on_error([&] { t += " none"; })
                             .values();
        t += a ? " a:" + RowRef<string, string, string>::show_row(*a) : str{};
        t += b ? " b:" + RowRef<string, string>::show_row(*b) : str{};
        t += d ? " d:" + RowRef<string, ss::ne<string>>::show_row(*d) : str{};
        t += p.valid() ? " valid" : " invalid";
        if constexpr (P::h_text) t += " " + show(p.error_msg());
        return t;
    }
}

template <typename P>
str object_loop(P& p, Rng& r) {
    str t = "objects";
    size_t left = r.range(1, 3);
    const auto x = reading(p, [&] {
        for (const auto& row : p.template iterate_object<Pt, int, double, string>()) {
            t += " " + show_pt(row);
            if (--left == 0) break;
        }
        return 0;
    });
    return t + (x.ok ? " ok " : " error ") + show(x.msg);
}

template <typename P>
str loop(P& p, Rng& r) {
    str t = "loop";
    size_t left = r.range(1, 3);
    const auto x = reading(p, [&] {
        for (const auto& row : p.template iterate<string, optional<double>>()) {
            t += " " + RowRef<string, optional<double>>::show_row(row);
            if (--left == 0) break;
        }
        return 0;
    });
    return t + (x.ok ? " ok " : " error ") + show(x.msg);
}

template <template <typename...> class Par>
void run_typed(const tr::Job& j, tr::Trace& out) {
    using P = Par<ss::quote<'"'>, ss::escape<'\\'>, ss::trim<' '>, ss::multiline>;
    optional<P> p;
    if (j.path.empty()) {
        p.emplace(j.data, j.size, j.delim);
    } else {
        p.emplace(j.path, j.delim);
    }
    Rng r{j.seed};
    if (!j.calls.empty()) {
        // fields selected before the first row
        const auto x = reading(*p, [&] {
            p->use_fields(j.calls[0].names);
            return 0;
        });
        out.push_back(str{"use_fields "} + (x.ok ? "ok" : show(x.msg)));
    }
    size_t past = 0;
    for (size_t n = 0; n < 40; ++n) {
        if (p->eof() && past++ >= 2) break;
        str t;
        switch (r.below(22)) {
        case 18: t = one<P, int, double>(*p); break;
        case 19: t = one<P, once<int>, once<int>>(*p); break;
        case 20: t = one<P, int>(*p); break;
        case 21: t = one<P, ss::ir<int, 1, 9>, ss::lt<double, 5>, char, bool>(*p); break;
        case 15:
        case 16: t = text_chain(*p, r); break;
        case 17: t = object_loop(*p, r); break;
        case 14: t = one<P, once<int>, once<double>, once<string>>(*p); break;
        case 0: t = one<P, int, double, string>(*p); break;
        case 1: t = one<P, string, string, string>(*p); break;
        case 2: t = one<P, optional<int>, variant<int, double, string>, void>(*p); break;
        case 3: t = one<P, ss::ir<int, 1, 9>, double, ss::ne<string>>(*p); break;
        case 4: t = one<P, double, float, double>(*p); break;
        case 5: t = one<P, void, float>(*p); break;
        case 6: t = one<P, float, ss::gte<double, 1>, optional<float>>(*p); break;
        case 7: t = one<P, long long, ss::uint8, bool, string>(*p); break;
        case 8: t = object(*p, true); break;
        case 9: t = object(*p, false); break;
        case 10:
        case 11: t = chain(*p, r); break;
        case 12: t = loop(*p, r); break;
        default: t = str{"ignore "} + (p->ignore_next() ? "true" : "false");
        }
        out.push_back(t + " line " + std::to_string(p->line()) + " position " + std::to_string(p->position()) +
                      (p->eof() ? " eof" : ""));
        if (j.between) j.between();
    }
}

// the line reader on its own, one buffer for the whole file
void run_reader(const tr::Job& j, tr::Trace& out) {
    FILE* f = std::fopen(j.path.c_str(), "rb");
    if (!f) {
        std::perror("harness: fopen");
        std::_Exit(90);
    }
    char* line = j.initial ? static_cast<char*>(std::malloc(j.initial)) : nullptr;
    size_t n = j.initial;
    size_t past = 0;
    Rng r{j.seed};
    while (past < 3) {
        if (line && r.chance(1, 6)) {
            // given up and started again, or continued with another buffer
            std::free(line);
            n = r.chance(1, 2) ? 0 : r.range(1, 300);
            line = n ? static_cast<char*>(std::malloc(n)) : nullptr;
        }
        const auto size = ss::get_line_file(line, n, f);
        if (size == -1) {
            ++past;
            out.push_back("end");
            continue;
        }
        if (line == nullptr || n < static_cast<size_t>(size) + 1) {
            out.push_back("buffer of " + std::to_string(n) + " bytes for a line of " + std::to_string(size));
            break;
        }
        out.push_back(str{line, static_cast<size_t>(size)} + (line[size] == '\0' ? "" : "(not terminated)"));
    }
    std::free(line);
    std::fclose(f);
}

} // namespace

void TRACE_FN(const tr::Job& job, tr::Trace& out) {
    switch (job.kind) {
    case tr::Job::PARSER:
    case tr::Job::CONVERTER: run_parser(job, out); return;
    case tr::Job::TYPED:
        switch (job.mode) {
        case 0: run_typed<PlainParser>(job, out); return;
        case 1: run_typed<TextParser>(job, out); return;
        default: run_typed<ThrowParser>(job, out); return;
        }
    case tr::Job::READER: run_reader(job, out); return;
    }
}
