// C01: no memory error or undefined behaviour on any input. The oracle is the
// instrumentation (AddressSanitizer, UndefinedBehaviourSanitizer, assertions of
// the standard library, memcheck) and the number of live bytes: nothing is
// known about the data, it may contain anything.
#include "grown.hpp"
#include "restr.hpp"
#include "trace.hpp"
#include "twin.hpp"
using namespace h;

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#define LIVE_BYTES() __sanitizer_get_current_allocated_bytes()
#endif
#endif
#ifndef LIVE_BYTES
#define LIVE_BYTES() size_t{0}
#endif

namespace {

volatile unsigned sink = 0;

// uses every byte
void touch(const char* p, size_t n) {
    unsigned x = 0;
    for (size_t i = 0; i < n; ++i) {
        if (p[i] == 'x') ++x;
    }
    sink = sink + x;
}

// whatever bytes; runs of special characters are common
str wild(Rng& r, const Cfg& cfg, const str& d, size_t max) {
    Gen g{r, cfg, d};
    str s;
    switch (r.below(8)) {
    case 0: s = g.hostile(r.below(max), true); break;
    case 1: {
        for (size_t n = r.below(max); n > 0; --n) s += static_cast<char>(r.below(256));
        break;
    }
    case 2: {
        // long runs
        const str alpha = str{"a\n\r\0 ,", 6} + cfg.q + cfg.esc + cfg.tl + cfg.tr + d;
        while (s.size() < max) {
            s += str(r.range(1, r.chance(1, 6) ? 200 : 6), r.pick(alpha));
            if (r.chance(1, 12)) break;
        }
        break;
    }
    default: {
        s = any_data(r, cfg, d, 8);
        for (size_t n = r.below(4); n > 0; --n) {
            const size_t at = r.below(s.size() + 1);
            switch (r.below(5)) {
            case 0: s.insert(at, 1, '\0'); break;
            case 1: s.insert(at, str(r.range(100, 300), r.chance(1, 2) ? 'L' : cfg.Q ? cfg.q : 'M')); break;
            case 2: s.resize(at); break;
            case 3: s.insert(at, "\r\n"); break;
            default: s.insert(at, g.hostile(20, true));
            }
        }
    }
    }
    // often cut off in the middle of something
    if (r.chance(1, 3)) s.resize(r.below(s.size() + 1));
    return s;
}

str any_delim(Rng& r, const Cfg& cfg) {
    if (!r.chance(1, 8)) return pick_delim(r, cfg);
    if (r.chance(1, 12)) return {}; // an error of every row
    // shares characters with the setup, or has unusual ones
    str d;
    for (size_t n = r.range(1, 3); n > 0; --n) {
        const str alpha = str{",;\r\n\xff"} + cfg.q + cfg.esc + cfg.tl + cfg.tr;
        d += r.pick(alpha);
    }
    return d;
}

str name_of(Rng& r, const str& data, const str& d) {
    if (d.empty() || r.chance(1, 4)) return r.chance(1, 2) ? str{} : str(r.below(40), 'n');
    // a part of the first line
    const size_t e = std::min(data.find('\n'), data.size());
    const str line = data.substr(0, e);
    strs parts;
    for (size_t b = 0; b <= line.size();) {
        const size_t at = line.find(d, b);
        parts.push_back(line.substr(b, at == str::npos ? at : at - b));
        if (at == str::npos) break;
        b = at + d.size();
    }
    return parts.empty() ? line : r.pick(parts);
}

std::vector<Call> wild_calls(Rng& r, const str& data, const Cfg& cfg, const str& d) {
    std::vector<Call> out;
    for (size_t n = r.range(1, 24); n > 0; --n) {
        Call x;
        const size_t w = r.below(24);
        if (w < 12) {
            x.kind = Call::NEXT;
            x.k = static_cast<int>(r.range(1, max_arity));
        } else if (w < 14) {
            x.kind = Call::IGNORE;
        } else if (w < 15) {
            x.kind = Call::ITERATE;
            x.k = static_cast<int>(r.range(1, max_arity));
            x.max = r.range(1, 4);
        } else if (w < 17) {
            x.kind = Call::MOVE;
        } else if (cfg.IH) {
            continue;
        } else if (w < 19) {
            x.kind = Call::HEADER;
        } else if (w < 20) {
            x.kind = Call::RAW;
        } else if (w < 22) {
            x.kind = Call::EXISTS;
            x.names = {name_of(r, data, d)};
        } else {
            x.kind = Call::USE;
            for (size_t k = r.range(1, 5); k > 0; --k) x.names.push_back(name_of(r, data, d));
        }
        out.push_back(x);
    }
    return out;
}

// runs the job until it leaves the number of live bytes as it was; whatever is
// kept for later by the standard library is only kept once
bool conserves(Ctx& c, const std::function<void()>& job, const std::function<str()>& desc) {
    size_t left = 0;
    for (int i = 0; i < 3; ++i) {
        const size_t before = LIVE_BYTES();
        job();
        const size_t after = LIVE_BYTES();
        ++c.events;
        if (after == before) return true;
        left = after - before;
    }
    c.fail("leak", std::to_string(left) + " bytes are not released; " + desc());
    return false;
}

} // namespace

SCENARIO(calls, 100) {
    const Setup& s = any_setup(rng);
    const Mode mode = any_mode(rng);
    const str d = any_delim(rng, s.cfg);
    const str data = wild(rng, s.cfg, d, rng.chance(1, 12) ? 3000 : 80);
    // half of them fit the data
    const auto calls = !d.empty() && d.find_first_of("\r\n") == str::npos && rng.chance(1, 2) ? make_calls(rng, data, s.cfg, d, 3, 40, 1)
                                                                               : wild_calls(rng, data, s.cfg, d);
    const bool file = rng.chance(1, 2);
    const bool twice = rng.chance(1, 3);
    std::unique_ptr<File> f;
    if (file) f = std::make_unique<File>(c, data);
    str hist;
    for (auto& x : calls) hist += " " + x.text();
    auto desc = [&] { return describe(s, mode, file, d, data) + ", calls" + hist; };
    size_t done = 0, rows = 0, errors = 0;
    const str other = "o,p\n";
    auto job = [&] {
        done = rows = errors = 0;
        Exact b{data};
        auto p = file ? s.file(mode, f->path, d) : s.buffer(mode, b.p, b.n, d);
        if (!p->open().ok) return;
        std::unique_ptr<ISut> q;
        for (auto& x : calls) {
            const Result r = apply(*p, x);
            ++done;
            if (x.kind == Call::NEXT) ++(r.ok ? rows : errors);
            for (auto& v : r.vals) touch(v.data(), v.size());
            touch(r.msg.data(), r.msg.size());
            if (twice && done == calls.size() / 2) {
                // taken over by a parser in use
                Exact o{other};
                q = s.buffer(mode, o.p, o.n, ",");
                q->next(2);
                q->take(*p, true);
                q->next(1);
                p->take(*q, true);
            }
        }
    };
    if (!conserves(c, job, desc)) return;
    c.feature("calls", done);
    c.feature("rows", rows);
    c.feature("errors", errors);
    c.feature_if(data.find('\0') != str::npos, "data with NUL bytes");
    c.feature_if(twice, "parsers moved around");
    c.nontrivial(hash_str(data, hash_str(s.name + d)));
    if (rng.chance(1, 60)) c.sample(desc());
}

// sources which cannot be opened
SCENARIO(not_opened, 10) {
    const Setup& s = any_setup(rng);
    const Mode mode = any_mode(rng);
    const bool file = rng.chance(1, 2), again = rng.chance(1, 2);
    const str data = "a,b\n1,2\n3,4\n";
    const str path = c.scratch + "/none-" + std::to_string(rng.below(100));
    const auto calls = wild_calls(rng, data, s.cfg, ",");
    auto desc = [&] { return str{mode_name[mode]} + " errors, setup " + s.name + (file ? ", missing file" : ", null buffer"); };
    auto job = [&] {
        auto p = file ? s.file(mode, path, ",") : s.buffer(mode, nullptr, again ? 5 : 0, ",");
        const Obs o = p->open();
        touch(o.msg.data(), o.msg.size());
        if (o.threw) return;
        for (auto& x : calls) {
            const Result r = apply(*p, x);
            touch(r.msg.data(), r.msg.size());
        }
        if (again) {
            Exact b{data};
            auto q = s.buffer(mode, b.p, b.n, ",");
            q->take(*p, true);
            q->next(1);
        }
    };
    if (!conserves(c, job, desc)) return;
    c.feature("sources not opened");
    c.nontrivial(hash_str(s.name, static_cast<uint64_t>(mode) * 4 + file * 2 + again));
}

// rows of many bytes: joined, resplit, moved by the allocator
SCENARIO(long_rows, 8) {
    const Setup& s = any_setup(rng);
    const Mode mode = any_mode(rng);
    const str d = pick_delim(rng, s.cfg);
    Gen g{rng, s.cfg, d};
    str data;
    for (size_t n = rng.range(1, 4); n > 0; --n) {
        strs v;
        for (size_t k = rng.range(1, 4); k > 0; --k) {
            str x = g.value(rng.range(0, 30), true);
            for (size_t m = rng.below(4); m > 0; --m) {
                x.insert(rng.below(x.size() + 1), str(rng.range(1, size_t{1} << rng.range(1, 13)), rng.chance(1, 4) ? ' ' : 'L'));
            }
            v.push_back(g.legal(x, true));
        }
        data += g.row(v) + (rng.chance(1, 4) ? "\r\n" : "\n");
    }
    for (size_t n = rng.below(4); n > 0; --n) data = g.mutate(data, 1);
    if (rng.chance(1, 12)) {
        data = grown_data(rng, s.cfg, d).data;
        c.feature("grown documents");
    }
    if (rng.chance(1, 3)) data.resize(rng.below(data.size() + 1));
    const auto calls = wild_calls(rng, data, s.cfg, d);
    const bool file = rng.chance(1, 2);
    std::unique_ptr<File> f;
    if (file) f = std::make_unique<File>(c, data);
    auto desc = [&] { return describe(s, mode, file, d, data); };
    auto job = [&] {
        Exact b{data};
        auto p = file ? s.file(mode, f->path, d) : s.buffer(mode, b.p, b.n, d);
        for (auto& x : calls) {
            const Result r = apply(*p, x);
            for (auto& v : r.vals) touch(v.data(), v.size());
        }
    };
    if (!conserves(c, job, desc)) return;
    c.feature("bytes of long rows", data.size());
    c.nontrivial(hash_str(data, hash_str(s.name + d)));
}

// lines given to converters in blocks of their size
SCENARIO(converters, 100) {
    const Setup& s = any_setup(rng);
    const Mode mode = any_mode(rng);
    struct Step {
        str line, d;
        int kind, k;
    };
    std::vector<Step> steps;
    str hist;
    for (size_t n = rng.range(1, 8); n > 0; --n) {
        Step x;
        x.d = any_delim(rng, s.cfg);
        x.line = wild(rng, s.cfg, x.d, 60);
        x.line.erase(std::remove(x.line.begin(), x.line.end(), '\0'), x.line.end());
        x.kind = static_cast<int>(rng.below(6));
        x.k = static_cast<int>(rng.range(1, max_arity));
        hist += " " + std::to_string(x.kind) + "/" + std::to_string(x.k) + show(x.line, 200) + show(x.d);
        steps.push_back(x);
    }
    auto desc = [&] { return str{"converter, setup "} + s.name + ", " + mode_name[mode] + " errors, steps" + hist; };
    auto job = [&] {
        auto conv = s.conv(mode);
        std::vector<std::unique_ptr<Exact>> lines;
        bool kept = false;
        for (auto& x : steps) {
            std::vector<std::pair<size_t, size_t>> ranges;
            lines.push_back(std::make_unique<Exact>(x.line + str(1, '\0')));
            char* const line = lines.back()->p;
            Obs o;
            switch (x.kind) {
            case 0:
                o = conv->convert(line, x.k, x.d);
                kept = false;
                break;
            case 1:
            case 2:
                o = conv->split(line, x.d, ranges);
                kept = o.ok;
                if (x.kind == 2 && kept) o = conv->convert_given(x.k);
                break;
            case 3:
                // of the last line which was split, whatever became of it
                o = conv->convert_split(x.k);
                break;
            case 4:
                if (kept) o = conv->convert_given(x.k);
                break;
            default: {
                auto copy = conv->clone();
                o = copy->convert(line, x.k, x.d);
            }
            }
            for (auto& v : o.vals) touch(v.data(), v.size());
        }
    };
    if (!conserves(c, job, desc)) return;
    c.feature("converter calls", steps.size());
    c.nontrivial(hash_str(hist, hash_str(s.name)));
    if (rng.chance(1, 60)) c.sample(desc());
}

namespace {

void run_trace(const tr::Job& j, tr::Trace& out) {
    trace_main(j, out);
}

str number_text(Rng& r) {
    static const str alpha = "0123456789+-.eExXpPinfa \t\0,";
    static const strs heads{"", "-", "+", "0x", "-0x", "1e", "1e-", "0.", "inf", "nan", "-nan(", "NAN", "infinity", ".", "e"};
    str s = r.pick(heads);
    switch (r.below(4)) {
    case 0:
        for (size_t n = r.below(8); n > 0; --n) s += r.pick(alpha);
        break;
    case 1:
        for (size_t n = r.below(30); n > 0; --n) s += static_cast<char>('0' + r.below(10));
        break;
    case 2:
        // around the sizes of buffers
        for (size_t n = r.range(55, 80); n > 0; --n) s += static_cast<char>(r.chance(1, 40) ? r.pick(alpha) : '0' + r.below(10));
        break;
    default:
        for (size_t n = r.below(300); n > 0; --n) s += static_cast<char>('0' + r.below(10));
        if (r.chance(1, 2)) s += "e" + std::to_string(static_cast<int>(r.below(2000)) - 1000);
    }
    return s;
}

template <typename T>
void extract_one(const Exact& e) {
    T v{};
    if (ss::extract(e.p, e.p + e.n, v)) {
        sink = sink + static_cast<unsigned>(v == T{});
    }
}

} // namespace

// texts in blocks of their size, to every type
SCENARIO(texts, 60) {
    const str s = number_text(rng);
    auto job = [&] {
        Exact e{s};
        extract_one<short>(e);
        extract_one<unsigned short>(e);
        extract_one<int>(e);
        extract_one<unsigned>(e);
        extract_one<long>(e);
        extract_one<unsigned long>(e);
        extract_one<long long>(e);
        extract_one<unsigned long long>(e);
        extract_one<float>(e);
        extract_one<double>(e);
        extract_one<bool>(e);
        extract_one<char>(e);
        extract_one<std::string>(e);
        extract_one<std::string_view>(e);
        extract_one<ss::int8>(e);
        extract_one<ss::uint8>(e);
        extract_one<std::optional<double>>(e);
        extract_one<std::optional<int>>(e);
        extract_one<std::variant<int, double, char>>(e);
        extract_one<std::variant<bool, std::string>>(e);
    };
    if (!conserves(c, job, [&] { return "text " + show(s); })) return;
    c.feature("texts");
    c.nontrivial(hash_str(s));
}

// numbers, optionals, variants, restrictions, objects, substitutes, loops
SCENARIO(typed, 60) {
    Cfg cfg = qe_cfg();
    cfg.tl = cfg.tr = " ";
    cfg.ML = true;
    tr::Job j;
    j.kind = tr::Job::TYPED;
    j.mode = any_mode(rng);
    j.delim = rng.chance(1, 2) ? "," : rng.chance(1, 2) ? "::" : "\t";
    j.seed = rng.next();
    Gen g{rng, cfg, j.delim};
    str data;
    if (rng.chance(1, 4)) {
        data = g.row({"a", "b", "c", "d"}) + "\n";
        tr::Call x;
        x.names = {"c", "a", "b"};
        j.calls.push_back(x);
    }
    for (size_t n = rng.range(1, 8); n > 0; --n) {
        Err kind = OK;
        strs f;
        for (size_t k = rng.range(1, 4); k > 0; --k) f.push_back(rng.chance(1, 5) ? g.value(8, true) : number_text(rng));
        data += rng.chance(1, 8) ? g.malformed(3, kind, rng.chance(1, 2)) : g.row(f);
        data += rng.chance(1, 5) ? "\r\n" : "\n";
    }
    if (rng.chance(1, 3)) data.resize(rng.below(data.size() + 1));
    std::unique_ptr<File> f;
    if (rng.chance(1, 3)) {
        f = std::make_unique<File>(c, data);
        j.path = f->path;
    }
    auto desc = [&] { return str{mode_name[j.mode]} + " errors, delimiter " + show(j.delim) + ", data " + show(data, 1500); };
    size_t steps = 0;
    auto job = [&] {
        Exact b{data};
        tr::Trace t;
        if (j.path.empty()) {
            j.data = b.p;
            j.size = b.n;
        }
        run_trace(j, t);
        steps = t.size();
        for (auto& x : t) touch(x.data(), x.size());
        j.data = nullptr;
    };
    if (!conserves(c, job, desc)) return;
    c.feature("typed calls", steps);
    c.nontrivial(hash_str(data, j.seed));
    if (rng.chance(1, 60)) c.sample(desc());
}

namespace {

// views of rows are valid until the next call
template <typename P>
size_t views(P& p, Rng& r) {
    size_t bytes = 0;
    auto use = [&](std::string_view v) {
        touch(v.data(), v.size());
        bytes += v.size();
    };
    for (size_t n = 0; n < 12 && !p.eof(); ++n) {
        try {
            switch (r.below(4)) {
            case 0: {
                const auto v = p.template get_next<std::string_view>();
                if (p.valid()) use(v);
                break;
            }
            case 1: {
                const auto [a, b] = p.template get_next<std::string_view, std::string_view>();
                if (p.valid()) {
                    use(a);
                    use(b);
                }
                break;
            }
            case 2: {
                const auto [a, b, e] = p.template get_next<std::string_view, std::optional<int>, std::variant<bool, std::string_view>>();
                if (p.valid()) {
                    use(a);
                    if (auto* v = std::get_if<std::string_view>(&e)) use(*v);
                    sink = sink + (b ? 1 : 0);
                }
                break;
            }
            default:
                for (const auto& [a, b] : p.template iterate<std::string_view, std::string_view>()) {
                    if (!p.valid()) break;
                    use(a);
                    use(b);
                    if (r.chance(1, 3)) break;
                }
            }
        } catch (const ss::exception&) {
        }
    }
    return bytes;
}

template <typename... O>
void views_case(Ctx& c, Rng& rng, const Cfg& cfg) {
    const str d = rng.chance(1, 2) ? "," : "::";
    const str data = wild(rng, cfg, d, 120);
    const uint64_t seed = rng.next();
    const bool file = rng.chance(1, 2);
    std::unique_ptr<File> f;
    if (file) f = std::make_unique<File>(c, data);
    size_t bytes = 0;
    auto job = [&] {
        Exact b{data};
        Rng r{seed};
        if (file) {
            ss::parser<O...> p{f->path, d};
            bytes += views(p, r);
        } else {
            ss::parser<O...> p{b.p, b.n, d};
            bytes += views(p, r);
        }
    };
    if (!conserves(c, job, [&] { return "views of " + show(data); })) return;
    c.feature("bytes of views", bytes);
    c.nontrivial(hash_str(data, seed));
}

} // namespace

SCENARIO(views, 40) {
    Cfg q = qe_cfg(), e = qe_cfg(), none;
    q.ML = e.ML = true;
    e.tl = e.tr = " ";
    e.IE = true;
    switch (rng.below(4)) {
    case 0: views_case<>(c, rng, none); break;
    case 1: views_case<ss::quote<'"'>, ss::escape<'\\'>, ss::multiline>(c, rng, q); break;
    case 2: views_case<ss::quote<'"'>, ss::escape<'\\'>, ss::multiline, ss::trim<' '>, ss::ignore_empty>(c, rng, e); break;
    default: views_case<ss::quote<'"'>, ss::escape<'\\'>, ss::multiline, ss::throw_on_error>(c, rng, q);
    }
}
