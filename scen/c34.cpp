// C34: results depend on the data and the calls only. Every job runs in a
// plain surrounding first, then again after the state of the process has been
// changed in ways a user's program may change it.
#include "jobs.hpp"
#include "live.hpp"
#include <cerrno>
using namespace h;

void trace_alt(const tr::Job& job, tr::Trace& out) {
    trace_main(job, out);
}

namespace {

__attribute__((noinline)) void fill_stack(int byte) {
    volatile char a[48 * 1024];
    for (size_t i = 0; i < sizeof(a); ++i) a[i] = static_cast<char>(byte);
}

struct Plain {
    ~Plain() {
        std::setlocale(LC_ALL, "C");
        std::locale::global(std::locale::classic());
        live::fill(-1);
        errno = 0;
    }
};

void run_one(Ctx& c, Rng& rng, const Held& x) {
    tr::Trace base;
    {
        Plain plain;
        live::fill(0);
        fill_stack(0);
        errno = 0;
        trace_main(x.j, base);
    }
    static const std::vector<int> errors{ENOMEM, ERANGE, EINTR, EAGAIN, EINVAL, EBADF, 0};
    for (size_t n = rng.range(1, 3); n > 0; --n) {
        tr::Trace got;
        str how;
        {
            Plain plain;
            tr::Job j = x.j;
            // another job made before or in between
            const bool other = rng.chance(1, 2);
            Held y;
            tr::Trace ignored;
            if (other) {
                y = make_job(c, rng, "other.csv");
                if (rng.chance(1, 2)) {
                    how += " after another job (" + y.text + ")";
                    trace_main(y.j, ignored);
                } else {
                    how += " interleaved with another job (" + y.text + ")";
                    j.between = [&] {
                        ignored.clear();
                        tr::Job z = y.j;
                        if (z.calls.size() > 4 && z.kind == tr::Job::PARSER) z.calls.resize(4);
                        trace_main(z, ignored);
                    };
                }
                c.feature("runs with other jobs");
            }
            if (rng.chance(1, 2) && !locales(c).empty()) {
                const str& l = rng.pick(locales(c));
                std::setlocale(LC_ALL, l.c_str());
                how += " in locale " + l;
                c.feature("runs in other locales");
            }
            if (rng.chance(1, 4)) {
                std::locale::global(std::locale(std::locale(), new Grouping));
                how += " with a global std::locale";
                c.feature("runs with a global std::locale");
            }
            const int byte = static_cast<int>(rng.below(256));
            if (rng.chance(2, 3)) {
                live::fill(byte);
                fill_stack(byte);
                how += " with memory filled with " + std::to_string(byte);
                c.feature("runs with filled memory");
            }
            errno = rng.pick(errors);
            how += " errno " + std::to_string(errno);
            trace_main(j, got);
        }
        for (size_t i = 0; i < std::max(base.size(), got.size()); ++i) {
            ++c.events;
            const str a = i < base.size() ? base[i] : str{"nothing"};
            const str b = i < got.size() ? got[i] : str{"nothing"};
            if (a != b) {
                c.fail("depends-on-surroundings", "step " + std::to_string(i) + ": " + a + " but " + b + how + "; " + x.text);
                return;
            }
        }
        c.feature("equal runs");
    }
    c.feature("steps", base.size());
}

} // namespace

SCENARIO(jobs, 100) {
    locales(c);
    Rng side{rng.next()};
    const Held x = make_job(c, rng, "f.csv");
    run_one(c, side, x);
    c.nontrivial(hash_str(x.text, x.j.seed));
    if (rng.chance(1, 60)) c.sample(x.text);
}

// texts to all number types and the rest
SCENARIO(texts, 60) {
    locales(c);
    str s;
    for (size_t n = rng.range(1, 2); n > 0; --n) s += field(rng);
    auto run = [&] {
        str out;
        auto one = [&](auto v) {
            using T = decltype(v);
            const Exact e{s};
            const bool ok = ss::extract(e.p, e.p + e.n, v);
            out += Ref<T>::name() + (ok ? " " + Ref<T>::show_value(v) : str{" none"}) + "; ";
        };
        one(0);
        one(0L);
        one(0.0f);
        one(0.0);
        one(false);
        one('a');
        one(std::string{});
        one(std::optional<double>{});
        one(std::variant<int, float, bool>{});
        one(short{0});
        one(static_cast<unsigned long long>(0));
        return out;
    };
    const str base = run();
    for (auto& l : locales(c)) {
        Plain plain;
        std::setlocale(LC_ALL, l.c_str());
        const int byte = static_cast<int>(rng.below(256));
        live::fill(byte);
        fill_stack(byte);
        errno = rng.chance(1, 2) ? ERANGE : 0;
        const str got = run();
        if (!c.expect(got, base, "depends-on-surroundings", [&] { return "text " + show(s) + " in " + l + " gives " + got + " but otherwise " + base; })) return;
        c.feature("texts in other locales");
    }
    c.nontrivial(hash_str(s));
}
