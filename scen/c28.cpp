// C28: objects used by different threads do not interfere.
// Every job is run alone first; then jobs run at the same time in several
// threads, on the same files and buffers, and have to give the same traces.
// Built with ThreadSanitizer, which reports unsynchronised accesses.
#define TRACE_FN trace_main
#include "../h/trace.cpp"
#include "both.hpp"
#include <atomic>
#include <thread>

void trace_alt(const tr::Job& job, tr::Trace& out) {
    trace_main(job, out);
}

namespace {

struct Task {
    tr::Job job;
    tr::Trace alone;
    str text;
};

// starts all threads at once, as well as that can be done
struct Start {
    std::atomic<size_t> waiting{0};
    size_t n;
    explicit Start(size_t k) : n{k} {
    }
    void wait() {
        // relaxed: the threads do not synchronise with each other
        waiting.fetch_add(1, std::memory_order_relaxed);
        while (waiting.load(std::memory_order_relaxed) < n) std::this_thread::yield();
    }
};

str converter_line(Rng& r, Gen& g, const Cfg& cfg, const str& d) {
    for (;;) {
        Err kind = OK;
        str line = r.chance(1, 4) ? g.malformed(3, kind, true) : g.row(g.values(r.range(1, 4), true));
        line.erase(std::remove(line.begin(), line.end(), '\0'), line.end());
        const Scan sc = scan_row(line, cfg, d);
        if (!cfg.ML || (sc.err != UNTERM_QUOTE && sc.err != UNTERM_ESCAPE)) return line;
    }
}

} // namespace

SCENARIO(threads, 100) {
    const size_t n = rng.range(2, 6);
    // sources shared by the threads
    std::vector<std::unique_ptr<File>> files;
    std::vector<std::unique_ptr<Exact>> bufs;
    std::vector<Task> pool;
    const size_t kinds = rng.range(1, 4);
    for (size_t k = 0; k < kinds; ++k) {
        Task t;
        tr::Job& j = t.job;
        j.mode = any_mode(rng);
        j.seed = rng.next();
        j.kind = rng.chance(1, 3) ? tr::Job::TYPED : rng.chance(1, 3) ? tr::Job::CONVERTER : tr::Job::PARSER;
        const Setup& s = any_setup(rng);
        j.setup = s.name;
        str data;
        if (j.kind == tr::Job::TYPED) {
            Cfg cfg = qe_cfg();
            cfg.tl = cfg.tr = " ";
            cfg.ML = true;
            j.delim = rng.chance(1, 2) ? "," : "::";
            Gen g{rng, cfg, j.delim};
            const bool fields = rng.chance(1, 3);
            if (fields) {
                data = g.row({"a", "b", "c"}) + "\n";
                tr::Call x;
                x.names = {"c", "a", "b"};
                j.calls.push_back(x);
            }
            for (size_t r = rng.range(2, 12); r > 0; --r) {
                Err kind = OK;
                data += rng.chance(1, 12) ? g.malformed(3, kind, true)
                                          : g.row({agreed_field(rng), agreed_field(rng), agreed_field(rng)});
                data += "\n";
            }
            c.feature("typed jobs");
        } else if (j.kind == tr::Job::CONVERTER) {
            j.delim = pick_delim(rng, s.cfg);
            Gen g{rng, s.cfg, j.delim};
            for (size_t r = rng.range(2, 10); r > 0; --r) {
                tr::Call x;
                x.k = static_cast<int>(rng.range(1, 4));
                j.calls.push_back(x);
                j.lines.push_back(converter_line(rng, g, s.cfg, j.delim));
                t.text += " " + show(j.lines.back(), 60);
            }
            c.feature("converter jobs");
        } else {
            j.delim = pick_delim(rng, s.cfg);
            data = any_data(rng, s.cfg, j.delim, 12);
            j.calls = convert_calls(make_calls(rng, data, s.cfg, j.delim, 3, 40, 1), t.text);
            c.feature("parser jobs");
        }
        if (j.kind != tr::Job::CONVERTER) {
            if (rng.chance(1, 2)) {
                files.push_back(std::make_unique<File>(c, data, ("f" + std::to_string(k) + ".csv").c_str()));
                j.path = files.back()->path;
                c.feature("shared files");
            } else {
                bufs.push_back(std::make_unique<Exact>(data));
                j.data = bufs.back()->p;
                j.size = bufs.back()->n;
                c.feature("shared buffers");
            }
            t.text += " of " + show(data, 600);
        }
        pool.push_back(std::move(t));
    }
    // which jobs each thread runs
    std::vector<std::vector<size_t>> plan(n);
    for (auto& p : plan) {
        for (size_t k = rng.range(1, 5); k > 0; --k) p.push_back(rng.below(pool.size()));
    }
    std::vector<std::vector<tr::Trace>> got(n);
    std::vector<uint64_t> pauses;
    for (size_t i = 0; i < n; ++i) pauses.push_back(rng.next());

    auto run = [&](bool first_alone) {
        if (first_alone) {
            for (auto& t : pool) trace_main(t.job, t.alone);
        }
        Start start{n};
        std::vector<std::thread> threads;
        for (size_t i = 0; i < n; ++i) {
            threads.emplace_back([&, i] {
                Rng r{pauses[i]};
                got[i].resize(plan[i].size());
                start.wait();
                for (size_t k = 0; k < plan[i].size(); ++k) {
                    // other interleavings
                    for (size_t y = r.below(3); y > 0; --y) std::this_thread::yield();
                    trace_main(pool[plan[i][k]].job, got[i][k]);
                }
            });
        }
        for (auto& t : threads) t.join();
        if (!first_alone) {
            for (auto& t : pool) trace_main(t.job, t.alone);
        }
    };
    // anything set up by a first use is set up by threads, too
    run(rng.chance(1, 2));

    for (size_t i = 0; i < n; ++i) {
        for (size_t k = 0; k < plan[i].size(); ++k) {
            const Task& t = pool[plan[i][k]];
            c.feature("concurrent jobs");
            const auto& a = got[i][k];
            if (!c.check(a == t.alone, "thread-dependent-result", [&] {
                    size_t x = 0;
                    while (x < a.size() && x < t.alone.size() && a[x] == t.alone[x]) ++x;
                    return "thread " + std::to_string(i) + " of " + std::to_string(n) + ": " +
                           (x < a.size() ? a[x] : str{"nothing"}) + " instead of " +
                           (x < t.alone.size() ? t.alone[x] : str{"nothing"}) + "; setup " + t.job.setup + ", " +
                           mode_name[t.job.mode] + " errors," + t.text;
                })) {
                return;
            }
        }
    }
    c.feature("threads", n);
    str all;
    for (auto& t : pool) all += t.text + t.job.setup;
    c.nontrivial(hash_str(all));
    if (rng.chance(1, 40)) c.sample(std::to_string(n) + " threads:" + all);
}

// parsers handed from thread to thread
SCENARIO(handed_over, 50) {
    const Setup& s = any_setup(rng);
    const Mode mode = any_mode(rng);
    const str d = pick_delim(rng, s.cfg);
    const str data = any_data(rng, s.cfg, d, 10);
    const bool file = rng.chance(1, 2);
    Exact b{data};
    std::unique_ptr<File> f;
    if (file) f = std::make_unique<File>(c, data);
    const auto calls = make_calls(rng, data, s.cfg, d, 3, 30, 1);
    auto open = [&] { return file ? s.file(mode, f->path, d) : s.buffer(mode, b.p, b.n, d); };
    strs alone;
    {
        auto t = open();
        for (auto& x : calls) alone.push_back(show_result(apply(*t, x)));
    }
    // several chains of threads side by side, each with its own parser
    const size_t n = rng.range(1, 3);
    std::vector<strs> got(n);
    std::vector<size_t> steps;
    for (size_t i = 0; i < n; ++i) steps.push_back(rng.range(1, 6));
    std::vector<std::thread> chains;
    for (size_t i = 0; i < n; ++i) {
        chains.emplace_back([&, i] {
            std::unique_ptr<ISut> t;
            std::thread([&] { t = open(); }).join();
            for (size_t k = 0; k < calls.size();) {
                std::thread([&] {
                    for (size_t e = k + steps[i]; k < e && k < calls.size(); ++k) {
                        got[i].push_back(show_result(apply(*t, calls[k])));
                    }
                }).join();
            }
            std::thread([&] { t.reset(); }).join();
        });
    }
    for (auto& t : chains) t.join();
    for (auto& g : got) {
        c.feature("parsers handed over");
        if (!c.check(g == alone, "thread-dependent-result", [&] { return describe(s, mode, file, d, data); })) return;
    }
    c.nontrivial(hash_str(data, hash_str(s.name + d)));
}

// the same work by many threads: types, numbers, restrictions, messages
SCENARIO(same_work, 50) {
    tr::Job j;
    j.kind = tr::Job::TYPED;
    j.mode = any_mode(rng);
    j.delim = ",";
    j.seed = rng.next();
    const Cfg cfg = qe_cfg();
    Gen g{rng, cfg, ","};
    str data;
    for (size_t n = rng.range(2, 20); n > 0; --n) {
        data += g.row({agreed_field(rng), agreed_field(rng), agreed_field(rng)}) + "\n";
    }
    Exact b{data};
    j.data = b.p;
    j.size = b.n;
    constexpr size_t n = 8;
    std::vector<tr::Trace> got(n);
    Start start{n};
    std::vector<std::thread> threads;
    for (size_t i = 0; i < n; ++i) {
        threads.emplace_back([&, i] {
            start.wait();
            trace_main(j, got[i]);
        });
    }
    for (auto& t : threads) t.join();
    for (auto& x : got) {
        c.feature("equal traces");
        if (!c.check(x == got[0], "thread-dependent-result", [&] { return "data " + show(data, 1500); })) return;
    }
    c.nontrivial(hash_str(data, j.seed));
}

// sources which cannot be opened, the same ones by many threads
SCENARIO(not_opened, 20) {
    const Setup& s = any_setup(rng);
    const Mode mode = any_mode(rng);
    const bool file = rng.chance(1, 2);
    const str path = c.scratch + "/none-" + std::to_string(rng.below(100));
    constexpr size_t n = 4;
    Exact b{"a,b\n1,2\n3,4\n"};
    std::vector<str> got(n);
    Start start{n};
    std::vector<std::thread> threads;
    for (size_t i = 0; i < n; ++i) {
        threads.emplace_back([&, i] {
            start.wait();
            auto p = file ? s.file(mode, path, ",") : s.buffer(mode, nullptr, 0, ",");
            const Obs o = p->open();
            got[i] = o.msg + (o.ok ? " ok" : "") + (o.threw ? " threw" : "");
            if (!o.threw) got[i] += p->next(2).msg;
            // a parser which takes over another one, without a delimiter
            auto a = s.buffer(mode, b.p, b.n, "");
            auto q = s.buffer(mode, b.p, b.n, ",");
            q->next(1);
            q->take(*a, true);
            got[i] += q->next(1).msg + q->next(1).msg;
        });
    }
    for (auto& t : threads) t.join();
    for (auto& x : got) {
        c.feature("sources not opened");
        if (!c.check(x == got[0], "thread-dependent-result", [&] { return x + " and " + got[0] + "; setup " + s.name + (file ? ", missing file" : ", null buffer"); })) return;
    }
    c.nontrivial(hash_str(s.name, static_cast<uint64_t>(mode) * 2 + file));
}
