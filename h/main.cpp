#include "core.hpp"
#include <csignal>
#include <exception>
#include <sys/time.h>

namespace h {

static volatile uint64_t* progress = nullptr;

// a case which uses far more processor time than any case needs does not end;
// processor time, so that a loaded machine makes no difference
static void on_cpu_limit(int) {
    if (progress) {
        progress[4] = 1;
    }
    _exit(93);
}

static void arm(long seconds) {
    struct itimerval t;
    std::memset(&t, 0, sizeof(t));
    t.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &t, nullptr);
}

static void write_out(const str& path, const Ctx& c) {
    FILE* f = std::fopen(path.c_str(), "w");
    if (!f) {
        std::perror("harness: out");
        std::_Exit(90);
    }
    std::fprintf(f, "{\"evaluations\":%llu,\"events\":%llu,\"distinct\":%zu,",
                 (unsigned long long)c.evaluations,
                 (unsigned long long)c.events, c.distinct.size());
    std::fprintf(f, "\"features\":{");
    bool first = true;
    for (auto& [k, v] : c.features) {
        std::fprintf(f, "%s\"%s\":%llu", first ? "" : ",", k.c_str(),
                     (unsigned long long)v);
        first = false;
    }
    std::fprintf(f, "},\"samples\":[");
    first = true;
    for (auto& s : c.samples) {
        std::fprintf(f, "%s\"%s\"", first ? "" : ",", json_escape(s).c_str());
        first = false;
    }
    std::fprintf(f, "],\"fail_counts\":{");
    first = true;
    for (auto& [k, v] : c.fail_counts) {
        std::fprintf(f, "%s\"%s\":%llu", first ? "" : ",",
                     json_escape(k).c_str(), (unsigned long long)v);
        first = false;
    }
    std::fprintf(f, "},\"failures\":[");
    first = true;
    for (auto& x : c.failures) {
        std::fprintf(f,
                     "%s{\"key\":\"%s\",\"scen\":\"%s\",\"idx\":%llu,"
                     "\"detail\":\"%s\"}",
                     first ? "" : ",", json_escape(x.key).c_str(),
                     x.scen.c_str(), (unsigned long long)x.idx,
                     json_escape(x.detail).c_str());
        first = false;
    }
    std::fprintf(f, "]}\n");
    std::fclose(f);
}

int harness_main(int argc, char** argv) {
    Ctx c;
    long cpu_limit = 30;
    uint64_t unit = 1000, shard = 0, shards = 1, skip_to = 0;
    long long only = -1;
    str scen, out, prog, skip_scen;
    for (int i = 1; i + 1 < argc; i += 2) {
        const str a = argv[i], v = argv[i + 1];
        if (a == "--seed") c.seed = std::strtoull(v.c_str(), nullptr, 10);
        else if (a == "--unit") unit = std::strtoull(v.c_str(), nullptr, 10);
        else if (a == "--shard") shard = std::strtoull(v.c_str(), nullptr, 10);
        else if (a == "--shards") shards = std::strtoull(v.c_str(), nullptr, 10);
        else if (a == "--scen") scen = v;
        else if (a == "--only") only = std::strtoll(v.c_str(), nullptr, 10);
        else if (a == "--out") out = v;
        else if (a == "--cpu-limit") cpu_limit = std::atol(v.c_str());
        else if (a == "--progress") prog = v;
        else if (a == "--scratch") c.scratch = v;
        else if (a == "--verbose") c.verbose = v == "1";
        else if (a == "--memory-only") c.memory_only = v == "1";
        else if (a == "--skip-scen") skip_scen = v;
        else if (a == "--skip-to") skip_to = std::strtoull(v.c_str(), nullptr, 10);
        else {
            std::fprintf(stderr, "harness: bad argument %s\n", a.c_str());
            return 91;
        }
    }
    if (!prog.empty()) {
        int fd = ::open(prog.c_str(), O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ::ftruncate(fd, 256) != 0) {
            return 91;
        }
        void* m = ::mmap(nullptr, 256, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        ::close(fd);
        if (m == MAP_FAILED) {
            return 91;
        }
        progress = static_cast<uint64_t*>(m);
    }

    std::signal(SIGPROF, on_cpu_limit);

    bool skipping = !skip_scen.empty();
    auto& list = scenarios();
    std::sort(list.begin(), list.end(), [](auto& a, auto& b) {
        return std::strcmp(a.name, b.name) < 0;
    });
    for (size_t si = 0; si < list.size(); ++si) {
        auto& s = list[si];
        if (!scen.empty() && scen != s.name) {
            continue;
        }
        uint64_t from_case = 0;
        if (skipping) {
            if (skip_scen != s.name) {
                continue;
            }
            skipping = false;
            from_case = skip_to;
        }
        c.scen = s.name;
        if (progress) {
            std::strncpy(reinterpret_cast<char*>(const_cast<uint64_t*>(progress + 8)), s.name, 63);
        }
        uint64_t cases = unit * s.weight / 100;
        if (cases == 0) {
            cases = 1;
        }
        if (only >= 0) {
            cases = static_cast<uint64_t>(only) + 1;
        }
        for (uint64_t i = only >= 0 ? static_cast<uint64_t>(only) : 0; i < cases;
             ++i) {
            if (only < 0 && i % shards != shard) {
                continue;
            }
            if (i < from_case) {
                continue;
            }
            c.idx = i;
            arm(cpu_limit);
            if (progress) {
                progress[1] = si;
                progress[2] = i;
                progress[0] = progress[0] + 1;
            }
            Rng rng{mix(mix(c.seed) ^ hash_str(s.name) ^ mix(i * 2 + 1))};
            try {
                s.fn(c, rng);
            } catch (const std::exception& e) {
                c.fail("unexpected-exception",
                       str{"exception escaped to the user: "} + e.what());
            } catch (...) {
                c.fail("unexpected-exception", "unknown exception escaped");
            }
            ++c.evaluations;
        }
        c.features[str{"scenario:"} + s.name] += cases;
    }
    arm(0);
    if (progress) {
        progress[3] = 1;
    }
    if (!out.empty()) {
        write_out(out, c);
    }
    if (only >= 0 && c.verbose) {
        for (auto& s : c.samples) {
            std::fprintf(stderr, "sample: %s\n", s.c_str());
        }
    }
    return c.fail_counts.empty() ? 0 : 7;
}

} /* namespace h */

int main(int argc, char** argv) {
    return h::harness_main(argc, argv);
}
