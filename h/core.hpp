// Harness core: deterministic randomness, case bookkeeping, failure reports.
// Every case is a pure function of (VERIF_SEED, scenario name, case index), so a
// replay needs nothing but those three.
#pragma once
#include <algorithm>
#include <cctype>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <unordered_set>
#include <utility>
#include <vector>

namespace h {

using str = std::string;
using strs = std::vector<std::string>;

inline uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

inline uint64_t hash_bytes(const void* data, size_t n, uint64_t seed = 0) {
    const auto* p = static_cast<const unsigned char*>(data);
    uint64_t x = 1469598103934665603ull ^ seed;
    for (size_t i = 0; i < n; ++i) {
        x = (x ^ p[i]) * 1099511628211ull;
    }
    return mix(x ^ n);
}

inline uint64_t hash_str(const str& s, uint64_t seed = 0) {
    return hash_bytes(s.data(), s.size(), seed);
}

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s{seed} {
    }
    uint64_t next() {
        s += 0x9e3779b97f4a7c15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    // [0, n)
    size_t below(size_t n) {
        return n == 0 ? 0 : static_cast<size_t>(next() % n);
    }
    // [a, b]
    size_t range(size_t a, size_t b) {
        return a + below(b - a + 1);
    }
    bool chance(unsigned num, unsigned den) {
        return below(den) < num;
    }
    template <typename T>
    const T& pick(const std::vector<T>& v) {
        return v[below(v.size())];
    }
    char pick(const str& v) {
        return v[below(v.size())];
    }
};

inline str show(const str& s, size_t max = 600) {
    str out = "\"";
    char buf[8];
    for (size_t i = 0; i < s.size() && i < max; ++i) {
        const unsigned char c = static_cast<unsigned char>(s[i]);
        if (c == '\n') {
            out += "\\n";
        } else if (c == '\r') {
            out += "\\r";
        } else if (c == '\t') {
            out += "\\t";
        } else if (c == '"' || c == '\\') {
            out += '\\';
            out += static_cast<char>(c);
        } else if (c < 32 || c >= 127) {
            std::snprintf(buf, sizeof(buf), "\\x%02x", c);
            out += buf;
        } else {
            out += static_cast<char>(c);
        }
    }
    out += '"';
    if (s.size() > max) {
        out += "...(" + std::to_string(s.size()) + " bytes)";
    }
    return out;
}

inline str show(const strs& v, size_t max = 600) {
    str out = "[";
    for (size_t i = 0; i < v.size(); ++i) {
        out += (i ? ", " : "") + show(v[i], max);
    }
    return out + "]";
}

inline str json_escape(const str& s) {
    str out;
    char buf[8];
    for (char ch : s) {
        const unsigned char c = static_cast<unsigned char>(ch);
        if (c == '"' || c == '\\') {
            out += '\\';
            out += ch;
        } else if (c < 32 || c >= 127) {
            std::snprintf(buf, sizeof(buf), "\\u%04x", c);
            out += buf;
        } else {
            out += ch;
        }
    }
    return out;
}

struct Failure {
    str key, scen, detail;
    uint64_t idx;
};

struct Ctx {
    uint64_t seed = 1;
    str scen;
    uint64_t idx = 0;
    str scratch;       // directory for files of this process
    bool verbose = false;
    bool memory_only = false; // the workload is used for its executions only

    uint64_t evaluations = 0;
    uint64_t events = 0; // things compared by an oracle
    std::unordered_set<uint64_t> distinct;
    std::map<str, uint64_t> features;
    std::vector<str> samples;
    std::vector<Failure> failures;
    std::map<str, uint64_t> fail_counts;

    // counts one observed non trivial case
    void nontrivial(uint64_t hash) {
        if (distinct.size() < 3000000) {
            distinct.insert(hash);
        }
    }
    void feature(const char* name, uint64_t n = 1) {
        features[name] += n;
    }
    void feature_if(bool b, const char* name) {
        features[name] += b ? 1 : 0;
    }
    void sample(const str& s) {
        if (samples.size() < 4) {
            samples.push_back(s);
        }
    }
    void fail(const str& key, const str& detail) {
        if (memory_only && key != "unexpected-exception") {
            return;
        }
        if (++fail_counts[key] <= 3) {
            failures.push_back({key, scen, detail, idx});
        }
        if (verbose) {
            std::fprintf(stderr, "FAIL %s %s#%llu: %s\n", key.c_str(),
                         scen.c_str(), (unsigned long long)idx, detail.c_str());
        }
    }
    // oracle comparison; returns true on agreement
    template <typename A, typename B>
    bool expect(const A& got, const B& want, const char* key,
                const std::function<str()>& detail) {
        ++events;
        if (got == want) {
            return true;
        }
        fail(key, detail());
        return false;
    }
    bool check(bool cond, const char* key, const std::function<str()>& detail) {
        ++events;
        if (!cond) {
            fail(key, detail());
        }
        return cond;
    }
};

using ScenFn = void (*)(Ctx&, Rng&);
struct Scenario {
    const char* name;
    ScenFn fn;
    unsigned weight; // cases = cases_per_unit * weight / 100
};

inline std::vector<Scenario>& scenarios() {
    static std::vector<Scenario> s;
    return s;
}

struct Register {
    Register(const char* n, ScenFn f, unsigned w) {
        scenarios().push_back({n, f, w});
    }
};

#define SCENARIO(name, weight)                                                 \
    static void scen_##name(h::Ctx& c, h::Rng& rng);                           \
    static h::Register reg_##name{#name, scen_##name, weight};                 \
    static void scen_##name([[maybe_unused]] h::Ctx& c,                        \
                            [[maybe_unused]] h::Rng& rng)

struct File {
    str path;
    File(const Ctx& c, const str& data) : path{c.scratch + "/f.csv"} {
        write(data);
    }
    File(const Ctx& c, const str& data, const char* name)
        : path{c.scratch + "/" + name} {
        write(data);
    }
    void write(const str& data) {
        int fd = ::open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        if (fd < 0) {
            std::perror("harness: open");
            std::_Exit(90);
        }
        size_t off = 0;
        while (off < data.size()) {
            const auto n = ::write(fd, data.data() + off, data.size() - off);
            if (n <= 0) {
                std::perror("harness: write");
                std::_Exit(90);
            }
            off += static_cast<size_t>(n);
        }
        ::close(fd);
    }
    ~File() {
        ::unlink(path.c_str());
    }
    File(const File&) = delete;
};

int harness_main(int argc, char** argv);

} /* namespace h */
