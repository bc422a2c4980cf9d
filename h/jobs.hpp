// Random jobs of any kind, with what they point to, and other locales.
#pragma once
#include "both.hpp"
#include <clocale>
#include <locale>
#include <spawn.h>
#include <sys/stat.h>
#include <sys/wait.h>

namespace h {

// locales built for this process, with another decimal point, other letters
inline const strs& locales(const Ctx& c) {
    static strs names;
    static bool done = false;
    if (done) return names;
    done = true;
    static const std::vector<std::pair<str, str>> wanted{
        {"de_DE", "UTF-8"}, {"ps_AF", "UTF-8"}, {"tr_TR", "ISO-8859-9"}, {"fr_FR", "ISO-8859-1"}};
    const str dir = c.scratch + "/locales";
    ::mkdir(dir.c_str(), 0700);
    for (auto& [name, charset] : wanted) {
        const str full = name + "." + charset;
        const str out = dir + "/" + full;
        const char* const argv[] = {"localedef", "-c",           "--quiet",       "--no-archive", "-i", name.c_str(),
                                    "-f",        charset.c_str(), out.c_str(), nullptr};
        pid_t pid = 0;
        if (::posix_spawnp(&pid, "localedef", nullptr, nullptr, const_cast<char**>(argv), environ) != 0) continue;
        int status = 0;
        ::waitpid(pid, &status, 0);
    }
    ::setenv("LOCPATH", dir.c_str(), 1);
    for (auto& [name, charset] : wanted) {
        const str full = name + "." + charset;
        if (std::setlocale(LC_ALL, full.c_str())) names.push_back(full);
    }
    std::setlocale(LC_ALL, "C");
    return names;
}

struct Grouping : std::numpunct<char> {
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '.'; }
    std::string do_grouping() const override { return "\1"; }
    std::string do_truename() const override { return "ja"; }
    std::string do_falsename() const override { return "nein"; }
};

// a job and what it points to
struct Held {
    tr::Job j;
    std::unique_ptr<File> f;
    std::unique_ptr<Exact> b;
    str text;
};

inline void give(Held& x, Ctx& c, Rng& rng, const str& data, bool file, const char* name) {
    if (file) {
        x.f = std::make_unique<File>(c, data, name);
        x.j.path = x.f->path;
    } else {
        x.b = std::make_unique<Exact>(data);
        x.j.data = x.b->p;
        x.j.size = x.b->n;
    }
    x.text += str{file ? ", file " : ", buffer "} + show(data, 1200);
}

inline Held make_parser(Ctx& c, Rng& rng, const char* name) {
    Held x;
    const Setup& s = any_setup(rng);
    x.j.setup = s.name;
    x.j.mode = any_mode(rng);
    x.j.delim = pick_delim(rng, s.cfg);
    str data = any_data(rng, s.cfg, x.j.delim);
    data.erase(std::remove(data.begin(), data.end(), '\0'), data.end());
    if (rng.chance(1, 8)) data.insert(rng.below(data.size() + 1), str(rng.range(60, 700), 'L'));
    if (rng.chance(1, 6)) {
        // so that numbers in messages have several digits
        str lines;
        for (size_t n = rng.range(100, 1200); n > 0; --n) lines += "x\n";
        data = lines + data;
    }
    x.text = "parser, setup " + s.name + ", " + mode_name[x.j.mode] + " errors, calls";
    x.j.calls = convert_calls(make_calls(rng, data, s.cfg, x.j.delim, 3, 40, 1), x.text);
    give(x, c, rng, data, rng.chance(1, 2), name);
    return x;
}

inline Held make_converter(Ctx&, Rng& rng) {
    Held x;
    const Setup& s = any_setup(rng);
    x.j.kind = tr::Job::CONVERTER;
    x.j.mode = any_mode(rng);
    x.j.setup = s.name;
    x.j.delim = pick_delim(rng, s.cfg);
    x.text = "converter, setup " + s.name + ", " + mode_name[x.j.mode] + " errors, lines";
    Gen g{rng, s.cfg, x.j.delim};
    for (size_t n = rng.range(1, 8); n > 0; --n) {
        Err kind = OK;
        const size_t cols = rng.range(1, 5);
        str line = rng.chance(1, 4)   ? g.malformed(cols, kind, false)
                   : rng.chance(1, 5) ? g.hostile(rng.below(30))
                                      : g.row(g.values(cols, true));
        line.erase(std::remove(line.begin(), line.end(), '\0'), line.end());
        tr::Call y;
        y.k = static_cast<int>(rng.chance(1, 8) ? rng.range(1, max_arity) : cols);
        x.j.calls.push_back(y);
        x.j.lines.push_back(line);
        x.text += " " + show(line, 100);
    }
    return x;
}

inline str field(Rng& r) {
    static const strs pool{"1,5", "1.5", "-2.25", "1e5", "1.000,5", "1.000", "0.5", ".5", "5.", ",5", "inf", "nan", "true",
                           "ja", "TRUE", "I", "\xa0", "\xa0" "1", "1\xa0", "\xfd", "\xd9\xab", "1\xd9\xab" "5", "3.", "x", "",
                           "12", "-7", "300", "99999999999", "1e400", "1e-400", "0.1", "16777217.0"};
    return r.chance(1, 2) ? r.pick(pool) : agreed_field(r);
}

inline Held make_typed(Ctx& c, Rng& rng, const char* name) {
    Held x;
    Cfg cfg = qe_cfg();
    cfg.tl = cfg.tr = " ";
    cfg.ML = true;
    x.j.kind = tr::Job::TYPED;
    x.j.mode = any_mode(rng);
    x.j.delim = rng.chance(1, 2) ? ";" : rng.chance(1, 2) ? "::" : "\t";
    x.j.seed = rng.next();
    Gen g{rng, cfg, x.j.delim};
    str data;
    for (size_t n = rng.range(1, 10); n > 0; --n) {
        Err kind = OK;
        strs f;
        for (size_t k = rng.range(2, 4); k > 0; --k) f.push_back(field(rng));
        data += rng.chance(1, 12) ? g.malformed(3, kind, true) : g.row(f);
        data += rng.chance(1, 5) ? "\r\n" : "\n";
    }
    x.text = str{"typed reads, "} + mode_name[x.j.mode] + " errors, delimiter " + show(x.j.delim);
    give(x, c, rng, data, rng.chance(1, 3), name);
    return x;
}

inline Held make_job(Ctx& c, Rng& rng, const char* name) {
    switch (rng.below(5)) {
    case 0: return make_converter(c, rng);
    case 1:
    case 2: return make_parser(c, rng, name);
    default: return make_typed(c, rng, name);
    }
}

} // namespace h
