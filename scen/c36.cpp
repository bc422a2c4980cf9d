// C36: nothing of the process changes but the objects themselves. The state of
// the process is recorded before a job, after each of its calls, within
// conversions, and after it.
#include "jobs.hpp"
#include <cfenv>
#include <csignal>
#include <dirent.h>
#include <exception>
#include <fcntl.h>
#include <pthread.h>
#include <iomanip>
#include <iostream>
#include <new>
#include <stdio_ext.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <xmmintrin.h>
using namespace h;

void trace_alt(const tr::Job& job, tr::Trace& out) {
    trace_main(job, out);
}

namespace {

using Snap = std::vector<std::pair<str, str>>;

str num(long long n) {
    return std::to_string(n);
}

str hex(const void* p, size_t n) {
    str out;
    for (size_t i = 0; i < n; ++i) {
        static const char digits[] = "0123456789abcdef";
        const unsigned char b = static_cast<const unsigned char*>(p)[i];
        out += digits[b >> 4];
        out += digits[b & 15];
    }
    return out;
}

// state which may be looked at anywhere
void arithmetic(Snap& s) {
    const char* l = std::setlocale(LC_ALL, nullptr);
    s.emplace_back("the locale", l ? l : "");
    s.emplace_back("the locale of the thread", uselocale(nullptr) == LC_GLOBAL_LOCALE ? "global" : "other");
    s.emplace_back("the rounding mode", num(std::fegetround()));
    // without the flags of past operations
    s.emplace_back("the floating point control", num(_mm_getcsr() & ~0x3fu));
}

// descriptors of the process, with what they are open for and where
str descriptors(bool places) {
    str out;
    DIR* d = ::opendir("/proc/self/fd");
    std::vector<int> fds;
    while (const dirent* e = ::readdir(d)) {
        const int fd = std::atoi(e->d_name);
        if (e->d_name[0] != '.' && fd != ::dirfd(d)) fds.push_back(fd);
    }
    ::closedir(d);
    std::sort(fds.begin(), fds.end());
    for (int fd : fds) {
        out += num(fd) + ":" + num(::fcntl(fd, F_GETFL)) + ":" + num(::fcntl(fd, F_GETFD));
        if (places) out += ":" + num(::lseek(fd, 0, SEEK_CUR));
        out += " ";
    }
    return out;
}

str tree(const str& dir) {
    strs names;
    DIR* d = ::opendir(dir.c_str());
    if (!d) return "none";
    while (const dirent* e = ::readdir(d)) names.push_back(e->d_name);
    ::closedir(d);
    std::sort(names.begin(), names.end());
    str out;
    for (auto& n : names) {
        if (n == "." || n == "..") continue;
        struct stat st {};
        ::lstat((dir + "/" + n).c_str(), &st);
        out += n + ":" + num(st.st_mode) + ":" + num(st.st_size) + ":" + num(static_cast<long long>(st.st_ino)) + ":" + num(st.st_mtim.tv_sec) + "." +
               num(st.st_mtim.tv_nsec) + ":" + num(static_cast<long long>(st.st_nlink)) + " ";
    }
    return out;
}

size_t tasks() {
    size_t n = 0;
    DIR* d = ::opendir("/proc/self/task");
    while (const dirent* e = ::readdir(d)) n += e->d_name[0] != '.';
    ::closedir(d);
    return n;
}

struct Watch {
    str dir, printed;
    int keep[3];
    bool all;

    Watch(const str& d, bool a) : dir{d}, printed{d + "/../printed"}, all{a} {
        // the standard streams are files, the input one in the middle
        std::fflush(nullptr);
        std::cout.flush();
        for (int i = 0; i < 3; ++i) keep[i] = ::fcntl(i, F_DUPFD_CLOEXEC, 100);
        const int in = ::open((dir + "/../input").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
        if (::write(in, "one\ntwo\nthree\n", 14) != 14) std::_Exit(90);
        ::lseek(in, 4, SEEK_SET);
        const int out = ::open(printed.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600);
        ::dup2(in, 0);
        ::dup2(out, 1);
        ::dup2(out, 2);
        ::close(in);
        ::close(out);
        std::srand(7);
    }
    ~Watch() {
        for (int i = 0; i < 3; ++i) {
            ::dup2(keep[i], i);
            ::close(keep[i]);
        }
        ::chdir("/");
    }

    // after a call: the parser holds a descriptor of its own
    Snap light() const {
        Snap s;
        arithmetic(s);
        s.emplace_back("the C++ locale", std::locale().name());
        std::fflush(stdout);
        std::cout.flush();
        struct stat st {};
        ::stat(printed.c_str(), &st);
        s.emplace_back("the number of bytes printed", num(st.st_size));
        s.emplace_back("the place in the standard input", num(::lseek(0, 0, SEEK_CUR)));
        s.emplace_back("the number of uncaught exceptions", num(std::uncaught_exceptions()));
        return s;
    }

    Snap full() const {
        Snap s = light();
        s.emplace_back("descriptors", descriptors(true));
        s.emplace_back("files", tree(dir));
        char cwd[4096];
        s.emplace_back("the working directory", ::getcwd(cwd, sizeof cwd) ? cwd : "none");
        str env;
        for (char** e = environ; *e; ++e) env += str{*e} + "\n";
        s.emplace_back("the environment", env);
        const mode_t mask = ::umask(0);
        ::umask(mask);
        s.emplace_back("the file creation mask", num(mask));
        sigset_t set;
        ::sigemptyset(&set);
        ::pthread_sigmask(SIG_SETMASK, nullptr, &set);
        str sig;
        for (int i = 1; i < 65; ++i) sig += ::sigismember(&set, i) == 1 ? '1' : '0';
        s.emplace_back("the signal mask", sig);
        sig.clear();
        for (int i = 1; i < 65; ++i) {
            struct sigaction a {};
            if (::sigaction(i, nullptr, &a) != 0) continue;
            void (*h)(int) = a.sa_handler;
            sig += hex(&h, sizeof h) + num(a.sa_flags) + " ";
        }
        s.emplace_back("the signal handlers", sig);
        str limits;
        for (int i = 0; i < 16; ++i) {
            rlimit l{};
            if (::getrlimit(static_cast<__rlimit_resource>(i), &l) == 0) limits += num(static_cast<long long>(l.rlim_cur)) + "/" + num(static_cast<long long>(l.rlim_max)) + " ";
        }
        s.emplace_back("the limits", limits);
        str timers;
        for (auto which : {ITIMER_REAL, ITIMER_VIRTUAL}) {
            itimerval t{};
            ::getitimer(which, &t);
            timers += num(t.it_value.tv_sec || t.it_value.tv_usec) + " ";
        }
        s.emplace_back("the timers", timers);
        s.emplace_back("the threads", num(static_cast<long long>(tasks())));
        int status = 0;
        s.emplace_back("the child processes", num(::waitpid(-1, &status, WNOHANG)));
        const auto nh = std::get_new_handler();
        const auto th = std::get_terminate();
        s.emplace_back("the handlers", hex(&nh, sizeof nh) + hex(&th, sizeof th));
        auto stream = [](const std::ios& x) {
            const auto* b = x.rdbuf();
            return num(x.flags()) + "/" + num(x.precision()) + "/" + num(x.width()) + "/" + num(x.fill()) + "/" + num(x.exceptions()) + "/" + num(x.rdstate()) + "/" +
                   hex(&b, sizeof b) + x.getloc().name() + " ";
        };
        s.emplace_back("the streams", stream(std::cin) + stream(std::cout) + stream(std::cerr) + stream(std::clog) + num(static_cast<long long>(__fbufsize(stdin))) +
                                          num(__flbf(stdout)) + num(__flbf(stderr)));
        s.emplace_back("the nice value", num(::getpriority(PRIO_PROCESS, 0)));
        return s;
    }

    // whether nobody took a random number
    static bool random_untouched() {
        const int a = std::rand();
        std::srand(7);
        const int b = std::rand();
        std::srand(7);
        return a == b;
    }
};

bool same(Ctx& c, const Snap& a, const Snap& b, const std::function<str()>& desc, const char* when) {
    for (size_t i = 0; i < a.size(); ++i) {
        ++c.events;
        if (a[i].second != b[i].second) {
            c.fail("process-changed", a[i].first + " changed " + when + " from " + show(a[i].second, 300) + " to " + show(b[i].second, 300) + "; " + desc());
            return false;
        }
    }
    return true;
}

// changes what a program may have changed before, so that resetting it shows
struct Custom {
    str text;
    const char* var = nullptr;
    mode_t mask = 0;
    int rounding = FE_TONEAREST;
    Custom(Ctx& c, Rng& r, const str& dir) {
        if (r.chance(2, 3) && !locales(c).empty()) {
            const str& l = r.pick(locales(c));
            std::setlocale(LC_ALL, l.c_str());
            text += " locale " + l;
            c.feature("in other locales");
        }
        if (r.chance(1, 2)) {
            std::locale::global(std::locale(std::locale(), new Grouping));
            text += " global std::locale";
        }
        mask = ::umask(r.chance(1, 2) ? 077 : 022);
        if (r.chance(1, 2) && ::chdir(dir.c_str()) != 0) std::_Exit(90);
        std::cout << std::hex << std::setfill('*');
        std::signal(SIGUSR1, SIG_IGN);
        std::signal(SIGPIPE, r.chance(1, 2) ? SIG_IGN : SIG_DFL);
        sigset_t s;
        ::sigemptyset(&s);
        ::sigaddset(&s, SIGUSR2);
        if (r.chance(1, 2)) ::pthread_sigmask(SIG_BLOCK, &s, nullptr);
    }
    ~Custom() {
        std::setlocale(LC_ALL, "C");
        std::locale::global(std::locale::classic());
        std::cout << std::dec << std::setfill(' ');
        ::umask(mask);
        std::signal(SIGUSR1, SIG_DFL);
        std::signal(SIGPIPE, SIG_DFL);
        sigset_t s;
        ::sigemptyset(&s);
        ::sigaddset(&s, SIGUSR2);
        ::pthread_sigmask(SIG_UNBLOCK, &s, nullptr);
    }
};

// a type which looks at the process while it is converted
struct Spy {
    Snap seen;
};

str directory(Ctx& c) {
    const str dir = c.scratch + "/here";
    ::mkdir(dir.c_str(), 0700);
    return dir;
}

} // namespace

namespace ss {
template <>
inline bool extract(const char* begin, const char* end, Spy& s) {
    s.seen.clear();
    arithmetic(s.seen);
    return begin == end || *begin != 'x';
}
} // namespace ss

SCENARIO(jobs, 100) {
    locales(c);
    const str dir = directory(c);
    Held x = make_job(c, rng, "here/f.csv");
    Rng side{rng.next()};
    bool ok = true;
    {
        Custom custom{c, side, dir};
        auto desc = [&] { return x.text + custom.text; };
        tr::Trace t;
        Snap a, b, first, later;
        bool random = true;
        size_t calls = 0;
        {
            Watch w{dir, true};
            a = w.full();
            first = w.light();
            x.j.between = [&] {
                ++calls;
                if (!ok) return;
                Snap s = w.light();
                if (s != first) {
                    ok = false;
                    later = s;
                }
            };
            trace_main(x.j, t);
            b = w.full();
            random = Watch::random_untouched();
        }
        if (!ok) same(c, first, later, desc, "during a call");
        ok = ok && same(c, a, b, desc, "by the job");
        ok = ok && c.check(random, "random-numbers-taken", desc);
        c.feature("calls watched", calls);
        c.feature(x.j.kind == tr::Job::CONVERTER ? "converter jobs" : x.f ? "jobs on files" : "jobs on buffers");
        x.j.between = nullptr;
    }
    c.nontrivial(hash_str(x.text, x.j.seed));
    if (rng.chance(1, 60)) c.sample(x.text);
}

// sources which cannot be opened, and how files are opened
SCENARIO(opening, 30) {
    const Setup& s = any_setup(rng);
    const str dir = directory(c);
    const Mode mode = any_mode(rng);
    const size_t kind = rng.below(4);
    File f{c, "a,b\n1,2\n3,4\n", "here/f.csv"};
    const str path = kind == 0 ? dir + "/none.csv" : kind == 1 ? dir + "/none/f.csv" : f.path;
    if (kind == 3) ::chmod(f.path.c_str(), 0400);
    Rng side{rng.next()};
    auto desc = [&] { return str{"opening "} + (kind < 2 ? "a missing file" : "a file") + ", setup " + s.name + ", " + mode_name[mode] + " errors"; };
    Custom custom{c, side, dir};
    Snap a, b;
    str flags;
    size_t held = 0;
    {
        Watch w{dir, true};
        a = w.full();
        {
            auto p = s.file(mode, path, ",");
            if (!p->open().threw) p->next(2);
            // the descriptors of the parser
            std::vector<std::pair<dev_t, ino_t>> ids;
            struct stat st {};
            ::stat(f.path.c_str(), &st);
            for (int fd = 3; fd < 100; ++fd) {
                struct stat o {};
                if (::fstat(fd, &o) != 0 || o.st_ino != st.st_ino || o.st_dev != st.st_dev) continue;
                ++held;
                if ((::fcntl(fd, F_GETFL) & O_ACCMODE) != O_RDONLY) flags = num(::fcntl(fd, F_GETFL));
            }
        }
        b = w.full();
    }
    same(c, a, b, desc, "by opening");
    c.check(flags.empty(), "opened-for-writing", [&] { return "flags " + flags + "; " + desc(); });
    c.check(held <= 1, "opened-several-times", [&] { return num(static_cast<long long>(held)) + " descriptors; " + desc(); });
    c.feature(kind < 2 ? "files which are missing" : "files opened");
    c.nontrivial(hash_str(s.name + custom.text, kind * 3 + static_cast<uint64_t>(mode)));
}

// within conversions
SCENARIO(inside, 40) {
    locales(c);
    const str dir = directory(c);
    str data;
    for (size_t n = rng.range(1, 12); n > 0; --n) {
        data += (rng.chance(1, 8) ? "x" : field(rng)) + ";" + field(rng) + ";" + field(rng) + "\n";
    }
    File f{c, data, "here/f.csv"};
    Exact b{data};
    const bool file = rng.chance(1, 2);
    Rng side{rng.next()};
    const size_t how = rng.below(4);
    Custom custom{c, side, dir};
    auto desc = [&] { return "data " + show(data, 800) + custom.text; };
    Snap first;
    arithmetic(first);
    bool ok = true;
    auto look = [&](const Spy& s) {
        c.feature("conversions looked into");
        if (ok && !s.seen.empty()) ok = same(c, first, s.seen, desc, "within a conversion");
    };
    auto all = [&](auto& p) {
        while (!p.eof() && ok) {
            switch (how) {
            case 0: {
                auto [x, d, y] = p.template get_next<Spy, std::optional<double>, Spy>();
                look(x);
                look(y);
                break;
            }
            case 1: {
                auto [d, x, v] = p.template get_next<std::optional<float>, Spy, std::variant<int, double, std::string>>();
                look(x);
                break;
            }
            case 2:
                for (auto& [d, x, y] : p.template iterate<double, Spy, std::string>()) {
                    look(x);
                    break;
                }
                break;
            default: {
                auto [x, y] = p.template try_next<double, float, int>()
                                  .template or_else<std::optional<double>, Spy, Spy>([&](auto&, auto& s, auto& t) {
                                      look(s);
                                      look(t);
                                  })
                                  .values();
            }
            }
            Snap s;
            arithmetic(s);
            if (ok) ok = same(c, first, s, desc, "during a call");
        }
    };
    if (file) {
        ss::parser<ss::string_error> p{f.path, ";"};
        all(p);
    } else {
        ss::parser<ss::string_error> p{b.p, b.n, ";"};
        all(p);
    }
    c.nontrivial(hash_str(data, how * 2 + file));
}
