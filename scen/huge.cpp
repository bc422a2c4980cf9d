// Sources and lines of more than 4 GiB, so that numbers which are kept in 32
// bits would be noticed. The memory of a few megabytes is mapped again and
// again. Used by several properties: -DCHECK_POSITIONS, -DCHECK_ROWS.
#include "core.hpp"
#include <csignal>
#include <memory>
#include <thread>
#ifdef USE_SINGLE_HEADER
#include "ssp.hpp"
#else
#include <ss/parser.hpp>
#endif
using namespace h;

#ifdef CHECK_POSITIONS
constexpr bool positions = true, rows = false;
#else
constexpr bool positions = false, rows = true;
#endif

constexpr size_t MB = 1 << 20;

// the same unit repeated, followed by a tail
struct Repeated {
    char* p = nullptr;
    size_t n = 0, reserved = 0;
    Repeated(const str& unit, size_t times, const str& tail) {
        const int fd = ::memfd_create("unit", 0);
        if (fd < 0 || ::write(fd, unit.data(), unit.size()) != static_cast<ssize_t>(unit.size())) fail();
        n = unit.size() * times + tail.size();
        reserved = unit.size() * times + 2 * MB;
        p = static_cast<char*>(::mmap(nullptr, reserved, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        if (p == MAP_FAILED) fail();
        for (size_t i = 0; i < times; ++i) {
            if (::mmap(p + i * unit.size(), unit.size(), PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) fail();
        }
        std::memcpy(p + unit.size() * times, tail.data(), tail.size());
        ::close(fd);
    }
    static void fail() {
        std::perror("harness: mapping");
        std::_Exit(90);
    }
    ~Repeated() {
        ::munmap(p, reserved);
    }
};

static str unit_of_rows(size_t rows_per_unit, size_t row) {
    str u;
    for (size_t i = 0; i < rows_per_unit; ++i) {
        str r = std::to_string(i) + ",";
        r.resize(row - 1, static_cast<char>('a' + i % 26));
        u += r + "\n";
    }
    return u;
}

template <typename P>
static void many_rows(Ctx& c, P& p, size_t per_unit, size_t row, size_t times, const char* what) {
    size_t n = 0;
    auto desc = [&] { return str{what} + ": at row " + std::to_string(n) + " of " + std::to_string(row) + " bytes"; };
    for (; n < per_unit * times; ++n) {
        if (positions) {
            if (!c.check(p.position() == n * row, "position", [&] { return "position " + std::to_string(p.position()) + " instead of " + std::to_string(n * row) + ", " + desc(); })) return;
            if (!c.check(p.line() == n, "line", desc)) return;
        }
        const auto [i, text] = p.template get_next<size_t, std::string_view>();
        if (rows) {
            const size_t k = n % per_unit;
            if (!c.check(p.valid() && !p.eof() && i == k && text.size() == row - 2 - std::to_string(k).size(), "row", desc)) return;
            if (!c.check(text.front() == static_cast<char>('a' + k % 26) && text.back() == text.front(), "row-text", desc)) return;
        }
    }
    const auto [a, b] = p.template get_next<size_t, std::string_view>();
    if (rows) c.check(p.valid() && a == 77 && b == "end" && p.eof(), "last-row", desc);
    if (positions) c.check(p.line() == n + 1 && p.position() == n * row + 7, "position", [&] { return "position " + std::to_string(p.position()) + " at the end, " + desc(); });
    c.feature("bytes beyond 4 GiB", n * row - (size_t{4} << 30));
    c.nontrivial(hash_str(what, n));
}

constexpr size_t per = 8, row_size = MB / 2, times_4g = 1030;

SCENARIO(buffer, 1) {
    const Repeated d{unit_of_rows(per, row_size), times_4g, "77,end\n"};
    ss::parser<> p{d.p, d.n};
    many_rows(c, p, per, row_size, times_4g, "buffer");
}

SCENARIO(pipe, 1) {
    const str unit = unit_of_rows(per, row_size);
    int fd[2];
    if (::pipe(fd) != 0) Repeated::fail();
    static_cast<void>(::fcntl(fd[1], F_SETPIPE_SZ, static_cast<int>(MB)));
    const str path = "/proc/self/fd/" + std::to_string(fd[0]);
    if (::access(path.c_str(), R_OK) != 0) {
        ::close(fd[0]);
        ::close(fd[1]);
        return;
    }
    std::signal(SIGPIPE, SIG_IGN);
    std::thread writer{[&] {
        auto put = [&](const str& s) {
            for (size_t at = 0; at < s.size();) {
                const auto k = ::write(fd[1], s.data() + at, s.size() - at);
                if (k <= 0) return false;
                at += static_cast<size_t>(k);
            }
            return true;
        };
        bool ok = true;
        for (size_t i = 0; i < times_4g && ok; ++i) ok = put(unit);
        if (ok) put("77,end\n");
        ::close(fd[1]);
    }};
    {
        ss::parser<> p{path};
        ::close(fd[0]);
        many_rows(c, p, per, row_size, times_4g, "file");
    }
    writer.join();
}

// one line of more than 4 GiB
SCENARIO(line, 1) {
    const size_t units = 1030;
    const Repeated d{str(4 * MB, 'x'), units, ",tail\n77,end\n"};
    ss::parser<> p{d.p, d.n};
    const size_t len = units * 4 * MB;
    const auto [a, b] = p.get_next<std::string_view, std::string_view>();
    auto desc = [&] { return "columns of " + std::to_string(a.size()) + " and " + std::to_string(b.size()) + " bytes, position " + std::to_string(p.position()); };
    if (rows) {
        if (!c.check(p.valid() && a.size() == len && b == "tail", "long-row", desc)) return;
        c.check(a.front() == 'x' && a[len / 2] == 'x' && a.back() == 'x', "long-row", desc);
    }
    if (positions && !c.check(p.position() == len + 6 && p.line() == 1, "position", desc)) return;
    const auto [i, e] = p.get_next<int, std::string_view>();
    if (rows) c.check(p.valid() && i == 77 && e == "end" && p.eof(), "row-behind-long-row", desc);
    if (positions) c.check(p.position() == d.n && p.line() == 2, "position", desc);
    c.feature("lines beyond 4 GiB");
    c.nontrivial(len);
}
