// Accounts for everything a parser allocates and opens.
#pragma once
#include "alloc.hpp"
#include "run.hpp"

namespace h {

// tracks the allocations made during the calls on another one
struct Tracked : ISut {
    std::unique_ptr<ISut> in;
    template <typename F>
    explicit Tracked(F&& make) {
        alloc::Track t;
        in = make();
    }
    ~Tracked() override {
        alloc::Track t;
        in.reset();
    }
#define TRACKED(CALL)                                                          \
    {                                                                          \
        alloc::Track t;                                                        \
        return in->CALL;                                                       \
    }
    Obs next(int k) override TRACKED(next(k))
    Obs iterate_rest(int k, size_t max, std::vector<strs>& rows) override
        TRACKED(iterate_rest(k, max, rows))
    bool ignore_next() override TRACKED(ignore_next())
    Obs header() override TRACKED(header())
    Obs raw_header() override TRACKED(raw_header())
    Obs field_exists(const str& f) override TRACKED(field_exists(f))
    Obs use_fields(const strs& f) override TRACKED(use_fields(f))
    State state() override TRACKED(state())
    Obs open() override TRACKED(open())
    void move_construct() override TRACKED(move_construct())
    void move_assign(const char* o, size_t n) override TRACKED(move_assign(o, n))
    str error_msg() override TRACKED(error_msg())
    void take(ISut& other, bool assign) override
        TRACKED(take(*static_cast<Tracked&>(other).in, assign))
    void destroy() override TRACKED(destroy())
#undef TRACKED
};

// the descriptor which would be opened next
inline int lowest_fd() {
    const int fd = ::open("/dev/null", O_RDONLY | O_CLOEXEC);
    ::close(fd);
    return fd;
}

// what has to hold when everything is destroyed
struct Resources {
    int fd;
    Resources() {
        alloc::reset();
        fd = lowest_fd();
    }
    bool check(Ctx& c, const std::function<str()>& desc) {
        bool ok = c.expect(lowest_fd(), fd, "file-left-open", desc);
        if (alloc::active()) {
            c.feature("allocations", alloc::count());
            ok = c.expect(alloc::live(), size_t{0}, "memory-leaked", [&] {
                return std::to_string(alloc::live()) + " blocks with " +
                       std::to_string(alloc::live_bytes()) +
                       " bytes not freed; " + desc();
            }) && ok;
            ok = c.expect(alloc::double_frees(), size_t{0}, "freed-twice", desc) && ok;
            ok = c.expect(alloc::overruns(), size_t{0}, "written-past-the-end", desc) && ok;
            ok = c.expect(alloc::late_writes(), size_t{0}, "written-after-free", desc) && ok;
        }
        alloc::reset();
        return ok;
    }
};

} /* namespace h */
