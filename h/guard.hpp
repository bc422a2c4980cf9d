// Memory which ends (or begins) next to an inaccessible page.
#pragma once
#include "core.hpp"

namespace h {

struct Guarded {
    char* base = nullptr;
    size_t pages = 0, page = 4096, total = 0;
    char* p = nullptr; // the data
    size_t n = 0;

    // the last byte of s lies in front of an inaccessible page (at_end), or
    // the first one behind one
    explicit Guarded(const str& s, bool at_end = true) : n{s.size()} {
        pages = (n + page - 1) / page;
        if (pages == 0) pages = 1;
        total = (pages + 2) * page;
        base = static_cast<char*>(::mmap(nullptr, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        if (base == MAP_FAILED) {
            std::perror("harness: mmap");
            std::_Exit(90);
        }
        p = at_end ? base + (1 + pages) * page - n : base + page;
        std::memset(base + page, '~', pages * page);
        std::memcpy(p, s.data(), n);
        protect(base, page, PROT_NONE);
        protect(base + (1 + pages) * page, page, PROT_NONE);
    }
    void read_only() {
        protect(base + page, pages * page, PROT_READ);
    }
    // everything but the data is as it was
    bool surroundings() const {
        const char* const b = base + page;
        const char* const e = b + pages * page;
        for (const char* x = b; x < p; ++x) {
            if (*x != '~') return false;
        }
        for (const char* x = p + n; x < e; ++x) {
            if (*x != '~') return false;
        }
        return true;
    }
    bool unchanged(const str& s) const {
        return std::memcmp(p, s.data(), n) == 0 && surroundings();
    }
    ~Guarded() {
        ::munmap(base, total);
    }
    Guarded(const Guarded&) = delete;

private:
    static void protect(char* a, size_t n, int prot) {
        if (::mprotect(a, n, prot) != 0) {
            std::perror("harness: mprotect");
            std::_Exit(90);
        }
    }
};

} /* namespace h */
