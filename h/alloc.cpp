#include "alloc.hpp"
#include <cerrno>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sys/mman.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#define STUBS 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer) || __has_feature(memory_sanitizer)
#define STUBS 1
#endif
#endif

#ifdef STUBS
namespace alloc {
bool active() { return false; }
void on() {}
void off() {}
Pause::Pause() : was{false} {}
Pause::~Pause() {}
size_t live() { return 0; }
size_t live_bytes() { return 0; }
size_t count() { return 0; }
size_t double_frees() { return 0; }
size_t overruns() { return 0; }
size_t late_writes() { return 0; }
void fail_at(long) {}
bool failed() { return false; }
void reset() {}
} // namespace alloc
#else

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_realloc(void*, size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_memalign(size_t, size_t);
}

namespace {

constexpr size_t guard = 64;
constexpr unsigned char canary = 0xc5, dead = 0xdd;

struct Block {
    void* p;
    size_t n;
    int state; // 0 unused, 1 live, 2 freed and kept
};

constexpr size_t slots = 1 << 16;
Block table[slots];
uint32_t order[slots]; // the used slots
size_t used = 0, live_n = 0, live_b = 0, count_n = 0, doubles = 0, damaged = 0, late = 0;
long fail_n = -1;
bool did_fail = false;
bool tracking = false;
bool any = false; // the table is in use

size_t slot_of(void* p) {
    uint64_t x = reinterpret_cast<uint64_t>(p) >> 4;
    x *= 0x9e3779b97f4a7c15ull;
    return static_cast<size_t>(x >> 48) % slots;
}
Block* find(void* p) {
    for (size_t i = slot_of(p), k = 0; k < slots; i = (i + 1) % slots, ++k) {
        if (!table[i].p) return nullptr;
        if (table[i].p == p) return &table[i];
    }
    return nullptr;
}
void insert(void* p, size_t n) {
    if (used * 2 > slots) {
        static const char msg[] = "harness: allocation table full\n";
        (void)!write(2, msg, sizeof(msg) - 1);
        _exit(91);
    }
    for (size_t i = slot_of(p);; i = (i + 1) % slots) {
        if (!table[i].p) {
            table[i] = {p, n, 1};
            order[used++] = static_cast<uint32_t>(i);
            ++live_n;
            live_b += n;
            any = true;
            return;
        }
    }
}

bool denied() {
    ++count_n;
    if (fail_n >= 0 && fail_n-- == 0) {
        did_fail = true;
        errno = ENOMEM;
        return true;
    }
    return false;
}

void* tracked(size_t n) {
    void* p = __libc_malloc(n + guard);
    if (!p) return nullptr;
    std::memset(p, 0xab, n);
    std::memset(static_cast<char*>(p) + n, canary, guard);
    insert(p, n);
    return p;
}

void release(Block* b) {
    const auto* g = static_cast<unsigned char*>(b->p) + b->n;
    for (size_t i = 0; i < guard; ++i) {
        if (g[i] != canary) {
            ++damaged;
            break;
        }
    }
    std::memset(b->p, dead, b->n);
    b->state = 2;
    --live_n;
    live_b -= b->n;
}

} // namespace

extern "C" {

void* malloc(size_t n) {
    if (!tracking) return __libc_malloc(n);
    if (denied()) return nullptr;
    return tracked(n);
}

void free(void* p) {
    if (!p) return;
    if (any) {
        if (Block* b = find(p)) {
            if (b->state == 1) {
                release(b);
            } else {
                ++doubles;
            }
            return;
        }
    }
    __libc_free(p);
}

void* calloc(size_t a, size_t b) {
    if (!tracking) return __libc_calloc(a, b);
    if (denied()) return nullptr;
    void* p = tracked(a * b);
    if (p) std::memset(p, 0, a * b);
    return p;
}

void* realloc(void* p, size_t n) {
    Block* b = p && any ? find(p) : nullptr;
    if (!b && (!tracking || p)) {
        if (tracking && denied()) return nullptr;
        return __libc_realloc(p, n);
    }
    if (tracking && denied()) return nullptr;
    if (b && b->state != 1) {
        ++doubles;
        b = nullptr;
    }
    // always moves
    void* q = tracked(n);
    if (q && b) {
        std::memcpy(q, p, b->n < n ? b->n : n);
        // the table may not have moved: slots are fixed
        release(b);
    }
    return q;
}
}

namespace alloc {

bool active() { return true; }
void on() { tracking = true; }
void off() { tracking = false; }
Pause::Pause() : was{tracking} { tracking = false; }
Pause::~Pause() { tracking = was; }
size_t live() { return live_n; }
size_t live_bytes() { return live_b; }
size_t count() { return count_n; }
size_t double_frees() { return doubles; }
size_t overruns() { return damaged; }
size_t late_writes() {
    for (size_t o = 0; o < used; ++o) {
        const size_t i = order[o];
        if (table[i].state != 2) continue;
        const auto* p = static_cast<unsigned char*>(table[i].p);
        for (size_t k = 0; k < table[i].n; ++k) {
            if (p[k] != dead) {
                ++late;
                break;
            }
        }
    }
    return late;
}
void fail_at(long n) {
    fail_n = n;
    did_fail = false;
}
bool failed() { return did_fail; }
void reset() {
    if (used == 0) {
        count_n = doubles = damaged = late = 0;
        fail_n = -1;
        did_fail = false;
        return;
    }
    for (size_t o = 0; o < used; ++o) {
        const size_t i = order[o];
        // what leaked is leaked for good
        if (table[i].state == 2) __libc_free(table[i].p);
        table[i] = {nullptr, 0, 0};
    }
    used = live_n = live_b = count_n = doubles = damaged = late = 0;
    fail_n = -1;
    did_fail = false;
    any = false;
}

} // namespace alloc
#endif
