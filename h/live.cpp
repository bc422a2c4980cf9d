#include "live.hpp"
#include <cstdlib>
#include <cstring>
#include <malloc.h>

#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#define STUBS 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
#define STUBS 1
#endif
#endif

#ifdef STUBS
namespace live {
bool active() { return false; }
size_t bytes() { return 0; }
void fill(int) {}
} // namespace live
#else

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_realloc(void*, size_t);
}

namespace {
size_t total = 0;
int pattern = -1;
} // namespace

// what is not allocated here is neither added nor filled; it is subtracted by
// free, so that only differences between two moments mean something
extern "C" {
void* malloc(size_t n) {
    void* p = __libc_malloc(n);
    if (p) {
        total += malloc_usable_size(p);
        if (pattern >= 0) std::memset(p, pattern, n);
    }
    return p;
}
void free(void* p) {
    if (p) {
        total -= malloc_usable_size(p);
        if (pattern >= 0) std::memset(p, pattern, malloc_usable_size(p));
        __libc_free(p);
    }
}
void* calloc(size_t a, size_t b) {
    size_t n = 0;
    if (__builtin_mul_overflow(a, b, &n)) return nullptr;
    void* p = malloc(n);
    if (p) std::memset(p, 0, n);
    return p;
}
void* realloc(void* p, size_t n) {
    const size_t old = p ? malloc_usable_size(p) : 0;
    void* q = __libc_realloc(p, n);
    if (q) {
        const size_t now = malloc_usable_size(q);
        total += now - old;
        if (pattern >= 0 && n > old) std::memset(static_cast<char*>(q) + old, pattern, n - old);
    }
    return q;
}
}

namespace live {
bool active() { return true; }
size_t bytes() { return total; }
void fill(int byte) { pattern = byte; }
} // namespace live
#endif
