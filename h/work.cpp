// Counts while work::on is set. Built with -fsanitize-coverage=trace-pc and
// --wrap for the functions below.
#include "work.hpp"
#include <cstdlib>
#include <cstring>
#include <new>

#define PLAIN __attribute__((no_sanitize("coverage")))

namespace work {
bool on = false;
uint64_t units = 0;
bool reallocs = false;
} // namespace work

static inline PLAIN void add(size_t bytes) {
    if (work::on) work::units += bytes / 8 + 1;
}

extern "C" {
PLAIN void __sanitizer_cov_trace_pc() {
    if (work::on) ++work::units;
}
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t);
void* __real_memchr(const void*, int, size_t);
size_t __real_strlen(const char*);
int __real_strncmp(const char*, const char*, size_t);
char* __real_strchr(const char*, int);
char* __real_strstr(const char*, const char*);
void* __real_realloc(void*, size_t);
char* __real_strrchr(const char*, int);
size_t __real_strnlen(const char*, size_t);
int __real_strcmp(const char*, const char*);
size_t __real_strspn(const char*, const char*);
size_t __real_strcspn(const char*, const char*);
void* __real_memrchr(const void*, int, size_t);
void* __real_memmem(const void*, size_t, const void*, size_t);

PLAIN void* __wrap_memcpy(void* a, const void* b, size_t n) {
    add(n);
    return __real_memcpy(a, b, n);
}
PLAIN void* __wrap_memmove(void* a, const void* b, size_t n) {
    add(n);
    return __real_memmove(a, b, n);
}
PLAIN void* __wrap_memset(void* a, int c, size_t n) {
    add(n);
    return __real_memset(a, c, n);
}
PLAIN int __wrap_memcmp(const void* a, const void* b, size_t n) {
    add(n);
    return __real_memcmp(a, b, n);
}
PLAIN void* __wrap_memchr(const void* a, int c, size_t n) {
    void* r = __real_memchr(a, c, n);
    add(r ? static_cast<size_t>(static_cast<const char*>(r) - static_cast<const char*>(a)) : n);
    return r;
}
PLAIN size_t __wrap_strlen(const char* s) {
    const size_t n = __real_strlen(s);
    add(n);
    return n;
}
PLAIN int __wrap_strncmp(const char* a, const char* b, size_t n) {
    size_t k = 0;
    while (k < n && a[k] == b[k] && a[k] != '\0') ++k;
    add(k);
    return __real_strncmp(a, b, n);
}
PLAIN char* __wrap_strchr(const char* s, int c) {
    char* r = __real_strchr(s, c);
    add(r ? static_cast<size_t>(r - s) : __real_strlen(s));
    return r;
}
PLAIN char* __wrap_strstr(const char* s, const char* t) {
    char* r = __real_strstr(s, t);
    add(r ? static_cast<size_t>(r - s) : __real_strlen(s));
    return r;
}
PLAIN void* __wrap_realloc(void* a, size_t n) {
    if (work::reallocs) add(n);
    return __real_realloc(a, n);
}
PLAIN char* __wrap_strrchr(const char* s, int c) {
    add(__real_strlen(s));
    return __real_strrchr(s, c);
}
PLAIN size_t __wrap_strnlen(const char* s, size_t n) {
    const size_t r = __real_strnlen(s, n);
    add(r);
    return r;
}
PLAIN int __wrap_strcmp(const char* a, const char* b) {
    size_t k = 0;
    while (a[k] == b[k] && a[k] != '\0') ++k;
    add(k);
    return __real_strcmp(a, b);
}
PLAIN size_t __wrap_strspn(const char* a, const char* b) {
    const size_t r = __real_strspn(a, b);
    add(r);
    return r;
}
PLAIN size_t __wrap_strcspn(const char* a, const char* b) {
    const size_t r = __real_strcspn(a, b);
    add(r);
    return r;
}
PLAIN void* __wrap_memrchr(const void* a, int c, size_t n) {
    void* r = __real_memrchr(a, c, n);
    add(r ? n - static_cast<size_t>(static_cast<const char*>(r) - static_cast<const char*>(a)) : n);
    return r;
}
PLAIN void* __wrap_memmem(const void* a, size_t n, const void* b, size_t m) {
    void* r = __real_memmem(a, n, b, m);
    add(r ? static_cast<size_t>(static_cast<const char*>(r) - static_cast<const char*>(a)) : n);
    return r;
}
}

PLAIN void* operator new(size_t n) {
    add(n);
    if (void* p = std::malloc(n ? n : 1)) return p;
    throw std::bad_alloc{};
}
PLAIN void* operator new[](size_t n) {
    add(n);
    if (void* p = std::malloc(n ? n : 1)) return p;
    throw std::bad_alloc{};
}
PLAIN void operator delete(void* p) noexcept {
    std::free(p);
}
PLAIN void operator delete[](void* p) noexcept {
    std::free(p);
}
PLAIN void operator delete(void* p, size_t) noexcept {
    std::free(p);
}
PLAIN void operator delete[](void* p, size_t) noexcept {
    std::free(p);
}
