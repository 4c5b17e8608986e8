// LD_PRELOAD: every request made by libindicators (malloc family or operator new) fails when VP_OOM=1
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <dlfcn.h>
#include <cstddef>
#include <cstring>
#include <cstdlib>
#include <new>
extern "C" { void *__libc_malloc(size_t); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); }
static bool on(void *ra) {
    static int s = -1;
    if (s < 0) { const char *e = getenv("VP_OOM"); s = e && *e == '1'; }
    Dl_info i;
    return s && dladdr(ra, &i) && i.dli_fname && strstr(i.dli_fname, "libindicators");
}
#define RA __builtin_return_address(0)
extern "C" void *malloc(size_t n) { return on(RA) ? nullptr : __libc_malloc(n); }
extern "C" void *calloc(size_t a, size_t b) { return on(RA) ? nullptr : __libc_calloc(a, b); }
extern "C" void *realloc(void *p, size_t n) { return on(RA) ? nullptr : __libc_realloc(p, n); }
void *operator new(size_t n) { if (on(RA)) throw std::bad_alloc(); return __libc_malloc(n); }
void *operator new[](size_t n) { if (on(RA)) throw std::bad_alloc(); return __libc_malloc(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return on(RA) ? nullptr : __libc_malloc(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return on(RA) ? nullptr : __libc_malloc(n); }
