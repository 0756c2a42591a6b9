// Allocation accounting and memory-access preemption points for the code under test.
#include "core.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>

extern "C" { void sim_mem_add(void *, size_t, void *); void sim_mem_del(void *); void sim_mem_access();
// frame 1 = caller of the onion_low_* wrapper when that is what called us
#define RA __builtin_return_address(1)
void *__wrap_malloc(size_t n) { void *p = malloc(n); sim_mem_add(p, n, RA); return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = calloc(a, b); sim_mem_add(p, a * b, RA); return p; }
void *__wrap_realloc(void *o, size_t n) { sim_mem_del(o); void *p = realloc(o, n); if (p) sim_mem_add(p, n, RA); return p; }
void __wrap_free(void *p) { sim_mem_del(p); free(p); }
char *__wrap_strdup(const char *s) { size_t l = strlen(s) + 1; if (sim::is_poisoned(s, l)) sim::violation("memory-error", "strdup reads freed or out-of-bounds memory"); char *p = (char *)malloc(l); memcpy(p, s, l); sim_mem_add(p, l, RA); return p; }
char *__wrap_strndup(const char *s, size_t n) { size_t l = strnlen(s, n); char *p = (char *)malloc(l + 1); memcpy(p, s, l); p[l] = 0; sim_mem_add(p, l + 1, RA); return p; }

#define A(x) void __asan_##x(size_t); void __wrap___asan_##x(size_t a) { sim_mem_access(); __asan_##x(a); }
A(load1) A(load2) A(load4) A(load8) A(load16) A(store1) A(store2) A(store4) A(store8) A(store16)
#define AN(x) void __asan_##x(size_t, size_t); void __wrap___asan_##x(size_t a, size_t n) { sim_mem_access(); __asan_##x(a, n); }
AN(loadN) AN(storeN)
}
extern "C" { void onion_low_free(void *); char *onion_low_strdup(const char *); } // what an application is told to use
extern "C" char *sim_user_strdup(const char *s) { size_t l = strlen(s) + 1; char *p = (char *)__wrap_malloc(l); memcpy(p, s, l); return p; } // as libc does: not with the functions of the application

extern "C" void sim_user_free(void *p) { onion_low_free(p); }
extern "C" void sim_raw_free(void *p) { __wrap_free(p); }
