/* Edge coverage of the code under test in a shared file (tools/cov.py), across all the forked runs. */
#include <fcntl.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <unistd.h>
#define MAX 65536
static unsigned char *map; static uint32_t n; static const uintptr_t *pcs[256][2]; static int np;
static void init(void) { if (map) return; const char *f = getenv("COVFILE"); if (!f) { static unsigned char d[MAX]; map = d; return; } int fd = open(f, O_RDWR | O_CREAT, 0600); if (ftruncate(fd, MAX)) {} map = mmap(0, MAX, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd); }
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { init(); if (a == b || *a) return; for (; a < b; a++) *a = ++n; }
void __sanitizer_cov_trace_pc_guard(uint32_t *g) { if (*g && *g < MAX) map[*g] = 1; }
void __sanitizer_cov_pcs_init(const uintptr_t *a, const uintptr_t *b) { if (np < 256) { pcs[np][0] = a; pcs[np++][1] = b; } }
void cov_dump(void) { uint32_t k = 0; for (int i = 0; i < np; i++) for (const uintptr_t *p = pcs[i][0]; p < pcs[i][1]; p += 2) { k++; printf("%d %lx %lx\n", map[k], (unsigned long)p[0] - 0, (unsigned long)p[1]); } }
