#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#define N (64u<<20)
static unsigned char dummy[1]; static unsigned char* m; 
__attribute__((constructor(101))) static void init(void) { const char* f = getenv("COVDIR"); if (!f) return; char b[300]; snprintf(b, sizeof b, "%s/%d", f, (int)getpid()); int fd = open(b, O_RDWR|O_CREAT, 0644); if (ftruncate(fd, N)) return; m = mmap(0, N, PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0); close(fd); }
void __sanitizer_cov_trace_pc(void) { uintptr_t p = (uintptr_t)__builtin_return_address(0) - 0x400000; if (m && p < N) m[p] = 1; }
