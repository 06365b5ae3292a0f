/* Stops the process at a chosen moment of a library call: at the n-th place (way from one basic block to the next, or
   shared memory call) that the call comes to for the first time.  Library built with -fsanitize-coverage=trace-pc and --wrap=shm... */
#include <errno.h>
#include <stdint.h>
#include <string.h>
#include <unistd.h>
#include <sys/shm.h>
static volatile int64_t *word; static int64_t left, count; static int on;
static uintptr_t seen[8192], last;
static void gate(void) {
  count++;
  if(on && --left == 0) {
    on = 0; *word = 1;
    while(*word != 2) usleep(20);
    on = 1;
  }
}
void vh_gate_arm(int64_t *w, int64_t n) { word = w; left = n; count = 0; last = 0; memset(seen, 0, sizeof seen); on = n >= 0; if(n < 0) on = 0; }
int64_t vh_gate_count(void) { return count; }
void __sanitizer_cov_trace_pc(void) {
  if(!on) return;
  uintptr_t p = (uintptr_t)__builtin_return_address(0), a = p ^ (last << 20), h = (a * 0x9E3779B97F4A7C15ull) >> 51;
  last = p;
  while(seen[h]) { if(seen[h] == a) return; h = (h + 1) & 8191; }
  seen[h] = a; gate();
}
int __real_shmget(key_t, size_t, int); void *__real_shmat(int, const void *, int); int __real_shmctl(int, int, struct shmid_ds *); int __real_shmdt(const void *);
int __wrap_shmget(key_t k, size_t n, int f) { if(on) gate(); int r = __real_shmget(k, n, f); if(on) { int e = errno; gate(); errno = e; } return r; }
void *__wrap_shmat(int i, const void *a, int f) { if(on) gate(); void *r = __real_shmat(i, a, f); if(on) { int e = errno; gate(); errno = e; } return r; }
int __wrap_shmctl(int i, int c, struct shmid_ds *b) { if(on) gate(); return __real_shmctl(i, c, b); }
int __wrap_shmdt(const void *a) { if(on) gate(); return __real_shmdt(a); }
