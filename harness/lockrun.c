/* Runs scenarios of several processes against the real locking (and atomic field) code, one memory access at a time.
 *
 * The code under test is compiled with -fsanitize=thread and linked with the functions below instead of the
 * sanitizer's run-time: every access to the database segment is a point where another process may continue.
 * Processes are coroutines, the clock is virtual, futex/sleep calls are simulated.  The schedules come from
 * random walks, priority schedules or a depth-first enumeration with a bounded number of preemptions.
 * Each different history of calls and returns is written down once, for the specification to judge.
 *
 * lockrun STRATEGY SEED COUNT OUT PROFILE [bound part parts]
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <errno.h>
#include <time.h>
#include <sys/time.h>
#include <limits.h>
#include <setjmp.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include "../config.h"
#include "dballoc.h"
#include "dbmem.h"
#include "dbdata.h"
#include "dbindex.h"
#include "dblock.h"

#define MAXP 8
#define MAXOP 4
#define MS 1000000LL
typedef int64_t i64;
typedef struct { int k, to, hy, hm, think, api, a, b, c; } op_t;
typedef struct { int np, nops[MAXP]; op_t ops[MAXP][MAXOP]; int modeb, intr, logging, init[4]; } scen_t;
enum { RUN, SLEEP, FUTEX, DONE };
typedef struct { void *sp; char *stack; int st; i64 deadline; void *addr; int res, err; int inreq, waited, spin, nreads, alone; unsigned long ver; int prio; } co_t;

/* ---- state of a run ---- */
static void *db; static char *seg, *snap; static size_t used; static char *segend;
static co_t co[MAXP]; static int cur = -1; static void *mainsp;
static i64 now; static unsigned long segver; static long steps, reads; static int broken, intr_left;
static scen_t S;
static jmp_buf mainjmp; static int injmp;

/* ---- events ---- */
typedef struct { char op[8]; int p, x[4]; } ev_t;
static ev_t E[4096]; static int nE;
static void ev(const char *op, int p, int a, int b, int c) {
  if (nE >= 4095) return;
  ev_t *e = &E[nE++]; memset(e, 0, sizeof *e); strcpy(e->op, op); e->p = p; e->x[0] = a; e->x[1] = b; e->x[2] = c; e->x[3] = (int)(now / MS);
}

/* ---- random ---- */
static uint64_t rs;
static uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1DULL >> 11; }
static int ri(int n) { return (int)(rnd() % (uint64_t)n); }

/* ---- strategies ---- */
static int strategy;              /* 0 random 1 priorities 2 depth first */
static int sw; static long cps[8]; static int ncp;
static int path[1 << 20], pathn[1 << 20]; static int plen, pdepth, budget, bound, freeb, dfssteps = 400, dfsfree = 6;
static int dfs_pick(int n) {
  if (pdepth >= (1 << 20) - 1) { broken = 2; return 0; }
  if (pdepth < plen) { if (path[pdepth] >= n) path[pdepth] = n - 1; pathn[pdepth] = n; return path[pdepth++]; }
  path[plen] = 0; pathn[plen] = n; plen++; pdepth++; return 0;
}

void co_switch(void **save, void *to);
__asm__(".text\n.globl co_switch\n.type co_switch,@function\nco_switch:\n"
  "push %rbp\npush %rbx\npush %r12\npush %r13\npush %r14\npush %r15\nmov %rsp,(%rdi)\nmov %rsi,%rsp\n"
  "pop %r15\npop %r14\npop %r13\npop %r12\npop %rbx\npop %rbp\nret\n");

static void tomain(void) { if (cur >= 0) { int c = cur; cur = -1; co_switch(&co[c].sp, mainsp); } }
static void goto_(int n) {
  int c = cur; int e = errno;
  if (n == c) return;
  cur = n;
  co_switch(c >= 0 ? &co[c].sp : &mainsp, co[n].sp);
  errno = e;
}
static void wakeup(int n, int res, int err) { co[n].st = RUN; co[n].res = res; co[n].err = err; }

/* who continues?  -1: nobody is left (or nothing can ever happen again) */
static int choose(void) {
  int R[MAXP * 2], kind[MAXP * 2], n = 0, i, left = 0;
  for (i = 0; i < S.np; i++) if (co[i].st != DONE) left++;
  if (!left || broken) return -1;
  for (;;) {
    int curin = -1;
    n = 0;
    for (i = 0; i < S.np; i++) if (co[i].st == RUN && !(co[i].spin && co[i].ver == segver)) { if (i == cur) curin = n; R[n] = i; kind[n++] = 0; }
    int nrun = n;
    for (i = 0; i < S.np; i++) if ((co[i].st == SLEEP || co[i].st == FUTEX) && co[i].deadline >= 0 && (S.modeb || co[i].deadline <= now)) { R[n] = i; kind[n++] = 1; }
    int nt = n;
    if (intr_left) for (i = 0; i < S.np; i++) if (co[i].st == SLEEP || co[i].st == FUTEX) { R[n] = i; kind[n++] = 2; }
    if (nrun == 0) { /* the spinners get on with it */
      int k = 0; for (i = 0; i < S.np; i++) if (co[i].st == RUN) { co[i].alone = 1; co[i].spin = 0; co[i].nreads = 0; k = 1; }
      if (k) continue;
    }
    if (nrun == 0 && nt == 0) { /* time passes */
      i64 d = -1;
      for (i = 0; i < S.np; i++) if ((co[i].st == SLEEP || co[i].st == FUTEX) && co[i].deadline >= 0 && (d < 0 || co[i].deadline < d)) d = co[i].deadline;
      if (d < 0) { ev("stuck", 0, 0, 0, 0); broken = 1; return -1; }
      if (!(strategy != 2 && intr_left && n && ri(4) == 0)) { if (d > now) now = d; continue; }
      /* a signal while everybody waits */
    }
    int c;
    if (strategy == 0) {
      if (curin >= 0 && ri(sw)) c = curin;
      else { int m = (nt && ri(8)) ? nt : n; if (m == 0) m = n; c = ri(m); if (S.modeb && nrun && kind[c] == 1 && ri(3)) c = ri(nrun); }
    } else if (strategy == 1) {
      for (i = 0; i < ncp; i++) if (cps[i] == steps && cur >= 0) co[cur].prio = -i - 1;
      c = 0;
      int m = nt ? nt : n;
      if (intr_left && n > nt && ri(40) == 0) c = nt + ri(n - nt);
      else if (S.modeb && nt > nrun && nrun && ri(60) == 0) c = nrun + ri(nt - nrun);
      else { if (nrun) m = (S.modeb ? nrun : nt); for (i = 1; i < m; i++) if (co[R[i]].prio > co[R[c]].prio) c = i; }
    } else {
      /* the running process goes on for free; anything else costs one preemption */
      int L[MAXP * 2], cost[MAXP * 2], m = 0;
      if (curin >= 0) { L[m] = curin; cost[m++] = 0; for (i = 0; i < n; i++) if (i != curin && budget > 0 && steps < dfssteps) { L[m] = i; cost[m++] = 1; } }
      else {
        int lim = S.modeb && nrun ? nrun : nt;
        if (!lim) lim = n;
        for (i = 0; i < lim; i++) if (i == 0 || freeb > 0) { L[m] = i; cost[m++] = 0; }
        for (i = lim; i < n; i++) if (budget > 0 && steps < dfssteps) { L[m] = i; cost[m++] = 1; }
      }
      i = m == 1 ? 0 : dfs_pick(m);
      if (curin < 0 && i && !cost[i]) freeb--;
      budget -= cost[i]; c = L[i];
    }
    int w = R[c];
    if (kind[c] == 1) { if (co[w].deadline > now) now = co[w].deadline; wakeup(w, co[w].st == FUTEX ? -1 : 0, co[w].st == FUTEX ? ETIMEDOUT : 0); }
    if (kind[c] == 2) { intr_left--; wakeup(w, -1, EINTR); if (co[w].inreq) ev("intr", w + 1, 0, 0, 0); }
    return w;
  }
}
static void resched(void) { int n = choose(); if (n < 0) tomain(); else goto_(n); }
static void point(void) {
  if (cur < 0) { if (injmp && ++reads > 20000000) { longjmp(mainjmp, 1); } return; }
  if (++steps > 400000) { ev("livelock", cur + 1, 0, 0, 0); broken = 1; tomain(); }
  resched();
}
static int atomicmode;
static void waited(co_t *c) { if (c->inreq && !c->waited) { c->waited = 1; ev("wait", cur + 1, 0, 0, 0); } }
static inline int inseg(void *a) { return (char *)a >= seg && (char *)a < segend; }
static void rd(void *a) {
  if (!inseg(a)) return;
  if (cur < 0) { point(); return; }
  co_t *c = &co[cur];
  if (c->ver != segver) { c->ver = segver; c->nreads = 0; c->spin = 0; c->alone = 0; }
  if (c->alone) { if (++reads > 20000000) { ev("livelock", cur + 1, 0, 0, 0); broken = 1; tomain(); } return; }
  if (++c->nreads > (strategy == 2 && !atomicmode ? 4 : 40)) {
    c->spin = 1;
#if (LOCK_PROTO!=TFQUEUE)
    waited(c);
#endif
  }
  point();
  c->ver = segver;
}
static void wr(void *a) {
  if (!inseg(a)) return;
  if (cur < 0) { point(); return; }
  co_t *c = &co[cur]; c->nreads = 0; c->spin = 0; c->alone = 0;
  point(); segver++; c->ver = segver;
}

/* ---- instead of the thread sanitizer's run-time ---- */
void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
#define RW(n) void __tsan_read##n(void *a) { rd(a); } void __tsan_write##n(void *a) { wr(a); } \
  void __tsan_unaligned_read##n(void *a) { rd(a); } void __tsan_unaligned_write##n(void *a) { wr(a); } \
  void __tsan_volatile_read##n(void *a) { rd(a); } void __tsan_volatile_write##n(void *a) { wr(a); } \
  void __tsan_read##n##_pc(void *a, void *p) { rd(a); } void __tsan_write##n##_pc(void *a, void *p) { wr(a); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, long n) { rd(a); }
void __tsan_write_range(void *a, long n) { wr(a); }
void __tsan_vptr_update(void **a, void *b) {}
void __tsan_vptr_read(void **a) {}
void __tsan_atomic_thread_fence(int m) {}
void __tsan_atomic_signal_fence(int m) {}
#define AT(T, n) \
  T __tsan_atomic##n##_load(volatile T *a, int m) { rd((void *)a); return *a; } \
  void __tsan_atomic##n##_store(volatile T *a, T v, int m) { wr((void *)a); *a = v; } \
  T __tsan_atomic##n##_exchange(volatile T *a, T v, int m) { wr((void *)a); T o = *a; *a = v; return o; } \
  T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int m) { wr((void *)a); T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int m) { wr((void *)a); T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int m) { wr((void *)a); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int m) { wr((void *)a); T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##n##_fetch_xor(volatile T *a, T v, int m) { wr((void *)a); T o = *a; *a = o ^ v; return o; } \
  T __tsan_atomic##n##_fetch_nand(volatile T *a, T v, int m) { wr((void *)a); T o = *a; *a = ~(o & v); return o; } \
  static int cas##n(volatile T *a, T *e, T v) { rd((void *)a); if (*a == *e) { *a = v; segver++; if (cur >= 0) { co[cur].ver = segver; co[cur].nreads = 0; co[cur].alone = 0; } return 1; } *e = *a; return 0; } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *e, T v, int m, int f) { return cas##n(a, e, v); } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *e, T v, int m, int f) { return cas##n(a, e, v); } \
  T __tsan_atomic##n##_compare_exchange_val(volatile T *a, T e, T v, int m, int f) { cas##n(a, &e, v); return e; }
AT(uint8_t, 8) AT(uint16_t, 16) AT(uint32_t, 32) AT(uint64_t, 64)

/* ---- instead of the operating system ---- */
static i64 tons(const struct timespec *t) { return t->tv_sec * 1000000000LL + t->tv_nsec; }
static int block(int st, void *addr, i64 deadline) {
  co_t *c = &co[cur];
  c->st = st; c->addr = addr; c->deadline = deadline; c->spin = 0; c->nreads = 0; c->alone = 0;
  steps++;
  resched();
  errno = c->err; return c->res;
}
static int sleepns(i64 d) {
  if (cur < 0) { now += d; if (injmp && ++reads > 100000) longjmp(mainjmp, 1); return 0; }
#if (LOCK_PROTO!=TFQUEUE)
  waited(&co[cur]);
#endif
  return block(SLEEP, NULL, now + d);
}
int nanosleep(const struct timespec *t, struct timespec *rem) {
  i64 d = tons(t), end = now + d;
  if (t->tv_nsec < 0 || t->tv_nsec > 999999999 || t->tv_sec < 0) { errno = EINVAL; return -1; }
  int r = sleepns(d);
  if (r && rem) { d = end - now; if (d < 0) d = 0; rem->tv_sec = d / 1000000000LL; rem->tv_nsec = d % 1000000000LL; }
  return r;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec *t, struct timespec *rem) {
  i64 d = tons(t); if (flags & TIMER_ABSTIME) d -= now; if (d < 0) d = 0;
  return sleepns(d) ? errno : 0;
}
int usleep(unsigned us) { return sleepns(us * 1000LL); }
unsigned sleep(unsigned s) { sleepns(s * 1000000000LL); return 0; }
int sched_yield(void) { if (cur >= 0) { co[cur].nreads += 10; point(); } return 0; }
int clock_gettime(clockid_t c, struct timespec *t) { t->tv_sec = now / 1000000000LL; t->tv_nsec = now % 1000000000LL; return 0; }
int gettimeofday(struct timeval *restrict t, void *restrict z) { t->tv_sec = now / 1000000000LL; t->tv_usec = now % 1000000000LL / 1000; return 0; }
long syscall(long nr, ...) {
  va_list ap; va_start(ap, nr);
  int *addr = va_arg(ap, int *); int op = 0, val; const struct timespec *ts;
  if (nr == SYS_sched_yield) { va_end(ap); return sched_yield(); }
  if (nr != SYS_futex) { va_end(ap); fprintf(stderr, "lockrun: system call %ld\n", nr); _exit(9); }
  op = va_arg(ap, int); val = va_arg(ap, int); ts = va_arg(ap, const struct timespec *); va_end(ap);
  int cmd = op & 127 & ~FUTEX_CLOCK_REALTIME;
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    int n = 0, i, k = S.np ? ri(S.np) : 0;
    point();
    if (strategy == 2) k = 0;
    for (i = 0; i < S.np && n < val; i++) { int w = (i + k) % S.np;
      if (co[w].st == FUTEX && co[w].addr == addr) { wakeup(w, 0, 0); n++; if (co[w].inreq && *addr == co[w].nreads) ev("intr", w + 1, 0, 0, 0); } }
    return n;
  }
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    if (ts && (ts->tv_nsec < 0 || ts->tv_nsec > 999999999 || ts->tv_sec < 0)) { errno = EINVAL; return -1; }
    point();
    if (*addr != val) { errno = EAGAIN; return -1; }
    i64 dl = ts ? (cmd == FUTEX_WAIT ? now + tons(ts) : tons(ts)) : -1;
    if (cur < 0) { if (dl < 0) { longjmp(mainjmp, 1); } now = dl; errno = ETIMEDOUT; return -1; }
    waited(&co[cur]);
    co_t *c = &co[cur];
    c->st = FUTEX; c->addr = addr; c->deadline = dl; c->spin = 0; c->alone = 0; c->nreads = val;   /* (nreads: the expected value while asleep) */
    steps++;
    resched();
    c->nreads = 0;
    errno = c->err; return c->res;
  }
  errno = ENOSYS; return -1;
}

/* ---- atomic field operations: values in the history ---- */
#define BIG 5000000
static void *arec, *brec; static gint nonimm[4], imm[6]; static gint maxs, mins;
static int code(gint v) {
  int i;
  for (i = 0; i < 6; i++) if (v == imm[i]) return 2000000 + i;
  for (i = 0; i < 4; i++) if (v == nonimm[i]) return 3000000 + i;
  if (!issmallint(v)) return 3999999;
  i64 x = wg_decode_int(db, v);
  if (x > maxs - 1000000) return BIG - (int)(maxs - x);
  if (x < mins + 1000000) return -BIG + (int)(x - mins);
  if (x > 900000 || x < -900000) return 3999998;
  return (int)x;
}
static gint uncode(int c) {
  if (c >= 4000000) return encode_smallint(maxs - (BIG - c));
  if (c <= -4000000) return encode_smallint(mins + (c + BIG));
  if (c >= 3000000) return nonimm[c - 3000000];
  if (c >= 2000000) return imm[c - 2000000];
  return encode_smallint((gint)c);
}

/* ---- processes ---- */
static void hold(op_t *o) { int i; for (i = 0; i < o->hy; i++) point(); if (o->hm) { co[cur].inreq = 0; block(SLEEP, NULL, now + o->hm * MS); } }
static void body(void) {
  int p = cur, i;
  co_t *c = &co[p];
  for (i = 0; i < S.nops[p]; i++) {
    op_t *o = &S.ops[p][i]; gint l;
    if (o->think) block(SLEEP, NULL, now + o->think * MS);
    if (o->k == 'W' || o->k == 'R') {
      ev(o->k == 'W' ? "reqw" : "reqr", p + 1, o->api ? DEFAULT_LOCK_TIMEOUT : o->to, 0, 0);
      c->inreq = 1; c->waited = 0;
      if (o->api) l = o->k == 'W' ? wg_start_write(db) : wg_start_read(db);
      else l = o->k == 'W' ? db_wlock(db, o->to) : db_rlock(db, o->to);
      c->inreq = 0;
      if (!l) { ev("fail", p + 1, 0, 0, 0); continue; }
      ev("got", p + 1, 0, 0, 0);
      hold(o);
      ev("rel", p + 1, 0, 0, 0);
      if (o->api) l = o->k == 'W' ? wg_end_write(db, l) : wg_end_read(db, l);
      else l = o->k == 'W' ? db_wulock(db, l) : db_rulock(db, l);
      ev("done", p + 1, l != 0, 0, 0);
    } else {
      gint r, lk = 0;
      point();
      ev("inv", p + 1, o->k, o->c, o->k == 'a' ? o->a : o->a); E[nE - 1].x[3] = o->b;
      if (o->k == 'u') r = wg_update_atomic_field(db, arec, o->c, uncode(o->a), uncode(o->b));
      else if (o->k == 's') r = wg_set_atomic_field(db, arec, o->c, uncode(o->a));
      else if (o->k == 'a') r = wg_add_int_atomic_field(db, arec, o->c, o->a);
      else r = code(wg_get_field(db, arec, o->c));
      ev("ret", p + 1, (int)r, 0, 0);
      (void)lk;
    }
  }
  c->st = DONE;
  { int n = choose(); if (n < 0) tomain(); else goto_(n); }
  abort();
}
#define STK 65536
static void mkco(int i) {
  co_t *c = &co[i]; char *st = c->stack; int pr = c->prio;
  if (!st) st = malloc(STK);
  memset(c, 0, sizeof *c); c->stack = st; c->prio = pr;
  void **sp = (void **)(((uintptr_t)st + STK) & ~15UL);
  *--sp = NULL; *--sp = (void *)body;         /* return address of co_switch: body */
  int k; for (k = 0; k < 6; k++) *--sp = NULL;
  c->sp = sp;
}

/* ---- histories already seen ---- */
static uint64_t *seen; static size_t nseen, capseen;
static int fresh(void) {
  uint64_t h = 1469598103934665603ULL; int i; unsigned char *b = (unsigned char *)E; size_t n = sizeof(ev_t) * nE, k;
  for (k = 0; k < n; k++) { h ^= b[k]; h *= 1099511628211ULL; }
  if (!h) h = 1;
  if (nseen * 2 >= capseen) { size_t oc = capseen; uint64_t *o = seen; capseen = capseen ? capseen * 2 : 1 << 16; seen = calloc(capseen, 8); size_t j; for (j = 0; j < oc; j++) if (o[j]) { size_t q = o[j] & (capseen - 1); while (seen[q]) q = (q + 1) & (capseen - 1); seen[q] = o[j]; } free(o); }
  size_t q = h & (capseen - 1);
  while (seen[q]) { if (seen[q] == h) return 0; q = (q + 1) & (capseen - 1); }
  seen[q] = h; nseen++; (void)i; return 1;
}

static int base_cap;
static int capacity(void) {
  gint l[101]; int n = 0, i;
  for (i = 0; i < 100; i++) { l[n] = db_rlock(db, 50); if (!l[n]) break; n++; }
  for (i = 0; i < n; i++) db_rulock(db, l[i]);
  return n;
}
static FILE *out; static long nruns, nhist, nev; static long maxhist;
static int atomicmode;
static void flush_(void) {
  int i;
  nruns++;
  if (nhist >= maxhist || !fresh()) return;
  nhist++;
  if (atomicmode) {
    fprintf(out, "{\"op\":\"ainit\",\"f\":[%d,%d,%d,%d],\"log\":%d}\n", S.init[0], S.init[1], S.init[2], S.init[3], S.logging);
    for (i = 0; i < nE; i++) { ev_t *e = &E[i];
      if (!strcmp(e->op, "inv")) fprintf(out, "{\"op\":\"inv\",\"p\":%d,\"k\":\"%c\",\"c\":%d,\"a\":%d,\"b\":%d}\n", e->p, e->x[0], e->x[1], e->x[2], e->x[3]);
      else if (!strcmp(e->op, "ret")) fprintf(out, "{\"op\":\"ret\",\"p\":%d,\"r\":%d}\n", e->p, e->x[0]);
      else if (!strcmp(e->op, "fin")) fprintf(out, "{\"op\":\"fin\",\"f\":[%d,%d,%d,%d]}\n", e->x[0], e->x[1], e->x[2], e->x[3]);
      else fprintf(out, "{\"op\":\"%s\",\"p\":%d}\n", e->op, e->p);
    }
    nev += nE + 1; return;
  }
  fprintf(out, "{\"op\":\"reset\",\"strict\":%d,\"cap\":%d,\"now\":0}\n", !S.modeb, base_cap);
  for (i = 0; i < nE; i++) { ev_t *e = &E[i];
    if (e->op[0] == 'r' && e->op[2] == 'q') fprintf(out, "{\"op\":\"req\",\"p\":%d,\"k\":\"%c\",\"to\":%d,\"now\":%d}\n", e->p, e->op[3] == 'w' ? 'W' : 'R', e->x[0], e->x[3]);
    else if (!strcmp(e->op, "probe")) fprintf(out, "{\"op\":\"probe\",\"w\":%d,\"n\":%d,\"dt\":%d,\"now\":%d}\n", e->x[0], e->x[1], e->x[2], e->x[3]);
    else if (!strcmp(e->op, "done")) fprintf(out, "{\"op\":\"done\",\"p\":%d,\"r\":%d,\"now\":%d}\n", e->p, e->x[0], e->x[3]);
    else fprintf(out, "{\"op\":\"%s\",\"p\":%d,\"now\":%d}\n", e->op, e->p, e->x[3]);
  }
  nev += nE + 1;
}
static void onerun(void) {
  int i;
  memcpy(seg, snap, used);
  now = 0; nE = 0; steps = reads = 0; broken = 0; segver = 1; intr_left = S.intr; pdepth = 0; budget = bound; freeb = dfsfree;
  if (atomicmode) {
    gint *f = (gint *)arec + RECORD_HEADER_GINTS;
    for (i = 0; i < 4; i++) if (i != 2 && i != 3) f[i] = uncode(S.init[i]);
#ifdef USE_DBLOG
    dbmemsegh(db)->logging.active = S.logging;
#endif
  }
  for (i = 0; i < S.np; i++) { co[i].prio = 0; }
  for (i = 0; i < S.np; i++) { mkco(i); }
  if (strategy == 0) { static const int k[] = {1, 2, 3, 6, 15, 40}; sw = k[ri(6)]; }
  if (strategy == 1) { for (i = 0; i < S.np; i++) co[i].prio = 1000 + ri(1000); ncp = 1 + ri(4); for (i = 0; i < ncp; i++) cps[i] = 1 + ri(60 * S.np); }
  cur = -1;
  int n = choose(); if (n >= 0) goto_(n);
  cur = -1;
  int np = S.np; S.np = 0;
  if (!broken) {
    if (atomicmode) { int v[4]; for (i = 0; i < 4; i++) v[i] = code(wg_get_field(db, arec, i)); ev("fin", 0, v[0], v[1], v[2]); E[nE - 1].x[3] = v[3]; }
    else {
      volatile int w = 0, c = 0; volatile i64 t0 = now; volatile i64 dt = 0; reads = 0; injmp = 1;
      if (!setjmp(mainjmp)) {
        gint l = db_wlock(db, 2000); w = l != 0; dt = now - t0;
        if (w) { db_wulock(db, l); c = capacity(); }
      } else dt = 999999 * MS;
      injmp = 0;
      ev("probe", 0, w, c, (int)(dt / MS));
    }
  }
  S.np = np;
  flush_();
}
static void allruns(int count) {
  if (strategy == 2) {
    int n = 0; plen = 0;
    for (;;) {
      onerun(); n++;
      if (broken == 2) { fprintf(stderr, "too deep\n"); _exit(9); }
      plen = pdepth < plen ? pdepth : plen;
      while (plen && path[plen - 1] + 1 >= pathn[plen - 1]) plen--;
      if (!plen || n >= count) break;
      path[plen - 1]++;
    }
  } else { int i; for (i = 0; i < count; i++) onerun(); }
}

/* ---- scenarios ---- */
static void gen_random(int big) {
  static const int tos[] = {0, 1, 20, 100, 500, 1300, 2000, 2000};
  static const int hms[] = {0, 0, 0, 1, 20, 60, 100, 450, 2000};
  int i, j;
  memset(&S, 0, sizeof S);
  S.np = 2 + ri(big ? MAXP - 1 : 4); S.modeb = ri(3) == 0; S.intr = ri(4) == 0 ? 1 + ri(2) : 0;
  int wr = 1 + ri(9), spread = ri(3);
  for (i = 0; i < S.np; i++) {
    S.nops[i] = 1 + ri(big ? 4 : 3);
    for (j = 0; j < S.nops[i]; j++) {
      op_t *o = &S.ops[i][j];
      o->k = ri(10) < wr ? 'W' : 'R'; o->to = tos[ri(8)]; o->hy = ri(4); o->hm = ri(2) ? hms[ri(9)] : 0; o->api = ri(4) == 0;
      o->think = spread ? (ri(2) ? 0 : ri(spread == 1 ? 5 : 200)) : 0;
    }
  }
}
/* small scenarios for the enumeration: number k */
static int gen_small(int k, const char *prof) {
  static const int shape[][3] = {{1,1,0},{1,1,1},{2,1,0},{2,2,0},{2,1,1},{1,1,1}};
  int nsh = 5, i, j; (void)shape;
  memset(&S, 0, sizeof S);
  int sh = k % nsh; k /= nsh;
  int tv = k % 5; k /= 5;
  int nop = 0, np = 0, cnt[3];
  for (i = 0; i < 3; i++) { cnt[i] = shape[sh][i]; if (cnt[i]) np++; nop += cnt[i]; }
  int kinds = k % (1 << nop); k /= (1 << nop);
  if (k > 1) return -1;
  S.modeb = k & 1;
  S.np = np; int b = 0;
  for (i = 0; i < np; i++) { S.nops[i] = cnt[i]; for (j = 0; j < cnt[i]; j++) { op_t *o = &S.ops[i][j];
    o->k = kinds >> b++ & 1 ? 'W' : 'R'; o->hy = 1;
    /* tv: 0 patient; 1 holds as long as the others wait; 2 one gives up early; 3 interrupted */
    o->to = 2000; o->hm = 0;
    if (tv == 1) { o->to = 20; o->hm = 20; }
    if (tv == 2) { o->to = i == 1 ? 20 : 500; o->hm = i == 0 ? 100 : 5; }
    if (tv == 4) { o->hm = i == 0 ? 0 : 150; }
    if (tv == 3) { o->to = 500; o->hm = 10; S.intr = 1; }
  } }
  return 0;
}
static int acode(void) {
  switch (ri(12)) {
    case 0: return 2000000 + ri(6);
    case 1: return 3000000 + ri(4);
    case 2: return BIG - ri(4);
    case 3: return -BIG + ri(4);
    default: return ri(6) - 2;
  }
}
static int afield(void) { int r = ri(10); return r < 7 ? 0 : r < 9 ? 1 : r < 9 + ri(2) ? 2 : 3; }
static void gen_atomic(int small) {
  int i, j;
  memset(&S, 0, sizeof S);
  S.np = small ? 2 + ri(2) : 2 + ri(4);
  S.init[0] = ri(3) ? ri(4) : acode(); S.init[1] = acode(); S.init[2] = 7; S.init[3] = 3;
  if (!ri(12)) S.logging = 1;
  for (i = 0; i < S.np; i++) {
    S.nops[i] = small ? 1 + (ri(3) == 0) : 1 + ri(3);
    for (j = 0; j < S.nops[i]; j++) {
      op_t *o = &S.ops[i][j];
      int r = ri(10);
      o->k = r < 4 ? 'a' : r < 7 ? 'u' : r < 9 ? 's' : 'g';
      o->c = afield();
      o->a = o->k == 'a' ? ri(7) - 3 : acode();
      o->b = o->k == 'u' ? (ri(3) ? (ri(2) ? S.init[o->c] : ri(6) - 2) : acode()) : 0;
    }
  }
}
int main(int argc, char **argv) {
  if (argc < 6) return 9;
  const char *st = argv[1], *prof = argv[5];
  uint64_t seed = strtoull(argv[2], 0, 10); long count = atol(argv[3]); char fn[4096];
  snprintf(fn, sizeof fn, "%s/trace.ndjson", argv[4]);
  bound = argc > 6 ? atoi(argv[6]) : 2;
  int part = argc > 7 ? atoi(argv[7]) : 0, parts = argc > 8 ? atoi(argv[8]) : 1;
  maxhist = argc > 9 ? atol(argv[9]) : 3000;
  int per = argc > 10 ? atoi(argv[10]) : 200;
  rs = seed * 0x9E3779B97F4A7C15ULL + 0x1234567; { int i; for (i = 0; i < 10; i++) rnd(); }
#if (LOCK_PROTO!=TFQUEUE)
  dfssteps = 120; dfsfree = 3;
#endif
  strategy = !strcmp(st, "rand") ? 0 : !strcmp(st, "pct") ? 1 : 2;
  atomicmode = !strcmp(prof, "atomic");
  out = fopen(fn, "w"); if (!out) return 9;
  if (!freopen("/dev/null", "w", stderr)) return 9;
  db = wg_attach_local_database(2000000); if (!db) return 9;
  seg = (char *)dbmemsegh(db); segend = seg + 2000000;
  { gint i, k = 0;
    arec = wg_create_record(db, 4); brec = wg_create_record(db, 1);
    imm[k++] = 0; imm[k++] = wg_encode_char(db, 'x'); imm[k++] = wg_encode_date(db, 700000); imm[k++] = wg_encode_time(db, 4000);
    imm[k++] = wg_encode_var(db, 3); imm[k++] = wg_encode_fixpoint(db, 1.25);
    nonimm[0] = wg_encode_str(db, "a short one", NULL); nonimm[1] = wg_encode_double(db, 2.5);
    nonimm[2] = wg_encode_record(db, brec); nonimm[3] = wg_encode_str(db, "a long string with more than thirty-two characters in it", NULL);
    maxs = ((gint)1 << 60) - 1; mins = -((gint)1 << 60);
    for (i = maxs; !fits_smallint(i) && i > 1; i >>= 1) ; 
    maxs = i; mins = -i - 1;
    if (!fits_smallint(maxs) || fits_smallint(maxs + 1) || !fits_smallint(mins) || fits_smallint(mins - 1)) return 9;
    wg_set_field(db, arec, 0, wg_encode_int(db, 1)); wg_set_field(db, arec, 1, wg_encode_int(db, 2));
    wg_set_field(db, arec, 2, wg_encode_int(db, 7)); wg_set_field(db, arec, 3, wg_encode_int(db, 3));
    if (atomicmode) {
      if (wg_create_index(db, 2, WG_INDEX_TYPE_TTREE, NULL, 0)) return 9; 
      void *t = wg_create_record(db, 4); for (i = 0; i < 4; i++) wg_set_field(db, t, i, wg_encode_var(db, 1));
      gint m[4]; gint cols[1] = {3}; for (i = 0; i < 4; i++) m[i] = wg_encode_var(db, 0); m[2] = wg_encode_int(db, 5);
      if (wg_create_multi_index(db, cols, 1, WG_INDEX_TYPE_TTREE, m, 4)) return 9;
    }
  }
  used = 2000000; { db_memsegment_header *h = dbmemsegh(db); if (h->free > 0 && (size_t)h->free < used) used = h->free; }
  base_cap = capacity();
  snap = malloc(used); memcpy(snap, seg, used);
  if ((strategy == 2 || !strcmp(prof, "shapes")) && !atomicmode) {
    int k, done = 0;
    for (k = 0; gen_small(k, prof) == 0; k++) {
      if (k % parts != part) continue;
      maxhist = nhist + 400;
      allruns(count); done++;
    }
    fprintf(stderr, "%d scenarios\n", done);
  } else if (strategy == 2) { long i, tot = maxhist; for (i = 0; i < per; i++) { gen_atomic(1); maxhist = tot; if (nhist >= tot) break; maxhist = nhist + tot / per + 10; allruns(count); } }
  else {
    long i;
    for (i = 0; i < count; i++) { if (atomicmode) gen_atomic(0); else gen_random(!strcmp(prof, "big")); allruns(per); if (nhist >= maxhist) { i++; break; } }
  }
  fclose(out);
  snprintf(fn, sizeof fn, "%s/meta.json", argv[4]);
  out = fopen(fn, "w");
  fprintf(out, "{\"events\":%ld,\"values\":0,\"histories\":%ld,\"runs\":%ld,\"ops\":{\"schedules run\":%ld,\"different histories\":%ld}}\n", nev, nhist, nruns, nruns, nhist);
  fclose(out);
  return 0;
}
