LK = r"""
#include <pthread.h>
#include <time.h>
static void *db; static volatile int got; static long t0;
static long ms(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000 + t.tv_nsec / 1000000; }
static void nap(int n) { usleep(n * 1000); }
"""
SEEDS = [
dict(id="L01-tail-holder", prop="L01", edits=[("Db/dblock.c", """    if(nextp->waiting && (!lockp->prev || nextp->class == LOCKQ_READ)) {
      nextp->waiting = 0;
      syn_addr = &nextp->waiting;
    }""", """    if(nextp->waiting) { /* everybody before an active reader is active */
      nextp->waiting = 0;
      syn_addr = &nextp->waiting;
    }""")],
  needs="two readers hold the lock, a writer waits, and the reader that came second releases first", breaks="the writer is granted while the first reader still holds the lock",
  demo=LK+r"""
static void *w(void *x) { gint l = wg_start_write(db); got = l != 0; if(l) wg_end_write(db, l); return 0; }
int main() { pthread_t t; gint a, b; db = wg_attach_local_database(1000000); OK(db);
  OK(a = wg_start_read(db)); OK(b = wg_start_read(db)); pthread_create(&t, 0, w, 0); nap(300); OK(!got);
  wg_end_read(db, b); nap(500); OK(!got); wg_end_read(db, a); pthread_join(t, 0); OK(got); return 0; }"""),
dict(id="L01-empty-tail", prop="L01", edits=[("Db/dblock.c", """  } else if(dbh->locks.tail == lock) {
    dbh->locks.tail = lockp->prev;
  }
  free_lock(db, lock);""", """  } else if(dbh->locks.tail == lock) {
    dbh->locks.tail = 0; /* the queue is empty now */
  }
  free_lock(db, lock);""")],
  needs="a reader at the end of the queue releases while an earlier reader keeps the lock, then a writer arrives", breaks="the writer is granted beside the reader",
  demo=LK+r"""
static void *w(void *x) { gint l = wg_start_write(db); got = l != 0; if(l) wg_end_write(db, l); return 0; }
int main() { pthread_t t; gint a, b; db = wg_attach_local_database(1000000); OK(db);
  OK(a = wg_start_read(db)); OK(b = wg_start_read(db)); wg_end_read(db, b);
  pthread_create(&t, 0, w, 0); nap(500); OK(!got); wg_end_read(db, a); pthread_join(t, 0); OK(got); return 0; }"""),
dict(id="L02-chain-one", prop="L02", edits=[("Db/dblock.c", """      if(nextp->class == LOCKQ_READ && nextp->waiting) {
        nextp->waiting = 0;""", """      if(nextp->class == LOCKQ_READ && nextp->waiting && !lockp->prev) {
        nextp->waiting = 0;""")],
  needs="three readers wait behind a writer that releases", breaks="the third reader keeps waiting although only readers hold the lock",
  demo=LK+r"""
static volatile int n; static volatile int stop;
static void *r(void *x) { gint l = wg_start_read(db); if(l) { __sync_fetch_and_add(&n, 1); while(!stop) nap(5); wg_end_read(db, l); } return 0; }
int main() { pthread_t t[4]; int i; gint a; db = wg_attach_local_database(1000000); OK(db);
  OK(a = wg_start_write(db)); for(i = 0; i < 4; i++) { pthread_create(&t[i], 0, r, 0); nap(50); }
  wg_end_write(db, a); nap(700); OK(n == 4); stop = 1; for(i = 0; i < 4; i++) pthread_join(t[i], 0); return 0; }"""),
dict(id="L03-reader-slips-in", prop="L03", edits=[("Db/dblock.c", """    if(prevp->class == LOCKQ_READ && prevp->waiting == 0) {
      lockp->waiting = 0;
    } else {
      lockp->waiting = 1;
    }""", """    if(prevp->class == LOCKQ_READ && prevp->waiting == 0) {
      lockp->waiting = 0;
    } else {
      lock_queue_node *firstp = NULL;
      if(prevp->prev && prevp->class == LOCKQ_WRITE)
        firstp = (lock_queue_node *) offsettoptr(db, prevp->prev);
      if(firstp && firstp->class == LOCKQ_READ && !firstp->waiting) {
        /* the writer has to wait for the active reader anyway, join it */
        lockp->prev = prevp->prev;
        firstp->next = lock;
        lockp->next = prev;
        prevp->prev = lock;
        prevp->next = 0;
        dbh->locks.tail = prev;
        lockp->waiting = 0;
      } else {
        lockp->waiting = 1;
      }
    }""")],
  needs="a reader holds the lock, a writer waits, and a new reader arrives", breaks="the new reader is granted before the waiting writer, which can starve",
  demo=LK+r"""
static void *w(void *x) { gint l = wg_start_write(db); got = l != 0; if(l) { nap(200); wg_end_write(db, l); } return 0; }
static volatile int early;
static void *r(void *x) { gint l = wg_start_read(db); early = l && !got; if(l) wg_end_read(db, l); return 0; }
int main() { pthread_t t, u; gint a; db = wg_attach_local_database(1000000); OK(db);
  OK(a = wg_start_read(db)); pthread_create(&t, 0, w, 0); nap(200); pthread_create(&u, 0, r, 0); nap(200);
  wg_end_read(db, a); pthread_join(t, 0); pthread_join(u, 0); OK(got); OK(!early); return 0; }"""),
dict(id="L04-recheck", prop="L04", edits=[("Db/dbdata.c", """    nxt=encode_smallint(sum);
    r=wg_update_atomic_field(db,record,fieldnr,nxt,old);""", """    nxt=encode_smallint(sum);
    if (i && issmallint(*fieldadr)) old=*fieldadr; // was changed by somebody, avoid another loop
    r=wg_update_atomic_field(db,record,fieldnr,nxt,old);""")],
  needs="two processes add to a field, one loses the race once, and the value changes again before it retries", breaks="an update by another process is overwritten",
  demo=LK+r"""
static void *rec; 
static void *add(void *x) { int i; for(i = 0; i < 300000; i++) { while(wg_add_int_atomic_field(db, rec, 0, 1)) ; } return 0; }
int main() { pthread_t t[6]; int i; db = wg_attach_local_database(1000000); OK(db); OK(rec = wg_create_record(db, 1)); wg_set_field(db, rec, 0, wg_encode_int(db, 0));
  for(i = 0; i < 6; i++) pthread_create(&t[i], 0, add, 0);
  for(i = 0; i < 6; i++) pthread_join(t[i], 0);
  OK(wg_decode_int(db, wg_get_field(db, rec, 0)) == 1800000); return 0; }"""),
]
