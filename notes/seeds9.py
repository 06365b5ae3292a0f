SEEDS = [
dict(id="M01-early-mark", prop="M01", edits=[("Db/dballoc.c", """  /* Database is initialized, mark it as valid */
  dbh->mark=(gint32) MEMSEGMENT_MAGIC_MARK;
""", ""), ("Db/dballoc.c", """  /* initialize synchronization */
""", """  /* the storage areas are complete now */
  dbh->mark=(gint32) MEMSEGMENT_MAGIC_MARK;

  /* initialize synchronization */
""")],
  needs="a second process that attaches while the first one is creating the database, between its storage areas and its locks", breaks="the second process uses a database whose locks do not exist yet",
  sh=r'''#!/bin/sh
# exit 0 if the property holds in this demonstration
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
gcc -g -O1 -w -fcommon -I"$R/_build/main" -I"$R/_build/main/Db" -I"$R/Db" -I"$R" "$D/demo.c" "$R/_build/main/Main/.libs/libwgdb.a" -Wl,--wrap=wg_init_locks -lm -lpthread -o "$T/demo" || exit 2
cd "$T" && timeout 120 ./demo 2>err.txt
rc=$?
[ $rc = 0 ] || { echo "demo rc=$rc"; tail -3 err.txt; }
exit $rc
''',
  demo=r"""
char name[20]; int early;
gint __real_wg_init_locks(void *);
gint __wrap_wg_init_locks(void *db) { int st = 0, p = fork();
  if(!p) { void *d = wg_attach_existing_database(name); _exit(d != NULL); }
  waitpid(p, &st, 0); early = st; return __real_wg_init_locks(db); }
int main() { void *db; int e; sprintf(name, "%d", 0x58000000 + getpid()); wg_delete_database(name);
  db = wg_attach_database(name, 1000000); e = early; wg_delete_database(name); OK(db); OK(e == 0); return 0; }"""),
dict(id="M01-journal-mode", prop="M01", edits=[("Db/dbmem.c", """    /* Always set the umask for the logfile */
    omode = wg_memmode(dbhandle);""", """    /* The logfile is created by the process that created the database */
    if(!logging) return dbhandle;
    omode = wg_memmode(dbhandle);""")],
  needs="a database open to a group, created without a journal, and another process that starts the journal", breaks="the journal cannot be written by the group, whose changes are then refused",
  demo=r"""
#include <sys/stat.h>
int main() { void *db, *d2; int m = 0; struct stat b; char fn[200] = "", name[20]; OK(chdir("/tmp") == 0); sprintf(name, "%d", 0x58000000 + getpid()); wg_delete_database(name); umask(077);
  db = wg_attach_database_mode(name, 1000000, 0660); d2 = wg_attach_existing_database(name);
  if(d2 && wg_start_logging(d2) == 0) { wg_journal_filename(d2, fn, 200); if(!stat(fn, &b)) m = b.st_mode & 0777; wg_stop_logging(d2); unlink(fn); }
  wg_delete_database(name); OK(db && d2); OK(m == 0660); return 0; }"""),
dict(id="M01-half-permission", prop="M01", edits=[("Db/dbmem.c", "  if((mode & 0060) != 0060)\n    mode &= 0606;", "  if((mode & 0060) == 0020)\n    mode &= 0606; /* writing without reading makes no sense */")],
  needs="a database created with a mode that lets the group read but not write", breaks="the mode of the segment is not the one that the locks need: read-only members of the group find it, and cannot attach",
  demo=r"""
int main() { void *db; int m; char name[20]; sprintf(name, "%d", 0x58000000 + getpid()); wg_delete_database(name);
  db = wg_attach_database_mode(name, 1000000, 0640); OK(db); m = wg_memmode(db) & 0777; wg_delete_database(name); OK(m == 0600); return 0; }"""),
dict(id="M01-stale-size", prop="M01", edits=[("Db/dbmem.c", "      if(((db_memsegment_header *) shm)->size < minsize) {", "      if(((db_memsegment_header *) shm)->size < minsize - SUBAREA_ALIGNMENT_BYTES) {")],
  needs="an attach that asks for a size a few bytes over that of the existing database", breaks="a database that is smaller than what was asked for is returned",
  demo=r"""
int main() { void *db, *d2; char name[20]; sprintf(name, "%d", 0x58000000 + getpid()); wg_delete_database(name);
  db = wg_attach_database(name, 1000000); OK(db); d2 = wg_attach_database(name, 1000001); wg_delete_database(name); OK(!d2); return 0; }"""),
]
