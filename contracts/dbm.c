/* The database: server/icb_dbm.c, through its public interface, on a model of the file system.
 * @assume malloc()/calloc()/realloc() succeed
 * @assume open/read/write/fsync/rename/unlink/close behave as POSIX describes; rename is atomic and a file that was fsynced before it survives a crash
 * @unit name=map_0 prop=C11 tier=quick under=dbm_open,dbm_store,dbm_fetch,dbm_delete,dbm_close,ht_find,ht_resize,entry_new,entry_free def=W=1,SHAPE=0,QUICK=1 edit=server/icb_dbm.c:ICB_DBM_INIT_BUCKETS=4 unwind=20 mode=plain term=1 level=bounded bound=tables_of_4_to_16_buckets_with_up_to_7_entries
 * @unit name=map_1 prop=C11 tier=quick under=dbm_open,dbm_store,dbm_fetch,dbm_delete,dbm_close,ht_find,ht_resize,entry_new,entry_free def=W=1,SHAPE=1,QUICK=1 edit=server/icb_dbm.c:ICB_DBM_INIT_BUCKETS=4 unwind=20 mode=plain term=1 level=bounded bound=tables_of_4_to_16_buckets_with_up_to_7_entries
 * @unit name=map_2 prop=C11 tier=quick under=dbm_open,dbm_store,dbm_fetch,dbm_delete,dbm_close,ht_find,ht_resize,entry_new,entry_free def=W=1,SHAPE=2,QUICK=1 edit=server/icb_dbm.c:ICB_DBM_INIT_BUCKETS=4 unwind=20 mode=plain term=1 level=bounded bound=tables_of_4_to_16_buckets_with_up_to_7_entries
 * @unit name=map_3 prop=C11 tier=quick under=dbm_open,dbm_store,dbm_fetch,dbm_delete,dbm_close,ht_find,ht_resize,entry_new,entry_free def=W=1,SHAPE=3,QUICK=1 edit=server/icb_dbm.c:ICB_DBM_INIT_BUCKETS=4 unwind=20 mode=plain term=1 level=bounded bound=tables_of_4_to_16_buckets_with_up_to_7_entries
 * @unit name=map_4 prop=C11 tier=quick under=dbm_open,dbm_store,dbm_fetch,dbm_delete,dbm_close,ht_find,ht_resize,entry_new,entry_free def=W=1,SHAPE=4,QUICK=1 edit=server/icb_dbm.c:ICB_DBM_INIT_BUCKETS=4 unwind=20 mode=plain term=1 level=bounded bound=tables_of_4_to_16_buckets_with_up_to_7_entries
 * @unit name=map_5 prop=C11 tier=quick under=dbm_open,dbm_store,dbm_fetch,dbm_delete,dbm_close,ht_find,ht_resize,entry_new,entry_free def=W=1,SHAPE=5,QUICK=1 edit=server/icb_dbm.c:ICB_DBM_INIT_BUCKETS=4 unwind=20 mode=plain term=1 level=bounded bound=tables_of_4_to_16_buckets_with_up_to_7_entries
 * @unit name=map_6 prop=C11 tier=quick under=dbm_open,dbm_store,dbm_fetch,dbm_delete,dbm_close,ht_find,ht_resize,entry_new,entry_free def=W=1,SHAPE=6,QUICK=1 edit=server/icb_dbm.c:ICB_DBM_INIT_BUCKETS=4 unwind=20 mode=plain term=1 level=bounded bound=tables_of_4_to_16_buckets_with_up_to_7_entries
 * @unit name=map_all_0 prop=C11 tier=thorough under=dbm_open,dbm_store,dbm_fetch,dbm_delete,dbm_close,ht_find,ht_resize,entry_new,entry_free def=W=1,SHAPE=0 edit=server/icb_dbm.c:ICB_DBM_INIT_BUCKETS=4 unwind=20 mode=plain term=1 level=bounded bound=tables_of_4_to_16_buckets_with_up_to_7_entries
 * @unit name=map_all_1 prop=C11 tier=thorough under=dbm_open,dbm_store,dbm_fetch,dbm_delete,dbm_close,ht_find,ht_resize,entry_new,entry_free def=W=1,SHAPE=1 edit=server/icb_dbm.c:ICB_DBM_INIT_BUCKETS=4 unwind=20 mode=plain term=1 level=bounded bound=tables_of_4_to_16_buckets_with_up_to_7_entries
 * @unit name=map_all_2 prop=C11 tier=thorough under=dbm_open,dbm_store,dbm_fetch,dbm_delete,dbm_close,ht_find,ht_resize,entry_new,entry_free def=W=1,SHAPE=2 edit=server/icb_dbm.c:ICB_DBM_INIT_BUCKETS=4 unwind=20 mode=plain term=1 level=bounded bound=tables_of_4_to_16_buckets_with_up_to_7_entries
 * @unit name=map_all_3 prop=C11 tier=thorough under=dbm_open,dbm_store,dbm_fetch,dbm_delete,dbm_close,ht_find,ht_resize,entry_new,entry_free def=W=1,SHAPE=3 edit=server/icb_dbm.c:ICB_DBM_INIT_BUCKETS=4 unwind=20 mode=plain term=1 level=bounded bound=tables_of_4_to_16_buckets_with_up_to_7_entries
 * @unit name=map_all_4 prop=C11 tier=thorough under=dbm_open,dbm_store,dbm_fetch,dbm_delete,dbm_close,ht_find,ht_resize,entry_new,entry_free def=W=1,SHAPE=4 edit=server/icb_dbm.c:ICB_DBM_INIT_BUCKETS=4 unwind=20 mode=plain term=1 level=bounded bound=tables_of_4_to_16_buckets_with_up_to_7_entries
 * @unit name=map_all_5 prop=C11 tier=thorough under=dbm_open,dbm_store,dbm_fetch,dbm_delete,dbm_close,ht_find,ht_resize,entry_new,entry_free def=W=1,SHAPE=5 edit=server/icb_dbm.c:ICB_DBM_INIT_BUCKETS=4 unwind=20 mode=plain term=1 level=bounded bound=tables_of_4_to_16_buckets_with_up_to_7_entries
 * @unit name=map_all_6 prop=C11 tier=thorough under=dbm_open,dbm_store,dbm_fetch,dbm_delete,dbm_close,ht_find,ht_resize,entry_new,entry_free def=W=1,SHAPE=6 edit=server/icb_dbm.c:ICB_DBM_INIT_BUCKETS=4 unwind=20 mode=plain term=1 level=bounded bound=tables_of_4_to_16_buckets_with_up_to_7_entries
 * @unit name=flush prop=C12 under=flush_file,dbm_close,xwrite def=W=2 edit=server/icb_dbm.c:ICB_DBM_INIT_BUCKETS=4 unwind=40 mode=plain term=1 level=bounded bound=3_entries,_one_fault_at_any_call
 * @unit name=load prop=C12 under=load_file,dbm_open,xread def=W=3 edit=server/icb_dbm.c:ICB_DBM_INIT_BUCKETS=4 unwind=40 mode=plain term=1 level=bounded bound=4_entries,_one_fault_or_short_read_at_any_call
 * @unit name=load_any prop=C12 under=load_file,dbm_open,xread def=W=4 edit=server/icb_dbm.c:ICB_DBM_INIT_BUCKETS=4 unwind=40 mode=plain term=1 level=bounded bound=a_two-entry_file_cut_at_any_length,_with_any_magic_byte,_with_oversized_lengths
 */
#include "vp.h"
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#define NK 6
#define FL 64
struct vp_in { unsigned char op, key, len, fault, kind, twice; char v0[NK][2], v1[2]; };
#include "vp_in.h"
#include "server/dbm.h"

/* ---- memory: everything allocated is freed once ---- */
static int nlive;
static void vp_free(void *p) { if (p) nlive--; free(p); }
#ifdef VP_NATIVE
#define vp_malloc(n) (nlive++, malloc(n))
#define vp_calloc(a, b) (nlive++, calloc(a, b))
#define vp_realloc(p, n) ((p) ? 0 : nlive++, realloc(p, n))
#else   /* as the library's, but the verifier keeps track of the type behind sizeof */
#define vp_malloc(n) (nlive++, __CPROVER_allocate(n, 0))
#define vp_calloc(a, b) (nlive++, __CPROVER_allocate((a) * (b), 1))
static void *vp_realloc(void *p, size_t n) { void *q = __CPROVER_allocate(n, 0); if (!p) nlive++; else free(p); return q; }  /* old content not kept: nobody relies on it */
#endif

/* ---- file system: the database file and its temporary ---- */
struct vp_file { unsigned char b[FL]; };
static struct vp_file mainF, tmpF;
#define mainf mainF.b
#define tmpf tmpF.b
static int mainlen = -1, tmplen = -1, synced, ncall, nopen, fpos, fmode, nrename;
static bool complete(void);
static bool is_main(const char *p) { return !strcmp(p, "d.db"); }
static bool fault(void) { return ncall++ == IN.fault; }
static int vp_open(const char *p, int fl, ...)
{
    bool f = fault();
    if (f && IN.kind == 0) { errno = EACCES; return -1; }
    if (is_main(p)) {
        CHECK((fl & (O_WRONLY | O_RDWR | O_TRUNC)) == 0, "the database file itself is never opened for writing");
        if (mainlen < 0) { errno = ENOENT; return -1; }
        fmode = 1; fpos = 0; nopen++;
        return 7;
    }
    CHECK((fl & O_CREAT) && (fl & O_TRUNC), "a fresh temporary");
    tmplen = 0; synced = 0; fmode = 2; nopen++;
    return 8;
}
static int vp_close(int fd) { (void)fault(); CHECK(fd == 7 || fd == 8, "an open file"); nopen--; return 0; }
static ssize_t vp_read(int fd, void *b, size_t n)
{
    bool f = fault();
    CHECK(fd == 7 && fmode == 1, "reads the open database file");
    if (f && IN.kind == 0) { errno = EIO; return -1; }
    int left = mainlen - fpos; size_t m = left < 0 ? 0 : (size_t)left < n ? (size_t)left : n;
    if (f && m > 1) m = 1;
    for (size_t i = 0; i < m; i++) ((unsigned char *)b)[i] = mainf[fpos + i];
    fpos += m;
    return m;
}
static ssize_t vp_write(int fd, const void *b, size_t n)
{
    bool f = fault();
    CHECK(fd == 8 && fmode == 2, "writes go to the temporary");
    if (f && IN.kind == 0) { errno = ENOSPC; return -1; }
    if (f && n > 1) n = 1;
    CHECK(tmplen + (int)n <= FL, "no more is written than there is");
    for (size_t i = 0; i < n; i++) tmpf[tmplen + i] = ((const unsigned char *)b)[i];
    tmplen += n; synced = 0;
    return n;
}
static int vp_fsync(int fd) { bool f = fault(); CHECK(fd == 8, "syncs what was written"); if (f && IN.kind == 0) { errno = EIO; return -1; } synced = 1; return 0; }
static int vp_rename(const char *a, const char *b)
{
    bool f = fault();
    CHECK(!is_main(a) && is_main(b), "only the temporary replaces the database file");
    CHECK(synced, "what replaces the database is on disk");
    CHECK(complete(), "what replaces the database is the whole of it");
    if (f && IN.kind == 0) { errno = EACCES; return -1; }
    mainF = tmpF;
    mainlen = tmplen; tmplen = -1; nrename++;
    return 0;
}
static int vp_unlink(const char *p) { (void)fault(); CHECK(!is_main(p), "the database file is never removed"); tmplen = -1; return 0; }
#define malloc(n) vp_malloc(n)
#define calloc(a, b) vp_calloc(a, b)
#define realloc(p, n) vp_realloc(p, n)
#define free vp_free
#define open vp_open
#define close vp_close
#define read vp_read
#define write vp_write
#define fsync vp_fsync
#define fdatasync vp_fsync
#define rename vp_rename
#define unlink vp_unlink
#define remove vp_unlink
#include "server/icb_dbm.c"
#undef malloc
#undef calloc
#undef realloc
#undef free
#undef open
#undef close
#undef read
#undef write
#undef fsync
#undef rename
#undef unlink

/* keys: three of one chain and one that would be, a prefix of another, one with a NUL */
static char *const key[NK] = { "a", "ba", "e", "b", "ad", "a\0" };
static const int klen[NK] = { 1, 2, 1, 1, 2, 2 };
static bool have[NK]; static int vlen[NK]; static char val[NK][2];
static datum K(int k) { datum d; d.dptr = key[k]; d.dsize = klen[k]; return d; }

/* independent reading of the file format: does buf hold exactly the map? */
static unsigned u32(const unsigned char *b) { return b[0] | b[1] << 8 | b[2] << 16 | (unsigned)b[3] << 24; }
static bool decode(const unsigned char *b, int len)
{
    int n = 0, pos = 8; bool seen[NK] = { 0 };
    for (int k = 0; k < NK; k++) n += have[k];
    if (len < 8 || b[0] != 'I' || b[1] != 'D' || b[2] != 'B' || b[3] != 1 || u32(b + 4) != (unsigned)n) return false;
    for (int i = 0; i < NK; i++) {
        if (i >= n) break;
        if (pos + 8 > len) return false;
        unsigned kl = u32(b + pos), vl = u32(b + pos + 4);
        pos += 8;
        if (kl > 2 || vl > 2 || pos + (int)kl + (int)vl > len) return false;
        bool found = false;
        for (int k = 0; k < NK; k++) if (have[k] && !seen[k] && !found && (int)kl == klen[k] && (int)vl == vlen[k]) {
            bool eq = true;
            for (int j = 0; j < klen[k]; j++) if (b[pos + j] != (unsigned char)key[k][j]) eq = false;
            for (int j = 0; j < vlen[k]; j++) if (b[pos + klen[k] + j] != (unsigned char)val[k][j]) eq = false;
            if (eq) { found = true; seen[k] = true; }
        }
        if (!found) return false;
        pos += kl + vl;
    }
    return pos == len;
}
static bool complete(void) { return tmplen >= 0 && decode(tmpf, tmplen); }
static void check_map(DBM *db)
{
    for (int k = 0; k < NK; k++) {
        datum d = dbm_fetch(db, K(k));
        CHECK((d.dptr != NULL) == have[k], "found exactly if stored");
        if (d.dptr && have[k]) {
            CHECK(d.dsize == vlen[k], "with its length");
            for (int j = 0; j < vlen[k]; j++) CHECK(d.dptr[j] == val[k][j], "with its value");
            CHECK(d.dptr[d.dsize] == 0, "terminated for convenience");
        }
    }
}
static void put(DBM *db, int k, int l)
{
    datum v; v.dptr = IN.v0[k]; v.dsize = l;
    CHECK(dbm_store(db, K(k), v, DBM_REPLACE) == 0, "stored");
    have[k] = true; vlen[k] = l; for (int j = 0; j < l; j++) val[k][j] = IN.v0[k][j];
}
static void reset(void)
{
    nlive = 0; mainlen = tmplen = -1; synced = ncall = nopen = fpos = fmode = nrename = 0;
    for (int k = 0; k < NK; k++) { have[k] = false; vlen[k] = 0; val[k][0] = val[k][1] = 0; }
}
#if W == 1
#ifdef VP_NATIVE
#define SHAPES
#endif
static const signed char shape[7][NK + 1] = { { -1 }, { 0, -1 }, { 0, 1, -1 }, { 1, 0, 2, -1 }, { 3, 5, 0, -1 }, { 0, 1, 2, 3, -1 }, { 0, 1, 2, 3, 4, 5, -1 } };
static void one(int op, int k, int len)
{
    reset();
    DBM *db = dbm_open("d", O_RDWR, 0600);
    CHECK(db != NULL, "a missing file is an empty database");
    if (!db) return;
    for (int i = 0; i < NK && shape[SHAPE][i] >= 0; i++) put(db, shape[SHAPE][i], i % 3);
    datum v; v.dptr = IN.v1; v.dsize = len;
    if (op < 2) {
        int r = dbm_store(db, K(k), v, op ? DBM_REPLACE : DBM_INSERT);
        CHECK(r == (op == 0 && have[k] ? 1 : 0), "an insertion is refused exactly if the key exists");
        if (r == 0) { have[k] = true; vlen[k] = len; for (int j = 0; j < len; j++) val[k][j] = IN.v1[j]; }
    } else if (op == 2) {
        int r = dbm_delete(db, K(k));
        CHECK(r == (have[k] ? 0 : -1), "deleted exactly if it was there");
        have[k] = false;
    } else if (op == 3) {                                  /* put back what was deleted */
        dbm_delete(db, K(k));
        CHECK(dbm_store(db, K(k), v, DBM_INSERT) == 0, "can be inserted anew");
        have[k] = true; vlen[k] = len; for (int j = 0; j < len; j++) val[k][j] = IN.v1[j];
    } else {
        datum none; none.dptr = NULL; none.dsize = 0;
        CHECK(dbm_fetch(db, none).dptr == NULL && dbm_delete(db, none) == -1 && dbm_store(db, none, v, DBM_REPLACE) == -1, "no key");
        CHECK(dbm_fetch(NULL, K(k)).dptr == NULL && dbm_delete(NULL, K(k)) == -1 && dbm_store(NULL, K(k), v, DBM_REPLACE) == -1, "no database");
    }
    check_map(db);
    IN.fault = 1;                                           /* closing: nothing can be written here */
    IN.kind = 0; ncall = 1;
    dbm_close(db);
    CHECK(nlive == 0, "all memory is given back");
    REACH(op == 1 && have[k] && len == 2 && val[k][1] == 'x', "replace");
    REACH(op == 2 && !have[k], "delete");
}
void harness(void)
{
    HARNESS_IN();
    IN.fault = 255;
    for (int op = 0; op < 5; op++) for (int k = 0; k < NK; k++) for (int len = 0; len <= 2; len += 2)
#ifdef QUICK      /* the large shapes: the chained keys, the key with a NUL, and one absent */
        if ((SHAPE < 3 && (len == 2 || op == 1) && (SHAPE < 2 || op < 4)) || (SHAPE >= 3 && len == 2 && op < 3 && k != 4 && (SHAPE < 5 || (k != 1 && (SHAPE < 6 || op == 1 || k != 3)))))
#endif
        if ((op != 2 && op != 4) || len == 2)
            if (IN.op == op && IN.key == k && IN.len == len) one(op, k, len);
}
#elif W == 2
static void one(int n, int f, int kind, int twice)
{
    reset();
    IN.fault = 255;
    DBM *db = dbm_open("d", O_RDWR, 0600);
    if (!db) return;
    /* an earlier state is on disk */
    mainlen = 3;
    for (int i = 0; i < n; i++) put(db, i, i);
    IN.fault = f; IN.kind = kind; ncall = 0;
    if (twice) {
        int r = dbm_sync(db);
        CHECK((r == 0) == (nrename == 1), "success is reported exactly if the database is on disk");
        CHECK(nopen == 0, "no file is left open");
        if (r != 0) CHECK(mainlen == 3, "a failed write leaves the old database");
        IN.fault = 255;
        r = dbm_sync(db);
        CHECK(r == 0 && nrename == 1, "a later write catches up");
        dbm_close(db);
        CHECK(nrename == 1, "nothing new to write");
    } else dbm_close(db);
    CHECK(nopen == 0, "no file is left open");
    CHECK(nlive == 0, "all memory is given back");
    if (kind == 1 || f == 255 || twice) CHECK(nrename == 1 && decode(mainf, mainlen), "the database is on disk");
    else CHECK(nrename == 1 ? decode(mainf, mainlen) : mainlen == 3, "the old database or the new one, nothing in between");
    REACH(n == 3 && nrename == 0, "kept"); REACH(n == 3 && nrename == 1 && kind == 1, "short write");
}
void harness(void)
{
    HARNESS_IN();
    unsigned char F = IN.fault, KD = IN.kind;
    for (int n = 1; n <= 3; n += 2) for (int f = 0; f < 16; f++) for (int k = 0; k < 2; k++) for (int t = 0; t < 2; t++)
        if (IN.len == n && F == f && KD == k && IN.twice == t) { one(n, f == 15 ? 255 : f, k, t); return; }
}
#elif W == 3
static void enc(unsigned v) { for (int i = 0; i < 4; i++) mainf[mainlen++] = v >> (8 * i); }
static void one(int n, int f, int kind)
{
    reset();
    IN.fault = 255;
    mainlen = 0; mainf[0] = 'I'; mainf[1] = 'D'; mainf[2] = 'B'; mainf[3] = 1; mainlen = 4; enc(n);
    for (int k = 0; k < n; k++) {
        have[k] = true; vlen[k] = k % 3;
        enc(klen[k]); enc(vlen[k]);
        for (int j = 0; j < klen[k]; j++) mainf[mainlen++] = key[k][j];
        for (int j = 0; j < vlen[k]; j++) { val[k][j] = IN.v0[k][j]; mainf[mainlen++] = IN.v0[k][j]; }
    }
    IN.fault = f; IN.kind = kind; ncall = 0;
    DBM *db = dbm_open("d", O_RDWR, 0600);
    bool hit = f < ncall;
    CHECK(nopen == 0, "no file is left open");
    if (kind == 1 || !hit) CHECK(db != NULL, "a well-formed file is read");
    IN.fault = 255;
    if (db) { if (kind == 1 || !hit) check_map(db); dbm_close(db); CHECK(nrename == 0 && tmplen < 0, "an unchanged database is not written"); }
    CHECK(nlive == 0, "all memory is given back");
    REACH(n == 4 && db == NULL, "read error"); REACH(n == 4 && db != NULL && kind == 1, "short read");
}
void harness(void)
{
    HARNESS_IN();
    unsigned char F = IN.fault, KD = IN.kind;
    for (int n = 0; n <= 4; n += 4) for (int f = 0; f < 20; f++) for (int k = 0; k < 2; k++)
        if (IN.len == n && F == f && KD == k) { one(n, f == 19 ? 255 : f, k); return; }
}
#else
/* a file that is cut short or nonsense is refused, never half read */
static void enc(unsigned v) { for (int i = 0; i < 4; i++) mainf[mainlen++] = v >> (8 * i); }
static const unsigned big[4] = { 0x100001, 0x7fffffff, 0x80000001, 0xffffffff };
static void one(int how, int at)
{
    reset();
    IN.fault = 255;
    mainf[0] = 'I'; mainf[1] = 'D'; mainf[2] = 'B'; mainf[3] = 1; mainlen = 4; enc(2);
    if (how == 1) { if (at < 4) mainf[at] = IN.v1[0]; }
    enc(how == 2 && at < 4 ? big[at] : 1); enc(how == 2 && at >= 4 && at < 8 ? big[at - 4] : 2);
    mainf[mainlen++] = 'a'; mainf[mainlen++] = IN.v0[0][0]; mainf[mainlen++] = IN.v0[0][1];
    enc(how == 2 && at >= 8 && at < 12 ? big[at - 8] : 2); enc(how == 2 && at >= 12 && at < 16 ? big[at - 12] : 0);
    mainf[mainlen++] = 'b'; mainf[mainlen++] = 'a';
    bool ok = false;
    if (how == 0) { ok = at >= mainlen; if (!ok) mainlen = at; }
    if (how == 1) ok = at >= 4 || IN.v1[0] == (at == 0 ? 'I' : at == 1 ? 'D' : at == 2 ? 'B' : 1);
    if (how == 2) ok = at >= 16;
    DBM *db = dbm_open("d", O_RDWR, 0600);
    CHECK((db != NULL) == ok, "accepted exactly if whole");
    CHECK(nopen == 0, "no file is left open");
    have[0] = have[1] = true; vlen[0] = 2; vlen[1] = 0; val[0][0] = IN.v0[0][0]; val[0][1] = IN.v0[0][1];
    if (db) { check_map(db); dbm_close(db); }
    CHECK(nrename == 0 && tmplen < 0, "the file is left as it was");
    CHECK(nlive == 0, "all memory is given back");
    REACH(how == 0 && at == 28 && !db, "cut");
    REACH(how == 1 && db != NULL, "right magic"); REACH(how == 1 && db == NULL, "wrong magic");
}
void harness(void)
{
    HARNESS_IN();
    for (int h = 0; h < 3; h++) for (int at = 0; at <= (h == 0 ? 29 : h == 1 ? 4 : 16); at++)
        if (IN.op == h && IN.key == at) { one(h, at); return; }
}
#endif
VP_MAIN
