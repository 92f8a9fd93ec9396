/* The attribute database: server/icbdb.c over the contract of dbm.c (proved there): a map, written to disk by dbm_sync/dbm_close.
 * @assume lcaseit() lower-cases ASCII letters in place (text.c)
 * @unit name=attr_name prop=C13 under=icbdb_get,icbdb_set,icbdb_delete,icbdb_open,icbdb_close,icbdb_make_key def=W=1,P=1,DBLKSIZ=24 unwind=40 mode=plain term=1 level=bounded bound=7_pairs_of_names_(buffer_size_set_to_24)
 * @unit name=attr_name2 prop=C13 under=icbdb_get,icbdb_set,icbdb_delete,icbdb_open,icbdb_close,icbdb_make_key def=W=1,P=2,DBLKSIZ=24 unwind=40 mode=plain term=1 level=bounded bound=7_pairs_of_names_(buffer_size_set_to_24)
 * @unit name=attr_text prop=C13 under=icbdb_get,icbdb_set,icbdb_delete,icbdb_open,icbdb_close,icbdb_make_key def=W=1,P=0,DBLKSIZ=24 unwind=40 mode=plain term=1 level=bounded bound=values_of_up_to_25_characters_(buffer_size_set_to_24)
 * @unit name=attr_int prop=C13 under=icbdb_get,icbdb_set def=W=2,DBLKSIZ=24 unwind=40 mode=plain term=1 level=bounded bound=9_representative_numbers
 * @unit name=attr_multi prop=C13 under=icbdb_get,icbdb_set,icbdb_delete,icbdb_open,icbdb_close,icbdb_set_multiuser def=W=3,P=3,DBLKSIZ=24 unwind=40 mode=plain term=1 level=bounded bound=values_of_up_to_23_characters_(buffer_size_set_to_24)
 * @unit name=list_0 prop=C13 under=icbdb_list_add,icbdb_list_find,icbdb_list_load,icbdb_list_get_index,icbdb_list_set_index def=W=4,OP=0,DBLKSIZ=24 unwind=40 mode=plain term=1 level=bounded bound=lists_of_up_to_4_slots,_18_cases
 * @unit name=list_1 prop=C13 under=icbdb_list_delete,icbdb_list_find,icbdb_list_load,icbdb_list_delete_index def=W=4,OP=1,DBLKSIZ=24 unwind=40 mode=plain term=1 level=bounded bound=lists_of_up_to_4_slots,_18_cases
 * @unit name=list_2 prop=C13 under=icbdb_list_clear,icbdb_list_find,icbdb_list_load def=W=4,OP=2,DBLKSIZ=24 unwind=40 mode=plain term=1 level=bounded bound=lists_of_up_to_4_slots,_18_cases
 */
#include "vp.h"
#include "vp_log.h"
#include "vp_fmt.h"
#include <errno.h>
#define NE 6
#define VL 26
struct vp_in { unsigned char a, b, len, op, nest, syncfail; char v[VL]; };
#include "vp_in.h"
#include "server/server.h"
#include "server/dbm.h"

/* ---- contract of the database (C11, C12) ---- */
struct icb_dbm { int x; };
static struct icb_dbm the_db;
static struct { bool used; int kl, vl; char k[DBLKSIZ], v[VL]; } ent[NE];
static int is_open, unsaved, failopen, failsync;
static char fetched[VL + 1];
static int find(datum k)
{
    for (int i = 0; i < NE; i++) if (ent[i].used && ent[i].kl == k.dsize) {
        bool eq = true;
        for (int j = 0; j < DBLKSIZ; j++) if (j < k.dsize && ent[i].k[j] != k.dptr[j]) { eq = false; break; }
        if (eq) return i;
    }
    return -1;
}
DBM *dbm_open(const char *f, int fl, int mode) { (void)f; (void)fl; (void)mode; if (failopen) { errno = EACCES; return NULL; } CHECK(!is_open, "opened once"); is_open = 1; return &the_db; }
int dbm_sync(DBM *d) { CHECK(d == &the_db && is_open, "an open database"); if (failsync) return -1; unsaved = 0; return 0; }
void dbm_close(DBM *d) { CHECK(d == &the_db && is_open, "an open database"); is_open = 0; if (!failsync) unsaved = 0; }
datum dbm_fetch(DBM *d, datum k)
{
    CHECK(d == &the_db && is_open, "an open database");
    datum r = { NULL, 0 }; int i = find(k);
    if (i < 0) return r;
    for (int j = 0; j < VL; j++) if (j < ent[i].vl) fetched[j] = ent[i].v[j];
    fetched[ent[i].vl] = 0;
    r.dptr = fetched; r.dsize = ent[i].vl;
    return r;
}
int dbm_store(DBM *d, datum k, datum v, int fl)
{
    CHECK(d == &the_db && is_open, "an open database");
    CHECK(k.dsize <= DBLKSIZ && v.dsize >= 0 && v.dsize <= VL, "sane sizes");
    int i = find(k);
    if (i >= 0 && fl == DBM_INSERT) return 1;
    if (i < 0) for (int j = NE - 1; j >= 0; j--) if (!ent[j].used) i = j;
    CHECK(i >= 0, "harness: room in the model");
    if (i < 0) return -1;
    ent[i].used = true; ent[i].kl = k.dsize; ent[i].vl = v.dsize;
    for (int j = 0; j < DBLKSIZ; j++) if (j < k.dsize) ent[i].k[j] = k.dptr[j];
    for (int j = 0; j < VL; j++) if (j < v.dsize) ent[i].v[j] = v.dptr[j];
    unsaved = 1;
    return 0;
}
int dbm_delete(DBM *d, datum k)
{
    CHECK(d == &the_db && is_open, "an open database");
    int i = find(k);
    if (i < 0) return -1;
    ent[i].used = false; unsaved = 1;
    return 0;
}
void lcaseit(char *s) { for (; *s; s++) if (*s >= 'A' && *s <= 'Z') *s += 32; }
static unsigned loaded; static int nload;
static const char *const nm[5] = { "ann", "bob", "cat", "dan", "eve" };
void nlput(NAMLIST *nl, char *s) { (void)nl; nload++; for (int i = 0; i < 5; i++) if (!strcmp(s, nm[i])) loaded |= 1u << i; }
unsigned int nlcount(NAMLIST nl) { (void)nl; return 0; }
char *nlget(NAMLIST *nl) { (void)nl; return ""; }
#ifndef VP_NATIVE       /* atoi of the decimal texts that occur here */
static int vp_atoi(const char *s) { long v = 0; bool neg = *s == '-'; if (neg) s++; for (; *s >= '0' && *s <= '9'; s++) v = v * 10 + (*s - '0'); return (int)(neg ? -v : v); }
#define atoi vp_atoi
#endif
#include "server/icbdb.c"

static void settled(void) { CHECK(!unsaved, "every change is on disk when the outermost user is done"); }
/* category, attribute; the first three name the same attribute */
static const struct { const char *c, *a; int id; } at[7] =
{ { "nick", "pass", 0 }, { "NiCk", "pass", 0 }, { "nick", "Pass", 0 }, { "nic", "pass", 1 }, { "nick", "pas", 2 }, { "pass", "nick", 3 }, { NULL, "nick", 4 } };
#if W == 1 || W == 3
static void one(int a, int b, int len, int op)
{
    char v[VL + 1], *got = NULL, *other = NULL; int want = len < DBLKSIZ ? len : DBLKSIZ - 1;
    for (int i = 0; i < len; i++) v[i] = IN.v[i];
    v[len] = 0;
#if W == 3
    icbdb_set_multiuser(1);
#endif
    CHECK(icbdb_get(at[a].c, at[a].a, ICBDB_STRING, &got) == 0, "nothing is there at first");
    failsync = IN.syncfail & 1;
    if (IN.nest & 1) CHECK(icbdb_open() != 0, "open");
    CHECK(icbdb_set(at[a].c, at[a].a, ICBDB_STRING, v) == 0, "stored");
    if (op == 1) icbdb_delete(at[b].c, at[b].a);
    if (op == 2) icbdb_set(at[b].c, at[b].a, ICBDB_STRING, "zz");
    if (IN.nest & 1) icbdb_close();
    if (!failsync) settled();
    else { failsync = 0; icbdb_open(); icbdb_close(); settled(); }       /* a failed write is caught up with later */
    int r = icbdb_get(at[a].c, at[a].a, ICBDB_STRING, &got);
    bool same = at[a].id == at[b].id;
    if (op == 1 && same) CHECK(r == 0, "deleted, whatever the case of its name");
    else if (op == 2 && same) CHECK(r == 1 && got[0] == 'z' && got[1] == 'z' && got[2] == 0, "overwritten, whatever the case of its name");
    else {
        CHECK(r == 1 && got != NULL, "found");
        for (int i = 0; i < want; i++) CHECK(got[i] == v[i], "the value that was set");
        CHECK(got[want] == 0, "and nothing more");
    }
    CHECK(icbdb_get(at[a].c, at[a].a, ICBDB_STRING, NULL) == r, "a value need not be asked for");
    if (op == 0) CHECK(icbdb_get(at[b].c, at[b].a, ICBDB_STRING, &other) == same, "found under another name only if it is the same one");
    settled();
#if W == 3
    CHECK(!is_open, "not held open while others use it");
#endif
    /* without a database every request fails softly */
    icbdb_set_multiuser(1); icbdb_set_multiuser(0);
    CHECK(!is_open, "given up on request"); failopen = 1;
    CHECK(icbdb_get(at[a].c, at[a].a, ICBDB_STRING, &got) == 0 && icbdb_set(at[a].c, at[a].a, ICBDB_STRING, v) == 0 && icbdb_delete(at[a].c, at[a].a) == 0, "no database");
    failopen = 0;
    icbdb_get(at[a].c, at[a].a, ICBDB_STRING, &got);
    CHECK(is_open, "held open"); icbdb_set(at[a].c, at[a].a, ICBDB_STRING, "y"); settled();
    REACH(op == (P == 0 || P == 2 ? 0 : 1) && same && r == (P == 0 || P == 2), "same"); REACH(P == 0 && r == 1 && len == 25 || P && !same, "other");
    REACH(IN.syncfail & 1, "write error"); REACH(IN.nest & 1, "nested");
}
void harness(void)
{
    HARNESS_IN();
    ASSUME(IN.len <= 25);
    for (int i = 0; i < VL; i++) if (IN.v[i] == 0) IN.v[i] = 'x';
#if P
    for (int b = 0; b < 7; b++) for (int op = 0; op < 3; op++)
        if (P == 1 ? op == 1 : P == 2 ? op != 1 && (b == 1 || b == 3 || b == 6) : b == 2 || (op == 0 && b == 5))
        if (IN.b == b && IN.op == op && IN.len == 2) { one(0, b, 2, op); return; }
#else
    for (int len = 0; len <= 25; len += len == 0 || len >= 22 ? 1 : 21)
        if (IN.len == len) { one(1, 0, len, 0); return; }
#endif
}
#elif W == 2
static const int num[9] = { 0, 1, -1, 9, 10, 99, 100, 2147483647, -2147483647 - 1 };
void harness(void)
{
    HARNESS_IN();
    for (int i = 0; i < 9; i++) if (IN.a == i) {
        int v = num[i], got = 7; char *s = NULL;
        CHECK(icbdb_get("nick", "nummsg", ICBDB_INT, &got) == 0 && got == 7, "nothing is there at first");
        CHECK(icbdb_set("Nick", "nummsg", ICBDB_INT, &v) == 0, "stored"); settled();
        CHECK(icbdb_get("nick", "nummsg", ICBDB_INT, &got) == 1 && got == v, "the number that was set");
        CHECK(icbdb_get("nick", "nummsg", ICBDB_STRING, &s) == 1 && s != NULL, "readable as text");
        REACH(v < 0, "negative");
        return;
    }
}
#else
static void one(int mask, int k)
{
    unsigned want = 0; int total = 0;
    for (int i = 0; i < 3; i++) { icbdb_list_add("nick", "l", ICBDB_STRING, (void *)nm[i]); want |= 1u << i; settled(); }
    for (int i = 0; i < 3; i++) if (mask >> i & 1) { icbdb_list_delete("nick", "l", ICBDB_STRING, (void *)nm[i]); want &= ~(1u << i); settled(); }
    if (OP == 0) { CHECK(icbdb_list_add("nick", "l", ICBDB_STRING, (void *)nm[k]) == 1, "done"); want |= 1u << k; }
    if (OP == 1) { CHECK(icbdb_list_delete("nick", "l", ICBDB_STRING, (void *)nm[k]) == 1, "done"); want &= ~(1u << k); }
    if (OP == 2) { CHECK(icbdb_list_clear("nick", "l") == 1, "done"); want = 0; }
    settled();
    for (int i = 0; i < 4; i++) {
        int x, m; total += want >> i & 1;
        CHECK(icbdb_list_find("nick", "l", ICBDB_STRING, (void *)nm[i], &x, &m, NULL, NULL) == (int)(want >> i & 1), "listed exactly if added and not deleted since");
    }
    NAMLIST nl;
    CHECK(icbdb_list_load("nick", "l", &nl) == 1 && loaded == want && nload == total, "loading gives every entry, each once");
    if (OP == 2) for (int i = 0; i < NE; i++) CHECK(!ent[i].used, "nothing is left behind");
    REACH(mask == 5, "holes");
}
void harness(void)
{
    HARNESS_IN();
    static const unsigned char c[3][6][2] = { { { 0, 0 }, { 0, 3 }, { 1, 3 }, { 2, 1 }, { 6, 2 }, { 5, 3 } }, { { 0, 0 }, { 0, 2 }, { 2, 2 }, { 1, 3 }, { 6, 0 }, { 5, 1 } }, { { 0, 0 }, { 2, 0 }, { 5, 0 }, { 6, 0 }, { 7, 0 }, { 4, 0 } } };
    for (int i = 0; i < 6; i++) if (IN.a == i) { one(c[OP][i][0], c[OP][i][1]); return; }
}
#endif
VP_MAIN
