/* Name lists: server/namelist.c on server/strlist.c
 * One operation on any well-formed list: every length, position of the cursor and capacity below the bound.
 * @assume malloc() succeeds (on failure the operation is abandoned and logged)
 * @assume strcasecmp() compares as POSIX, ignoring ASCII case
 * @unit name=nlput prop=C10 under=nlput,strunlink,strlinkhead def=OP=1 unwind=10 mode=plain term=1 level=bounded bound=lists_of_up_to_4_names
 * @unit name=nldelete prop=C10 under=nldelete,strgetnode,strunlink def=OP=2 unwind=10 mode=plain term=1 level=bounded bound=lists_of_up_to_4_names
 * @unit name=nlclear prop=C10 under=nlclear,nlinit def=OP=3 unwind=10 mode=plain term=1 level=bounded bound=lists_of_up_to_4_names
 * @unit name=nlget prop=C10 under=nlget,nlcount def=OP=4 unwind=10 mode=plain term=1 level=bounded bound=lists_of_up_to_4_names
 * @unit name=nlpresent prop=C10 under=nlpresent,nlmatch,strgetnode def=OP=5 unwind=10 mode=plain term=1 level=bounded bound=lists_of_up_to_4_names
 * @unit name=strlink prop=C10 under=strlinkhead,strlinktail,strlinkafter,strlinkbefore,strlinkalpha,strunlink def=OP=6 unwind=10 mode=plain term=1 level=bounded bound=lists_of_up_to_3_names
 * @unit name=nlput_long prop=C10 under=nlput def=OP=7 unwind=104 mode=plain term=1 level=bounded bound=names_of_up_to_100_characters
 */
#include "vp.h"
#include "vp_log.h"
#if OP == 6
#define N 3
#else
#define N 4
#endif
#if OP == 7
#define L 100
#else
#define L 3
#endif
/* Names take part only through comparison: which of the listed names equals the given one (hit, up to case) is enumerated,
 * with concrete texts that share a prefix; in the alphabetical case, where the name sorts. */
struct vp_in { unsigned char n, p, max, at, hit; char s[N][L + 1], name[L + 1]; unsigned char match[N]; };
#include "vp_in.h"
#include "server/namelist.h"

static char low(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int cmp(const char *a, const char *b, bool ci)
{
    for (int i = 0; i <= L; i++) {
        int d = ci ? (unsigned char)low(a[i]) - (unsigned char)low(b[i]) : (unsigned char)a[i] - (unsigned char)b[i];
        if (d) return d;
        if (!a[i]) return 0;
    }
    return 0;
}
int vp_strcasecmp(const char *a, const char *b) { return cmp(a, b, true); }
/* nodes of the list, and the one a new name gets */
struct vp_node { STRLIST s; char room[L + 1]; };
static struct vp_node node[N], fresh;
static STRLIST *mine; static int nalloc, nfreed[N + 1];
static void *vp_malloc(size_t n)
{
    CHECK(n >= offsetof(STRLIST, str) + strlen(IN.name) + 1, "room for the whole name");
    CHECK(nalloc == 0, "one new entry at most");
    nalloc++;
#ifdef VP_NATIVE
    return mine = (malloc)(n);
#else
    return mine = &fresh.s;
#endif
}
static void vp_free(void *p)
{
    for (int i = 0; i < N; i++) if (p == (void *)&node[i].s) { CHECK(nfreed[i] == 0, "freed once"); nfreed[i]++; return; }
    CHECK(p == (void *)mine || p == NULL, "only entries of the list are freed");
    if (p) nfreed[N]++;
}
#ifdef OP
#define malloc vp_malloc
#define free vp_free
#define strcasecmp vp_strcasecmp
#endif
static int nmatch;
int wildmat(char *text, char *p)
{
    CHECK(text == IN.name, "the name is the text");
    for (int i = 0; i < N; i++) if (p == node[i].s.str) return IN.match[i] & 1;
    CHECK(0, "the list's entries are the patterns");
    return 0;
}
#include "server/strlist.c"
#include "server/namelist.c"
#undef malloc
#undef free

static NAMLIST nl;
static STRLIST *want[N + 2]; static int nwant;
static void check_list(STRLIST *head, STRLIST *tail)
{
    STRLIST *p = head, *prev = NULL;
    for (int i = 0; i < N + 1; i++) {
        if (i >= nwant) break;
        CHECK(p == want[i], "the expected entries in the expected order");
        if (p != want[i]) return;
        CHECK(p->prev == prev, "linked back");
        prev = p; p = p->next;
    }
    CHECK(p == NULL, "nothing more");
    CHECK(tail == prev, "the tail is the last");
}
static void one(int n, int pp, int max, int at, int h)
{
#if OP != 7
    for (int i = 0; i < N; i++) { IN.s[i][0] = 'x'; IN.s[i][1] = 'b' + 2 * i; IN.s[i][2] = i & 1 ? 'q' : 0; IN.s[i][3] = 0; }
    IN.name[0] = 'X'; IN.name[1] = h < N ? 'B' + 2 * h : 'a' + 2 * (h - N); IN.name[2] = h & 1 && h < N ? 'Q' : 0; IN.name[3] = 0;
    if (OP == 6 && max == 4) { IN.name[0] = 'x'; IN.name[1] |= 32; IN.name[2] |= IN.name[2] ? 32 : 0; }
#endif
    nl.head = nl.tail = nl.p = NULL; nl.num = n; nl.max = max;
    for (int i = 0; i < n; i++) {
        node[i].s.prev = i ? &node[i - 1].s : NULL;
        node[i].s.next = i + 1 < n ? &node[i + 1].s : NULL;
        char *d = node[i].s.str;
        for (int j = 0; j <= L; j++) d[j] = IN.s[i][j];
        nl.tail = &node[i].s;
    }
    if (n) { nl.head = &node[0].s; nl.p = &node[pp].s; }
    int hit = -1;                                     /* names differ from each other, ignoring case */
    for (int i = 0; i < n; i++) {
        for (int j = 0; j < i; j++) ASSUME(cmp(IN.s[i], IN.s[j], true) != 0);
        if (hit < 0 && cmp(IN.s[i], IN.name, true) == 0) hit = i;
    }
    char *r; int x;
#if OP == 7
    nlput(&nl, IN.name);
    CHECK(nl.num == 1 && nl.head == mine && nl.tail == mine && nl.p == mine, "listed");
    CHECK(IN.at > strlen(IN.name) || (&mine->str[0])[IN.at] == IN.name[IN.at], "the whole name");
    REACH(strlen(IN.name) == L, "longest");
    return;
#endif
#if OP == 1
    nlput(&nl, IN.name);
    nwant = 0;
    if (hit >= 0) want[nwant++] = &node[hit].s;
    else {
        CHECK(nalloc == 1, "a new name gets an entry");
        want[nwant++] = mine;
        CHECK(strcmp(mine->str, IN.name) == 0, "with its name");
    }
    for (int i = 0; i < n; i++) if (i != hit && !(hit < 0 && n == max && i == n - 1)) want[nwant++] = &node[i].s;
    for (int i = 0; i < n; i++) CHECK(nfreed[i] == (hit < 0 && n == max && i == n - 1), "only the oldest of a full list is dropped");
    CHECK(nl.num == nwant && nl.p == nl.head, "counted, cursor at the newest");
    CHECK(hit < 0 || nalloc == 0, "a name is listed once");
    check_list(nl.head, nl.tail);
    REACH(n == 4 && max == 4 && hit < 0, "full");
    REACH(n == 4 && hit == 2, "moved up");
#elif OP == 2
    x = nldelete(&nl, IN.name);
    nwant = 0;
    for (int i = 0; i < n; i++) { if (i != hit) want[nwant++] = &node[i].s; CHECK(nfreed[i] == (i == hit), "exactly the named entry is dropped"); }
    CHECK((x == 0) == (hit >= 0) && (x == 0 || x == -1), "the result tells whether it was listed");
    CHECK(nl.num == nwant && (x != 0 || nl.p == nl.head), "counted");
    CHECK((nl.p == NULL) == (nwant == 0), "the cursor is on an entry");
    check_list(nl.head, nl.tail);
    REACH(n == 1 && hit == 0, "last one"); REACH(n == 4 && hit == 3, "tail");
#elif OP == 3
    if (at == 0) { nlclear(&nl); for (int i = 0; i < n; i++) CHECK(nfreed[i] == 1, "every entry is freed"); CHECK(nl.max == max, "capacity kept"); }
    else { nlinit(&nl, at); CHECK(nl.max == at, "capacity"); }
    CHECK(nl.num == 0 && !nl.head && !nl.tail && !nl.p, "empty");
    nlclear(NULL); nlinit(NULL, 1);
#elif OP == 4
    nwant = n; for (int i = 0; i < n; i++) want[i] = &node[i].s;
    CHECK(nlcount(nl) == (unsigned)n, "the number of entries");
    if (n) {
        for (int k = 0; k < n + 1; k++) { r = nlget(&nl); CHECK(r == node[(pp + k) % n].s.str, "each in turn, round and round"); }
        check_list(nl.head, nl.tail);
    }
    CHECK(nlget(NULL)[0] == 0, "no list");
#elif OP == 5
    bool m = false;
    for (int i = 0; i < n; i++) m |= IN.match[i] & 1;
    CHECK(!nlpresent(IN.name, nl) == (hit < 0), "present exactly if listed");
    CHECK(!nlmatch(IN.name, nl) == !m, "matched exactly if an entry matches");
    REACH(n == 4 && hit == 3 && !m, "last");
    REACH(n == 4 && m && hit < 0 && !IN.match[0] && !IN.match[1] && !IN.match[2], "match last");
#elif OP == 6
    int ci = max & 1, ins = 0;
    STRLIST *f = &fresh.s;
    char *d = f->str;
    for (int j = 0; j <= L; j++) d[j] = IN.name[j];
    bool sorted = true;
    for (int i = 0; i + 1 < n; i++) if (cmp(IN.s[i], IN.s[i + 1], ci) > 0) sorted = false;
    switch (at) {
    case 0: strlinkhead(f, &nl.head, &nl.tail); ins = 0; break;
    case 1: strlinktail(f, &nl.head, &nl.tail); ins = n; break;
    case 2: if (!n) return; strlinkafter(f, &node[pp].s, &nl.head, &nl.tail); ins = pp + 1; break;
    case 3: if (!n) return; strlinkbefore(f, &node[pp].s, &nl.head, &nl.tail); ins = pp; break;
    case 4: if (!n) return; strunlink(&node[pp].s, &nl.head, &nl.tail); ins = -1; break;
    default: if (!sorted) return; strlinkalpha(f, &nl.head, &nl.tail, ci); for (ins = 0; ins < n && cmp(IN.name, IN.s[ins], ci) >= 0; ins++) ; break;
    }
    nwant = 0;
    for (int i = 0; i < n; i++) { if (ins == i) want[nwant++] = f; if (at != 4 || i != pp) want[nwant++] = &node[i].s; }
    if (ins == n) want[nwant++] = f;
    check_list(nl.head, nl.tail);
    REACH(at == 5 && n == 3 && ins == 2 && ci, "alphabetical");
#endif
}
void harness(void)
{
    HARNESS_IN();
    IN.name[L] = 0;
#if OP == 7
    one(0, 0, 4, 0, 0);
    return;
#endif
    for (int n = 0; n <= N; n++) for (int p = 0; p < (n ? n : 1); p++)
#if OP == 1
        for (int m = n ? n : 1; m <= n + 1; m++) for (int a = 0; a < 1; a++)
#elif OP == 3
        for (int m = 4; m <= 4; m++) for (int a = 0; a < 3; a += 2)
#elif OP == 6
        for (int m = 4; m <= 5; m++) for (int a = 0; a < 6; a++)
#else
        for (int m = 4; m <= 4; m++) for (int a = 0; a < 1; a++)
#endif
            for (int h = 0; h < 9; h++) if (h < n || h == N || (OP == 6 && h > N && h - N <= n))
                if (IN.n == n && IN.p == p && IN.max == m && IN.at == a && IN.hit == h) one(n, p, m, a, h);
}
VP_MAIN
