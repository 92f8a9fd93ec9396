/* Wildcard matching: server/wildmat.c
 * @unit name=DoMatch prop=C09 enforcerec=DoMatch def=U_REC,T=4,P=6 unwind=9 tier=quick level=bounded bound=texts_of_up_to_4_and_patterns_of_up_to_6_characters fbenum=1 weight=9
 * @unit name=DoMatch_l prop=C09 enforcerec=DoMatch def=U_REC,T=5,P=8 unwind=11 tier=thorough level=bounded bound=texts_of_up_to_5_and_patterns_of_up_to_8_characters fbenum=1 weight=9
 * @unit name=wildmat prop=C09 enforce=wildmat replace=DoMatch def=T=4,P=6 unwind=9 level=bounded bound=texts_of_up_to_4_and_patterns_of_up_to_6_characters fbenum=1
 */
#include "vp.h"
struct vp_in { char t[T + 1], p[P + 1]; unsigned char i, j; };
#include "vp_in.h"
static char text[T + 1], pat[P + 1];

/* Specification: m[i][j] = "text from i matches pattern from j", filled from the end.
 * An unterminated class matches nothing. */
static bool m[T + 2][P + 2];
static bool later[T + 2][P + 2]; /* some text start at or after i matches from j */
/* class at pattern position j ('['): does it contain c?  *end = index of its ']' or -1 */
static bool in_class(int j, char c, int *end)
{
    bool neg = false, hit = false;
    int q = j + 1;
    char last = '[';
    if (q <= P && pat[q] == '^') { neg = true; last = '^'; q++; }
    if (q <= P && (pat[q] == ']' || pat[q] == '-')) { hit = pat[q] == c; last = pat[q]; q++; }
    for (int n = 0; n < P + 1; n++) {
        if (q > P || pat[q] == 0) { *end = -1; return false; }
        if (pat[q] == ']') { *end = q; return hit != neg; }
        if (pat[q] == '-' && q + 1 <= P && pat[q + 1] != ']' && pat[q + 1] != 0) {
            if (c >= last && c <= pat[q + 1]) hit = true;
            last = pat[q + 1];
            q += 2;
        } else {
            if (c == pat[q]) hit = true;
            last = pat[q];
            q++;
        }
    }
    *end = -1;
    return false;
}
static int lt, lp;
static bool spec(void)
{
    lt = lp = 0;
    while (lt < T && text[lt]) lt++;
    while (lp < P && pat[lp]) lp++;
    for (int i = T + 1; i >= 0; i--)
        for (int j = P + 1; j >= 0; j--) {
            bool r = false;
            if (i <= lt && j <= lp) {
                if (j == lp) r = i == lt;
                else if (pat[j] == '*') r = m[i][j + 1] || (i < lt && m[i + 1][j]);
                else if (i < lt) {
                    if (pat[j] == '?') r = m[i + 1][j + 1];
                    else if (pat[j] == '\\') r = j + 1 < lp && text[i] == pat[j + 1] && m[i + 1][j + 2];
                    else if (pat[j] == '[') { int e; bool in = in_class(j, text[i], &e); r = e >= 0 && in && m[i + 1][e + 1]; }
                    else r = text[i] == pat[j] && m[i + 1][j + 1];
                }
            }
            m[i][j] = r;
            later[i][j] = r || (i <= T && later[i + 1][j]);
        }
    return m[0][0];
}
static bool want;
static bool pre(const char *t, const char *p) { return t == text && p == pat && text[T] == 0 && pat[P] == 0; }
static bool post(int r) { return r == want; }

/* DoMatch, at any position of both strings: TRUE exactly when they match from there on; "abort"
 * only if no later start in the text could match either */
#define PRE_REC(t, p) ((t) >= text && (t) <= text + lt && (p) >= pat && (p) <= pat + lp)
#define POST_REC(r, t, p) ((r) == 1 ? m[(t) - text][(p) - pat] : \
    (r) == 0 ? !m[(t) - text][(p) - pat] : (r) == -1 && !later[(t) - text][(p) - pat])
static int DoMatch(char *t, char *p)
REQUIRES(__CPROVER_same_object(t, text) && __CPROVER_same_object(p, pat) && PRE_REC(t, p)) ASSIGNS() ENSURES(POST_REC(RV, t, p));

int wildmat(char *t, char *p)
REQUIRES(pre(t, p)) ASSIGNS() ENSURES(post(RV));

#include "server/wildmat.c"

void harness(void)
{
    HARNESS_IN();
    IN.t[T] = 0; IN.p[P] = 0;
    for (int i = 0; i <= T; i++) text[i] = IN.t[i];
    for (int i = 0; i <= P; i++) pat[i] = IN.p[i];
    want = spec();
#ifdef U_REC
    ASSUME(IN.i <= lt && IN.j <= lp);
    int r = DoMatch(text + IN.i, pat + IN.j);
    POST(POST_REC(r, text + IN.i, pat + IN.j));
#else
    PRE(pre(text, pat));
    int r = wildmat(text, pat);
    POST(post(r));
    REACH(r == 1 && pat[0] == '[' && pat[4] == ']' && text[1] == 0, "class matches");
    REACH(r == 1 && pat[0] == '*' && pat[1] == '?' && pat[2] == '*' && pat[3] == '\\' && text[2] != 0, "stars match");
    REACH(r == 0 && pat[4] != 0, "no match");
#endif
}

#ifdef VP_ENUM
/* stand-in used only if the matcher cannot be put under contract (renamed, no longer recursive):
 * every text of up to 3 characters of "ab-]" against every pattern of up to 5 of "ab-][^*?\\" */
#include <sys/mman.h>
static char *tx, *px;   /* each string ends right at an inaccessible page */
static char *guarded(void)
{
    char *g = mmap(0, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(g + 4096, 4096, PROT_NONE);
    return g + 4096;
}
static void one(const char *t, const char *p)
{
    memset(text, 0, sizeof text); memset(pat, 0, sizeof pat);
    strcpy(text, t); strcpy(pat, p);
    want = spec();
    char *ct = tx - strlen(t) - 1, *cp = px - strlen(p) - 1;
    strcpy(ct, t); strcpy(cp, p);
    int r = wildmat(ct, cp);
    if (r != want) { fprintf(stderr, "wildmat(\"%s\", \"%s\") = %d, must be %d\n", t, p, r, want); _exit(65); }
}
static void texts(char *t, int n, const char *p)
{
    t[n] = 0; one(t, p);
    if (n < 3) for (const char *c = "ab-]"; *c; c++) { t[n] = *c; texts(t, n + 1, p); }
}
static void pats(char *p, int n)
{
    char t[8];
    p[n] = 0; texts(t, 0, p);
    if (n < 5) for (const char *c = "ab-][^*?\\"; *c; c++) { p[n] = *c; pats(p, n + 1); }
}
int main(void) { char p[16]; tx = guarded(); px = guarded(); pats(p, 0); return 0; }
#else
VP_MAIN
#endif
