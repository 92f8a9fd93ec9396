/* C library functions CBMC has no model of: linked in only where the code under contract calls them (VP_NEED_x).
 * @assume these functions behave as POSIX describes, in the C locale
 */
#define _GNU_SOURCE 1
#include <stddef.h>
#include <string.h>
#include <strings.h>
#include <stdlib.h>
#ifdef VP_NEED_bcopy
void bcopy(const void *s, void *d, size_t n) { memmove(d, s, n); }
#endif
#ifdef VP_NEED_strnlen
size_t strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
#endif
#ifdef VP_NEED_stpcpy
char *stpcpy(char *d, const char *s) { while ((*d = *s)) { d++; s++; } return d; }
#endif
#ifdef VP_NEED_index
char *index(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return NULL; } }
#endif
#ifdef VP_NEED_rindex
char *rindex(const char *s, int c) { char *r = NULL; for (;; s++) { if (*s == (char)c) r = (char *)s; if (!*s) return r; } }
#endif
#ifdef VP_NEED_strspn
size_t strspn(const char *s, const char *a) { size_t i = 0; for (; s[i]; i++) { const char *p = a; while (*p && *p != s[i]) p++; if (!*p) break; } return i; }
#endif
#ifdef VP_NEED_strcspn
size_t strcspn(const char *s, const char *a) { size_t i = 0; for (; s[i]; i++) { const char *p = a; while (*p && *p != s[i]) p++; if (*p) break; } return i; }
#endif
#ifdef VP_NEED_strpbrk
char *strpbrk(const char *s, const char *a) { for (; *s; s++) { const char *p = a; while (*p && *p != *s) p++; if (*p) return (char *)s; } return NULL; }
#endif
#ifdef VP_NEED_memchr
void *memchr(const void *s, int c, size_t n) { const unsigned char *p = s; for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void *)(p + i); return NULL; }
#endif
#ifdef VP_NEED_strstr
char *strstr(const char *h, const char *n) { for (;; h++) { size_t i = 0; while (n[i] && h[i] == n[i]) i++; if (!n[i]) return (char *)h; if (!*h) return NULL; } }
#endif
#ifdef VP_NEED_strcasestr
static int lc(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
char *strcasestr(const char *h, const char *n) { for (;; h++) { size_t i = 0; while (n[i] && lc(h[i]) == lc(n[i])) i++; if (!n[i]) return (char *)h; if (!*h) return NULL; } }
#endif
#ifdef VP_NEED_strlcpy
size_t strlcpy(char *d, const char *s, size_t n) { size_t i = 0; for (; s[i]; i++) if (i + 1 < n) d[i] = s[i]; if (n) d[i < n ? i : n - 1] = 0; return i; }
#endif
#ifdef VP_NEED_mempcpy
void *mempcpy(void *d, const void *s, size_t n) { memcpy(d, s, n); return (char *)d + n; }
#endif
#ifdef VP_NEED_strtok
char *strtok(char *s, const char *d)
{
    static char *last;
    if (!s) s = last;
    if (!s) return NULL;
    for (; *s; s++) { const char *p = d; while (*p && *p != *s) p++; if (!*p) break; }
    if (!*s) { last = s; return NULL; }
    char *r = s;
    for (; *s; s++) { const char *p = d; while (*p && *p != *s) p++; if (*p) { *s = 0; last = s + 1; return r; } }
    last = s;
    return r;
}
#endif
#ifdef VP_NEED_strsep
char *strsep(char **sp, const char *d)
{
    char *s = *sp, *r = s;
    if (!s) return NULL;
    for (; *s; s++) { const char *p = d; while (*p && *p != *s) p++; if (*p) { *s = 0; *sp = s + 1; return r; } }
    *sp = NULL;
    return r;
}
#endif
#ifdef VP_NEED___ctype_b_loc
/* bits as in <ctype.h> of glibc, little endian: upper 1<<8 lower 1<<9 alpha 1<<10 digit 1<<11 xdigit 1<<12 space 1<<13 print 1<<14 graph 1<<15 blank 1 cntrl 2 punct 4 alnum 8 */
static const unsigned short T[384] = {
    0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
    0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
    0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
    0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
    0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
    0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
    0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
    0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
    0x2, 0x2, 0x2, 0x2, 0x2, 0x2, 0x2, 0x2, 0x2, 0x2003, 0x2002, 0x2002, 0x2002, 0x2002, 0x2, 0x2,
    0x2, 0x2, 0x2, 0x2, 0x2, 0x2, 0x2, 0x2, 0x2, 0x2, 0x2, 0x2, 0x2, 0x2, 0x2, 0x2,
    0x6001, 0xc004, 0xc004, 0xc004, 0xc004, 0xc004, 0xc004, 0xc004, 0xc004, 0xc004, 0xc004, 0xc004, 0xc004, 0xc004, 0xc004, 0xc004,
    0xd808, 0xd808, 0xd808, 0xd808, 0xd808, 0xd808, 0xd808, 0xd808, 0xd808, 0xd808, 0xc004, 0xc004, 0xc004, 0xc004, 0xc004, 0xc004,
    0xc004, 0xd508, 0xd508, 0xd508, 0xd508, 0xd508, 0xd508, 0xc508, 0xc508, 0xc508, 0xc508, 0xc508, 0xc508, 0xc508, 0xc508, 0xc508,
    0xc508, 0xc508, 0xc508, 0xc508, 0xc508, 0xc508, 0xc508, 0xc508, 0xc508, 0xc508, 0xc508, 0xc004, 0xc004, 0xc004, 0xc004, 0xc004,
    0xc004, 0xd608, 0xd608, 0xd608, 0xd608, 0xd608, 0xd608, 0xc608, 0xc608, 0xc608, 0xc608, 0xc608, 0xc608, 0xc608, 0xc608, 0xc608,
    0xc608, 0xc608, 0xc608, 0xc608, 0xc608, 0xc608, 0xc608, 0xc608, 0xc608, 0xc608, 0xc608, 0xc004, 0xc004, 0xc004, 0xc004, 0x2,
    0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
    0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
    0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
    0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
    0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
    0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
    0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
    0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
};
static const unsigned short *TP = T + 128;
const unsigned short **__ctype_b_loc(void)
{
    return &TP;
}
#endif
