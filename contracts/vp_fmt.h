/* Formatted output for the verifier (native replay uses the C library's).
 * @assume snprintf()/sprintf() behave as ISO C for the conversions %c %s %d %i %u %ld %lu %% with optional '-', '0', width and precision (also .*); other conversions do not occur in the units
 */
#pragma once
#include <stdarg.h>
#ifndef VP_NATIVE
static int vp_out(char *d, size_t sz, size_t pos, char c) { if (pos + 1 < sz) d[pos] = c; return pos + 1; }
static int vp_vsnprintf(char *d, size_t sz, const char *f, va_list ap)
{
    size_t pos = 0;
    for (; *f; f++) {
        if (*f != '%') { pos = vp_out(d, sz, pos, *f); continue; }
        f++;
        bool left = false, zero = false, lng = false;
        int width = 0, prec = -1;
        if (*f == '-') { left = true; f++; }
        if (*f == '0') { zero = true; f++; }
        if (*f >= '1' && *f <= '9') { width = *f++ - '0'; if (*f >= '0' && *f <= '9') width = 10 * width + (*f++ - '0'); }
        if (*f == '.' && f[1] == '*') { f += 2; prec = va_arg(ap, int); }
        else if (*f == '.') { f++; prec = 0; if (*f >= '0' && *f <= '9') prec = *f++ - '0'; if (*f >= '0' && *f <= '9') prec = 10 * prec + (*f++ - '0'); }
        if (*f == 'l') { lng = true; f++; if (*f == 'l') f++; }
        if (*f == 'z') { lng = true; f++; }
        if (*f == '%') { pos = vp_out(d, sz, pos, '%'); continue; }
        if (*f == 'c') { pos = vp_out(d, sz, pos, (char)va_arg(ap, int)); continue; }
        if (*f == 's') {
            const char *s = va_arg(ap, const char *);
            if (width == 0) {
                for (int i = 0; (prec < 0 || i < prec) && s[i]; i++) pos = vp_out(d, sz, pos, s[i]);
            } else {
                int l = 0;
                while ((prec < 0 || l < prec) && s[l]) l++;
                if (!left) for (int i = l; i < width; i++) pos = vp_out(d, sz, pos, ' ');
                for (int i = 0; i < l; i++) pos = vp_out(d, sz, pos, s[i]);
                if (left) for (int i = l; i < width; i++) pos = vp_out(d, sz, pos, ' ');
            }
            continue;
        }
        if (*f == 'd' || *f == 'i' || *f == 'u') {
            long v = lng ? va_arg(ap, long) : *f == 'u' ? (long)va_arg(ap, unsigned) : (long)va_arg(ap, int);
            char t[21]; int l = 0; bool neg = *f != 'u' && v < 0;
            unsigned long a = neg ? 0UL - (unsigned long)v : (unsigned long)v;
            do { t[l++] = '0' + a % 10; a /= 10; } while (a);
            int tot = l + neg;
            if (!left && !zero) for (int i = tot; i < width; i++) pos = vp_out(d, sz, pos, ' ');
            if (neg) pos = vp_out(d, sz, pos, '-');
            if (!left && zero) for (int i = tot; i < width; i++) pos = vp_out(d, sz, pos, '0');
            while (l) pos = vp_out(d, sz, pos, t[--l]);
            if (left) for (int i = tot; i < width; i++) pos = vp_out(d, sz, pos, ' ');
            continue;
        }
        CHECK(0, "conversion outside the formatted-output model");
    }
    if (sz) d[pos < sz ? pos : sz - 1] = 0;
    return (int)pos;
}
static int vp_snprintf(char *d, size_t sz, const char *f, ...)
{ va_list ap; va_start(ap, f); int r = vp_vsnprintf(d, sz, f, ap); va_end(ap); return r; }
static int vp_sprintf(char *d, const char *f, ...)
{ va_list ap; va_start(ap, f); int r = vp_vsnprintf(d, (size_t)1 << 30, f, ap); va_end(ap); return r; }
#define snprintf vp_snprintf
#define sprintf vp_sprintf
#endif
