// The C library functions the subjects call, as instrumented code of the simulation.
#include <stddef.h>
void *M_memcpy(void *d, const void *s, size_t n) { unsigned char *a = d; const unsigned char *b = s; while (n--) *a++ = *b++; return d; }
void *M_memmove(void *d, const void *s, size_t n)
{
    unsigned char *a = d; const unsigned char *b = s;
    if (a <= b) while (n--) *a++ = *b++;
    else while (n--) a[n] = b[n];
    return d;
}
void *M_memset(void *d, int c, size_t n) { unsigned char *a = d; while (n--) *a++ = (unsigned char)c; return d; }
void M_bzero(void *d, size_t n) { volatile unsigned char *a = d; while (n--) *a++ = 0; }
int M_memcmp(const void *x, const void *y, size_t n)
{
    const unsigned char *a = x, *b = y;
    for (; n--; a++, b++) if (*a != *b) return *a < *b ? -1 : 1;
    return 0;
}
size_t M_strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int M_strcmp(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
int M_strncmp(const char *a, const char *b, size_t n) { while (n && *a && *a == *b) a++, b++, n--; return n ? (unsigned char)*a - (unsigned char)*b : 0; }
