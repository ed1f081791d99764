// Models of libc functions (see models.cc).
#include <stddef.h>
void* malloc(size_t); void* memset(void*, int, size_t);
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
void* memchr(const void* p, int c, size_t n) { const unsigned char* s = (const unsigned char*)p; for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void*)(s + i); return 0; }
void* memrchr(const void* p, int c, size_t n) { const unsigned char* s = (const unsigned char*)p; for (size_t i = n; i-- > 0;) if (s[i] == (unsigned char)c) return (void*)(s + i); return 0; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* strrchr(const char* s, int c) { const char* r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
int strcmp(const char* a, const char* b) { for (;; a++, b++) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncmp(const char* a, const char* b, size_t n) { for (; n; a++, b++, n--) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
int isxdigit(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int ispunct(int c) { return c > 32 && c < 127 && !isalnum(c); }
int isprint(int c) { return c >= 32 && c < 127; }
int isgraph(int c) { return c > 32 && c < 127; }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
void* calloc(size_t a, size_t b) { void* p = malloc(a * b); memset(p, 0, a * b); return p; }
static unsigned long long conv(const char* s, char** e, int base, int sgn, unsigned long long mx, int* range) {
  const char* p = s; int neg = 0, any = 0; unsigned long long v = 0; *range = 0;
  while (isspace((unsigned char)*p)) p++;
  if (*p == '-' || *p == '+') { neg = *p == '-'; p++; }
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
  else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long long lim = sgn && neg ? mx + 1 : mx;
  for (;; p++) {
    unsigned char c = *p; int d = isdigit(c) ? c - '0' : isalpha(c) ? tolower(c) - 'a' + 10 : 99;
    if (d >= base) break;
    any = 1;
    if (*range || v > (lim - d) / base) { *range = 1; v = lim; } else v = v * base + d;
  }
  if (e) *e = (char*)(any ? p : s);
  return neg && !(*range && !sgn) ? 0 - v : v;
}
int* __errno_location(void);
#define STRTO(T, n, sg, mx) T n(const char* s, char** e, int b) { int r; T v = (T)conv(s, e, b, sg, mx, &r); if (r) *__errno_location() = 34; return v; }
STRTO(long, strtol, 1, 0x7fffffffffffffffull) STRTO(long long, strtoll, 1, 0x7fffffffffffffffull) STRTO(unsigned long, strtoul, 0, ~0ull) STRTO(unsigned long long, strtoull, 0, ~0ull)
STRTO(long, __isoc23_strtol, 1, 0x7fffffffffffffffull) STRTO(long long, __isoc23_strtoll, 1, 0x7fffffffffffffffull) STRTO(unsigned long, __isoc23_strtoul, 0, ~0ull) STRTO(unsigned long long, __isoc23_strtoull, 0, ~0ull)
