// Byte-level models of the C string and conversion functions (linked into the symbolic build only, compiled with -fno-builtin).
#include <cstddef>
#include <cstdint>
extern "C" {
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { for (;; a++, b++) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncmp(const char *a, const char *b, size_t n) { for (; n; a++, b++, n--) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
int memcmp(const void *p, const void *q, size_t n) { const unsigned char *a = (const unsigned char *)p, *b = (const unsigned char *)q; for (; n; a++, b++, n--) if (*a != *b) return *a < *b ? -1 : 1; return 0; }
int bcmp(const void *p, const void *q, size_t n) { return memcmp(p, q, n); }
void *memchr(const void *p, int c, size_t n) { const unsigned char *a = (const unsigned char *)p; for (; n; a++, n--) if (*a == (unsigned char)c) return (void *)a; return nullptr; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return nullptr; } }
char *strrchr(const char *s, int c) { const char *r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *strstr(const char *h, const char *n) { for (;; h++) { const char *a = h, *b = n; while (*b && *a == *b) { a++; b++; } if (!*b) return (char *)h; if (!*h) return nullptr; } }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
size_t strcspn(const char *s, const char *r) { size_t n = 0; for (; s[n]; n++) for (const char *p = r; *p; p++) if (*p == s[n]) return n; return n; }
void *malloc(size_t);
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)malloc(n); for (size_t i = 0; i < n; i++) p[i] = s[i]; return p; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int abs(int v) { return v < 0 ? -v : v; }
long strtol(const char *s, char **e, int base) { const char *p = s; while (isspace((unsigned char)*p)) p++; bool neg = false; if (*p == '+' || *p == '-') neg = *p++ == '-'; long v = 0; const char *q = p; while (*p >= '0' && *p <= '9') { v = v * 10 + (*p - '0'); p++; if (v > 0x7fffffffffffffL) break; } if (e) *e = (char *)(p == q ? s : p); return neg ? -v : v; }
unsigned long strtoul(const char *s, char **e, int b) { return strtol(s, e, b); }
long long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
long __isoc23_strtol(const char *s, char **e, int b) __attribute__((alias("strtol"))); unsigned long __isoc23_strtoul(const char *s, char **e, int b) __attribute__((alias("strtoul"))); long long __isoc23_strtoll(const char *s, char **e, int b) __attribute__((alias("strtoll")));
int atoi(const char *s) { return (int)strtol(s, nullptr, 10); }
long atol(const char *s) { return strtol(s, nullptr, 10); }
}
