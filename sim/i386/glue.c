/* 32-bit image: what the compiler may call by itself */
typedef unsigned long size_t32;
void *memcpy(void *d, const void *s, size_t32 n) { char *a = d; const char *b = s; while (n--) *a++ = *b++; return d; }
void *memmove(void *d, const void *s, size_t32 n) { char *a = d; const char *b = s; if (a < b) while (n--) *a++ = *b++; else while (n--) a[n] = b[n]; return d; }
void *memset(void *d, int c, size_t32 n) { char *a = d; while (n--) *a++ = c; return d; }
int memcmp(const void *x, const void *y, size_t32 n) { const unsigned char *a = x, *b = y; for (; n; n--, a++, b++) if (*a != *b) return *a - *b; return 0; }
size_t32 strlen(const char *s) { size_t32 n = 0; while (s[n]) n++; return n; }
int i386_probe(void) { return 42; }
