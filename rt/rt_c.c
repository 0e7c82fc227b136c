// Bitcode runtime, C part: library functions, exact in behaviour (C locale); comparisons are branch free where that keeps
// results symbolic.
typedef unsigned long size_t;
int memcmp(const void *a, const void *b, size_t n)
{
  const unsigned char *x = a, *y = b;
  int r  = 0;
  for (size_t i = n; i-- > 0;) {
    int d = (int)x[i] - (int)y[i];
    r     = d ? d : r;
  }
  return r;
}
int bcmp(const void *a, const void *b, size_t n)
{
  const unsigned char *x = a, *y = b;
  int r  = 0;
  for (size_t i = 0; i < n; i++)
    r |= x[i] ^ y[i];
  return r;
}
void *memchr(const void *s, int c, size_t n)
{
  const unsigned char *x = s;
  for (size_t i = 0; i < n; i++)
    if (x[i] == (unsigned char)c)
      return (void *)(x + i);
  return 0;
}
void *memrchr(const void *s, int c, size_t n)
{
  const unsigned char *x = s;
  while (n-- > 0)
    if (x[n] == (unsigned char)c)
      return (void *)(x + n);
  return 0;
}
size_t strlen(const char *s)
{
  size_t n = 0;
  while (s[n])
    n++;
  return n;
}
size_t strnlen(const char *s, size_t m)
{
  size_t n = 0;
  while (n < m && s[n])
    n++;
  return n;
}
int strcmp(const char *a, const char *b)
{
  for (;; a++, b++) {
    unsigned char x = *a, y = *b;
    if (x != y)
      return (int)x - (int)y;
    if (!x)
      return 0;
  }
}
int strncmp(const char *a, const char *b, size_t n)
{
  for (; n; n--, a++, b++) {
    unsigned char x = *a, y = *b;
    if (x != y)
      return (int)x - (int)y;
    if (!x)
      return 0;
  }
  return 0;
}
char *strchr(const char *s, int c)
{
  for (;; s++) {
    if (*s == (char)c)
      return (char *)s;
    if (!*s)
      return 0;
  }
}
char *strcpy(char *d, const char *s)
{
  char *r = d;
  while ((*d++ = *s++))
    ;
  return r;
}
static inline int vf_lower(int c) { return c + (((unsigned)c - 'A' < 26u) << 5); }
int tolower(int c) { return vf_lower(c); }
int toupper(int c) { return c - (((unsigned)c - 'a' < 26u) << 5); }
int isupper(int c) { return (unsigned)c - 'A' < 26u; }
int islower(int c) { return (unsigned)c - 'a' < 26u; }
int isalpha(int c) { return ((unsigned)c | 32) - 'a' < 26u; }
int isdigit(int c) { return (unsigned)c - '0' < 10u; }
int isalnum(int c) { return (((unsigned)c | 32) - 'a' < 26u) | ((unsigned)c - '0' < 10u); }
int isxdigit(int c) { return (((unsigned)c | 32) - 'a' < 6u) | ((unsigned)c - '0' < 10u); }
int isspace(int c) { return (c == ' ') | ((unsigned)c - 9 < 5u); }
int isblank(int c) { return (c == ' ') | (c == 9); }
int iscntrl(int c) { return ((unsigned)c < 32u) | (c == 127); }
int isprint(int c) { return (unsigned)c - 32 < 95u; }
int isgraph(int c) { return (unsigned)c - 33 < 94u; }
int ispunct(int c) { return ((unsigned)c - 33 < 94u) & !isalnum(c); }
int strncasecmp(const char *a, const char *b, size_t n)
{
  for (; n; n--, a++, b++) {
    unsigned char x = *a, y = *b;
    int d = vf_lower(x) - vf_lower(y);
    if (d)
      return d;
    if (!x)
      return 0;
  }
  return 0;
}
int strcasecmp(const char *a, const char *b) { return strncasecmp(a, b, ~(size_t)0); }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
long long llabs(long long x) { return x < 0 ? -x : x; }
char *strrchr(const char *s, int c)
{
  const char *r = 0;
  for (;; s++) {
    if (*s == (char)c)
      r = s;
    if (!*s)
      return (char *)r;
  }
}
char *strchrnul(const char *s, int c)
{
  while (*s && *s != (char)c)
    s++;
  return (char *)s;
}
void *rawmemchr(const void *s, int c)
{
  const unsigned char *x = s;
  while (*x != (unsigned char)c)
    x++;
  return (void *)x;
}
static int vf_in(char c, const char *set)
{
  for (; *set; set++)
    if (*set == c)
      return 1;
  return 0;
}
size_t strspn(const char *s, const char *set)
{
  size_t n = 0;
  while (s[n] && vf_in(s[n], set))
    n++;
  return n;
}
size_t strcspn(const char *s, const char *set)
{
  size_t n = 0;
  while (s[n] && !vf_in(s[n], set))
    n++;
  return n;
}
char *strpbrk(const char *s, const char *set)
{
  s += strcspn(s, set);
  return *s ? (char *)s : 0;
}
void *memmem(const void *h, size_t n, const void *x, size_t m)
{
  const char *p = h;
  for (size_t i = 0; m <= n && i <= n - m; i++)
    if (memcmp(p + i, x, m) == 0)
      return (void *)(p + i);
  return 0;
}
char *strstr(const char *h, const char *x)
{
  size_t n = strlen(h), m = strlen(x);
  return memmem(h, n, x, m);
}
char *stpcpy(char *d, const char *s)
{
  while ((*d = *s))
    d++, s++;
  return d;
}
char *strncpy(char *d, const char *s, size_t n)
{
  size_t i = 0;
  for (; i < n && s[i]; i++)
    d[i] = s[i];
  for (; i < n; i++)
    d[i] = 0;
  return d;
}
char *strcat(char *d, const char *s)
{
  strcpy(d + strlen(d), s);
  return d;
}
char *strncat(char *d, const char *s, size_t n)
{
  char *p = d + strlen(d);
  for (; n && *s; n--)
    *p++ = *s++;
  *p = 0;
  return d;
}
void *mempcpy(void *d, const void *s, size_t n)
{
  char *x = d;
  const char *y = s;
  for (size_t i = 0; i < n; i++)
    x[i] = y[i];
  return x + n;
}
void *memccpy(void *d, const void *s, int c, size_t n)
{
  char *x = d;
  const char *y = s;
  for (size_t i = 0; i < n; i++)
    if ((x[i] = y[i]) == (char)c)
      return x + i + 1;
  return 0;
}
static int vf_errno;
static unsigned long vf_strto(const char *s, char **end, int base, unsigned long pos, unsigned long neg, int sign)
{
  const char *p = s;
  int minus = 0, any = 0, over = 0;
  unsigned long v = 0;
  while (isspace((unsigned char)*p))
    p++;
  if (*p == '-' || *p == '+')
    minus = *p++ == '-';
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x' && isxdigit((unsigned char)p[2])) {
    p += 2;
    base = 16;
  } else if (base == 0)
    base = *p == '0' ? 8 : 10;
  unsigned long limit = minus ? neg : pos;
  for (;; p++) {
    int c = (unsigned char)*p, d = isdigit(c) ? c - '0' : isalpha(c) ? (c | 32) - 'a' + 10 : 99;
    if (d >= base)
      break;
    any = 1;
    if (v > limit / base || v * base > limit - d)
      over = 1;
    else
      v = v * base + d;
  }
  if (end)
    *end = (char *)(any ? p : s);
  if (over) {
    vf_errno = 34;
    return sign ? (minus ? -neg : pos) : pos;
  }
  return minus ? -v : v;
}
#define VF_M (~0ul >> 1)
long strtol(const char *s, char **e, int b) { return (long)vf_strto(s, e, b, VF_M, VF_M + 1, 1); }
long long strtoll(const char *s, char **e, int b) { return (long)vf_strto(s, e, b, VF_M, VF_M + 1, 1); }
unsigned long strtoul(const char *s, char **e, int b) { return vf_strto(s, e, b, ~0ul, ~0ul, 0); }
unsigned long long strtoull(const char *s, char **e, int b) { return vf_strto(s, e, b, ~0ul, ~0ul, 0); }
long strtoimax(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long strtoumax(const char *s, char **e, int b) { return strtoul(s, e, b); }
// the names glibc's headers use for these in C23 / GNU C++ mode
long __isoc23_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
long long __isoc23_strtoll(const char *s, char **e, int b) { return strtoll(s, e, b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtoul(s, e, b); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return strtoull(s, e, b); }
long __isoc23_strtoimax(const char *s, char **e, int b) { return strtoimax(s, e, b); }
unsigned long __isoc23_strtoumax(const char *s, char **e, int b) { return strtoumax(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, 0, 10); }
long atol(const char *s) { return strtol(s, 0, 10); }
long long atoll(const char *s) { return strtol(s, 0, 10); }
extern void *malloc(size_t);
char *strdup(const char *s)
{
  size_t n = strlen(s) + 1;
  char *r  = malloc(n);
  return r ? mempcpy(r, s, n), r : 0;
}
char *strndup(const char *s, size_t m)
{
  size_t n = strnlen(s, m);
  char *r  = malloc(n + 1);
  if (r)
    *(char *)mempcpy(r, s, n) = 0;
  return r;
}
void qsort(void *base, size_t n, size_t w, int (*f)(const void *, const void *))
{
  char *p = base;
  for (size_t i = 1; i < n; i++)
    for (size_t j = i; j > 0 && f(p + (j - 1) * w, p + j * w) > 0; j--)
      for (size_t k = 0; k < w; k++) {
        char t             = p[j * w + k];
        p[j * w + k]       = p[(j - 1) * w + k];
        p[(j - 1) * w + k] = t;
      }
}
void *bsearch(const void *x, const void *base, size_t n, size_t w, int (*f)(const void *, const void *))
{
  const char *p = base;
  while (n) {
    const char *m = p + n / 2 * w;
    int r         = f(x, m);
    if (r == 0)
      return (void *)m;
    if (r > 0) {
      p = m + w;
      n -= n / 2 + 1;
    } else
      n /= 2;
  }
  return 0;
}
int *__errno_location(void) { return &vf_errno; }
const void *__dso_handle_vf;
void __cxa_call_unexpected(void *) { __builtin_trap(); }
void perror(const char *) {}
int getpid() { return 4242; }
int pthread_mutex_lock(void *) { return 0; }
int pthread_mutex_unlock(void *) { return 0; }
int __gthrw_active() { return 0; }
#include <netinet/in.h>
const struct in6_addr in6addr_any      = {{{0}}};
const struct in6_addr in6addr_loopback = {{{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1}}};
