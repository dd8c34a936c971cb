// C library models used under the engine only (the native replay uses the C library itself).
#include "vp.h"
#include <ctype.h>
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <time.h>
#include <stdlib.h>
#define MODEL __attribute__((weak))
#undef isupper
#undef islower
#undef isalpha
#undef isdigit
#undef isalnum
#undef isspace
#undef isprint
#undef isxdigit
#undef toupper
#undef tolower
static int vp_errno_;
MODEL int * __errno_location(void) {return &vp_errno_;}
MODEL char * strerror_r(int e, char * b, size_t n) {(void)e; (void)b; (void)n; return "some error";}
MODEL char * strerror(int e) {(void)e; return "some error";}
MODEL char * __xpg_basename(char * p)            // as POSIX specifies it
{
  if (p == NULL || p[0] == '\0') {return (char *)".";}
  size_t n = strlen(p);
  while (n > 1 && p[n - 1] == '/') {p[--n] = '\0';}
  if (n == 1 && p[0] == '/') {return p;}
  size_t b = n;
  while (b > 0 && p[b - 1] != '/') {--b;}
  return p + b;
}
MODEL char * strcpy(char * d, const char * s) {memcpy(d, s, strlen(s) + 1); return d;}
MODEL char * stpcpy(char * d, const char * s) {size_t n = strlen(s); memcpy(d, s, n + 1); return d + n;}
MODEL char * strcat(char * d, const char * s) {strcpy(d + strlen(d), s); return d;}
MODEL size_t strnlen(const char * s, size_t n) {size_t i = 0; while (i < n && s[i]) {++i;} return i;}
MODEL char * strncpy(char * d, const char * s, size_t n)
{size_t i = 0; for (; i < n && s[i]; ++i) {d[i] = s[i];} for (; i < n; ++i) {d[i] = '\0';} return d;}
MODEL char * strncat(char * d, const char * s, size_t n)
{size_t k = strlen(d), i = 0; for (; i < n && s[i]; ++i) {d[k + i] = s[i];} d[k + i] = '\0'; return d;}
MODEL char * strchr(const char * s, int c)
{for (;; ++s) {if (*s == (char)c) {return (char *)s;} if (!*s) {return NULL;}}}
MODEL char * strchrnul(const char * s, int c) {while (*s && *s != (char)c) {++s;} return (char *)s;}
MODEL char * strrchr(const char * s, int c)
{const char * r = NULL; for (;; ++s) {if (*s == (char)c) {r = s;} if (!*s) {return (char *)r;}}}
MODEL void * memchr(const void * s, int c, size_t n)
{const unsigned char * p = s; for (size_t i = 0; i < n; ++i) {if (p[i] == (unsigned char)c) {return (void *)(p + i);}} return NULL;}
MODEL void * rawmemchr(const void * s, int c)
{const unsigned char * p = s; while (*p != (unsigned char)c) {++p;} return (void *)p;}
MODEL void * memrchr(const void * s, int c, size_t n)
{const unsigned char * p = s; for (size_t i = n; i > 0; --i) {if (p[i - 1] == (unsigned char)c) {return (void *)(p + i - 1);}} return NULL;}
MODEL void * mempcpy(void * d, const void * s, size_t n) {memcpy(d, s, n); return (char *)d + n;}
MODEL char * strstr(const char * h, const char * n)
{
  size_t ln = strlen(n);
  for (;; ++h) {
    size_t i = 0;
    while (i < ln && h[i] == n[i]) {++i;}
    if (i == ln) {return (char *)h;}
    if (!*h) {return NULL;}
  }
}
MODEL void * memmem(const void * h, size_t hn, const void * n, size_t nn)
{
  const char * p = h;
  if (nn == 0) {return (void *)h;}
  for (size_t i = 0; i + nn <= hn; ++i) {if (memcmp(p + i, n, nn) == 0) {return (void *)(p + i);}}
  return NULL;
}
MODEL size_t strspn(const char * s, const char * a) {size_t i = 0; while (s[i] && strchr(a, s[i])) {++i;} return i;}
MODEL size_t strcspn(const char * s, const char * a) {size_t i = 0; while (s[i] && !strchr(a, s[i])) {++i;} return i;}
MODEL char * strpbrk(const char * s, const char * a) {s += strcspn(s, a); return *s ? (char *)s : NULL;}
MODEL char * strtok_r(char * s, const char * d, char ** save)
{
  if (!s) {s = *save;}
  s += strspn(s, d);
  if (!*s) {*save = s; return NULL;}
  char * e = s + strcspn(s, d);
  if (*e) {*e++ = '\0';}
  *save = e;
  return s;
}
MODEL int toupper(int c) {return c + (((c >= 'a') & (c <= 'z')) ? 'A' - 'a' : 0);}
MODEL int tolower(int c) {return c + (((c >= 'A') & (c <= 'Z')) ? 'a' - 'A' : 0);}
MODEL int isupper(int c) {return (c >= 'A') & (c <= 'Z');}
MODEL int islower(int c) {return (c >= 'a') & (c <= 'z');}
MODEL int isalpha(int c) {return isupper(c) | islower(c);}
MODEL int isdigit(int c) {return (c >= '0') & (c <= '9');}
MODEL int isalnum(int c) {return isalpha(c) | isdigit(c);}
MODEL int isspace(int c) {return (c == ' ') | ((c >= '\t') & (c <= '\r'));}
MODEL int isprint(int c) {return (c >= 32) & (c < 127);}
MODEL int isxdigit(int c) {return isdigit(c) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F'));}
// the tables behind the <ctype.h> macros, C locale
static unsigned short ctype_b[384]; static int ctype_up[384], ctype_lo[384]; static int ctype_ready;
static const unsigned short * ctype_bp; static const int * ctype_upp, * ctype_lop;
static void ctype_init(void)
{
  if (ctype_ready) {return;}
  ctype_ready = 1;
  for (int c = -128; c < 256; ++c) {
    unsigned short m = 0;
    if (c >= 0) {
      if (isupper(c)) {m |= _ISupper;} if (islower(c)) {m |= _ISlower;} if (isalpha(c)) {m |= _ISalpha;}
      if (isdigit(c)) {m |= _ISdigit;} if (isxdigit(c)) {m |= _ISxdigit;} if (isspace(c)) {m |= _ISspace;}
      if (isprint(c)) {m |= _ISprint;} if (isalnum(c)) {m |= _ISalnum;}
    }
    ctype_b[c + 128] = m; ctype_up[c + 128] = toupper(c); ctype_lo[c + 128] = tolower(c);
  }
  ctype_bp = ctype_b + 128; ctype_upp = ctype_up + 128; ctype_lop = ctype_lo + 128;
}
MODEL const unsigned short ** __ctype_b_loc(void) {ctype_init(); return &ctype_bp;}
MODEL const int ** __ctype_toupper_loc(void) {ctype_init(); return &ctype_upp;}
MODEL const int ** __ctype_tolower_loc(void) {ctype_init(); return &ctype_lop;}
static int lowc(unsigned char c) {return c + (((c >= 'A') & (c <= 'Z')) ? 32 : 0);}
MODEL int strncasecmp(const char * a, const char * b, size_t n)
{
  for (size_t i = 0; i < n; ++i) {
    int x = lowc((unsigned char)a[i]), y = lowc((unsigned char)b[i]);
    if (x != y) {return x - y;}
    if (x == 0) {return 0;}
  }
  return 0;
}
MODEL int strcasecmp(const char * a, const char * b) {return strncasecmp(a, b, (size_t)-1);}
MODEL int strcoll(const char * a, const char * b) {return strcmp(a, b);}
MODEL void qsort(void * base, size_t n, size_t w, int (* cmp)(const void *, const void *))
{
  char tmp[128];
  char * p = base;
  VP_ASSUME(w <= sizeof tmp);
  for (size_t i = 1; i < n; ++i) {
    for (size_t j = i; j > 0 && cmp(p + (j - 1) * w, p + j * w) > 0; --j) {
      memcpy(tmp, p + j * w, w); memcpy(p + j * w, p + (j - 1) * w, w); memcpy(p + (j - 1) * w, tmp, w);
    }
  }
}
MODEL void * bsearch(const void * k, const void * base, size_t n, size_t w, int (* cmp)(const void *, const void *))
{for (size_t i = 0; i < n; ++i) {if (cmp(k, (const char *)base + i * w) == 0) {return (char *)base + i * w;}} return NULL;}
static long to_long(const char * s, char ** end, int base)
{
  long v = 0; int neg = 0; const char * st = s;
  while (isspace((unsigned char)*s)) {++s;}
  if (*s == '-' || *s == '+') {neg = *s++ == '-';}
  int any = 0;
  for (;; ++s) {
    int d;
    if (*s >= '0' && *s <= '9') {d = *s - '0';} else if (*s >= 'a' && *s <= 'z') {d = *s - 'a' + 10;}
    else if (*s >= 'A' && *s <= 'Z') {d = *s - 'A' + 10;} else {break;}
    if (d >= base) {break;}
    v = v * base + d; any = 1;
  }
  if (end) {*end = (char *)(any ? s : st);}
  return neg ? -v : v;
}
#undef ispunct
#undef iscntrl
#undef isgraph
#undef isblank
MODEL int isgraph(int c) {return (c > 32) & (c < 127);}
MODEL int ispunct(int c) {return isgraph(c) & !isalnum(c);}
MODEL int iscntrl(int c) {return ((c >= 0) & (c < 32)) | (c == 127);}
MODEL int isblank(int c) {return (c == ' ') | (c == '\t');}
MODEL div_t div(int a, int b) {div_t r = {a / b, a % b}; return r;}
MODEL ldiv_t ldiv(long a, long b) {ldiv_t r = {a / b, a % b}; return r;}
MODEL lldiv_t lldiv(long long a, long long b) {lldiv_t r = {a / b, a % b}; return r;}
MODEL void bzero(void * d, size_t n) {memset(d, 0, n);}
MODEL void explicit_bzero(void * d, size_t n) {memset(d, 0, n);}
MODEL char * index(const char * s, int c) {return strchr(s, c);}
MODEL char * rindex(const char * s, int c) {return strrchr(s, c);}
MODEL void * memccpy(void * d, const void * s, int c, size_t n)
{
  for (size_t i = 0; i < n; ++i) {((char *)d)[i] = ((const char *)s)[i]; if (((const char *)s)[i] == (char)c) {return (char *)d + i + 1;}}
  return NULL;
}
MODEL char * strsep(char ** sp, const char * d)
{
  char * s = *sp;
  if (!s) {return NULL;}
  char * e = s + strcspn(s, d);
  if (*e) {*e = '\0'; *sp = e + 1;} else {*sp = NULL;}
  return s;
}
MODEL char * strtok(char * s, const char * d) {static char * save; return strtok_r(s, d, &save);}
// both names of each: the headers rename some of them
#define TO_INT(name, type) \
  type vp_model_ ## name(const char * s, char ** end, int base) __asm__(#name); \
  MODEL type vp_model_ ## name(const char * s, char ** end, int base) {return (type)to_long(s, end, base);}
TO_INT(strtol, long) TO_INT(strtoul, unsigned long) TO_INT(strtoll, long long) TO_INT(strtoull, unsigned long long)
TO_INT(__isoc23_strtol, long) TO_INT(__isoc23_strtoul, unsigned long)
TO_INT(__isoc23_strtoll, long long) TO_INT(__isoc23_strtoull, unsigned long long)
MODEL long atol(const char * s) {return to_long(s, NULL, 10);}
MODEL int atoi(const char * s) {return (int)to_long(s, NULL, 10);}
MODEL long labs(long x) {return x < 0 ? (long)(0ul - (unsigned long)x) : x;}
MODEL long long llabs(long long x) {return x < 0 ? (long long)(0ull - (unsigned long long)x) : x;}
MODEL int abs(int x) {return x < 0 ? (int)(0u - (unsigned)x) : x;}
MODEL long long imaxabs(long long x) {return llabs(x);}

// ---- printf family ---------------------------------------------------------------------------------
#define PUT(ch) do {if (pos + 1 < n) {buf[pos] = (char)(ch);} ++pos;} while (0)
// Decimal digits: the number of digits is a case split, the digits themselves stay symbolic.
static int vp_digits(uint64_t v, unsigned base, int least)
{
  int k = 1; uint64_t p = base;
  for (; k < least && p <= UINT64_MAX / base; ++k) {p *= base;}      // zero padded up to there in any case
  while (v >= p) {
    ++k;
    if (p > UINT64_MAX / base) {break;}
    p *= base;
  }
  return k;
}
static size_t vp_put_num(char * buf, size_t n, size_t pos, uint64_t v, bool neg, bool zero, int width, int prec,
  unsigned base, bool upper, bool left, char plus, const char * prefix)
{
  char tmp[72];
  int extra = ((neg || plus) ? 1 : 0) + (int)strlen(prefix);
  int k = vp_digits(v, base, prec > 0 ? (prec < 19 ? prec : 19) : (prec < 0 && zero && !left) ? (width - extra < 19 ? width - extra : 19) : 1);
  if (prec == 0 && v == 0) {k = 0;}
  for (int i = 0; i < k; ++i) {
    unsigned dg = (unsigned)(v % base);
    tmp[i] = base <= 10 ? (char)('0' + dg) : (char)(dg + (dg < 10 ? '0' : (upper ? 'A' : 'a') - 10));
    v /= base;
  }
  int digits = k > prec ? k : prec;
  int total = digits + extra;
  if (prec >= 0) {zero = false;}
  if (!zero && !left) {for (int i = total; i < width; ++i) {PUT(' ');}}
  if (neg) {PUT('-');} else if (plus) {PUT(plus);}
  for (const char * q = prefix; *q; ++q) {PUT(*q);}
  if (zero && !left) {for (int i = total; i < width; ++i) {PUT('0');}}
  for (int i = k; i < digits; ++i) {PUT('0');}
  while (k > 0) {--k; PUT(tmp[k]);}
  if (left) {for (int i = total; i < width; ++i) {PUT(' ');}}
  return pos;
}
int vp_printf_unsupported(void);   // deliberately undefined: reaching it makes the harness inconclusive
MODEL int vsnprintf(char * buf, size_t n, const char * f, va_list ap)
{
  size_t pos = 0;
  for (size_t i = 0; f[i] != '\0'; ++i) {
    if (f[i] != '%') {PUT(f[i]); continue;}
    ++i;
    bool zero = false, left = false, alt = false; char plus = 0;
    for (;; ++i) {
      if (f[i] == '0') {zero = true;} else if (f[i] == '-') {left = true;} else if (f[i] == '+') {plus = '+';}
      else if (f[i] == ' ') {if (!plus) {plus = ' ';}} else if (f[i] == '#') {alt = true;} else {break;}
    }
    int width = 0, prec = -1, lng = 0, hh = 0;
    if (f[i] == '*') {width = va_arg(ap, int); ++i; if (width < 0) {left = true; width = -width;}}
    while (f[i] >= '0' && f[i] <= '9') {width = width * 10 + (f[i] - '0'); ++i;}
    if (f[i] == '.') {
      ++i; prec = 0;
      if (f[i] == '*') {prec = va_arg(ap, int); ++i; if (prec < 0) {prec = -1;}}
      while (f[i] >= '0' && f[i] <= '9') {prec = prec * 10 + (f[i] - '0'); ++i;}
    }
    while (f[i] == 'l' || f[i] == 'z' || f[i] == 'j' || f[i] == 't') {lng++; ++i;}
    while (f[i] == 'h') {hh++; ++i;}
    switch (f[i]) {
      case '%': PUT('%'); break;
      case 'c': {
          int c = va_arg(ap, int);
          if (!left) {for (int q = 1; q < width; ++q) {PUT(' ');}}
          PUT(c);
          if (left) {for (int q = 1; q < width; ++q) {PUT(' ');}}
          break;
        }
      case 's': {
          const char * s = va_arg(ap, const char *);
          if (!s) {s = "(null)";}
          size_t len = prec < 0 ? strlen(s) : strnlen(s, (size_t)prec);
          if (!left) {for (size_t q = len; q < (size_t)width; ++q) {PUT(' ');}}
          for (size_t j = 0; j < len; ++j) {PUT(s[j]);}
          if (left) {for (size_t q = len; q < (size_t)width; ++q) {PUT(' ');}}
          break;
        }
      case 'd': case 'i': {
          int64_t v = lng ? va_arg(ap, int64_t) : (int64_t)va_arg(ap, int);
          if (hh == 1) {v = (short)v;} else if (hh == 2) {v = (signed char)v;}
          bool neg = v < 0;
          uint64_t m = neg ? (uint64_t)0 - (uint64_t)v : (uint64_t)v;
          pos = vp_put_num(buf, n, pos, m, neg, zero, width, prec, 10, false, left, plus, "");
          break;
        }
      case 'u': case 'x': case 'X': case 'o': {
          uint64_t v = lng ? va_arg(ap, uint64_t) : (uint64_t)va_arg(ap, unsigned);
          if (hh == 1) {v = (unsigned short)v;} else if (hh == 2) {v = (unsigned char)v;}
          unsigned base = f[i] == 'u' ? 10 : f[i] == 'o' ? 8 : 16;
          pos = vp_put_num(buf, n, pos, v, false, zero, width, prec, base, f[i] == 'X', left, 0,
              (alt && base == 16 && v != 0) ? "0x" : "");
          break;
        }
      case 'p': {
          uint64_t v = (uint64_t)va_arg(ap, void *);
          pos = vp_put_num(buf, n, pos, v, false, false, width, -1, 16, false, left, 0, "0x");
          break;
        }
      default: return vp_printf_unsupported();
    }
  }
  if (n > 0) {buf[pos < n ? pos : n - 1] = '\0';}
  return (int)pos;
}
MODEL int snprintf(char * b, size_t n, const char * f, ...)
{va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r;}
MODEL int vsprintf(char * b, const char * f, va_list ap) {return vsnprintf(b, (size_t)INT32_MAX, f, ap);}
MODEL int sprintf(char * b, const char * f, ...)
{va_list ap; va_start(ap, f); int r = vsnprintf(b, (size_t)INT32_MAX, f, ap); va_end(ap); return r;}
MODEL size_t strftime(char * buf, size_t n, const char * f, const struct tm * t)
{
  size_t pos = 0;
#define NUM(v, wd) (pos = vp_put_num(buf, n, pos, (uint64_t)(int64_t)(v), false, true, wd, -1, 10, false, false, 0, ""))
  for (size_t i = 0; f[i] != '\0'; ++i) {
    if (f[i] != '%') {PUT(f[i]); continue;}
    switch (f[++i]) {
      case '%': PUT('%'); break;
      case 'n': PUT('\n'); break;
      case 'F': NUM(t->tm_year + 1900, 1); PUT('-'); NUM(t->tm_mon + 1, 2); PUT('-'); NUM(t->tm_mday, 2); break;
      case 'T': NUM(t->tm_hour, 2); PUT(':'); NUM(t->tm_min, 2); PUT(':'); NUM(t->tm_sec, 2); break;
      case 'R': NUM(t->tm_hour, 2); PUT(':'); NUM(t->tm_min, 2); break;
      case 'Y': NUM(t->tm_year + 1900, 1); break;
      case 'y': NUM(t->tm_year % 100, 2); break;
      case 'm': NUM(t->tm_mon + 1, 2); break;
      case 'd': NUM(t->tm_mday, 2); break;
      case 'H': NUM(t->tm_hour, 2); break;
      case 'I': NUM((t->tm_hour + 11) % 12 + 1, 2); break;
      case 'M': NUM(t->tm_min, 2); break;
      case 'S': NUM(t->tm_sec, 2); break;
      case 'j': NUM(t->tm_yday + 1, 3); break;
      default: return (size_t)vp_printf_unsupported();
    }
  }
#undef NUM
  if (pos >= n) {return 0;}
  buf[pos] = '\0';
  return pos;
}
// Diagnostics written to stderr / stdout are discarded.
MODEL FILE * stderr; MODEL FILE * stdout;
MODEL size_t fwrite(const void * p, size_t s, size_t n, FILE * f) {(void)p; (void)s; (void)f; return n;}
MODEL int fprintf(FILE * f, const char * fmt, ...) {(void)f; (void)fmt; return 0;}
MODEL int printf(const char * fmt, ...) {(void)fmt; return 0;}
MODEL int vfprintf(FILE * f, const char * fmt, va_list ap) {(void)f; (void)fmt; (void)ap; return 0;}
MODEL int fputs(const char * s, FILE * f) {(void)s; (void)f; return 0;}
MODEL int puts(const char * s) {(void)s; return 0;}
MODEL int putc(int c, FILE * f) {(void)f; return c;}
MODEL int ferror(FILE * f) {(void)f; return 0;}
MODEL void clearerr(FILE * f) {(void)f;}
MODEL void perror(const char * s) {(void)s;}
MODEL int fputc(int c, FILE * f) {(void)f; return c;}
MODEL int putchar(int c) {return c;}
MODEL int fflush(FILE * f) {(void)f; return 0;}
// ---- default heap (code that bypasses the tracking allocator) ---------------------------------------
MODEL void * malloc(size_t n) {return vp_heap_alloc(n);}
MODEL void free(void * p) {vp_heap_free(p);}
MODEL void * calloc(size_t n, size_t s)
{if (s && n > SIZE_MAX / s) {return NULL;} void * p = vp_heap_alloc(n * s); if (p) {memset(p, 0, n * s);} return p;}
MODEL void * realloc(void * p, size_t n)
{
  if (!p) {return malloc(n);}
  if (n == 0) {free(p); return NULL;}
  size_t o = vp_heap_size(p);
  void * q = vp_heap_alloc(n);
  if (!q) {return NULL;}
  memcpy(q, p, o < n ? o : n);
  vp_heap_free(p);
  return q;
}
MODEL char * strdup(const char * s) {size_t n = strlen(s) + 1; char * d = malloc(n); if (d) {memcpy(d, s, n);} return d;}
MODEL char * strndup(const char * s, size_t k) {size_t n = strnlen(s, k); char * d = malloc(n + 1); if (d) {memcpy(d, s, n); d[n] = '\0';} return d;}
MODEL void * reallocarray(void * p, size_t n, size_t s) {if (s && n > SIZE_MAX / s) {return NULL;} return realloc(p, n * s);}
MODEL int vasprintf(char ** out, const char * f, va_list ap)
{
  va_list c; va_copy(c, ap);
  int n = vsnprintf(NULL, 0, f, c);
  va_end(c);
  *out = n < 0 ? NULL : malloc((size_t)n + 1);
  return *out ? vsnprintf(*out, (size_t)n + 1, f, ap) : -1;
}
MODEL int asprintf(char ** out, const char * f, ...) {va_list ap; va_start(ap, f); int r = vasprintf(out, f, ap); va_end(ap); return r;}
