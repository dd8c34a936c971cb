// Comparison ignoring ASCII case; alphanumeric test independent of the locale.
#include "vp.h"
#include "rcutils/strcasecmp.h"
#include "rcutils/isalnum_no_locale.h"
static int lower(unsigned char c) {return c >= 'A' && c <= 'Z' ? c + 32 : c;}
static int sgn(int x) {return (x > 0) - (x < 0);}
// long texts that may differ at the end only
static void long_texts(char ** x, char ** y, size_t * n)
{
  static const size_t lens[] = {16, 31, 64, 127, 255, 256, 300, 1023, 1024, 5000};
  *n = lens[vp_choose(10)];
  size_t m = *n - vp_choose(2);
  *x = vp_heap_alloc(*n + 1); *y = vp_heap_alloc(m + 1);
  memset(*x, 'p', *n); memset(*y, 'P', m);
  vp_string_len(*x + *n - 2, 2); vp_string_len(*y + m - 1, 1);
}
void vp_main(void)
{
  size_t n, m, L = vp_param("L", 3);
  char * x, * y;
  if (vp_param("long", 0)) {long_texts(&x, &y, &n);} else {x = vp_heap_string(L, &n); y = vp_heap_string(L, &m);}
  uint64_t lim = vp_param("long", 0) ? (vp_choose(2) ? n - 1 + vp_choose(3) : n / 2 + vp_choose(2)) : vp_in64();
  int v = 77, w = 77, full = 0, part = 0;
  for (size_t i = 0;; ++i) {
    int p = lower((unsigned char)x[i]), q = lower((unsigned char)y[i]);
    if (p != q) {full = p < q ? -1 : 1; if (i < lim) {part = full;} break;}
    if (!p) {break;}
  }
  VP_ASSERT(rcutils_strcasecmp(x, y, &v) == 0 && sgn(v) == full, "comparison ignores case and nothing else");
  VP_ASSERT(rcutils_strncasecmp(x, y, lim, &w) == 0 && sgn(w) == part, "comparison stops after n characters");
  VP_COVER(full != part, "the limit matters"); VP_COVER(full == 0 && n > 0 && x[0] != y[0], "case differs");
  VP_ASSERT(rcutils_strcasecmp(NULL, y, &v) == -1 && rcutils_strcasecmp(x, NULL, &v) == -1 && rcutils_strcasecmp(x, y, NULL) == -1, "null refused");
  VP_ASSERT(rcutils_strncasecmp(NULL, y, 1, &v) == -1 && rcutils_strncasecmp(x, NULL, 1, &v) == -1 && rcutils_strncasecmp(x, y, 1, NULL) == -1, "null refused");
  unsigned char c = vp_in8();
  bool an = (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z');
  VP_ASSERT(rcutils_isalnum_no_locale((char)c) == an, "alphanumeric means 0-9, A-Z and a-z");
}
