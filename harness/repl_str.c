// All non-overlapping occurrences are replaced, left to right.
#include "vp_alloc.h"
#include "rcutils/repl_str.h"
void vp_main(void)
{
  size_t n, f, t, L = vp_param("L", 5), F = vp_param("F", 2), T = vp_param("T", 2), long_ = vp_param("long", 0);
  rcutils_allocator_t a = vp_allocator();
  char * s, * from, * to;
  if (long_) {
    // long runs of matches, with a different character at an arbitrary place
    n = long_ + vp_choose((uint32_t)vp_param("span", 3));
    f = 1; from = vp_heap_alloc(2); vp_string_len(from, 1);
    s = vp_heap_alloc(n + 1);
    char fill = from[0];
    if (!vp_param("fail", 0) && vp_choose(2)) {fill = 'q';}        // a long text with no more than one match
    for (size_t i = 0; i < n; ++i) {s[i] = fill;}
    s[n] = '\0';
    size_t p = vp_choose((uint32_t)n);
    s[p] = (char)vp_in8();
    VP_ASSUME(s[p] != '\0');
  } else {
    s = vp_heap_string(L, &n);
    from = vp_heap_string(F, &f);
  }
  to = vp_heap_string(T, &t);
  VP_ASSUME(f > 0);
  if (vp_param("fail", 0)) {vp_alloc_arm(VP_ANY_FAIL, 0);}
  char * r = rcutils_repl_str(s, from, to, &a);
  if (!r) {
    VP_ASSERT(vp_failures > 0 && vp_live == 0, "fails only when memory is refused, leaking nothing");
    VP_COVER(vp_requests == 2, "the second request failed");
    return;
  }
  VP_ASSERT(vp_failures == 0, "refused memory is reported");
  size_t o = 0, i = 0, count = 0;
  while (i < n) {
    bool m = i + f <= n;
    for (size_t k = 0; m && k < f; ++k) {m = s[i + k] == from[k];}
    if (m) {
      for (size_t k = 0; k < t; ++k) {VP_ASSERT(r[o + k] == to[k], "every occurrence is replaced");}
      o += t; i += f; ++count;
    } else {
      VP_ASSERT(r[o] == s[i], "everything else is kept");
      ++o; ++i;
    }
  }
  VP_ASSERT(r[o] == '\0', "the result ends after the last character");
  VP_COVER(count >= 2, "two replaced"); VP_COVER(count == 0 && n > 0, "none replaced");
  VP_ASSERT(vp_live == 1, "only the result stays allocated");
  vp_free(r);
  VP_ASSERT(vp_live == 0, "and it can be released");
}
