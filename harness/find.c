// First and last index of a character.
#include "vp.h"
#include "rcutils/find.h"
void vp_main(void)
{
  size_t n, L = vp_param("L", 6);
  bool terminated = vp_choose(2);
  char d = vp_param("long", 0) ? (vp_choose(2) ? ',' : 'p') : (char)vp_in8();
  char * s;
  if (terminated) {
    s = vp_heap_text(L, &n);
  } else {
    n = vp_choose((uint32_t)L + 1);
    s = vp_heap_alloc(n);                // exactly n bytes, any of them
    vp_bytes(s, n);
  }
  size_t first = SIZE_MAX, last = SIZE_MAX;
  for (size_t i = 0; i < n; ++i) {
    if (s[i] == d) {if (first == SIZE_MAX) {first = i;} last = i;}
  }
  if (terminated) {
    VP_ASSERT(rcutils_find(s, d) == first, "find gives the first index, or SIZE_MAX");
    VP_ASSERT(rcutils_find_last(s, d) == last, "find_last gives the last index, or SIZE_MAX");
    VP_COVER(first != last, "two of them"); VP_COVER(first == 0, "at the start"); VP_COVER(n > 0 && first == SIZE_MAX, "none");
  }
  VP_ASSERT(rcutils_findn(s, d, n) == first, "findn gives the first index, or SIZE_MAX");
  VP_ASSERT(rcutils_find_lastn(s, d, n) == last, "find_lastn gives the last index, or SIZE_MAX");
  VP_ASSERT(rcutils_find(NULL, d) == SIZE_MAX && rcutils_find_last(NULL, d) == SIZE_MAX &&
    rcutils_findn(NULL, d, n) == SIZE_MAX && rcutils_find_lastn(NULL, d, n) == SIZE_MAX, "null gives SIZE_MAX");
}
