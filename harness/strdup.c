// Duplicates are independent, terminated copies of at most the given length.
#include "vp_alloc.h"
#include "rcutils/strdup.h"
void vp_main(void)
{
  size_t n, L = vp_param("L", 6);
  rcutils_allocator_t a = vp_allocator();
  char * s = vp_heap_text(L, &n), * r;
  bool bounded = vp_choose(2);
  uint64_t max = !bounded ? UINT64_MAX : !vp_param("long", 0) ? vp_in64() : vp_choose(2) ? n - 1 + vp_choose(3) : vp_choose(2) ? n / 2 : UINT64_MAX - vp_choose(2);
  vp_alloc_arm(VP_ANY_FAIL, 0);
  r = bounded ? rcutils_strndup(s, max, a) : rcutils_strdup(s, a);
  if (!r) {
    VP_ASSERT(vp_failures > 0 && vp_live == 0, "fails only when memory is refused");
  } else {
    size_t m = 0;
    while (m < n && m < max) {VP_ASSERT(r[m] == s[m], "the characters are those of the string"); ++m;}
    VP_ASSERT(r[m] == '\0', "the copy ends at the string's end or the maximum length");
    VP_ASSERT(r != s && vp_live == 1 && vp_requests == 1, "the copy is one new block");
    VP_COVER(m < n && m > 0, "cut short");
    vp_free(r);
  }
  vp_alloc_arm(VP_NEVER_FAIL, 0);
  VP_ASSERT(rcutils_strdup(NULL, a) == NULL && rcutils_strndup(NULL, max, a) == NULL && vp_live == 0, "null gives null");
  rcutils_allocator_t bad = a;
  uint32_t w = vp_choose(4);
  if (w == 0) {bad.allocate = NULL;} else if (w == 1) {bad.deallocate = NULL;} else if (w == 2) {bad.reallocate = NULL;} else {bad.zero_allocate = NULL;}
  VP_ASSERT(rcutils_strdup(s, bad) == NULL && vp_live == 0, "an incomplete allocator is refused");
  vp_heap_free(s);
  if (bounded) {   // no more than the maximum length is looked at
    size_t k = vp_choose((uint32_t)L + 1);
    char * raw = vp_heap_alloc(k);
    for (size_t i = 0; i < k; ++i) {raw[i] = 'r';}
    r = rcutils_strndup(raw, k, a);
    VP_ASSERT(r && r[k] == '\0' && vp_same(r, raw, k), "a prefix is copied without looking beyond it");
    vp_free(r);
    vp_heap_free(raw);
  }
  VP_ASSERT(vp_live == 0, "nothing else is allocated");
}
