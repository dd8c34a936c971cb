// Any requested size: an array that was initialized or resized has as many entries as it says.
#include "vp_alloc.h"
#include "rcutils/types/string_array.h"
void vp_main(void)
{
  rcutils_allocator_t a = vp_allocator();
  vp_max_alloc = 128;
  rcutils_string_array_t s = rcutils_get_zero_initialized_string_array();
  uint64_t n = vp_in64();
  VP_ASSUME(n <= 3 || n > UINT64_MAX / 32);
  bool resize = vp_choose(2);
  rcutils_ret_t r;
  if (resize) {
    VP_ASSERT(rcutils_string_array_init(&s, 1, &a) == RCUTILS_RET_OK, "init");
    r = rcutils_string_array_resize(&s, n);
  } else {
    r = rcutils_string_array_init(&s, n, &a);
  }
  if (r == RCUTILS_RET_OK) {
    VP_ASSERT(s.size == n, "the size is the one asked for");
    VP_ASSERT(n <= 3, "more entries than fit in memory are refused");
    for (size_t i = 0; i < n; ++i) {VP_ASSERT(s.data[i] == NULL, "new entries are empty");}
    VP_COVER(n == 3, "granted");
  } else {
    VP_ASSERT(r == RCUTILS_RET_BAD_ALLOC, "refused memory is reported");
    if (resize) {VP_ASSERT(s.size == 1 && s.data[0] == NULL, "a failed resize changes nothing");}
    VP_COVER(resize, "resize refused");
    VP_COVER(!resize, "init refused");
  }
  VP_ASSERT(rcutils_string_array_fini(&s) == RCUTILS_RET_OK && vp_live == 0, "fini releases everything");
}
