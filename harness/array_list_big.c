// Any capacity and element size: a list that was initialized can hold an element.
#include "vp_alloc.h"
#include "rcutils/types/array_list.h"
void vp_main(void)
{
  rcutils_allocator_t a = vp_allocator();
  vp_max_alloc = 128;
  uint64_t cap = vp_in64(), d = 1 + vp_choose(4);
  uint8_t el[4] = {1, 2, 3, 4}, out[4] = {0, 0, 0, 0};
  rcutils_array_list_t l = rcutils_get_zero_initialized_array_list();
  // memory for at most a few elements is ever granted, so that the request is what decides
  VP_ASSUME(cap <= 4 || cap > UINT64_MAX / 16);
  rcutils_ret_t r = rcutils_array_list_init(&l, cap, d, &a);
  if (r == RCUTILS_RET_OK) {
    VP_ASSERT(rcutils_array_list_add(&l, el) == RCUTILS_RET_OK, "an initialized list takes an element");
    VP_ASSERT(rcutils_array_list_get(&l, 0, out) == RCUTILS_RET_OK && vp_same(out, el, d), "and gives it back");
    VP_ASSERT(rcutils_array_list_fini(&l) == RCUTILS_RET_OK, "fini succeeds");
    VP_COVER(1, "granted");
  } else {
    VP_ASSERT(l.impl == NULL, "a failed init leaves the list uninitialized");
    VP_COVER(r == RCUTILS_RET_BAD_ALLOC, "refused");
  }
  VP_ASSERT(vp_live == 0, "nothing leaks");
}
