// A list that outgrows every small count: N elements, one of them taken out, replaced or read at any index.
#include "vp_alloc.h"
#include "rcutils/types/array_list.h"
#define MAXN 600
void vp_main(void)
{
  rcutils_allocator_t a = vp_allocator();
  size_t N = vp_param("N", 300), n = N, cap = vp_choose(2) ? 1 : N - 1;
  static uint8_t model[MAXN + 1][2];
  uint8_t x = vp_in8();                        // an arbitrary pattern
  rcutils_array_list_t l = rcutils_get_zero_initialized_array_list();
  VP_ASSERT(rcutils_array_list_init(&l, cap, 2, &a) == RCUTILS_RET_OK, "init");
  for (size_t i = 0; i < N; ++i) {
    model[i][0] = (uint8_t)(i ^ x); model[i][1] = (uint8_t)(i >> 8);
    VP_ASSERT(rcutils_array_list_add(&l, model[i]) == RCUTILS_RET_OK, "an element is added");
  }
  size_t i = (size_t)vp_range(0, N - 1);
  i = vp_concretize(i);
  uint8_t e[2] = {vp_in8(), vp_in8()}, out[2];
  uint32_t op = vp_choose(2);
  if (op == 0) {
    VP_ASSERT(rcutils_array_list_remove(&l, i) == RCUTILS_RET_OK, "an element is removed");
    for (size_t k = i; k + 1 < n; ++k) {model[k][0] = model[k + 1][0]; model[k][1] = model[k + 1][1];}
    n--;
  } else {
    VP_ASSERT(rcutils_array_list_set(&l, i, e) == RCUTILS_RET_OK, "an element is replaced");
    model[i][0] = e[0]; model[i][1] = e[1];
  }
  size_t size = 0;
  VP_ASSERT(rcutils_array_list_get_size(&l, &size) == RCUTILS_RET_OK && size == n, "the size is exact");
  bool same = true;
  for (size_t k = 0; k < n; ++k) {
    VP_ASSERT(rcutils_array_list_get(&l, k, out) == RCUTILS_RET_OK, "every index below the size is valid");
    same = same & vp_same(out, model[k], 2);
  }
  VP_ASSERT(same, "every element is the one last stored at its place");
  VP_ASSERT(rcutils_array_list_get(&l, n, out) == RCUTILS_RET_INVALID_ARGUMENT, "no index from the size on is");
  VP_COVER(i == 256 && op == 0, "removal past 255");
  VP_ASSERT(rcutils_array_list_fini(&l) == RCUTILS_RET_OK && vp_live == 0, "fini releases everything");
}
