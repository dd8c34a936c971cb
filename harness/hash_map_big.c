// Any initial capacity and element sizes: initialization either succeeds with enough room or is refused.
#include "vp_alloc.h"
#include "vp_log_stub.h"
#include "rcutils/types/hash_map.h"
static uint64_t h0, h1;
static size_t hash(const void * k) {return *(const uint8_t *)k == 1 ? (size_t)h0 : (size_t)h1;}
static int cmp(const void * a, const void * b) {return *(const uint8_t *)a - *(const uint8_t *)b;}
void vp_main(void)
{
  rcutils_allocator_t a = vp_allocator();
  vp_max_alloc = 400;
  rcutils_hash_map_t m = rcutils_get_zero_initialized_hash_map();
  uint64_t cap = vp_in64();
  VP_ASSUME(cap > 0);
  if (vp_choose(2)) {cap = 1 + vp_choose(40);} else {VP_ASSUME(cap > 40);}
  h0 = vp_in64(); h1 = vp_in64();
  rcutils_ret_t r = rcutils_hash_map_init(&m, cap, 1, 1, hash, cmp, &a);
  if (r != RCUTILS_RET_OK) {
    VP_ASSERT(m.impl == NULL && vp_live == 0, "a failed init leaves nothing");
    VP_ASSERT(cap > 4, "a small capacity is not refused");
    VP_COVER(cap > (1ull << 63), "refused huge");
    return;
  }
  size_t c = 0;
  VP_ASSERT(rcutils_hash_map_get_capacity(&m, &c) == RCUTILS_RET_OK && c >= cap && (c & (c - 1)) == 0, "the capacity is at least the one asked for");
  for (uint8_t i = 1; i <= 2; ++i) {
    uint8_t v = 10 * i;
    VP_ASSERT(rcutils_hash_map_set(&m, &i, &v) == RCUTILS_RET_OK, "set succeeds");
  }
  for (uint8_t i = 1; i <= 2; ++i) {
    uint8_t v = 0;
    VP_ASSERT(rcutils_hash_map_get(&m, &i, &v) == RCUTILS_RET_OK && v == 10 * i, "values read back");
  }
  VP_ASSERT(rcutils_hash_map_fini(&m) == RCUTILS_RET_OK && vp_live == 0, "fini releases everything");
  VP_COVER(1, "initialized");
}
