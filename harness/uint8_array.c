// Histories of resizes and writes on a uint8 array.
#include "vp_alloc.h"
#include "rcutils/types/uint8_array.h"
#define MAXC 8
void vp_main(void)
{
  size_t K = vp_param("K", 3), N = vp_param("N", 5);
  rcutils_allocator_t a = vp_allocator();
  uint8_t model[MAXC + 1];
  size_t len = 0;
  rcutils_uint8_array_t u = rcutils_get_zero_initialized_uint8_array();
  VP_ASSERT(u.buffer == NULL && u.buffer_length == 0 && u.buffer_capacity == 0, "zero initialized");
  VP_ASSERT(rcutils_uint8_array_init(NULL, 1, &a) == RCUTILS_RET_INVALID_ARGUMENT, "null array refused");
  VP_ASSERT(rcutils_uint8_array_init(&u, 1, NULL) == RCUTILS_RET_INVALID_ARGUMENT, "null allocator refused");
  VP_ASSERT(rcutils_uint8_array_fini(NULL) == RCUTILS_RET_INVALID_ARGUMENT, "fini(NULL) refused");
  VP_ASSERT(rcutils_uint8_array_resize(NULL, 1) == RCUTILS_RET_INVALID_ARGUMENT, "resize(NULL) refused");
  if (vp_param("fail", 0)) {vp_alloc_arm(VP_ANY_FAIL, 0);}
  size_t cap = vp_choose((uint32_t)N + 1);
  rcutils_ret_t r = rcutils_uint8_array_init(&u, cap, &a);
  if (r != RCUTILS_RET_OK) {
    VP_ASSERT(r == RCUTILS_RET_BAD_ALLOC && vp_failures > 0 && vp_live == 0, "init fails only when memory is refused");
    VP_ASSERT(u.buffer == NULL && u.buffer_length == 0 && u.buffer_capacity == 0, "a failed init leaves an empty array");
    return;
  }
  VP_ASSERT(u.buffer_capacity == cap && u.buffer_length == 0, "init provides the capacity asked for");
  VP_ASSERT((u.buffer == NULL) == (cap == 0), "no memory for a capacity of zero");
  for (size_t k = 0; k < K; ++k) {
    // the user stores some bytes
    len = vp_range(0, u.buffer_capacity);
    len = vp_concretize(len);
    vp_bytes(model, len);
    if (len) {memcpy(u.buffer, model, len);}
    u.buffer_length = len;
    size_t f0 = vp_failures, want = vp_choose((uint32_t)N + 1);
    rcutils_allocator_t before = u.allocator;
    r = rcutils_uint8_array_resize(&u, want);
    VP_ASSERT(u.allocator.allocate == before.allocate && u.allocator.state == before.state, "the allocator stays");
    if (want == 0) {
      VP_ASSERT(r == RCUTILS_RET_INVALID_ARGUMENT, "a size of zero is refused");
    } else if (vp_failures != f0) {
      VP_ASSERT(r == RCUTILS_RET_BAD_ALLOC, "refused memory is reported");
      VP_ASSERT(u.buffer_length <= u.buffer_capacity, "the array stays consistent");
      len = u.buffer_length < len ? u.buffer_length : len;
      VP_COVER(cap > 0, "resize failed");
    } else {
      VP_ASSERT(r == RCUTILS_RET_OK && u.buffer_capacity == want, "resize provides the capacity asked for");
      if (len > want) {len = want; VP_COVER(1, "truncated");}
    }
    VP_ASSERT(u.buffer_length == len, "the length is kept, up to the new capacity");
    if (len) {VP_ASSERT(vp_same(u.buffer, model, len), "the stored bytes are kept");}
    if (u.buffer_capacity) {u.buffer[u.buffer_capacity - 1] = 1;}   // all of the capacity is usable
  }
  VP_ASSERT(rcutils_uint8_array_fini(&u) == RCUTILS_RET_OK, "fini succeeds");
  VP_ASSERT(u.buffer == NULL && u.buffer_length == 0 && u.buffer_capacity == 0, "fini empties the array");
  VP_ASSERT(vp_live == 0, "fini releases everything");
}
