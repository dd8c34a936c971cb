// Byte arrays of sizes around the limits of narrower integers.
#include "vp_alloc.h"
#include "rcutils/types/uint8_array.h"
static const size_t sizes[] = {1, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 100000};
#define SIZES 12
void vp_main(void)
{
  rcutils_allocator_t a = vp_allocator();
  rcutils_uint8_array_t u = rcutils_get_zero_initialized_uint8_array();
  size_t from = sizes[vp_choose(SIZES)], to = sizes[vp_choose(SIZES)];
  VP_ASSERT(rcutils_uint8_array_init(&u, from, &a) == RCUTILS_RET_OK && u.buffer_capacity == from && u.buffer_length == 0, "init provides the capacity asked for");
  for (size_t i = 0; i < from; i += 1 + from / 64) {u.buffer[i] = (uint8_t)(i * 7 + 3);}
  size_t at = from / 64 * vp_choose(3) * 21;
  at -= at % (1 + from / 64);
  uint8_t c = vp_in8(), last = vp_in8();
  u.buffer[at] = c;
  if (from - 1 != at) {u.buffer[from - 1] = last;}
  size_t len = vp_choose(2) ? from : from / 2;
  u.buffer_length = len;
  VP_ASSERT(rcutils_uint8_array_resize(&u, to) == RCUTILS_RET_OK && u.buffer_capacity == to, "resize provides the capacity asked for");
  VP_ASSERT(u.buffer_length == (len < to ? len : to), "the length is kept, up to the new capacity");
  for (size_t i = 0; i < from && i < to; i += 1 + from / 64) {
    VP_ASSERT(u.buffer[i] == (i == at ? c : i == from - 1 ? last : (uint8_t)(i * 7 + 3)), "the stored bytes are kept");
  }
  if (from <= to && from - 1 != at) {VP_ASSERT(u.buffer[from - 1] == last, "up to the last");}
  u.buffer[to - 1] = 1;
  VP_ASSERT(rcutils_uint8_array_fini(&u) == RCUTILS_RET_OK && vp_live == 0, "fini releases everything");
}
