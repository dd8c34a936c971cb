// More strings than small counts hold: N strings, resized, sorted and compared.
#include "vp_alloc.h"
#include "rcutils/types/string_array.h"
#include "rcutils/strdup.h"
void vp_main(void)
{
  rcutils_allocator_t a = vp_allocator();
  size_t N = vp_param("N", 300);
  rcutils_string_array_t s = rcutils_get_zero_initialized_string_array();
  uint8_t x = vp_in8();
  VP_ASSUME(x != 0);
  static const size_t sizes[] = {0, 1, 127, 128, 129, 254, 255, 256, 257, 258, 299};
  size_t from = sizes[vp_choose(11)], to = N;
  if (vp_choose(2)) {to = from; from = N;}
  VP_ASSERT(rcutils_string_array_init(&s, from, &a) == RCUTILS_RET_OK && s.size == from, "init");
  char t[5] = {0};
  for (size_t i = 0; i < from; ++i) {
    VP_ASSERT(s.data[i] == NULL, "new entries are empty");
    t[0] = (char)('0' + i / 100); t[1] = (char)('0' + i / 10 % 10); t[2] = (char)('0' + i % 10); t[3] = (char)x;
    s.data[i] = rcutils_strdup(t, a);
  }
  VP_ASSERT(rcutils_string_array_resize(&s, to) == RCUTILS_RET_OK && s.size == to, "resize");
  size_t keep = from < to ? from : to;
  VP_ASSERT(vp_live == keep + (to || from ? 1u : 0u) || (to == 0 && vp_live == keep), "the strings dropped are released");
  bool same = true;
  for (size_t i = 0; i < to; ++i) {
    if (i < keep) {
      same = same & (s.data[i][0] == (char)('0' + i / 100)) & (s.data[i][1] == (char)('0' + i / 10 % 10)) & (s.data[i][2] == (char)('0' + i % 10)) & (s.data[i][3] == (char)x);
    } else {VP_ASSERT(s.data[i] == NULL, "new entries are empty");}
  }
  VP_ASSERT(same, "the strings kept are unchanged");
  int r = 9;
  if (keep == to) {VP_ASSERT(rcutils_string_array_cmp(&s, &s, &r) == RCUTILS_RET_OK && r == 0, "an array equals itself");}
  VP_COVER(keep == 255, "grown"); VP_COVER(keep == 257 && from == N, "cut");
  VP_ASSERT(rcutils_string_array_fini(&s) == RCUTILS_RET_OK && vp_live == 0, "fini releases everything");
}
