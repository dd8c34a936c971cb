// Long keys and values, and keys that differ in one place only.
#include "vp_alloc.h"
#include "rcutils/types/string_map.h"
void vp_main(void)
{
  static const size_t lens[] = {7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 257, 1023, 1024, 4096};
  rcutils_allocator_t a = vp_allocator();
  rcutils_string_map_t m = rcutils_get_zero_initialized_string_map(), d = rcutils_get_zero_initialized_string_map();
  size_t n = lens[vp_choose(16)], at = vp_choose(3) * (n / 2);
  if (at >= n) {at = n - 1;}
  char * k1 = vp_heap_alloc(n + 1), * k2 = vp_heap_alloc(n + 1), * v = vp_heap_alloc(n + 2);
  memset(k1, 'k', n); k1[n] = '\0'; memset(k2, 'k', n); k2[n] = '\0';
  memset(v, 'v', n + 1); v[n + 1] = '\0';
  uint8_t c = vp_in8(), x = vp_in8();
  VP_ASSUME((c != 0) & (c != 'k') & (x != 0));
  k2[at] = (char)c; v[n] = (char)x;
  VP_ASSERT(rcutils_string_map_init(&m, 1, a) == RCUTILS_RET_OK && rcutils_string_map_init(&d, 0, a) == RCUTILS_RET_OK, "init");
  VP_ASSERT(rcutils_string_map_set(&m, k1, v) == RCUTILS_RET_OK && rcutils_string_map_set(&m, k2, "2") == RCUTILS_RET_OK, "set succeeds");
  bool copy = vp_choose(2);
  if (copy) {VP_ASSERT(rcutils_string_map_copy(&m, &d) == RCUTILS_RET_OK, "copied");}
  rcutils_string_map_t * t = copy ? &d : &m;
  size_t size = 0;
  VP_ASSERT(rcutils_string_map_get_size(t, &size) == RCUTILS_RET_OK && size == 2, "two keys");
  const char * g1 = rcutils_string_map_get(t, k1), * g2 = rcutils_string_map_get(t, k2);
  VP_ASSERT(g1 && vp_same(g1, v, n + 2), "the value is kept whole");
  VP_ASSERT(g2 && vp_same(g2, "2", 2), "and apart from that of a similar key");
  VP_ASSERT(rcutils_string_map_getn(t, k1, n) == g1 && rcutils_string_map_getn(t, k2, n) == g2, "by length, too");
  k1[n - 1] = '\0';
  VP_ASSERT(rcutils_string_map_get(t, k1) == NULL && !rcutils_string_map_key_exists(t, k1) && !rcutils_string_map_key_existsn(t, k2, n - 1), "a shorter key is another");
  k1[n - 1] = 'k';
  VP_ASSERT(rcutils_string_map_unset(t, k2) == RCUTILS_RET_OK && rcutils_string_map_get(t, k2) == NULL && rcutils_string_map_get(t, k1) == g1, "unset removes the one key");
  VP_ASSERT(rcutils_string_map_fini(&m) == RCUTILS_RET_OK && rcutils_string_map_fini(&d) == RCUTILS_RET_OK && vp_live == 0, "nothing leaks");
}
