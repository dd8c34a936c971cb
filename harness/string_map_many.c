// A map of many strings: N keys, one of them taken out, one added and one changed; every key is found and visited once.
#include "vp_alloc.h"
#include "rcutils/types/string_map.h"
#define MAXN 320
void vp_main(void)
{
  static char key[MAXN + 1][5], value[MAXN + 1][4];
  static bool have[MAXN + 1], seen[MAXN + 1];
  rcutils_allocator_t a = vp_allocator();
  size_t N = vp_param("N", 260), count = N, size = 0;
  uint8_t x = vp_in8(), y = vp_in8();
  VP_ASSUME((x != 0) & (y != 0));
  rcutils_string_map_t m = rcutils_get_zero_initialized_string_map(), c = rcutils_get_zero_initialized_string_map();
  VP_ASSERT(rcutils_string_map_init(&m, vp_choose(2) ? 0 : N, a) == RCUTILS_RET_OK, "init");
  for (size_t i = 0; i <= N; ++i) {
    key[i][0] = (char)('0' + i / 100); key[i][1] = (char)('0' + i / 10 % 10); key[i][2] = (char)('0' + i % 10); key[i][3] = (char)x;
    value[i][0] = (char)('0' + i % 64); value[i][1] = (char)y;
    if (i < N) {VP_ASSERT(rcutils_string_map_set(&m, key[i], value[i]) == RCUTILS_RET_OK, "a pair is added"); have[i] = true;}
  }
  static const size_t places[] = {0, 127, 128, 254, 255, 256, 257, 259};
  size_t i = places[vp_choose(8)] % N, j = (i + 7) % N;
  VP_ASSERT(rcutils_string_map_unset(&m, key[i]) == RCUTILS_RET_OK, "a key is removed");
  have[i] = false;
  VP_ASSERT(rcutils_string_map_set(&m, key[N], value[N]) == RCUTILS_RET_OK, "another takes its place");
  have[N] = true;
  value[j][0] = 'z';
  VP_ASSERT(rcutils_string_map_set(&m, key[j], value[j]) == RCUTILS_RET_OK, "a value is replaced");
  rcutils_string_map_t * t = &m;
  if (vp_choose(2)) {
    VP_ASSERT(rcutils_string_map_init(&c, 0, a) == RCUTILS_RET_OK && rcutils_string_map_copy(&m, &c) == RCUTILS_RET_OK, "a copy");
    t = &c;
  }
  VP_ASSERT(rcutils_string_map_get_size(t, &size) == RCUTILS_RET_OK && size == count, "the size is exact");
  VP_ASSERT(rcutils_string_map_get_capacity(t, &size) == RCUTILS_RET_OK && size >= count, "the capacity holds the pairs");
  bool same = true;
  for (size_t k = 0; k <= N; ++k) {
    const char * v = rcutils_string_map_get(t, key[k]);
    VP_ASSERT((v != NULL) == have[k], "a key is found exactly when it is there");
    if (v) {same = same & vp_same(v, value[k], 3);}
  }
  VP_ASSERT(same, "with the value last set");
  const char * k = NULL;
  size_t visits = 0;
  while ((k = rcutils_string_map_get_next_key(t, k)) != NULL) {
    size_t n = (size_t)(k[0] - '0') * 100 + (size_t)(k[1] - '0') * 10 + (size_t)(k[2] - '0');
    VP_ASSERT(n <= N && have[n] && !seen[n], "iteration visits each key once");
    seen[n] = true; ++visits;
  }
  VP_ASSERT(visits == count, "and all of them");
  VP_COVER(t == &c, "copied");
  VP_ASSERT(rcutils_string_map_fini(&m) == RCUTILS_RET_OK && rcutils_string_map_fini(&c) == RCUTILS_RET_OK && vp_live == 0, "fini releases everything");
}
