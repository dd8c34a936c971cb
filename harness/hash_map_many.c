// A map that grows many times: N keys, one of them taken out and one changed; every pair is found and visited once.
#include "vp_alloc.h"
#include "vp_log_stub.h"
#include "rcutils/types/hash_map.h"
#define MAXN 400
static uint64_t spread, base;                     // the hash of key i is base + i * spread
static size_t hash(const void * k) {uint16_t i; memcpy(&i, k, 2); return (size_t)(base + i * spread);}
static int cmp(const void * a, const void * b) {return memcmp(a, b, 2);}
void vp_main(void)
{
  static uint32_t want[MAXN];
  static bool have[MAXN], seen[MAXN];
  rcutils_allocator_t a = vp_allocator();
  size_t N = vp_param("N", 70), count = N, size = 0, cap = 0;
  static const uint64_t spreads[] = {1, 64, 0x100000001ull, 0};
  spread = spreads[vp_choose(N > 100 ? 3 : 4)];   // 0: all in one bucket
  base = vp_choose(2) ? 0xffffffffffffff80ull : 5;
  uint32_t x = vp_in32();
  rcutils_hash_map_t m = rcutils_get_zero_initialized_hash_map();
  VP_ASSERT(rcutils_hash_map_init(&m, 1 + vp_choose(2), 2, 4, hash, cmp, &a) == RCUTILS_RET_OK, "init");
  for (uint16_t i = 0; i < N; ++i) {
    want[i] = x + i; have[i] = true;
    VP_ASSERT(rcutils_hash_map_set(&m, &i, &want[i]) == RCUTILS_RET_OK, "a key is added");
  }
  uint16_t i = (uint16_t)(vp_choose((uint32_t)(N + 4) / 5) * 5 % N), j = (uint16_t)((i + 7) % N);
  uint32_t y = vp_in32(), d;
  VP_ASSERT(rcutils_hash_map_unset(&m, &i) == RCUTILS_RET_OK, "a key is removed");
  have[i] = false; --count;
  VP_ASSERT(rcutils_hash_map_set(&m, &j, &y) == RCUTILS_RET_OK, "a value is replaced");
  want[j] = y;
  VP_ASSERT(rcutils_hash_map_get_size(&m, &size) == RCUTILS_RET_OK && size == count, "the size is exact");
  VP_ASSERT(rcutils_hash_map_get_capacity(&m, &cap) == RCUTILS_RET_OK && cap >= size, "the map grew with its contents");
  bool same = true;
  for (uint16_t k = 0; k < N; ++k) {
    d = 0;
    VP_ASSERT(rcutils_hash_map_key_exists(&m, &k) == have[k], "a key is in the map until it is removed");
    VP_ASSERT(rcutils_hash_map_get(&m, &k, &d) == (have[k] ? RCUTILS_RET_OK : RCUTILS_RET_NOT_FOUND), "a key is found exactly when it is there");
    if (have[k]) {same = same & (d == want[k]);}
  }
  VP_ASSERT(same, "with the value last set");
  uint16_t k = 0, prev = 0;
  size_t visits = 0;
  rcutils_ret_t r;
  while ((r = rcutils_hash_map_get_next_key_and_data(&m, visits ? &prev : NULL, &k, &d)) == RCUTILS_RET_OK) {
    VP_ASSERT(k < N && have[k] && !seen[k] && visits < N, "iteration visits each key once");
    seen[k] = true; ++visits; prev = k;
    same = same & (d == want[k]);
  }
  VP_ASSERT(r == RCUTILS_RET_HASH_MAP_NO_MORE_ENTRIES && visits == count, "and all of them");
  VP_ASSERT(same, "with its value");
  VP_COVER(spread == 1, "spread");
  VP_ASSERT(rcutils_hash_map_fini(&m) == RCUTILS_RET_OK && vp_live == 0, "fini releases everything");
}
