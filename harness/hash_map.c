// Histories of operations on a hash map with an arbitrary hash function, against an association list.
#include "vp_alloc.h"
#include "vp_log_stub.h"
#include "rcutils/types/hash_map.h"
#define NK 4
#define KS 3
#define DS 2
static uint64_t hash_of[NK];
static bool have[NK];
static uint8_t val[NK][DS];
static size_t size_;
static rcutils_hash_map_t m;
static size_t nk;
// keys: byte 0 tells them apart, the other bytes are a fixed function of it
static void make_key(uint8_t * k, size_t i)
{
  k[0] = (uint8_t)(0x11 * (i + 1)); k[1] = (uint8_t)(0xa0 + i); k[2] = (uint8_t)(0xc3 - i);
}
static size_t key_index(const uint8_t * k)
{
  for (size_t i = 0; i < nk; ++i) {
    uint8_t e[KS];
    make_key(e, i);
    if (e[0] == k[0] && e[1] == k[1] && e[2] == k[2]) {return i;}
  }
  VP_ASSERT(0, "the hash and comparison functions are given whole keys");
  return 0;
}
static size_t hash(const void * k) {return (size_t)hash_of[key_index(k)];}
static int cmp(const void * a, const void * b)
{
  size_t i = key_index(a), j = key_index(b);
  return i == j ? 0 : i < j ? -1 : 1;
}
static void check_all(void)
{
  size_t n = 99;
  VP_ASSERT(rcutils_hash_map_get_size(&m, &n) == RCUTILS_RET_OK && n == size_, "the size is the number of keys in the map");
  for (size_t i = 0; i < nk; ++i) {
    uint8_t k[KS], d[DS + 1] = {0x77, 0x78, 0x79};
    make_key(k, i);
    VP_ASSERT(rcutils_hash_map_key_exists(&m, k) == have[i], "a key exists exactly when it was set and not unset since");
    rcutils_ret_t r = rcutils_hash_map_get(&m, k, d);
    if (have[i]) {
      VP_ASSERT(r == RCUTILS_RET_OK, "get finds a key that is in the map");
      VP_ASSERT(vp_same(d, val[i], DS) & (d[DS] == 0x79), "get copies out the value last set for the key");
    } else {
      VP_ASSERT(r == RCUTILS_RET_NOT_FOUND, "get does not find a key that is not in the map");
      VP_ASSERT((d[0] == 0x77) & (d[1] == 0x78), "a failed get writes nothing");
    }
  }
}
static void iterate(void)
{
  bool seen[NK] = {0};
  size_t n = 0;
  uint8_t k[KS + 1], d[DS + 1];
  rcutils_ret_t r;
  k[KS] = 0x31; d[DS] = 0x32;
  for (r = rcutils_hash_map_get_next_key_and_data(&m, NULL, k, d); r == RCUTILS_RET_OK;
    r = rcutils_hash_map_get_next_key_and_data(&m, k, k, d))
  {
    size_t i = key_index(k);
    VP_ASSERT(have[i] && !seen[i], "an iteration visits only keys in the map, each once");
    VP_ASSERT(vp_same(d, val[i], DS), "an iteration gives the value of each key");
    VP_ASSERT(k[KS] == 0x31 && d[DS] == 0x32, "an iteration copies one key and one value");
    seen[i] = true;
    n++;
  }
  VP_ASSERT(r == RCUTILS_RET_HASH_MAP_NO_MORE_ENTRIES, "an iteration ends when there are no more entries");
  VP_ASSERT(n == size_, "an iteration visits every key");
  VP_COVER(n == 3, "iterated over three");
  for (size_t i = 0; i < nk; ++i) {
    make_key(k, i);
    if (!have[i]) {VP_ASSERT(rcutils_hash_map_get_next_key_and_data(&m, k, k, d) == RCUTILS_RET_NOT_FOUND, "iterating from a key that is not in the map fails");}
  }
}
static void null_arguments(void)
{
  uint8_t k[KS], d[DS], k2[KS], d2[DS];
  make_key(k, 0);
  VP_ASSERT(rcutils_hash_map_set(&m, NULL, d) == RCUTILS_RET_INVALID_ARGUMENT && rcutils_hash_map_set(&m, k, NULL) == RCUTILS_RET_INVALID_ARGUMENT
    && rcutils_hash_map_get(&m, NULL, d) == RCUTILS_RET_INVALID_ARGUMENT && rcutils_hash_map_get(&m, k, NULL) == RCUTILS_RET_INVALID_ARGUMENT
    && rcutils_hash_map_unset(&m, NULL) == RCUTILS_RET_INVALID_ARGUMENT && !rcutils_hash_map_key_exists(&m, NULL)
    && rcutils_hash_map_get_size(&m, NULL) == RCUTILS_RET_INVALID_ARGUMENT && rcutils_hash_map_get_capacity(&m, NULL) == RCUTILS_RET_INVALID_ARGUMENT
    && rcutils_hash_map_get_next_key_and_data(&m, NULL, NULL, d2) == RCUTILS_RET_INVALID_ARGUMENT
    && rcutils_hash_map_get_next_key_and_data(&m, NULL, k2, NULL) == RCUTILS_RET_INVALID_ARGUMENT, "null arguments are refused");
}
void vp_main(void)
{
  size_t K = vp_param("K", 4), fail = vp_param("fail", 0), maxcap = vp_param("cap", 3);
  rcutils_allocator_t a = vp_allocator();
  nk = vp_param("NK", 3);
  // the low byte of each hash is a case split (it selects the bucket), the rest is symbolic
  for (size_t i = 0; i < nk; ++i) {
    static const uint8_t low[4] = {0, 1, 2, 5};
    uint32_t mid = vp_in32();
    uint8_t h[8] = {low[vp_choose(4)], 0, 0, 0, 0, 0, 0, 0x80};
    memcpy(h + 2, &mid, 4);
    memcpy(&hash_of[i], h, 8);
  }
  size_t cap = 1 + vp_choose((uint32_t)maxcap), c = 0, dummy;
  m = rcutils_get_zero_initialized_hash_map();
  uint8_t k[KS], d[DS];
  make_key(k, 0);
  VP_ASSERT(rcutils_hash_map_fini(&m) == RCUTILS_RET_NOT_INITIALIZED && rcutils_hash_map_set(&m, k, d) == RCUTILS_RET_NOT_INITIALIZED
    && rcutils_hash_map_get(&m, k, d) == RCUTILS_RET_NOT_INITIALIZED && rcutils_hash_map_unset(&m, k) == RCUTILS_RET_NOT_INITIALIZED
    && rcutils_hash_map_get_size(&m, &dummy) == RCUTILS_RET_NOT_INITIALIZED && !rcutils_hash_map_key_exists(&m, k)
    && rcutils_hash_map_get_next_key_and_data(&m, NULL, k, d) == RCUTILS_RET_NOT_INITIALIZED, "an uninitialized map refuses everything");
  VP_ASSERT(rcutils_hash_map_init(&m, 0, KS, DS, hash, cmp, &a) == RCUTILS_RET_INVALID_ARGUMENT
    && rcutils_hash_map_init(&m, 1, 0, DS, hash, cmp, &a) == RCUTILS_RET_INVALID_ARGUMENT
    && rcutils_hash_map_init(&m, 1, KS, 0, hash, cmp, &a) == RCUTILS_RET_INVALID_ARGUMENT
    && rcutils_hash_map_init(&m, 1, KS, DS, NULL, cmp, &a) == RCUTILS_RET_INVALID_ARGUMENT
    && rcutils_hash_map_init(&m, 1, KS, DS, hash, NULL, &a) == RCUTILS_RET_INVALID_ARGUMENT && m.impl == NULL && vp_live == 0,
    "zero sizes and missing functions are refused");
  if (fail) {vp_alloc_arm(VP_ANY_FAIL, 0);}
  rcutils_ret_t r = rcutils_hash_map_init(&m, cap, KS, DS, hash, cmp, &a);
  if (r != RCUTILS_RET_OK) {
    VP_ASSERT(r == RCUTILS_RET_BAD_ALLOC && vp_failures > 0, "init fails only when memory is refused");
    VP_ASSERT(m.impl == NULL && vp_live == 0, "a failed init leaves the map uninitialized and leaks nothing");
    return;
  }
  VP_ASSERT(rcutils_hash_map_get_capacity(&m, &c) == RCUTILS_RET_OK && c >= cap && c < 2 * cap && (c & (c - 1)) == 0,
    "the capacity is the requested one rounded up to a power of two");
  VP_ASSERT(vp_failures == 0, "init succeeds only with the memory it asked for");
  for (size_t step = 0; step < K; ++step) {
    size_t f0 = vp_failures, c0 = c, l0 = vp_logged;
    size_t i = step == 0 ? 0 : vp_choose((uint32_t)nk);   // keys differ only by name: the first is key 0
    uint32_t op = step == 0 ? 0 : vp_choose(2);   // an unset comes later: the map starts empty
    make_key(k, i);
    switch (op) {
      case 0: {
          size_t live0 = vp_live;
          vp_bytes(d, DS);
          r = rcutils_hash_map_set(&m, k, d);
          if (r == RCUTILS_RET_OK) {
            if (!have[i]) {size_++;}
            have[i] = true;
            memcpy(val[i], d, DS);
            VP_COVER(vp_failures != f0, "set without being able to grow");
          } else {
            VP_ASSERT(r == RCUTILS_RET_BAD_ALLOC && vp_failures > f0, "set fails only when memory is refused");
            VP_ASSERT(!have[i], "updating a key that is in the map needs no memory");
            VP_ASSERT(vp_live == live0 || vp_live == live0 + 2, "a failed set keeps no memory but an empty bucket");
            VP_COVER(1, "failed set");
          }
          VP_ASSERT(rcutils_hash_map_get_capacity(&m, &c) == RCUTILS_RET_OK && c >= c0 && (c & (c - 1)) == 0, "set never shrinks the map");
          VP_ASSERT(vp_failures != f0 || (size_ <= c && vp_logged == l0), "the map grows with its contents");
          make_key(k, i);
          break;
        }
      default:
        r = rcutils_hash_map_unset(&m, k);
        VP_ASSERT(r == RCUTILS_RET_OK || (!have[i] && r == RCUTILS_RET_STRING_KEY_NOT_FOUND), "unset succeeds for a key in the map");
        VP_COVER(have[i] && size_ > 1, "unset one of several");
        if (have[i]) {size_--; have[i] = false;}
        VP_ASSERT(rcutils_hash_map_get_capacity(&m, &c) == RCUTILS_RET_OK && c == c0, "unset never changes the capacity");
        break;
    }
    check_all();
    VP_COVER(size_ >= 2 && vp_failures == 0 && (hash_of[0] == hash_of[1]), "two keys may have one hash");
  }
  iterate();
  null_arguments();
  VP_ASSERT(rcutils_hash_map_fini(&m) == RCUTILS_RET_OK && m.impl == NULL, "fini succeeds");
  VP_ASSERT(vp_live == 0, "fini releases everything");
  VP_ASSERT(rcutils_hash_map_fini(&m) == RCUTILS_RET_NOT_INITIALIZED, "a finalized map is uninitialized again");
}
