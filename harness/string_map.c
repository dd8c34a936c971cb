// Histories of operations on a string map, against an association list.
#include "vp_alloc.h"
#include "rcutils/types/string_map.h"
#define MAXN 6
static struct {char k[4]; size_t kn; char v[4]; size_t vn;} model[MAXN];
static size_t size_;
static rcutils_string_map_t m;
static size_t find_(const char * k, size_t n)
{
  for (size_t i = 0; i < size_; ++i) {
    if (model[i].kn == n && vp_same(model[i].k, k, n)) {return i;}
  }
  return size_;
}
static void remove_(size_t i)
{
  for (; i + 1 < size_; ++i) {model[i] = model[i + 1];}
  --size_;
}
static void check_all(const rcutils_string_map_t * map, bool others_ok)
{
  size_t n = 99, c = 0;
  VP_ASSERT(rcutils_string_map_get_size(map, &n) == RCUTILS_RET_OK && (others_ok || n == size_), "the size is the number of keys in the map");
  VP_ASSERT(rcutils_string_map_get_capacity(map, &c) == RCUTILS_RET_OK && c >= n, "the capacity is never below the size");
  for (size_t i = 0; i < size_; ++i) {
    char k[4];
    memcpy(k, model[i].k, 4);
    const char * v = rcutils_string_map_get(map, k);
    VP_ASSERT(v != NULL && rcutils_string_map_key_exists(map, k), "every key that was set and not unset since is found");
    VP_ASSERT(vp_same(v, model[i].v, model[i].vn + 1), "its value is the one last set");
  }
  size_t visited = 0;
  for (const char * k = rcutils_string_map_get_next_key(map, NULL); k; k = rcutils_string_map_get_next_key(map, k)) {
    visited++;
    VP_ASSERT(visited <= n, "an iteration visits each key once");
    size_t kn = 0;
    while (k[kn]) {kn++;}
    if (!others_ok) {VP_ASSERT(find_(k, kn) < size_, "an iteration visits only keys in the map");}
  }
  VP_ASSERT(visited == n, "an iteration visits every key");
}
void vp_main(void)
{
  size_t K = vp_param("K", 3), L = vp_param("L", 1), V = vp_param("V", 1), fail = vp_param("fail", 0), C = vp_param("cap", 2);
  size_t pool = vp_param("pool", 0);   // keys: any strings (0), or this many strings that are prefixes of each other
  size_t noops = vp_param("ops", 5);
  rcutils_allocator_t a = vp_allocator();
  vp_max_alloc = 256;
  char kbuf[4], vbuf[4];
  size_t dummy, cap = vp_choose((uint32_t)C + 1), c;
  m = rcutils_get_zero_initialized_string_map();
  VP_ASSERT(rcutils_string_map_fini(&m) == RCUTILS_RET_OK && rcutils_string_map_set(&m, "k", "v") == RCUTILS_RET_STRING_MAP_INVALID
    && rcutils_string_map_set_no_resize(&m, "k", "v") == RCUTILS_RET_STRING_MAP_INVALID && rcutils_string_map_unset(&m, "k") == RCUTILS_RET_STRING_MAP_INVALID
    && rcutils_string_map_get_size(&m, &dummy) == RCUTILS_RET_STRING_MAP_INVALID && rcutils_string_map_get_capacity(&m, &dummy) == RCUTILS_RET_STRING_MAP_INVALID
    && rcutils_string_map_reserve(&m, 1) == RCUTILS_RET_STRING_MAP_INVALID && rcutils_string_map_clear(&m) == RCUTILS_RET_STRING_MAP_INVALID
    && rcutils_string_map_get(&m, "k") == NULL && !rcutils_string_map_key_exists(&m, "k") && rcutils_string_map_get_next_key(&m, NULL) == NULL,
    "an uninitialized map refuses everything");
  if (fail) {vp_alloc_arm(VP_ANY_FAIL, 0);}
  rcutils_ret_t r = rcutils_string_map_init(&m, cap, a);
  if (r != RCUTILS_RET_OK) {
    VP_ASSERT(r == RCUTILS_RET_BAD_ALLOC && vp_failures > 0, "init fails only when memory is refused");
    VP_ASSERT(m.impl == NULL && vp_live == 0, "a failed init leaves the map uninitialized and leaks nothing");
    return;
  }
  VP_ASSERT(rcutils_string_map_init(&m, cap, a) == RCUTILS_RET_STRING_MAP_ALREADY_INIT, "a map is not initialized twice");
  VP_ASSERT(rcutils_string_map_get_capacity(&m, &c) == RCUTILS_RET_OK && c == cap, "the capacity is the requested one");
  for (size_t step = 0; step < K; ++step) {
    size_t f0 = vp_failures, live0 = vp_live;
    uint32_t op = step == 0 ? 0 : vp_choose((uint32_t)noops);
    rcutils_string_map_get_capacity(&m, &c);
    if (op <= 2) {
      size_t kn, i;
      if (pool) {
        static const char * const names[] = {"ab", "a", "", "b"};
        const char * name = names[vp_choose((uint32_t)(step < pool ? step + 1 : pool))];
        for (kn = 0; name[kn]; ++kn) {kbuf[kn] = name[kn];}
        kbuf[kn] = '\0';
      } else {kn = vp_string(kbuf, L);}
      i = find_(kbuf, kn);
      if (op < 2) {
        bool no_resize = op == 1;
        size_t vn = V;
        if (pool) {vp_string_len(vbuf, V);} else {vn = vp_string(vbuf, V);}
        r = no_resize ? rcutils_string_map_set_no_resize(&m, kbuf, vbuf) : rcutils_string_map_set(&m, kbuf, vbuf);
        if (no_resize && i == size_ && size_ == c) {
          VP_ASSERT(r == RCUTILS_RET_NOT_ENOUGH_SPACE, "set_no_resize does not add a key to a full map");
          VP_COVER(1, "full");
        } else if (vp_failures == f0) {
          VP_ASSERT(r == RCUTILS_RET_OK, "set succeeds when memory is available");
        }
        if (r == RCUTILS_RET_OK) {
          memcpy(model[i].k, kbuf, 4); model[i].kn = kn;
          memcpy(model[i].v, vbuf, 4); model[i].vn = vn;
          VP_COVER(i < size_, "updated");
          if (i == size_) {size_++;}
        } else {
          VP_ASSERT(r == RCUTILS_RET_NOT_ENOUGH_SPACE || (r == RCUTILS_RET_BAD_ALLOC && vp_failures > f0), "set fails only for want of memory");
          VP_ASSERT(vp_live <= live0 + 1 && (vp_live == live0 || c == 0), "a failed set keeps no memory but the grown table");
          VP_COVER(vp_failures > f0, "failed set");
        }
      } else {
        r = rcutils_string_map_unset(&m, kbuf);
        if (i < size_) {
          VP_ASSERT(r == RCUTILS_RET_OK && vp_live == live0 - 2, "unset releases a key in the map and its value");
          remove_(i);
          VP_COVER(i < size_, "unset one of several");
        } else {
          VP_ASSERT(r == RCUTILS_RET_STRING_KEY_NOT_FOUND, "unset reports a key that is not in the map");
        }
        VP_ASSERT(rcutils_string_map_get(&m, kbuf) == NULL && !rcutils_string_map_key_exists(&m, kbuf), "a key that was unset is gone");
      }
    } else if (op == 3) {
      uint32_t w = vp_choose(6);
      uint64_t want = w < 5 ? w : vp_range(5, UINT64_MAX);
      r = rcutils_string_map_reserve(&m, want);
      size_t c2;
      rcutils_string_map_get_capacity(&m, &c2);
      if (r == RCUTILS_RET_OK) {
        VP_ASSERT(c2 >= want && c2 >= size_, "reserve provides the capacity asked for, and never less than the size");
        VP_ASSERT(want >= c || (c2 == (want > size_ ? want : size_)), "reserve shrinks to what was asked for or what is needed");
        VP_COVER(c2 < c && size_ > 0, "shrunk");
      } else {
        VP_ASSERT(r == RCUTILS_RET_BAD_ALLOC && (vp_failures > f0 || want > 16), "reserve fails only for want of memory");
        VP_ASSERT(c2 == c, "a failed reserve changes nothing");
      }
    } else {
      size_t c2;
      VP_ASSERT(rcutils_string_map_clear(&m) == RCUTILS_RET_OK && vp_live == live0 - 2 * size_, "clear releases all keys and values");
      VP_ASSERT(rcutils_string_map_get_capacity(&m, &c2) == RCUTILS_RET_OK && c2 == c, "clear keeps the capacity");
      size_ = 0;
    }
    check_all(&m, false);
  }
  VP_ASSERT(rcutils_string_map_set(&m, NULL, "v") == RCUTILS_RET_INVALID_ARGUMENT && rcutils_string_map_set(&m, "k", NULL) == RCUTILS_RET_INVALID_ARGUMENT
    && rcutils_string_map_unset(&m, NULL) == RCUTILS_RET_INVALID_ARGUMENT && rcutils_string_map_get(&m, NULL) == NULL
    && !rcutils_string_map_key_exists(&m, NULL) && rcutils_string_map_getn(&m, NULL, 1) == NULL && !rcutils_string_map_key_existsn(&m, NULL, 1)
    && rcutils_string_map_get_next_key(&m, "not a key of the map") == NULL, "null arguments and foreign keys are refused");
  rcutils_string_map_t other = rcutils_get_zero_initialized_string_map();
  VP_ASSERT(rcutils_string_map_init(NULL, 1, a) == RCUTILS_RET_INVALID_ARGUMENT && rcutils_string_map_fini(NULL) == RCUTILS_RET_INVALID_ARGUMENT
    && rcutils_string_map_get_size(NULL, &dummy) == RCUTILS_RET_INVALID_ARGUMENT && rcutils_string_map_get_size(&m, NULL) == RCUTILS_RET_INVALID_ARGUMENT
    && rcutils_string_map_get_capacity(NULL, &dummy) == RCUTILS_RET_INVALID_ARGUMENT && rcutils_string_map_get_capacity(&m, NULL) == RCUTILS_RET_INVALID_ARGUMENT
    && rcutils_string_map_reserve(NULL, 1) == RCUTILS_RET_INVALID_ARGUMENT && rcutils_string_map_clear(NULL) == RCUTILS_RET_INVALID_ARGUMENT
    && rcutils_string_map_set(NULL, "k", "v") == RCUTILS_RET_INVALID_ARGUMENT && rcutils_string_map_set_no_resize(NULL, "k", "v") == RCUTILS_RET_INVALID_ARGUMENT
    && rcutils_string_map_set_no_resize(&m, NULL, "v") == RCUTILS_RET_INVALID_ARGUMENT && rcutils_string_map_set_no_resize(&m, "k", NULL) == RCUTILS_RET_INVALID_ARGUMENT
    && rcutils_string_map_unset(NULL, "k") == RCUTILS_RET_INVALID_ARGUMENT && rcutils_string_map_get(NULL, "k") == NULL && rcutils_string_map_getn(NULL, "k", 1) == NULL
    && !rcutils_string_map_key_exists(NULL, "k") && !rcutils_string_map_key_existsn(NULL, "k", 1) && rcutils_string_map_get_next_key(NULL, NULL) == NULL
    && rcutils_string_map_copy(NULL, &m) == RCUTILS_RET_INVALID_ARGUMENT && rcutils_string_map_copy(&m, NULL) == RCUTILS_RET_INVALID_ARGUMENT
    && rcutils_string_map_copy(&other, &m) == RCUTILS_RET_STRING_MAP_INVALID && rcutils_string_map_copy(&m, &other) == RCUTILS_RET_STRING_MAP_INVALID,
    "a null map is refused by every operation");
  rcutils_allocator_t bad = a;
  bad.reallocate = NULL;
  VP_ASSERT(rcutils_string_map_init(&other, 1, bad) == RCUTILS_RET_INVALID_ARGUMENT && other.impl == NULL, "an incomplete allocator is refused");
  check_all(&m, false);
  VP_ASSERT(rcutils_string_map_fini(&m) == RCUTILS_RET_OK && m.impl == NULL, "fini succeeds");
  VP_ASSERT(vp_live == 0, "fini releases everything");
}
