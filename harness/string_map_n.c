// Lookups with keys given by length, and copies between maps.
#include "vp_alloc.h"
#include "rcutils/types/string_map.h"
void vp_main(void)
{
  size_t L = vp_param("L", 3), fail = vp_param("fail", 0);
  rcutils_allocator_t a = vp_allocator();
  rcutils_string_map_t m = rcutils_get_zero_initialized_string_map(), d = rcutils_get_zero_initialized_string_map();
  char k1[8], k2[8], v1[4], v2[4];
  size_t n1 = vp_string(k1, L), n2 = vp_string(k2, L > 2 ? 2 : L);
  vp_string(v1, 1); vp_string(v2, 1);
  bool same = n1 == n2 && vp_same(k1, k2, n1);
  VP_ASSERT(rcutils_string_map_init(&m, 0, a) == RCUTILS_RET_OK && rcutils_string_map_init(&d, vp_choose(2), a) == RCUTILS_RET_OK, "init");
  VP_ASSERT(rcutils_string_map_set(&m, k1, v1) == RCUTILS_RET_OK, "set succeeds");
  if (vp_param("copy", 0)) {
    VP_ASSERT(rcutils_string_map_set(&d, k2, v2) == RCUTILS_RET_OK, "set succeeds");
    char k3[4], v3[4];
    k3[0] = 'z'; k3[1] = '\0'; v3[0] = '3'; v3[1] = '\0';
    bool s13 = n1 == 1 && vp_same(k1, k3, 2), s23 = n2 == 1 && vp_same(k2, k3, 2);
    VP_ASSERT(rcutils_string_map_set(&m, k3, v3) == RCUTILS_RET_OK, "set succeeds");
    if (fail) {vp_alloc_arm(VP_ANY_FAIL, 0);}
    rcutils_ret_t r = rcutils_string_map_copy(&m, &d);
    VP_ASSERT(r == RCUTILS_RET_OK || (r == RCUTILS_RET_BAD_ALLOC && vp_failures > 0), "copy fails only for want of memory");
    VP_ASSERT(r != RCUTILS_RET_OK || vp_failures == 0, "copy reports refused memory");
    if (r == RCUTILS_RET_OK) {
      const char * g1 = rcutils_string_map_get(&d, k1), * g3 = rcutils_string_map_get(&d, k3), * g2 = rcutils_string_map_get(&d, k2);
      VP_ASSERT(g3 && vp_same(g3, v3, 2) && g1 && (s13 || vp_same(g1, v1, v1[0] ? 2 : 1)), "copy brings over every pair");
      VP_ASSERT(g2 && (same || s23 || vp_same(g2, v2, v2[0] ? 2 : 1)), "copy leaves other pairs of the destination alone");
      const char * orig = rcutils_string_map_get(&m, k1);
      VP_ASSERT(orig && orig != g1, "a copy shares nothing with its source");
      size_t n = 0;
      VP_ASSERT(rcutils_string_map_get_size(&d, &n) == RCUTILS_RET_OK && n == (s13 ? 1u : 2u) + (same || s23 ? 0u : 1u), "copy adds nothing else");
      VP_COVER(n == 3, "three keys"); VP_COVER(same, "overwritten");
    }
    const char * self = rcutils_string_map_get(&m, k1);
    vp_alloc_arm(VP_NEVER_FAIL, 0);
    VP_ASSERT(rcutils_string_map_set(&m, k1, self) == RCUTILS_RET_OK, "a value of the map can be set again");
    self = rcutils_string_map_get(&m, k1);
    VP_ASSERT(self && (s13 || vp_same(self, v1, v1[0] ? 2 : 1)), "a value of the map that is set again is kept");
  } else {
    VP_ASSERT(rcutils_string_map_set(&m, k2, v2) == RCUTILS_RET_OK, "set succeeds");
    // exactly n bytes, without a terminating null byte
    size_t n = vp_choose((uint32_t)L + 1);
    char * q = (char *)vp_heap_alloc(n);
    for (size_t i = 0; i < n; ++i) {q[i] = (char)vp_in8(); VP_ASSUME(q[i] != 0);}
    bool is1 = n == n1 && vp_same(q, k1, n), is2 = n == n2 && vp_same(q, k2, n);
    const char * g = rcutils_string_map_getn(&m, q, n);
    VP_ASSERT(rcutils_string_map_key_existsn(&m, q, n) == (is1 || is2), "existsn finds exactly the keys with these characters");
    VP_ASSERT((g != NULL) == (is1 || is2), "getn finds exactly the keys with these characters");
    if (is2) {VP_ASSERT(vp_same(g, v2, v2[0] ? 2 : 1), "getn gives the value of the key");} else if (is1) {
      VP_ASSERT(vp_same(g, v1, v1[0] ? 2 : 1), "getn gives the value of the key");
    }
    VP_COVER(is1 && !is2, "found first"); VP_COVER(is2 && !is1, "found second"); VP_COVER(!is1 && !is2 && n == n1, "not found");
    vp_heap_free(q);
  }
  VP_ASSERT(rcutils_string_map_fini(&m) == RCUTILS_RET_OK && rcutils_string_map_fini(&d) == RCUTILS_RET_OK && vp_live == 0, "fini releases everything");
}
