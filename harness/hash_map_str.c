// The hash and comparison functions for keys that are C strings.
#include "vp.h"
#include "rcutils/types/hash_map.h"
static char * word(size_t max, size_t * n)         // up to max characters, perhaps after many others
{
  static const size_t lens[] = {30, 31, 62, 63, 126, 127, 254, 255, 300, 1023, 5000};
  size_t p = vp_param("long", 0) ? lens[vp_choose(11)] : 0, k = vp_choose((uint32_t)max + 1);
  char * s = vp_heap_alloc(p + k + 1);
  memset(s, 'p', p);
  vp_string_len(s + p, k);
  *n = p + k;
  return s;
}
void vp_main(void)
{
  size_t L = vp_param("L", 4), n1, n2;
  char * a = word(L, &n1), * b = word(L, &n2);
  const char * pa = a, * pb = b;
  bool same = n1 == n2 && vp_same(a, b, n1);
  VP_ASSERT((rcutils_hash_map_string_cmp_func(&pa, &pb) == 0) == same, "strings compare equal exactly when their characters are");
  VP_ASSERT(!same || rcutils_hash_map_string_hash_func(&pa) == rcutils_hash_map_string_hash_func(&pb), "equal strings have equal hashes, wherever they are");
  VP_ASSERT((rcutils_hash_map_string_cmp_func(&pa, &pb) < 0) == (rcutils_hash_map_string_cmp_func(&pb, &pa) > 0), "the comparison is antisymmetric");
  VP_ASSERT(rcutils_hash_map_string_hash_func(&pa) == rcutils_hash_map_string_hash_func(&pa), "hashing is a function of the text");
  VP_COVER(same && n1 == L, "equal"); VP_COVER(!same && n1 == n2, "different");
}
