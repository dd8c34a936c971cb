// Histories of resizes on a string array that owns strings; comparison; sorting.
#include "vp_alloc.h"
#include "rcutils/types/string_array.h"
#define MAXN 6
static char * put(rcutils_allocator_t * a, uint8_t tag)
{
  char * s = a->allocate(2, a->state);
  if (s) {s[0] = (char)tag; s[1] = '\0';}
  return s;
}
void vp_main(void)
{
  size_t K = vp_param("K", 3), N = vp_param("N", 4);
  rcutils_allocator_t a = vp_allocator();
  rcutils_string_array_t s = rcutils_get_zero_initialized_string_array();
  VP_ASSERT(s.size == 0 && s.data == NULL, "zero initialized");
  VP_ASSERT(rcutils_string_array_fini(&s) == RCUTILS_RET_OK, "an empty array can be finalized");
  VP_ASSERT(rcutils_string_array_init(&s, 1, NULL) == RCUTILS_RET_INVALID_ARGUMENT, "null allocator refused");
  VP_ASSERT(rcutils_string_array_init(NULL, 1, &a) == RCUTILS_RET_INVALID_ARGUMENT, "null array refused");
  VP_ASSERT(rcutils_string_array_fini(NULL) == RCUTILS_RET_INVALID_ARGUMENT, "fini(NULL) refused");
  VP_ASSERT(rcutils_string_array_resize(NULL, 1) == RCUTILS_RET_INVALID_ARGUMENT, "resize(NULL) refused");
  vp_zero_null = vp_choose(2);
  int fail = (int)vp_param("fail", 0);
  if (fail) {vp_alloc_arm(VP_ANY_FAIL, 0);}
  size_t n = vp_choose((uint32_t)N + 1);
  rcutils_ret_t r = rcutils_string_array_init(&s, n, &a);
  if (r != RCUTILS_RET_OK) {
    VP_ASSERT(r == RCUTILS_RET_BAD_ALLOC && vp_failures > 0 && vp_live == 0, "init fails only when memory is refused");
    VP_ASSERT(rcutils_string_array_fini(&s) == RCUTILS_RET_OK && vp_live == 0, "a failed init can be finalized");
    return;
  }
  VP_ASSERT(s.size == n, "init provides the size asked for");
  char * mine[MAXN] = {0};
  for (size_t i = 0; i < n; ++i) {VP_ASSERT(s.data[i] == NULL, "entries start out empty");}
  for (size_t k = 0; k < K; ++k) {
    // fill some of the empty entries
    int mode = vp_fail_mode; vp_fail_mode = VP_NEVER_FAIL;
    for (size_t i = 0; i < n; ++i) {
      if (!mine[i] && vp_choose(2)) {mine[i] = s.data[i] = put(&a, (uint8_t)('a' + i));}
    }
    vp_fail_mode = mode;
    size_t want = vp_choose((uint32_t)N + 1), f0 = vp_failures, live0 = vp_live, kept = 0;
    char ** d0 = s.data;
    for (size_t i = want; i < n; ++i) {kept += mine[i] != NULL;}
    bool had_data = s.data != NULL;
    r = rcutils_string_array_resize(&s, want);
    if (vp_failures != f0) {
      VP_ASSERT(r == RCUTILS_RET_BAD_ALLOC, "refused memory is reported");
      VP_ASSERT(s.size == n && s.data == d0 && vp_live == live0, "a failed resize changes nothing");
      VP_COVER(want < n, "shrinking failed");
      VP_COVER(want > n, "growing failed");
    } else {
      VP_ASSERT(r == RCUTILS_RET_OK && s.size == want, "resize provides the size asked for");
      size_t grown = (!had_data && want > 0), gone = had_data && s.data == NULL;
      VP_ASSERT(vp_live == live0 - kept + grown - gone, "strings of removed entries are reclaimed, all others kept");
      for (size_t i = want; i < n; ++i) {mine[i] = NULL;}
      n = want;
    }
    for (size_t i = 0; i < n; ++i) {
      VP_ASSERT(s.data[i] == mine[i], "kept entries keep their string and new entries are empty");
      if (mine[i]) {VP_ASSERT(s.data[i][0] == (char)('a' + i) && s.data[i][1] == '\0', "the string is intact");}
    }
  }
  VP_ASSERT(rcutils_string_array_fini(&s) == RCUTILS_RET_OK && s.size == 0 && s.data == NULL, "fini empties the array");
  VP_ASSERT(vp_live == 0, "fini releases the array and every string in it");
}
