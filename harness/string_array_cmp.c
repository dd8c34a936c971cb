// Comparison is lexicographic over the strings, then by size; sorting yields the ordered permutation, empty entries last.
#include "vp_alloc.h"
#include "rcutils/types/string_array.h"
extern inline rcutils_ret_t rcutils_string_array_sort(rcutils_string_array_t *);
#define MAXN 5
#define MAXL 3
static int sgn(int x) {return (x > 0) - (x < 0);}
static int ref(const char * a, const char * b)
{
  for (size_t i = 0;; ++i) {
    unsigned char x = (unsigned char)a[i], y = (unsigned char)b[i];
    if (x != y) {return x < y ? -1 : 1;}
    if (!x) {return 0;}
  }
}
static void fill(rcutils_string_array_t * s, rcutils_allocator_t * a, char * own[MAXN], size_t N, size_t L, bool holes)
{
  *s = rcutils_get_zero_initialized_string_array();
  size_t n = vp_choose((uint32_t)N + 1);
  VP_ASSERT(rcutils_string_array_init(s, n, a) == RCUTILS_RET_OK, "init");
  for (size_t i = 0; i < n; ++i) {
    if (holes && vp_choose(2)) {own[i] = NULL; continue;}
    size_t l;
    if (L > 15) {                       // long texts that differ near their ends only
      l = L - vp_choose(2);
      own[i] = s->data[i] = a->allocate(l + 1, a->state);
      memset(own[i], 'p', l);
      vp_string_len(own[i] + l - 1, 1);
      continue;
    }
    l = vp_choose((uint32_t)L + 1);
    own[i] = s->data[i] = a->allocate(l + 1, a->state);
    vp_string_len(s->data[i], l);
  }
}
void vp_main(void)
{
  size_t N = vp_param("N", 2), L = vp_param("L", 2);
  rcutils_allocator_t a = vp_allocator();
  rcutils_string_array_t x, y;
  char * ox[MAXN], * oy[MAXN];
  if (vp_param("sort", 0)) {
    fill(&x, &a, ox, N, L, true);
    size_t n = x.size;
    VP_ASSUME(n > 0);
    VP_ASSERT(rcutils_string_array_sort(&x) == RCUTILS_RET_OK && x.size == n, "sort succeeds");
    bool used[MAXN] = {0};
    for (size_t i = 0; i < n; ++i) {
      size_t j = 0;
      while (j < n && (used[j] || ox[j] != x.data[i])) {++j;}
      VP_ASSERT(j < n, "sorting permutes the entries");
      used[j] = true;
      if (i > 0) {
        VP_ASSERT(!(x.data[i - 1] == NULL && x.data[i] != NULL), "empty entries are last");
        if (x.data[i] && x.data[i - 1]) {VP_ASSERT(ref(x.data[i - 1], x.data[i]) <= 0, "entries ascend");}
      }
    }
    VP_COVER(n == N && x.data[0] == ox[n - 1], "moved");
    VP_ASSERT(rcutils_string_array_sort(NULL) == RCUTILS_RET_INVALID_ARGUMENT, "sort(NULL) refused");
  } else {
    fill(&x, &a, ox, N, L, vp_param("holes", 0));
    fill(&y, &a, oy, N, L, false);
    size_t m = x.size < y.size ? x.size : y.size, i = 0;
    int want = 0, res = 42;
    bool hole = false;
    for (; i < m && want == 0 && !hole; ++i) {
      if (!ox[i]) {hole = true;} else {want = ref(ox[i], oy[i]);}
    }
    if (want == 0) {want = (x.size > y.size) - (x.size < y.size);}
    rcutils_ret_t r = rcutils_string_array_cmp(&x, &y, &res);
    if (hole) {
      VP_ASSERT(r == RCUTILS_RET_ERROR, "an empty entry cannot be compared");
    } else {
      VP_ASSERT(r == RCUTILS_RET_OK && sgn(res) == want, "the result is the lexicographic order");
      VP_COVER(want < 0, "less"); VP_COVER(want == 0, "equal");
    }
    VP_ASSERT(rcutils_string_array_cmp(NULL, &y, &res) == RCUTILS_RET_INVALID_ARGUMENT, "null refused");
    VP_ASSERT(rcutils_string_array_cmp(&x, NULL, &res) == RCUTILS_RET_INVALID_ARGUMENT, "null refused");
    VP_ASSERT(rcutils_string_array_cmp(&x, &y, NULL) == RCUTILS_RET_INVALID_ARGUMENT, "null refused");
    VP_ASSERT(rcutils_string_array_fini(&y) == RCUTILS_RET_OK, "fini");
  }
  VP_ASSERT(rcutils_string_array_fini(&x) == RCUTILS_RET_OK && vp_live == 0, "fini releases everything");
}
