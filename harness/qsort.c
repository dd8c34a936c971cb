// Sorting with argument validation.
#include "vp.h"
#include "rcutils/qsort.h"
static size_t W;
static int desc;
static const uint8_t * lo, * hi;
static int cmp(const void * x, const void * y)
{
  VP_ASSERT((const uint8_t *)x >= lo && (const uint8_t *)x < hi, "only elements are compared");
  const uint8_t * a = x, * b = y;
  int r = (a[0] > b[0]) - (a[0] < b[0]);
  return desc ? -r : r;
}
void vp_main(void)
{
  if (vp_param("many", 0)) {
    // many elements, all but two of them concrete
    static const size_t counts[] = {8, 16, 17, 33, 64, 100};
    size_t m = counts[vp_choose(6)], c = 0, pattern = vp_choose(3);
    W = 1;
    uint8_t * q = vp_heap_alloc(m), seen[256] = {0}, a = vp_in8(), b = 5;
    for (size_t i = 0; i < m; ++i) {q[i] = pattern == 0 ? (uint8_t)(m - i) : pattern == 1 ? (uint8_t)(i * 37 % m) : (uint8_t)(i % 3); seen[q[i]]++;}
    seen[q[m / 3]]--; seen[q[m - 1]]--;
    q[m / 3] = a; q[m - 1] = b;
    lo = vp_engine() ? q : 0; hi = vp_engine() ? q + m : (const uint8_t *)UINTPTR_MAX;
    VP_ASSERT(rcutils_qsort(q, m, 1, cmp) == RCUTILS_RET_OK, "sorting succeeds");
    uint8_t v = (uint8_t)(vp_choose(2) ? vp_choose(3) * 16 + 1 : 0);
    for (size_t i = 0; i < m; ++i) {
      c += q[i] == v;
      if (i > 0) {VP_ASSERT(q[i - 1] <= q[i], "elements are in order");}
    }
    VP_ASSERT(c == (size_t)seen[v] + (a == v) + (b == v), "the elements are the same ones");
    return;
  }
  size_t N = vp_param("N", 4), n = vp_choose((uint32_t)N + 1);
  W = 1 + vp_choose(2);
  desc = (int)vp_choose(2);
  uint8_t * p = vp_heap_alloc(n * W), orig[16];
  for (size_t i = 0; i < n; ++i) {
    p[i * W] = orig[i] = vp_in8();
    if (W == 2) {p[i * W + 1] = (uint8_t)i;}
  }
  uint8_t tmp[64];
  lo = p; hi = p + n * W;
  if (!vp_engine()) {lo = 0; hi = (const uint8_t *)UINTPTR_MAX;}       // libc may sort a copy
  VP_ASSERT(rcutils_qsort(p, n, W, NULL) == RCUTILS_RET_INVALID_ARGUMENT, "a null comparison is refused");
  VP_ASSERT(rcutils_qsort(NULL, n, W, cmp) == (n > 1 ? RCUTILS_RET_INVALID_ARGUMENT : RCUTILS_RET_OK), "a null array of more than one element is refused");
  for (size_t i = 0; i < n; ++i) {VP_ASSERT(p[i * W] == orig[i], "refused calls change nothing");}
  VP_ASSERT(rcutils_qsort(p, n, W, cmp) == RCUTILS_RET_OK, "sorting succeeds");
  uint8_t v = vp_in8();
  size_t c0 = 0, c1 = 0;
  for (size_t i = 0; i < n; ++i) {
    c0 += orig[i] == v; c1 += p[i * W] == v;
    if (i > 0) {VP_ASSERT(desc ? p[(i - 1) * W] >= p[i * W] : p[(i - 1) * W] <= p[i * W], "elements are in order");}
    if (W == 2) {VP_ASSERT(p[i * W + 1] < n && orig[p[i * W + 1]] == p[i * W], "elements move as a whole");}
  }
  VP_ASSERT(c0 == c1, "the elements are the same ones");
  (void)tmp;
}
