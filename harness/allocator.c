// Validity of allocators, reallocf, and the default allocator over a heap that may refuse any request.
#include "vp_alloc.h"
#include <stdlib.h>
static size_t blocks; static bool counting, refused;
#ifdef VP_NATIVE
void * VP_REAL(malloc)(size_t); void VP_REAL(free)(void *);
#else
#define __real_malloc vp_heap_alloc
#define __real_free vp_heap_free
#endif
void * VP_STUB(malloc)(size_t n)
{
  if (counting) {
    refused = vp_choose(2);
    if (refused) {return NULL;}
    blocks++;
  }
  void * p = __real_malloc(n);
  memset(p, 0xEE, n);
  return p;
}
void VP_STUB(free)(void * p) {if (counting && p) {blocks--;} __real_free(p);}
void * VP_STUB(calloc)(size_t n, size_t s)
{
  void * p = n > SIZE_MAX / s ? NULL : VP_STUB(malloc)(n * s);
  if (p) {memset(p, 0, n * s);}
  return p;
}
void * VP_STUB(realloc)(void * p, size_t n)
{
  if (!p) {return VP_STUB(malloc)(n);}
  size_t old = vp_heap_size(p);
  void * q = VP_STUB(malloc)(n);
  if (!q) {return NULL;}
  memcpy(q, p, old < n ? old : n);
  VP_STUB(free)(p);
  return q;
}
void vp_main(void)
{
  rcutils_allocator_t a = vp_allocator(), z = rcutils_get_zero_initialized_allocator();
  VP_ASSERT(!z.allocate && !z.deallocate && !z.reallocate && !z.zero_allocate && !z.state, "zero initialized");
  VP_ASSERT(!rcutils_allocator_is_valid(&z) && !rcutils_allocator_is_valid(NULL), "invalid allocators are recognized");
  rcutils_allocator_t b = a;
  bool m0 = vp_choose(2), m1 = vp_choose(2), m2 = vp_choose(2), m3 = vp_choose(2), m4 = vp_choose(2);
  if (m0) {b.allocate = NULL;}
  if (m1) {b.deallocate = NULL;}
  if (m2) {b.reallocate = NULL;}
  if (m3) {b.zero_allocate = NULL;}
  if (m4) {b.state = NULL;}
  bool valid = !(m0 || m1 || m2 || m3);
  VP_ASSERT(rcutils_allocator_is_valid(&b) == valid, "an allocator is valid when all four functions are there, whatever its state");
  // reallocf
  size_t n = vp_choose(5), m = vp_choose(7);
  bool huge = m == 6;
  if (huge) {m = vp_in64(); VP_ASSUME(m > (size_t)1 << 20);}       // always refused
  uint8_t keep[8];
  vp_bytes(keep, 8);
  uint8_t * p = vp_choose(2) ? a.allocate(n, a.state) : NULL;
  bool null = p == NULL;
  if (p) {memcpy(p, keep, n);}
  vp_alloc_arm(VP_ANY_FAIL, 0);
  size_t live0 = vp_live;
  if (!valid) {
    uint8_t * q = rcutils_reallocf(p, m, &b);
    VP_ASSERT(q == NULL && vp_live == live0, "an invalid allocator gives NULL and releases nothing");
    if (p) {VP_ASSERT(vp_same(p, keep, n), "the block is untouched");}
    VP_ASSERT(rcutils_reallocf(p, m, NULL) == NULL && vp_live == live0, "so does no allocator");
    vp_free(p);
  } else if (m == 0) {
    VP_ASSERT(rcutils_reallocf(p, 0, &a) == NULL && vp_live == 0, "reallocating to nothing releases the block, once");
  } else {
    uint8_t * q = rcutils_reallocf(p, m, &a);
    if (q == NULL) {
      VP_ASSERT(vp_failures == 1 && vp_live == 0, "when memory is refused the old block is released");
      VP_COVER(!null, "refused"); VP_COVER(huge, "too large");
    } else {
      VP_ASSERT(vp_failures == 0 && vp_live == 1, "one block in place of the old one");
      size_t common = n < m ? n : m;
      if (!null && common > 0) {
        VP_ASSERT(vp_same(q, keep, common), "with its contents");
        size_t i = (size_t)vp_range(0, common - 1);
        VP_ASSERT(q[i] == keep[i], "each byte of them");
      }
      q[m - 1] = 1;
      vp_free(q);
    }
  }
  VP_ASSERT(vp_live == 0, "nothing else is allocated");
  vp_alloc_arm(VP_NEVER_FAIL, 0);
  if (huge) {return;}
  // default allocator
  rcutils_allocator_t d = rcutils_get_default_allocator(), e = rcutils_get_default_allocator();
  VP_ASSERT(rcutils_allocator_is_valid(&d), "the default allocator is valid");
  VP_ASSERT(d.allocate == e.allocate && d.deallocate == e.deallocate && d.reallocate == e.reallocate && d.zero_allocate == e.zero_allocate && d.state == e.state,
    "and always the same");
  void * st = vp_choose(2) ? d.state : (void *)&a;      // its functions ignore the state
  n = 1 + vp_choose(4);
  counting = true;
  bool zeroed = vp_choose(2);
  uint8_t * x = zeroed ? d.zero_allocate(n, 2, st) : d.allocate(2 * n, st);
  VP_ASSERT((x == NULL) == refused, "memory is given exactly when the heap gives it");
  if (x) {
    for (size_t i = 0; i < 2 * n; ++i) {if (zeroed) {VP_ASSERT(x[i] == 0, "zero_allocate gives zeroed elements");} x[i] = keep[i];}
    uint8_t * y = d.reallocate(x, 2 * n + 3, st);
    VP_ASSERT((y == NULL) == refused, "reallocation succeeds exactly when the heap allows it");
    if (!y) {y = x;} else {y[2 * n + 2] = 1; VP_COVER(1, "reallocated");}
    VP_ASSERT(blocks == 1 && vp_same(y, keep, 2 * n), "reallocate keeps the contents; on failure, the block");
    d.deallocate(y, st);
  }
  d.deallocate(NULL, st);
  VP_ASSERT(blocks == 0, "deallocate releases the block");
  counting = false;
}
