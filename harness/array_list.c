// Histories of operations on an array list against a byte-exact model.
#include "vp_alloc.h"
#include "rcutils/types/array_list.h"
#define MAXN 12
#define MAXD 4
static uint8_t model[MAXN][MAXD];
static size_t size_;
static rcutils_array_list_t l;
static size_t D;
static void same_contents(void)
{
  size_t n = 99;
  VP_ASSERT(rcutils_array_list_get_size(&l, &n) == RCUTILS_RET_OK, "get_size succeeds");
  VP_ASSERT(n == size_, "the size is the number of elements added minus those removed");
  for (size_t i = 0; i < size_; ++i) {
    uint8_t out[MAXD + 1];
    out[D] = 0x5c;
    VP_ASSERT(rcutils_array_list_get(&l, i, out) == RCUTILS_RET_OK, "get succeeds for every index below the size");
    VP_ASSERT(vp_same(out, model[i], D), "every element reads back the bytes last stored in it");
    VP_ASSERT(out[D] == 0x5c, "get writes one element only");
  }
}
void vp_main(void)
{
  size_t K = vp_param("K", 4), fail = vp_param("fail", 0);
  rcutils_allocator_t a = vp_allocator();
  D = 1 + vp_choose((uint32_t)vp_param("D", 3));
  size_t cap = 1 + vp_choose((uint32_t)vp_param("cap", 3));
  l = rcutils_get_zero_initialized_array_list();
  size_t dummy;
  uint8_t el[MAXD];
  VP_ASSERT(rcutils_array_list_fini(&l) == RCUTILS_RET_NOT_INITIALIZED, "fini needs an initialized list");
  VP_ASSERT(rcutils_array_list_add(&l, el) == RCUTILS_RET_NOT_INITIALIZED, "add needs an initialized list");
  VP_ASSERT(rcutils_array_list_get_size(&l, &dummy) == RCUTILS_RET_NOT_INITIALIZED, "get_size needs an initialized list");
  VP_ASSERT(rcutils_array_list_init(&l, 0, D, &a) == RCUTILS_RET_INVALID_ARGUMENT && l.impl == NULL, "a capacity of zero is refused");
  VP_ASSERT(rcutils_array_list_init(&l, cap, 0, &a) == RCUTILS_RET_INVALID_ARGUMENT && l.impl == NULL, "elements of zero bytes are refused");
  rcutils_allocator_t bad = a;
  bad.zero_allocate = NULL;
  VP_ASSERT(rcutils_array_list_init(&l, cap, D, &bad) == RCUTILS_RET_INVALID_ARGUMENT && rcutils_array_list_init(&l, cap, D, NULL) == RCUTILS_RET_INVALID_ARGUMENT && l.impl == NULL,
    "a missing or incomplete allocator is refused");
  VP_ASSERT(rcutils_array_list_set(&l, 0, el) == RCUTILS_RET_NOT_INITIALIZED && rcutils_array_list_get(&l, 0, el) == RCUTILS_RET_NOT_INITIALIZED &&
    rcutils_array_list_remove(&l, 0) == RCUTILS_RET_NOT_INITIALIZED, "nothing works on an uninitialized list");
  if (fail) {vp_alloc_arm(VP_ANY_FAIL, 0);}
  rcutils_ret_t r = rcutils_array_list_init(&l, cap, D, &a);
  if (r != RCUTILS_RET_OK) {
    VP_ASSERT(r == RCUTILS_RET_BAD_ALLOC && vp_failures > 0, "init fails only when memory is refused");
    VP_ASSERT(l.impl == NULL && vp_live == 0, "a failed init leaves the list uninitialized and leaks nothing");
    VP_COVER(1, "failed init");
    return;
  }
  VP_ASSERT(rcutils_array_list_init(&l, cap, D, &a) == RCUTILS_RET_INVALID_ARGUMENT, "a list is not initialized twice");
  for (size_t k = 0; k < K; ++k) {
    size_t f0 = vp_failures;
    uint32_t op = vp_choose(5);
    vp_bytes(el, D);
    switch (op) {
      case 0:
        r = rcutils_array_list_add(&l, el);
        if (vp_failures == f0) {
          VP_ASSERT(r == RCUTILS_RET_OK, "add succeeds when memory is available");
          memcpy(model[size_++], el, D);
          VP_COVER(size_ > 2 * cap, "grown twice");
        } else {
          VP_ASSERT(r == RCUTILS_RET_BAD_ALLOC, "add reports refused memory");
          VP_COVER(size_ > 0, "failed add");
        }
        break;
      case 1: {
          uint64_t i = vp_in64();
          r = rcutils_array_list_set(&l, i, el);
          if (i < size_) {
            VP_ASSERT(r == RCUTILS_RET_OK, "set succeeds for an index below the size");
            i = vp_concretize(i);
            memcpy(model[i], el, D);
          } else {
            VP_ASSERT(r == RCUTILS_RET_INVALID_ARGUMENT, "set refuses an index out of bounds");
          }
          break;
        }
      case 2: {
          uint64_t i = vp_in64();
          r = rcutils_array_list_remove(&l, i);
          if (i < size_) {
            VP_ASSERT(r == RCUTILS_RET_OK, "remove succeeds for an index below the size");
            i = vp_concretize(i);
            for (size_t j = i; j + 1 < size_; ++j) {memcpy(model[j], model[j + 1], MAXD);}
            --size_;
            VP_COVER(i + 1 < size_, "removed from the middle");
          } else {
            VP_ASSERT(r == RCUTILS_RET_INVALID_ARGUMENT, "remove refuses an index out of bounds");
          }
          break;
        }
      case 3: {
          uint64_t i = vp_in64();
          VP_ASSUME(i >= size_);
          uint8_t out[MAXD], before[MAXD];
          memcpy(out, el, D); memcpy(before, el, D);
          VP_ASSERT(rcutils_array_list_get(&l, i, out) == RCUTILS_RET_INVALID_ARGUMENT, "get refuses an index out of bounds");
          VP_ASSERT(vp_same(out, before, D), "a refused get writes nothing");
          break;
        }
      default:
        VP_ASSERT(rcutils_array_list_add(&l, NULL) == RCUTILS_RET_INVALID_ARGUMENT, "add refuses a null element");
        VP_ASSERT(rcutils_array_list_set(&l, 0, NULL) == RCUTILS_RET_INVALID_ARGUMENT, "set refuses a null element");
        VP_ASSERT(rcutils_array_list_get(&l, 0, NULL) == RCUTILS_RET_INVALID_ARGUMENT, "get refuses a null destination");
        VP_ASSERT(rcutils_array_list_get_size(&l, NULL) == RCUTILS_RET_INVALID_ARGUMENT, "get_size refuses a null destination");
        VP_ASSERT(rcutils_array_list_init(NULL, 1, D, &a) == RCUTILS_RET_INVALID_ARGUMENT && rcutils_array_list_add(NULL, el) == RCUTILS_RET_INVALID_ARGUMENT &&
          rcutils_array_list_set(NULL, 0, el) == RCUTILS_RET_INVALID_ARGUMENT && rcutils_array_list_get(NULL, 0, el) == RCUTILS_RET_INVALID_ARGUMENT &&
          rcutils_array_list_remove(NULL, 0) == RCUTILS_RET_INVALID_ARGUMENT && rcutils_array_list_get_size(NULL, &dummy) == RCUTILS_RET_INVALID_ARGUMENT &&
          rcutils_array_list_fini(NULL) == RCUTILS_RET_INVALID_ARGUMENT, "a null list is refused by every operation");
        break;
    }
    same_contents();
  }
  VP_ASSERT(rcutils_array_list_fini(&l) == RCUTILS_RET_OK && l.impl == NULL, "fini succeeds");
  VP_ASSERT(vp_live == 0, "fini releases everything");
  VP_ASSERT(rcutils_array_list_fini(&l) == RCUTILS_RET_NOT_INITIALIZED, "a finalized list is uninitialized again");
}
