// Fault injection counts down once per fault point, whatever threads pass them, and fails exactly one.
#include "vp_alloc.h"
#include "vp_err.h"
#include "vp_capture.h"
#include "rcutils/error_handling.h"
#include "rcutils/macros.h"
#include "rcutils/testing/fault_injection.h"
static int point(void) {RCUTILS_CAN_RETURN_WITH_ERROR_OF(7); return 0;}
static int code(void) {int r = 0; RCUTILS_CAN_FAIL_WITH(r = 9; ) return r;}
static int msg(void) {RCUTILS_CAN_SET_MSG_AND_RETURN_WITH_ERROR_OF(5); return 0;}
static void history(void)
{
  size_t K = vp_param("K", 4);
  VP_ASSERT(rcutils_fault_injection_get_count() == RCUTILS_FAULT_INJECTION_NEVER_FAIL && !rcutils_fault_injection_is_test_complete() &&
    point() == 0 && code() == 0, "nothing fails at first");
  int64_t model = -1;
  for (size_t k = 0; k < K; ++k) {
    uint32_t op = vp_choose(6);
    int64_t fails = model == 0;
    int64_t next = model > -1 ? model - 1 : model;
    switch (op) {
      case 0: model = (int64_t)vp_in64(); rcutils_fault_injection_set_count(model); break;
      case 1: VP_ASSERT(point() == (fails ? 7 : 0), "a fault point fails exactly when the count is zero"); model = next; VP_COVER(fails && k == 2, "failed"); break;
      case 2: VP_ASSERT(code() == (fails ? 9 : 0), "and runs the failure code"); model = next; break;
      case 3: {
          VP_ASSERT(msg() == (fails ? 5 : 0), "with a message when asked for");
          VP_ASSERT(rcutils_error_is_set() == fails, "which is the error state"); rcutils_reset_error();
          model = next; break;
        }
      case 4: VP_ASSERT(_rcutils_fault_injection_maybe_fail() == model, "the count is returned"); model = next; break;
      default: {
          int r = 3;
          int64_t was = model;
          RCUTILS_NO_FAULT_INJECTION(r = point());
          VP_ASSERT(r == 0, "without fault injection nothing fails");
          model = was; break;
        }
    }
    VP_ASSERT(rcutils_fault_injection_get_count() == model, "every fault point counts once, negative counts stay");
    VP_ASSERT(rcutils_fault_injection_is_test_complete() == (model > -1), "the test is over when the count was not used up");
  }
}
static void test(void)
{
  uint32_t n = vp_choose(5);              // fault points
  size_t runs = 0; uint32_t failed = 0;
  RCUTILS_FAULT_INJECTION_TEST({
    runs++;
    for (uint32_t i = 0; i < n; ++i) {
      if (point()) {VP_ASSERT(i + 1 == runs, "each run fails at the next point"); failed++; break;}
    }
  });
  VP_ASSERT(failed == n && runs == n + 1, "each fault point fails in one run, and none in the last");
  VP_ASSERT(rcutils_fault_injection_get_count() == RCUTILS_FAULT_INJECTION_NEVER_FAIL, "then nothing fails");
}
#define NT 3
static uint32_t calls[NT]; static uint32_t failures[NT];
static void run(void * p)
{
  uint32_t i = (uint32_t)(uintptr_t)p;
  for (uint32_t k = 0; k < calls[i]; ++k) {vp_yield(); if (point()) {failures[i]++;}}
}
static void threads(void)
{
  uint32_t n = (uint32_t)vp_param("N", 2), K = (uint32_t)vp_param("K", 2), total = 0;
  for (uint32_t i = 0; i < n; ++i) {calls[i] = K; total += K;}
  int64_t start = (int64_t)vp_in64();
  VP_ASSUME((start >= -1) & (start <= (int64_t)total + 1));
  rcutils_fault_injection_set_count(start);
  for (uint32_t i = 1; i < n; ++i) {vp_spawn(run, (void *)(uintptr_t)i);}
  run(NULL);
  vp_join_all();
  uint32_t f = 0;
  for (uint32_t i = 0; i < n; ++i) {f += failures[i];}
  VP_ASSERT(f == ((start >= 0 && start < total) ? 1u : 0u), "exactly one of the calls of all threads fails");
  VP_ASSERT(rcutils_fault_injection_get_count() == (start < total ? -1 : start - total), "every call of every thread counts once");
  VP_COVER(failures[1] == 1 && start == 1, "the other thread fails");
}
void vp_main(void)
{
  switch (vp_param("mode", 0)) {case 0: history(); break; case 1: test(); break; default: threads(); break;}
}
