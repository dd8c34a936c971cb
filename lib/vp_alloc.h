// Tracking allocator handed to the code under test as rcutils_allocator_t.
#ifndef VP_ALLOC_H_
#define VP_ALLOC_H_
#include "vp.h"
#include "rcutils/allocator.h"
// Failure policy.
enum {VP_NEVER_FAIL = 0, VP_ANY_FAIL = 1, VP_FAIL_FROM = 2, VP_FAIL_ONE = 3};
extern int vp_fail_mode;              // VP_ANY_FAIL: each request may fail, independently
extern size_t vp_fail_at;             // index of the (first) failing request for the last two modes
extern size_t vp_max_alloc;           // larger requests are refused
extern bool vp_zero_null;             // requests of zero bytes yield NULL, as they may
extern size_t vp_live;                // live blocks
extern size_t vp_requests;            // requests for memory made so far
extern size_t vp_failures;            // requests that were refused
rcutils_allocator_t vp_allocator(void);
void vp_alloc_arm(int mode, size_t at);   // resets the request counter and sets the policy
void vp_free(void * p);                   // releases a block handed out by the allocator
#endif
