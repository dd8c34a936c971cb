#include "vp_alloc.h"
int vp_fail_mode = VP_NEVER_FAIL;
size_t vp_fail_at = 0, vp_live = 0, vp_requests = 0, vp_failures = 0;
// threads under test share the counters
#define COUNT(c, d) __atomic_fetch_add(&(c), (d), __ATOMIC_SEQ_CST)
static char vp_state_obj;
#define STATE_OK(s) VP_ASSERT((s) == (void *)&vp_state_obj, "the allocator is always called with the state it came with")
bool vp_zero_null;                       // requests of zero bytes yield no block
size_t vp_max_alloc = (size_t)1 << 20;   // larger requests are refused, as a real allocator may
void vp_alloc_arm(int mode, size_t at)
{
  vp_fail_mode = mode; vp_fail_at = at; vp_requests = 0; vp_failures = 0;
}
static bool refuse(size_t size)
{
  size_t k = COUNT(vp_requests, 1);
  bool r = false;
  if (size > vp_max_alloc) {r = true;}
  else if (vp_fail_mode == VP_ANY_FAIL) {r = vp_choose(2) == 1;}
  else if (vp_fail_mode == VP_FAIL_FROM) {r = k >= vp_fail_at;}
  else if (vp_fail_mode == VP_FAIL_ONE) {r = k == vp_fail_at;}
  if (r) {COUNT(vp_failures, 1);}
  return r;
}
static void * a_allocate(size_t size, void * state)
{
  STATE_OK(state);
  if (size == 0 && vp_zero_null) {return NULL;}
  if (refuse(size)) {return NULL;}
  void * p = vp_heap_alloc(size);
  COUNT(vp_live, 1);
  return p;
}
static void a_deallocate(void * p, void * state)
{
  STATE_OK(state);
  if (p) {
    vp_heap_free(p);
    COUNT(vp_live, (size_t)-1);
  }
}
// realloc always moves, so that a stale pointer to the old block never goes unnoticed. A request of
// zero bytes releases the block and returns NULL, as glibc does.
static void * a_reallocate(void * p, size_t size, void * state)
{
  STATE_OK(state);
  if (!p) {return a_allocate(size, state);}
  size_t old = vp_heap_size(p);
  if (size == 0) {
    vp_heap_free(p);
    COUNT(vp_live, (size_t)-1);
    return NULL;
  }
  if (refuse(size)) {return NULL;}
  void * q = vp_heap_alloc(size);
  memcpy(q, p, old < size ? old : size);
  vp_heap_free(p);
  return q;
}
static void * a_zero_allocate(size_t n, size_t size, void * state)
{
  STATE_OK(state);
  if (size != 0 && n > SIZE_MAX / size) {
    COUNT(vp_requests, 1); COUNT(vp_failures, 1);
    return NULL;
  }
  if (n * size == 0 && vp_zero_null) {return NULL;}
  if (refuse(n * size)) {return NULL;}
  void * p = vp_heap_alloc(n * size);
  memset(p, 0, n * size);
  COUNT(vp_live, 1);
  return p;
}
void vp_free(void * p) {a_deallocate(p, &vp_state_obj);}
rcutils_allocator_t vp_allocator(void)
{
  rcutils_allocator_t a;
  a.allocate = a_allocate;
  a.deallocate = a_deallocate;
  a.reallocate = a_reallocate;
  a.zero_allocate = a_zero_allocate;
  a.state = &vp_state_obj;
  return a;
}
