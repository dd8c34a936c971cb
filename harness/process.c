// The name of the executable, for any invocation name, and the process id.
#include "vp_alloc.h"
#include <errno.h>
#include "rcutils/process.h"
#ifndef VP_NATIVE
char * program_invocation_name; char * program_invocation_short_name;
#endif
static int the_pid;
int VP_STUB(getpid)(void) {return the_pid;}
void vp_main(void)
{
  size_t n, L = vp_param("L", 5);
  char * name = vp_param("long", 0) ? vp_heap_text(L, &n) : vp_heap_string_of(L, "/.ab", &n);
  char * before = program_invocation_name;
  program_invocation_name = name;
  vp_alloc_arm(VP_ANY_FAIL, 0);
  char * r = rcutils_get_executable_name(vp_allocator());
  program_invocation_name = before;
  if (!r) {
    VP_ASSERT(vp_failures > 0 && vp_live == 0, "fails only when memory is refused, leaking nothing");
    VP_COVER(vp_requests == 2, "second request refused");
  } else {
    size_t e = n, b;
    while (e > 1 && name[e - 1] == '/') {--e;}
    b = e;
    if (!(e == 1 && name[0] == '/')) {while (b > 0 && name[b - 1] != '/') {--b;}} else {b = 0;}
    if (n > 0) {
      VP_ASSERT(vp_same(r, name + b, e - b) && r[e - b] == '\0', "the last component of the invocation name");
    } else {
      VP_ASSERT(r[0] == '\0' || (r[0] == '.' && r[1] == '\0'), "an empty invocation name has no last component");
      VP_COVER(1, "empty");
    }
    VP_ASSERT(vp_live == 1, "one block is handed out");
    VP_COVER(b > 0 && e < n, "directory and trailing slash");
    vp_free(r);
  }
  vp_alloc_arm(VP_NEVER_FAIL, 0);
  rcutils_allocator_t bad = vp_allocator();
  bad.allocate = NULL;
  VP_ASSERT(rcutils_get_executable_name(bad) == NULL && vp_live == 0, "an incomplete allocator is refused");
  the_pid = (int)vp_in32();
  VP_ASSERT(rcutils_get_pid() == the_pid, "the process id is that of the system");
}
