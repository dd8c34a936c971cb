// C13: error states of threads are independent, under every interleaving of their calls.
#include "vp_alloc.h"
#include "vp_capture.h"
#include "rcutils/error_handling.h"
#define NT 3
typedef struct {bool set; char c; size_t line; const rcutils_error_state_t * st; unsigned ops[4];} me_t;
static me_t me[NT];
static uint64_t K;
static void check_(me_t * m)
{
  VP_ASSERT(rcutils_error_is_set() == m->set, "whether a thread has an error depends on its own calls only");
  if (!m->set) {
    VP_ASSERT(rcutils_get_error_state() == NULL, "a thread without an error sees no state");
    rcutils_error_string_t s = rcutils_get_error_string();
    VP_ASSERT(vp_same(s.str, "error not set", 14), "a thread without an error has the default string");
    return;
  }
  const rcutils_error_state_t * st = rcutils_get_error_state();
  VP_ASSERT(st != NULL && st->message[0] == m->c && st->message[1] == '\0' && st->file[0] == 'f' && st->line_number == m->line, "a thread sees its own error state");
  m->st = st;
  vp_yield();
  rcutils_error_string_t s = rcutils_get_error_string();
  const char want[] = {m->c, ',', ' ', 'a', 't', ' ', 'f', ':', (char)('0' + m->line), '\0'};
  VP_ASSERT(vp_same(s.str, want, sizeof want), "a thread sees its own error string");
  VP_ASSERT(st->message[0] == m->c && st->message[1] == '\0', "the state a thread holds is not changed by others");
}
static void run(void * p)
{
  me_t * m = p;
  rcutils_allocator_t a = vp_allocator();
  check_(m);
  for (uint64_t k = 0; k < K; ++k) {
    vp_yield();
    switch (m->ops[k]) {
      case 0: {
          char t[2] = {(char)vp_in8(), '\0'};
          VP_ASSUME(t[0] != '\0');
          rcutils_set_error_state(t, "f", m->line = (size_t)(m - me) * 3 + k);
          m->set = true; m->c = t[0];
          break;
        }
      case 1: rcutils_reset_error(); m->set = false; break;
      case 2: {
          char t[2] = {(char)(0x60 + (m - me)), '\0'};
          RCUTILS_SET_ERROR_MSG(t);
          rcutils_error_string_t s = rcutils_get_error_string();
          VP_ASSERT(s.str[0] == t[0] && s.str[1] == ',', "the macro sets this thread's error");
          rcutils_reset_error();
          m->set = false;
          break;
        }
      default:
        (void)rcutils_initialize_error_handling_thread_local_storage(a);
        VP_ASSERT(!rcutils_error_is_set() || m->set, "initializing a thread's storage sets no error");
        m->set = rcutils_error_is_set();
        break;
    }
    vp_yield();
    check_(m);
  }
}
int vp_main(void)
{
  K = vp_param("K", 2);
  uint32_t n = (uint32_t)vp_param("N", 2);
  if (vp_choose(2)) {rcutils_set_error_state("M", "f", 7); me[0].set = true; me[0].c = 'M'; me[0].line = 7;}
  for (uint32_t i = 0; i < n; ++i) {
    for (uint64_t k = 0; k < K; ++k) {me[i].ops[k] = vp_choose(4);}
  }
  for (uint32_t i = 1; i < n; ++i) {vp_spawn(run, &me[i]);}
  run(&me[0]);
  vp_join_all();
  check_(&me[0]);
  VP_COVER(me[0].set && me[1].set, "both threads hold an error at the end");
  if (me[0].set && me[1].set) {VP_ASSERT(me[0].st != me[1].st, "threads have separate storage");}
  return 0;
}
