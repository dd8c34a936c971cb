// Logger hierarchy over arbitrary names: one or two loggers with a level, any logger asked about.
#include "vp_alloc.h"
#include "rcutils/error_handling.h"
#include "rcutils/logging.h"
#include "vp_capture.h"
#include "vp_clock.h"
#include "vp_env_none.h"
static bool is_ancestor(const char * s, size_t n, const char * q, size_t m)      // or the same
{
  if (n > m || n == 0) {return false;}
  return vp_same(s, q, n) & ((n == m) | (q[n] == '.'));
}
void vp_main(void)
{
  size_t L = vp_param("L", 2), Q = vp_param("Q", 4), N = vp_param("N", 1), n[2], m;
  rcutils_allocator_t al = vp_allocator();
  VP_ASSERT(rcutils_logging_initialize_with_allocator(al) == RCUTILS_RET_OK, "logging starts");
  char s[2][8], q[8];
  int l[2], deflt = 10 * (1 + (int)vp_byte_below(5));
  rcutils_logging_set_default_logger_level(deflt);
  for (size_t k = 0; k < N; ++k) {
    n[k] = 1 + vp_choose((uint32_t)L);
    vp_string_len(s[k], n[k]);
    l[k] = 10 * (int)vp_byte_below(6);
    VP_ASSERT(rcutils_logging_set_logger_level(s[k], l[k]) == RCUTILS_RET_OK, "a level is set");
  }
  m = 1 + vp_choose((uint32_t)Q);
  vp_string_len(q, m);
  int e = deflt;
  size_t best = 0;
  for (size_t k = 0; k < N; ++k) {
    bool hit = is_ancestor(s[k], n[k], q, m) & (l[k] != 0) & (n[k] >= best);     // the longest, or the one set last
    bool shadowed = k + 1 < N && n[k] == n[k + 1] && vp_same(s[k], s[k + 1], n[k]);
    hit = hit & !shadowed;
    e = hit ? l[k] : e;
    best = hit ? n[k] : best;
  }
  int g = rcutils_logging_get_logger_effective_level(q);
  VP_ASSERT(g == e, "the effective level is that of the closest logger with a level, or the default");
  int sev = (int)vp_in32();
  VP_ASSERT(rcutils_logging_logger_is_enabled_for(q, sev) == (sev >= e), "a severity is enabled from the effective level up");
  VP_COVER(best > 0 && best < m, "inherited");
  VP_ASSERT(rcutils_logging_shutdown() == RCUTILS_RET_OK && vp_live == 0, "nothing leaks");
}
