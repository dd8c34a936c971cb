// Logger levels: any history of setting levels, against the documented hierarchy.
#include "vp_alloc.h"
#include "rcutils/error_handling.h"
#include "rcutils/logging.h"
#include "vp_capture.h"
#include "vp_clock.h"
#include "vp_env_none.h"
static const char * const pool[] = {"a", "a.b", "", "a.b.c", "ab", "b", "a..b", "a.", ".a", "b.a.b.c"};
#define POOL 10
static size_t P;
static char extra[8];                      // a name of symbolic characters, past the pool
static const char * name(size_t i) {return i < P ? pool[i] : extra;}
static int level[POOL + 1];
static bool set_[POOL + 1];
static int deflt;
static int index_of(const char * s, size_t n)     // which name has these n characters
{
  for (size_t i = 0; i < P; ++i) {if (strlen(pool[i]) == n && vp_same(pool[i], s, n)) {return (int)i;}}
  return -1;
}
static int effective(size_t i)
{
  const char * s = name(i);
  size_t n = strlen(s);
  for (;;) {
    int k = n == 0 ? -1 : index_of(s, n);
    if (k >= 0 && set_[k] && level[k] != 0) {return level[k];}
    while (n > 0 && s[n - 1] != '.') {--n;}
    if (n == 0) {return deflt;}
    --n;
  }
}
static bool valid(int l) {return (l == 0) | (l == 10) | (l == 20) | (l == 30) | (l == 40) | (l == 50);}
static void start(rcutils_allocator_t al)
{
  VP_ASSERT(rcutils_logging_initialize_with_allocator(al) == RCUTILS_RET_OK && g_rcutils_logging_initialized, "logging starts");
  for (size_t i = 0; i <= P; ++i) {set_[i] = false; level[i] = 0;}
  deflt = RCUTILS_LOG_SEVERITY_INFO;
}
void vp_main(void)
{
  size_t K = vp_param("K", 3);
  bool fail = vp_param("fail", 0), few = vp_param("few", 0);
  P = vp_param("P", 5);
  rcutils_allocator_t al = vp_allocator();
  start(al);
  if (fail) {vp_alloc_arm(VP_ANY_FAIL, 0);}
  for (size_t k = 0; k < K; ++k) {
    uint32_t op = vp_choose(k == 0 ? 2 : fail ? 3 : 4);
    rcutils_reset_error();
    if (op == 0) {
      size_t i = vp_choose((uint32_t)P);
      char copy[8];                        // the caller's name goes away
      strcpy(copy, pool[i]);
      int l = few ? 20 * (int)vp_choose(3) : (int)vp_range(0, 70) - 9;
      size_t f = vp_failures;
      rcutils_ret_t r = rcutils_logging_set_logger_level(copy, l);
      memset(copy, 'z', sizeof copy - 1);
      if (!valid(l)) {
        VP_ASSERT(r == RCUTILS_RET_INVALID_ARGUMENT, "an unknown level is refused");
        VP_COVER(1, "unknown level");
      } else if (r != RCUTILS_RET_OK) {
        VP_ASSERT(vp_failures > f, "a level is set unless memory is refused");
        VP_ASSERT(rcutils_error_is_set(), "a failure sets an error message");
      } else {
        set_[i] = true; level[i] = l;
        if (pool[i][0] == '\0') {deflt = l;}
      }
    } else if (op == 1) {
      int l = few ? 30 : (int)vp_range(0, 60);
      rcutils_logging_set_default_logger_level(l);
      deflt = l == 0 ? RCUTILS_LOG_SEVERITY_INFO : l;
    } else if (op == 3) {
      size_t i = vp_choose((uint32_t)P);
      int e = effective(i);
      size_t f = vp_failures;
      int g = rcutils_logging_get_logger_effective_level(pool[i]);
      VP_ASSERT(g == e || (g == -1 && vp_failures > f), "the effective level is that of the closest logger with a level, or the default");
      if (g != -1) {
        bool on = rcutils_logging_logger_is_enabled_for(pool[i], 20);
        VP_ASSERT(on == (20 >= e) || (!on && vp_failures > f), "and decides what is enabled");
      }
    } else {
      size_t live = vp_live;
      VP_ASSERT(rcutils_logging_shutdown() == RCUTILS_RET_OK, "logging shuts down");
      VP_ASSERT(vp_live == 0, "and releases everything");
      VP_ASSERT(rcutils_logging_shutdown() == RCUTILS_RET_OK, "again, without effect");
      VP_COVER(live > 4, "levels released");
      vp_alloc_arm(VP_NEVER_FAIL, 0);
      start(al);
      if (fail) {vp_alloc_arm(VP_ANY_FAIL, 0);}
    }
  }
  vp_alloc_arm(VP_NEVER_FAIL, 0);
  rcutils_reset_error();
  size_t i = vp_choose((uint32_t)P), n = strlen(pool[i]);
  bool refuse = !few && vp_choose(2);
  if (refuse) {vp_alloc_arm(VP_ANY_FAIL, 0);}
  int e = effective(i), sev = (int)vp_in32();
  VP_ASSERT(rcutils_logging_get_default_logger_level() == deflt, "the default level is the one last set");
  size_t f = vp_failures;
  int g = rcutils_logging_get_logger_effective_level(pool[i]);
  VP_ASSERT(g == e || (g == -1 && vp_failures > f), "the effective level is that of the closest logger with a level, or the default");
  f = vp_failures;
  g = rcutils_logging_get_logger_level(pool[i]);
  VP_ASSERT(g == (n == 0 ? deflt : set_[i] ? level[i] : 0) || (g == -1 && vp_failures > f), "the level of a logger is the one set for it");
  f = vp_failures;
  bool on = rcutils_logging_logger_is_enabled_for(pool[i], sev);
  VP_ASSERT(on == (sev >= e) || (!on && vp_failures > f), "a severity is enabled from the effective level up");
  VP_COVER(e == 40 && deflt == 30 && !set_[i], "inherited");
  VP_ASSERT(rcutils_logging_logger_is_enabled_for(NULL, sev) == (sev >= deflt), "without a name, from the default level up");
  vp_alloc_arm(VP_NEVER_FAIL, 0);
  char longer[16];
  strcpy(longer, pool[i]); strcpy(longer + n, ".tail");
  VP_ASSERT(rcutils_logging_get_logger_leveln(longer, n) == (n == 0 ? deflt : set_[i] ? level[i] : 0), "the name may be part of a text");
  VP_ASSERT(rcutils_logging_get_logger_level(NULL) == -1 && rcutils_logging_get_logger_leveln(NULL, 1) == -1 &&
    rcutils_logging_get_logger_effective_level(NULL) == -1 && rcutils_logging_set_logger_level(NULL, 10) == RCUTILS_RET_INVALID_ARGUMENT, "null names are refused");
  VP_ASSERT(rcutils_logging_shutdown() == RCUTILS_RET_OK && vp_live == 0, "nothing leaks");
}
