// Logger levels with many loggers, and with deep and long names.
#include "vp_alloc.h"
#include "rcutils/error_handling.h"
#include "rcutils/logging.h"
#include "vp_capture.h"
#include "vp_clock.h"
#include "vp_env_none.h"
static char name[6000], other[6000];
void vp_main(void)
{
  rcutils_allocator_t al = vp_allocator();
  VP_ASSERT(rcutils_logging_initialize_with_allocator(al) == RCUTILS_RET_OK, "logging starts");
  int l = 10 * (int)vp_range(1, 5), m = 10 * (int)vp_range(1, 5), sev = (int)vp_in32();
  if (vp_param("loggers", 0)) {
    size_t n = vp_param("loggers", 0), at = vp_choose(3) * (n / 2);
    if (at >= n) {at = n - 1;}
    for (size_t i = 0; i < n; ++i) {
      char t[8] = {'q', '.', (char)('a' + i % 26), (char)('a' + i / 26 % 26), '\0'};
      if (i == at) {t[0] = 'q';}
      VP_ASSERT(rcutils_logging_set_logger_level(t, i == at ? l : 30) == RCUTILS_RET_OK, "a level is set");
    }
    for (size_t i = 0; i < n; ++i) {
      char t[12] = {'q', '.', (char)('a' + i % 26), (char)('a' + i / 26 % 26), '\0', 'x', '\0'};
      VP_ASSERT(rcutils_logging_get_logger_level(t) == (i == at ? l : 30), "each logger keeps its own level");
      t[4] = '.';
      if (i % 16 == at % 16) {
        VP_ASSERT(rcutils_logging_get_logger_effective_level(t) == (i == at ? l : 30), "which its descendants inherit");
        VP_ASSERT(rcutils_logging_logger_is_enabled_for(t, sev) == (sev >= (i == at ? l : 30)), "and which decides what is enabled");
      }
    }
    rcutils_logging_set_default_logger_level(m);
    VP_ASSERT(rcutils_logging_get_logger_effective_level("q") == m && rcutils_logging_get_logger_effective_level("q.zzzz") == m, "others have the default");
  } else {
    // one name of many parts, or of long parts
    static const size_t parts[] = {2, 9, 33, 128, 255, 256, 257, 300}, lens[] = {1, 15, 127, 255, 256, 1023, 2000};
    bool deep = vp_choose(2);
    size_t p = deep ? parts[vp_choose(8)] : 2, k = deep ? 1 : lens[vp_choose(7)], n = 0, at = vp_choose(3) * (p / 2), end = 0;
    if (at >= p) {at = p - 1;}
    for (size_t i = 0; i < p; ++i) {
      if (i) {name[n++] = '.';}
      for (size_t j = 0; j < k; ++j) {name[n++] = (char)('a' + j % 26);}
      if (i == at) {end = n;}
    }
    name[n] = '\0';
    memcpy(other, name, end);
    other[end] = '\0';
    VP_ASSERT(rcutils_logging_set_logger_level(other, l) == RCUTILS_RET_OK, "a level is set");
    // another logger whose name differs in the last character only
    other[end - 1] = '!';
    VP_ASSERT(rcutils_logging_set_logger_level(other, m) == RCUTILS_RET_OK, "a level is set");
    VP_ASSERT(rcutils_logging_get_logger_level(other) == m, "and kept");
    other[end - 1] = name[end - 1];
    VP_ASSERT(rcutils_logging_get_logger_level(other) == l, "and kept apart");
    VP_ASSERT(rcutils_logging_get_logger_leveln(name, end) == l, "however the name is given");
    VP_ASSERT(rcutils_logging_get_logger_effective_level(name) == l, "the level is inherited over any number of parts");
    VP_ASSERT(rcutils_logging_logger_is_enabled_for(name, sev) == (sev >= l), "and decides what is enabled");
    VP_COVER(at == 0 && p == 300, "inherited from far above");
  }
  VP_ASSERT(rcutils_logging_shutdown() == RCUTILS_RET_OK && vp_live == 0, "nothing leaks");
}
