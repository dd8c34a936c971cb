// Threads that log at the same time through the console: every message whole, on a line of its own.
#include "vp_alloc.h"
#include "rcutils/error_handling.h"
#include "rcutils/logging.h"
#include "vp_capture.h"
#include "vp_clock.h"
#include "vp_env_none.h"
static uint32_t mode, K;
static const char * const names[3][3] = {{"a", "b.c", "a"}, {"a", "b.c", "a"}, {"a.b", "a.c", "a.b"}};
static char tag[3];
static void run(void * p)
{
  uint32_t i = (uint32_t)(uintptr_t)p;
  for (uint32_t k = 0; k < K; ++k) {
    vp_yield();
    rcutils_log(NULL, 40, names[mode][i], "%c%u%u", tag[i], (unsigned)i, (unsigned)k);
    rcutils_log(NULL, 20, names[mode][i], "not shown");
  }
}
void vp_main(void)
{
  uint32_t n = (uint32_t)vp_param("N", 2);
  K = (uint32_t)vp_param("K", 1); mode = (uint32_t)vp_param("mode", 0);
  rcutils_allocator_t al = vp_allocator();
  vp_env("RCUTILS_CONSOLE_OUTPUT_FORMAT", "<{name}>{message}");
  vp_env("RCUTILS_LOGGING_USE_STDOUT", "1");
  VP_ASSERT(rcutils_logging_initialize_with_allocator(al) == RCUTILS_RET_OK, "logging starts");
  rcutils_logging_set_default_logger_level(30);
  if (mode >= 1) {VP_ASSERT(rcutils_logging_set_logger_level("a", 30) == RCUTILS_RET_OK, "a level is set");}
  if (mode == 1) {VP_ASSERT(rcutils_logging_set_logger_level("b.c", 40) == RCUTILS_RET_OK, "a level is set");}
  for (uint32_t i = 0; i < n; ++i) {tag[i] = (char)vp_in8(); VP_ASSUME((tag[i] != 0) & (tag[i] != '\n'));}
  for (uint32_t i = 1; i < n; ++i) {vp_spawn(run, (void *)(uintptr_t)i);}
  run(NULL);
  vp_join_all();
  // the output is some merge of the lines of the threads
  uint32_t done[3] = {0, 0, 0};
  size_t at = 0;
  const char * t = vp_std_out.text;
  VP_ASSERT(vp_err_out.n == 0, "nothing is complained about");
  for (uint32_t total = 0; total < n * K; ++total) {
    bool found = false;
    for (uint32_t i = 0; i < n && !found; ++i) {
      size_t l = strlen(names[mode][i]);
      if (done[i] < K && at + l + 6 <= vp_std_out.n && t[at + l + 3] == (char)('0' + i)) {
        VP_ASSERT(t[at] == '<' && vp_same(t + at + 1, names[mode][i], l) && t[at + l + 1] == '>' && t[at + l + 2] == tag[i] &&
          t[at + l + 4] == (char)('0' + done[i]) && t[at + l + 5] == '\n', "each line is one message, whole");
        done[i]++; found = true;
        at += l + 6;
      }
    }
    VP_ASSERT(found, "every message appears once, in the order its thread logged it");
  }
  VP_ASSERT(at == vp_std_out.n, "and nothing else");
  VP_COVER(t[strlen(names[mode][0]) + 3] == '1', "the other thread first");
  VP_ASSERT(rcutils_logging_shutdown() == RCUTILS_RET_OK && vp_live == 0, "nothing leaks");
}
