// A fault injected at any fault point of any operation is reported, or does no harm; nothing leaks.
#include "vp_alloc.h"
#include "rcutils/types/char_array.h"
#include "rcutils/cmdline_parser.h"
#include "rcutils/env.h"
#include "rcutils/error_handling.h"
#include "rcutils/filesystem.h"
#include "rcutils/format_string.h"
#include "rcutils/logging.h"
#include "rcutils/process.h"
#include "rcutils/repl_str.h"
#include "rcutils/shared_library.h"
#include "rcutils/snprintf.h"
#include "rcutils/split.h"
#include "rcutils/strdup.h"
#include "rcutils/testing/fault_injection.h"
#include "rcutils/time.h"
#include "rcutils/types/hash_map.h"
#include "rcutils/types/string_array.h"
#include "rcutils/types/string_map.h"
#include "vp_capture.h"
#include "vp_clock.h"
#include "vp_env_none.h"
#ifndef VP_NATIVE
char * program_invocation_name = "/bin/prog", * program_invocation_short_name = "prog";
#endif
static rcutils_allocator_t al;
static char x[4];                 // arbitrary characters
static bool ok;                   // everything so far succeeded
static bool good(rcutils_ret_t r)
{
  if (r != RCUTILS_RET_OK) {ok = false;}
  return r == RCUTILS_RET_OK;
}
static void finish_array(rcutils_string_array_t * a)
{
  // fini itself may be told to fail, once, and then has done nothing
  if (!good(rcutils_string_array_fini(a))) {VP_ASSERT(rcutils_string_array_fini(a) == RCUTILS_RET_OK, "the array can be released after a fault");}
}
static void strings(void)
{
  char * a = rcutils_strdup(x, al), * b = rcutils_strndup(x, 2, al);
  ok = a && b;
  if (a) {VP_ASSERT(memcmp(a, x, 4) == 0, "the copy is the text"); vp_free(a);}
  if (b) {VP_ASSERT(memcmp(b, x, 2) == 0 && b[2] == '\0', "the copy is the text"); vp_free(b);}
}
static void splits(void)
{
  char t[8] = {x[0], '/', x[1], x[2], '/', x[0], '\0'};
  VP_ASSUME((x[0] != '/') & (x[1] != '/') & (x[2] != '/'));
  rcutils_string_array_t a = rcutils_get_zero_initialized_string_array();
  bool last = vp_choose(2);
  if (good(last ? rcutils_split_last(t, '/', al, &a) : rcutils_split(t, '/', al, &a))) {
    VP_ASSERT(a.size == (last ? 2u : 3u), "the parts are all there");
    VP_ASSERT(last ? memcmp(a.data[0], t, 4) == 0 && a.data[0][4] == '\0' : memcmp(a.data[1], t + 2, 2) == 0 && a.data[1][2] == '\0', "each part is right");
    finish_array(&a);
  } else {VP_ASSERT(a.size == 0 && a.data == NULL, "a failed split leaves an empty array");}
}
static void arrays(void)
{
  rcutils_string_array_t a = rcutils_get_zero_initialized_string_array();
  if (good(rcutils_string_array_init(&a, 2, &al))) {
    a.data[0] = rcutils_strdup(x, al);
    ok = ok && a.data[0];
    (void)good(rcutils_string_array_resize(&a, 3));
    finish_array(&a);
  }
}
static void maps(void)
{
  rcutils_string_map_t m = rcutils_get_zero_initialized_string_map(), c = rcutils_get_zero_initialized_string_map();
  if (good(rcutils_string_map_init(&m, 0, al))) {
    bool set = good(rcutils_string_map_set(&m, x, "v1"));
    bool over = good(rcutils_string_map_set(&m, x, x));
    bool more = good(rcutils_string_map_set(&m, "a longer key", "w"));
    const char * v = rcutils_string_map_get(&m, x);
    VP_ASSERT(over ? v && memcmp(v, x, 4) == 0 : set ? v && memcmp(v, "v1", 3) == 0 : v == NULL, "the value is the last one set");
    size_t n = 0;
    VP_ASSERT(rcutils_string_map_get_size(&m, &n) == RCUTILS_RET_OK && n == (size_t)((over | set) + more), "the map holds what was set");
    if (good(rcutils_string_map_init(&c, 1, al))) {
      if (good(rcutils_string_map_copy(&m, &c)) && over) {v = rcutils_string_map_get(&c, x); VP_ASSERT(v && memcmp(v, x, 4) == 0, "the copy has it too");}
      VP_ASSERT(good(rcutils_string_map_fini(&c)), "the copy is released");
    }
    VP_ASSERT(good(rcutils_string_map_fini(&m)), "the map is released");
  }
}
static rcutils_ret_t printed(rcutils_char_array_t * a, const char * format, ...)
{
  va_list ap; va_start(ap, format);
  rcutils_ret_t r = rcutils_char_array_vsprintf(a, format, ap);
  va_end(ap);
  return r;
}
static void chars(void)
{
  rcutils_char_array_t a = rcutils_get_zero_initialized_char_array();
  if (good(rcutils_char_array_init(&a, 2, &al))) {
    if (good(printed(&a, "%s-%d", x, 42))) {VP_ASSERT(memcmp(a.buffer, x, 3) == 0 && memcmp(a.buffer + 3, "-42", 4) == 0, "the text is whole");}
    if (good(rcutils_char_array_strcpy(&a, x)) && good(rcutils_char_array_strcat(&a, x))) {VP_ASSERT(memcmp(a.buffer, x, 3) == 0 && memcmp(a.buffer + 3, x, 4) == 0, "twice the text");}
    VP_ASSERT(good(rcutils_char_array_fini(&a)), "the array is released");
  }
}
static void texts(void)
{
  char * f = rcutils_format_string(al, "%s/%d", x, 7), * j = rcutils_join_path(x, "y", al), * r = rcutils_repl_str("abc", "b", x, &al);
  char * nat = rcutils_to_native_path(x, al), * e = rcutils_expand_user(x, al);
  char * exe = rcutils_get_executable_name(al);
  ok = f && j && r && nat && e && exe;
  if (f) {VP_ASSERT(memcmp(f, x, 3) == 0 && memcmp(f + 3, "/7", 3) == 0, "formatted"); vp_free(f);}
  if (j) {VP_ASSERT(memcmp(j, x, 3) == 0 && memcmp(j + 3, "/y", 3) == 0, "joined"); vp_free(j);}
  if (r) {VP_ASSERT(r[0] == 'a' && memcmp(r + 1, x, 3) == 0 && r[4] == 'c' && r[5] == '\0', "replaced"); vp_free(r);}
  if (nat) {VP_ASSERT(memcmp(nat, x, 4) == 0, "native"); vp_free(nat);}
  if (e) {vp_free(e);}
  if (exe) {vp_free(exe);}
}
static void times(void)
{
  rcutils_time_point_value_t t = 1234567890123456789;
  char b[40] = "", c[40] = "";
  if (good(rcutils_time_point_value_as_nanoseconds_string(&t, b, sizeof b))) {VP_ASSERT(strcmp(b, "1234567890123456789") == 0, "nanoseconds");}
  if (good(rcutils_time_point_value_as_seconds_string(&t, c, sizeof c))) {VP_ASSERT(strcmp(c, "1234567890.123456789") == 0, "seconds");}
  char d[8] = "?";
  int n = rcutils_snprintf(d, sizeof d, "%s!", x);
  if (n < 0) {ok = false; VP_ASSERT(errno == EINVAL, "an error is explained");} else {VP_ASSERT(n == 4 && memcmp(d, x, 3) == 0 && d[3] == '!', "formatted");}
  char name[20] = "";
  if (good(rcutils_get_platform_library_name(x, name, sizeof name, false))) {VP_ASSERT(memcmp(name, "lib", 3) == 0 && memcmp(name + 3, x, 3) == 0 && strcmp(name + 6, ".so") == 0, "a library name");}
}
static void envs(void)
{
  const char * v = NULL, * err;
  vp_env("SOME", x);
  err = rcutils_get_env("SOME", &v);
  if (err) {ok = false; VP_ASSERT(v == NULL || strcmp(v, "") == 0, "no value with an error");} else {VP_ASSERT(v && memcmp(v, x, 4) == 0, "the value");}
}
static void logs(void)
{
  if (!good(rcutils_logging_initialize_with_allocator(al))) {
    if (!g_rcutils_logging_initialized) {VP_ASSERT(rcutils_logging_initialize_with_allocator(al) == RCUTILS_RET_OK, "logging starts when the fault is over");}
  }
  bool set = good(rcutils_logging_set_logger_level(x, 40));
  int l = rcutils_logging_get_logger_level(x);
  if (l == -1) {ok = false;} else {VP_ASSERT(l == (set ? 40 : 0), "the level is the one set");}
  rcutils_log_internal(NULL, 40, x, "%s", "hello");
  ok = ok && vp_err_out.n > 0 && vp_contains(&vp_err_out, "hello", 5);
  rcutils_ret_t r = rcutils_logging_shutdown();
  VP_ASSERT(r == RCUTILS_RET_OK, "logging stops");
}
static void (* const scenarios[])(void) = {strings, splits, arrays, maps, chars, texts, times, envs, logs};
void vp_main(void)
{
  al = vp_allocator();
  vp_string_len(x, 3);
  VP_ASSUME((x[0] != '~') & (x[0] != '.') & (x[1] != '.') & (x[2] != '.') & (x[0] != '%') & (x[1] != '%') & (x[2] != '%'));
  int64_t start = (int64_t)vp_range(0, 41) - 1;
  uint32_t s = vp_choose(9);
  ok = true;
  rcutils_fault_injection_set_count(start);
  scenarios[s]();
  int64_t end = rcutils_fault_injection_get_count();
  bool injected = start >= 0 && end == -1;
  rcutils_fault_injection_set_count(-1);
  VP_ASSERT(ok || injected, "without a fault everything works");
  VP_ASSERT(vp_live == 0, "nothing leaks, fault or not");
  VP_COVER(start >= 0 && !injected, "no fault point left");
  VP_COVER(injected && s == 0, "s0"); VP_COVER(injected && s == 1, "s1"); VP_COVER(injected && s == 2, "s2"); VP_COVER(injected && s == 3, "s3");
  VP_COVER(injected && s == 5, "s5"); VP_COVER(injected && s == 6, "s6"); VP_COVER(injected && s == 7, "s7"); VP_COVER(injected && s == 8, "s8");
}
