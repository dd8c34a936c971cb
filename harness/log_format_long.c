// Long names, functions, files, messages and many tokens in the console output format.
#include "vp_alloc.h"
#include "rcutils/error_handling.h"
#include "rcutils/logging.h"
#include "vp_capture.h"
#include "vp_clock.h"
#include "vp_env_none.h"
static const size_t lens[] = {1, 15, 63, 127, 128, 254, 255, 256, 257, 511, 512, 1022, 1023, 1024, 1025, 2047, 2048, 2049, 4100};
#define LENS 19
static char long_text[5000];
static char want[40000];
static size_t wn;
static void put(const char * s) {while (*s) {want[wn++] = *s++;}}
void vp_main(void)
{
  static const char * const tokens[] = {"{name}", "{message}", "{function_name}", "{file_name}"};
  rcutils_allocator_t al = vp_allocator();
  static char format[3000];
  size_t fn = 0;
  uint32_t which = vp_choose(5);
  size_t n = which == 4 ? 3 : lens[vp_choose(LENS)], repeat = which == 4 ? 170 : 1 + vp_choose(2);
  memset(long_text, 'w', n);
  uint8_t a = vp_in8(), z = vp_in8();
  VP_ASSUME((a != 0) & (z != 0));
  long_text[0] = (char)a; long_text[n - 1] = (char)z; long_text[n] = '\0';
  const char * texts[4] = {"nm", "msg", "fun", "file"};
  if (which < 4) {texts[which] = long_text;} else {texts[0] = long_text;}
  for (size_t k = 0; k < repeat; ++k) {
    for (size_t t = 0; t < 4; ++t) {
      if (which < 4 || t == k % 4) {
        size_t m = strlen(tokens[t]);
        memcpy(format + fn, tokens[t], m); fn += m;
        format[fn++] = '|';
        put(texts[t]); put("|");
      }
    }
  }
  format[fn] = '\0'; want[wn] = '\0';
  vp_env("RCUTILS_CONSOLE_OUTPUT_FORMAT", format);
  VP_ASSERT(rcutils_logging_initialize_with_allocator(al) == RCUTILS_RET_OK, "logging starts");
  rcutils_log_location_t loc = {texts[2], texts[3], 5};
  static char user[1024];
  bool small = vp_choose(2);
  rcutils_char_array_t out = {.buffer = user, .owns_buffer = false, .buffer_length = 0, .buffer_capacity = small ? 2 : sizeof user, .allocator = al};
  VP_ASSERT(rcutils_logging_format_message(&loc, 20, texts[0], 1, texts[1], &out) == RCUTILS_RET_OK, "a message is formatted");
  VP_ASSERT(out.buffer_length >= wn && vp_same(out.buffer, want, wn) && out.buffer[wn] == '\0', "the output is the expansion of the format");
  VP_ASSERT(rcutils_char_array_fini(&out) == RCUTILS_RET_OK, "the output is released");
  VP_ASSERT(rcutils_logging_shutdown() == RCUTILS_RET_OK && vp_live == 0, "nothing leaks");
}
