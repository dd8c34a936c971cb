// The macros that set errors and print to the error stream, with and without an earlier error.
#include "vp_alloc.h"
#include "vp_capture.h"
#include "rcutils/error_handling.h"
#define MM (RCUTILS_ERROR_STATE_MESSAGE_MAX_LENGTH - 1)
#define MS (RCUTILS_ERROR_MESSAGE_MAX_LENGTH - 1)
static char want[4000];
static size_t wn;
static void put(const char * s) {while (*s) {want[wn++] = *s++;}}
static void cut(size_t from, size_t n) {if (wn > from + n) {wn = from + n;}}
static size_t evaluated;
static int once(int v) {evaluated++; return v;}
static const void * once_p(const void * p) {evaluated++; return p;}
// the error that must be set: the text built in want, cut to what fits, and this place
static void is_error(size_t line)
{
  VP_ASSERT(rcutils_error_is_set(), "the macro sets the error");
  const rcutils_error_state_t * st = rcutils_get_error_state();
  cut(0, MM);
  VP_ASSERT(vp_same(st->message, want, wn) && st->message[wn] == '\0', "the error has exactly the text given");
  VP_ASSERT(st->line_number == line, "and the line of the macro");
  size_t fn = 0;
  while (__FILE__[fn] && fn < RCUTILS_ERROR_STATE_FILE_MAX_LENGTH - 1) {fn++;}
  VP_ASSERT(vp_same(st->file, __FILE__, fn) && st->file[fn] == '\0', "and its file");
}
static int check_argument(const void * argument) {RCUTILS_CHECK_ARGUMENT_FOR_NULL(argument, 17); return 3;}
static int can_fail(void) {RCUTILS_CAN_SET_MSG_AND_RETURN_WITH_ERROR_OF(23); return 4;}
static void value(char * d, bool lng)   // any short text, or one around the limits
{
  static const size_t nn[] = {1, MM - 3, MM - 2, MM - 1, MM, MM + 1, MS - 3, MS - 1, MS, MS + 1, MS + 60};
  if (!lng) {vp_string(d, vp_param("L", 2)); return;}
  size_t n = nn[vp_choose(11)];
  for (size_t i = 0; i < n; ++i) {d[i] = (char)('a' + i % 26);}
  uint8_t c = vp_in8();
  VP_ASSUME(c != 0);
  d[n - 1] = (char)c;
  d[n] = '\0';
}
void vp_main(void)
{
  static char t[1200], old[1200];
  bool lng = vp_param("long", 0);
  // (names a caller may well use)
  const char * output_msg = t, * error_string = t, * msg = t;
  int ret = 42, argument = 7;
  (void)msg; (void)argument;
  size_t line;
  uint32_t op = vp_choose(12);
  bool prev = vp_choose(2);
  value(t, lng);
  rcutils_error_string_t before;
  before.str[0] = '\0';
  if (prev) {
    if (vp_choose(2)) {old[0] = '%'; old[1] = 'n'; old[2] = '\0';} else {value(old, lng);}
    rcutils_set_error_state(old, "f", 9);
    before = rcutils_get_error_string();
  }
  vp_capture_clear();
  bool append = op == 2 || op == 3 || op == 6 || op == 7, stream = op >= 4 && op <= 7, sets = op < 4;
  switch (op) {
    case 0: line = __LINE__; RCUTILS_SET_ERROR_MSG(output_msg); put(t); break;
    case 1: line = __LINE__; RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING("%s|%d%%%d", output_msg, once(ret), ret); break;
    case 2:
      // (the text of this one may have to be a literal)
      switch (vp_choose(4)) {
        case 0: line = __LINE__; RCUTILS_SET_ERROR_MSG_AND_APPEND_PREV_ERROR(""); break;
        case 1: line = __LINE__; RCUTILS_SET_ERROR_MSG_AND_APPEND_PREV_ERROR("some text"); put("some text"); break;
        case 2: line = __LINE__; RCUTILS_SET_ERROR_MSG_AND_APPEND_PREV_ERROR("100% done"); put("100% done"); break;
        default: line = __LINE__; RCUTILS_SET_ERROR_MSG_AND_APPEND_PREV_ERROR("%s%%"); put("%s%%"); break;
      }
      break;
    case 3: line = __LINE__; RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING_AND_APPEND_PREV_ERROR("%s|%d%%%d", error_string, once(ret), ret); break;
    case 4: RCUTILS_SAFE_FWRITE_TO_STDERR(output_msg); put(t); break;
    case 5: RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING("%s|%d%%%d", output_msg, once(ret), ret); break;
    case 6: RCUTILS_SAFE_FWRITE_TO_STDERR_AND_APPEND_PREV_ERROR(t); put(t); break;
    case 7: RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING_AND_APPEND_PREV_ERROR("%s|%d%%%d", error_string, once(ret), ret); break;
    case 8: {
        bool null = vp_choose(2);
        int r = check_argument(null ? NULL : t);
        VP_ASSERT(r == (null ? 17 : 3), "exactly a null argument makes the function return");
        if (null) {
          VP_ASSERT(rcutils_error_is_set() && vp_same(rcutils_get_error_state()->message, "argument argument is null", 26), "and the error names it");
          return;
        }
        break;
      }
    case 9: {
        bool null = vp_choose(2), seen = false;
        line = __LINE__; RCUTILS_CHECK_FOR_NULL_WITH_MSG(null ? once_p(NULL) : once_p(t), output_msg, {seen = true; once(0);});
        VP_ASSERT(seen == null && evaluated == 1u + null, "exactly a null value makes the statement run");
        if (null) {put(t); is_error(line); return;}
        break;
      }
    case 10: {
        rcutils_allocator_t a = vp_allocator();
        uint32_t hole = vp_choose(6);
        if (hole == 1) {a.allocate = NULL;} else if (hole == 2) {a.deallocate = NULL;} else if (hole == 3) {a.reallocate = NULL;} else if (hole == 4) {a.zero_allocate = NULL;}
        bool seen = false, seen_msg = false, valid = hole == 0;
        RCUTILS_CHECK_ALLOCATOR(hole == 5 ? NULL : &a, seen = true);
        VP_ASSERT(rcutils_error_is_set() == prev, "the check without a message sets no error");
        line = __LINE__; RCUTILS_CHECK_ALLOCATOR_WITH_MSG(hole == 5 ? NULL : &a, output_msg, seen_msg = true);
        VP_ASSERT(seen == !valid && seen_msg == !valid, "exactly an incomplete allocator makes the statement run");
        if (!valid) {put(t); is_error(line); return;}
        break;
      }
    default: {
#ifdef RCUTILS_ENABLE_FAULT_INJECTION
        bool fails = vp_choose(2);
        if (fails) {rcutils_fault_injection_set_count(0);}
        int r = can_fail();
        VP_ASSERT(r == (fails ? 23 : 4), "exactly an injected fault makes the function fail");
        if (fails) {
          VP_ASSERT(rcutils_error_is_set() && vp_same(rcutils_get_error_state()->message, "Injecting 23", 13), "and the error says so");
          return;
        }
#else
        VP_ASSERT(can_fail() == 4, "without fault injection nothing fails");
#endif
        break;
      }
  }
  if (!sets && !stream) {
    VP_ASSERT(rcutils_error_is_set() == prev && vp_err_out.n == 0, "a check that passes has no effect");
    if (prev) {
      rcutils_error_string_t s = rcutils_get_error_string();
      VP_ASSERT(vp_same(s.str, before.str, strlen(before.str) + 1), "and keeps the error");
    }
    return;
  }
  if (op % 2) {
    put(t); put("|42%42");
    VP_ASSERT(evaluated == 1, "the arguments are evaluated once");
    if (stream || !append || !prev) {cut(0, MS);}
  }
  if (append && prev) {
    size_t at = wn;
    put(": "); put(before.str);
    cut(stream ? at : 0, MS);
    VP_COVER(1, "an error appended");
  }
  if (sets) {
    if (append || !prev) {
      VP_ASSERT(wn > MM || vp_err_out.n == 0, "nothing is reported");     // (a text that is cut may be)
      if (vp_err_out.n) {VP_ASSERT(!vp_contains(&vp_err_out, "overwritten", 11), "no error is overwritten");}
    }
    is_error(line);
    rcutils_error_string_t s = rcutils_get_error_string();
    VP_ASSERT(vp_same(s.str, want, wn) && vp_same(s.str + wn, ", at ", 5), "the error string begins with it");
  } else {
    VP_ASSERT(vp_err_out.n == wn && vp_same(vp_err_out.text, want, wn), "exactly the text is written");
    VP_ASSERT(rcutils_error_is_set() == (prev && !append), "appending to the error stream resets the error; printing does not");
    if (rcutils_error_is_set()) {
      rcutils_error_string_t s = rcutils_get_error_string();
      VP_ASSERT(vp_same(s.str, before.str, strlen(before.str) + 1), "and keeps the error");
    }
  }
  VP_ASSERT(vp_std_out.n == 0, "nothing goes to the standard output");
}
