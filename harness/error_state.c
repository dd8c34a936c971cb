// The error state of one thread: histories of sets, resets and queries; texts around the storage limits.
#include "vp_alloc.h"
#include "vp_capture.h"
#include "rcutils/error_handling.h"
#define MM (RCUTILS_ERROR_STATE_MESSAGE_MAX_LENGTH - 1)
#define MF (RCUTILS_ERROR_STATE_FILE_MAX_LENGTH - 1)
static bool is_set;
static char msg[RCUTILS_ERROR_STATE_MESSAGE_MAX_LENGTH], file[RCUTILS_ERROR_STATE_FILE_MAX_LENGTH], digits[24];
static size_t mn, fn, dn;
static uint64_t line;
static char full[RCUTILS_ERROR_MESSAGE_MAX_LENGTH + 8];
static size_t full_n;
// any 64-bit number, as the digits of its decimal form
static uint64_t any_line(void)
{
  static const char max[] = "18446744073709551615";
  uint64_t v = 0;
  size_t n = vp_choose(21);
  dn = 0;
  if (n < 20) {
    // fewer than 20 digits (0: the number zero)
    if (n == 0) {digits[dn++] = '0';}
    for (size_t i = 0; i < n; ++i) {
      uint8_t d = i == 0 ? (uint8_t)(1 + vp_in8() % 9) : (uint8_t)(vp_in8() % 10);
      v = v * 10 + d; digits[dn++] = (char)('0' + d);
    }
  } else {
    // 20 digits: as the largest number up to position p, smaller there
    size_t p = 1 + vp_choose(20);
    for (size_t i = 0; i < 20; ++i) {
      uint8_t m = (uint8_t)(max[i] - '0'), d;
      if (i < p) {d = m;} else if (i == p) {VP_ASSUME(m > 0); d = (uint8_t)(vp_in8() % m);} else {d = (uint8_t)(vp_in8() % 10);}
      v = v * 10 + d; digits[dn++] = (char)('0' + d);
    }
  }
  digits[dn] = '\0';
  return v;
}
static void put(const char * s, size_t n) {for (size_t i = 0; i < n; ++i) {full[full_n++] = s[i];}}
static void check_(void)
{
  VP_ASSERT(rcutils_error_is_set() == is_set, "an error is set exactly after it was set and until it is reset");
  rcutils_error_string_t s = rcutils_get_error_string();
  if (!is_set) {
    VP_ASSERT(vp_same(s.str, "error not set", 14), "without an error the error string says so");
    VP_ASSERT(rcutils_get_error_state() == NULL, "without an error there is no error state");
    return;
  }
  const rcutils_error_state_t * st = rcutils_get_error_state();
  VP_ASSERT(st != NULL && vp_same(st->message, msg, mn) && st->message[mn] == '\0', "the state holds the message, cut to what fits");
  VP_ASSERT(vp_same(st->file, file, fn) && st->file[fn] == '\0' && st->line_number == line, "the state holds the file, cut to what fits, and the line");
  full_n = 0;
  put(msg, mn); put(", at ", 5); put(file, fn); put(":", 1); put(digits, dn);
  VP_ASSERT(full_n < sizeof s.str, "the error string always fits");
  VP_ASSERT(vp_same(s.str, full, full_n) && s.str[full_n] == '\0', "the error string is the message, file and line");
}
static size_t text(char * d, size_t n)     // n bytes: symbolic at both ends
{
  for (size_t i = 0; i < n; ++i) {
    if (i < 2 || i + 2 >= n) {uint8_t c = vp_in8(); VP_ASSUME(c != 0); d[i] = (char)c;} else {d[i] = (char)('a' + i % 26);}
  }
  d[n] = '\0';
  return n;
}
static void set_(const char * m, size_t n, const char * f, size_t k, uint64_t l)
{
  mn = n < MM ? n : MM; fn = k < MF ? k : MF;
  memcpy(msg, m, mn); memcpy(file, f, fn);
  line = l; is_set = true;
}
void vp_main(void)
{
  static char m[1200], f[400];
  static const size_t ml[] = {0, 1, MM - 1, MM, MM + 1, MM + 300}, fl[] = {0, 1, MF - 1, MF, MF + 1, MF + 100};
  size_t K = vp_param("K", 0);
  check_();
  if (K == 0) {
    // one error
    bool lines = vp_param("lines", 0);
    size_t n, k;
    if (lines) {n = text(m, 1); k = text(f, 1); line = any_line();} else {
      n = text(m, ml[vp_choose(6)]); k = text(f, fl[vp_choose(6)]);
      bool big = vp_choose(2);
      line = big ? UINT64_MAX : 7;
      dn = 0;
      for (const char * q = big ? "18446744073709551615" : "7"; *q; ++q) {digits[dn++] = *q;}
    }
    vp_capture_clear();
    rcutils_set_error_state(m, f, line);
    set_(m, n, f, k, line);
    VP_ASSERT(!vp_contains(&vp_err_out, "overwritten", 11), "a first error overwrites none");
    check_();
    check_();
    rcutils_reset_error();
    is_set = false;
    check_();
    return;
  }
  for (size_t step = 0; step < K; ++step) {
    bool was = is_set;
    rcutils_error_string_t old = rcutils_get_error_string();
    size_t full_was = full_n;
    vp_capture_clear();
    uint32_t op = vp_choose(6);
    if (op == 0) {
      size_t n = vp_string(m, vp_param("L", 2)), k = vp_choose(2);
      f[0] = 'f'; f[k] = '\0';
      size_t old_n = mn;
      bool same_text = was && n == old_n && vp_same(m, msg, n);
      if (vp_choose(2)) {rcutils_get_error_string();}
      rcutils_set_error_state(m, f, 40 + step);
      set_(m, n, f, k, 40 + step);
      dn = 2; digits[0] = '4'; digits[1] = (char)('0' + step);
      // (a text that the old error string begins with counts as the same error)
      if (n <= full_was && vp_same(m, old.str, n)) {same_text = true;}
      if (!was) {VP_ASSERT(vp_err_out.n == 0, "a first error reports nothing");} else if (!same_text) {
        size_t on = 0;
        while (old.str[on]) {on++;}
        VP_ASSERT(vp_contains(&vp_err_out, old.str, on), "the error that is overwritten is reported on stderr");
        full_n = 0;
        put(msg, mn); put(", at ", 5); put(file, fn); put(":", 1); put(digits, dn);
        VP_ASSERT(vp_contains(&vp_err_out, full, full_n), "together with the new one");
        VP_COVER(1, "overwritten");
      }
    } else if (op == 1) {
      rcutils_set_error_state(vp_choose(2) ? "m" : NULL, NULL, 1);
    } else if (op == 2) {
      rcutils_set_error_state(NULL, "f", 1);
    } else if (op == 3) {
      rcutils_reset_error();
      is_set = false;
    } else if (op == 4) {
      // from the state itself
      if (is_set) {
        const rcutils_error_state_t * st = rcutils_get_error_state();
        char copy_m[8], copy_f[8];
        memcpy(copy_m, msg, 8); memcpy(copy_f, file, 8);
        rcutils_set_error_state(st->message, st->file, 50 + step);
        set_(copy_m, mn, copy_f, fn, 50 + step);
        dn = 2; digits[0] = '5'; digits[1] = (char)('0' + step);
        VP_COVER(mn == vp_param("L", 2), "set from itself");
      }
    } else {
      rcutils_allocator_t a = vp_allocator();
      static bool initialized;
      bool valid = vp_choose(2);
      if (!valid) {a.allocate = NULL;}
      rcutils_ret_t r = rcutils_initialize_error_handling_thread_local_storage(a);
      if (valid || initialized) {
        VP_ASSERT(r == RCUTILS_RET_OK, "the thread's storage can be initialized");
        if (!initialized) {is_set = false;}
        initialized = true;
      } else {
        VP_ASSERT(r == RCUTILS_RET_INVALID_ARGUMENT, "an invalid allocator is refused");
      }
    }
    check_();
  }
}
