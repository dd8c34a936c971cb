// The console output format: any sequence of text, escapes and tokens, against a reference expansion.
#include "vp_alloc.h"
#include "rcutils/error_handling.h"
#include "rcutils/logging.h"
#include "vp_capture.h"
#include "vp_clock.h"
#include "vp_env_none.h"
static bool no_calendar;
#ifdef VP_NATIVE
struct tm * VP_STUB(localtime_r)(const time_t * t, struct tm * r)
#else
struct tm * localtime_r(const time_t * t, struct tm * r)
#endif
{
  if (no_calendar) {errno = EOVERFLOW; return NULL;}
  memset(r, 0, sizeof *r);
  r->tm_year = 123; r->tm_mon = 4; r->tm_mday = 6; r->tm_hour = 7; r->tm_min = 8; r->tm_sec = (int)(*t % 60);
  return r;
}
static const char * const segs[] = {
  "{severity}", "{message}", "\\n", "\\q", "\\", "{", "}", "\\x1b", "n", "{nope}", "x1", "?",         // ? stands for any other character
  "{name}", "{line_number}", "{function_name}", "{file_name}", "{time}", "{time_as_nanoseconds}", "{date_time_with_ms}", "\\a", "\\b", "\\r", "\\t"};
#define SEGS 23
#define MAXF 4200
static char format[MAXF], kind[MAXF];        // kind: the character, or 1 for a symbolic one
static size_t flen;
static char decoded[MAXF], dkind[MAXF];
static size_t dlen;
static char want[MAXF]; static size_t wlen;
static void put(const char * s, size_t n) {memcpy(want + wlen, s, n); wlen += n;}
static void seg(const char * s)
{
  for (; *s; ++s) {
    if (*s == '?') {
      uint8_t c = vp_in8();
      VP_ASSUME((c != 0) & (c != '{') & (c != '}') & (c != '\\') & (c != 'a') & (c != 'b') & (c != 'n') & (c != 'r') & (c != 't') & (c != 'x'));
      format[flen] = (char)c; kind[flen] = 1;
    } else {format[flen] = kind[flen] = *s;}
    ++flen;
  }
  format[flen] = '\0';
}
static void decode(size_t n)
{
  for (size_t i = 0; i < n; ) {
    char out = 0;
    size_t used = 1;
    if (kind[i] == '\\' && i + 1 < n) {
      used = 2;
      switch (kind[i + 1]) {
        case 'a': out = '\a'; break;
        case 'b': out = '\b'; break;
        case 'n': out = '\n'; break;
        case 'r': out = '\r'; break;
        case 't': out = '\t'; break;
        case 'x': if (i + 3 < n && kind[i + 2] == '1' && kind[i + 3] == 'b') {out = '\x1b'; used = 4;} break;
      }
    }
    if (out) {
      decoded[dlen] = dkind[dlen] = out; dlen++;
    } else {
      for (size_t k = 0; k < used; ++k, ++dlen) {decoded[dlen] = format[i + k]; dkind[dlen] = kind[i + k];}
    }
    i += used;
  }
}
static int sev; static const char * lname; static const rcutils_log_location_t * where; static const char * msg; static size_t mlen;
static const char * line_text;
static bool token(const char * t, size_t n)
{
#define IS(x) (n == sizeof(x) - 1 && memcmp(t, x, n) == 0)
  if (IS("severity")) {
    const char * s = sev == 0 ? "UNSET" : sev == 10 ? "DEBUG" : sev == 20 ? "INFO" : sev == 30 ? "WARN" : sev == 40 ? "ERROR" : "FATAL";
    put(s, strlen(s));
  } else if (IS("message")) {put(msg, mlen);} else if (IS("name")) {if (lname) {put(lname, strlen(lname));}
  } else if (IS("line_number")) {if (where) {put(line_text, strlen(line_text));}
  } else if (IS("function_name")) {if (where) {put(where->function_name, strlen(where->function_name));}
  } else if (IS("file_name")) {if (where) {put(where->file_name, strlen(where->file_name));}
  } else if (IS("time")) {put("0000000042.123456789", 20);} else if (IS("time_as_nanoseconds")) {put("0000000042123456789", 19);
  } else if (IS("date_time_with_ms")) {put("2023-05-06 07:08:42.123", 23);} else {return false;}
  return true;
}
static void expand(void)
{
  for (size_t i = 0; i < dlen; ) {
    if (dkind[i] == '{') {
      size_t e = i;
      while (e < dlen && dkind[e] != '}') {++e;}
      if (e < dlen && token(dkind + i + 1, e - i - 1)) {i = e + 1; continue;}
    }
    put(decoded + i, 1);
    ++i;
  }
}
void vp_main(void)
{
  size_t K = vp_param("K", 2), S = vp_param("S", SEGS), L = vp_param("L", 2);
  bool fail = vp_param("fail", 0);
  rcutils_allocator_t al = vp_allocator();
  vp_env("RCUTILS_CONSOLE_OUTPUT_FORMAT", "an earlier and longer format {name} {severity} {message} {{{{");
  VP_ASSERT(rcutils_logging_initialize_with_allocator(al) == RCUTILS_RET_OK && rcutils_logging_shutdown() == RCUTILS_RET_OK, "logging starts and stops");
  if (vp_param("long", 0)) {                 // around the limit of the format
    static const size_t lens[] = {2030, 2043, 2044, 2045, 2046, 2047, 2048, 2100};
    size_t n = lens[vp_choose(8)];
    while (flen < n) {format[flen] = kind[flen] = 'p'; ++flen;}
    format[flen] = '\0';
  }
  for (size_t k = vp_choose((uint32_t)K + 1); k > 0; --k) {seg(segs[vp_choose((uint32_t)S)]);}
  char * env = (char *)vp_heap_alloc(flen + 1);
  memcpy(env, format, flen + 1);
  vp_readonly(env, 1);
  vp_env("RCUTILS_CONSOLE_OUTPUT_FORMAT", env);
  if (flen == 0) {seg("[{severity}] [{time}] [{name}]: {message}"); VP_COVER(1, "default format");}
  size_t n = flen;
  if (n > 2047) {n = 2047; VP_COVER(1, "too long");}
  // an escape cut by the limit may go either way
  if (n < flen) {for (size_t i = n - 3; i < n; ++i) {VP_ASSUME(kind[i] != '\\');}}
  decode(n);
  VP_ASSERT(rcutils_logging_initialize_with_allocator(al) == RCUTILS_RET_OK, "logging starts");
  // the message
  char text[8], nm[8];
  mlen = vp_choose((uint32_t)L + 1);
  vp_string_len(text, mlen);
  msg = text;
  vp_string_len(nm, 2);
  lname = vp_choose(2) ? nm : NULL;
  static const int sevs[] = {20, 0, 10, 30, 40, 50};
  sev = sevs[K == 1 ? vp_choose(6) : 0];
  static const struct {size_t n; const char * t;} lines[] = {{7, "7"}, {0, "0"}, {987654321, "987654321"}};
  size_t li = vp_choose(K == 1 ? 3 : 1);
  char fn[3], file[3];
  vp_string_len(fn, 1); vp_string_len(file, 1);
  rcutils_log_location_t loc = {fn, file, lines[li].n};
  line_text = lines[li].t;
  where = (K == 1 ? vp_choose(2) : lname != NULL) ? &loc : NULL;
  expand();
  char buf[4] = "";
  rcutils_char_array_t out = {.buffer = buf, .owns_buffer = false, .buffer_length = 0, .buffer_capacity = sizeof buf, .allocator = al};
  if (fail) {
    vp_alloc_arm(VP_ANY_FAIL, 0);
    no_calendar = vp_choose(2);
  }
  size_t f = vp_failures;
  rcutils_ret_t r = rcutils_logging_format_message(where, sev, lname, 42123456789, msg, &out);
  if (r != RCUTILS_RET_OK) {
    VP_ASSERT(vp_failures > f || no_calendar, "a message is formatted unless memory is refused");
    VP_COVER(1, "refused");
  } else {
    VP_ASSERT(vp_failures == f, "refused memory is reported");
    VP_ASSERT(strlen(out.buffer) == wlen, "the output has the length of the expansion");
    VP_ASSERT(vp_same(out.buffer, want, wlen), "the output is the expansion of the format");
    VP_COVER(wlen > 30, "long output");
  }
  VP_ASSERT(rcutils_char_array_fini(&out) == RCUTILS_RET_OK, "the output is released");
  if (K == 1) {
    int odd = (int)vp_in32();
    VP_ASSUME(!((odd == 0) | (odd == 10) | (odd == 20) | (odd == 30) | (odd == 40) | (odd == 50)));
    rcutils_char_array_t o2 = {.buffer = buf, .owns_buffer = false, .buffer_length = 0, .buffer_capacity = sizeof buf, .allocator = al};
    (void)rcutils_logging_format_message(where, odd, lname, 42123456789, msg, &o2);      // must not misbehave
    VP_ASSERT(rcutils_char_array_fini(&o2) == RCUTILS_RET_OK, "the output is released");
  }
  VP_ASSERT(rcutils_logging_shutdown() == RCUTILS_RET_OK && vp_live == 0, "nothing leaks");
}
