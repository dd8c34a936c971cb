// C16: time points as text.
#include "vp.h"
#include <stdio.h>
#include <time.h>
#include "rcutils/time.h"
static char digits[20];        // most significant first, 19 of them
static int64_t value;
static bool neg;
static time_t asked;
static unsigned asks;
static struct tm local;
static bool local_fails;
struct tm * VP_STUB(localtime_r)(const time_t * t, struct tm * r)
{
  asked = *t; asks++;
  if (local_fails) {return NULL;}
  *r = local;
  return r;
}
// any 64-bit time point, as its 19 digits
static void any_time(void)
{
  static const char max[] = "9223372036854775807";
  uint64_t v = 0;
  size_t p = vp_choose(19);        // equal to the largest up to p, smaller from there; or the largest; or the smallest
  uint32_t kind = p == 0 ? vp_choose(3) : 0;
  for (size_t i = 0; i < 19; ++i) {
    uint8_t m = (uint8_t)(max[i] - '0'), d;
    if (kind != 0 || i < p) {d = m;} else if (i == p) {VP_ASSUME(m > 0); d = (uint8_t)(vp_in8() % m);} else {d = (uint8_t)(vp_in8() % 10);}
    digits[i] = (char)('0' + d);
    v = v * 10 + d;
  }
  if (kind == 2) {neg = true; digits[18] = '8'; value = INT64_MIN; return;}
  neg = vp_choose(2);
  if (neg) {VP_ASSUME(v != 0);}
  value = neg ? -(int64_t)v : (int64_t)v;
}
// time points that differ from a given one in two digits
static void few_times(void)
{
  static const char * const base[] = {"0000000000000000000", "1234567890123456789", "9223372036854775807", "0000000000999999999", "4611686018000000500"};
  const char * b = base[vp_choose(5)];
  size_t p = vp_choose(19), q = (p + 4) % 19;
  uint64_t v = 0;
  uint8_t x = vp_in8();                 // both digits
  VP_ASSUME(x < 100);
  if (b[0] == '9') {VP_ASSUME(x / 10 <= b[p] - '0' && x % 10 <= b[q] - '0');}
  for (size_t i = 0; i < 19; ++i) {
    uint8_t d = (uint8_t)(i == p ? x / 10 : i == q ? x % 10 : b[i] - '0');
    digits[i] = (char)('0' + d);
    v = v * 10 + d;
  }
  VP_ASSUME(v <= INT64_MAX);
  neg = vp_choose(2);
  if (neg) {VP_ASSUME(v != 0);}
  value = neg ? -(int64_t)v : (int64_t)v;
}
static char want[64];
static size_t wn;
static void put(char c) {want[wn++] = c;}
static void put2(unsigned v) {put((char)('0' + v / 10 % 10)); put((char)('0' + v % 10));}
int vp_main(void)
{
  uint32_t fn = (uint32_t)vp_param("fn", 0);
  if (vp_choose(2) == 0) {
    char b[4] = "zz";
    rcutils_time_point_value_t t = (int64_t)vp_in64();
    rcutils_ret_t (* f)(const rcutils_time_point_value_t *, char *, size_t) = fn == 0 ? rcutils_time_point_value_as_nanoseconds_string : fn == 1 ? rcutils_time_point_value_as_seconds_string : rcutils_time_point_value_as_date_string;
    VP_ASSERT(f(NULL, b, sizeof b) == RCUTILS_RET_INVALID_ARGUMENT && f(&t, NULL, sizeof b) == RCUTILS_RET_INVALID_ARGUMENT, "NULL is refused");
    VP_ASSERT(f(&t, b, 0) == RCUTILS_RET_OK && b[0] == 'z', "an empty buffer is left alone");
    return 0;
  }
  bool few = vp_param("few", 0);
  if (few) {few_times();} else {any_time();}
  size_t n;
  { static const uint8_t sizes[] = {1, 2, 11, 19, 20, 21, 22, 23, 24, 25, 32, 40};
    n = vp_param("all", 0) ? 1 + vp_choose(40) : few ? 40 : sizes[vp_choose(sizeof sizes)]; }
  char * s = vp_heap_alloc(n);
  memset(s, 0x7e, n);
  rcutils_ret_t r;
  if (fn == 2) {
    local_fails = vp_choose(8) == 0;
    local.tm_year = 70 + (int)(vp_in32() % 293); local.tm_mon = (int)(vp_in8() % 12); local.tm_mday = 1 + (int)(vp_in8() % 31);
    local.tm_hour = (int)(vp_in8() % 24); local.tm_min = (int)(vp_in8() % 60); local.tm_sec = (int)(vp_in8() % 61);
    r = rcutils_time_point_value_as_date_string(&value, s, n);
    if (local_fails) {VP_ASSERT(r == RCUTILS_RET_ERROR, "a time that cannot be converted is an error"); return 0;}
    uint64_t sec = 0;
    for (int i = 0; i < 10; ++i) {sec = sec * 10 + (uint64_t)(digits[i] - '0');}
    VP_ASSERT(asks >= 1, "the date is a local date");
    if (!neg) {VP_ASSERT((uint64_t)asked == sec, "the date is that of the time point's second");}
    unsigned y = (unsigned)local.tm_year + 1900;
    put((char)('0' + y / 1000)); put((char)('0' + y / 100 % 10)); put2(y % 100); put('-'); put2((unsigned)local.tm_mon + 1); put('-'); put2((unsigned)local.tm_mday); put(' ');
    put2((unsigned)local.tm_hour); put(':'); put2((unsigned)local.tm_min); put(':'); put2((unsigned)local.tm_sec); put('.');
    for (int i = 10; i < 13; ++i) {put(digits[i]);}
    if (neg) {wn -= 3;}     // the fraction of a time before the epoch is not specified
  } else {
    r = fn == 0 ? rcutils_time_point_value_as_nanoseconds_string(&value, s, n) : rcutils_time_point_value_as_seconds_string(&value, s, n);
    if (neg) {put('-');}
    for (int i = 0; i < 19; ++i) {if (fn == 1 && i == 10) {put('.');} put(digits[i]);}
  }
  VP_ASSERT(r == RCUTILS_RET_OK, "formatting succeeds, truncated or not");
  size_t m = wn < n - 1 ? wn : n - 1;
  VP_ASSERT(vp_same(s, want, m), fn == 0 ? "sign and 19 zero padded digits" : fn == 1 ? "sign, 10 digits, point, 9 digits" : "local date and time with milliseconds");
  if (!(fn == 2 && neg)) {
    VP_ASSERT(s[m] == '\0', "the text is terminated, cut where the buffer ends");
    VP_COVER(wn > n - 1, "truncated");
  } else {
    VP_ASSERT(s[n <= 24 ? n - 1 : 23] == '\0', "the text is terminated, cut where the buffer ends");
  }
  VP_COVER(wn <= n - 1, "fits");
  return 0;
}
