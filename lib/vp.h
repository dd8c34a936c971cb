// Harness vocabulary. Every symbolic input is drawn through one of the functions below, in program
// order. The engine (vpx) makes each a fresh symbolic value; the native build reads back, in the same
// order, the values the solver chose, so that a counterexample can be replayed against the real build.
#ifndef VP_H_
#define VP_H_
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>

uint64_t vp_in64(void);
uint32_t vp_in32(void);
uint8_t vp_in8(void);
_Bool vp_in1(void);
uint32_t vp_choose(uint32_t n);                 // a case split over 0..n-1
uint64_t vp_concretize(uint64_t v);             // a case split over the feasible values of v
uint64_t vp_param(const char * name, uint64_t dflt);   // bound chosen by the driver
void vp_assume_(_Bool c);
void vp_assert_(_Bool c, const char * msg);
void vp_cover_(_Bool c, const char * label);    // vacuity guard: must be reachable with c true
void * vp_heap_alloc(size_t n);
void vp_heap_free(void * p);
size_t vp_heap_size(void * p);
int vp_engine(void);                            // 1 under the engine, 0 in the native build
uint32_t vp_spawn(void (*fn)(void *), void * arg);
void vp_join_all(void);
void vp_yield(void);
void vp_readonly(const void * p, _Bool on);     // engine: writes to the object are violations
void vp_print(const char * s, uint64_t v);

#define VP_ASSERT(c, msg) vp_assert_((c) ? 1 : 0, msg)
#define VP_ASSUME(c) vp_assume_((c) ? 1 : 0)
#define VP_COVER(c, label) vp_cover_((c) ? 1 : 0, label)

// Stubs of libc functions: in the native build calls are redirected with -Wl,--wrap=<name>.
#ifdef VP_NATIVE
#define VP_STUB(name) __wrap_ ## name
#define VP_REAL(name) __real_ ## name
#else
#define VP_STUB(name) name
#endif

static inline uint64_t vp_range(uint64_t lo, uint64_t hi)     // symbolic, lo..hi
{
  uint64_t v = vp_in64();
  vp_assume_((v >= lo) & (v <= hi));
  return v;
}
static inline uint8_t vp_byte_below(uint8_t n)
{
  uint8_t v = vp_in8();
  vp_assume_(v < n);
  return v;
}
static inline void vp_bytes(void * p, size_t n)
{
  for (size_t i = 0; i < n; ++i) {((unsigned char *)p)[i] = vp_in8();}
}
// Any string of length exactly len (len concrete) in buf[len + 1].
static inline void vp_string_len(char * buf, size_t len)
{
  for (size_t i = 0; i < len; ++i) {
    uint8_t c = vp_in8();
    vp_assume_(c != 0);
    buf[i] = (char)c;
  }
  buf[len] = '\0';
}
// Any string of length 0..max in buf[max + 1]; returns its (concrete) length.
static inline size_t vp_string(char * buf, size_t max)
{
  size_t len = vp_choose((uint32_t)max + 1);
  vp_string_len(buf, len);
  return len;
}
// As above in a heap block of exactly len + 1 bytes (out-of-bounds reads are then always visible).
static inline char * vp_heap_string(size_t max, size_t * len_out)
{
  size_t len = vp_choose((uint32_t)max + 1);
  char * s = (char *)vp_heap_alloc(len + 1);
  vp_string_len(s, len);
  if (len_out) {*len_out = len;}
  return s;
}
// As vp_heap_string; with the parameter "long" set, a text of one of so many greater lengths instead, symbolic in three places.
static inline char * vp_heap_text(size_t max, size_t * len_out)
{
  static const uint16_t lens[] = {16, 31, 64, 127, 255, 256, 1023, 1024, 4096, 15, 32, 63, 65, 128, 254, 257, 511, 512, 513, 1025, 2047, 2048, 4095, 5000};
  uint64_t long_ = vp_param("long", 0);
  if (!long_) {return vp_heap_string(max, len_out);}
  size_t len = lens[vp_choose((uint32_t)long_)];
  char * s = (char *)vp_heap_alloc(len + 1);
  memset(s, 'p', len);
  for (size_t i = 0; i < 3; ++i) {
    uint8_t c = vp_in8();
    vp_assume_(c != 0);
    s[i == 2 ? len - 1 : i * (len / 2)] = (char)c;
  }
  s[len] = '\0';
  if (len_out) {*len_out = len;}
  return s;
}
// A heap string over an explicit alphabet.
static inline char * vp_heap_string_of(size_t max, const char * alphabet, size_t * len_out)
{
  size_t len = vp_choose((uint32_t)max + 1), na = 0;
  while (alphabet[na] != '\0') {++na;}
  char * s = (char *)vp_heap_alloc(len + 1);
  for (size_t i = 0; i < len; ++i) {
    uint8_t c = vp_in8();
    _Bool ok = 0;
    for (size_t k = 0; k < na; ++k) {ok = ok | (c == (uint8_t)alphabet[k]);}
    vp_assume_(ok);
    s[i] = (char)c;
  }
  s[len] = '\0';
  if (len_out) {*len_out = len;}
  return s;
}
// branch-free comparison of n bytes
static inline _Bool vp_same(const void * a, const void * b, size_t n)
{
  _Bool r = 1;
  for (size_t i = 0; i < n; ++i) {r = r & (((const unsigned char *)a)[i] == ((const unsigned char *)b)[i]);}
  return r;
}
#endif
