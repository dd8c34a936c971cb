// The atomic helpers, from one thread and from several.
#include "vp.h"
#include "rcutils/stdatomic_helper.h"
static atomic_uint_least64_t u; static atomic_int_least64_t i; static atomic_bool b; static atomic_uintptr_t p;
static uint64_t got[3][4]; static uint32_t K, mode;
static void one(void)
{
  uint64_t x = vp_in64(), y = vp_in64(), z = vp_in64();
  rcutils_atomic_store(&u, x);
  VP_ASSERT(rcutils_atomic_load_uint64_t(&u) == x, "what is stored is loaded");
  VP_ASSERT(rcutils_atomic_exchange_uint64_t(&u, y) == x && rcutils_atomic_load_uint64_t(&u) == y, "an exchange returns the old value and stores the new");
  VP_ASSERT(rcutils_atomic_fetch_add_uint64_t(&u, z) == y && rcutils_atomic_load_uint64_t(&u) == y + z, "an addition returns the old value");
  uint64_t e = vp_in64(), was = e, now = y + z;
  bool ok = rcutils_atomic_compare_exchange_strong_uint_least64_t(&u, &e, x);
  VP_ASSERT(ok == (was == now) && rcutils_atomic_load_uint64_t(&u) == (ok ? x : now) && e == now, "a compare and exchange stores only over the expected value, and tells the actual one");
  VP_COVER(ok, "exchanged"); VP_COVER(!ok, "not exchanged");
  rcutils_atomic_store(&i, (int64_t)x);
  VP_ASSERT(rcutils_atomic_load_int64_t(&i) == (int64_t)x && rcutils_atomic_exchange_int64_t(&i, (int64_t)y) == (int64_t)x && rcutils_atomic_load_int64_t(&i) == (int64_t)y, "signed values too");
  bool v = vp_in1(), w = vp_in1();
  rcutils_atomic_store(&b, v);
  VP_ASSERT(rcutils_atomic_load_bool(&b) == v && rcutils_atomic_exchange_bool(&b, w) == v && rcutils_atomic_load_bool(&b) == w, "truth values too");
  rcutils_atomic_store(&p, (uintptr_t)x);
  VP_ASSERT(rcutils_atomic_load_uintptr_t(&p) == (uintptr_t)x && rcutils_atomic_exchange_uintptr_t(&p, (uintptr_t)y) == (uintptr_t)x && rcutils_atomic_load_uintptr_t(&p) == (uintptr_t)y, "addresses too");
}
static void run(void * a)
{
  uint32_t me = (uint32_t)(uintptr_t)a;
  for (uint32_t k = 0; k < K; ++k) {
    switch (mode) {
      case 0: got[me][k] = rcutils_atomic_fetch_add_uint64_t(&u, 1); break;
      case 1: got[me][k] = rcutils_atomic_exchange_uint64_t(&u, 1 + me * K + k); break;
      case 2: {
          uint64_t e = rcutils_atomic_load_uint64_t(&u);
          while (!rcutils_atomic_compare_exchange_strong_uint_least64_t(&u, &e, e + 1)) {}
          got[me][k] = e; break;
        }
      default: got[me][k] = !rcutils_atomic_exchange_bool(&b, true); break;
    }
  }
}
void vp_main(void)
{
  uint32_t n = (uint32_t)vp_param("N", 1);
  K = (uint32_t)vp_param("K", 2);
  if (n == 1) {one(); return;}
  mode = vp_choose(4);
  for (uint32_t t = 1; t < n; ++t) {vp_spawn(run, (void *)(uintptr_t)t);}
  run(NULL);
  vp_join_all();
  uint64_t end = rcutils_atomic_load_uint64_t(&u), total = n * K, won = 0;
  for (uint32_t v = 0; v < total; ++v) {
    uint32_t seen = 0;
    for (uint32_t t = 0; t < n; ++t) {for (uint32_t k = 0; k < K; ++k) {seen += got[t][k] == v; won += v == 0 && got[t][k];}}
    if (mode == 0 || mode == 2) {VP_ASSERT(seen == 1 && end == total, "no addition is lost");}
    if (mode == 1) {VP_ASSERT(seen + (end == v) == 1, "every value stored is seen by exactly one exchange, or is the last");}
  }
  if (mode == 3) {VP_ASSERT(won == 1, "exactly one wins");}
  VP_COVER(mode == 0 && got[0][0] == 1, "interleaved");
}
