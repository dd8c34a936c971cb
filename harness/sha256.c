// C14: the digest is SHA-256 of the bytes fed in, however they were cut into updates.
#include "vp.h"
#include "rcutils/sha256.h"

// FIPS 180-4, section 6.2.2, written from the standard. W is kept as a 16 word ring and the working variables are rotated by index.
static const uint32_t K256[64] = {
  0x428a2f98u, 0x71374491u, 0xb5c0fbcfu, 0xe9b5dba5u, 0x3956c25bu, 0x59f111f1u, 0x923f82a4u, 0xab1c5ed5u, 0xd807aa98u, 0x12835b01u, 0x243185beu,
  0x550c7dc3u, 0x72be5d74u, 0x80deb1feu, 0x9bdc06a7u, 0xc19bf174u, 0xe49b69c1u, 0xefbe4786u, 0x0fc19dc6u, 0x240ca1ccu, 0x2de92c6fu, 0x4a7484aau,
  0x5cb0a9dcu, 0x76f988dau, 0x983e5152u, 0xa831c66du, 0xb00327c8u, 0xbf597fc7u, 0xc6e00bf3u, 0xd5a79147u, 0x06ca6351u, 0x14292967u, 0x27b70a85u,
  0x2e1b2138u, 0x4d2c6dfcu, 0x53380d13u, 0x650a7354u, 0x766a0abbu, 0x81c2c92eu, 0x92722c85u, 0xa2bfe8a1u, 0xa81a664bu, 0xc24b8b70u, 0xc76c51a3u,
  0xd192e819u, 0xd6990624u, 0xf40e3585u, 0x106aa070u, 0x19a4c116u, 0x1e376c08u, 0x2748774cu, 0x34b0bcb5u, 0x391c0cb3u, 0x4ed8aa4au, 0x5b9cca4fu,
  0x682e6ff3u, 0x748f82eeu, 0x78a5636fu, 0x84c87814u, 0x8cc70208u, 0x90befffau, 0xa4506cebu, 0xbef9a3f7u, 0xc67178f2u};
static uint32_t rotr(uint32_t x, unsigned n) {return (x >> n) | (x << (32 - n));}
static void compress(uint32_t H[8], const uint8_t * p)
{
  uint32_t W[16], v[8];
  for (int t = 0; t < 8; ++t) {v[t] = H[t];}
  for (int t = 0; t < 64; ++t) {
    if (t < 16) {
      W[t] = (uint32_t)p[4 * t] << 24 | (uint32_t)p[4 * t + 1] << 16 | (uint32_t)p[4 * t + 2] << 8 | (uint32_t)p[4 * t + 3];
    } else {
      uint32_t w15 = W[(t - 15) & 15], w2 = W[(t - 2) & 15];
      W[t & 15] += (rotr(w15, 7) ^ rotr(w15, 18) ^ w15 >> 3) + W[(t - 7) & 15] + (rotr(w2, 17) ^ rotr(w2, 19) ^ w2 >> 10);
    }
#define V(i) v[((i) - t) & 7]
    uint32_t e = V(4), a = V(0);
    uint32_t T1 = V(7) + (rotr(e, 6) ^ rotr(e, 11) ^ rotr(e, 25)) + ((e & V(5)) ^ (~e & V(6))) + K256[t] + W[t & 15];
    uint32_t T2 = (rotr(a, 2) ^ rotr(a, 13) ^ rotr(a, 22)) + ((a & V(1)) ^ (a & V(2)) ^ (V(1) & V(2)));
    V(3) += T1;
    V(7) = T1 + T2;
#undef V
  }
  for (int t = 0; t < 8; ++t) {H[t] += v[t];}
}
static const uint32_t H0[8] = {0x6a09e667u, 0xbb67ae85u, 0x3c6ef372u, 0xa54ff53au, 0x510e527fu, 0x9b05688cu, 0x1f83d9abu, 0x5be0cd19u};
// digest of a message whose first `before` bytes (a multiple of 64) led to H, and whose rest is p[0..n)
static void finish(uint32_t H[8], uint64_t before, const uint8_t * p, size_t n, uint8_t out[32])
{
  uint8_t last[128] = {0};
  uint64_t bits = (before + n) * 8;
  for (; n >= 64; n -= 64, p += 64) {compress(H, p);}
  memcpy(last, p, n);
  last[n] = 0x80;
  size_t end = n < 56 ? 64 : 128;
  for (int i = 0; i < 8; ++i) {last[end - 1 - i] = (uint8_t)(bits >> (8 * i));}
  compress(H, last);
  if (end == 128) {compress(H, last + 64);}
  for (int i = 0; i < 32; ++i) {out[i] = (uint8_t)(H[i / 4] >> (24 - 8 * (i % 4)));}
}
static void reference(const uint8_t * p, size_t n, uint8_t out[32])
{
  uint32_t H[8];
  memcpy(H, H0, sizeof H);
  finish(H, 0, p, n, out);
}
static uint8_t out_block[34];
static void final_(rcutils_sha256_ctx_t * c, uint8_t * d)     // the digest, and nothing around it, is written
{
  out_block[0] = 0x5a; out_block[33] = 0xc3;
  rcutils_sha256_final(c, out_block + 1);
  VP_ASSERT(out_block[0] == 0x5a && out_block[33] == 0xc3, "exactly 32 bytes are written");
  memcpy(d, out_block + 1, 32);
}

static void vectors(void)       // the oracle itself, against the standard's examples
{
  static const char * const msg[] = {"", "abc", "abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq",
    "abcdefghbcdefghicdefghijdefghijkefghijklfghijklmghijklmnhijklmnoijklmnopjklmnopqklmnopqrlmnopqrsmnopqrstnopqrstu"};
  static const uint32_t dig[][8] = {
    {0xe3b0c442u, 0x98fc1c14u, 0x9afbf4c8u, 0x996fb924u, 0x27ae41e4u, 0x649b934cu, 0xa495991bu, 0x7852b855u},
    {0xba7816bfu, 0x8f01cfeau, 0x414140deu, 0x5dae2223u, 0xb00361a3u, 0x96177a9cu, 0xb410ff61u, 0xf20015adu},
    {0x248d6a61u, 0xd20638b8u, 0xe5c02693u, 0x0c3e6039u, 0xa33ce459u, 0x64ff2167u, 0xf6ecedd4u, 0x19db06c1u},
    {0xcf5b16a7u, 0x78af8380u, 0x036ce59eu, 0x7b049237u, 0x0b249b11u, 0xe8f07a51u, 0xafac4503u, 0x7afee9d1u}};
  for (int i = 0; i < 4; ++i) {
    uint8_t a[32], b[32];
    reference((const uint8_t *)msg[i], strlen(msg[i]), a);
    rcutils_sha256_ctx_t c;
    rcutils_sha256_init(&c);
    rcutils_sha256_update(&c, (const uint8_t *)msg[i], strlen(msg[i]));
    final_(&c, b);
    for (int k = 0; k < 32; ++k) {
      VP_ASSERT(a[k] == (uint8_t)(dig[i][k / 4] >> (24 - 8 * (k % 4))), "oracle: FIPS example");
      VP_ASSERT(b[k] == a[k], "digest of a FIPS example");
    }
  }
}

int vp_main(void)
{
  static const uint16_t lens[] = {0, 1, 3, 31, 54, 55, 56, 57, 62, 63, 64, 65, 118, 119, 120, 121, 127, 128, 129, 191, 192};
  size_t nl = vp_param("all", 0) ? 194 : sizeof lens / sizeof lens[0];
  uint8_t want[32], got[32], again[32];
  rcutils_sha256_ctx_t c;
  if (vp_param("long", 0)) {
    // A message of any length: 64 bytes fed, then the context advanced by a whole number of further blocks that leave an arbitrary
    // chaining value; applies when the context counts completed blocks in bits, as the public structure shows it to.
    uint8_t first[64];
    vp_bytes(first, 64);
    rcutils_sha256_init(&c);
    rcutils_sha256_update(&c, first, 64);
    VP_ASSUME(c.bitlen == 512 && c.datalen == 0);
    uint64_t blocks = vp_in64();
    VP_ASSUME((blocks >= 1) & (blocks < ((uint64_t)1 << 54)));
    uint32_t H[8];
    for (int i = 0; i < 8; ++i) {c.state[i] = H[i] = vp_in32();}
    c.bitlen = blocks * 512;
    size_t n = lens[vp_choose(nl)];
    VP_ASSUME(n <= 130);
    uint8_t * p = vp_heap_alloc(n ? n : 1);
    vp_bytes(p, n);
    rcutils_sha256_update(&c, p, n);
    final_(&c, got);
    finish(H, blocks * 64, p, n, want);
    VP_ASSERT(vp_same(got, want, 32), "digest of a long message");
    VP_COVER(n == 0, "long message, nothing pending");
    VP_COVER(n >= 120, "long message, spilling padding");
    return 0;
  }
  uint32_t mode = vp_choose(3);
  if (mode == 0) {vectors(); return 0;}
  size_t n = vp_choose(nl);
  if (!vp_param("all", 0)) {n = lens[n];}
  uint8_t * p = vp_heap_alloc(n ? n : 1);
  uint8_t copy[200];
  vp_bytes(p, n);
  memcpy(copy, p, n);
  if (mode == 1) {
    rcutils_sha256_init(&c);
    rcutils_sha256_update(&c, n ? p : NULL, n);
    final_(&c, got);
    reference(p, n, want);
    VP_ASSERT(vp_same(got, want, 32), "the digest is SHA-256 of the message");
    VP_ASSERT(vp_same(p, copy, n), "the message is left alone");
    // a context can be used again after another init, whatever it went through
    if (n <= 3) {
      rcutils_sha256_init(&c);
      rcutils_sha256_update(&c, p, n);
      final_(&c, again);
      VP_ASSERT(vp_same(again, want, 32), "a context initialized again starts afresh");
    }
    VP_COVER(n == 0, "empty message");
    VP_COVER(n == 128, "whole blocks only");
    return 0;
  }
  // cut into three updates
  static const uint16_t cuts[] = {0, 1, 8, 55, 63, 64, 65, 120, 127, 128};
  size_t nc = vp_param("all", 0) ? n + 1 : sizeof cuts / sizeof cuts[0];
  size_t a = vp_choose(nc), b = vp_choose(4);
  if (!vp_param("all", 0)) {a = cuts[a];}
  VP_ASSUME(a <= n);
  b = b == 0 ? a : b == 1 ? a + 1 : b == 2 ? a + 64 : n - 1;
  VP_ASSUME(b >= a && b <= n);
  rcutils_sha256_init(&c);
  rcutils_sha256_update(&c, p, n);
  final_(&c, want);
  rcutils_sha256_init(&c);
  rcutils_sha256_update(&c, p, a);
  rcutils_sha256_ctx_t fork = c;             // contexts are plain values: a copy continues independently
  rcutils_sha256_update(&c, p + a, b - a);
  rcutils_sha256_update(&c, p + b, n - b);
  final_(&c, got);
  VP_ASSERT(vp_same(got, want, 32), "the digest does not depend on how the message was cut");
  if (n <= 65) {
    rcutils_sha256_update(&fork, p + a, n - a);
    final_(&fork, again);
    VP_ASSERT(vp_same(again, want, 32), "a copied context continues on its own");
  }
  VP_COVER(a > 0 && b > a && n > b && n > 64, "three pieces across a block boundary");
  return 0;
}
