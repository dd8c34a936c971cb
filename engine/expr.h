// Hash-consed bit-vector expressions (width 1..64) with local simplification.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <deque>
#include <bitset>
#include <algorithm>

enum Op : uint8_t {
  CONST, VAR, ADD, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
  EQ, ULT, ULE, SLT, SLE, ITE, CONCAT, EXTRACT, ZEXT, SEXT
};
struct Node;
typedef const Node * E;
struct Node {
  Op op;
  uint8_t w;
  int32_t var;       // -1 no variable, >= 0 exactly that variable, -2 several
  uint32_t id;
  uint64_t val;      // CONST: value, VAR: index, EXTRACT: low bit
  E a, b, c;
};

static inline uint64_t maskw(unsigned w) {return w >= 64 ? ~0ULL : ((1ULL << w) - 1);}
static inline int64_t sx(uint64_t v, unsigned w)
{
  if (w >= 64) {return (int64_t)v;}
  uint64_t s = 1ULL << (w - 1);
  v &= maskw(w);
  return (int64_t)((v ^ s) - s);
}

struct Key {Op op; uint8_t w; uint64_t val; E a, b, c;
  bool operator==(const Key & o) const
  {return op == o.op && w == o.w && val == o.val && a == o.a && b == o.b && c == o.c;}};
struct KeyHash {size_t operator()(const Key & k) const {
    uint64_t h = k.op * 0x9E3779B97F4A7C15ULL + k.w;
    auto mix = [&h](uint64_t x) {h ^= x + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 33;};
    mix(k.val); mix(k.a ? k.a->id + 1 : 0); mix(k.b ? k.b->id + 1 : 0); mix(k.c ? k.c->id + 1 : 0);
    return h;
  }};

extern std::deque<Node> g_nodes;
extern std::unordered_map<Key, E, KeyHash> g_table;

static inline int32_t joinvar(int32_t x, int32_t y)
{
  if (x == -1) {return y;}
  if (y == -1) {return x;}
  if (x == y) {return x;}
  return -2;
}
static inline E intern(Op op, uint8_t w, uint64_t val, E a = nullptr, E b = nullptr, E c = nullptr)
{
  Key k{op, w, val, a, b, c};
  auto it = g_table.find(k);
  if (it != g_table.end()) {return it->second;}
  int32_t v = -1;
  if (op == VAR) {v = (int32_t)val;}
  if (a) {v = joinvar(v, a->var);}
  if (b) {v = joinvar(v, b->var);}
  if (c) {v = joinvar(v, c->var);}
  g_nodes.push_back(Node{op, w, v, (uint32_t)g_nodes.size(), val, a, b, c});
  E n = &g_nodes.back();
  g_table.emplace(k, n);
  return n;
}
static inline E mkConst(uint64_t v, unsigned w) {return intern(CONST, (uint8_t)w, v & maskw(w));}
static inline E mkVar(unsigned idx, unsigned w) {return intern(VAR, (uint8_t)w, idx);}
static inline bool isC(E e) {return e->op == CONST;}
static inline bool isC(E e, uint64_t v) {return e->op == CONST && e->val == (v & maskw(e->w));}
static inline E mkTrue() {static E t = mkConst(1, 1); return t;}
static inline E mkFalse() {static E t = mkConst(0, 1); return t;}

uint64_t foldBin(Op op, unsigned w, uint64_t x, uint64_t y);
E mkBin(Op op, E a, E b);
E mkIte(E c, E a, E b);
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned lo, unsigned w);
E mkZext(E a, unsigned w);
E mkSext(E a, unsigned w);
static inline E mkAdd(E a, E b) {return mkBin(ADD, a, b);}
static inline E mkMul(E a, E b) {return mkBin(MUL, a, b);}
static inline E mkSub(E a, E b) {return mkBin(ADD, a, mkBin(MUL, b, mkConst(~0ULL, b->w)));}
static inline E mkAnd(E a, E b) {return mkBin(AND, a, b);}
static inline E mkOr(E a, E b) {return mkBin(OR, a, b);}
static inline E mkXor(E a, E b) {return mkBin(XOR, a, b);}
static inline E mkNot(E a) {return mkBin(XOR, a, mkConst(~0ULL, a->w));}
static inline E mkEq(E a, E b) {return mkBin(EQ, a, b);}
static inline E mkNe(E a, E b) {return mkNot(mkEq(a, b));}
static inline E mkUlt(E a, E b) {return mkBin(ULT, a, b);}
static inline E mkUle(E a, E b) {return mkBin(ULE, a, b);}
static inline E mkSlt(E a, E b) {return mkBin(SLT, a, b);}
static inline E mkSle(E a, E b) {return mkBin(SLE, a, b);}
std::string show(E e, int depth = 6);

struct Model {
  static uint64_t next;
  uint64_t id;
  std::vector<uint64_t> v;
  Model() : id(next++) {}
  Model(const Model & o) : id(next++), v(o.v) {}
  Model & operator=(const Model &) = delete;
  uint64_t get(size_t i) const {return i < v.size() ? v[i] : 0;}
};
struct Evaluator {
  std::vector<uint32_t> epoch;
  std::vector<uint64_t> memo;
  uint32_t cur = 0;
  const Model * m = nullptr;
  void setModel(const Model * mm) {m = mm; ++cur;}
  uint64_t eval(E e);
};
