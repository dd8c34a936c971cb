#include "expr.h"
std::deque<Node> g_nodes;
uint64_t Model::next = 0;
std::unordered_map<Key, E, KeyHash> g_table;

uint64_t foldBin(Op op, unsigned w, uint64_t x, uint64_t y)
{
  uint64_t m = maskw(w);
  x &= m; y &= m;
  switch (op) {
    case ADD: return (x + y) & m;
    case MUL: return (x * y) & m;
    case UDIV: return y ? x / y : m;
    case UREM: return y ? x % y : x;
    case SDIV: {
        int64_t a = sx(x, w), b = sx(y, w);
        if (b == 0) {return a < 0 ? 1 : m;}
        if (b == -1) {return (0 - (uint64_t)a) & m;}
        return (uint64_t)(a / b) & m;
      }
    case SREM: {
        int64_t a = sx(x, w), b = sx(y, w);
        if (b == 0) {return x;}
        if (b == -1) {return 0;}
        return (uint64_t)(a % b) & m;
      }
    case AND: return x & y;
    case OR: return x | y;
    case XOR: return x ^ y;
    case SHL: return y >= w ? 0 : (x << y) & m;
    case LSHR: return y >= w ? 0 : x >> y;
    case ASHR: return (uint64_t)(sx(x, w) >> (y >= w ? (w - 1 > 63 ? 63 : w - 1) : y)) & m;
    case EQ: return x == y;
    case ULT: return x < y;
    case ULE: return x <= y;
    case SLT: return sx(x, w) < sx(y, w);
    case SLE: return sx(x, w) <= sx(y, w);
    default: abort();
  }
}

// ---- canonical form of bitwise functions of at most four leaves (truth table) ------------------
// Two different spellings of the same bitwise function (Ch, Maj, ...) become the same node.
static bool bitwise(E e) {return e->op == AND || e->op == OR || e->op == XOR;}
static bool collectLeaves(E e, std::vector<E> & leaves, int & budget)
{
  if (--budget < 0) {return false;}
  if (isC(e)) {return true;}
  if (bitwise(e)) {return collectLeaves(e->a, leaves, budget) && collectLeaves(e->b, leaves, budget);}
  if (std::find(leaves.begin(), leaves.end(), e) == leaves.end()) {
    if (leaves.size() >= 4) {return false;}
    leaves.push_back(e);
  }
  return true;
}
// algebraic normal form: xor over the subsets of leaves of (constant & their conjunction); unique
struct Anf {uint64_t k[16];};
static Anf combine(Op op, const Anf & x, const Anf & y)
{
  Anf r{};
  if (op != XOR) {
    for (int i = 0; i < 16; ++i) {
      if (!x.k[i]) {continue;}
      for (int j = 0; j < 16; ++j) {r.k[i | j] ^= x.k[i] & y.k[j];}
    }
  }
  if (op != AND) {for (int i = 0; i < 16; ++i) {r.k[i] ^= x.k[i] ^ y.k[i];}}
  return r;
}
static Anf anfOf(E e, const std::vector<E> & leaves, uint64_t ones)
{
  Anf r{};
  if (isC(e)) {r.k[0] = e->val; return r;}
  for (size_t i = 0; i < leaves.size(); ++i) {if (leaves[i] == e) {r.k[1 << i] = ones; return r;}}
  return combine(e->op, anfOf(e->a, leaves, ones), anfOf(e->b, leaves, ones));
}
static E fromAnf(const Anf & f, const std::vector<E> & leaves, unsigned w)
{
  E r = nullptr;
  for (int i = 1; i < 16; ++i) {
    if (!f.k[i]) {continue;}
    E t = nullptr;
    for (int k = 0; k < 4; ++k) {
      if (i & (1 << k)) {
        E x = leaves[k], y = t;
        if (!y) {t = x;} else {
          if (x->id > y->id) {std::swap(x, y);}
          t = intern(AND, (uint8_t)w, 0, x, y);
        }
      }
    }
    if (f.k[i] != maskw(w)) {t = intern(AND, (uint8_t)w, 0, t, mkConst(f.k[i], w));}
    r = r ? intern(XOR, (uint8_t)w, 0, r, t) : t;
  }
  if (f.k[0] || !r) {
    E c = mkConst(f.k[0], w);
    r = r ? intern(XOR, (uint8_t)w, 0, r, c) : c;
  }
  return r;
}
static E canonBitwise(Op op, E a, E b)
{
  // only for machine words; booleans and bytes stay as written
  if (a->w < 32) {return nullptr;}
  if (isC(a) || isC(b)) {if (!bitwise(isC(a) ? b : a)) {return nullptr;}}
  std::vector<E> leaves;
  int budget = 24;
  if (!collectLeaves(a, leaves, budget) || !collectLeaves(b, leaves, budget)) {return nullptr;}
  if ((isC(a) || isC(b)) && leaves.size() < 2 && !isC(a, ~0ULL) && !isC(b, ~0ULL)) {return nullptr;}
  std::sort(leaves.begin(), leaves.end(), [](E x, E y) {return x->id < y->id;});
  uint64_t ones = maskw(a->w);
  return fromAnf(combine(op, anfOf(a, leaves, ones), anfOf(b, leaves, ones)), leaves, a->w);
}

// ---- sums: flattened into constant + sum of coeff*term, ordered ---------------------------------
static bool noWrap(const std::vector<std::pair<E, uint64_t>> & t, uint64_t k, unsigned w);
static void flattenSum(E e, uint64_t coef, std::vector<std::pair<E, uint64_t>> & terms, uint64_t & k, int & budget)
{
  if (e->op == CONST) {k += coef * e->val; return;}
  if (--budget > 0) {
    if (e->op == ADD) {flattenSum(e->a, coef, terms, k, budget); flattenSum(e->b, coef, terms, k, budget); return;}
    if (e->op == MUL && isC(e->b)) {flattenSum(e->a, coef * e->b->val, terms, k, budget); return;}
    if (e->op == ZEXT && e->a->op == ADD) {        // widening a sum that cannot wrap
      std::vector<std::pair<E, uint64_t>> t; uint64_t c = 0;
      flattenSum(e->a, 1, t, c, budget);
      if (noWrap(t, c, e->a->w)) {
        k += coef * (c & maskw(e->a->w));
        for (auto & p : t) {
          E z = mkZext(p.first, e->w);
          uint64_t q = coef * (p.second & maskw(e->a->w));
          bool found = false;
          for (auto & o : terms) {if (o.first == z) {o.second += q; found = true; break;}}
          if (!found) {terms.push_back({z, q});}
        }
        return;
      }
    }
  }
  for (auto & t : terms) {if (t.first == e) {t.second += coef; return;}}
  terms.push_back({e, coef});
}
static E rawMulC(E a, uint64_t c)
{
  c &= maskw(a->w);
  if (c == 1) {return a;}
  return intern(MUL, a->w, 0, a, mkConst(c, a->w));
}
static E sum(E a, E b)
{
  unsigned w = a->w;
  std::vector<std::pair<E, uint64_t>> t;
  uint64_t k = 0;
  static const int SUMB = getenv("VPX_SUMB") ? atoi(getenv("VPX_SUMB")) : 160;
  int budget = SUMB;
  flattenSum(a, 1, t, k, budget);
  flattenSum(b, 1, t, k, budget);
  std::vector<std::pair<E, uint64_t>> u;
  for (auto & p : t) {if ((p.second & maskw(w)) != 0) {u.push_back(p);}}
  std::sort(u.begin(), u.end(), [](auto & x, auto & y) {return x.first->id < y.first->id;});
  E r = nullptr;
  for (auto & p : u) {
    E m = rawMulC(p.first, p.second);
    r = r ? intern(ADD, (uint8_t)w, 0, r, m) : m;
  }
  k &= maskw(w);
  if (!r) {return mkConst(k, w);}
  if (k) {r = intern(ADD, (uint8_t)w, 0, mkConst(k, w), r);}
  return r;
}

// terms made of parts at fixed positions: when the parts of two terms do not meet, their sum, or and xor are
// the same concatenation
struct Part {unsigned at; E e;};
static bool partsOf(E e, unsigned at, std::vector<Part> & out)
{
  if (out.size() > 16) {return false;}
  if (isC(e)) {if (e->val) {out.push_back({at, e});} return true;}
  if (e->op == ZEXT) {return partsOf(e->a, at, out);}
  if (e->op == CONCAT) {return partsOf(e->b, at, out) && partsOf(e->a, at + e->b->w, out);}
  out.push_back({at, e});
  return true;
}
static E disjointParts(E a, E b)
{
  if (isC(a)) {std::swap(a, b);}
  if (isC(b) && a->w == 32) {            // a constant in the zero bits below a part
    E tail = a;
    while (tail->op == ZEXT) {tail = tail->a;}
    if (tail->op != CONCAT) {return nullptr;}
    std::vector<E> hi;
    while (tail->op == CONCAT) {hi.push_back(tail->a); tail = tail->b;}
    if (!isC(tail, 0) || tail->w < 8 || b->val > maskw(tail->w)) {return nullptr;}
    E r = mkConst(b->val, tail->w);
    for (size_t i = hi.size(); i-- > 0;) {r = mkConcat(hi[i], r);}
    return mkZext(r, a->w);
  }
  if ((a->op != CONCAT && a->op != ZEXT) || (b->op != CONCAT && b->op != ZEXT)) {return nullptr;}
  std::vector<Part> p;
  if (!partsOf(a, 0, p) || !partsOf(b, 0, p)) {return nullptr;}
  std::sort(p.begin(), p.end(), [](const Part & x, const Part & y) {return x.at < y.at;});
  unsigned end = 0;
  for (auto & x : p) {if (x.at < end) {return nullptr;} end = x.at + x.e->w;}
  E r = nullptr;
  end = 0;
  for (auto & x : p) {
    if (x.at > end) {E z = mkConst(0, x.at - end); r = r ? mkConcat(z, r) : z;}
    r = r ? mkConcat(x.e, r) : x.e;
    end = x.at + x.e->w;
  }
  return mkZext(r, a->w);
}

static bool commutative(Op o) {return o == ADD || o == MUL || o == AND || o == OR || o == XOR || o == EQ;}

// known upper bound of an expression as an unsigned number
static uint64_t umax(E e, int d = 6)
{
  switch (e->op) {
    case CONST: return e->val;
    case ZEXT: return d ? umax(e->a, d - 1) : maskw(e->a->w);
    case AND: if (isC(e->b)) {return e->b->val;} if (isC(e->a)) {return e->a->val;} break;
    case UREM: if (isC(e->b) && e->b->val) {return d ? std::min(umax(e->a, d - 1), e->b->val - 1) : e->b->val - 1;} break;
    case UDIV: if (isC(e->b) && e->b->val) {return (d ? umax(e->a, d - 1) : maskw(e->w)) / e->b->val;} break;
    case ITE: if (d) {return std::max(umax(e->b, d - 1), umax(e->c, d - 1));} break;
    case LSHR: if (isC(e->b) && e->b->val < e->w) {return maskw(e->w) >> e->b->val;} break;
    case CONCAT: if (isC(e->a, 0) && d) {return umax(e->b, d - 1);} break;
    case EXTRACT: if (d && e->val == 0) {uint64_t m = umax(e->a, d - 1); if (m <= maskw(e->w)) {return m;}} break;
    case ADD: case MUL: {
        if (d == 0) {break;}
        // a sum of bounded terms that cannot wrap
        std::vector<std::pair<E, uint64_t>> t; uint64_t k = 0; int budget = 160;
        flattenSum(e, 1, t, k, budget);
        unsigned __int128 m = k & maskw(e->w);
        for (auto & p : t) {
          if (p.first == e) {return maskw(e->w);}
          unsigned __int128 x = (unsigned __int128)(p.second & maskw(e->w)) * umax(p.first, d ? d - 1 : 0);
          m += x;
          if (m > maskw(e->w)) {return maskw(e->w);}
        }
        return (uint64_t)m;
      }
    default: break;
  }
  return maskw(e->w);
}
static bool noWrap(const std::vector<std::pair<E, uint64_t>> & t, uint64_t k, unsigned w)
{
  unsigned __int128 m = k & maskw(w);
  for (auto & p : t) {
    m += (unsigned __int128)(p.second & maskw(w)) * umax(p.first);
    if (m > maskw(w)) {return false;}
  }
  return true;
}
// known lower bound
static uint64_t umin(E e, int d = 4)
{
  switch (e->op) {
    case CONST: return e->val;
    case ZEXT: return d ? umin(e->a, d - 1) : 0;
    case UDIV: return d && isC(e->b) && e->b->val ? umin(e->a, d - 1) / e->b->val : 0;
    case ITE: return d ? std::min(umin(e->b, d - 1), umin(e->c, d - 1)) : 0;
    case ADD: {
        if (d == 0) {return 0;}
        std::vector<std::pair<E, uint64_t>> t; uint64_t k = 0; int budget = 160;
        flattenSum(e, 1, t, k, budget);
        if (!noWrap(t, k, e->w)) {return 0;}
        uint64_t m = k & maskw(e->w);
        for (auto & p : t) {if (p.first == e) {return 0;} m += (p.second & maskw(e->w)) * umin(p.first, d - 1);}
        return m;
      }
    default: return 0;
  }
}
// (sum of c_i t_i + k) / d and % d, when the sum cannot wrap and the terms that d does not divide stay below d
static bool splitDiv(E a, uint64_t d, E & q, E & r)
{
  if (a->op != ADD && a->op != MUL) {return false;}
  unsigned w = a->w;
  std::vector<std::pair<E, uint64_t>> t; uint64_t k = 0; int budget = 200;
  flattenSum(a, 1, t, k, budget);
  for (auto & p : t) {if (p.first == a) {return false;}}
  if (!noWrap(t, k, w)) {return false;}
  k &= maskw(w);
  unsigned __int128 low = k % d;
  E hi = mkConst(k / d, w), lo = mkConst(k % d, w);
  for (auto & p : t) {
    uint64_t c = p.second & maskw(w);
    if (c % d == 0) {hi = mkBin(ADD, hi, mkBin(MUL, p.first, mkConst(c / d, w)));} else {
      low += (unsigned __int128)c * umax(p.first);
      if (low >= d) {return false;}
      lo = mkBin(ADD, lo, mkBin(MUL, p.first, mkConst(c, w)));
    }
  }
  q = hi; r = lo;
  return true;
}

E mkBin(Op op, E a, E b)
{
  unsigned w = a->w;
  if (a->w != b->w) {fprintf(stderr, "width mismatch op %d %u %u\n", op, a->w, b->w); abort();}
  bool cmp = op >= EQ && op <= SLE;
  unsigned rw = cmp ? 1 : w;
  if (isC(a) && isC(b)) {return mkConst(foldBin(op, w, a->val, b->val), rw);}
  if (commutative(op)) {
    // constants second, otherwise by id
    if (isC(a) || (!isC(b) && a->id > b->id)) {std::swap(a, b);}
  }
  switch (op) {
    case ADD:
      if (isC(b, 0)) {return a;}
      if (w == 1) {return mkBin(XOR, a, b);}
      if (isC(b) && a->op == ITE && isC(a->b) && isC(a->c)) {
        return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
      }
      if (E r = disjointParts(a, b)) {return r;}
      return sum(a, b);
    case MUL:
      if (isC(b, 0)) {return b;}
      if (isC(b, 1)) {return a;}
      if (w == 1) {return mkBin(AND, a, b);}
      if (isC(b)) {
        if (a->op == ADD || (a->op == MUL && isC(a->b))) {
          std::vector<std::pair<E, uint64_t>> t; uint64_t k = 0; int budget = 160;
          flattenSum(a, b->val, t, k, budget);
          std::sort(t.begin(), t.end(), [](auto & x, auto & y) {return x.first->id < y.first->id;});
          E r = nullptr;
          for (auto & p : t) {
            if ((p.second & maskw(w)) == 0) {continue;}
            E m = rawMulC(p.first, p.second);
            r = r ? intern(ADD, (uint8_t)w, 0, r, m) : m;
          }
          k &= maskw(w);
          if (!r) {return mkConst(k, w);}
          if (k) {r = intern(ADD, (uint8_t)w, 0, mkConst(k, w), r);}
          return r;
        }
        if (a->op == ITE && isC(a->b) && isC(a->c)) {
          return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
        }
      }
      break;
    case UDIV:
      if (isC(b, 1)) {return a;}
      if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) {
        return mkBin(LSHR, a, mkConst((uint64_t)__builtin_ctzll(b->val), w));
      }
      if (isC(b) && umax(a) < b->val) {return mkConst(0, w);}
      if (isC(b) && b->val) {
        E q, r;
        if (splitDiv(a, b->val, q, r)) {return q;}
        if (a->op == UDIV && isC(a->b) && a->b->val) {
          unsigned __int128 p = (unsigned __int128)a->b->val * b->val;
          return p > maskw(w) ? mkConst(0, w) : mkBin(UDIV, a->a, mkConst((uint64_t)p, w));
        }
        if (a->op == UREM && isC(a->b) && a->b->val && a->b->val % b->val == 0) {
          return mkBin(UREM, mkBin(UDIV, a->a, b), mkConst(a->b->val / b->val, w));
        }
        if (a->op == ZEXT && b->val <= maskw(a->a->w)) {return mkZext(mkBin(UDIV, a->a, mkConst(b->val, a->a->w)), w);}
      }
      break;
    case UREM:
      if (isC(b, 1)) {return mkConst(0, w);}
      if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) {return mkBin(AND, a, mkConst(b->val - 1, w));}
      if (isC(b) && umax(a) < b->val) {return a;}
      if (isC(b) && b->val) {
        E q, r;
        if (splitDiv(a, b->val, q, r)) {return r;}
        if (a->op == UREM && isC(a->b) && a->b->val && a->b->val % b->val == 0) {return mkBin(UREM, a->a, b);}
        if (a->op == ZEXT && b->val <= maskw(a->a->w)) {return mkZext(mkBin(UREM, a->a, mkConst(b->val, a->a->w)), w);}
      }
      break;
    case SDIV: case SREM:
      if (isC(b) && sx(b->val, w) > 0 && (a->op == ZEXT || umax(a) <= (maskw(w) >> 1))) {
        return mkBin(op == SDIV ? UDIV : UREM, a, b);
      }
      if (isC(b, 1)) {return op == SDIV ? a : mkConst(0, w);}
      break;
    case AND:
      if (isC(b, 0)) {return b;}
      if (isC(b, ~0ULL)) {return a;}
      if (a == b) {return a;}
      if (w == 1) {
        if (a == mkNot(b)) {return mkFalse();}
        if (a->op == AND && (a->a == b || a->b == b)) {return a;}
        if (b->op == AND && (b->a == a || b->b == a)) {return b;}
      }
      if (isC(b)) {
        uint64_t m = b->val;
        if ((m & (m + 1)) == 0) {   // low mask
          unsigned n = (unsigned)__builtin_popcountll(m);
          if (umax(a) <= m) {return a;}
          return mkZext(mkExtract(a, 0, n), w);
        }
      }
      break;
    case OR:
      if (isC(b, 0)) {return a;}
      if (isC(b, ~0ULL)) {return b;}
      if (a == b) {return a;}
      if (w == 1) {
        if (a == mkNot(b)) {return mkTrue();}
        if (a->op == OR && (a->a == b || a->b == b)) {return a;}
      }
      break;
    case XOR:
      if (isC(b, 0)) {return a;}
      if (a == b) {return mkConst(0, w);}
      if (isC(b) && a->op == XOR && isC(a->b)) {return mkBin(XOR, a->a, mkConst(a->b->val ^ b->val, w));}
      if (isC(b) && a->op == XOR && isC(a->a)) {return mkBin(XOR, a->b, mkConst(a->a->val ^ b->val, w));}
      if (w == 1 && isC(b, 1)) {
        // not
        if (a->op == ULT) {return mkBin(ULE, a->b, a->a);}
        if (a->op == ULE) {return mkBin(ULT, a->b, a->a);}
        if (a->op == SLT) {return mkBin(SLE, a->b, a->a);}
        if (a->op == SLE) {return mkBin(SLT, a->b, a->a);}
      }
      break;
    case SHL:
      if (isC(b, 0)) {return a;}
      if (isC(b)) {
        if (b->val >= w) {return mkConst(0, w);}
        return mkConcat(mkExtract(a, 0, w - (unsigned)b->val), mkConst(0, (unsigned)b->val));
      }
      break;
    case LSHR:
      if (isC(b, 0)) {return a;}
      if (isC(b)) {
        if (b->val >= w) {return mkConst(0, w);}
        return mkZext(mkExtract(a, (unsigned)b->val, w - (unsigned)b->val), w);
      }
      break;
    case ASHR:
      if (isC(b, 0)) {return a;}
      if (isC(b)) {
        unsigned s = b->val >= w ? w - 1 : (unsigned)b->val;
        return mkSext(mkExtract(a, s, w - s), w);
      }
      break;
    case EQ:
      if (a == b) {return mkTrue();}
      if (w == 1) {
        if (isC(b, 1)) {return a;}
        if (isC(b, 0)) {return mkNot(a);}
      }
      if (isC(b)) {
        uint64_t k = b->val;
        if (a->op == ITE) {
          bool cb = isC(a->b), cc = isC(a->c);
          if (cb && cc) {
            bool x = a->b->val == k, y = a->c->val == k;
            if (x && y) {return mkTrue();}
            if (x) {return a->a;}
            if (y) {return mkNot(a->a);}
            return mkFalse();
          }
          if (cb && a->b->val != k) {return mkAnd(mkNot(a->a), mkEq(a->c, b));}
          if (cc && a->c->val != k) {return mkAnd(a->a, mkEq(a->b, b));}
          if (cb) {return mkOr(a->a, mkEq(a->c, b));}
          if (cc) {return mkOr(mkNot(a->a), mkEq(a->b, b));}
        }
        if (a->op == ITE) {
          E x = mkEq(a->b, b), y = mkEq(a->c, b);
          if (isC(x) || isC(y)) {return mkIte(a->a, x, y);}
        }
        if (a->op == ZEXT) {
          if (k > maskw(a->a->w)) {return mkFalse();}
          return mkEq(a->a, mkConst(k, a->a->w));
        }
        if (a->op == SEXT) {
          if ((uint64_t)(sx(k, a->a->w)) != (uint64_t)sx(k, w)) {return mkFalse();}
          return mkEq(a->a, mkConst(k, a->a->w));
        }
        if (k == 0 && (a->op == ADD || a->op == MUL)) {
          // a sum that cannot wrap is zero exactly if all its terms are
          std::vector<std::pair<E, uint64_t>> t; uint64_t kk = 0; int budget = 200;
          flattenSum(a, 1, t, kk, budget);
          bool whole = false;
          for (auto & p : t) {whole = whole || p.first == a || (p.second & maskw(w)) == 0;}
          if (!whole && (kk & maskw(w)) == 0 && noWrap(t, kk, w)) {
            E r = mkTrue();
            for (auto & p : t) {r = mkAnd(r, mkEq(p.first, b));}
            return r;
          }
        }
        if (a->op == ADD && isC(a->a) && k < a->a->val) {
          std::vector<std::pair<E, uint64_t>> t; uint64_t kk = 0; int budget = 200;
          flattenSum(a, 1, t, kk, budget);
          if (noWrap(t, kk, w) && k < (kk & maskw(w))) {return mkFalse();}
        }
        if (a->op == ADD && isC(a->a)) {return mkEq(a->b, mkConst(k - a->a->val, w));}
        if (a->op == XOR && isC(a->b)) {return mkEq(a->a, mkConst(k ^ a->b->val, w));}
        if (a->op == CONCAT) {
          return mkAnd(mkEq(a->a, mkConst(k >> a->b->w, a->a->w)), mkEq(a->b, mkConst(k, a->b->w)));
        }
        if (k > umax(a) || k < umin(a)) {return mkFalse();}
        if (k == 0 && (a->op == ADD || a->op == MUL)) {      // a sum that cannot wrap is zero when all its terms are
          std::vector<std::pair<E, uint64_t>> t; uint64_t c = 0; int budget = 200;
          flattenSum(a, 1, t, c, budget);
          if (noWrap(t, c, w)) {
            if (c & maskw(w)) {return mkFalse();}
            E r = mkTrue();
            for (auto & p : t) {if (p.second & maskw(w)) {if (p.first == a) {r = nullptr; break;} r = mkAnd(r, mkEq(p.first, mkConst(0, w)));}}
            if (r) {return r;}
          }
        }
        if (a->op == MUL && isC(a->b, ~0ULL)) {return mkEq(a->a, mkConst(0 - k, w));}
      }
      if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) {return mkEq(a->a, b->a);}
      if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) {return mkEq(a->a, b->a);}
      if (a->op == CONCAT && b->op == CONCAT && a->a->w == b->a->w) {
        return mkAnd(mkEq(a->a, b->a), mkEq(a->b, b->b));
      }
      break;
    case ULT:
      if (a == b) {return mkFalse();}
      if (isC(b, 0)) {return mkFalse();}
      if (isC(a, ~0ULL)) {return mkFalse();}
      if (isC(b, 1)) {return mkEq(a, mkConst(0, w));}
      if (isC(a, 0)) {return mkNe(b, a);}
      if (isC(b) && umax(a) < b->val) {return mkTrue();}
      if (isC(b) && umin(a) >= b->val) {return mkFalse();}
      if (isC(a) && umin(b) > a->val) {return mkTrue();}
      if (isC(a) && umax(b) <= a->val) {return mkFalse();}
      if (isC(b) && b->val > 1) {E q, r; if (splitDiv(a, b->val, q, r)) {return mkEq(q, mkConst(0, w));}}
      if (a->op == ZEXT && isC(b)) {return b->val > maskw(a->a->w) ? mkTrue() : mkUlt(a->a, mkConst(b->val, a->a->w));}
      if (b->op == ZEXT && isC(a)) {return a->val >= maskw(b->a->w) ? mkFalse() : mkUlt(mkConst(a->val, b->a->w), b->a);}
      if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) {return mkUlt(a->a, b->a);}
      if (isC(b) && a->op == ITE && isC(a->b) && isC(a->c)) {return mkIte(a->a, mkUlt(a->b, b), mkUlt(a->c, b));}
      break;
    case ULE:
      if (a == b) {return mkTrue();}
      if (isC(a, 0)) {return mkTrue();}
      if (isC(b, ~0ULL)) {return mkTrue();}
      if (isC(b, 0)) {return mkEq(a, b);}
      if (isC(a, 1)) {return mkNe(b, mkConst(0, w));}
      if (isC(b) && umax(a) <= b->val) {return mkTrue();}
      if (isC(b) && umin(a) > b->val) {return mkFalse();}
      if (isC(a) && umin(b) >= a->val) {return mkTrue();}
      if (isC(a) && umax(b) < a->val) {return mkFalse();}
      if (isC(b)) {E q, r; if (splitDiv(a, b->val + 1, q, r)) {return mkEq(q, mkConst(0, w));}}
      if (isC(a)) {E q, r; if (splitDiv(b, a->val, q, r)) {return mkNe(q, mkConst(0, w));}}
      if (a->op == ZEXT && isC(b)) {return b->val >= maskw(a->a->w) ? mkTrue() : mkUle(a->a, mkConst(b->val, a->a->w));}
      if (b->op == ZEXT && isC(a)) {return a->val > maskw(b->a->w) ? mkFalse() : mkUle(mkConst(a->val, b->a->w), b->a);}
      if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) {return mkUle(a->a, b->a);}
      break;
    case SLT: case SLE:
      if (a == b) {return op == SLE ? mkTrue() : mkFalse();}
      // the sign of a negated sum of non-negative terms
      if (op == SLT && isC(b, 0) && (a->op == ADD || a->op == MUL)) {
        E n = mkMul(a, mkConst(~0ULL, w));
        if (umax(n) <= (maskw(w) >> 1) + 1) {return mkNe(n, mkConst(0, w));}
      }
      if (op == SLE && isC(a, 0) && (b->op == ADD || b->op == MUL)) {
        E n = mkMul(b, mkConst(~0ULL, w));
        if (umax(n) <= (maskw(w) >> 1) + 1) {return mkEq(n, mkConst(0, w));}
      }
      if (op == SLT && isC(a, ~0ULL)) {return mkSle(mkConst(0, w), b);}
      if (op == SLE && isC(b, ~0ULL)) {return mkSlt(a, mkConst(0, w));}
      // operands whose top bit is zero compare as unsigned
      if (umax(a) <= (maskw(w) >> 1) && umax(b) <= (maskw(w) >> 1)) {return mkBin(op == SLT ? ULT : ULE, a, b);}
      if (isC(b) && sx(b->val, w) < 0 && umax(a) <= (maskw(w) >> 1)) {return mkFalse();}
      if (isC(a) && sx(a->val, w) < 0 && umax(b) <= (maskw(w) >> 1)) {return mkTrue();}
      if (a->op == SEXT && isC(b)) {
        unsigned n = a->a->w;
        int64_t k = sx(b->val, w), lo = -(int64_t)(1LL << (n - 1)), hi = (int64_t)((1LL << (n - 1)) - 1);
        if (k > hi) {return mkTrue();}
        if (k < lo) {return mkFalse();}
        return mkBin(op, a->a, mkConst(b->val, n));
      }
      if (b->op == SEXT && isC(a)) {
        unsigned n = b->a->w;
        int64_t k = sx(a->val, w), lo = -(int64_t)(1LL << (n - 1)), hi = (int64_t)((1LL << (n - 1)) - 1);
        if (k > hi) {return mkFalse();}
        if (k < lo) {return mkTrue();}
        return mkBin(op, mkConst(a->val, n), b->a);
      }
      if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) {return mkBin(op, a->a, b->a);}
      if (isC(b) && a->op == ITE && isC(a->b) && isC(a->c)) {return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));}
      break;
    default: break;
  }
  if (op == AND || op == OR || op == XOR) {
    if (op != AND) {if (E r = disjointParts(a, b)) {return r;}}
    if (E r = canonBitwise(op, a, b)) {return r;}
  }
  return intern(op, (uint8_t)rw, 0, a, b);
}
E mkIte(E c, E a, E b)
{
  if (isC(c)) {return c->val ? a : b;}
  if (a == b) {return a;}
  if (a->w == 1) {
    if (isC(a, 1) && isC(b, 0)) {return c;}
    if (isC(a, 0) && isC(b, 1)) {return mkNot(c);}
    if (isC(a, 1)) {return mkOr(c, b);}
    if (isC(a, 0)) {return mkAnd(mkNot(c), b);}
    if (isC(b, 0)) {return mkAnd(c, a);}
    if (isC(b, 1)) {return mkOr(mkNot(c), a);}
  }
  if (c->op == XOR && isC(c->b, 1)) {return mkIte(c->a, b, a);}
  if (a->op == ITE && a->a == c) {return mkIte(c, a->b, b);}
  if (b->op == ITE && b->a == c) {return mkIte(c, a, b->c);}
  return intern(ITE, a->w, 0, c, a, b);
}
E mkConcat(E hi, E lo)
{
  unsigned w = (unsigned)hi->w + lo->w;
  if (isC(hi) && isC(lo)) {return mkConst((hi->val << lo->w) | lo->val, w);}
  if (isC(hi, 0)) {return mkZext(lo, w);}
  if (hi->op == EXTRACT && lo->op == EXTRACT && hi->a == lo->a && hi->val == lo->val + lo->w) {
    return mkExtract(lo->a, (unsigned)lo->val, w);
  }
  if (hi->op == EXTRACT && lo->op == CONCAT && lo->a->op == EXTRACT && hi->a == lo->a->a &&
    hi->val == lo->a->val + lo->a->w)
  {
    return mkConcat(mkExtract(hi->a, (unsigned)lo->a->val, hi->w + lo->a->w), lo->b);
  }
  // canonical: right nested
  if (hi->op == CONCAT) {return mkConcat(hi->a, mkConcat(hi->b, lo));}
  if (hi->op == ZEXT) {return mkZext(mkConcat(hi->a, lo), w);}
  // byte-wise if-then-else of the same condition
  if (hi->op == ITE && lo->op == ITE && hi->a == lo->a) {
    return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
  }
  return intern(CONCAT, (uint8_t)w, 0, hi, lo);
}
static unsigned trailingZeros(E e, int d = 12)
{
  if (d == 0) {return 0;}
  switch (e->op) {
    case CONST: return e->val ? (unsigned)__builtin_ctzll(e->val) : 63;
    case ADD: return std::min(trailingZeros(e->a, d - 1), trailingZeros(e->b, d - 1));
    case MUL: return isC(e->b) && e->b->val ? (unsigned)__builtin_ctzll(e->b->val) : 0;
    default: return 0;
  }
}
static bool shortSum(E e)
{
  int n = 0;
  while ((e->op == ADD || e->op == MUL) && ++n < 40) {e = e->a->op == ADD || e->a->op == MUL ? e->a : e->b;}
  return n < 40;
}
E mkExtract(E a, unsigned lo, unsigned w)
{
  if (lo == 0 && w == a->w) {return a;}
  switch (a->op) {
    case CONST: return mkConst(a->val >> lo, w);
    case EXTRACT: return mkExtract(a->a, lo + (unsigned)a->val, w);
    case CONCAT:
      if (lo >= a->b->w) {return mkExtract(a->a, lo - a->b->w, w);}
      if (lo + w <= a->b->w) {return mkExtract(a->b, lo, w);}
      return mkConcat(mkExtract(a->a, 0, lo + w - a->b->w), mkExtract(a->b, lo, a->b->w - lo));
    case ZEXT:
      if (lo >= a->a->w) {return mkConst(0, w);}
      if (lo + w <= a->a->w) {return mkExtract(a->a, lo, w);}
      return mkZext(mkExtract(a->a, lo, a->a->w - lo), w);
    case SEXT:
      if (lo + w <= a->a->w) {return mkExtract(a->a, lo, w);}
      if (lo == 0) {return mkSext(a->a, w);}
      break;
    case ITE:
      if (isC(a->b) || isC(a->c) || a->b->op == ITE || a->c->op == ITE || a->b->op == CONCAT || a->b->op == ZEXT) {
        return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
      }
      break;
    case AND: case OR: case XOR:
      if (isC(a->a) || isC(a->b) || w <= 8) {
        return mkBin(a->op, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
      }
      break;
    case ADD: case MUL:
      // low bits of a sum depend on low bits only
      if (lo == 0 && (a->a->op == ZEXT || a->b->op == ZEXT || isC(a->a) || isC(a->b)) && shortSum(a)) {
        E x = mkExtract(a->a, 0, w), y = mkExtract(a->b, 0, w);
        return mkBin(a->op, x, y);
      }
      // high bits of a multiple of a power of two
      if (a->op == MUL && isC(a->b) && a->b->val && (a->b->val & (a->b->val - 1)) == 0) {
        unsigned n = (unsigned)__builtin_ctzll(a->b->val);
        if (lo >= n) {return mkExtract(a->a, lo - n, w);}
      }
      // a constant below the lowest set bit of the rest of the sum carries nothing
      if (a->op == ADD && isC(a->a) && lo > 0) {
        unsigned n = std::min(trailingZeros(a->b), lo);
        uint64_t low = (1ULL << n) - 1;
        if (a->a->val & low) {return mkExtract(mkBin(ADD, mkConst(a->a->val & ~low, a->w), a->b), lo, w);}
      }
      break;
    default: break;
  }
  return intern(EXTRACT, (uint8_t)w, lo, a);
}
E mkZext(E a, unsigned w)
{
  if (a->w == w) {return a;}
  if (isC(a)) {return mkConst(a->val, w);}
  if (a->op == ZEXT) {return mkZext(a->a, w);}
  if (a->op == ITE && isC(a->b) && isC(a->c)) {return mkIte(a->a, mkZext(a->b, w), mkZext(a->c, w));}
  return intern(ZEXT, (uint8_t)w, 0, a);
}
E mkSext(E a, unsigned w)
{
  if (a->w == w) {return a;}
  if (isC(a)) {return mkConst((uint64_t)sx(a->val, a->w), w);}
  if (a->op == SEXT) {return mkSext(a->a, w);}
  if (a->op == ZEXT) {return mkZext(a->a, w);}
  if ((a->op == ADD || a->op == MUL || a->op == EXTRACT) && umax(a) <= (maskw(a->w) >> 1)) {return mkZext(a, w);}
  if (a->op == ITE && isC(a->b) && isC(a->c)) {return mkIte(a->a, mkSext(a->b, w), mkSext(a->c, w));}
  return intern(SEXT, (uint8_t)w, 0, a);
}
std::string show(E e, int d)
{
  static const char * names[] = {"const", "v", "+", "*", "/u", "/s", "%u", "%s", "&", "|", "^", "<<", ">>u", ">>s",
    "==", "<u", "<=u", "<s", "<=s", "ite", "cat", "ext", "zx", "sx"};
  if (e->op == CONST) {return std::to_string(e->val) + ":" + std::to_string(e->w);}
  if (e->op == VAR) {return "v" + std::to_string(e->val);}
  if (d == 0) {return "...";}
  std::string s = std::string("(") + names[e->op];
  if (e->op == EXTRACT) {s += "[" + std::to_string(e->val) + "+" + std::to_string(e->w) + "]";}
  if (e->a) {s += " " + show(e->a, d - 1);}
  if (e->b) {s += " " + show(e->b, d - 1);}
  if (e->c) {s += " " + show(e->c, d - 1);}
  return s + ")";
}
uint64_t Evaluator::eval(E e)
{
  if (e->op == CONST) {return e->val;}
  if (e->op == VAR) {return m->get(e->val) & maskw(e->w);}
  if (e->id >= epoch.size()) {
    epoch.resize(std::max<size_t>(g_nodes.size() + 1024, e->id + 1), 0);
    memo.resize(epoch.size());
  }
  if (epoch[e->id] == cur) {return memo[e->id];}
  uint64_t r;
  switch (e->op) {
    case ITE: r = eval(e->a) ? eval(e->b) : eval(e->c); break;
    case CONCAT: r = (eval(e->a) << e->b->w) | eval(e->b); break;
    case EXTRACT: r = (eval(e->a) >> e->val) & maskw(e->w); break;
    case ZEXT: r = eval(e->a); break;
    case SEXT: r = (uint64_t)sx(eval(e->a), e->a->w) & maskw(e->w); break;
    default: {uint64_t x = eval(e->a), y = eval(e->b); r = foldBin(e->op, e->a->w, x, y); break;}
  }
  if (e->id >= epoch.size()) {
    epoch.resize(g_nodes.size() + 1024, 0); memo.resize(epoch.size());
  }
  epoch[e->id] = cur; memo[e->id] = r;
  return r;
}
