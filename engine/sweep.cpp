// SAT sweeping: proves large terms equal by merging equivalent subterms bottom up. Candidates come from
// evaluating under fixed random assignments; every merge is proved by z3 over a cut of the two cones
// (subterms beyond the cut are free variables, which over-approximates and so is sound).
#include "sweep.h"
#include <unordered_map>
static const unsigned NM = 12;
static uint64_t mix(uint64_t x)
{
  x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33;
  return x;
}
static Model models[NM];
static Evaluator evs[NM];
static size_t filled = 0;
static std::unordered_map<uint32_t, E> rep;
static std::unordered_map<uint64_t, std::vector<E>> classes;

size_t dagSize(E e, size_t limit)
{
  std::unordered_set<uint32_t> seen;
  std::vector<E> st{e};
  while (!st.empty() && seen.size() < limit) {
    E x = st.back(); st.pop_back();
    if (!seen.insert(x->id).second) {continue;}
    for (E k : {x->a, x->b, x->c}) {if (k) {st.push_back(k);}}
  }
  return seen.size();
}
static void needVars(size_t n)
{
  if (n <= filled) {return;}
  n += 64;
  for (unsigned k = 0; k < NM; ++k) {
    models[k].v.resize(n);
    for (size_t i = filled; i < n; ++i) {models[k].v[i] = k == 0 ? ~0ULL : k == 1 ? mix(i) | 0xffffffff : mix(i * NM + k + 12345);}
    evs[k].setModel(&models[k]);
  }
  filled = n;
}
static uint64_t signature(E e)
{
  uint64_t h = e->w;
  for (unsigned k = 0; k < NM; ++k) {h = mix(h ^ evs[k].eval(e)) + k;}
  return h;
}
static E rebuild(E n, E a, E b, E c)
{
  if (a == n->a && b == n->b && c == n->c) {return n;}
  switch (n->op) {
    case ITE: return mkIte(a, b, c);
    case CONCAT: return mkConcat(a, b);
    case EXTRACT: return mkExtract(a, (unsigned)n->val, n->w);
    case ZEXT: return mkZext(a, n->w);
    case SEXT: return mkSext(a, n->w);
    case CONST: case VAR: return n;
    default: return mkBin(n->op, a, b);
  }
}
// x and y as linear combinations of terms that are no sums
static bool linear(E e, std::unordered_map<uint32_t, uint64_t> & sum, uint64_t & k)
{
  // coefficients flow down the sums in an order in which every sum comes after all its uses
  std::vector<E> order;
  std::unordered_set<uint32_t> done;
  auto inner = [](E n) {return n->op == ADD || (n->op == MUL && n->b->op == CONST);};
  std::vector<std::pair<E, int>> st{{e, 0}};
  while (!st.empty()) {
    auto [n, ph] = st.back(); st.pop_back();
    if (ph) {order.push_back(n); continue;}
    if (!inner(n) || !done.insert(n->id).second) {continue;}
    if (done.size() > 20000) {return false;}
    st.push_back({n, 1});
    st.push_back({n->a, 0});
    if (n->op == ADD) {st.push_back({n->b, 0});}
  }
  std::unordered_map<uint32_t, uint64_t> coef;
  auto give = [&](E n, uint64_t c) {
      if (n->op == CONST) {k += c * n->val; return;}
      if (inner(n)) {coef[n->id] += c;} else {sum[n->id] += c;}
    };
  give(e, 1);
  for (size_t i = order.size(); i-- > 0;) {
    E n = order[i];
    uint64_t c = coef[n->id];
    if (n->op == ADD) {give(n->a, c); give(n->b, c);} else {give(n->a, c * n->b->val);}
  }
  return true;
}
static bool sameSum(E x, E y, size_t & terms)
{
  std::unordered_map<uint32_t, uint64_t> a, b;
  uint64_t k = 0, l = 0, m = x->w == 64 ? ~0ULL : (1ULL << x->w) - 1;
  if (!linear(x, a, k) || !linear(y, b, l)) {return false;}
  terms = std::max(a.size(), b.size());
  if ((k ^ l) & m) {return false;}
  for (auto & p : b) {a[p.first] -= p.second;}
  for (auto & p : a) {if (p.second & m) {return false;}}
  return true;
}
static bool prove(Solver & S, E x, E y)
{
  if (x->op == ADD || y->op == ADD) {
    size_t n = 0;
    if (sameSum(x, y, n)) {return true;}
    if (n > 8) {return false;}          // nothing to be had from bits
  }
  static const unsigned depths[] = {3, 6, 10, 16};
  for (unsigned d : depths) {
    std::unordered_set<uint32_t> in;       // expanded nodes: within d of either root
    std::vector<E> level{x, y};
    bool all = true;
    for (unsigned i = 0; i < d && !level.empty(); ++i) {
      std::vector<E> next;
      for (E n : level) {
        if (!in.insert(n->id).second) {continue;}
        for (E k : {n->a, n->b, n->c}) {if (k) {next.push_back(k);}}
      }
      level.swap(next);
    }
    for (E n : level) {if (!in.count(n->id) && n->op != CONST && n->op != VAR) {all = false;}}
    if (in.size() > 4000) {return false;}
    if (S.cutEqual(x, y, in, 1500)) {return true;}
    if (all) {return false;}
  }
  return false;
}
E sweep(Solver & S, E root, double budget)
{
  double t0 = wallNow();
  uint32_t maxvar = 0;
  std::vector<E> order;
  {
    std::unordered_set<uint32_t> done;
    std::vector<std::pair<E, int>> st{{root, 0}};
    while (!st.empty()) {
      auto [n, ph] = st.back(); st.pop_back();
      if (ph == 0) {
        if (done.count(n->id) || rep.count(n->id)) {continue;}
        st.push_back({n, 1});
        for (E k : {n->a, n->b, n->c}) {if (k) {st.push_back({k, 0});}}
      } else if (done.insert(n->id).second) {
        order.push_back(n);
        if (n->op == VAR) {maxvar = std::max<uint32_t>(maxvar, (uint32_t)n->val + 1);}
      }
    }
  }
  needVars(maxvar);
  if (root->w == 1) {for (unsigned k = 0; k < NM; ++k) {if (evs[k].eval(root)) {return root;}}}    // not identically false
  auto R = [&](E x) -> E {
      if (!x) {return x;}
      for (;;) {
        auto it = rep.find(x->id);
        if (it == rep.end() || it->second == x) {return x;}
        x = it->second;
      }
    };
  for (E n : order) {
    E m = R(rebuild(n, R(n->a), R(n->b), R(n->c)));
    if (m->op == CONST || m->op == VAR) {rep[n->id] = m; continue;}
    if (rep.count(m->id)) {rep[n->id] = R(m); continue;}
    auto & cl = classes[signature(m)];
    E found = nullptr;
    unsigned tries = 0;
    for (E r : cl) {if (r == m) {found = m; break;}}
    // parts of words follow from the words
    if (!found && wallNow() - t0 < budget && m->w >= 16 && m->op != EXTRACT && m->op != ZEXT && m->op != SEXT) {
      for (E r : cl) {
        if (r->w != m->w || ++tries > 2) {continue;}
        if (prove(S, r, m)) {found = r; break;}
        if (getenv("VPX_TRACE")) {fprintf(stderr, "NOPROOF %s\n   =?   %s\n", show(r, 5).c_str(), show(m, 5).c_str());}
      }
    }
    if (!found) {found = m; cl.push_back(m);}
    rep[m->id] = found;
    rep[n->id] = found;
  }
  return R(root);
}
bool randomWitness(const std::vector<E> & cs, E c, size_t nvars, const Model & base, Model & out)
{
  static uint64_t seed = 1;
  static Evaluator e;
  for (int t = 0; t < 24; ++t) {
    out.v.resize(nvars);
    for (auto & x : out.v) {x = mix(++seed); if (t & 1) {x >>= mix(++seed) & 63;}}
    if (t >= 12) {for (size_t i = 0; i < base.v.size() && i < nvars; ++i) {if (mix(++seed) & 1) {out.v[i] = base.v[i];}}}
    Model tmp(out);            // fresh identity for the evaluator
    e.setModel(&tmp);
    bool ok = e.eval(c) != 0;
    for (size_t i = cs.size(); ok && i-- > 0;) {ok = e.eval(cs[i]) != 0;}
    if (ok) {return true;}
  }
  return false;
}
