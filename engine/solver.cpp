#include "solver.h"
#include "sweep.h"
#include <cstdio>
#include <cstdlib>
#include <chrono>
#include <cstdio>
#include <cstdlib>
static double now()
{
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static void onErr(Z3_context c, Z3_error_code e)
{
  fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); fflush(stderr); _Exit(70);
}
double wallNow() {return now();}
Solver::Solver(unsigned t) : timeout(t)
{
  Z3_config cfg = Z3_mk_config();
  ctx = Z3_mk_context(cfg);
  Z3_set_error_handler(ctx, onErr);
  s = Z3_mk_simple_solver(ctx);
  Z3_solver_inc_ref(ctx, s);
  params = Z3_mk_params(ctx);
  Z3_params_inc_ref(ctx, params);
  Z3_params_set_uint(ctx, params, Z3_mk_string_symbol(ctx, "timeout"), timeout);
  Z3_solver_set_params(ctx, s, params);
}
Z3_sort Solver::bv(unsigned w)
{
  auto it = sorts.find(w);
  if (it != sorts.end()) {return it->second;}
  Z3_sort r = Z3_mk_bv_sort(ctx, w);
  Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, r));
  return sorts[w] = r;
}
Z3_ast Solver::toZ3(E e)
{
  if (cut) {
    auto it = cutCache.find(e->id);
    if (it != cutCache.end()) {return it->second;}
    Z3_ast r;
    if (cut->count(e->id) || e->op == CONST || e->op == VAR) {
      r = conv(e);
    } else {
      std::string n = "c" + std::to_string(e->id);
      r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), e->w == 1 ? Z3_mk_bool_sort(ctx) : bv(e->w));
    }
    Z3_inc_ref(ctx, r);
    return cutCache[e->id] = r;
  }
  if (e->id >= cache.size()) {cache.resize(std::max<size_t>(g_nodes.size(), e->id + 1) + 4096, nullptr);}
  if (cache[e->id]) {return cache[e->id];}
  Z3_ast r = conv(e);
  Z3_inc_ref(ctx, r);
  if (e->id >= cache.size()) {cache.resize(g_nodes.size() + 4096, nullptr);}
  cache[e->id] = r;
  return r;
}
// width 1 terms are represented as Bool, all others as bit vectors
Z3_ast Solver::conv(E e)
{
  auto asBv = [&](E x) -> Z3_ast {
      Z3_ast t = toZ3(x);
      if (x->w == 1) {
        return Z3_mk_ite(ctx, t, Z3_mk_unsigned_int64(ctx, 1, bv(1)), Z3_mk_unsigned_int64(ctx, 0, bv(1)));
      }
      return t;
    };
  auto fromBv = [&](Z3_ast t) -> Z3_ast {
      return Z3_mk_eq(ctx, t, Z3_mk_unsigned_int64(ctx, 1, bv(1)));
    };
  switch (e->op) {
    case CONST: return e->w == 1 ? (e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx)) : Z3_mk_unsigned_int64(ctx, e->val, bv(e->w));
    case VAR: {
        auto k = std::make_pair(e->val, (unsigned)e->w);
        auto it = vars.find(k);
        if (it != vars.end()) {return it->second;}
        std::string n = "v" + std::to_string(e->val) + "_" + std::to_string(e->w);
        Z3_ast r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), e->w == 1 ? Z3_mk_bool_sort(ctx) : bv(e->w));
        Z3_inc_ref(ctx, r);
        return vars[k] = r;
      }
    case ITE: return Z3_mk_ite(ctx, toZ3(e->a), toZ3(e->b), toZ3(e->c));
    case CONCAT: return Z3_mk_concat(ctx, asBv(e->a), asBv(e->b));
    case EXTRACT: {
        Z3_ast r = Z3_mk_extract(ctx, (unsigned)(e->val + e->w - 1), (unsigned)e->val, asBv(e->a));
        return e->w == 1 ? fromBv(r) : r;
      }
    case ZEXT: return Z3_mk_zero_ext(ctx, e->w - e->a->w, asBv(e->a));
    case SEXT: return Z3_mk_sign_ext(ctx, e->w - e->a->w, asBv(e->a));
    default: break;
  }
  if (e->op == EQ) {return Z3_mk_eq(ctx, toZ3(e->a), toZ3(e->b));}
  if (e->w == 1 && e->a->w == 1) {
    Z3_ast x[2] = {toZ3(e->a), toZ3(e->b)};
    switch (e->op) {
      case AND: return Z3_mk_and(ctx, 2, x);
      case OR: return Z3_mk_or(ctx, 2, x);
      case XOR: return Z3_mk_xor(ctx, x[0], x[1]);
      default: break;
    }
  }
  Z3_ast x = asBv(e->a), y = asBv(e->b), r;
  switch (e->op) {
    case ADD: r = Z3_mk_bvadd(ctx, x, y); break;
    case MUL: r = Z3_mk_bvmul(ctx, x, y); break;
    case UDIV: r = Z3_mk_bvudiv(ctx, x, y); break;
    case SDIV: r = Z3_mk_bvsdiv(ctx, x, y); break;
    case UREM: r = Z3_mk_bvurem(ctx, x, y); break;
    case SREM: r = Z3_mk_bvsrem(ctx, x, y); break;
    case AND: r = Z3_mk_bvand(ctx, x, y); break;
    case OR: r = Z3_mk_bvor(ctx, x, y); break;
    case XOR: r = Z3_mk_bvxor(ctx, x, y); break;
    case SHL: r = Z3_mk_bvshl(ctx, x, y); break;
    case LSHR: r = Z3_mk_bvlshr(ctx, x, y); break;
    case ASHR: r = Z3_mk_bvashr(ctx, x, y); break;
    case ULT: return Z3_mk_bvult(ctx, x, y);
    case ULE: return Z3_mk_bvule(ctx, x, y);
    case SLT: return Z3_mk_bvslt(ctx, x, y);
    case SLE: return Z3_mk_bvsle(ctx, x, y);
    default: abort();
  }
  return e->w == 1 ? fromBv(r) : r;
}
int Solver::finish(Z3_solver sv, Z3_lbool r, size_t nvars, const std::vector<uint8_t> & widths, Model * out)
{
  if (r == Z3_L_TRUE) {
    if (out) {
      Z3_model m = Z3_solver_get_model(ctx, sv);
      Z3_model_inc_ref(ctx, m);
      out->v.assign(nvars, 0);
      for (size_t i = 0; i < nvars; ++i) {
        auto it = vars.find(std::make_pair((uint64_t)i, (unsigned)widths[i]));
        if (it == vars.end()) {continue;}
        Z3_ast v = nullptr;
        if (!Z3_model_eval(ctx, m, it->second, true, &v) || !v) {continue;}
        Z3_inc_ref(ctx, v);
        uint64_t x = 0;
        if (widths[i] == 1) {x = Z3_get_bool_value(ctx, v) == Z3_L_TRUE;}
        else {Z3_get_numeral_uint64(ctx, v, &x);}
        out->v[i] = x;
        Z3_dec_ref(ctx, v);
      }
      Z3_model_dec_ref(ctx, m);
    }
    return 1;
  }
  return r == Z3_L_FALSE ? 0 : -1;
}
bool Solver::cutEqual(E x, E y, const std::unordered_set<uint32_t> & in, unsigned ms)
{
  double t0 = now();
  st.queries++;
  cut = &in;
  Z3_ast q = Z3_mk_not(ctx, Z3_mk_eq(ctx, toZ3(x), toZ3(y)));
  Z3_inc_ref(ctx, q);
  cut = nullptr;
  Z3_solver sv = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
  Z3_solver_inc_ref(ctx, sv);
  Z3_params p = Z3_mk_params(ctx);
  Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), ms);
  Z3_solver_set_params(ctx, sv, p);
  Z3_solver_assert(ctx, sv, q);
  Z3_lbool r = Z3_solver_check(ctx, sv);
  Z3_solver_dec_ref(ctx, sv);
  Z3_params_dec_ref(ctx, p);
  Z3_dec_ref(ctx, q);
  for (auto & kv : cutCache) {Z3_dec_ref(ctx, kv.second);}
  cutCache.clear();
  st.time += now() - t0;
  if (r == Z3_L_FALSE) {st.unsat++;} else if (r == Z3_L_TRUE) {st.sat++;}
  return r == Z3_L_FALSE;
}
int Solver::check(const std::vector<E> & cs, E extra, size_t nvars, const std::vector<uint8_t> & widths, Model * out, unsigned ms)
{
  double t0 = now();
  st.queries++;
  size_t p = 0;
  while (p < pushed.size() && p < cs.size() && pushed[p] == cs[p]) {++p;}
  if (pushed.size() > p) {
    Z3_solver_pop(ctx, s, (unsigned)(pushed.size() - p));
    pushed.resize(p);
  }
  for (; p < cs.size(); ++p) {
    Z3_solver_push(ctx, s);
    Z3_solver_assert(ctx, s, toZ3(cs[p]));
    pushed.push_back(cs[p]);
  }
  Z3_solver_push(ctx, s);
  if (extra) {Z3_solver_assert(ctx, s, toZ3(extra));}
  static const bool trace = getenv("VPX_TRACE") != nullptr;
  if (trace) {fprintf(stderr, "ASK: %s\n", extra ? Z3_ast_to_string(ctx, toZ3(extra)) : "");}
  auto limit = [&](unsigned t) {
      Z3_params_set_uint(ctx, params, Z3_mk_string_symbol(ctx, "timeout"), t);
      Z3_solver_set_params(ctx, s, params);
    };
  if (ms) {limit(ms);}
  Z3_lbool r = Z3_solver_check(ctx, s);
  int res = finish(s, r, nvars, widths, out);
  Z3_solver_pop(ctx, s, 1);
  if (ms) {
    // a second opinion: no answer is no matter
    limit(timeout);
    st.time += now() - t0;
    if (res == 1) {st.sat++;} else if (res == 0) {st.unsat++;}
    return res;
  }
  if (res < 0) {
    // one-shot bit-vector solver
    Z3_solver q = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
    Z3_solver_inc_ref(ctx, q);
    Z3_solver_set_params(ctx, q, params);
    for (E c : cs) {Z3_solver_assert(ctx, q, toZ3(c));}
    if (extra) {Z3_solver_assert(ctx, q, toZ3(extra));}
    r = Z3_solver_check(ctx, q);
    res = finish(q, r, nvars, widths, out);
    Z3_solver_dec_ref(ctx, q);
  }
  if (trace) {fprintf(stderr, "QUERY %d %.2fs: %s\n", res, now() - t0, extra ? Z3_ast_to_string(ctx, toZ3(extra)) : "");}
  st.time += now() - t0;
  if (res == 1) {st.sat++;} else if (res == 0) {st.unsat++;} else {st.unknown++;}
  return res;
}
