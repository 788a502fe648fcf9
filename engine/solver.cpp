#include "solver.h"
#include <z3.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>

struct Key { u64 a, b; bool operator==(const Key &o) const { return a == o.a && b == o.b; } };
struct KeyH { size_t operator()(const Key &k) const { return k.a; } };
SolverStats g_ss;
static Z3_context ctx = nullptr;
static Z3_solver slv = nullptr;
static u32 gen = 1;
static unsigned nAsserted = 0;
static double now() { struct timeval t; gettimeofday(&t, 0); return t.tv_sec + t.tv_usec * 1e-6; }
extern u64 g_rlimit;
extern const char *g_logic;
extern unsigned g_resetEvery;
extern std::string g_tmpdir;
extern int g_extTimeout;
extern int g_dumpSlow;
static u64 g_liaRlimit = 8000000;

static void onErr(Z3_context c, Z3_error_code e) { fatal("z3 error: %s", Z3_get_error_msg(c, e)); }

static void clearDefs();
static void newCtx() {
  if (ctx) { Z3_solver_dec_ref(ctx, slv); Z3_del_context(ctx); }
  Z3_config cfg = Z3_mk_config();
  ctx = Z3_mk_context(cfg); // (non-rc: all asts live until context deletion)
  Z3_del_config(cfg);
  Z3_set_error_handler(ctx, onErr);
  slv = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, g_logic));
  Z3_solver_inc_ref(ctx, slv);
  Z3_params p = Z3_mk_params(ctx);
  Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), (unsigned)g_rlimit);
  Z3_solver_set_params(ctx, slv, p);
  Z3_params_dec_ref(ctx, p);
  gen++; clearDefs();
  nAsserted = 0;
}
void solverInit() { newCtx(); }

static unsigned nbOf(Ex e) { unsigned b = bitsof(e->hi); return b ? b : 1; }
static Z3_ast lowerBV(Ex e); // width nbOf(e)
static Z3_ast lowerB(Ex e);  // Bool, e->w == 1
static Z3_ast numeral(u128 v, unsigned w) {
  if (v <= ~0ull) return Z3_mk_unsigned_int64(ctx, (u64)v, Z3_mk_bv_sort(ctx, w));
  char buf[64]; int i = 63; buf[i] = 0; while (v) { buf[--i] = '0' + (int)(v % 10); v /= 10; }
  return Z3_mk_numeral(ctx, buf + i, Z3_mk_bv_sort(ctx, w));
}
static Z3_ast fit(Z3_ast a, unsigned have, unsigned want) {
  if (have == want) return a;
  if (have < want) return Z3_mk_zero_ext(ctx, want - have, a);
  return Z3_mk_extract(ctx, want - 1, 0, a);
}
static Z3_ast at(Ex e, unsigned w) { return fit(lowerBV(e), nbOf(e), w); }

static std::unordered_map<u64, std::pair<Z3_ast, unsigned>> g_divs, g_rems;
static std::vector<Z3_ast> g_defs;
static void clearDefs() { g_divs.clear(); g_rems.clear(); g_defs.clear(); }
static void addDef(Z3_ast a) { Z3_solver_assert(ctx, slv, a); g_defs.push_back(a); }

static Z3_ast lowerB(Ex e) {
  if (e->zgen == gen && e->zbool) return (Z3_ast)e->zbool;
  if (e->zgen != gen) { e->zgen = gen; e->zast = nullptr; e->zbool = nullptr; }
  Z3_ast r;
  switch (e->op) {
  case E_CONST: r = e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
  case E_AND: { Z3_ast a[2] = {lowerB(e->k[0]), lowerB(e->k[1])}; r = Z3_mk_and(ctx, 2, a); break; }
  case E_OR: { Z3_ast a[2] = {lowerB(e->k[0]), lowerB(e->k[1])}; r = Z3_mk_or(ctx, 2, a); break; }
  case E_XOR:
    if (isC(e->k[1])) r = e->k[1]->c ? Z3_mk_not(ctx, lowerB(e->k[0])) : lowerB(e->k[0]);
    else r = Z3_mk_xor(ctx, lowerB(e->k[0]), lowerB(e->k[1]));
    break;
  case E_ITE: r = Z3_mk_ite(ctx, lowerB(e->k[0]), lowerB(e->k[1]), lowerB(e->k[2])); break;
  case E_EQ:
    if (e->k[0]->w == 1) { r = Z3_mk_iff(ctx, lowerB(e->k[0]), lowerB(e->k[1])); break; }
    { unsigned w = std::max(nbOf(e->k[0]), nbOf(e->k[1])); r = Z3_mk_eq(ctx, at(e->k[0], w), at(e->k[1], w)); break; }
  case E_ULT: { unsigned w = std::max(nbOf(e->k[0]), nbOf(e->k[1])); r = Z3_mk_bvult(ctx, at(e->k[0], w), at(e->k[1], w)); break; }
  case E_ULE: { unsigned w = std::max(nbOf(e->k[0]), nbOf(e->k[1])); r = Z3_mk_bvule(ctx, at(e->k[0], w), at(e->k[1], w)); break; }
  case E_SLT: r = Z3_mk_bvslt(ctx, at(e->k[0], e->k[0]->w), at(e->k[1], e->k[0]->w)); break;
  case E_SLE: r = Z3_mk_bvsle(ctx, at(e->k[0], e->k[0]->w), at(e->k[1], e->k[0]->w)); break;
  case E_MULH: {
    unsigned w = e->aux, na = nbOf(e->k[0]), nb = nbOf(e->k[1]), t = na + nb;
    if (t <= w) { r = Z3_mk_false(ctx); break; }
    Z3_ast p = Z3_mk_bvmul(ctx, at(e->k[0], t), at(e->k[1], t));
    r = Z3_mk_not(ctx, Z3_mk_eq(ctx, Z3_mk_extract(ctx, t - 1, w, p), numeral(0, t - w)));
    break;
  }
  default:
    r = Z3_mk_eq(ctx, lowerBV(e), numeral(1, 1));
  }
  e->zbool = r;
  return r;
}
static Z3_ast lowerBV(Ex e) {
  if (e->zgen == gen && e->zast) return (Z3_ast)e->zast;
  if (e->zgen != gen) { e->zgen = gen; e->zast = nullptr; e->zbool = nullptr; }
  unsigned n = nbOf(e);
  Z3_ast r;
  switch (e->op) {
  case E_CONST: r = numeral(e->c, n); break;
  case E_VAR: {
    char nm[32]; if (e->aux >= 256) snprintf(nm, 32, "a%u_%d", e->id, n); else snprintf(nm, 32, "v%d_%d", e->aux, n);
    r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), Z3_mk_bv_sort(ctx, n));
    // declared range of the variable (part of its type)
    if (e->hi != maskw(n)) Z3_solver_assert(ctx, slv, Z3_mk_bvule(ctx, r, numeral(e->hi, n)));
    if (e->lo != 0) Z3_solver_assert(ctx, slv, Z3_mk_bvule(ctx, numeral(e->lo, n), r));
    break;
  }
  case E_ZEXT: r = lowerBV(e->k[0]); break;
  case E_SEXT: { unsigned iw = e->k[0]->w; r = fit(Z3_mk_sign_ext(ctx, e->w - iw, at(e->k[0], iw)), e->w, n); break; }
  case E_EXTRACT: {
    unsigned have = nbOf(e->k[0]); unsigned top = e->aux + e->w - 1;
    if (e->aux >= have) r = numeral(0, n);
    else { if (top >= have) top = have - 1; r = fit(Z3_mk_extract(ctx, top, e->aux, lowerBV(e->k[0])), top - e->aux + 1, n); }
    break;
  }
  case E_CONCAT: {
    unsigned lw = e->k[1]->w, hw = nbOf(e->k[0]);
    r = fit(Z3_mk_concat(ctx, lowerBV(e->k[0]), at(e->k[1], lw)), hw + lw, n); break;
  }
  case E_ITE:
    if (e->w == 1) { r = Z3_mk_ite(ctx, lowerB(e), numeral(1, 1), numeral(0, 1)); break; }
    r = Z3_mk_ite(ctx, lowerB(e->k[0]), at(e->k[1], n), at(e->k[2], n)); break;
  case E_EQ: case E_ULT: case E_ULE: case E_SLT: case E_SLE: case E_MULH:
    r = Z3_mk_ite(ctx, lowerB(e), numeral(1, 1), numeral(0, 1)); break;
  case E_AND: case E_OR: case E_XOR:
    if (e->w == 1) { r = Z3_mk_ite(ctx, lowerB(e), numeral(1, 1), numeral(0, 1)); break; }
    { Z3_ast a = at(e->k[0], n), b = at(e->k[1], n);
      r = e->op == E_AND ? Z3_mk_bvand(ctx, a, b) : e->op == E_OR ? Z3_mk_bvor(ctx, a, b) : Z3_mk_bvxor(ctx, a, b); break; }
  case E_ADD: r = Z3_mk_bvadd(ctx, at(e->k[0], n), at(e->k[1], n)); break;
  case E_SUB: case E_SUBNB: r = Z3_mk_bvsub(ctx, at(e->k[0], n), at(e->k[1], n)); break;
  case E_MUL: r = Z3_mk_bvmul(ctx, at(e->k[0], n), at(e->k[1], n)); break;
  case E_UDIV: case E_UREM: {
    // quotient and remainder as fresh variables with their (total) definition: a = q*b + r, r < b
    unsigned na = nbOf(e->k[0]), nb = nbOf(e->k[1]);
    Z3_ast a = lowerBV(e->k[0]), b = lowerBV(e->k[1]);
    u64 key = ((u64)e->k[0]->id << 32) | e->k[1]->id;
    auto it = g_divs.find(key);
    if (it == g_divs.end()) {
      unsigned nq = na; if (isC(e->k[1])) { unsigned cb = bitsof(e->k[1]->c); nq = na + 1 > cb ? na + 1 - cb : 1; if (nq > na) nq = na; if (na < cb) nq = 1; }
      Z3_ast q = Z3_mk_fresh_const(ctx, "q", Z3_mk_bv_sort(ctx, nq)), rm = Z3_mk_fresh_const(ctx, "r", Z3_mk_bv_sort(ctx, nb));
      unsigned t = std::max(nq + nb, na) + 1;
      Z3_ast sum = Z3_mk_bvadd(ctx, Z3_mk_bvmul(ctx, fit(q, nq, t), fit(b, nb, t)), fit(rm, nb, t));
      Z3_ast c1 = Z3_mk_eq(ctx, sum, fit(a, na, t)), c2 = Z3_mk_bvult(ctx, rm, b);
      if (isC(e->k[1])) { addDef(c1); addDef(c2); }
      else {
        Z3_ast nz = Z3_mk_not(ctx, Z3_mk_eq(ctx, b, numeral(0, nb)));
        addDef(Z3_mk_implies(ctx, nz, c1)); addDef(Z3_mk_implies(ctx, nz, c2));
      }
      it = g_divs.emplace(key, std::make_pair(q, nq)).first; g_rems[key] = {rm, nb};
    }
    if (e->op == E_UDIV) r = fit(it->second.first, it->second.second, n); else r = fit(g_rems[key].first, g_rems[key].second, n);
    break;
  }
  case E_SHL: {
    if (isC(e->k[1])) {
      unsigned s = (unsigned)e->k[1]->c; unsigned have = nbOf(e->k[0]);
      r = fit(Z3_mk_concat(ctx, lowerBV(e->k[0]), numeral(0, s)), have + s, n); break;
    }
    r = fit(Z3_mk_bvshl(ctx, at(e->k[0], e->w), at(e->k[1], e->w)), e->w, n); break;
  }
  case E_LSHR: r = fit(Z3_mk_bvlshr(ctx, at(e->k[0], e->w), at(e->k[1], e->w)), e->w, n); break;
  case E_ASHR: r = fit(Z3_mk_bvashr(ctx, at(e->k[0], e->w), at(e->k[1], e->w)), e->w, n); break;
  case E_SDIV: r = fit(Z3_mk_bvsdiv(ctx, at(e->k[0], e->w), at(e->k[1], e->w)), e->w, n); break;
  case E_SREM: r = fit(Z3_mk_bvsrem(ctx, at(e->k[0], e->w), at(e->k[1], e->w)), e->w, n); break;
  default: fatal("lowerBV");
  }
  e->zast = r;
  return r;
}

static Z3_ast literal(Ex e) {
  if (e->zlitgen == gen && e->zlit) return (Z3_ast)e->zlit;
  Z3_ast l = Z3_mk_fresh_const(ctx, "p", Z3_mk_bool_sort(ctx));
  Z3_solver_assert(ctx, slv, Z3_mk_implies(ctx, l, lowerB(e)));
  nAsserted++;
  e->zlitgen = gen; e->zlit = l;
  return l;
}

struct Cached { Res r; std::vector<std::pair<u32, u64>> m; };
static std::unordered_map<Key, Cached, KeyH> cache;

static void collectVars(const std::vector<Ex> &cs, std::vector<Ex> &vars) {
  std::unordered_set<u32> seen; std::vector<Ex> st(cs.begin(), cs.end());
  while (!st.empty()) {
    Ex e = st.back(); st.pop_back();
    if (!e->vs || !seen.insert(e->id).second) continue;
    if (e->op == E_VAR) vars.push_back(e);
    for (int i = 0; i < 3; i++) if (e->k[i]) st.push_back(e->k[i]);
  }
}



// ---- linear integer view ---------------------------------------------------------------------
// The constraints over the integers: exact for everything linear (wrap-around through carry variables), nonlinear
// products become bounded unknowns.  UNSAT is therefore always valid; SAT counts only after evaluating the model.
static Z3_context lctx = nullptr;
struct Lia {
  Z3_solver s; std::unordered_map<u32, Z3_ast> im, bm; std::unordered_map<u32, u64> fixed; bool approx = false; std::vector<Ex> prods; bool dummy = false; unsigned nf = 0;
  Z3_sort I, B;
  Lia() {
    if (!lctx) { Z3_config c = Z3_mk_config(); lctx = Z3_mk_context(c); Z3_del_config(c); Z3_set_error_handler(lctx, onErr); }
    I = Z3_mk_int_sort(lctx); B = Z3_mk_bool_sort(lctx);
    s = Z3_mk_solver_for_logic(lctx, Z3_mk_string_symbol(lctx, "QF_LIA")); Z3_solver_inc_ref(lctx, s);
    Z3_params p = Z3_mk_params(lctx); Z3_params_inc_ref(lctx, p); Z3_params_set_uint(lctx, p, Z3_mk_string_symbol(lctx, "rlimit"), (unsigned)g_liaRlimit);
    Z3_solver_set_params(lctx, s, p); Z3_params_dec_ref(lctx, p);
  }
  ~Lia() { Z3_solver_dec_ref(lctx, s); }
  Z3_ast num(u128 v) { char buf[64]; int i = 63; buf[i] = 0; if (!v) buf[--i] = '0'; while (v) { buf[--i] = '0' + (int)(v % 10); v /= 10; } return Z3_mk_numeral(lctx, buf + i, I); }
  Z3_ast pow2(unsigned w) { // 2^w, w may be 128
    if (w < 128) return num((u128)1 << w);
    return Z3_mk_numeral(lctx, "340282366920938463463374607431768211456", I);
  }
  Z3_ast add(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_add(lctx, 2, x); }
  Z3_ast sub(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_sub(lctx, 2, x); }
  Z3_ast mul(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_mul(lctx, 2, x); }
  void as(Z3_ast a) { Z3_solver_assert(lctx, s, a); }
  Z3_ast fresh(u128 lo, u128 hi) { Z3_ast r = Z3_mk_fresh_const(lctx, "t", I); nf++; as(Z3_mk_ge(lctx, r, num(lo))); as(Z3_mk_le(lctx, r, num(hi))); return r; }
  Z3_ast freshAny() { nf++; return Z3_mk_fresh_const(lctx, "t", I); }
  Z3_ast modw(Z3_ast v, unsigned w, Ex e) { // v mod 2^w as a fresh value
    Z3_ast q = freshAny(), r = fresh(e->lo, e->hi); as(Z3_mk_eq(lctx, v, add(mul(q, pow2(w)), r))); return r;
  }
  Z3_ast sgn(Ex e) { Z3_ast a = toI(e); return Z3_mk_ite(lctx, Z3_mk_lt(lctx, a, pow2(e->w - 1)), a, sub(a, pow2(e->w))); }
  Z3_ast toB(Ex e) {
    auto it = bm.find(e->id); if (it != bm.end()) return it->second;
    Z3_ast r;
    switch (e->op) {
    case E_CONST: r = e->c ? Z3_mk_true(lctx) : Z3_mk_false(lctx); break;
    case E_AND: { Z3_ast x[2] = {toB(e->k[0]), toB(e->k[1])}; r = Z3_mk_and(lctx, 2, x); break; }
    case E_OR: { Z3_ast x[2] = {toB(e->k[0]), toB(e->k[1])}; r = Z3_mk_or(lctx, 2, x); break; }
    case E_XOR: r = Z3_mk_xor(lctx, toB(e->k[0]), toB(e->k[1])); break;
    case E_ITE: r = Z3_mk_ite(lctx, toB(e->k[0]), toB(e->k[1]), toB(e->k[2])); break;
    case E_EQ: if (e->k[0]->w == 1) r = Z3_mk_iff(lctx, toB(e->k[0]), toB(e->k[1])); else r = Z3_mk_eq(lctx, toI(e->k[0]), toI(e->k[1])); break;
    case E_ULT: r = Z3_mk_lt(lctx, toI(e->k[0]), toI(e->k[1])); break;
    case E_ULE: r = Z3_mk_le(lctx, toI(e->k[0]), toI(e->k[1])); break;
    case E_SLT: r = Z3_mk_lt(lctx, sgn(e->k[0]), sgn(e->k[1])); break;
    case E_SLE: r = Z3_mk_le(lctx, sgn(e->k[0]), sgn(e->k[1])); break;
    case E_MULH: {
      Z3_ast p = product(e->k[0], e->k[1], true);
      if (p) r = Z3_mk_ge(lctx, p, pow2(e->k[0]->w)); else { approx = true; r = Z3_mk_fresh_const(lctx, "b", B); }
      break;
    }
    default: r = Z3_mk_eq(lctx, toI(e), num(1));
    }
    return bm[e->id] = r;
  }
  bool constOf(Ex e, u128 &v) { // value when every variable in it is fixed
    if (isC(e)) { v = e->c; return true; }
    if (fixed.empty()) return false;
    std::vector<Ex> st{e}, vs; std::unordered_set<u32> seen;
    while (!st.empty()) { Ex x = st.back(); st.pop_back(); if (!x->vs || !seen.insert(x->id).second) continue; if (x->op == E_VAR) { if (!fixed.count(x->aux)) return false; } for (int i = 0; i < 3; i++) if (x->k[i]) st.push_back(x->k[i]); }
    std::vector<u64> m; for (auto &p : fixed) { if (m.size() <= p.first) m.resize(p.first + 1, 0); m[p.first] = p.second; }
    v = evalEx(e, m); return true;
  }
  std::map<std::vector<u32>, Z3_ast> monos;
  Z3_ast monoVar(const std::vector<u32> &m) { // product of two or more atoms
    auto it = monos.find(m); if (it != monos.end()) return it->second;
    approx = true;
    u128 lo = 1, hi = 1; bool ov = false;
    for (u32 id : m) { Ex a = atomEx(id); if (a->hi && hi > (~(u128)0) / a->hi) ov = true; else { hi *= a->hi; lo *= a->lo; } }
    if (ov) { lo = 0; hi = ~(u128)0; }
    Z3_ast r = freshAny(); as(Z3_mk_ge(lctx, r, num(lo))); if (!ov) as(Z3_mk_le(lctx, r, num(hi)));
    monos[m] = r;
    if (!ov) for (size_t i = 0; i < m.size(); i++) {
      if (i && m[i] == m[i - 1]) continue;
      u128 rl = 1, rh = 1; for (size_t j = 0; j < m.size(); j++) if (j != i) { rl *= atomEx(m[j])->lo; rh *= atomEx(m[j])->hi; }
      Z3_ast f = toI(atomEx(m[i])); as(Z3_mk_ge(lctx, r, mul(num(rl), f))); as(Z3_mk_le(lctx, r, mul(num(rh), f)));
    }
    return r;
  }
  // relations between products that share all factors but one
  void lemmas() {
    std::vector<std::pair<std::vector<u32>, Z3_ast>> v(monos.begin(), monos.end());
    if (v.size() > 40) return;
    for (size_t i = 0; i < v.size(); i++) for (size_t j = i + 1; j < v.size(); j++) {
      std::vector<u32> common, da, db;
      std::set_intersection(v[i].first.begin(), v[i].first.end(), v[j].first.begin(), v[j].first.end(), std::back_inserter(common));
      std::set_difference(v[i].first.begin(), v[i].first.end(), common.begin(), common.end(), std::back_inserter(da));
      std::set_difference(v[j].first.begin(), v[j].first.end(), common.begin(), common.end(), std::back_inserter(db));
      if (common.empty() || da.size() > 1 || db.size() > 1) continue;
      Z3_ast A = v[i].second, Bv = v[j].second, C = nullptr;
      if (common.size() == 1) C = toI(atomEx(common[0])); else { auto it = monos.find(common); if (it != monos.end()) C = it->second; }
      Z3_ast x = da.empty() ? num(1) : toI(atomEx(da[0])), y = db.empty() ? num(1) : toI(atomEx(db[0]));
      as(Z3_mk_implies(lctx, Z3_mk_le(lctx, x, y), Z3_mk_le(lctx, A, Bv)));
      as(Z3_mk_implies(lctx, Z3_mk_le(lctx, y, x), Z3_mk_le(lctx, Bv, A)));
      if (C) {
        as(Z3_mk_implies(lctx, Z3_mk_lt(lctx, x, y), Z3_mk_le(lctx, add(A, C), Bv)));
        as(Z3_mk_implies(lctx, Z3_mk_lt(lctx, y, x), Z3_mk_le(lctx, add(Bv, C), A)));
      }
    }
  }
  // integer value of a polynomial (coefficients signed modulo 2^128), or null if it might leave +-2^126
  Z3_ast polyI(const Poly &p) {
    if (p.size() > 60) return nullptr;
    struct T { std::vector<u32> m; u128 c; bool neg; }; std::vector<T> ts; u128 tot = 0;
    for (auto &t : p) {
      T x; x.c = t.second; x.neg = false; if (x.c >> 127) { x.c = ~x.c + 1; x.neg = true; }
      u128 bound = x.c;
      for (u32 id : t.first) { u128 h = atomEx(id)->hi; if (h && bound > ((u128)1 << 126) / h) return nullptr; bound *= h; }
      for (u32 id : t.first) { u128 v; if (constOf(atomEx(id), v)) { if (v && x.c > ((u128)1 << 126) / v) return nullptr; x.c *= v; } else x.m.push_back(id); }
      tot += bound; if (tot >> 126) return nullptr;
      ts.push_back(x);
    }
    Z3_ast r = num(0);
    for (auto &x : ts) {
      Z3_ast v = x.m.empty() ? num(1) : x.m.size() == 1 ? toI(atomEx(x.m[0])) : monoVar(x.m);
      Z3_ast cv = mul(num(x.c), v);
      r = x.neg ? sub(r, cv) : add(r, cv);
    }
    return r;
  }
  static Poly pmul(const Poly &a, const Poly &b) {
    Poly r; for (auto &t : a) for (auto &u : b) { std::vector<u32> m(t.first); m.insert(m.end(), u.first.begin(), u.first.end()); std::sort(m.begin(), m.end()); r[m] += t.second * u.second; if (!r[m]) r.erase(m); } return r;
  }
  Z3_ast product(Ex a, Ex b, bool) {
    u128 v;
    if (constOf(a, v)) return mul(num(v), toI(b));
    if (constOf(b, v)) return mul(num(v), toI(a));
    const Poly &x = polyFor(a, 128), &y = polyFor(b, 128); if (x.size() * y.size() > 60) return nullptr;
    return polyI(pmul(x, y));
  }
  Z3_ast toI(Ex e) {
    if (e->op == E_CONST) return num(e->c);
    auto it = im.find(e->id); if (it != im.end()) return it->second;
    Z3_ast r = nullptr; unsigned w = e->w;
    if (e->op == E_ADD || e->op == E_SUB || e->op == E_SUBNB || e->op == E_MUL || e->op == E_SHL) {
      const Poly &p = polyFor(e, 128);
      if (!(p.size() == 1 && p.begin()->first.size() == 1 && p.begin()->first[0] == e->id)) r = polyI(p);
      if (r) { im[e->id] = r; as(Z3_mk_ge(lctx, r, num(e->lo))); as(Z3_mk_le(lctx, r, num(e->hi))); return r; }
    }
    switch (e->op) {
    case E_VAR: {
      auto f = fixed.find(e->aux); if (f != fixed.end()) { r = num(f->second); break; }
      char nm[32]; snprintf(nm, 32, "v%d", e->aux); r = Z3_mk_const(lctx, Z3_mk_string_symbol(lctx, nm), I); as(Z3_mk_ge(lctx, r, num(e->lo))); as(Z3_mk_le(lctx, r, num(e->hi))); break; }
    case E_ADD: {
      Z3_ast v = add(toI(e->k[0]), toI(e->k[1])); u128 h = e->k[0]->hi + e->k[1]->hi;
      if (h >= e->k[0]->hi && h <= maskw(w)) r = v;
      else { Z3_ast t = fresh(0, 1); r = sub(v, mul(t, pow2(w))); as(Z3_mk_ge(lctx, r, num(e->lo))); as(Z3_mk_le(lctx, r, num(e->hi))); }
      break;
    }
    case E_SUBNB: r = sub(toI(e->k[0]), toI(e->k[1])); break;
    case E_SUB: { Z3_ast t = fresh(0, 1); r = add(sub(toI(e->k[0]), toI(e->k[1])), mul(t, pow2(w))); as(Z3_mk_ge(lctx, r, num(0))); as(Z3_mk_le(lctx, r, num(maskw(w)))); break; }
    case E_MUL: {
      Z3_ast p = product(e->k[0], e->k[1], false);
      u128 ah = e->k[0]->hi, bh = e->k[1]->hi; bool nowrap = !ah || bh <= maskw(w) / ah;
      if (p) r = nowrap ? p : modw(p, w, e);
      else {
        approx = true; prods.push_back(e); r = fresh(e->lo, e->hi);
        if (nowrap) { Z3_ast a = toI(e->k[0]), b = toI(e->k[1]);
          as(Z3_mk_ge(lctx, r, mul(num(e->k[1]->lo), a))); as(Z3_mk_le(lctx, r, mul(num(bh), a)));
          as(Z3_mk_ge(lctx, r, mul(num(e->k[0]->lo), b))); as(Z3_mk_le(lctx, r, mul(num(ah), b))); }
      }
      break;
    }
    case E_UDIV: case E_UREM: {
      u128 c;
      if (constOf(e->k[1], c) && c) {
        u64 key = ((u64)e->k[0]->id << 32) | e->k[1]->id; auto it = dv.find(key);
        if (it == dv.end()) { Z3_ast a = toI(e->k[0]); Z3_ast q = fresh(0, e->k[0]->hi / c), m = fresh(0, c - 1); as(Z3_mk_eq(lctx, a, add(mul(num(c), q), m))); it = dv.emplace(key, std::make_pair(q, m)).first; }
        r = e->op == E_UDIV ? it->second.first : it->second.second;
      } else {
        approx = true; prods.push_back(e);
        u64 key = ((u64)e->k[0]->id << 32) | e->k[1]->id; auto it = dv.find(key);
        if (it == dv.end()) { // a = b*q + m, m < b when b != 0 (q enters products as an atom)
          Ex qe = mkBin(E_UDIV, e->k[0], e->k[1]);
          Z3_ast q = fresh(qe->lo, qe->hi), m = fresh(0, e->k[0]->hi), b = toI(e->k[1]);
          it = dv.emplace(key, std::make_pair(q, m)).first;
          if (qe->op == E_UDIV) {
            im[qe->id] = q;
            const Poly &y = polyFor(e->k[1], 128), &z = polyFor(qe, 128);
            Z3_ast p = y.size() < 20 ? polyI(pmul(y, z)) : nullptr;
            Z3_ast nz = Z3_mk_gt(lctx, b, num(0));
            if (p) { as(Z3_mk_implies(lctx, nz, Z3_mk_eq(lctx, toI(e->k[0]), add(p, m)))); as(Z3_mk_implies(lctx, nz, Z3_mk_lt(lctx, m, b))); }
          }
        }
        r = e->op == E_UDIV ? it->second.first : it->second.second;
      }
      break;
    }
    case E_SHL: {
      u128 c; if (constOf(e->k[1], c) && c < w) { Z3_ast p = mul(toI(e->k[0]), pow2((unsigned)c)); r = bitsof(e->k[0]->hi) + (unsigned)c <= w ? p : modw(p, w, e); }
      else { approx = true; r = fresh(e->lo, e->hi); }
      break;
    }
    case E_ZEXT: r = toI(e->k[0]); break;
    case E_SEXT: { Z3_ast a = toI(e->k[0]); r = Z3_mk_ite(lctx, Z3_mk_lt(lctx, a, pow2(e->k[0]->w - 1)), a, add(a, sub(pow2(w), pow2(e->k[0]->w)))); break; }
    case E_EXTRACT: {
      Z3_ast a = toI(e->k[0]); u128 h = e->k[0]->hi;
      if (e->aux == 0) { if (h <= maskw(w)) r = a; else r = modw(a, w, e); }
      else { Z3_ast q = fresh(0, h >> e->aux), m = fresh(0, maskw(e->aux)); as(Z3_mk_eq(lctx, a, add(mul(pow2(e->aux), q), m))); r = (h >> e->aux) <= maskw(w) ? q : modw(q, w, e); }
      break;
    }
    case E_CONCAT: r = add(mul(toI(e->k[0]), pow2(e->k[1]->w)), toI(e->k[1])); break;
    case E_ITE: r = w == 1 ? Z3_mk_ite(lctx, toB(e), num(1), num(0)) : Z3_mk_ite(lctx, toB(e->k[0]), toI(e->k[1]), toI(e->k[2])); break;
    default:
      if (w == 1) { r = Z3_mk_ite(lctx, toB(e), num(1), num(0)); break; }
      approx = true; r = fresh(e->lo, e->hi);
    }
    return im[e->id] = r;
  }
  std::unordered_map<u64, std::pair<Z3_ast, Z3_ast>> dv;
  Res check(const std::vector<Ex> &cs, const std::vector<Ex> &vars, std::vector<u64> &model, bool wantModel) {
    for (Ex e : cs) if (!isC(e)) as(toB(e));
    lemmas();
    Z3_lbool b = Z3_solver_check(lctx, s);
    if (b == Z3_L_FALSE) return R_UNSAT;
    if (b != Z3_L_TRUE) return R_UNKNOWN;
    if (!wantModel) return R_SAT;
    Z3_model m = Z3_solver_get_model(lctx, s); Z3_model_inc_ref(lctx, m);
    for (Ex v : vars) {
      Z3_ast out; u64 val = 0; if (model.size() <= v->aux) model.resize(v->aux + 1, 0);
      if (Z3_model_eval(lctx, m, toI(v), true, &out) && Z3_get_numeral_uint64(lctx, out, (uint64_t *)&val)) model[v->aux] = val;
    }
    Z3_model_dec_ref(lctx, m);
    evalNewStamp();
    for (Ex e : cs) if (!evalEx(e, model)) return R_UNKNOWN;
    return R_SAT;
  }
};
static void resetLia() { static unsigned n = 0; if (++n % 200 == 0 && lctx) { Z3_del_context(lctx); lctx = nullptr; } }
// Is there a division by a large constant (hard for bit-blasting, easy for integers)?
static bool hasDiv(const std::vector<Ex> &cs) {
  std::unordered_set<u32> seen; std::vector<Ex> st(cs.begin(), cs.end());
  while (!st.empty()) { Ex e = st.back(); st.pop_back(); if (!e->vs || !seen.insert(e->id).second) continue; if ((e->op == E_UDIV || e->op == E_UREM) && isC(e->k[1])) return true; for (int i = 0; i < 3; i++) if (e->k[i]) st.push_back(e->k[i]); }
  return false;
}
static Res liaSolve(const std::vector<Ex> &cs, std::vector<u64> &model, bool search) {
  resetLia(); g_ss.lia++;
  std::vector<Ex> vars; collectVars(cs, vars);
  std::vector<u64> m(model), cand(model); std::vector<Ex> prods;
  {
    Lia l; Res r = l.check(cs, vars, m, search);
    if (r == R_UNSAT) { g_ss.liaUnsat++; return r; }
    if (r == R_SAT && (search)) { model = m; g_ss.liaSat++; return r; }
    if (r == R_SAT) return R_SAT; // approximate answer, caller only uses UNSAT
    if (!search || !l.approx) return R_UNKNOWN;
    prods = l.prods;
  }
  // make the products linear by fixing factors
  for (int attempt = 0; attempt < 4; attempt++) {
    Lia l; std::vector<u64> mm(model);
    for (Ex p : prods) {
      std::vector<Ex> va, vb; collectVars({p->k[0]}, va); collectVars({p->k[1]}, vb);
      std::vector<Ex> &v = (attempt & 1) ? (va.size() <= vb.size() ? va : vb) : (va.size() < vb.size() ? va : vb);
      bool other = true; for (Ex x : (&v == &va ? vb : va)) if (!l.fixed.count(x->aux)) other = false;
      if (other) continue;
      for (Ex x : v) { u64 c = attempt < 2 ? (x->aux < cand.size() ? cand[x->aux] : (u64)x->lo) : (x->aux < m.size() ? m[x->aux] : (u64)x->lo); if (c < x->lo) c = x->lo; if (c > x->hi) c = x->hi; l.fixed[x->aux] = c; }
    }
    std::vector<u64> base(mm); for (auto &p : l.fixed) { if (base.size() <= p.first) base.resize(p.first + 1, 0); base[p.first] = p.second; }
    Res r = l.check(cs, vars, base, true);
    if (r == R_SAT) { model = base; g_ss.liaSat++; return r; }
  }
  return R_UNKNOWN;
}
Res liaUnsat(const std::vector<Ex> &cs0) {
  static std::unordered_map<Key, Res, KeyH> memo;
  std::vector<Ex> cs(cs0); std::sort(cs.begin(), cs.end(), [](Ex a, Ex b) { return a->id < b->id; }); cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
  Key k = {0x1234567, 0x89abcdef};
  for (Ex e : cs) { k.a = (k.a ^ e->id) * 0x9e3779b97f4a7c15ull; k.a ^= k.a >> 31; k.b = (k.b + e->id) * 0xc2b2ae3d27d4eb4full; k.b ^= k.b >> 29; }
  auto it = memo.find(k); if (it != memo.end()) { g_ss.cacheHits++; return it->second; }
  std::vector<u64> m; double t0 = now(); Res r = liaSolve(cs, m, false); g_ss.time += now() - t0; return memo[k] = r; }

// Hard queries: written as SMT-LIB2 and given to a portfolio of external solvers.
static Res external(const std::vector<Ex> &cs, const std::vector<Ex> &vars, std::vector<u64> &model) {
  g_ss.external++;
  Z3_solver s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
  Z3_solver_inc_ref(ctx, s);
  for (Ex e : cs) Z3_solver_assert(ctx, s, lowerB(e));
  for (Z3_ast d : g_defs) Z3_solver_assert(ctx, s, d);
  for (Ex e : vars) {
    unsigned n = nbOf(e); Z3_ast v = lowerBV(e);
    if (e->hi != maskw(n)) Z3_solver_assert(ctx, s, Z3_mk_bvule(ctx, v, numeral(e->hi, n)));
    if (e->lo != 0) Z3_solver_assert(ctx, s, Z3_mk_bvule(ctx, numeral(e->lo, n), v));
  }
  std::string txt = "(set-option :produce-models true)\n(set-logic QF_BV)\n"; txt += Z3_solver_to_string(ctx, s);
  Z3_solver_dec_ref(ctx, s);
  txt += "(check-sat)\n";
  for (Ex v : vars) { char b[64]; snprintf(b, 64, "(get-value (v%d_%d))\n", v->aux, nbOf(v)); txt += b; }
  char base[256]; snprintf(base, 256, "%s/q%d_%llu", g_tmpdir.c_str(), getpid(), (unsigned long long)g_ss.external);
  std::string f = std::string(base) + ".smt2", o = std::string(base) + ".out";
  FILE *fp = fopen(f.c_str(), "w"); fputs(txt.c_str(), fp); fclose(fp);
  const char *cmds[] = {"cvc5 --lang=smt2 --solve-bv-as-int=sum", "cvc5 --lang=smt2 --bitblast=eager", "z3-new"};
  Res r = R_UNKNOWN;
  for (const char *c : cmds) {
    char cmd[1024];
    snprintf(cmd, sizeof cmd, "timeout %d %s %s > %s 2>/dev/null", g_extTimeout, c, f.c_str(), o.c_str());
    if (system(cmd)) {}
    FILE *op = fopen(o.c_str(), "r"); if (!op) continue;
    char line[512]; r = R_UNKNOWN;
    if (fgets(line, 512, op)) {
      if (!strncmp(line, "unsat", 5)) r = R_UNSAT;
      else if (!strncmp(line, "sat", 3)) {
        r = R_SAT;
        while (fgets(line, 512, op)) {
          int idx, n; char *p = strstr(line, "((v"); if (!p || sscanf(p, "((v%d_%d", &idx, &n) != 2) { if (strstr(line, "error")) { r = R_UNKNOWN; break; } continue; }
          u64 v = 0; char *q;
          if ((q = strstr(p, "#x"))) v = strtoull(q + 2, 0, 16);
          else if ((q = strstr(p, "#b"))) v = strtoull(q + 2, 0, 2);
          else { r = R_UNKNOWN; break; }
          if ((int)model.size() <= idx) model.resize(idx + 1, 0);
          model[idx] = v;
        }
        if (r == R_SAT) { // validate
          evalNewStamp();
          for (Ex e : cs) if (!evalEx(e, model)) { r = R_UNKNOWN; break; }
        }
      }
    }
    fclose(op);
    if (r != R_UNKNOWN) break;
  }
  if (!getenv("PX_KEEP")) { unlink(f.c_str()); unlink(o.c_str()); }
  return r;
}

// Stochastic search for a model from the model of the path (only ever answers SAT, with a checked model).
static double lg(u128 d) { double r = 0; while (d >> 32) { d >>= 32; r += 32; } return r + __builtin_log2((double)d + 1); }
u128 evalSame(Ex e, const std::vector<u64> &m);
static double miss(Ex e, const std::vector<u64> &m, bool want) {
  if (e->op == E_XOR && e->w == 1 && isC(e->k[1]) && e->k[1]->c) return miss(e->k[0], m, !want);
  if ((bool)evalSame(e, m) == want) return 0;
  if (e->op == E_AND || e->op == E_OR) {
    double a = miss(e->k[0], m, want), b = miss(e->k[1], m, want);
    return (e->op == E_AND) == want ? a + b : std::min(a, b);
  }
  if (e->op == E_ULT || e->op == E_ULE || e->op == E_EQ) {
    u128 a = evalSame(e->k[0], m), b = evalSame(e->k[1], m);
    if (e->op == E_EQ && !want) return 1;
    return 1 + lg(a > b ? a - b : b - a);
  }
  return 8;
}
static Res localSearch(const std::vector<Ex> &cs, const std::vector<Ex> &vars, std::vector<u64> &model) {
  if (vars.empty()) return R_UNKNOWN;
  std::vector<u64> base(model); for (Ex v : vars) { if (base.size() <= v->aux) base.resize(v->aux + 1, 0); u64 &x = base[v->aux]; if (x < (u64)v->lo || x > (u64)v->hi) x = (u64)v->lo; }
  u64 seed = 0x9e3779b97f4a7c15ull; auto rnd = [&]() { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; return seed; };
  auto cost = [&](const std::vector<u64> &m) { evalNewStamp(); double s = 0; for (Ex e : cs) s += miss(e, m, true); return s; };
  double t0 = now();
  std::vector<u64> cur(base); double best = cost(cur); unsigned stale = 0;
  for (unsigned it = 0; it < 200000 && best > 0; it++) {
    if ((it & 63) == 0 && now() - t0 > 1.5) break;
    if (stale > 2500) { cur = base; best = cost(cur); stale = 0; }
    std::vector<std::pair<u32, u64>> undo; unsigned n = 1 + (rnd() % 4 == 0) + (rnd() % 8 == 0);
    for (unsigned j = 0; j < n; j++) {
      Ex v = vars[rnd() % vars.size()]; u64 lo = v->lo, hi = v->hi, x = cur[v->aux], y; u64 span = hi - lo;
      switch (rnd() % 10) {
      case 0: y = lo; break; case 1: y = hi; break;
      case 2: y = x + 1; break; case 3: y = x - 1; break;
      case 4: y = x * 2; break; case 5: y = x / 2; break;
      case 6: { u64 k = span ? 64 - __builtin_clzll(span) : 0; u64 b = k ? rnd() % k + 1 : 0; y = lo + (rnd() & (b >= 64 ? ~0ull : (1ull << b) - 1)); break; }
      case 7: { Ex u = vars[rnd() % vars.size()]; y = cur[u->aux] + (rnd() % 3) - 1; break; }
      case 8: { u64 b = rnd() % 64; y = x ^ (1ull << b); break; }
      default: { u64 b = 1ull << (rnd() % 40); y = rnd() & 1 ? x + b : x - b; }
      }
      if (y < lo || y > hi) y = lo + (span == ~0ull ? y : y % (span + 1));
      undo.push_back({v->aux, x}); cur[v->aux] = y;
    }
    double c = cost(cur);
    if (c < best) { best = c; stale = 0; } else if (c == best || rnd() % 200 == 0) { best = c; stale++; }
    else { for (size_t j = undo.size(); j--;) cur[undo[j].first] = undo[j].second; stale++; }
  }
  evalNewStamp();
  for (Ex e : cs) if (!evalEx(e, cur)) return R_UNKNOWN;
  model = cur; return R_SAT;
}

static Res solve2(const std::vector<Ex> &cs0, std::vector<u64> &model, bool fallback) {
  std::vector<Ex> cs(cs0);
  std::sort(cs.begin(), cs.end(), [](Ex a, Ex b) { return a->id < b->id; });
  cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
  Key k = {0x1234567, 0x89abcdef};
  for (Ex e : cs) {
    if (isC(e) && !e->c) return R_UNSAT;
    k.a = (k.a ^ e->id) * 0x9e3779b97f4a7c15ull; k.a ^= k.a >> 31;
    k.b = (k.b + e->id) * 0xc2b2ae3d27d4eb4full; k.b ^= k.b >> 29;
  }
  auto it = cache.find(k);
  if (it != cache.end()) {
    g_ss.cacheHits++;
    for (auto &p : it->second.m) { if (model.size() <= p.first) model.resize(p.first + 1, 0); model[p.first] = p.second; }
    return it->second.r;
  }
  if (nAsserted > g_resetEvery) newCtx();
  g_ss.queries++;
  double t0 = now();
  Cached c;
  std::vector<Ex> vars;
  Res r = R_UNKNOWN;
  bool lia = false; if (fallback) for (Ex e : cs) if (!linearEx(e)) lia = true;
  if (lia) {
    r = liaSolve(cs, model, true);
    if (r == R_SAT) { collectVars(cs, vars); for (Ex v : vars) c.m.push_back({v->aux, model[v->aux]}); }
  }
  if (r == R_UNKNOWN) {
  std::vector<Z3_ast> as;
  for (Ex e : cs) if (!isC(e)) as.push_back(literal(e));
  Z3_lbool b = Z3_solver_check_assumptions(ctx, slv, as.size(), as.data());
  r = b == Z3_L_TRUE ? R_SAT : b == Z3_L_FALSE ? R_UNSAT : R_UNKNOWN;
  if (r == R_SAT) {
    collectVars(cs, vars);
    Z3_model m = Z3_solver_get_model(ctx, slv);
    Z3_model_inc_ref(ctx, m);
    for (Ex v : vars) {
      Z3_ast out;
      u64 val = 0;
      if (!Z3_model_eval(ctx, m, lowerBV(v), true, &out)) fatal("model eval");
      if (!Z3_get_numeral_uint64(ctx, out, (uint64_t *)&val)) fatal("model numeral");
      if (model.size() <= v->aux) model.resize(v->aux + 1, 0);
      model[v->aux] = val;
      c.m.push_back({v->aux, val});
    }
    Z3_model_dec_ref(ctx, m);
    for (Ex e : cs) if (!evalEx(e, model)) fatal("solver model does not satisfy constraint %s", exStr(e, 8).c_str());
  } else if (r == R_UNKNOWN) {
    collectVars(cs, vars);
    if (fallback && !lia) { r = liaSolve(cs, model, true); }
    if (fallback && r == R_UNKNOWN && (r = localSearch(cs, vars, model)) == R_SAT) g_ss.local++;
    if (fallback && r == R_UNKNOWN) r = external(cs, vars, model);
    if (r == R_SAT) for (Ex v : vars) c.m.push_back({v->aux, model[v->aux]});
    newCtx();
  }
  }
  double dt = now() - t0;
  g_ss.time += dt; if (dt > g_ss.maxTime) g_ss.maxTime = dt;
  if (dt > 1.0 && g_dumpSlow) { fprintf(stderr, "[slow query %.2fs r=%d]\n", dt, r); if (g_dumpSlow > 1) for (Ex e : cs) fprintf(stderr, "   %s\n", exStr(e, 16).c_str()); }
  if (r == R_SAT) g_ss.sat++; else if (r == R_UNSAT) g_ss.unsat++; else g_ss.unknown++;
  c.r = r;
  if (r != R_UNKNOWN) cache[k] = c;
  return r;
}
Res solve(const std::vector<Ex> &cs, std::vector<u64> &model) { return solve2(cs, model, true); }
Res trySolve(const std::vector<Ex> &cs, std::vector<u64> &model) { return solve2(cs, model, false); }
