#include "expr.h"
#include <map>
#include <array>

static std::vector<VarSet> g_vs;
static std::map<std::array<u64, 8>, u32> g_vsmap;
static std::unordered_map<u64, u32> g_vsun;
static u32 vs_intern(const VarSet &v) {
  std::array<u64, 8> a;
  memcpy(a.data(), v.b, 64);
  auto it = g_vsmap.find(a);
  if (it != g_vsmap.end()) return it->second;
  u32 id = g_vs.size();
  g_vs.push_back(v);
  g_vsmap[a] = id;
  return id;
}
static void vs_init() {
  if (g_vs.empty()) { VarSet v; memset(&v, 0, sizeof v); vs_intern(v); }
}
u32 vs_union(u32 a, u32 b) {
  if (a == b || b == 0) return a;
  if (a == 0) return b;
  if (a > b) std::swap(a, b);
  u64 key = ((u64)a << 32) | b;
  auto it = g_vsun.find(key);
  if (it != g_vsun.end()) return it->second;
  VarSet v;
  for (int i = 0; i < 8; i++) v.b[i] = g_vs[a].b[i] | g_vs[b].b[i];
  u32 r = vs_intern(v);
  g_vsun[key] = r;
  return r;
}
u32 vs_single(unsigned i) {
  vs_init();
  if (i >= 512) fatal("too many symbolic variables");
  VarSet v; memset(&v, 0, sizeof v);
  v.b[i / 64] = 1ull << (i % 64);
  return vs_intern(v);
}
const VarSet &vs_get(u32 id) { vs_init(); return g_vs[id]; }
bool vs_intersects(u32 a, u32 b) {
  if (!a || !b) return false;
  if (a == b) return true;
  const VarSet &x = g_vs[a], &y = g_vs[b];
  for (int i = 0; i < 8; i++) if (x.b[i] & y.b[i]) return true;
  return false;
}

// ---- interning --------------------------------------------------------------
static std::vector<Expr *> g_table; // open addressing
static u64 g_count = 0;
u64 exprCount() { return g_count; }
static inline u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 29); }
static u64 hashEx(const Expr &e) {
  u64 h = mix(e.op * 131 + e.w, e.aux);
  h = mix(h, (u64)e.c); h = mix(h, (u64)(e.c >> 64));
  for (int i = 0; i < 3; i++) h = mix(h, e.k[i] ? e.k[i]->id + 1 : 0);
  return h;
}
static bool sameEx(const Expr &a, const Expr &b) {
  return a.op == b.op && a.w == b.w && a.aux == b.aux && a.c == b.c && a.k[0] == b.k[0] && a.k[1] == b.k[1] && a.k[2] == b.k[2];
}
static Expr *g_pool = nullptr; static size_t g_poolLeft = 0;
static void grow() {
  std::vector<Expr *> old; old.swap(g_table);
  g_table.assign(old.empty() ? (1u << 16) : old.size() * 2, nullptr);
  size_t m = g_table.size() - 1;
  for (Expr *e : old) if (e) { size_t i = hashEx(*e) & m; while (g_table[i]) i = (i + 1) & m; g_table[i] = e; }
}
static Ex intern(Expr &t) {
  if (g_table.empty() || g_count * 2 > g_table.size()) grow();
  size_t m = g_table.size() - 1, i = hashEx(t) & m;
  while (g_table[i]) { if (sameEx(*g_table[i], t)) return g_table[i]; i = (i + 1) & m; }
  if (!g_poolLeft) { g_poolLeft = 4096; g_pool = (Expr *)malloc(sizeof(Expr) * g_poolLeft); }
  Expr *e = g_pool++; g_poolLeft--;
  *e = t;
  e->id = (u32)++g_count;
  e->stamp = 0; e->zast = nullptr; e->zbool = nullptr; e->zgen = 0; e->zlit = nullptr; e->zlitgen = 0;
  vs_init();
  u32 vs = e->vs;
  for (int j = 0; j < 3; j++) if (e->k[j]) vs = vs_union(vs, e->k[j]->vs);
  e->vs = vs;
  g_table[i] = e;
  return e;
}
static Expr blank(EOp op, unsigned w) {
  Expr t; memset(&t, 0, sizeof t);
  t.op = op; t.w = w; t.lo = 0; t.hi = maskw(w);
  return t;
}
Ex mkConst(unsigned w, u128 v) {
  Expr t = blank(E_CONST, w); t.c = v & maskw(w); t.lo = t.hi = t.c; return intern(t);
}
Ex mkVar(unsigned idx, unsigned w, u128 lo, u128 hi) {
  Expr t = blank(E_VAR, w); t.aux = idx; t.lo = lo; t.hi = hi; t.c = (hi << 64) ^ lo ^ ((u128)bitsof(hi) << 120);
  t.vs = vs_single(idx); return intern(t);
}
static inline u128 sextv(u128 v, unsigned w) { // to 128
  if (w >= 128) return v;
  if ((v >> (w - 1)) & 1) return v | ~maskw(w);
  return v;
}
static bool addOv(u128 a, u128 b, unsigned w) { u128 s = a + b; if (s < a) return true; return s > maskw(w); }
static bool mulOv(u128 a, u128 b, unsigned w) {
  if (a == 0 || b == 0) return false;
  if (bitsof(a) + bitsof(b) <= w) return false;
  if (bitsof(a) + bitsof(b) > 129) return true;
  u128 p = a * b; if (p / a != b) return true; return p > maskw(w);
}
static u128 foldBin(EOp op, u128 a, u128 b, unsigned w) {
  u128 m = maskw(w);
  switch (op) {
  case E_ADD: return (a + b) & m;
  case E_SUB: case E_SUBNB: return (a - b) & m;
  case E_MUL: return (a * b) & m;
  case E_MULH: return mulOv(a, b, w);
  case E_UDIV: return b ? a / b : m;
  case E_UREM: return b ? a % b : a;
  case E_SDIV: { __int128 x = (__int128)sextv(a, w), y = (__int128)sextv(b, w); if (!y) return 0; if (y == -1) return (u128)(-x) & m; return (u128)(x / y) & m; }
  case E_SREM: { __int128 x = (__int128)sextv(a, w), y = (__int128)sextv(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
  case E_AND: return a & b;
  case E_OR: return a | b;
  case E_XOR: return a ^ b;
  case E_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
  case E_LSHR: return b >= w ? 0 : a >> (unsigned)b;
  case E_ASHR: { __int128 x = (__int128)sextv(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & m; }
  case E_EQ: return a == b;
  case E_ULT: return a < b;
  case E_ULE: return a <= b;
  case E_SLT: return (__int128)sextv(a, w) < (__int128)sextv(b, w);
  case E_SLE: return (__int128)sextv(a, w) <= (__int128)sextv(b, w);
  default: fatal("foldBin");
  }
}
static bool isCmp(EOp op) { return op >= E_EQ && op <= E_SLE; }
Ex mkNot(Ex a) { return mkBin(E_XOR, a, mkConst(a->w, maskw(a->w))); }
static bool isNot(Ex e) { return e->op == E_XOR && isC(e->k[1]) && e->k[1]->c == maskw(e->w); }

// ---- ring normal form: equalities modulo 2^w are decided by comparing polynomials ----------
#include <map>
static const size_t POLY_MAX = 400;
static bool polyOf(Ex e, unsigned w, Poly &out, u128 k, int depth);
static std::unordered_map<u64, Poly> g_polyCache;
static void padd(Poly &p, const std::vector<u32> &m, u128 c, unsigned w) {
  c &= maskw(w); if (!c) return;
  auto it = p.find(m);
  if (it == p.end()) p.emplace(m, c); else { it->second = (it->second + c) & maskw(w); if (!it->second) p.erase(it); }
}
// multiplication by a constant of at least 2 that cannot overflow
static bool exactMul(Ex e) { return e->op == E_MUL && isC(e->k[1]) && e->k[1]->c > 1 && e->w <= 64 && !mulOv(e->k[0]->hi, e->k[1]->hi, e->w); }
static const Poly *polyGet(Ex e, unsigned w, int depth);
extern std::unordered_map<u32, Ex> g_atoms;
static bool noWrapAdd(Ex e) { return e->op == E_ADD && !addOv(e->k[0]->hi, e->k[1]->hi, e->w); }
static bool polyBuild(Ex e, unsigned w, Poly &p, int depth) {
  // value of e (an integer in [0,2^e->w)) as a polynomial modulo 2^w; if w > e->w, e must not wrap
  bool wide = w > e->w;
  if (isC(e)) { padd(p, {}, e->c, w); return true; }
  if (depth > 40) { (g_atoms[e->id] = e, padd(p, {e->id}, 1, w)); return true; }
  switch (e->op) {
  case E_ADD: {
    if (wide && !noWrapAdd(e)) break;
    const Poly *a = polyGet(e->k[0], w, depth + 1), *b = polyGet(e->k[1], w, depth + 1);
    if (!a || !b || a->size() + b->size() > POLY_MAX) break;
    for (auto &t : *a) padd(p, t.first, t.second, w);
    for (auto &t : *b) padd(p, t.first, t.second, w);
    return true;
  }
  case E_SUB: case E_SUBNB: {
    if (wide && e->op == E_SUB) break;
    const Poly *a = polyGet(e->k[0], w, depth + 1), *b = polyGet(e->k[1], w, depth + 1);
    if (!a || !b || a->size() + b->size() > POLY_MAX) break;
    for (auto &t : *a) padd(p, t.first, t.second, w);
    for (auto &t : *b) padd(p, t.first, (maskw(w) - t.second) + 1, w);
    return true;
  }
  case E_MUL: {
    if (wide && mulOv(e->k[0]->hi, e->k[1]->hi, e->w)) break;
    const Poly *a = polyGet(e->k[0], w, depth + 1), *b = polyGet(e->k[1], w, depth + 1);
    if (!a || !b || a->size() * b->size() > POLY_MAX) break;
    for (auto &t : *a) for (auto &u : *b) {
      std::vector<u32> m(t.first); m.insert(m.end(), u.first.begin(), u.first.end()); std::sort(m.begin(), m.end());
      if (m.size() > 8) return false;
      padd(p, m, t.second * u.second, w);
    }
    return true;
  }
  case E_SHL: {
    if (!isC(e->k[1]) || e->k[1]->c >= e->w) break;
    unsigned s = (unsigned)e->k[1]->c;
    if (wide && bitsof(e->k[0]->hi) + s > e->w) break;
    const Poly *a = polyGet(e->k[0], w, depth + 1); if (!a) break;
    for (auto &t : *a) padd(p, t.first, s >= 128 ? 0 : t.second << s, w);
    return true;
  }
  case E_ZEXT: { // narrower value: usable when the inner polynomial does not wrap, checked by the recursive calls
    const Poly *a = polyGet(e->k[0], w, depth + 1); if (!a) break;
    for (auto &t : *a) padd(p, t.first, t.second, w);
    return true;
  }
  case E_EXTRACT:
    // truncation keeps the value modulo 2^w
    if (e->aux == 0 && (w <= e->w || e->k[0]->hi <= maskw(e->w))) {
      const Poly *a = polyGet(e->k[0], w, depth + 1); if (!a) break;
      for (auto &t : *a) padd(p, t.first, t.second, w);
      return true;
    }
    break;
  default: break;
  }
  (g_atoms[e->id] = e, padd(p, {e->id}, 1, w));
  return true;
}
static const Poly *polyGet(Ex e, unsigned w, int depth) {
  u64 key = ((u64)e->id << 8) | w;
  auto it = g_polyCache.find(key);
  if (it != g_polyCache.end()) return &it->second;
  Poly p;
  if (!polyBuild(e, w, p, depth)) { p.clear(); (g_atoms[e->id] = e, padd(p, {e->id}, 1, w)); }
  return &(g_polyCache[key] = std::move(p));
}
const Poly &polyFor(Ex e, unsigned w) { return *polyGet(e, w, 0); }
Ex atomEx(u32 id) { auto it = g_atoms.find(id); if (it == g_atoms.end()) fatal("unknown atom"); return it->second; }
// 1 equal, 0 different, -1 undecided
static int polyEq(Ex a, Ex b) {
  unsigned w = a->w;
  const Poly *x = polyGet(a, w, 0); Poly d = *x; const Poly *y = polyGet(b, w, 0);
  for (auto &t : *y) padd(d, t.first, (maskw(w) - t.second) + 1, w);
  if (d.empty()) return 1;
  if (d.size() == 1 && d.begin()->first.empty()) return 0;
  return -1;
}
std::unordered_map<u32, Ex> g_atoms; // atoms of polynomials, by id
// is a <= b (strict: a < b) because b - a is a polynomial with only nonnegative terms that cannot wrap?
static bool polyLe(Ex a, Ex b, bool strict) {
  unsigned w = a->w; const Poly *x = polyGet(b, w, 0); Poly d = *x; const Poly *y = polyGet(a, w, 0);
  if (d.size() + y->size() > 40) return false;
  for (auto &t : *y) padd(d, t.first, (maskw(w) - t.second) + 1, w);
  u128 hi = 0, lo = 0;
  for (auto &t : d) {
    u128 h = t.second, l = t.second;
    for (u32 id : t.first) { auto it = g_atoms.find(id); if (it == g_atoms.end()) return false; if (mulOv(h, it->second->hi, w)) return false; h *= it->second->hi; l *= it->second->lo; }
    if (addOv(hi, h, w)) return false;
    hi += h; lo += l;
  }
  if (addOv(a->hi, hi, w)) return false;
  return !strict || lo > 0;
}
static Ex divExact(Ex a, u128 c) { // a / c when every part of a is a multiple of c and nothing wraps
  if (isC(a)) return a->c % c ? nullptr : mkConst(a->w, a->c / c);
  if (a->op == E_MUL && !mulOv(a->k[0]->hi, a->k[1]->hi, a->w)) {
    if (Ex q = divExact(a->k[1], c)) return mkBin(E_MUL, a->k[0], q);
    if (Ex q = divExact(a->k[0], c)) return mkBin(E_MUL, q, a->k[1]);
  }
  if (a->op == E_ADD && !addOv(a->k[0]->hi, a->k[1]->hi, a->w)) {
    Ex x = divExact(a->k[0], c); if (!x) return nullptr;
    Ex y = divExact(a->k[1], c); if (!y) return nullptr;
    return mkBin(E_ADD, x, y);
  }
  if (a->op == E_SUBNB) {
    Ex x = divExact(a->k[0], c); if (!x) return nullptr;
    Ex y = divExact(a->k[1], c); if (!y) return nullptr;
    return mkBin(E_SUBNB, x, y);
  }
  if (a->op == E_ZEXT) { if (c <= maskw(a->k[0]->w)) if (Ex q = divExact(a->k[0], c)) return mkZext(q, a->w); }
  if (a->op == E_SHL && isC(a->k[1]) && bitsof(a->k[0]->hi) + (unsigned)a->k[1]->c <= a->w) {
    if (Ex q = divExact(a->k[0], c)) return mkBin(E_SHL, q, a->k[1]);
  }
  return nullptr;
}
static bool arith(Ex e) { return e->op == E_ADD || e->op == E_SUB || e->op == E_SUBNB || e->op == E_MUL || e->op == E_SHL || e->op == E_ZEXT || e->op == E_EXTRACT; }

Ex mkBin(EOp op, Ex a, Ex b) {
  if (a->w != b->w) fatal("width mismatch op %d: %d vs %d", op, a->w, b->w);
  unsigned w = a->w; u128 m = maskw(w);
  unsigned rw = (isCmp(op) || op == E_MULH) ? 1 : w;
  if (isC(a) && isC(b)) return mkConst(rw, foldBin(op, a->c, b->c, w));
  // commutative: constant to the right, otherwise order by id
  if (op == E_ADD || op == E_MUL || op == E_MULH || op == E_AND || op == E_OR || op == E_XOR || op == E_EQ) {
    if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
  }
  u128 lo = 0, hi = maskw(rw);
  switch (op) {
  case E_ADD:
    if (isC(b) && b->c == 0) return a;
    if (isC(b) && a->op == E_ADD && isC(a->k[1])) return mkBin(E_ADD, a->k[0], mkConst(w, a->k[1]->c + b->c));
    // (x - y) + y
    if ((a->op == E_SUB || a->op == E_SUBNB) && a->k[1] == b) return a->k[0];
    if ((b->op == E_SUB || b->op == E_SUBNB) && b->k[1] == a) return b->k[0];
    if (w == 1) return mkBin(E_XOR, a, b);
    if (!addOv(a->hi, b->hi, w)) { lo = a->lo + b->lo; hi = a->hi + b->hi; }
    else if (isC(b) && b->c > (m >> 1)) { // adding a negative constant
      u128 d = (m - b->c) + 1; if (a->lo >= d) { lo = a->lo - d; hi = a->hi - d; }
    }
    break;
  case E_SUB: case E_SUBNB:
    if (isC(b) && b->c == 0) return a;
    if (a == b) return mkConst(w, 0);
    if (w == 1) return mkBin(E_XOR, a, b);
    if (a->op == E_ADD && a->k[0] == b) return a->k[1];
    if (a->op == E_ADD && a->k[1] == b) return a->k[0];
    if ((a->op == E_SUB || a->op == E_SUBNB) && op == E_SUB && false) break;
    if (op == E_SUB && a->lo >= b->hi) op = E_SUBNB;
    if (op == E_SUB && isC(b)) return mkBin(E_ADD, a, mkConst(w, (m - b->c) + 1));
    if (op == E_SUBNB) { hi = a->hi >= b->lo ? a->hi - b->lo : 0; lo = a->lo > b->hi ? a->lo - b->hi : 0; }
    break;
  case E_MUL:
    if (isC(b) && b->c == 0) return b;
    if (isC(b) && b->c == 1) return a;
    if (!mulOv(a->hi, b->hi, w)) { lo = a->lo * b->lo; hi = a->hi * b->hi; }
    break;
  case E_MULH:
    if (isC(b) && b->c <= 1) return mkConst(1, 0);
    if (!mulOv(a->hi, b->hi, w)) return mkConst(1, 0);
    if (mulOv(a->lo, b->lo, w)) return mkConst(1, 1);
    if (isC(b)) return mkBin(E_ULT, mkConst(w, m / b->c), a);
    break;
  case E_UDIV:
    if (isC(b) && b->c == 1) return a;
    if (isC(b) && b->c) if (Ex q = divExact(a, b->c)) return q;
    if (isC(b) && b->c && !(b->c & (b->c - 1))) return mkBin(E_LSHR, a, mkConst(w, bitsof(b->c) - 1));
    if (b->lo > 0) { lo = a->lo / b->hi; hi = a->hi / b->lo; }
    if (b->lo > 0 && a->hi < b->lo) return mkConst(w, 0);
    break;
  case E_UREM:
    if (isC(b) && b->c == 1) return mkConst(w, 0);
    if (b->lo > 0 && a->hi < b->lo) return a;
    if (isC(b) && b->c && !(b->c & (b->c - 1))) return mkBin(E_AND, a, mkConst(w, b->c - 1));
    if (b->lo > 0) hi = std::min(a->hi, b->hi - 1); 
    if (isC(b) && b->c && divExact(a, b->c)) return mkConst(w, 0);
    break;
  case E_SDIV: case E_SREM: {
    u128 half = m >> 1;
    if (a->hi <= half && b->hi <= half) return mkBin(op == E_SDIV ? E_UDIV : E_UREM, a, b);
    break;
  }
  case E_AND:
    if (isC(b) && b->c == 0) return b;
    if (isC(b) && b->c == m) return a;
    if (a == b) return a;
    if (w == 1 && (mkNot(a) == b)) return mkConst(1, 0);
    if (w == 1 && a->op == E_AND && (a->k[0] == b || a->k[1] == b)) return a;
    if (w == 1 && b->op == E_AND && (b->k[0] == a || b->k[1] == a)) return b;
    if (isC(b) && a->op == E_AND && isC(a->k[1])) return mkBin(E_AND, a->k[0], mkConst(w, a->k[1]->c & b->c));
    if (isC(b)) { // mask of low bits covering the range
      if ((b->c & (b->c + 1)) == 0) {
        if (a->hi <= b->c) return a;
        unsigned n = bitsof(b->c);
        return mkZext(mkExtract(a, 0, n), w);
      }
      // high mask: drop bits
      if (a->op == E_ZEXT && b->c > maskw(a->k[0]->w)) return mkZext(mkBin(E_AND, a->k[0], mkConst(a->k[0]->w, b->c)), w);
    }
    hi = std::min(a->hi, b->hi);
    break;
  case E_OR:
    if (isC(b) && b->c == 0) return a;
    if (isC(b) && b->c == m) return b;
    if (a == b) return a;
    if (w == 1 && (mkNot(a) == b)) return mkConst(1, 1);
    if (w == 1 && a->op == E_OR && (a->k[0] == b || a->k[1] == b)) return a;
    if (w == 1 && b->op == E_OR && (b->k[0] == a || b->k[1] == a)) return b;
    hi = maskw(std::max(bitsof(a->hi), bitsof(b->hi))); lo = std::max(a->lo, b->lo);
    break;
  case E_XOR:
    if (isC(b) && b->c == 0) return a;
    if (a == b) return mkConst(w, 0);
    if (isC(b) && a->op == E_XOR && isC(a->k[1])) return mkBin(E_XOR, a->k[0], mkConst(w, a->k[1]->c ^ b->c));
    if (w == 1 && isC(b)) { // negate comparison
      if (a->op == E_ULT) return mkBin(E_ULE, a->k[1], a->k[0]);
      if (a->op == E_ULE) return mkBin(E_ULT, a->k[1], a->k[0]);
      if (a->op == E_SLT) return mkBin(E_SLE, a->k[1], a->k[0]);
      if (a->op == E_SLE) return mkBin(E_SLT, a->k[1], a->k[0]);
    }
    if (isC(b) && b->c == m) { hi = m - a->lo; lo = m - a->hi; }
    else hi = maskw(std::max(bitsof(a->hi), bitsof(b->hi)));
    break;
  case E_SHL:
    if (isC(b)) {
      if (b->c == 0) return a;
      if (b->c >= w) return mkConst(w, 0);
      if (bitsof(a->hi) + (unsigned)b->c <= w) { lo = a->lo << (unsigned)b->c; hi = a->hi << (unsigned)b->c; }
    }
    if (a->hi == 0) return a;
    break;
  case E_LSHR:
    if (isC(b)) {
      if (b->c == 0) return a;
      if (b->c >= w || (a->hi >> (unsigned)b->c) == 0) return mkConst(w, 0);
      return mkZext(mkExtract(a, (unsigned)b->c, w - (unsigned)b->c), w);
    }
    hi = a->hi;
    break;
  case E_ASHR:
    if (a->hi <= (m >> 1)) return mkBin(E_LSHR, a, b);
    if (isC(b) && b->c == 0) return a;
    break;
  case E_EQ:
    if (a == b) return mkConst(1, 1);
    if (exactMul(a) && exactMul(b) && a->k[1] == b->k[1]) return mkBin(E_EQ, a->k[0], b->k[0]);
    if (a->hi < b->lo || b->hi < a->lo) return mkConst(1, 0);
    if (w == 1 && isC(b)) return b->c ? a : mkNot(a);
    if (isC(b)) {
      if (a->op == E_ZEXT) return mkBin(E_EQ, a->k[0], mkConst(a->k[0]->w, b->c)); // range check above guarantees it fits
      if (a->op == E_SEXT) { u128 t = b->c & maskw(a->k[0]->w); if ((sextv(t, a->k[0]->w) & m) != b->c) return mkConst(1, 0); return mkBin(E_EQ, a->k[0], mkConst(a->k[0]->w, t)); }
      if (a->op == E_ITE) {
        Ex x = a->k[1], y = a->k[2];
        if (isC(x) || isC(y)) {
          Ex ex = mkBin(E_EQ, x, b), ey = mkBin(E_EQ, y, b);
          if (isC(ex) || isC(ey)) return mkIte(a->k[0], ex, ey);
        }
      }
      if (a->op == E_ADD && isC(a->k[1])) return mkBin(E_EQ, a->k[0], mkConst(w, b->c - a->k[1]->c));
      if (a->op == E_XOR && isC(a->k[1])) return mkBin(E_EQ, a->k[0], mkConst(w, b->c ^ a->k[1]->c));
      if (a->op == E_CONCAT) {
        unsigned lw = a->k[1]->w;
        return mkBin(E_AND, mkBin(E_EQ, a->k[0], mkConst(a->k[0]->w, b->c >> lw)), mkBin(E_EQ, a->k[1], mkConst(lw, b->c)));
      }
      if (a->op == E_MUL && isC(a->k[1]) && (a->k[1]->c & 1)) { // odd factors are invertible
        u128 c = a->k[1]->c, inv = c; for (int i = 0; i < 7; i++) inv *= 2 - c * inv;
        return mkBin(E_EQ, a->k[0], mkConst(w, inv * b->c));
      }
      if (exactMul(a)) return b->c % a->k[1]->c ? mkConst(1, 0) : mkBin(E_EQ, a->k[0], mkConst(w, b->c / a->k[1]->c));
      if (b->c == 0 && a->op == E_MUL && !mulOv(a->k[0]->hi, a->k[1]->hi, w)) return mkBin(E_OR, mkBin(E_EQ, a->k[0], b), mkBin(E_EQ, a->k[1], b));
      if (b->c == 0 && noWrapAdd(a)) return mkBin(E_AND, mkBin(E_EQ, a->k[0], b), mkBin(E_EQ, a->k[1], b));
      if (b->c == 0 && (a->op == E_SUB || a->op == E_SUBNB)) return mkBin(E_EQ, a->k[0], a->k[1]);
      if (b->c == 0 && a->op == E_OR) return mkBin(E_AND, mkBin(E_EQ, a->k[0], b), mkBin(E_EQ, a->k[1], b));
      if (b->c == 0 && a->op == E_XOR) return mkBin(E_EQ, a->k[0], a->k[1]);
    }
    if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(E_EQ, a->k[0], b->k[0]);
    if (a->op == E_CONCAT && b->op == E_CONCAT && a->k[1]->w == b->k[1]->w)
      return mkBin(E_AND, mkBin(E_EQ, a->k[0], b->k[0]), mkBin(E_EQ, a->k[1], b->k[1]));
    for (int i = 0; i < 2; i++) { // x = min(x, y) and the like
      Ex x = i ? b : a, t = i ? a : b;
      if (t->op != E_ITE || t->k[0]->op != E_ULT) continue;
      Ex p = t->k[0]->k[0], q = t->k[0]->k[1];
      if (t->k[1] == p && t->k[2] == q) { if (x == p) return mkBin(E_ULE, p, q); if (x == q) return mkBin(E_ULE, q, p); }
      if (t->k[1] == q && t->k[2] == p) { if (x == p) return mkBin(E_ULE, q, p); if (x == q) return mkBin(E_ULE, p, q); }
    }
    if (w > 8 && (arith(a) || arith(b))) { int r = polyEq(a, b); if (r >= 0) return mkConst(1, r); }
    break;
  case E_ULT:
    if (a == b) return mkConst(1, 0);
    if (a->hi < b->lo) return mkConst(1, 1);
    if (a->lo >= b->hi) return mkConst(1, 0);
    if (isC(b) && b->c == 1) return mkBin(E_EQ, a, mkConst(w, 0));
    if (isC(a) && a->c == 0) return mkNot(mkBin(E_EQ, b, a));
    if (w == 1) return mkBin(E_AND, mkNot(a), b);
    if (isC(b) && b->c == a->hi) return mkNot(mkBin(E_EQ, a, b));
    if (isC(b) && b->c == a->lo + 1) return mkBin(E_EQ, a, mkConst(w, a->lo));
    if (isC(a) && a->c == b->lo) return mkNot(mkBin(E_EQ, a, b));
    if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(op, a->k[0], b->k[0]);
    if (exactMul(a) && exactMul(b) && a->k[1] == b->k[1]) return mkBin(op, a->k[0], b->k[0]);
    if (exactMul(a) && isC(b)) return mkBin(op, a->k[0], mkConst(w, (b->c + a->k[1]->c - 1) / a->k[1]->c));
    if (exactMul(b) && isC(a)) return mkBin(op, mkConst(w, a->c / b->k[1]->c), b->k[0]);
    if (w > 8 && (arith(a) || arith(b))) { if (polyLe(b, a, false)) return mkConst(1, 0); if (polyLe(a, b, true)) return mkConst(1, 1); }
    if (isCmp(op) && (a->op == E_ITE || b->op == E_ITE) && w > 1) {
      bool l = a->op == E_ITE; Ex t = l ? a : b;
      Ex x = l ? mkBin(op, a->k[1], b) : mkBin(op, a, b->k[1]), y = l ? mkBin(op, a->k[2], b) : mkBin(op, a, b->k[2]);
      if (isC(x) || isC(y)) return mkIte(t->k[0], x, y);
    }
    break;
  case E_ULE:
    if (a == b) return mkConst(1, 1);
    if (a->hi <= b->lo) return mkConst(1, 1);
    if (a->lo > b->hi) return mkConst(1, 0);
    if (isC(b) && b->c == 0) return mkBin(E_EQ, a, b);
    if (isC(b) && b->c == a->lo) return mkBin(E_EQ, a, b);
    if (isC(a) && a->c == b->hi) return mkBin(E_EQ, b, a);
    if (w == 1) return mkBin(E_OR, mkNot(a), b);
    if (isC(a) && a->c == b->lo + 1) return mkNot(mkBin(E_EQ, b, mkConst(w, b->lo)));
    if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(op, a->k[0], b->k[0]);
    if (exactMul(a) && exactMul(b) && a->k[1] == b->k[1]) return mkBin(op, a->k[0], b->k[0]);
    if (exactMul(a) && isC(b)) return mkBin(op, a->k[0], mkConst(w, b->c / a->k[1]->c));
    if (exactMul(b) && isC(a)) return mkBin(op, mkConst(w, (a->c + b->k[1]->c - 1) / b->k[1]->c), b->k[0]);
    if (w > 8 && (arith(a) || arith(b))) { if (polyLe(a, b, false)) return mkConst(1, 1); if (polyLe(b, a, true)) return mkConst(1, 0); }
    if (isCmp(op) && (a->op == E_ITE || b->op == E_ITE) && w > 1) {
      bool l = a->op == E_ITE; Ex t = l ? a : b;
      Ex x = l ? mkBin(op, a->k[1], b) : mkBin(op, a, b->k[1]), y = l ? mkBin(op, a->k[2], b) : mkBin(op, a, b->k[2]);
      if (isC(x) || isC(y)) return mkIte(t->k[0], x, y);
    }
    break;
  case E_SLT: case E_SLE: {
    if (a == b) return mkConst(1, op == E_SLE);
    u128 half = m >> 1;
    bool an = a->lo > half, ap = a->hi <= half, bn = b->lo > half, bp = b->hi <= half;
    if ((ap && bp) || (an && bn)) return mkBin(op == E_SLT ? E_ULT : E_ULE, a, b);
    if (an && bp) return mkConst(1, 1);
    if (ap && bn) return mkConst(1, 0);
    break;
  }
  default: break;
  }
  Expr t = blank(op, rw); 
  if (op == E_MULH) { t.aux = w; }
  t.k[0] = a; t.k[1] = b; t.lo = lo; t.hi = hi;
  if (lo == hi && op != E_MULH && !isCmp(op)) return mkConst(rw, lo);
  return intern(t);
}
Ex mkIte(Ex c, Ex a, Ex b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (isNot(c)) return mkIte(c->k[0], b, a);
  if (c->op == E_EQ && c->k[0]->w == a->w) {
    if (a == c->k[0] && isC(c->k[1])) a = c->k[1];
    if ((a == c->k[0] && b == c->k[1]) || (a == c->k[1] && b == c->k[0])) return b;
    if (a == b) return a;
  }
  if (c->op == E_ULT && a->w > 8 && a->w <= 64 && c->k[0]->w == a->w && (arith(a) || arith(b))) { // minimum and maximum of terms in a known order
    if (c->k[0] == a && c->k[1] == b) { if (polyLe(a, b, false)) return a; if (polyLe(b, a, false)) return b; }
    else if (c->k[0] == b && c->k[1] == a) { if (polyLe(b, a, false)) return a; if (polyLe(a, b, false)) return b; }
  }
  if (a->w == 1) {
    if (isC(a)) return a->c ? mkBin(E_OR, c, b) : mkBin(E_AND, mkNot(c), b);
    if (isC(b)) return b->c ? mkBin(E_OR, mkNot(c), a) : mkBin(E_AND, c, a);
  }
  if (a->op == E_ITE && a->k[0] == c) return mkIte(c, a->k[1], b);
  if (b->op == E_ITE && b->k[0] == c) return mkIte(c, a, b->k[2]);
  if (a->op == E_ITE && a->k[2] == b) return mkIte(mkBin(E_AND, c, a->k[0]), a->k[1], b);
  if (b->op == E_ITE && b->k[1] == a) return mkIte(mkBin(E_OR, c, b->k[0]), a, b->k[2]);
  Expr t = blank(E_ITE, a->w); t.k[0] = c; t.k[1] = a; t.k[2] = b;
  t.lo = std::min(a->lo, b->lo); t.hi = std::max(a->hi, b->hi);
  // usub.sat-like: ite(x<y, 0, x-y): the difference does not borrow in the selected branch
  return intern(t);
}
Ex mkZext(Ex a, unsigned w) {
  if (w == a->w) return a;
  if (w < a->w) fatal("zext to narrower");
  if (isC(a)) return mkConst(w, a->c);
  if (a->op == E_ZEXT) return mkZext(a->k[0], w);
  Expr t = blank(E_ZEXT, w); t.k[0] = a; t.lo = a->lo; t.hi = a->hi; return intern(t);
}
Ex mkSext(Ex a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) return mkConst(w, sextv(a->c, a->w));
  if (a->hi <= (maskw(a->w) >> 1)) return mkZext(a, w);
  if (a->w == 1) return mkIte(a, mkConst(w, maskw(w)), mkConst(w, 0));
  Expr t = blank(E_SEXT, w); t.k[0] = a; return intern(t);
}
Ex mkExtract(Ex a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (lo + w > a->w) fatal("extract out of range");
  if (isC(a)) return mkConst(w, a->c >> lo);
  if (lo < 128 && (a->hi >> lo) == 0) return mkConst(w, 0);
  if (a->op == E_EXTRACT) return mkExtract(a->k[0], a->aux + lo, w);
  if (a->op == E_ZEXT) {
    unsigned iw = a->k[0]->w;
    if (lo >= iw) return mkConst(w, 0);
    if (lo + w <= iw) return mkExtract(a->k[0], lo, w);
    return mkZext(mkExtract(a->k[0], lo, iw - lo), w);
  }
  if (a->op == E_CONCAT) {
    unsigned lw = a->k[1]->w;
    if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
    if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
  }
  if (a->op == E_ITE && (isC(a->k[1]) || isC(a->k[2]))) return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
  if (lo == 0 && (a->op == E_ADD || a->op == E_SUB || a->op == E_AND || a->op == E_OR || a->op == E_XOR || a->op == E_MUL))
    if (a->hi > maskw(w) || true) {
      if (a->op == E_AND || a->op == E_OR || a->op == E_XOR || w <= 32)
        return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
    }
  Expr t = blank(E_EXTRACT, w); t.k[0] = a; t.aux = lo;
  if (a->hi >> lo <= maskw(w)) { t.hi = a->hi >> lo; t.lo = a->lo >> lo; }
  return intern(t);
}
Ex mkConcat(Ex h, Ex l) {
  if (isC(h) && h->c == 0) return mkZext(l, h->w + l->w);
  if (isC(h) && isC(l)) return mkConst(h->w + l->w, (h->c << l->w) | l->c);
  if (h->op == E_EXTRACT && l->op == E_EXTRACT && h->k[0] == l->k[0] && h->aux == l->aux + l->w) return mkExtract(h->k[0], l->aux, h->w + l->w);
  if (h->op == E_ZEXT && h->k[0]->op == E_EXTRACT && l->op == E_EXTRACT && h->k[0]->k[0] == l->k[0] && h->k[0]->aux == l->aux + l->w)
    return mkZext(mkExtract(l->k[0], l->aux, h->k[0]->w + l->w), h->w + l->w);
  Expr t = blank(E_CONCAT, h->w + l->w); t.k[0] = h; t.k[1] = l;
  t.lo = (h->lo << l->w) | l->lo; t.hi = (h->hi << l->w) | l->hi;
  return intern(t);
}

// Rewrites the constraints of one path so that arithmetic terms with the same ring normal form share one representative.
// (All constraints come from one path, hence its no-borrow facts hold for every representative.)
static Ex rebuild(Ex e, Ex a, Ex b, Ex c) {
  switch (e->op) {
  case E_ITE: return mkIte(a, b, c);
  case E_ZEXT: return mkZext(a, e->w);
  case E_SEXT: return mkSext(a, e->w);
  case E_EXTRACT: return mkExtract(a, e->aux, e->w);
  case E_CONCAT: return mkConcat(a, b);
  default: return mkBin(e->op, a, b);
  }
}
bool linearEx(Ex e) {
  static std::unordered_map<u32, bool> memo;
  if (!e->vs || e->op == E_VAR) return true;
  auto it = memo.find(e->id); if (it != memo.end()) return it->second;
  bool r = true;
  if ((e->op == E_MUL || e->op == E_MULH || e->op == E_UDIV || e->op == E_UREM || e->op == E_SDIV || e->op == E_SREM) && !isC(e->k[1])) r = false;
  if (e->op == E_UDIV || e->op == E_UREM) r = false;
  for (int i = 0; r && i < 3; i++) if (e->k[i]) r = linearEx(e->k[i]);
  return memo[e->id] = r;
}
// Over-approximation for unsatisfiability: every nonlinear subterm becomes a fresh variable of the same range.
struct Abst {
  std::unordered_map<u32, Ex> memo; unsigned next; bool any = false;
  Ex go(Ex e) {
    if (!e->vs || e->op == E_VAR) return e;
    auto it = memo.find(e->id); if (it != memo.end()) return it->second;
    Ex out = nullptr;
    bool nl = ((e->op == E_MUL || e->op == E_UDIV || e->op == E_UREM || e->op == E_SDIV || e->op == E_SREM || e->op == E_MULH) && !isC(e->k[1])) || e->op == E_UDIV || e->op == E_UREM;
    if (nl && next < 500 && e->w <= 64) { out = mkVar(next++, e->w, e->lo, e->hi); any = true; }
    else if (nl && next < 499) { // wide term: split
      any = true; u128 hi = e->hi;
      if (hi <= ~0ull) out = mkZext(mkVar(next++, 64, e->lo, hi), e->w);
      else { Ex l = mkVar(next++, 64, 0, ~0ull), h = mkVar(next++, e->w - 64, 0, hi >> 64); out = mkConcat(h, l); }
    } else {
      Ex k[3] = {nullptr, nullptr, nullptr}; for (int i = 0; i < 3; i++) if (e->k[i]) k[i] = go(e->k[i]);
      out = (k[0] == e->k[0] && k[1] == e->k[1] && k[2] == e->k[2]) ? e : rebuild(e, k[0], k[1], k[2]);
    }
    memo[e->id] = out; return out;
  }
};
bool abstractSet(std::vector<Ex> &cs, unsigned firstVar) {
  Abst a; a.next = firstVar; for (Ex &e : cs) e = a.go(e);
  return a.any;
}
struct Canon {
  std::map<std::pair<unsigned, Poly>, Ex> reps; std::unordered_map<u32, Ex> repOf, memo; std::unordered_map<u32, int> busy;
  bool isArith(Ex e) { return e->w > 8 && (e->op == E_ADD || e->op == E_SUB || e->op == E_SUBNB || e->op == E_MUL || e->op == E_SHL); }
  std::map<std::tuple<unsigned, u128, Poly>, Ex> divs;
  bool isDiv(Ex e) { return (e->op == E_UDIV || e->op == E_UREM) && isC(e->k[1]) && e->k[1]->c; }
  void collect(Ex e) {
    if (!e->vs || repOf.count(e->id)) return;
    repOf[e->id] = e;
    for (int i = 0; i < 3; i++) if (e->k[i]) collect(e->k[i]);
    if (isDiv(e)) {
      auto r = divs.emplace(std::make_tuple((unsigned)e->op, e->k[1]->c, *polyGet(e->k[0], 128, 0)), e);
      if (!r.second && e->hi < r.first->second->hi) r.first->second = e;
    }
    if (isArith(e)) {
      const Poly *p = polyGet(e, e->w, 0);
      auto r = reps.emplace(std::make_pair((unsigned)e->w, *p), e);
      if (!r.second && e->hi < r.first->second->hi) r.first->second = e;
    }
  }
  Ex go(Ex e) {
    if (!e->vs || e->op == E_VAR) return e;
    auto it = memo.find(e->id); if (it != memo.end()) return it->second;
    Ex r = e;
    if (isArith(e)) { r = reps[std::make_pair((unsigned)e->w, *polyGet(e, e->w, 0))]; if (r != e && busy[r->id]) r = e; }
    Ex out;
    if (isDiv(e)) {
      r = divs[std::make_tuple((unsigned)e->op, e->k[1]->c, *polyGet(e->k[0], 128, 0))]; if (r != e && busy[r->id]) r = e;
      if (r != e) { // equal integers: adapt the width
        busy[e->id]++; Ex o = go(r); busy[e->id]--;
        o = o->w > e->w ? mkExtract(o, 0, e->w) : mkZext(o, e->w);
        return memo[e->id] = o;
      }
    }
    if (r != e) { busy[e->id]++; out = go(r); busy[e->id]--; }
    else {
      busy[e->id]++;
      Ex k[3] = {nullptr, nullptr, nullptr}; for (int i = 0; i < 3; i++) if (e->k[i]) k[i] = go(e->k[i]);
      busy[e->id]--;
      out = (k[0] == e->k[0] && k[1] == e->k[1] && k[2] == e->k[2]) ? e : rebuild(e, k[0], k[1], k[2]);
    }
    memo[e->id] = out; return out;
  }
};
void canonSet(std::vector<Ex> &cs) {
  for (int round = 0; round < 2; round++) {
    Canon c; for (Ex e : cs) c.collect(e);
    bool ch = false; for (Ex &e : cs) { Ex n = c.go(e); if (n != e) { ch = true; e = n; } }
    if (!ch) break;
  }
}

// replaces terms by terms they are known to equal
Ex rewriteWith(Ex e, const std::unordered_map<Ex, Ex> &m, std::unordered_map<Ex, Ex> &memo) {
  if (isC(e)) return e;
  auto i = m.find(e); if (i != m.end()) return i->second;
  if (e->op == E_VAR) return e;
  auto j = memo.find(e); if (j != memo.end()) return j->second;
  Ex k[3] = {nullptr, nullptr, nullptr}; bool ch = false;
  for (int t = 0; t < 3; t++) if (e->k[t]) { k[t] = rewriteWith(e->k[t], m, memo); ch |= k[t] != e->k[t]; }
  Ex r = e;
  if (ch) switch (e->op) {
  case E_ITE: r = mkIte(k[0], k[1], k[2]); break;
  case E_ZEXT: r = mkZext(k[0], e->w); break;
  case E_SEXT: r = mkSext(k[0], e->w); break;
  case E_EXTRACT: r = mkExtract(k[0], e->aux, e->w); break;
  case E_CONCAT: r = mkConcat(k[0], k[1]); break;
  default: r = mkBin(e->op == E_SUBNB ? E_SUB : e->op, k[0], k[1]);
  }
  if (r != e) { auto q = m.find(r); if (q != m.end()) r = q->second; }
  return memo[e] = r;
}

static u64 g_stamp = 1;
void evalNewStamp() { g_stamp++; }
static u128 ev(Ex e, const std::vector<u64> &m) {
  if (e->op == E_CONST) return e->c;
  if (e->stamp == g_stamp) return e->memo;
  u128 r;
  switch (e->op) {
  case E_VAR: r = e->aux < m.size() ? m[e->aux] : (u64)e->lo; r &= maskw(e->w); break;
  case E_ITE: r = ev(e->k[0], m) ? ev(e->k[1], m) : ev(e->k[2], m); break;
  case E_ZEXT: r = ev(e->k[0], m); break;
  case E_SEXT: r = sextv(ev(e->k[0], m), e->k[0]->w) & maskw(e->w); break;
  case E_EXTRACT: r = (ev(e->k[0], m) >> e->aux) & maskw(e->w); break;
  case E_CONCAT: r = (ev(e->k[0], m) << e->k[1]->w) | ev(e->k[1], m); break;
  default: r = foldBin(e->op, ev(e->k[0], m), ev(e->k[1], m), e->k[0]->w); break;
  }
  ((Expr *)e)->stamp = g_stamp; e->memo = r;
  return r;
}
u128 evalSame(Ex e, const std::vector<u64> &m) { return ev(e, m); } // same model as the previous evaluation
u128 evalEx(Ex e, const std::vector<u64> &m) { evalNewStamp(); return ev(e, m); }

std::string exStr(Ex e, int d) {
  static const char *n[] = {"c", "v", "add", "sub", "subnb", "mul", "mulh", "udiv", "urem", "sdiv", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "ite", "zext", "sext", "extract", "concat"};
  char b[64];
  if (isC(e)) { snprintf(b, 64, "%llu:%d", (unsigned long long)e->c, e->w); return b; }
  if (e->op == E_VAR) { snprintf(b, 64, "v%d:%d", e->aux, e->w); return b; }
  if (d == 0) { snprintf(b, 64, "#%u", e->id); return b; }
  std::string s = std::string("(") + n[e->op];
  if (e->op == E_EXTRACT) { snprintf(b, 64, "[%d+%d]", e->aux, e->w); s += b; }
  for (int i = 0; i < 3; i++) if (e->k[i]) s += " " + exStr(e->k[i], d - 1);
  return s + ")";
}
