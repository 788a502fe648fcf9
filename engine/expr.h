// Hash-consed bit-vector expressions with unsigned interval tracking.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
#include <algorithm>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef unsigned __int128 u128;

[[noreturn]] void fatal(const char *fmt, ...);

enum EOp : u8 {
  E_CONST, E_VAR, E_ADD, E_SUB, E_SUBNB /* sub that cannot borrow on the current path */,
  E_MUL, E_MULH /* bit `i.e. overflow flag`: 1 iff a*b >= 2^w */, E_UDIV, E_UREM, E_SDIV, E_SREM,
  E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ITE,
  E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT
};

struct Expr {
  EOp op;
  u8 w;       // 1..128
  uint16_t aux; // extract: low bit; var: index
  u32 id;
  u32 vs;     // varset id
  u64 stamp;  // eval memo stamp
  const Expr *k[3];
  u128 c;     // const value / var hi bound
  u128 lo, hi; // unsigned interval
  mutable u128 memo;
  mutable void *zast;  // lowered BV (narrow) or null
  mutable void *zbool; // lowered Bool
  mutable u32 zgen, zlitgen;
  mutable void *zlit;
};
typedef const Expr *Ex;

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline unsigned bitsof(u128 v) {
  u64 h = (u64)(v >> 64), l = (u64)v;
  if (h) return 128 - __builtin_clzll(h);
  if (l) return 64 - __builtin_clzll(l);
  return 0;
}

// ---- var sets -------------------------------------------------------------
struct VarSet { u64 b[8]; };
u32 vs_union(u32 a, u32 b);
u32 vs_single(unsigned i);
const VarSet &vs_get(u32 id);
bool vs_intersects(u32 a, u32 b);

Ex mkConst(unsigned w, u128 v);
Ex mkVar(unsigned idx, unsigned w, u128 lo, u128 hi);
Ex mkBin(EOp op, Ex a, Ex b);      // arithmetic / bitwise (same width) and comparisons (w1)
Ex mkIte(Ex c, Ex a, Ex b);
Ex mkZext(Ex a, unsigned w);
Ex mkSext(Ex a, unsigned w);
Ex mkExtract(Ex a, unsigned lo, unsigned w);
Ex mkConcat(Ex hi, Ex lo);
Ex mkNot(Ex a); // w1 or bitwise
static inline bool isC(Ex e) { return e->op == E_CONST; }
u128 evalEx(Ex e, const std::vector<u64> &model);
void evalNewStamp();
std::string exStr(Ex e, int depth = 6);
u64 exprCount();
#include <map>
typedef std::map<std::vector<u32>, u128> Poly; // monomial (sorted atom ids) -> coefficient mod 2^w
const Poly &polyFor(Ex e, unsigned w); // e as a polynomial modulo 2^w (w >= e->w)
Ex atomEx(u32 id);
bool linearEx(Ex e);
bool abstractSet(std::vector<Ex> &cs, unsigned firstVar);
void canonSet(std::vector<Ex> &cs);
