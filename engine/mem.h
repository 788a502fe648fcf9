// Copy-on-write paged byte memory with per-byte validity and symbolic overlay.
#pragma once
#include "expr.h"
struct Val { u64 c; Ex e; };
static inline Val VC(u64 c) { return Val{c, nullptr}; }
static inline Val VE(Ex e) { if (isC(e) && e->w <= 64) return Val{(u64)e->c, nullptr}; return Val{0, e}; }
static inline Ex EX(const Val &v, unsigned w) { return v.e ? v.e : mkConst(w, v.c); }

struct Cell { Ex e; u32 idx; };
struct Page { u32 rc; Cell *sym; u64 valid[4]; u8 data[256]; };
template <class T> struct Node { u32 rc; T *k[256]; };
typedef Node<Page> Leaf; typedef Node<Leaf> Mid; typedef Node<Mid> Root;

static inline void rel(Page *p) { if (p && --p->rc == 0) { free(p->sym); free(p); } }
template <class T> static void rel(Node<T> *n) { if (n && --n->rc == 0) { for (int i = 0; i < 256; i++) if (n->k[i]) rel(n->k[i]); free(n); } }
static inline Page *cow(Page *p) {
  if (!p) { p = (Page *)calloc(1, sizeof(Page)); p->rc = 1; return p; }
  if (p->rc == 1) return p;
  Page *q = (Page *)malloc(sizeof(Page)); memcpy(q, p, sizeof(Page)); q->rc = 1; p->rc--;
  if (p->sym) { q->sym = (Cell *)malloc(256 * sizeof(Cell)); memcpy(q->sym, p->sym, 256 * sizeof(Cell)); }
  return q;
}
template <class T> static Node<T> *cow(Node<T> *n) {
  if (!n) { n = (Node<T> *)calloc(1, sizeof(Node<T>)); n->rc = 1; return n; }
  if (n->rc == 1) return n;
  Node<T> *q = (Node<T> *)malloc(sizeof(Node<T>)); memcpy(q, n, sizeof(Node<T>)); q->rc = 1; n->rc--;
  for (int i = 0; i < 256; i++) if (q->k[i]) q->k[i]->rc++;
  return q;
}
struct MemErr { u64 addr; u64 n; bool write; };
struct Mem {
  Root *root = nullptr;
  Mem() {}
  Mem(const Mem &o) : root(o.root) { if (root) root->rc++; }
  Mem &operator=(const Mem &o) { if (o.root) o.root->rc++; rel(root); root = o.root; return *this; }
  ~Mem() { rel(root); }
  inline Page *rp(u64 a) const {
    if (a >> 32) return nullptr;
    if (!root) return nullptr;
    Mid *m = root->k[a >> 24]; if (!m) return nullptr;
    Leaf *l = m->k[(a >> 16) & 255]; if (!l) return nullptr;
    return l->k[(a >> 8) & 255];
  }
  inline Page *wp(u64 a) {
    if (a >> 32) throw MemErr{a, 0, true};
    root = cow(root);
    Mid *&m = root->k[a >> 24]; m = cow(m);
    Leaf *&l = m->k[(a >> 16) & 255]; l = cow(l);
    Page *&p = l->k[(a >> 8) & 255]; p = cow(p);
    return p;
  }
  void setValid(u64 a, u64 n, bool v) {
    while (n) {
      Page *p = wp(a); unsigned o = a & 255; unsigned k = (unsigned)std::min<u64>(n, 256 - o);
      for (unsigned i = 0; i < k;) {
        unsigned x = o + i, b = x & 63, t = std::min(k - i, 64 - b); u64 msk = (t == 64 ? ~0ull : ((1ull << t) - 1)) << b;
        if (v) p->valid[x >> 6] |= msk; else p->valid[x >> 6] &= ~msk;
        i += t;
      }
      if (!v && p->sym) for (unsigned i = 0; i < k; i++) p->sym[o + i].e = nullptr;
      a += k; n -= k;
    }
  }
  static inline bool okv(const Page *p, unsigned o, unsigned n) {
    if (!p) return false;
    unsigned s = o >> 6;
    if (((o + n - 1) >> 6) == s) { u64 m = (n == 64 ? ~0ull : ((1ull << n) - 1)) << (o & 63); return (p->valid[s] & m) == m; }
    for (unsigned i = 0; i < n; i++) if (!((p->valid[(o + i) >> 6] >> ((o + i) & 63)) & 1)) return false;
    return true;
  }
  // n bytes, n<=16; returns value of width 8n (w may be smaller: caller truncates)
  Val read(u64 a, unsigned n) const {
    unsigned o = a & 255;
    if (o + n <= 256) {
      Page *p = rp(a);
      if (!okv(p, o, n)) throw MemErr{a, n, false};
      if (!p->sym) {
        if (n <= 8) { u64 v = 0; memcpy(&v, p->data + o, n); return VC(v); }
        u128 v = 0; memcpy(&v, p->data + o, n); return Val{0, mkConst(n * 8, v)};
      }
      return combine(p->sym + o, p->data + o, n);
    }
    Cell cs[16]; u8 d[16];
    readBytes(a, n, d, cs);
    return combine(cs, d, n);
  }
  static Val combine(const Cell *cs, const u8 *d, unsigned n) {
    bool any = false;
    for (unsigned i = 0; i < n; i++) if (cs[i].e) { any = true; break; }
    if (!any) {
      if (n <= 8) { u64 v = 0; memcpy(&v, d, n); return VC(v); }
      u128 v = 0; memcpy(&v, d, n); return Val{0, mkConst(n * 8, v)};
    }
    if (cs[0].e && cs[0].idx == 0 && cs[0].e->w == n * 8) {
      bool all = true;
      for (unsigned i = 1; i < n; i++) if (cs[i].e != cs[0].e || cs[i].idx != i) { all = false; break; }
      if (all) return VE(cs[0].e);
    }
    Ex r = nullptr;
    for (int i = (int)n - 1; i >= 0; i--) {
      Ex b;
      if (cs[i].e) b = mkExtract(cs[i].e, cs[i].idx * 8, 8); else b = mkConst(8, d[i]);
      r = r ? mkConcat(r, b) : b;
    }
    return VE(r);
  }
  bool readBytes(u64 a, u64 n, u8 *d, Cell *cs) const { // returns whether any symbolic
    bool any = false;
    while (n) {
      unsigned o = a & 255; unsigned k = (unsigned)std::min<u64>(n, 256 - o);
      Page *p = rp(a);
      if (!okv(p, o, k)) throw MemErr{a, n, false};
      memcpy(d, p->data + o, k);
      if (p->sym) { memcpy((void *)cs, p->sym + o, k * sizeof(Cell)); for (unsigned i = 0; i < k && !any; i++) if (cs[i].e) any = true; }
      else memset((void *)cs, 0, k * sizeof(Cell));
      a += k; n -= k; d += k; cs += k;
    }
    return any;
  }
  void writeBytes(u64 a, u64 n, const u8 *d, const Cell *cs) { // cs may be null
    while (n) {
      unsigned o = a & 255; unsigned k = (unsigned)std::min<u64>(n, 256 - o);
      if (!okv(rp(a), o, k)) throw MemErr{a, n, true};
      Page *p = wp(a);
      memcpy(p->data + o, d, k);
      bool any = false;
      if (cs) for (unsigned i = 0; i < k; i++) if (cs[i].e) { any = true; break; }
      if (any) { if (!p->sym) p->sym = (Cell *)calloc(256, sizeof(Cell)); memcpy((void *)(p->sym + o), cs, k * sizeof(Cell)); }
      else if (p->sym) memset((void *)(p->sym + o), 0, k * sizeof(Cell));
      a += k; n -= k; d += k; if (cs) cs += k;
    }
  }
  void write(u64 a, unsigned n, const Val &v) { // v has width 8n
    unsigned o = a & 255;
    if (!v.e && o + n <= 256 && n <= 8) {
      if (!okv(rp(a), o, n)) throw MemErr{a, n, true};
      Page *p = wp(a);
      memcpy(p->data + o, &v.c, n);
      if (p->sym) for (unsigned i = 0; i < n; i++) p->sym[o + i].e = nullptr;
      return;
    }
    u8 d[16]; Cell cs[16];
    if (!v.e) { memcpy(d, &v.c, 8); writeBytes(a, n, d, nullptr); return; }
    if (isC(v.e)) { u128 c = v.e->c; memcpy(d, &c, n); writeBytes(a, n, d, nullptr); return; }
    for (unsigned i = 0; i < n; i++) { d[i] = 0; cs[i].e = v.e; cs[i].idx = i; }
    writeBytes(a, n, d, cs);
  }
};
