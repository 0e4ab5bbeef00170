#include "expr.h"
#include <z3++.h>
#include <functional>
#include <algorithm>
#include <chrono>
#include <cstdarg>
#include <set>
#include <unordered_set>
#include <tuple>
using std::vector; using std::pair;

std::vector<VarInfo> g_vars;
std::vector<LutT *> g_luts;
Stats g_st;

void fatal(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt); fprintf(stderr, "rsym: fatal: "); vfprintf(stderr, fmt, ap); fprintf(stderr, "\n"); va_end(ap);
  fflush(stderr); _Exit(70);
}

// ---- hash consing -----------------------------------------------------------------------------
static inline u64 mix(u64 h, u64 x) { h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdULL; }
static vector<E> tab(1 << 16, nullptr);
static size_t ntab = 0; static u32 nextId = 1;
static u64 hashOf(const Expr &e) {
  u64 h = mix(e.op, e.w); for (int i = 0; i < 3; i++) h = mix(h, (u64)e.k[i]);
  h = mix(h, (u64)e.c); h = mix(h, (u64)(e.c >> 64)); h = mix(h, e.lut); if (e.op == VAR) h = mix(h, e.var);
  if (e.p) for (auto &q : *e.p) { h = mix(h, (u64)q.src); h = mix(h, (u64)q.c); h = mix(h, (u64)(q.c >> 64)); h = mix(h, q.lo * 1000 + q.len); }
  return h ^ (h >> 29);
}
static bool same(const Expr &a, const Expr &b) {
  if (a.op != b.op || a.w != b.w || a.k[0] != b.k[0] || a.k[1] != b.k[1] || a.k[2] != b.k[2] || a.c != b.c || a.lut != b.lut) return false;
  if (a.op == VAR && a.var != b.var) return false;
  if (!a.p != !b.p) return false;
  if (a.p) { if (a.p->size() != b.p->size()) return false;
    for (size_t i = 0; i < a.p->size(); i++) { auto &x = (*a.p)[i], &y = (*b.p)[i]; if (x.src != y.src || x.c != y.c || x.lo != y.lo || x.len != y.len) return false; } }
  return true;
}
static void joinAtom(E k, int &var, E &atom, bool &first) {
  if (k->var == -1) return;
  if (first) { var = k->var; atom = k->atom; first = false; return; }
  if (var != k->var) { var = -2; atom = nullptr; } else if (atom != k->atom) atom = nullptr;
}
static E intern(Expr &e) {
  e.h = hashOf(e);
  if (ntab * 2 > tab.size()) { vector<E> nt(tab.size() * 2, nullptr); for (E x : tab) if (x) { size_t i = x->h & (nt.size() - 1); while (nt[i]) i = (i + 1) & (nt.size() - 1); nt[i] = x; } tab.swap(nt); }
  size_t i = e.h & (tab.size() - 1);
  while (tab[i]) { if (tab[i]->h == e.h && same(*tab[i], e)) { return tab[i]; } i = (i + 1) & (tab.size() - 1); }
  E n = new Expr(e); n->id = nextId++; if (e.p) n->p = new vector<Piece>(*e.p);
  if (n->op == VAR) { n->atom = n; }
  else if (n->op == LUT) { n->var = n->k[0]->var; n->atom = n; }
  else { int var = -1; E atom = nullptr; bool first = true;
    for (int j = 0; j < 3; j++) if (n->k[j]) joinAtom(n->k[j], var, atom, first);
    if (n->p) for (auto &q : *n->p) if (q.src) joinAtom(q.src, var, atom, first);
    n->var = var; n->atom = atom; }
  tab[i] = n; ntab++; return n;
}
static Expr blank(Op op, unsigned w) { Expr e; e.op = op; e.w = w; e.id = 0; e.var = -1; e.atom = nullptr; e.k[0] = e.k[1] = e.k[2] = nullptr; e.c = 0; e.lut = 0; e.p = nullptr; e.h = 0; return e; }
E mkConst(u128 v, unsigned w) { Expr e = blank(CONST, w); e.c = v & maskw(w); return intern(e); }
E mkVar(int id, unsigned bits) { Expr e = blank(VAR, bits); e.var = id; return intern(e); }
E mkLut(u32 t, E v) { if (isC(v)) return mkConst(lutAt(t, (u32)v->c), g_luts[t]->w); if (v->op != VAR) fatal("mkLut on non-variable"); Expr e = blank(LUT, g_luts[t]->w); e.lut = t; e.k[0] = v; return intern(e); }

// ---- slices -----------------------------------------------------------------------------------
static void pieces(E e, vector<Piece> &out) {
  if (e->op == BITS) { out.insert(out.end(), e->p->begin(), e->p->end()); return; }
  if (isC(e)) { out.push_back({nullptr, e->c, 0, e->w}); return; }
  out.push_back({e, 0, 0, e->w});
}
static E fromPieces(const vector<Piece> &in, unsigned w) {
  vector<Piece> o;
  for (auto q : in) {
    if (!q.len) continue;
    if (!q.src) q.c &= maskw(q.len);
    if (!o.empty()) { auto &l = o.back();
      if (!l.src && !q.src && (unsigned)l.len + q.len <= 128) { l.c |= q.c << l.len; l.len += q.len; continue; }
      if (l.src && l.src == q.src && l.lo + l.len == q.lo) { l.len += q.len; continue; } }
    if (q.src) { q.c = 0; } else q.lo = 0;
    o.push_back(q);
  }
  if (o.size() == 1) { if (!o[0].src) return mkConst(o[0].c, w); if (o[0].lo == 0 && o[0].len == o[0].src->w) return o[0].src; }
  Expr e = blank(BITS, w); e.p = &o; return intern(e);
}
static void slice(const vector<Piece> &in, unsigned lo, unsigned len, vector<Piece> &out) {
  unsigned pos = 0;
  for (auto &q : in) { unsigned a = std::max(lo, pos), b = std::min(lo + len, pos + q.len);
    if (a < b) { Piece r = q; unsigned off = a - pos; r.len = b - a; if (q.src) r.lo = q.lo + off; else { r.c = (q.c >> off) & maskw(r.len); } out.push_back(r); }
    pos += q.len; }
}
E mkExtract(E a, unsigned lo, unsigned len) {
  if (lo == 0 && len == a->w) return a;
  if (isC(a)) return mkConst(a->c >> lo, len);
  if (a->op == ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkExtract(a->k[1], lo, len), mkExtract(a->k[2], lo, len));
  vector<Piece> p, o; pieces(a, p); slice(p, lo, len, o); return fromPieces(o, len);
}
E mkZext(E a, unsigned w) {
  if (w == a->w) return a; if (w < a->w) return mkExtract(a, 0, w);
  if (isC(a)) return mkConst(a->c, w);
  vector<Piece> p; pieces(a, p); p.push_back({nullptr, 0, 0, (u16)(w - a->w)}); return fromPieces(p, w);
}
E mkSext(E a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) { u128 v = a->c; if ((v >> (a->w - 1)) & 1) v |= ~maskw(a->w); return mkConst(v, w); }
  if (a->op == BITS) { auto &l = a->p->back(); if (!l.src) { vector<Piece> p = *a->p; u128 top = (l.c >> (l.len - 1)) & 1 ? maskw(w - a->w) : 0; p.push_back({nullptr, top, 0, (u16)(w - a->w)}); return fromPieces(p, w); } }
  if (a->op == ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkSext(a->k[1], w), mkSext(a->k[2], w));
  Expr e = blank(SEXT, w); e.k[0] = a; return intern(e);
}
E mkConcat(const vector<E> &v) { vector<Piece> p; unsigned w = 0; for (E e : v) { pieces(e, p); w += e->w; } return fromPieces(p, w); }
static E andMask(E a, u128 m) {
  unsigned w = a->w; int runs = 0; bool prev = false; for (unsigned i = 0; i < w; i++) { bool b = (m >> i) & 1; if (b != prev) runs++; prev = b; }
  if (runs > 4) return nullptr;
  vector<Piece> p, o; pieces(a, p); unsigned i = 0;
  while (i < w) { bool b = (m >> i) & 1; unsigned j = i; while (j < w && ((m >> j) & 1) == b) j++;
    if (b) slice(p, i, j - i, o); else o.push_back({nullptr, 0, 0, (u16)(j - i)}); i = j; }
  return fromPieces(o, w);
}
static E orMask(E a, u128 m) {
  unsigned w = a->w; int runs = 0; bool prev = false; for (unsigned i = 0; i < w; i++) { bool b = (m >> i) & 1; if (b != prev) runs++; prev = b; }
  if (runs > 4) return nullptr;
  vector<Piece> p, o; pieces(a, p); unsigned i = 0;
  while (i < w) { bool b = (m >> i) & 1; unsigned j = i; while (j < w && ((m >> j) & 1) == b) j++;
    if (!b) slice(p, i, j - i, o); else o.push_back({nullptr, maskw(j - i), 0, (u16)(j - i)}); i = j; }
  return fromPieces(o, w);
}
// a | b (also a + b, a ^ b) where in every bit position one side is constant zero
static E disjoint(E a, E b, bool orop) {
  if (a->op != BITS && b->op != BITS) return nullptr;
  vector<Piece> x, y; pieces(a, x); pieces(b, y);
  vector<Piece> o; size_t i = 0, j = 0; unsigned xi = 0, yj = 0; unsigned w = a->w, pos = 0;
  while (pos < w) { unsigned n = std::min(x[i].len - xi, y[j].len - yj);
    vector<Piece> px, py; { vector<Piece> t{x[i]}; slice(t, xi, n, px); t[0] = y[j]; slice(t, yj, n, py); }
    Piece &A = px[0], &B = py[0];
    if (!A.src && A.c == 0) o.push_back(B); else if (!B.src && B.c == 0) o.push_back(A);
    else if (orop && !A.src && A.c == maskw(n)) o.push_back(A); else if (orop && !B.src && B.c == maskw(n)) o.push_back(B);
    else if (orop && !A.src && !B.src) { A.c |= B.c; o.push_back(A); }
    else if (orop && A.src && A.src == B.src && A.lo == B.lo) o.push_back(A);
    else return nullptr;
    xi += n; yj += n; pos += n; if (xi == x[i].len) { i++; xi = 0; } if (yj == y[j].len) { j++; yj = 0; } }
  return fromPieces(o, w);
}
static inline i64 sx(u128 v, unsigned w) { return (i64)((i64)((u64)v << (64 - w))) >> (64 - w); }
static __int128 sx128(u128 v, unsigned w) { return (__int128)(v << (128 - w)) >> (128 - w); }
static u128 foldBin(Op op, u128 a, u128 b, unsigned w) {
  u128 m = maskw(w);
  switch (op) {
  case ADD: return (a + b) & m; case SUB: return (a - b) & m; case MUL: return (a * b) & m;
  case UDIV: return b ? a / b : m; case UREM: return b ? a % b : a;
  case SDIV: { if (!b) return m; __int128 x = sx128(a, w), y = sx128(b, w); return (u128)(x / y) & m; }
  case SREM: { if (!b) return a; __int128 x = sx128(a, w), y = sx128(b, w); return (u128)(x % y) & m; }
  case SHL: return b >= w ? 0 : (a << b) & m; case LSHR: return b >= w ? 0 : a >> b;
  case ASHR: { __int128 x = sx128(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & m; }
  case AND: return a & b; case OR: return a | b; case XOR: return a ^ b;
  case EQ: return a == b; case ULT: return a < b; case SLT: return sx128(a, w) < sx128(b, w);
  default: fatal("foldBin"); }
}
E mkNot(E a) {
  if (isC(a)) return mkConst(a->c ^ 1, 1);
  if (a->op == NOT) return a->k[0];
  Expr e = blank(NOT, 1); e.k[0] = a; return intern(e);
}
static E raw(Op op, unsigned w, E a, E b) { Expr e = blank(op, w); e.k[0] = a; e.k[1] = b; return intern(e); }
static u128 maxOf(E e) {
  if (isC(e)) return e->c;
  if (e->op == BITS) { u128 v = 0; unsigned pos = 0; for (auto &q : *e->p) { v |= (q.src ? maskw(q.len) : q.c) << pos; pos += q.len; } return v; }
  return maskw(e->w);
}
u128 maxVal(E e) { return maxOf(e); }
static u128 minOf(E e) {
  if (isC(e)) return e->c;
  if (e->op == BITS) { u128 v = 0; unsigned pos = 0; for (auto &q : *e->p) { v |= (q.src ? 0 : q.c) << pos; pos += q.len; } return v; }
  return 0;
}
E mkIte(E c, E a, E b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (c->op == NOT) return mkIte(c->k[0], b, a);
  if (a->w == 1) {
    if (isC(a) && isC(b)) return a->c ? c : mkNot(c);
    if (isC(a)) return a->c ? mkBin(OR, c, b) : mkBin(AND, mkNot(c), b);
    if (isC(b)) return b->c ? mkBin(OR, mkNot(c), a) : mkBin(AND, c, a);
  }
  if (a->op == ITE && a->k[0] == c) a = a->k[1];
  if (b->op == ITE && b->k[0] == c) b = b->k[2];
  if (a == b) return a;
  Expr e = blank(ITE, a->w); e.k[0] = c; e.k[1] = a; e.k[2] = b; return intern(e);
}
E mkEq(E a, E b) {
  if (a == b) return mkTrue();
  if (isC(a) && isC(b)) return mkConst(a->c == b->c, 1);
  if (isC(a)) std::swap(a, b);
  if (a->w == 1) { if (isC(b)) return b->c ? a : mkNot(a); }
  if (a->op == ITE && isC(b) && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkEq(a->k[1], b), mkEq(a->k[2], b));
  if (a->op == ITE && isC(b) && (isC(a->k[1]) || isC(a->k[2]))) return mkIte(a->k[0], mkEq(a->k[1], b), mkEq(a->k[2], b));
  if (a->op == ADD && isC(b) && isC(a->k[1])) return mkEq(a->k[0], mkConst(b->c - a->k[1]->c, a->w));
  if (a->op == SUB && isC(b) && b->c == 0) return mkEq(a->k[0], a->k[1]);
  if (a->op == XOR && isC(b) && b->c == 0) return mkEq(a->k[0], a->k[1]);
  if (a->op == BITS || b->op == BITS) {
    vector<Piece> x, y; pieces(a, x); pieces(b, y); E r = mkTrue(); size_t i = 0, j = 0; unsigned xi = 0, yj = 0, pos = 0; bool split = x.size() > 1 || y.size() > 1;
    if (split) {
      vector<E> parts;
      while (pos < a->w) { unsigned n = std::min(x[i].len - xi, y[j].len - yj);
        vector<Piece> px, py; { vector<Piece> t{x[i]}; slice(t, xi, n, px); t[0] = y[j]; slice(t, yj, n, py); }
        E A = fromPieces(px, n), B = fromPieces(py, n);
        if (A != B) { E q = mkEq(A, B); if (isC(q)) { if (!q->c) return q; } else parts.push_back(q); }
        xi += n; yj += n; pos += n; if (xi == x[i].len) { i++; xi = 0; } if (yj == y[j].len) { j++; yj = 0; } }
      for (E q : parts) r = mkBin(AND, r, q);
      return r;
    }
  }
  if (!isC(b) && a->id > b->id) std::swap(a, b);
  return raw(EQ, 1, a, b);
}
static E mkUlt(E a, E b) {
  if (a == b) return mkConst(0, 1);
  unsigned w = a->w;
  if (maxOf(a) < minOf(b)) return mkTrue();
  if (minOf(a) >= maxOf(b)) return mkConst(0, 1);
  if (w == 1) return mkBin(AND, mkNot(a), b);
  if (isC(b) && b->c == 1) return mkEq(a, mkConst(0, w));
  if (isC(a) && a->c == 0) return mkNot(mkEq(b, mkConst(0, w)));
  // strip leading constant pieces common to both
  if ((a->op == BITS || b->op == BITS)) {
    auto top = [](E e, unsigned &n, u128 &v) { if (isC(e)) { n = e->w; v = e->c; return; } n = 0; v = 0; if (e->op == BITS && !e->p->back().src) { n = e->p->back().len; v = e->p->back().c; } };
    unsigned na, nb; u128 va, vb; top(a, na, va); top(b, nb, vb); unsigned n = std::min(na, nb); if (n >= w) n = w - 1;
    if (n) { va >>= (na - n); vb >>= (nb - n); if (va != vb) return mkConst(va < vb, 1); return mkUlt(mkExtract(a, 0, w - n), mkExtract(b, 0, w - n)); }
  }
  // a < C where the low bits of a are constant: compare the high part
  if (isC(b) && a->op == BITS && !a->p->front().src) { unsigned n = a->p->front().len; u128 lo = a->p->front().c; u128 C = b->c; u128 hi = C >> n; if ((C & maskw(n)) > lo) hi += 1; if (hi > maskw(w - n)) return mkTrue(); return mkUlt(mkExtract(a, n, w - n), mkConst(hi, w - n)); }
  if (isC(a) && b->op == BITS && !b->p->front().src) { unsigned n = b->p->front().len; u128 lo = b->p->front().c; u128 C = a->c; u128 hi = C >> n; if ((C & maskw(n)) < lo) { if (hi == 0) return mkTrue(); hi -= 1; } return mkUlt(mkConst(hi, w - n), mkExtract(b, n, w - n)); }
  if (a->op == ITE && isC(b) && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkUlt(a->k[1], b), mkUlt(a->k[2], b));
  if (b->op == ITE && isC(a) && isC(b->k[1]) && isC(b->k[2])) return mkIte(b->k[0], mkUlt(a, b->k[1]), mkUlt(a, b->k[2]));
  return raw(ULT, 1, a, b);
}
static E mkSlt(E a, E b) {
  if (a == b) return mkConst(0, 1);
  unsigned w = a->w; u128 sb = (u128)1 << (w - 1);
  bool ap = maxOf(a) < sb, bp = maxOf(b) < sb, an = minOf(a) >= sb, bn = minOf(b) >= sb;
  if ((ap && bp) || (an && bn)) return mkUlt(a, b);
  if (an && bp) return mkTrue();
  if (ap && bn) return mkConst(0, 1);
  if (isC(b) && b->c == 0) return mkExtract(a, w - 1, 1);
  if (isC(a) && a->c == maskw(w)) return mkNot(mkExtract(b, w - 1, 1));
  if (a->op == ITE && isC(b) && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkSlt(a->k[1], b), mkSlt(a->k[2], b));
  if (b->op == ITE && isC(a) && isC(b->k[1]) && isC(b->k[2])) return mkIte(b->k[0], mkSlt(a, b->k[1]), mkSlt(a, b->k[2]));
  return raw(SLT, 1, a, b);
}
E mkBin(Op op, E a, E b) {
  unsigned w = a->w;
  if (op == EQ) return mkEq(a, b);
  if (isC(a) && isC(b)) { return mkConst(foldBin(op, a->c, b->c, w), op >= EQ ? 1 : w); }
  switch (op) {
  case ULT: return mkUlt(a, b);
  case SLT: return mkSlt(a, b);
  case AND:
    if (isC(a)) std::swap(a, b);
    if (a == b) return a;
    if (isC(b)) { if (b->c == 0) return b; if (b->c == maskw(w)) return a; if (E r = andMask(a, b->c)) return r; }
    if (w == 1) { if (a->op == NOT && a->k[0] == b) return mkConst(0, 1); if (b->op == NOT && b->k[0] == a) return mkConst(0, 1); }
    if (!isC(b) && a->id > b->id) std::swap(a, b);
    break;
  case OR:
    if (isC(a)) std::swap(a, b);
    if (a == b) return a;
    if (isC(b)) { if (b->c == 0) return a; if (b->c == maskw(w)) return b; if (E r = disjoint(a, b, true)) return r; if (E r = orMask(a, b->c)) return r; }
    else if (E r = disjoint(a, b, true)) return r;
    if (w == 1) { if (a->op == NOT && a->k[0] == b) return mkTrue(); if (b->op == NOT && b->k[0] == a) return mkTrue(); }
    if (!isC(b) && a->id > b->id) std::swap(a, b);
    break;
  case XOR:
    if (isC(a)) std::swap(a, b);
    if (a == b) return mkConst(0, w);
    if (isC(b) && b->c == 0) return a;
    if (w == 1 && isC(b)) return mkNot(a);
    if (!isC(b)) if (E r = disjoint(a, b, false)) return r;
    if (a->op == XOR && isC(b) && isC(a->k[1])) return mkBin(XOR, a->k[0], mkConst(a->k[1]->c ^ b->c, w));
    if (!isC(b) && a->id > b->id) std::swap(a, b);
    break;
  case ADD:
    if (isC(a)) std::swap(a, b);
    if (isC(b) && b->c == 0) return a;
    if (w == 1) return mkBin(XOR, a, b);
    if (isC(b) && a->op == ADD && isC(a->k[1])) return mkBin(ADD, a->k[0], mkConst(a->k[1]->c + b->c, w));
    if (E r = disjoint(a, b, false)) return r;
    if (isC(b) && a->op == ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkBin(ADD, a->k[1], b), mkBin(ADD, a->k[2], b));
    if (!isC(b) && a->id > b->id) std::swap(a, b);
    break;
  case SUB:
    if (a == b) return mkConst(0, w);
    if (isC(b)) return mkBin(ADD, a, mkConst((u128)0 - b->c, w));
    if (a->op == ADD && a->k[0] == b) return a->k[1];
    if (a->op == ADD && a->k[1] == b) return a->k[0];
    break;
  case MUL:
    if (isC(a)) std::swap(a, b);
    if (isC(b)) { if (b->c == 0) return b; if (b->c == 1) return a; if ((b->c & (b->c - 1)) == 0) { unsigned s = 0; while (!((b->c >> s) & 1)) s++; return mkBin(SHL, a, mkConst(s, w)); } }
    break;
  case UDIV: case UREM:
    if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) { unsigned s = 0; while (!((b->c >> s) & 1)) s++; if (op == UDIV) return mkBin(LSHR, a, mkConst(s, w)); return mkBin(AND, a, mkConst(b->c - 1, w)); }
    if (isC(b) && b->c && maxOf(a) < b->c) return op == UDIV ? mkConst(0, w) : a;
    break;
  case SDIV: case SREM:
    if (isC(b) && maxOf(a) < ((u128)1 << (w - 1)) && b->c < ((u128)1 << (w - 1))) return mkBin(op == SDIV ? UDIV : UREM, a, b);
    break;
  case SHL: case LSHR: case ASHR:
    if (isC(b)) { unsigned s = (unsigned)b->c; if (b->c >= w) { if (op == ASHR) s = w - 1; else return mkConst(0, w); } if (s == 0) return a;
      if (op == SHL) { vector<Piece> p, o; pieces(a, p); o.push_back({nullptr, 0, 0, (u16)s}); slice(p, 0, w - s, o); return fromPieces(o, w); }
      if (op == LSHR) return mkZext(mkExtract(a, s, w - s), w);
      return mkSext(mkExtract(a, s, w - s), w); }
    break;
  default: break;
  }
  if (w == 1 && op == MUL) return mkBin(AND, a, b);
  return raw(op, op >= EQ ? 1 : w, a, b);
}
void collectVars(E e, vector<int> &out) {
  std::unordered_set<E> seen; vector<E> st{e};
  while (!st.empty()) { E x = st.back(); st.pop_back(); if (x->var == -1 || !seen.insert(x).second) continue;
    if (x->var >= 0) { out.push_back(x->var); continue; }
    for (int i = 0; i < 3; i++) if (x->k[i]) st.push_back(x->k[i]);
    if (x->p) for (auto &q : *x->p) if (q.src) st.push_back(q.src); }
  std::sort(out.begin(), out.end()); out.erase(std::unique(out.begin(), out.end()), out.end());
}
static const char *opn[] = {"const","var","lut","bits","add","sub","mul","udiv","sdiv","urem","srem","shl","lshr","ashr","and","or","xor","eq","ult","slt","ite","sext","not"};
std::string show(E e, int d) {
  char b[64];
  if (isC(e)) { snprintf(b, 64, "%llx:%d", (unsigned long long)e->c, e->w); return b; }
  if (e->op == VAR) { snprintf(b, 64, "v%d", e->var); return b; }
  if (e->op == LUT) return "lut" + std::to_string(e->lut) + "(" + show(e->k[0], d - 1) + ")";
  if (d <= 0) return "..";
  if (e->op == BITS) { std::string s = "{"; for (auto it = e->p->rbegin(); it != e->p->rend(); ++it) { if (it->src) { s += show(it->src, d - 1); snprintf(b, 64, "[%d:%d]", it->lo + it->len - 1, it->lo); s += b; } else { snprintf(b, 64, "%llx:%d", (unsigned long long)it->c, it->len); s += b; } s += "|"; } return s + "}"; }
  std::string s = std::string("(") + opn[e->op]; for (int i = 0; i < 3; i++) if (e->k[i]) s += " " + show(e->k[i], d - 1); return s + ")";
}

// ---- interval sets ------------------------------------------------------------------------------
static vector<Ivs *> doms; static vector<u64> domSz; static std::unordered_map<u64, vector<Dom>> domIdx;
Dom domIntern(Ivs &&v) {
  if (doms.empty()) { doms.push_back(new Ivs()); domSz.push_back(0); }
  if (v.empty()) return 0;
  u64 h = 7, n = 0; for (auto &p : v) { h = mix(h, p.first); h = mix(h, p.second); n += (u64)p.second - p.first + 1; }
  auto &b = domIdx[h]; for (Dom d : b) if (*doms[d] == v) return d;
  Dom d = doms.size(); doms.push_back(new Ivs(std::move(v))); domSz.push_back(n); b.push_back(d); return d;
}
const Ivs &domIvs(Dom d) { if (doms.empty()) domIntern(Ivs()); return *doms[d]; }
u64 domSize(Dom d) { return d ? domSz[d] : 0; }
static std::unordered_map<u64, Dom> andC, subC;
static void push(Ivs &o, u32 a, u32 b) { if (!o.empty() && o.back().second + 1 == a) o.back().second = b; else o.push_back({a, b}); }
Dom domAnd(Dom a, Dom b) {
  if (!a || !b) return 0; if (a == b) return a; if (a > b) std::swap(a, b);
  u64 k = (u64)a << 32 | b; auto it = andC.find(k); if (it != andC.end()) return it->second;
  const Ivs &x = *doms[a], &y = *doms[b]; Ivs o; size_t i = 0, j = 0;
  while (i < x.size() && j < y.size()) { u32 l = std::max(x[i].first, y[j].first), h = std::min(x[i].second, y[j].second); if (l <= h) push(o, l, h); if (x[i].second < y[j].second) i++; else j++; }
  Dom r = domIntern(std::move(o)); andC[k] = r; return r;
}
Dom domSub(Dom a, Dom b) {
  if (!a || a == b) return 0; if (!b) return a;
  u64 k = (u64)a << 32 | b; auto it = subC.find(k); if (it != subC.end()) return it->second;
  const Ivs &x = *doms[a], &y = *doms[b]; Ivs o; size_t j = 0;
  for (auto p : x) { u64 l = p.first; while (j < y.size() && y[j].second < l) j++; size_t q = j;
    while (q < y.size() && y[q].first <= p.second) { if (y[q].first > l) push(o, l, y[q].first - 1); l = (u64)y[q].second + 1; q++; if (l > p.second) break; }
    if (l <= p.second) push(o, l, p.second); }
  Dom r = domIntern(std::move(o)); subC[k] = r; return r;
}
Dom domOrAll(vector<Dom> v) {
  Ivs all; for (Dom d : v) if (d) all.insert(all.end(), doms[d]->begin(), doms[d]->end());
  std::sort(all.begin(), all.end()); Ivs o;
  for (auto p : all) { if (!o.empty() && p.first <= (u64)o.back().second + 1) o.back().second = std::max(o.back().second, p.second); else o.push_back(p); }
  return domIntern(std::move(o));
}
Dom domFull(unsigned bits) { Ivs v; v.push_back({0, (u32)maskw(bits)}); return domIntern(std::move(v)); }
bool domHas(Dom d, u32 v) { if (!d) return false; const Ivs &x = *doms[d]; auto it = std::upper_bound(x.begin(), x.end(), std::make_pair(v, (u32)~0u)); if (it == x.begin()) return false; --it; return it->second >= v; }

// ---- tables ---------------------------------------------------------------------------------------
u32 lutAdd(LutT *t) {           // outside the given partition a table reads 0
  vector<Dom> ds; for (auto &p : t->part) ds.push_back(p.second);
  Dom rest = domSub(domFull(t->bits), domOrAll(ds));
  if (rest) { bool hit = false; for (auto &p : t->part) if (p.first == 0) { p.second = domOrAll({p.second, rest}); hit = true; } if (!hit) t->part.push_back({0, rest}); }
  t->total = domFull(t->bits);
  for (size_t i = 0; i < t->part.size(); i++) t->index[t->part[i].first] = i;
  g_luts.push_back(t); return g_luts.size() - 1; }
static std::vector<LutT *> live; static size_t livePos = 0; static const size_t LIVE = 96; // tables kept in dense form
static void densify(LutT *t) { if (t->ready) return; u32 mx = 0; u64 big = 0; bool any = false; for (auto &p : t->part) if (p.first) { any = true; mx = std::max(mx, domIvs(p.second).back().second); big = std::max(big, p.first); }
  t->ready = true; if (!any) return; bool n = big <= 0xffffffffu; if (n) t->d32.assign((size_t)mx + 1, 0); else t->d64.assign((size_t)mx + 1, 0);
  for (auto &p : t->part) if (p.first) for (auto &iv : domIvs(p.second)) for (u32 x = iv.first; x <= iv.second; x++) { if (n) t->d32[x] = (u32)p.first; else t->d64[x] = p.first; }
  if (live.size() < LIVE) { live.push_back(t); return; } LutT *o = live[livePos]; o->ready = false; std::vector<u32>().swap(o->d32); std::vector<u64>().swap(o->d64); live[livePos] = t; livePos = (livePos + 1) % LIVE; }
u64 lutAt(u32 t, u32 x) { LutT *l = g_luts[t]; densify(l); return l->at(x); }

// ---- unary evaluation -------------------------------------------------------------------------------
bool isUnary(E e) { return e->var >= 0 && g_vars[e->var].dense; }
static void topo(E e, E cut, std::unordered_map<E, int> &ix, vector<E> &ord, bool &ok) {
  if (ix.count(e)) return;
  if (e->w > 64) { ok = false; return; }
  if (e != cut && e->op != LUT) { for (int i = 0; i < 3; i++) if (e->k[i]) topo(e->k[i], cut, ix, ord, ok); if (e->p) for (auto &q : *e->p) if (q.src) topo(q.src, cut, ix, ord, ok); }
  else if (e->op == LUT && e != cut) topo(e->k[0], cut, ix, ord, ok);
  if (!ok) return;
  ix[e] = ord.size(); ord.push_back(e);
}
static const int BLK = 1024;
struct DenseEval {
  std::unordered_map<E, int> ix; vector<E> ord; vector<vector<u64>> buf; E cut; bool ok = true; vector<vector<u8>> dummy;
  vector<vector<int>> kid;
  DenseEval(E e, E c) : cut(c) { topo(e, c, ix, ord, ok); if (!ok) return; buf.resize(ord.size()); kid.resize(ord.size());
    for (size_t i = 0; i < ord.size(); i++) { buf[i].resize(BLK); E x = ord[i]; if (x == cut) continue; if (x->op == LUT) { kid[i].push_back(ix[x->k[0]]); continue; }
      for (int j = 0; j < 3; j++) if (x->k[j]) kid[i].push_back(ix[x->k[j]]); if (x->p) for (auto &q : *x->p) kid[i].push_back(q.src ? ix[q.src] : -1);
      if (isC(x)) for (int t = 0; t < BLK; t++) buf[i][t] = (u64)x->c; } }
  // in: n values of the cut; result in buf.back()
  u64 *run(const u64 *in, int n) {
    for (size_t i = 0; i < ord.size(); i++) { E x = ord[i]; u64 *o = buf[i].data();
      if (x == cut) { memcpy(o, in, n * 8); continue; }
      if (isC(x)) continue;
      u64 m = (u64)maskw(x->w);
      if (x->op == LUT) { u64 *a = buf[kid[i][0]].data(); LutT *l = g_luts[x->lut]; densify(l); for (int t = 0; t < n; t++) o[t] = l->at(a[t]); continue; }
      if (x->op == BITS) { unsigned pos = 0; for (int t = 0; t < n; t++) o[t] = 0; size_t j = 0;
        for (auto &q : *x->p) { if (q.src) { u64 *a = buf[kid[i][j]].data(); u64 qm = (u64)maskw(q.len); for (int t = 0; t < n; t++) o[t] |= ((a[t] >> q.lo) & qm) << pos; } else { u64 c = (u64)q.c << pos; for (int t = 0; t < n; t++) o[t] |= c; } pos += q.len; j++; } continue; }
      u64 *a = buf[kid[i][0]].data(); u64 *b = kid[i].size() > 1 ? buf[kid[i][1]].data() : nullptr; unsigned kw = x->k[0]->w;
      switch (x->op) {
      case ADD: for (int t = 0; t < n; t++) o[t] = (a[t] + b[t]) & m; break;
      case SUB: for (int t = 0; t < n; t++) o[t] = (a[t] - b[t]) & m; break;
      case MUL: for (int t = 0; t < n; t++) o[t] = (a[t] * b[t]) & m; break;
      case AND: for (int t = 0; t < n; t++) o[t] = a[t] & b[t]; break;
      case OR: for (int t = 0; t < n; t++) o[t] = a[t] | b[t]; break;
      case XOR: for (int t = 0; t < n; t++) o[t] = a[t] ^ b[t]; break;
      case EQ: for (int t = 0; t < n; t++) o[t] = a[t] == b[t]; break;
      case ULT: for (int t = 0; t < n; t++) o[t] = a[t] < b[t]; break;
      case SLT: for (int t = 0; t < n; t++) o[t] = sx(a[t], kw) < sx(b[t], kw); break;
      case NOT: for (int t = 0; t < n; t++) o[t] = a[t] ^ 1; break;
      case ITE: { u64 *c = buf[kid[i][2]].data(); for (int t = 0; t < n; t++) o[t] = a[t] ? b[t] : c[t]; break; }
      case SEXT: for (int t = 0; t < n; t++) o[t] = (u64)sx(a[t], kw) & m; break;
      default: for (int t = 0; t < n; t++) o[t] = (u64)foldBin(x->op, a[t], b[t], x->w); break; } }
    return buf.back().data();
  }
};
static E cutOf(E e) { return e->atom ? e->atom : mkVar(e->var, g_vars[e->var].bits); }

// Results about unary expressions are shared between variables of the same width: the expression is
// rewritten over one canonical variable first.
static std::map<unsigned, int> canonVars; static std::unordered_map<E, E> canonC;
static int canonVarId(unsigned bits) { auto it = canonVars.find(bits); if (it != canonVars.end()) return it->second; int id = g_vars.size(); g_vars.push_back({(u16)bits, true}); canonVars[bits] = id; return id; }
E canonical(E e) {
  if (e->var < 0) return e; unsigned bits = g_vars[e->var].bits; int cv = canonVarId(bits); if (e->var == cv) return e;
  auto it = canonC.find(e); if (it != canonC.end()) return it->second; E r; auto K = [&](int i) { return canonical(e->k[i]); };
  switch (e->op) { case VAR: r = mkVar(cv, bits); break; case LUT: r = mkLut(e->lut, mkVar(cv, bits)); break; case NOT: r = mkNot(K(0)); break; case SEXT: r = mkSext(K(0), e->w); break; case ITE: r = mkIte(K(0), K(1), K(2)); break;
    case BITS: { vector<E> ps; for (auto &q : *e->p) ps.push_back(q.src ? mkExtract(canonical(q.src), q.lo, q.len) : mkConst(q.c, q.len)); r = mkConcat(ps); break; }
    default: r = mkBin(e->op, K(0), K(1)); }
  canonC[e] = r; return r; }
static const u32 BUCKET[][2] = {{0, 0x7f}, {0x80, 0x7ff}, {0x800, 0xffff}, {0x10000, 0x1fffff}};
static int bucketOf(Dom d) { const Ivs &v = domIvs(d); for (int i = 0; i < 4; i++) if (v.front().first >= BUCKET[i][0] && v.back().second <= BUCKET[i][1]) return i; return 4; }
static Dom bucketDom(int b, unsigned bits) { if (b == 4) return domFull(bits); Ivs v; v.push_back({BUCKET[b][0], BUCKET[b][1]}); return domAnd(domFull(bits), domIntern(std::move(v))); }
static std::unordered_map<u64, Dom> condC;
static void leavesOf(E e, std::map<int, std::set<E>> &m, std::unordered_set<E> &seen);
static void certify(E e, E cut, const vector<u64> *vals, Dom set, Dom within);
// division by a constant is expensive to certify: decide such conditions only on the domain at hand
static std::unordered_map<E, bool> heavyC;
static bool heavy(E e) {
  if (e->op <= LUT) return false; auto it = heavyC.find(e); if (it != heavyC.end()) return it->second;
  bool r = e->op == UDIV || e->op == UREM || e->op == SDIV || e->op == SREM;
  for (int i = 0; i < 3 && !r; i++) if (e->k[i]) r = heavy(e->k[i]);
  if (e->p) for (auto &q : *e->p) if (!r && q.src) r = heavy(q.src);
  return heavyC[e] = r; }
static bool trivialCut(E e, E cut);
static bool hasMul(E e) { if (e->op <= LUT) return false; if (e->op == MUL) return true; for (int i = 0; i < 3; i++) if (e->k[i] && hasMul(e->k[i])) return true; if (e->p) for (auto &q : *e->p) if (q.src && hasMul(q.src)) return true; return false; }
static std::unordered_map<E, bool> manyC;
static bool hardLuts(E e) { auto it = manyC.find(e); if (it != manyC.end()) return it->second; std::map<int, std::set<E>> lv; std::unordered_set<E> seen; leavesOf(e, lv, seen); int n = 0; for (auto &p : lv) for (E q : p.second) n += q->op == LUT; return manyC[e] = n >= 2 || n == 1 && !trivialCut(e, cutOf(e)) && hasMul(e); }
static Dom condSetHere(E e, Dom d) {  // e canonical, over a VAR
  E cut = mkVar(e->var, g_vars[e->var].bits); DenseEval de(e, cut); if (!de.ok) return (Dom)-1;
  Ivs v; u64 in[BLK];
  for (auto iv : domIvs(d)) for (u64 b = iv.first; b <= iv.second; b += BLK) { int n = (int)std::min<u64>(BLK, iv.second - b + 1); for (int i = 0; i < n; i++) in[i] = b + i; u64 *o = de.run(in, n); for (int i = 0; i < n; i++) if (o[i]) push(v, b + i, b + i); }
  if (v.size() > 40 && heavy(e) && v.size() > domIvs(d).size() + 20) return (Dom)-1; // leave it to the relational solver
  Dom r = domIntern(std::move(v)); certify(e, cut, nullptr, r, d); return r; }
static Dom condSetIn(E e, int bk) {   // e canonical; the part of bucket bk where e holds
  u64 key = (u64)e->id << 3 | bk; auto it = condC.find(key); if (it != condC.end()) return it->second;
  Dom r; unsigned bits = g_vars[e->var].bits; Dom base = bucketDom(bk, bits);
  if (e->op == NOT) { r = domSub(base, condSetIn(e->k[0], bk)); }
  else if (e->op == ULT && e->k[0]->op == VAR && isC(e->k[1])) { Ivs v; if (e->k[1]->c) v.push_back({0, (u32)e->k[1]->c - 1}); r = domAnd(base, domIntern(std::move(v))); }
  else if (e->op == ULT && e->k[1]->op == VAR && isC(e->k[0])) { Ivs v; if (e->k[0]->c < maskw(bits)) v.push_back({(u32)e->k[0]->c + 1, (u32)maskw(bits)}); r = domAnd(base, domIntern(std::move(v))); }
  else if (e->op == EQ && e->k[0]->op == VAR && isC(e->k[1])) { Ivs v; v.push_back({(u32)e->k[1]->c, (u32)e->k[1]->c}); r = domAnd(base, domIntern(std::move(v))); }
  else {
    g_st.cond_unique++;
    E cut = cutOf(e); DenseEval de(e, cut); if (!de.ok) return condC[key] = (Dom)-1;
    if (cut->op == LUT) {
      if (bk != 4) { r = condSetIn(e, 4); r = r == (Dom)-1 ? r : domAnd(r, base); condC[key] = r; return r; }
      LutT *l = g_luts[cut->lut]; vector<Dom> ds; vector<u64> vals; vector<u64> in;
      for (size_t i = 0; i < l->part.size(); i += BLK) { in.clear(); for (size_t j = i; j < std::min(l->part.size(), i + BLK); j++) in.push_back(l->part[j].first);
        u64 *o = de.run(in.data(), in.size()); for (size_t j = 0; j < in.size(); j++) if (o[j]) { ds.push_back(l->part[i + j].second); vals.push_back(in[j]); } }
      r = domOrAll(ds); certify(e, cut, &vals, 0, 0);
    } else {
      Ivs v; u64 in[BLK];
      for (auto iv : domIvs(base)) for (u64 b = iv.first; b <= iv.second; b += BLK) { int n = (int)std::min<u64>(BLK, iv.second - b + 1); for (int i = 0; i < n; i++) in[i] = b + i; u64 *o = de.run(in, n); for (int i = 0; i < n; i++) if (o[i]) push(v, b + i, b + i); }
      r = domIntern(std::move(v)); certify(e, cut, nullptr, r, base);
    }
  }
  condC[key] = r; return r;
}
static std::unordered_map<u64, pair<Dom, Dom>> splitC;
pair<Dom, Dom> condSplit(Dom d, E e) {
  if (e->op == NOT) { auto p = condSplit(d, e->k[0]); return {p.second, p.first}; }
  e = canonical(e); if (isC(e)) return e->c ? pair<Dom, Dom>{d, 0} : pair<Dom, Dom>{0, d};
  if (e->op == NOT) { auto p = condSplit(d, e->k[0]); return {p.second, p.first}; }
  u64 k = (u64)d << 32 | e->id; auto it = splitC.find(k); if (it != splitC.end()) return it->second;
  Dom s = cutOf(e)->op == VAR && heavy(e) || domSize(d) <= 2000 && (hardLuts(e) || cutOf(e)->op == VAR && hasMul(e)) ? condSetHere(e, d) : condSetIn(e, bucketOf(d)); if (s == (Dom)-1) return {(Dom)-1, (Dom)-1};
  Dom t = domAnd(d, s); pair<Dom, Dom> r{t, t == d ? 0 : (t ? domSub(d, t) : d)}; splitC[k] = r; return r;
}
bool valuePart(E e, Dom d, size_t limit, vector<pair<u64, Dom>> &out) {
  out.clear(); e = canonical(e); if (isC(e)) { out.push_back({(u64)e->c, d}); return true; } E cut = cutOf(e);
  std::map<u64, vector<Dom>> m;
  if (cut->op == LUT) {
    LutT *l = g_luts[cut->lut]; DenseEval de(e, cut); if (!de.ok) return false; vector<u64> in; vector<Dom> dd;
    auto flush = [&]() { u64 *o = de.run(in.data(), in.size()); for (size_t j = 0; j < in.size(); j++) { m[o[j]].push_back(dd[j]); } in.clear(); dd.clear(); return m.size() <= limit; };
    for (auto &p : l->part) { Dom x = domAnd(p.second, d); if (!x) continue; in.push_back(p.first); dd.push_back(x); if (in.size() == BLK) if (!flush()) return false; }
    if (in.size()) if (!flush()) return false;
    for (auto &p : m) { Dom u = p.second.size() == 1 ? p.second[0] : domOrAll(p.second); out.push_back({p.first, u}); }
  } else {
    DenseEval de(e, cut); if (!de.ok) return false; std::map<u64, Ivs> mi; u64 in[BLK]; int n = 0; u32 base[BLK];
    auto flush = [&]() { u64 *o = de.run(in, n); for (int i = 0; i < n; i++) push(mi[o[i]], base[i], base[i]); n = 0; return mi.size() <= limit; };
    for (auto iv : domIvs(d)) for (u64 x = iv.first; x <= iv.second; x++) { in[n] = x; base[n] = x; if (++n == BLK) if (!flush()) return false; }
    if (n) if (!flush()) return false;
    for (auto &p : mi) out.push_back({p.first, domIntern(std::move(p.second))});
  }
  return out.size() <= limit;
}
u64 evalAt(E e, const std::map<int, u32> &mm) {
  std::unordered_map<E, u128> memo; vector<E> st{e};
  while (!st.empty()) { E x = st.back(); if (memo.count(x)) { st.pop_back(); continue; }
    bool ready = true; auto need = [&](E y) { if (y && !memo.count(y)) { st.push_back(y); ready = false; } };
    for (int i = 0; i < 3; i++) need(x->k[i]); if (x->p) for (auto &q : *x->p) need(q.src);
    if (!ready) continue; st.pop_back(); u128 v = 0;
    switch (x->op) { case CONST: v = x->c; break; case VAR: { auto it = mm.find(x->var); v = it == mm.end() ? 0 : it->second; break; } case LUT: v = lutAt(x->lut, (u32)memo[x->k[0]]); break;
      case BITS: { unsigned pos = 0; for (auto &q : *x->p) { v |= (q.src ? (memo[q.src] >> q.lo) & maskw(q.len) : q.c) << pos; pos += q.len; } break; }
      case NOT: v = memo[x->k[0]] ^ 1; break; case ITE: v = memo[x->k[0]] ? memo[x->k[1]] : memo[x->k[2]]; break;
      case SEXT: v = (u128)sx128(memo[x->k[0]], x->k[0]->w) & maskw(x->w); break;
      default: v = foldBin(x->op, memo[x->k[0]], memo[x->k[1]], x->k[0]->w); }
    memo[x] = v; }
  return (u64)memo[e];
}

// ---- z3 -----------------------------------------------------------------------------------------------
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double slowT() { static double d = atof(getenv("RSYM_SLOW")); return d; }
static bool slowDbg() { static bool b = getenv("RSYM_SLOW") != nullptr; return b; }
struct Z { z3::context c; z3::solver s; Z() : s(c) { z3::params p(c); p.set("timeout", 60000u); s.set(p); } };
static Z &Zc() { static Z *z = new Z(); static int cnt = 0; if (++cnt > 20000) { cnt = 0; delete z; z = new Z(); } return *z; }
static z3::expr bvc(z3::context &c, u128 v, unsigned w) {
  if (w <= 64) return c.bv_val((uint64_t)v, w);
  return z3::concat(c.bv_val((uint64_t)(v >> 64), w - 64), c.bv_val((uint64_t)v, 64));
}
static z3::expr b2(z3::context &c, z3::expr b) { return z3::ite(b, c.bv_val(1, 1), c.bv_val(0, 1)); }
static z3::expr inDom(z3::context &c, z3::expr x, Dom d, unsigned bits) {
  z3::expr_vector v(c);
  for (auto &iv : domIvs(d)) { z3::expr lo = c.bv_val(iv.first, bits), hi = c.bv_val(iv.second, bits);
    if (iv.first == iv.second) v.push_back(x == lo); else if (iv.first == 0) v.push_back(z3::ule(x, hi)); else if (iv.second == (u32)maskw(bits)) v.push_back(z3::uge(x, lo)); else v.push_back(z3::uge(x, lo) && z3::ule(x, hi)); }
  return z3::mk_or(v);
}
// leaf(e): z3 expression for VAR / LUT leaves, by callback
struct Tr { z3::context &c; std::unordered_map<E, z3::expr *> memo; std::unordered_map<E, z3::expr *> leaves; vector<z3::expr *> own;
  Tr(z3::context &c) : c(c) {} ~Tr() { for (auto p : own) delete p; }
  z3::expr *mk(z3::expr e) { auto p = new z3::expr(e); own.push_back(p); return p; }
  z3::expr tr(E e) {
    auto it = memo.find(e); if (it != memo.end()) return *it->second;
    auto lf = leaves.find(e); if (lf != leaves.end()) return *lf->second;
    z3::expr r(c);
    auto K = [&](int i) { return tr(e->k[i]); };
    switch (e->op) {
    case CONST: r = bvc(c, e->c, e->w); break;
    case VAR: r = c.bv_const(("v" + std::to_string(e->var)).c_str(), e->w); break;
    case LUT: { // ite chain over the partition
      z3::expr x = tr(e->k[0]); r = c.bv_val(0, e->w); LutT *l = g_luts[e->lut]; size_t big = 0; u64 bs = 0; for (size_t i = 0; i < l->part.size(); i++) if (domIvs(l->part[i].second).size() > bs) { bs = domIvs(l->part[i].second).size(); big = i; }
      if (domSize(l->total) == ((u64)1 << e->k[0]->w)) r = bvc(c, l->part[big].first, e->w); else big = ~(size_t)0;
      for (size_t i = 0; i < l->part.size(); i++) if (i != big) r = z3::ite(inDom(c, x, l->part[i].second, e->k[0]->w), bvc(c, l->part[i].first, e->w), r); break; }
    case BITS: { bool first = true; for (auto &q : *e->p) { z3::expr t = q.src ? (q.lo == 0 && q.len == q.src->w ? tr(q.src) : tr(q.src).extract(q.lo + q.len - 1, q.lo)) : bvc(c, q.c, q.len); r = first ? t : z3::concat(t, r); first = false; } break; }
    case ADD: r = K(0) + K(1); break; case SUB: r = K(0) - K(1); break; case MUL: r = K(0) * K(1); break;
    case UDIV: r = z3::udiv(K(0), K(1)); break; case SDIV: r = K(0) / K(1); break; case UREM: r = z3::urem(K(0), K(1)); break; case SREM: r = z3::srem(K(0), K(1)); break;
    case SHL: r = z3::shl(K(0), K(1)); break; case LSHR: r = z3::lshr(K(0), K(1)); break; case ASHR: r = z3::ashr(K(0), K(1)); break;
    case AND: r = K(0) & K(1); break; case OR: r = K(0) | K(1); break; case XOR: r = K(0) ^ K(1); break;
    case EQ: r = b2(c, K(0) == K(1)); break; case ULT: r = b2(c, z3::ult(K(0), K(1))); break; case SLT: r = b2(c, K(0) < K(1)); break;
    case NOT: r = ~K(0); break; case ITE: r = z3::ite(K(0) == c.bv_val(1, 1), K(1), K(2)); break;
    case SEXT: r = z3::sext(K(0), e->w - e->k[0]->w); break; }
    memo[e] = mk(r); return r; } };
// ---- linear integer arithmetic ----------------------------------------------------------------------------
// Division-heavy conditions are translated to integer arithmetic: every term becomes an integer in [0, 2^w),
// with an explicit multiple of 2^w taken off where an operation can leave that range.
struct Lia {
  typedef __int128 I; struct T { z3::expr e; I lo, hi; };
  z3::context &c; z3::expr_vector side; const std::map<int, Dom> &dm; bool ok = true; int fresh = 0;
  std::unordered_map<E, T *> memo; std::unordered_map<E, z3::expr *> bmemo; std::map<std::tuple<E, int, int>, T *> sl; std::map<pair<E, u64>, pair<T *, T *>> dv; std::map<int, z3::expr *> vars;
  Lia(z3::context &c, const std::map<int, Dom> &dm) : c(c), side(c), dm(dm) {}
  ~Lia() { for (auto &p : memo) delete p.second; for (auto &p : bmemo) delete p.second; for (auto &p : sl) delete p.second; for (auto &p : dv) { delete p.second.first; delete p.second.second; } for (auto &p : vars) delete p.second; }
  z3::expr num(I v) { bool n = v < 0; unsigned __int128 u = n ? -(unsigned __int128)v : v; char b[48]; int i = 47; b[i] = 0; do { b[--i] = '0' + (int)(u % 10); u /= 10; } while (u); if (n) b[--i] = '-'; return c.int_val(b + i); }
  static I p2(unsigned n) { return (I)1 << n; }
  T bad() { ok = false; return {c.int_val(0), 0, 0}; }
  z3::expr nv(I lo, I hi) { z3::expr x = c.int_const(("t" + std::to_string(fresh++)).c_str()); side.push_back(x >= num(lo)); side.push_back(x <= num(hi)); return x; }
  T fit(z3::expr e, I lo, I hi, unsigned w) { if (lo >= 0 && hi < p2(w)) return {e, lo, hi};
    I k0 = lo >= 0 ? lo / p2(w) : -((-lo + p2(w) - 1) / p2(w)), k1 = hi >= 0 ? hi / p2(w) : -((-hi + p2(w) - 1) / p2(w));
    if (k0 == k1) return {e - num(k0 * p2(w)), lo - k0 * p2(w), hi - k0 * p2(w)};
    z3::expr r = nv(0, p2(w) - 1), k = nv(k0, k1); side.push_back(e == r + num(p2(w)) * k); return {r, 0, p2(w) - 1}; }
  z3::expr var(int v) { auto it = vars.find(v); if (it != vars.end()) return *it->second; z3::expr x = c.int_const(("v" + std::to_string(v)).c_str()); vars[v] = new z3::expr(x); side.push_back(in(x, dom(v))); return x; }
  Dom dom(int v) { auto it = dm.find(v); return it != dm.end() && it->second ? it->second : domFull(g_vars[v].bits); }
  z3::expr in(z3::expr x, Dom d) { z3::expr_vector o(c); for (auto &iv : domIvs(d)) { if (iv.first == iv.second) o.push_back(x == num(iv.first)); else o.push_back(x >= num(iv.first) && x <= num(iv.second)); } return z3::mk_or(o); }
  pair<T *, T *> divmod(E a, u64 m) { auto k = std::make_pair(a, m); auto it = dv.find(k); if (it != dv.end()) return it->second; T x = term(a);
    T *q, *r; if (x.hi < (I)m) { q = new T{c.int_val(0), 0, 0}; r = new T(x); }
    else { I ql = x.lo / m, qh = x.hi / m; z3::expr qe = ql == qh ? num(ql) : nv(ql, qh), re = nv(0, (I)m - 1); side.push_back(x.e == num(m) * qe + re); q = new T{qe, ql, qh}; r = new T{re, 0, (I)m - 1}; }
    return dv[k] = {q, r}; }
  T slice(E s, unsigned lo, unsigned len) { auto k = std::make_tuple(s, (int)lo, (int)len); auto it = sl.find(k); if (it != sl.end()) return *it->second; T x = term(s); T r = x;
    if (lo) { z3::expr h = nv(0, x.hi >> lo), l = nv(0, p2(lo) - 1); side.push_back(x.e == num(p2(lo)) * h + l); r = {h, 0, x.hi >> lo}; }
    if (r.hi >= p2(len)) { z3::expr h = nv(0, r.hi >> len), l = nv(0, p2(len) - 1); side.push_back(r.e == num(p2(len)) * h + l); r = {l, 0, p2(len) - 1}; }
    sl[k] = new T(r); return r; }
  T term(E e) { auto it = memo.find(e); if (it != memo.end()) return *it->second; T r = mk(e); memo[e] = new T(r); return r; }
  T mk(E e) {
    if (!ok || e->w > 64) return bad();
    if (e->w == 1) { if (isC(e)) return {num((I)e->c), (I)e->c, (I)e->c}; return {z3::ite(boolean(e), c.int_val(1), c.int_val(0)), 0, 1}; }
    unsigned w = e->w;
    switch (e->op) {
    case CONST: return {num((I)e->c), (I)e->c, (I)e->c};
    case VAR: { Dom d = g_vars[e->var].dense ? dom(e->var) : 0; if (!d) { if (g_vars[e->var].dense) return bad(); auto it = vars.find(e->var); if (it == vars.end()) { z3::expr x = c.int_const(("v" + std::to_string(e->var)).c_str()); side.push_back(x >= 0); side.push_back(x < num(p2(w))); vars[e->var] = new z3::expr(x); } return {*vars[e->var], 0, p2(w) - 1}; }
      if (domIvs(d).size() > 2000) return bad(); return {var(e->var), (I)domIvs(d).front().first, (I)domIvs(d).back().second}; }
    case LUT: { int v = e->var; Dom d = dom(v); LutT *l = g_luts[e->lut]; size_t n = 0; z3::expr x = var(v); bool first = true; z3::expr r(c); I lo = 0, hi = 0;
      for (auto &q : l->part) { Dom s = domAnd(q.second, d); if (!s) continue; n += domIvs(s).size(); if (n > 400) return bad(); I val = (I)q.first; if (first) { r = num(val); lo = hi = val; } else { r = z3::ite(in(x, s), num(val), r); lo = std::min(lo, val); hi = std::max(hi, val); } first = false; }
      if (first) return {c.int_val(0), 0, 0}; return {r, lo, hi}; }
    case BITS: { z3::expr_vector v(c); I lo = 0, hi = 0; unsigned pos = 0; z3::expr s(c); bool first = true;
      for (auto &q : *e->p) { if (q.src) { T t = slice(q.src, q.lo, q.len); z3::expr x = pos ? num(p2(pos)) * t.e : t.e; s = first ? x : s + x; first = false; lo += t.lo * p2(pos); hi += t.hi * p2(pos); } else if (q.c) { I k = (I)q.c * p2(pos); s = first ? num(k) : s + num(k); first = false; lo += k; hi += k; } pos += q.len; }
      if (first) s = c.int_val(0); return {s, lo, hi}; }
    case ADD: { T a = term(e->k[0]), b = term(e->k[1]); if (isC(e->k[1]) && b.lo >= p2(w - 1)) { b.e = num(b.lo - p2(w)); b.lo = b.hi = b.lo - p2(w); } return fit(a.e + b.e, a.lo + b.lo, a.hi + b.hi, w); }
    case SUB: { T a = term(e->k[0]), b = term(e->k[1]); return fit(a.e - b.e, a.lo - b.hi, a.hi - b.lo, w); }
    case MUL: { T a = term(e->k[0]), b = term(e->k[1]); if (!isC(e->k[1])) std::swap(a, b); if (!isC(e->k[1]) && !isC(e->k[0])) return bad(); if (b.lo >= p2(60) || a.hi >= p2(60)) return bad(); return fit(b.e * a.e, a.lo * b.lo, a.hi * b.hi, w); }
    case UDIV: case UREM: {
      if (isC(e->k[1])) { if (!e->k[1]->c || e->k[1]->c >= ((u128)1 << 62)) return bad(); auto p = divmod(e->k[0], (u64)e->k[1]->c); return e->op == UDIV ? *p.first : *p.second; }
      if (e->op == UREM) return bad();
      T a = term(e->k[0]), b = term(e->k[1]); if (b.lo <= 0) return bad(); I qh = a.hi / b.lo; I ql = a.lo / b.hi;
      if (isUnary(e)) { vector<pair<u64, Dom>> part; if (valuePart(e, dom(e->var), 2000, part) && part.size()) { ql = qh = (I)part[0].first; for (auto &p : part) { ql = std::min(ql, (I)p.first); qh = std::max(qh, (I)p.first); } } }
      if (qh - ql > 1000) return bad();
      z3::expr q = nv(ql, qh); z3::expr_vector o(c); for (I v = ql; v <= qh; v++) o.push_back(q == num(v) && num(v) * b.e <= a.e && a.e < num(v + 1) * b.e); side.push_back(z3::mk_or(o)); return {q, ql, qh}; }
    case ITE: { T a = term(e->k[1]), b = term(e->k[2]); return {z3::ite(boolean(e->k[0]), a.e, b.e), std::min(a.lo, b.lo), std::max(a.hi, b.hi)}; }
    case SEXT: { T a = term(e->k[0]); unsigned n = e->k[0]->w; if (a.hi < p2(n - 1)) return a; if (a.lo >= p2(n - 1)) return {a.e + num(p2(w) - p2(n)), a.lo + p2(w) - p2(n), a.hi + p2(w) - p2(n)}; return {z3::ite(a.e >= num(p2(n - 1)), a.e + num(p2(w) - p2(n)), a.e), 0, p2(w) - 1}; }
    default: return bad(); } }
  z3::expr boolean(E e) { auto it = bmemo.find(e); if (it != bmemo.end()) return *it->second; z3::expr r = mkb(e); bmemo[e] = new z3::expr(r); return r; }
  z3::expr mkb(E e) {
    if (!ok) return c.bool_val(true);
    if (isC(e)) return c.bool_val((bool)e->c);
    switch (e->op) {
    case NOT: return !boolean(e->k[0]);
    case AND: return boolean(e->k[0]) && boolean(e->k[1]);
    case OR: return boolean(e->k[0]) || boolean(e->k[1]);
    case XOR: return boolean(e->k[0]) != boolean(e->k[1]);
    case ITE: return z3::ite(boolean(e->k[0]), boolean(e->k[1]), boolean(e->k[2]));
    case EQ: { if (e->k[0]->w == 1) return boolean(e->k[0]) == boolean(e->k[1]); T a = term(e->k[0]), b = term(e->k[1]); return a.e == b.e; }
    case ULT: { T a = term(e->k[0]), b = term(e->k[1]); return a.e < b.e; }
    case SLT: { unsigned w = e->k[0]->w; auto sg = [&](T t) { if (t.hi < p2(w - 1)) return t.e; if (t.lo >= p2(w - 1)) return t.e - num(p2(w)); return z3::ite(t.e >= num(p2(w - 1)), t.e - num(p2(w)), t.e); }; T a = term(e->k[0]), b = term(e->k[1]); return sg(a) < sg(b); }
    default: { if (e->w != 1) { ok = false; return c.bool_val(true); } if (e->op == BITS) { auto &q = (*e->p)[0]; T t = slice(q.src, q.lo, q.len); return t.e == 1; } if (e->op == VAR || e->op == LUT) { ok = false; } else ok = false; return c.bool_val(true); } } }
};
static bool trivialCut(E e, E cut) { // "cut op const"
  return (e->op == EQ || e->op == ULT) && ((e->k[0] == cut && isC(e->k[1])) || (e->k[1] == cut && isC(e->k[0]))); }
static void certify(E e, E cut, const vector<u64> *vals, Dom set, Dom within) {
  if (trivialCut(e, cut)) return;
  Z &z = Zc(); z3::context &c = z.c; Tr T(c);
  z3::expr w = c.bv_const("w", cut->w); T.leaves[cut] = T.mk(w); if (cut->op == VAR) T.memo[cut] = T.mk(w);
  if (!vals && cut->op == VAR) { // tables: only the rows the domain reaches
    std::map<int, std::set<E>> lv; std::unordered_set<E> seen; leavesOf(e, lv, seen);
    for (E q : lv[cut->var]) if (q->op == LUT && q->k[0] == cut) { bool first = true; z3::expr r(c); LutT *l = g_luts[q->lut];
      for (auto &pt : l->part) { Dom d = domAnd(pt.second, within); if (!d) continue; r = first ? bvc(c, pt.first, q->w) : z3::ite(inDom(c, w, d, cut->w), bvc(c, pt.first, q->w), r); first = false; }
      if (!first) T.leaves[q] = T.mk(r); } }
  z3::expr f = T.tr(e) == c.bv_val(1, 1);
  auto ask = [&](Dom in, unsigned ms, bool oneShot) {
    double t1 = now(); z3::solver o = oneShot ? z3::tactic(c, "qfbv").mk_solver() : z.s; z3::params p(c); p.set("timeout", ms); o.set(p); if (!oneShot) o.push();
    if (vals) { LutT *l = g_luts[cut->lut]; z3::expr_vector a(c), b(c); for (auto &p : l->part) a.push_back(w == bvc(c, p.first, cut->w)); for (u64 v : *vals) b.push_back(w == bvc(c, v, cut->w)); o.add(z3::mk_or(a)); o.add(f != z3::mk_or(b)); }
    else { Dom t = domAnd(set, in); o.add(inDom(c, w, in, cut->w)); o.add(f != (t == in ? c.bool_val(true) : t ? inDom(c, w, t, cut->w) : c.bool_val(false))); }
    auto r = o.check(); if (!oneShot) { o.pop(); p.set("timeout", 60000u); o.set(p); } g_st.z3_time += now() - t1; g_st.z3_queries++; g_st.z3_cert++;
    if (slowDbg() && now() - t1 > slowT()) fprintf(stderr, "slow certificate %.1fs %d: %s\n", now() - t1, oneShot, show(e).c_str());
    if (r == z3::unsat) g_st.z3_unsat++;
    if (r == z3::sat) fatal("z3 refutes a domain split: %s", show(e).c_str());
    return r == z3::unsat; };
  auto askLia = [&](Dom in, unsigned ms) { // is f what `set` says everywhere in `in`?
    std::map<int, Dom> dm; dm[cut->var] = in; Lia L(c, dm); z3::expr g = L.boolean(e); z3::expr x = L.var(cut->var); if (!L.ok) return false;
    double t1 = now(); z3::solver o = z3::tactic(c, "qflia").mk_solver(); z3::params p(c); p.set("timeout", ms); o.set(p); for (auto a : L.side) o.add(a);
    Dom t = domAnd(set, in); o.add(g != (t == in ? c.bool_val(true) : t ? L.in(x, t) : c.bool_val(false)));
    auto r = o.check(); g_st.z3_time += now() - t1; g_st.z3_queries++; g_st.z3_cert++;
    if (slowDbg() && now() - t1 > slowT()) fprintf(stderr, "slow integer certificate %.1fs %d: %s\n", now() - t1, (int)r, show(e).c_str());
    if (r == z3::unsat) g_st.z3_unsat++;
    if (r == z3::sat) fatal("z3 refutes a domain split (integers): %s", show(e).c_str());
    return r == z3::unsat; };
  if (!vals && cut->op == VAR && (heavy(e) || domSize(within) > 2000 && hasMul(e)) && askLia(within, 10000)) return;
  if (vals) { if (!ask(0, 3000, false) && !ask(0, 60000, true)) fatal("z3 does not confirm a domain split: %s", show(e).c_str()); return; }
  if (!heavy(e) && ask(within, 1000, false)) return;
  if (ask(within, 20000, true)) return;
  // too hard in one query: case split on the value range
  std::function<void(Dom, u64)> rec = [&](Dom d, u64 size) {
    vector<Dom> parts; Ivs cur; u64 n = 0;
    for (auto iv : domIvs(d)) { u64 a = iv.first; while (a <= iv.second) { u64 b = std::min<u64>(iv.second, a + (size - n) - 1); cur.push_back({(u32)a, (u32)b}); n += b - a + 1; a = b + 1; if (n == size) { parts.push_back(domIntern(std::move(cur))); cur.clear(); n = 0; } } }
    if (n) parts.push_back(domIntern(std::move(cur)));
    for (Dom q : parts) if (!ask(q, size <= 16 ? 60000 : 4000, true)) { if (size <= 16) fatal("z3 does not confirm a domain split: %s", show(e).c_str()); rec(q, size / 16); } };
  rec(within, 256);
}
static std::unordered_map<std::string, Res> chkC;
static void leavesOf(E e, std::map<int, std::set<E>> &m, std::unordered_set<E> &seen) {
  if (e->var == -1 || !seen.insert(e).second) return;
  if (e->op == VAR) { m[e->var].insert(e); return; }
  if (e->op == LUT) { m[e->var].insert(e); return; }
  for (int i = 0; i < 3; i++) if (e->k[i]) leavesOf(e->k[i], m, seen); if (e->p) for (auto &q : *e->p) if (q.src) leavesOf(q.src, m, seen);
}
Res z3Check(const vector<E> &cs, const vector<Dom> &dm, std::map<int, u64> *model) {
  std::map<int, std::set<E>> lv; std::unordered_set<E> seen; for (E e : cs) leavesOf(e, lv, seen);
  std::string key;
  if (!model) { vector<u32> ids; for (E e : cs) ids.push_back(e->id); std::sort(ids.begin(), ids.end()); ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
    for (u32 i : ids) key.append((char *)&i, 4); key += '|'; for (auto &p : lv) { u32 d = dm[p.first]; key.append((char *)&d, 4); }
    auto it = chkC.find(key); if (it != chkC.end()) return it->second; }
  double t0 = now(); Z &z = Zc(); z3::context &c = z.c;
  { bool hv = false; for (E e : cs) hv = hv || heavy(e);
    if (hv) { std::map<int, Dom> d2; for (auto &p : lv) if (g_vars[p.first].dense) d2[p.first] = dm[p.first]; Lia L(c, d2); z3::expr_vector fs(c); for (E e : cs) fs.push_back(L.boolean(e)); if (L.ok) for (auto &p : lv) if (g_vars[p.first].dense) L.var(p.first);
      if (L.ok) { z3::solver o = z3::tactic(c, "qflia").mk_solver(); z3::params p(c); p.set("timeout", 20000u); o.set(p); for (auto a : L.side) o.add(a); for (auto a : fs) o.add(a);
        auto r = o.check(); if (slowDbg() && now() - t0 > slowT()) { fprintf(stderr, "slow integer query %.1fs %d:\n", now() - t0, (int)r); for (E e : cs) fprintf(stderr, "   %s\n", show(e).c_str()); }
        if (r != z3::unknown) { Res res = r == z3::sat ? SAT : UNSAT; g_st.z3_queries++; if (res == UNSAT) g_st.z3_unsat++; else g_st.z3_sat++; g_st.z3_time += now() - t0;
          if (res == SAT && model) { z3::model m = o.get_model(); for (auto &p : L.vars) (*model)[p.first] = m.eval(*p.second, true).get_numeral_uint64(); }
          if (!model) chkC[key] = res; return res; } }
      else if (slowDbg()) { fprintf(stderr, "not linear:\n"); for (E e : cs) fprintf(stderr, "   %s\n", show(e, 12).c_str()); } } }
  Tr T(c); z.s.push();
  std::map<int, vector<E>> how;
  for (auto &p : lv) { int v = p.first; unsigned bits = g_vars[v].bits; 
    if (!g_vars[v].dense) continue;
    bool hasVar = false; for (E e : p.second) if (e->op == VAR) hasVar = true;
    vector<E> ls(p.second.begin(), p.second.end());
    if (hasVar || ls.size() > 2) { // raw variable; tables restricted to the domain
      z3::expr x = c.bv_const(("v" + std::to_string(v)).c_str(), bits); z.s.add(inDom(c, x, dm[v], bits));
      for (E e : ls) if (e->op == LUT) { LutT *l = g_luts[e->lut]; bool first = true; z3::expr r(c); for (auto &q : l->part) { Dom d = domAnd(q.second, dm[v]); if (!d) continue; if (first) r = bvc(c, q.first, e->w); else r = z3::ite(inDom(c, x, d, bits), bvc(c, q.first, e->w), r); first = false; } if (first) r = c.bv_val(0, e->w); T.leaves[e] = T.mk(r); }
    } else if (ls.size() == 1) { E e = ls[0]; z3::expr x = c.bv_const(("l" + std::to_string(e->id)).c_str(), e->w); T.leaves[e] = T.mk(x); z3::expr_vector o(c); for (auto &q : g_luts[e->lut]->part) if (domAnd(q.second, dm[v])) o.push_back(x == bvc(c, q.first, e->w)); z.s.add(z3::mk_or(o)); how[v] = ls; }
    else { E e = ls[0], f = ls[1]; z3::expr x = c.bv_const(("l" + std::to_string(e->id)).c_str(), e->w), y = c.bv_const(("l" + std::to_string(f->id)).c_str(), f->w); T.leaves[e] = T.mk(x); T.leaves[f] = T.mk(y); z3::expr_vector o(c);
      for (auto &q : g_luts[e->lut]->part) { Dom d = domAnd(q.second, dm[v]); if (!d) continue; z3::expr_vector o2(c); for (auto &r : g_luts[f->lut]->part) if (domAnd(d, r.second)) o2.push_back(y == bvc(c, r.first, f->w)); o.push_back(x == bvc(c, q.first, e->w) && z3::mk_or(o2)); } z.s.add(z3::mk_or(o)); how[v] = ls; }
  }
  for (E e : cs) z.s.add(T.tr(e) == c.bv_val(1, 1));
  bool hv = false; for (E e : cs) hv = hv || heavy(e);
  z3::solver one = z3::tactic(c, "qfbv").mk_solver(); z3::params p(c); p.set("timeout", 60000u); one.set(p);
  z3::check_result r = z3::unknown; bool useOne = hv;
  if (!hv) { z3::params q(c); q.set("timeout", 1500u); z.s.set(q); r = z.s.check(); }
  if (r == z3::unknown) { useOne = true; for (auto a : z.s.assertions()) one.add(a); r = one.check(); }
  if (slowDbg() && now() - t0 > slowT()) { fprintf(stderr, "slow query %.1fs:\n", now() - t0); for (E e : cs) fprintf(stderr, "   %s\n", show(e).c_str()); }
  Res res = r == z3::sat ? SAT : r == z3::unsat ? UNSAT : UNKNOWN; g_st.z3_queries++; if (res == UNSAT) g_st.z3_unsat++; if (res == SAT) g_st.z3_sat++;
  if (res == SAT && model) { z3::model m = useOne ? one.get_model() : z.s.get_model();
    for (auto &p : lv) { int v = p.first; auto h = how.find(v); if (h == how.end()) { z3::expr x = c.bv_const(("v" + std::to_string(v)).c_str(), g_vars[v].bits); (*model)[v] = m.eval(x, true).get_numeral_uint64(); continue; }
      Dom d = dm[v]; for (E e : h->second) { u64 val = m.eval(*T.leaves[e], true).get_numeral_uint64(); LutT *l = g_luts[e->lut]; Dom pre = 0; auto ii = l->index.find(val); if (ii != l->index.end()) pre = l->part[ii->second].second; d = domAnd(d, pre); } if (!d) { d = dm[v]; } (*model)[v] = domIvs(d)[0].first; } }
  z.s.pop(); g_st.z3_time += now() - t0;
  if (!model) chkC[key] = res; return res;
}
