// rsym: symbolic execution of LLVM IR emitted by rustc. See DESIGN.md.
#include "prog.h"
#include <deque>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <chrono>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <signal.h>
#include <atomic>
using std::vector; using std::string; using std::pair;
void ensureConv(Func *f);
static Prog P;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ---- memory objects ---------------------------------------------------------------------------
struct SymByte { E e; u32 ix; };
struct Obj { int rc; u32 size; u8 *data; SymByte *sym; };
static Obj *objNew(u32 size) { Obj *o = (Obj *)malloc(sizeof(Obj) + size); o->rc = 1; o->size = size; o->data = (u8 *)(o + 1); o->sym = nullptr; memset(o->data, 0, size); return o; }
static void objDrop(Obj *o) { if (o && --o->rc == 0) { free(o->sym); free(o); } }
static Obj *objClone(Obj *o) { Obj *n = (Obj *)malloc(sizeof(Obj) + o->size); n->rc = 1; n->size = o->size; n->data = (u8 *)(n + 1); memcpy(n->data, o->data, o->size); n->sym = nullptr; if (o->sym) { n->sym = (SymByte *)malloc(sizeof(SymByte) * o->size); memcpy(n->sym, o->sym, sizeof(SymByte) * o->size); } return n; }
static const u32 HEAP0 = 0x40000000u, STK0 = 0x60000000u; // object id ranges
struct Frame { Func *f; u32 pc, base, stk; int ret; u16 nret; };
struct Input { int var; u64 val; };
struct State {
  vector<Frame> fr; vector<Val> regs; vector<Obj *> stk, heap; std::map<u32, Obj *> gov; vector<Dom> dom; vector<u8> inRel; vector<E> rel; vector<Input> in;
  u64 icount = 0; int nsym = 0; bool expectPanic = false, weak = false; vector<u32> notes; string known; u32 nchk = 0; u32 cov = 0;
  State() {}
  State(const State &o) : fr(o.fr), regs(o.regs), stk(o.stk), heap(o.heap), gov(o.gov), dom(o.dom), inRel(o.inRel), rel(o.rel), in(o.in), icount(o.icount), nsym(o.nsym), expectPanic(o.expectPanic), weak(o.weak), notes(o.notes), known(o.known), nchk(o.nchk), cov(o.cov) { for (auto x : stk) if (x) x->rc++; for (auto x : heap) if (x) x->rc++; for (auto &x : gov) x.second->rc++; }
  ~State() { for (auto x : stk) objDrop(x); for (auto x : heap) objDrop(x); for (auto &x : gov) objDrop(x.second); }
};
// ---- run results --------------------------------------------------------------------------------
struct Violation { string kind, msg; vector<u64> in; vector<string> stack; };
struct Sample { vector<u64> in; u64 nchk, cov, pan; };
struct Result { vector<Sample> samples; u64 seen = 0; u64 paths = 0, panicsExpected = 0, infeasible = 0, forks = 0, instrs = 0, asserts = 0, assertsSym = 0, solverBranches = 0, domBranches = 0; double volume = 0, dropped = 0; bool relVolume = false; vector<Violation> viol; std::map<string, vector<u64>> known; std::set<u32> covers; string unknown; std::map<u32,u64> notes; };
static Result R;
struct Shared { std::atomic<u32> next; std::atomic<u32> stop; std::atomic<u32> idle; };
static Shared *shm;
static u64 g_seed = 1; static size_t g_nsamples = 0;
static u64 g_pathLimit = 200000000ull; static double g_deadline = 1e300; static size_t g_maxViol = 3;
struct LeafCtx { vector<pair<State *, vector<Val>>> leaves; bool fail = false; };
static LeafCtx *leafCtx = nullptr;

// ---- variables -----------------------------------------------------------------------------------
static std::map<pair<int, int>, int> varIds;
static int varFor(int pos, int bits, bool dense) { auto k = std::make_pair(pos, bits + (dense ? 0 : 1000)); auto it = varIds.find(k); if (it != varIds.end()) return it->second; int id = g_vars.size(); g_vars.push_back({(u16)bits, dense}); varIds[k] = id; return id; }
static Dom scalarDom() { static Dom d = 0; if (!d) { Ivs v; v.push_back({0, 0xD7FF}); v.push_back({0xE000, 0x10FFFF}); d = domIntern(std::move(v)); } return d; }
static E newVar(State &s, int bits, Dom d, bool dense) { int id = varFor(s.nsym++, bits, dense); if ((int)s.dom.size() <= id) { s.dom.resize(id + 1, 0); s.inRel.resize(id + 1, 0); } s.dom[id] = d; s.in.push_back({id, 0}); return mkVar(id, bits); }

// ---- feasibility -----------------------------------------------------------------------------------
static vector<E> component(State &s, vector<int> vars) {
  vector<E> out; if (s.rel.empty()) return out; std::set<int> vs(vars.begin(), vars.end()); vector<char> in(s.rel.size(), 0); bool ch = true; static std::unordered_map<E, vector<int>> vc;
  while (ch) { ch = false; for (size_t i = 0; i < s.rel.size(); i++) if (!in[i]) { auto it = vc.find(s.rel[i]); if (it == vc.end()) { vector<int> v; collectVars(s.rel[i], v); it = vc.emplace(s.rel[i], v).first; } bool hit = false; for (int v : it->second) if (vs.count(v)) { hit = true; break; } if (hit) { in[i] = 1; ch = true; for (int v : it->second) vs.insert(v); } } }
  for (size_t i = 0; i < s.rel.size(); i++) if (in[i]) out.push_back(s.rel[i]);
  return out; }
static Res feasible(State &s, const vector<int> &vars, E extra) { vector<E> c = component(s, vars); if (extra) c.push_back(extra); if (c.empty()) return SAT; return z3Check(c, s.dom, nullptr); }
static void addRel(State &s, E e) { s.rel.push_back(e); vector<int> v; collectVars(e, v); for (int x : v) { if ((int)s.inRel.size() <= x) s.inRel.resize(x + 1, 0); s.inRel[x] = 1; } }
static E findIte(E e, std::unordered_set<E> &seen) { if (e->var == -1 || !seen.insert(e).second) return nullptr; if (e->op == ITE) return e->k[0]; if (e->var >= 0) return nullptr; for (int i = 0; i < 3; i++) if (e->k[i]) if (E r = findIte(e->k[i], seen)) return r; if (e->p) for (auto &q : *e->p) if (q.src) if (E r = findIte(q.src, seen)) return r; return nullptr; }
static E substIte(E e, E cond, bool v, std::unordered_map<E, E> &memo) {
  if (e->var == -1) return e; auto it = memo.find(e); if (it != memo.end()) return it->second; E r;
  auto K = [&](int i) { return substIte(e->k[i], cond, v, memo); };
  if (e == cond) r = mkConst(v, 1);
  else switch (e->op) { case CONST: case VAR: case LUT: r = e; break; case ITE: { if (e->k[0] == cond) r = v ? K(1) : K(2); else r = mkIte(K(0), K(1), K(2)); break; } case NOT: r = mkNot(K(0)); break; case SEXT: r = mkSext(K(0), e->w); break;
    case BITS: { vector<E> ps; for (auto &q : *e->p) ps.push_back(q.src ? mkExtract(substIte(q.src, cond, v, memo), q.lo, q.len) : mkConst(q.c, q.len)); r = mkConcat(ps); break; }
    default: r = mkBin(e->op, K(0), K(1)); }
  memo[e] = r; return r; }

// Splits s by cond; every resulting state is feasible. s is consumed (may be one of the results).
static void splitAll(State *s, E c, vector<pair<State *, bool>> &out) {
  if (isC(c)) { out.push_back({s, (bool)c->c}); return; }
  if (c->op == NOT) { size_t n = out.size(); splitAll(s, c->k[0], out); for (; n < out.size(); n++) out[n].second = !out[n].second; return; }
  if (isUnary(c)) {
    auto p = condSplit(s->dom[c->var], c);
    if (p.first != (Dom)-1) { R.domBranches++;
      if (!p.second) { out.push_back({s, true}); return; } if (!p.first) { out.push_back({s, false}); return; }
      int v = c->var; bool ft = true, ff = true;
      if (s->inRel[v]) { Dom o = s->dom[v]; R.solverBranches++; s->dom[v] = p.first; ft = feasible(*s, {v}, nullptr) != UNSAT; s->dom[v] = p.second; ff = !ft || feasible(*s, {v}, nullptr) != UNSAT; s->dom[v] = o; }
      if (ft && ff) { R.forks++; State *t = new State(*s); t->dom[v] = p.second; s->dom[v] = p.first; out.push_back({s, true}); out.push_back({t, false}); }
      else { s->dom[v] = ft ? p.first : p.second; out.push_back({s, ft}); }
      return; } }
  if (c->w == 1 && (c->op == AND || c->op == OR || c->op == XOR || c->op == EQ || c->op == ITE) && (c->op == ITE || c->k[0]->w == 1)) {
    vector<pair<State *, bool>> a; splitAll(s, c->k[0], a);
    for (auto &x : a) {
      if (c->op == AND) { if (!x.second) out.push_back(x); else splitAll(x.first, c->k[1], out); }
      else if (c->op == OR) { if (x.second) out.push_back(x); else splitAll(x.first, c->k[1], out); }
      else if (c->op == ITE) splitAll(x.first, x.second ? c->k[1] : c->k[2], out);
      else { size_t n = out.size(); splitAll(x.first, c->k[1], out); for (; n < out.size(); n++) out[n].second = c->op == XOR ? x.second != out[n].second : x.second == out[n].second; } }
    return; }
  { std::unordered_set<E> seen; if (E ic = findIte(c, seen)) { vector<pair<State *, bool>> a; splitAll(s, ic, a); for (auto &x : a) { std::unordered_map<E, E> memo; splitAll(x.first, substIte(c, ic, x.second, memo), out); } return; } }
  vector<int> vars; collectVars(c, vars); R.solverBranches++;
  Res t = feasible(*s, vars, c), f = t == UNSAT ? SAT : feasible(*s, vars, mkNot(c));
  if (t == UNKNOWN || f == UNKNOWN) s->weak = true;
  if (t != UNSAT && f != UNSAT) { R.forks++; State *o = new State(*s); addRel(*s, c); addRel(*o, mkNot(c)); out.push_back({s, true}); out.push_back({o, false}); }
  else if (t != UNSAT) out.push_back({s, true}); else out.push_back({s, false});
}
static bool model(State &s, vector<u64> &vals) {
  std::map<int, u64> m; if (!s.rel.empty()) { if (z3Check(s.rel, s.dom, &m) != SAT) return false; }
  for (auto &i : s.in) { if (i.var < 0) { vals.push_back(i.val); continue; } auto it = m.find(i.var); if (it != m.end()) vals.push_back(it->second); else if (g_vars[i.var].dense) { // prefer a readable representative
        const Ivs &iv = domIvs(s.dom[i.var]); u64 v = iv[0].first; for (auto &q : iv) if (q.second >= 0x61) { v = std::max<u32>(q.first, 0x61); if (v > q.second) v = q.first; break; } vals.push_back(v); } else vals.push_back(0); }
  return true; }
static void report(State &s, const string &kind, const string &msg) {
  if (leafCtx) { leafCtx->fail = true; return; }
  if (R.viol.size() >= g_maxViol) { shm->stop = 1; return; }
  Violation v; v.kind = kind; v.msg = msg; if (!model(s, v.in)) { R.unknown = "no model for " + kind + ": " + msg; return; }
  for (auto &f : s.fr) v.stack.push_back(f.f->dem);
  if (s.known.size()) { if (!R.known.count(s.known)) R.known[s.known] = v.in; return; }
  for (auto &o : R.viol) if (o.kind == v.kind && o.msg == v.msg) return;
  R.viol.push_back(v); if (R.viol.size() >= g_maxViol) shm->stop = 1; }
static double volume(State &s) { double v = 1; for (auto &i : s.in) if (i.var >= 0 && g_vars[i.var].dense) v *= domSize(s.dom[i.var]); return v; }

// ---- interpreter --------------------------------------------------------------------------------------
struct Interp {
  State *s; Frame *f; Val *rg; const Val *pool; vector<State *> *work; bool dead = false;
  vector<pair<State *, bool>> sp;
  Interp(State *st, vector<State *> *w) : s(st), work(w) { sync(); }
  void sync() { pool = P.pool.data(); if (s->fr.size()) { f = &s->fr.back(); rg = s->regs.data() + f->base; } }
  inline const Val &V(int o) { return o >= 0 ? rg[o] : pool[~o]; }
  static E ex(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.v, w); }
  static Val mkv(E e) { if (isC(e) && e->w <= 64) return {(u64)e->c, nullptr}; return {0, e}; }
  void kill() { delete s; s = nullptr; dead = true; }
  Obj **objSlot(u64 a) { u32 id = a >> 32; if (id >= STK0) { u32 i = id - STK0; return i < s->stk.size() && s->stk[i] ? &s->stk[i] : nullptr; } if (id >= HEAP0) { u32 i = id - HEAP0; return i < s->heap.size() && s->heap[i] ? &s->heap[i] : nullptr; } return nullptr; }
  // read-only view
  bool view(u64 a, u64 n, const u8 *&d, const SymByte *&sy) { u32 off = (u32)a; u32 id = a >> 32; 
    if (id >= HEAP0) { Obj **o = objSlot(a); if (!o || off + n > (*o)->size) return false; d = (*o)->data + off; sy = (*o)->sym ? (*o)->sym + off : nullptr; return true; }
    if (id == 0 || id >= P.globals.size()) return false; Global *g = P.globals[id]; if (g->fn || (u64)off + n > g->size) return false; if (!g->ro) { auto it = s->gov.find(id); if (it != s->gov.end()) { d = it->second->data + off; sy = it->second->sym ? it->second->sym + off : nullptr; return true; } } d = g->data.data() + off; sy = nullptr; return true; }
  Obj *writable(u64 a, u64 n) { u32 off = (u32)a; u32 id = a >> 32; Obj **o;
    if (id >= HEAP0) { o = objSlot(a); if (!o || (u64)off + n > (*o)->size) return nullptr; }
    else { if (id == 0 || id >= P.globals.size()) return nullptr; Global *g = P.globals[id]; if (g->fn || g->ro || (u64)off + n > g->size) return nullptr; if (leafCtx) leafCtx->fail = true; auto it = s->gov.find(id); if (it == s->gov.end()) { Obj *n2 = objNew(g->size); memcpy(n2->data, g->data.data(), g->size); it = s->gov.emplace(id, n2).first; } o = &it->second; }
    if ((*o)->rc > 1) { Obj *c = objClone(*o); (*o)->rc--; *o = c; } return *o; }
  Val readv(const u8 *d, const SymByte *sy, unsigned w) { unsigned n = (w + 7) / 8;
    if (sy) { bool any = false; for (unsigned i = 0; i < n; i++) if (sy[i].e) { any = true; break; }
      if (any) { E e0 = sy[0].e; if (e0 && e0->w == w && n * 8 == w) { bool whole = true; for (unsigned i = 0; i < n; i++) if (sy[i].e != e0 || sy[i].ix != i) { whole = false; break; } if (whole) return mkv(e0); }
        vector<E> b; for (unsigned i = 0; i < n; i++) { if (!sy[i].e) b.push_back(mkConst(d[i], 8)); else { E e = sy[i].e; unsigned lo = sy[i].ix * 8, len = std::min(8u, e->w - lo); E x = mkExtract(e, lo, len); b.push_back(len < 8 ? mkZext(x, 8) : x); } }
        E r = mkConcat(b); if (r->w > w) r = mkExtract(r, 0, w); return mkv(r); } }
    if (w > 64) { u128 v = 0; memcpy(&v, d, n); return mkv(mkConst(v, w)); }
    u64 v = 0; memcpy(&v, d, n); return {v & (u64)maskw(w), nullptr}; }
  void writev(Obj *o, u32 off, const Val &v, unsigned w) { unsigned n = (w + 7) / 8;
    if (!v.e) { memcpy(o->data + off, &v.v, n); if (o->sym) memset(o->sym + off, 0, n * sizeof(SymByte)); return; }
    if (isC(v.e)) { u128 c = v.e->c; memcpy(o->data + off, &c, n); if (o->sym) memset(o->sym + off, 0, n * sizeof(SymByte)); return; }
    if (!o->sym) { o->sym = (SymByte *)calloc(o->size, sizeof(SymByte)); }
    E e = v.e; if (w % 8) e = mkZext(e, n * 8);
    for (unsigned i = 0; i < n; i++) { o->sym[off + i] = {e, i}; }
    if (e->op == BITS) for (unsigned i = 0; i < n; i++) { E b = mkExtract(e, i * 8, 8); if (isC(b)) { o->sym[off + i] = {nullptr, 0}; o->data[off + i] = (u8)b->c; } } }
  void die(const string &kind, const string &msg) { if (s->expectPanic && kind == "panic") { R.panicsExpected++; done(1); return; } report(*s, kind, msg); R.paths++; account(); kill(); }
  void account() { R.instrs += s->icount; s->icount = 0; if (!leafCtx) { if (s->rel.empty()) R.volume += volume(*s); else R.relVolume = true; } }
  void sample(u64 pan) { if (leafCtx || !g_nsamples || s->known.size()) return; R.seen++; size_t slot = R.samples.size(); if (slot >= g_nsamples) { g_seed = g_seed * 6364136223846793005ull + 1442695040888963407ull; u64 r = (g_seed >> 20) % R.seen; if (r >= g_nsamples) return; slot = r; } Sample x; x.nchk = s->nchk; x.cov = s->cov; x.pan = pan; if (!model(*s, x.in)) return; if (slot == R.samples.size()) R.samples.push_back(x); else R.samples[slot] = x; }
  void done(u64 pan = 0) { sample(pan); R.paths++; account(); if (s->weak) R.unknown = "solver returned unknown on a branch"; kill(); }
  void memErr(const char *what, u64 a, u64 n) { char b[128]; snprintf(b, 128, "%s of %llu byte(s) outside any live object (address %llx)", what, (unsigned long long)n, (unsigned long long)a); die("memory", b); }
  // make operand concrete; returns false if the state ended. Forks over all feasible values.
  bool conc(int o, unsigned w, u64 &out, size_t limit = 20000) {
    const Val &v = V(o); if (!v.e) { out = v.v; return true; }
    E e = v.e; if (isC(e)) { out = (u64)e->c; return true; }
    if (isUnary(e) && e->w <= 64) {
      vector<pair<u64, Dom>> part; if (valuePart(e, s->dom[e->var], limit, part)) {
        int var = e->var; if (part.size() > 1 && s->inRel[var]) { Dom o = s->dom[var]; size_t n = 0; for (auto &p : part) { s->dom[var] = p.second; R.solverBranches++; if (feasible(*s, {var}, nullptr) != UNSAT) part[n++] = p; } part.resize(n); s->dom[var] = o; if (!n) { kill(); return false; } }
        for (size_t i = 1; i < part.size(); i++) { State *t = new State(*s); t->dom[var] = part[i].second; t->regs[f->base + o] = {part[i].first, nullptr}; work->push_back(t); R.forks++; }
        s->dom[var] = part[0].second; s->regs[f->base + o] = {part[0].first, nullptr}; out = part[0].first; return true; } }
    // relational: enumerate by the solver
    vector<int> vars; collectVars(e, vars); vector<u64> vals; E block = mkTrue();
    while (vals.size() < 2000) { if (now() > g_deadline) { R.unknown = "time limit"; kill(); return false; } vector<E> c = component(*s, vars); E hole = e; std::map<int, u64> m; c.push_back(block); if (isC(block)) { // need e's variables in the query
        c.pop_back(); c.push_back(mkBin(OR, mkEq(hole, mkConst(0, e->w)), mkNot(mkEq(hole, mkConst(0, e->w))))); }
      if (isC(c.back())) { c.pop_back(); }
      R.solverBranches++; Res r = z3Check(c, s->dom, &m); if (r == UNKNOWN) { R.unknown = "solver unknown while enumerating"; break; } if (r == UNSAT) break;
      std::map<int, u32> mm; for (int v2 : vars) { auto it = m.find(v2); mm[v2] = it != m.end() ? (u32)it->second : domIvs(s->dom[v2])[0].first; }
      u64 val = evalAt(e, mm); vals.push_back(val); block = mkBin(AND, block, mkNot(mkEq(e, mkConst(val, e->w)))); if (isC(block)) break; }
    if (vals.size() >= 2000) { R.unknown = "too many values for a symbolic address or size in " + f->f->dem; kill(); return false; }
    if (vals.empty()) { kill(); return false; }
    for (size_t i = 1; i < vals.size(); i++) { State *t = new State(*s); addRel(*t, mkEq(e, mkConst(vals[i], e->w))); t->regs[t->fr.back().base + o] = {vals[i], nullptr}; work->push_back(t); R.forks++; }
    if (vals.size() > 1) addRel(*s, mkEq(e, mkConst(vals[0], e->w))); s->regs[f->base + o] = {vals[0], nullptr}; sync(); out = vals[0]; return true; }
  // contains a division by something symbolic
  static bool nonLinear(E e) { static std::unordered_map<E, bool> memo; if (e->op <= LUT) return false; auto it = memo.find(e); if (it != memo.end()) return it->second; bool r = (e->op == UDIV || e->op == UREM) && !isC(e->k[1]); for (int i = 0; i < 3 && !r; i++) if (e->k[i]) r = nonLinear(e->k[i]); if (e->p) for (auto &q : *e->p) if (!r && q.src) r = nonLinear(q.src); return memo[e] = r; }
  // compose table t with unary expression e
  static E compose(u32 t, E e0) { E e = canonical(e0); static std::unordered_map<u64, u32> memo; u64 k = (u64)t << 32 | e->id; auto it = memo.find(k); u32 id; int var = e0->var; unsigned bits = g_vars[var].bits;
    if (it != memo.end()) id = it->second; else { id = denseLut(e, bits, g_luts[t]->w, [&](u64 x, bool &ok) -> u64 { ok = true; return lutAt(t, (u32)std::min<u64>(x, 0xffffffffu)); }, nullptr, "compose"); memo[k] = id; }
    return mkLut(id, mkVar(var, bits)); }
  template <class F> static u32 denseLut(E e, unsigned bits, unsigned w, F fn, Dom *valid, const char *nm) {
    vector<pair<u64, Dom>> part; if (!valuePart(e, domFull(bits), 1u << 22, part)) fatal("denseLut"); std::map<u64, vector<Dom>> m; vector<Dom> bad;
    for (auto &p : part) { bool ok; u64 v = fn(p.first, ok); if (!ok) bad.push_back(p.second); else m[v].push_back(p.second); }
    LutT *l = new LutT(); l->w = w; l->bits = bits; l->name = nm; for (auto &p : m) l->part.push_back({p.first, domOrAll(p.second)}); if (valid) *valid = domSub(domFull(bits), domOrAll(bad)); return lutAdd(l); }
  // load through a symbolic address that stays inside constant globals
  bool tabLoad(E addr0, i64 imm, unsigned w, Val &out) { if (!isUnary(addr0)) return false; E addr = canonical(addr0); static std::unordered_map<string, pair<u32, Dom>> memo; char k[64]; snprintf(k, 64, "%u %lld %u", addr->id, (long long)imm, w); auto it = memo.find(k); int var = addr0->var; unsigned bits = g_vars[var].bits;
    if (it == memo.end()) { unsigned n = (w + 7) / 8; Dom valid; u32 id = denseLut(addr, bits, w, [&](u64 a, bool &ok) -> u64 { a += imm; u32 g = a >> 32; ok = false; if (g == 0 || g >= P.globals.size()) return 0; Global *G = P.globals[g]; if (G->fn || !G->ro || (u64)(u32)a + n > G->size) return 0; ok = true; u64 v = 0; memcpy(&v, &G->data[(u32)a], n); return v & (u64)maskw(w); }, &valid, "table"); it = memo.emplace(k, std::make_pair(id, valid)).first; }
    if (domSub(s->dom[var], it->second.second)) return false; vector<pair<u64, Dom>> pr; E l = mkLut(it->second.first, mkVar(var, bits)); if (valuePart(l, s->dom[var], 1, pr) && pr.size() == 1) out = {pr[0].first, nullptr}; else out = {0, l}; return true; }
  E canonVar(E e) { if (!isUnary(e)) return nullptr; int v = e->var; unsigned bits = g_vars[v].bits; E x = mkVar(v, bits); if (mkZext(x, e->w >= bits ? e->w : bits) == e) return x; if (e->w < bits) return nullptr; E q = mkEq(e, mkZext(x, e->w)); if (isC(q)) return q->c ? x : nullptr; if (!isUnary(q)) return nullptr; if (e->op != BITS) return nullptr; auto p = condSplit(s->dom[v], q); return p.first != (Dom)-1 && !p.second ? x : nullptr; }
  void jump(Frame &fr, State *st, u32 e) { Edge &g = fr.f->edges[e]; if (g.ce != g.cb) { Val *r = st->regs.data() + fr.base; static vector<Val> tmp; tmp.clear(); const Copy *c = fr.f->copies.data(); for (u32 i = g.cb; i < g.ce; i++) tmp.push_back(c[i].s >= 0 ? r[c[i].s] : pool[~c[i].s]); for (u32 i = g.cb; i < g.ce; i++) r[c[i].d] = tmp[i - g.cb]; } fr.pc = g.target; }
  void popStk(u32 n) { while (s->stk.size() > n) { objDrop(s->stk.back()); s->stk.pop_back(); } }
  void call(Func *fn, const CallInfo &ci) {
    fn->hits++; ensureConv(fn); pool = P.pool.data(); u32 base = f->base + f->f->nregs; if (s->regs.size() < base + fn->nregs) s->regs.resize(std::max<size_t>(base + fn->nregs, s->regs.size() * 2)); rg = s->regs.data() + f->base; Val *nr = s->regs.data() + base;
    if ((int)ci.args.size() != fn->nparams) { die("engine", "argument count mismatch calling " + fn->dem); return; }
    for (int i = 0; i < fn->nparams; i++) nr[i] = V(ci.args[i]); 
    Frame n; n.f = fn; n.pc = 0; n.base = base; n.stk = s->stk.size(); n.ret = ci.ret; n.nret = ci.retw.size(); s->fr.push_back(n); sync();
    if (s->fr.size() > 2000) die("stack", "call depth over 2000"); }
  string cstr(int po, int lo) { u64 p = V(po).v, n = V(lo).v; const u8 *d; const SymByte *sy; if (V(po).e || V(lo).e || n > 200 || !view(p, n, d, sy)) return "?"; return string((char *)d, n); }
  void run();
  bool builtin(Func *fn, CallInfo &ci);
  bool intrin(Ins &i);
  u64 allocHeap(u64 n) { Obj *o = objNew(n); s->heap.push_back(o); return (u64)(HEAP0 + s->heap.size() - 1) << 32; }
  bool copyMem(u64 d, u64 sr, u64 n) { if (!n) return true; const u8 *sd; const SymByte *sy; if (!view(sr, n, sd, sy)) { memErr("read", sr, n); return false; } if ((u32)(d >> 32) >= HEAP0 || (d >> 32) < P.globals.size()) {} Obj *o = writable(d, n); if (!o) { memErr("write", d, n); return false; } view(sr, n, sd, sy); u32 off = (u32)d; memmove(o->data + off, sd, n); if (sy || o->sym) { if (!o->sym) o->sym = (SymByte *)calloc(o->size, sizeof(SymByte)); view(sr, n, sd, sy); if (sy) memmove(o->sym + off, sy, n * sizeof(SymByte)); else memset(o->sym + off, 0, n * sizeof(SymByte)); } return true; }
  bool setMem(u64 d, const Val &v, u64 n) { if (!n) return true; Obj *o = writable(d, n); if (!o) { memErr("write", d, n); return false; } for (u64 i = 0; i < n; i++) writev(o, (u32)d + i, v, 8); return true; }
};
static void buildSummary(Func *fn);
static std::unordered_map<u32, Dom> g_refNames;
static std::map<u32, u32> g_refs; // reference table id -> lut

bool Interp::intrin(Ins &i) {
  vector<int> &L = f->f->lists.size() > i.x ? f->f->lists[i.x] : *(vector<int> *)nullptr; unsigned w = i.w;
  switch (i.sub) {
  case N_MEMCPY: case N_MEMSET: { u64 d, b, n; if (!conc(i.c, 64, n)) return false; if (!conc(i.a, 64, d)) return false; if (i.sub == N_MEMCPY) { if (!conc(i.b, 64, b)) return false; return copyMem(d, b, n); } return setMem(d, V(i.b), n); }
  case N_TRAP: die("panic", "trap"); return false;
  case N_REDUCE: { vector<E> e; for (int o : L) e.push_back(ex(V(o), w)); E all = mkConcat(e); for (int k = 0; k < i.imm; k++) rg[i.d + k] = mkv(mkExtract(all, k * i.w2, i.w2)); return true; }
  default: break; }
  if (w <= 64 && i.sub <= N_SMULO && !V(L[0]).e && !V(L[1]).e) { u64 x = V(L[0]).v, y = V(L[1]).v, m = (u64)maskw(w); bool o; u64 r;
    auto sg = [&](u64 v) { return (__int128)((i64)(v << (64 - w)) >> (64 - w)); };
    switch (i.sub) { case N_UADDO: { u128 t = (u128)x + y; r = (u64)t & m; o = t > m; break; } case N_USUBO: r = (x - y) & m; o = x < y; break; case N_UMULO: { u128 t = (u128)x * y; r = (u64)t & m; o = t > m; break; }
      default: { __int128 t = i.sub == N_SADDO ? sg(x) + sg(y) : i.sub == N_SSUBO ? sg(x) - sg(y) : sg(x) * sg(y); r = (u64)t & m; o = t != sg(r); } }
    rg[i.d] = {r, nullptr}; rg[i.d + 1] = {(u64)o, nullptr}; return true; }
  E a = ex(V(L[0]), w), b = L.size() > 1 ? ex(V(L[1]), w) : nullptr;
  auto set = [&](E x) { rg[i.d] = mkv(x); };
  E one = mkConst(1, w), zero = mkConst(0, w);
  switch (i.sub) {
  case N_UADDO: { E y = mkBin(ADD, a, b); set(y); rg[i.d + 1] = mkv(maxVal(a) + maxVal(b) <= maskw(w) && w < 128 ? mkConst(0, 1) : mkBin(ULT, y, a)); return true; }
  case N_USUBO: { E o = mkBin(ULT, a, b); E y = mkBin(SUB, a, b); set(y); rg[i.d + 1] = mkv(o); return true; }
  case N_UMULO: { E x = mkBin(MUL, mkZext(a, 2 * w), mkZext(b, 2 * w)); E o = mkNot(mkEq(mkExtract(x, w, w), zero)); E y = mkBin(MUL, a, b); set(y); rg[i.d + 1] = mkv(o); return true; }
  case N_SADDO: case N_SSUBO: { Op o = i.sub == N_SADDO ? ADD : SUB; E x = mkBin(o, mkSext(a, w + 1), mkSext(b, w + 1)); E y = mkBin(o, a, b); set(y); rg[i.d + 1] = mkv(mkNot(mkEq(x, mkSext(y, w + 1)))); return true; }
  case N_SMULO: { E x = mkBin(MUL, mkSext(a, 2 * w), mkSext(b, 2 * w)); E y = mkBin(MUL, a, b); set(y); rg[i.d + 1] = mkv(mkNot(mkEq(x, mkSext(y, 2 * w)))); return true; }
  case N_UMIN: set(mkIte(mkBin(ULT, a, b), a, b)); return true; case N_UMAX: set(mkIte(mkBin(ULT, a, b), b, a)); return true;
  case N_SMIN: set(mkIte(mkBin(SLT, a, b), a, b)); return true; case N_SMAX: set(mkIte(mkBin(SLT, a, b), b, a)); return true;
  case N_USUBSAT: set(mkIte(mkBin(ULT, a, b), zero, mkBin(SUB, a, b))); return true;
  case N_UADDSAT: { E y = mkBin(ADD, a, b); set(mkIte(mkBin(ULT, y, a), mkConst(maskw(w), w), y)); return true; }
  case N_CTPOP: { E r2 = zero; for (unsigned k = 0; k < w; k++) r2 = mkBin(ADD, r2, mkZext(mkExtract(a, k, 1), w)); set(r2); return true; }
  case N_CTLZ: { E r2 = mkConst(w, w); for (unsigned k = 0; k < w; k++) r2 = mkIte(mkExtract(a, k, 1), mkConst(w - 1 - k, w), r2); set(r2); return true; }
  case N_CTTZ: { E r2 = mkConst(w, w); for (int k = w - 1; k >= 0; k--) r2 = mkIte(mkExtract(a, k, 1), mkConst(k, w), r2); set(r2); return true; }
  case N_BSWAP: { vector<E> e; for (unsigned k = 0; k < w / 8; k++) e.push_back(mkExtract(a, w - 8 - 8 * k, 8)); set(mkConcat(e)); return true; }
  case N_BITREV: { vector<E> e; for (unsigned k = 0; k < w; k++) e.push_back(mkExtract(a, w - 1 - k, 1)); set(mkConcat(e)); return true; }
  case N_ABS: set(mkIte(mkBin(SLT, a, zero), mkBin(SUB, zero, a), a)); return true;
  case N_FSHL: case N_FSHR: { E c = ex(V(L[2]), w); if (!isC(c)) { report(*s, "engine", "symbolic funnel shift"); kill(); return false; } unsigned sh = (unsigned)(c->c % w); E cat = mkConcat({b, a}); set(i.sub == N_FSHL ? mkExtract(cat, w - sh, w) : mkExtract(cat, sh, w)); return true; }
  default: die("engine", "intrinsic"); return false; }
  (void)one; return true;
}
static string locOf(Interp &I, const CallInfo &ci) { // &Location is the last pointer argument
  for (int k = (int)ci.args.size() - 1; k >= 0; k--) { if (ci.argw[k] != 64) continue; const Val &v = I.V(ci.args[k]); if (v.e) continue; const u8 *d; const SymByte *sy; if ((v.v >> 32) < P.globals.size() && I.view(v.v, 24, d, sy) && !sy) { u64 p, n; u32 l, c; memcpy(&p, d, 8); memcpy(&n, d + 8, 8); memcpy(&l, d + 16, 4); memcpy(&c, d + 20, 4); if (n > 3 && n < 300 && I.view(p, n, d, sy)) { string s((char *)d, n); if (s.size() > 3 && s.substr(s.size() - 3) == ".rs") { size_t q = s.find("/repo/"); if (q != string::npos) s = s.substr(q + 6); return s + ":" + std::to_string(l); } } } } return "?"; }
bool Interp::builtin(Func *fn, CallInfo &ci) { // returns false if the state ended or must be re-run
  auto A = [&](int k) -> int { return ci.args[k]; }; u64 x, y, z;
  switch (fn->b) {
  case B_ALLOC: case B_ALLOCZ: case B_MALLOC: if (!conc(A(0), 64, x)) return false; if (x > (1u << 26)) { die("memory", "allocation over 64 MiB"); return false; } rg[ci.ret] = {allocHeap(x), nullptr}; return true;
  case B_CALLOC: if (!conc(A(0), 64, x) || !conc(A(1), 64, y)) return false; rg[ci.ret] = {allocHeap(x * y), nullptr}; return true;
  case B_FREE: case B_DEALLOC: { if (!conc(A(0), 64, x)) return false; if (!x) return true; Obj **o = objSlot(x); if (!o || (u32)x || (x >> 32) >= STK0) { die("memory", "invalid free"); return false; } objDrop(*o); *o = nullptr; return true; }
  case B_REALLOC: case B_LREALLOC: { int ns = fn->b == B_REALLOC ? 3 : 1; if (!conc(A(0), 64, x) || !conc(A(ns), 64, y)) return false; Obj **o = objSlot(x); if (!o || (u32)x) { die("memory", "invalid realloc"); return false; } u64 os = (*o)->size; u64 n = allocHeap(y); if (!copyMem(n, x, std::min(os, y))) return false; o = objSlot(x); objDrop(*o); *o = nullptr; rg[ci.ret] = {n, nullptr}; return true; }
  case B_MEMCPY: if (!conc(A(2), 64, z) || !conc(A(0), 64, x) || !conc(A(1), 64, y)) return false; if (!copyMem(x, y, z)) return false; rg[ci.ret] = {x, nullptr}; return true;
  case B_MEMSET: if (!conc(A(2), 64, z) || !conc(A(0), 64, x)) return false; { Val v = V(A(1)); if (v.e) v = mkv(mkExtract(v.e, 0, 8)); else v.v &= 255; if (!setMem(x, v, z)) return false; } rg[ci.ret] = {x, nullptr}; return true;
  case B_MEMCMP: case B_BCMP: { if (!conc(A(2), 64, z) || !conc(A(0), 64, x) || !conc(A(1), 64, y)) return false; if (!z) { rg[ci.ret] = {0, nullptr}; return true; } const u8 *d1, *d2; const SymByte *s1, *s2; if (!view(x, z, d1, s1)) { memErr("read", x, z); return false; } if (!view(y, z, d2, s2)) { memErr("read", y, z); return false; }
    if (!s1 && !s2) { int r = memcmp(d1, d2, z); rg[ci.ret] = {(u64)(u32)(r < 0 ? -1 : r > 0), nullptr}; return true; }
    auto by = [&](const u8 *d, const SymByte *sy, u64 k) { return ex(readv(d + k, sy ? sy + k : nullptr, 8), 8); };
    if (fn->b == B_BCMP) { E c = mkTrue(); // group runs of bytes into wider comparisons so that slices of one source line up
      u64 k = 0; while (k < z) { u64 n = 1; vector<E> p, q; p.push_back(by(d1, s1, k)); q.push_back(by(d2, s2, k)); while (k + n < z && n < 4) { p.push_back(by(d1, s1, k + n)); q.push_back(by(d2, s2, k + n)); n++; } E t = mkEq(mkConcat(p), mkConcat(q)); c = mkBin(AND, c, t); k += n; if (isC(c) && !c->c) break; }
      rg[ci.ret] = mkv(mkZext(mkNot(c), 32)); return true; }
    E r = mkConst(0, 32); for (i64 k = z - 1; k >= 0; k--) { E p = by(d1, s1, k), q = by(d2, s2, k); r = mkIte(mkEq(p, q), r, mkIte(mkBin(ULT, p, q), mkConst(~(u128)0, 32), mkConst(1, 32))); } rg[ci.ret] = mkv(r); return true; }
  case B_STRLEN: { if (!conc(A(0), 64, x)) return false; u64 n = 0; const u8 *d; const SymByte *sy; while (view(x + n, 1, d, sy) && *d) n++; rg[ci.ret] = {n, nullptr}; return true; }
  case B_PANIC: { string m = fn->dem; if (ci.args.size() >= 2) { string c = cstr(A(0), A(1)); if (c.size() > 1 && c != "?") { bool pr = true; for (char ch : c) if ((u8)ch < 32 || (u8)ch > 126) pr = false; if (pr) m += ": " + c; } } die("panic", m + " at " + locOf(*this, ci)); return false; }
  case B_ABORT: die("panic", "abort"); return false;
  case B_CHAR: { E v = newVar(*s, 21, scalarDom(), true); rg[ci.ret] = mkv(mkZext(v, 32)); return true; }
  case B_RANGE: { if (!conc(A(0), 32, x) || !conc(A(1), 32, y)) return false; if (y > 0x1fffff) fatal("rsym_range"); if (x == y) { s->in.push_back({-1, x}); s->nsym++; rg[ci.ret] = {x, nullptr}; return true; } unsigned b = 1; while ((1ull << b) <= y) b++; Ivs v; v.push_back({(u32)x, (u32)y}); E e = newVar(*s, b, domIntern(std::move(v)), true); rg[ci.ret] = mkv(mkZext(e, 32)); return true; }
  case B_U64: { E e = newVar(*s, 64, 0, false); rg[ci.ret] = mkv(e); return true; }
  case B_CONCRETE: { if (!conc(A(0), 32, x)) return false; rg[ci.ret] = {x, nullptr}; return true; }
  case B_PIN: { rg[ci.ret] = V(A(0)); return true; }
  case B_REF: { if (!conc(A(0), 32, x)) return false; auto it = g_refs.find(x); if (it == g_refs.end()) fatal("reference table %llu not loaded", (unsigned long long)x); const Val &c = V(A(1)); if (!c.e) { rg[ci.ret] = {lutAt(it->second, (u32)c.v), nullptr}; return true; } E v = canonVar(c.e); if (v && g_vars[v->var].bits == 21) rg[ci.ret] = mkv(mkZext(mkLut(it->second, v), 32)); else if (isUnary(c.e)) rg[ci.ret] = mkv(mkZext(compose(it->second, c.e), 32)); else { if (!conc(A(1), 32, x)) return false; rg[ci.ret] = {lutAt(it->second, (u32)x), nullptr}; } return true; }
  case B_COVER: if (!conc(A(0), 32, x)) return false; R.covers.insert((u32)x); s->cov |= 1u << ((u32)x & 31); return true;
  case B_NOTE: { u64 n; if (!conc(A(0), 32, n)) return false; R.notes[(u32)n]++; return true; }
  case B_EXPECT_PANIC: if (!conc(A(0), 1, x)) return false; s->expectPanic = x & 1; return true;
  case B_KNOWN: { if (!conc(A(0), 32, x)) return false; s->known = "K" + std::to_string(x); return true; }
  case B_ASSUME: { const Val &v = V(A(0)); if (!v.e) { if (!v.v) { R.infeasible++; R.dropped += s->rel.empty() ? volume(*s) : 0; kill(); return false; } return true; } sp.clear(); vector<pair<State *, bool>> o; splitAll(s, v.e, o); State *cur = nullptr; for (auto &p : o) { if (!p.second) { R.infeasible++; R.dropped += p.first->rel.empty() ? volume(*p.first) : 0; delete p.first; } else { p.first->fr.back().pc++; if (!cur) cur = p.first; else work->push_back(p.first); } } s = cur; if (!s) dead = true; else sync(); return false; }
  case B_ASSERT: { R.asserts++; s->nchk++; const Val &v = V(A(0)); u64 id = V(A(1)).v; if (!v.e) { if (!v.v) { die("assert", "assertion " + std::to_string(id) + " in " + f->f->dem); return false; } return true; } R.assertsSym++; vector<pair<State *, bool>> o; splitAll(s, v.e, o); State *cur = nullptr; for (auto &p : o) { p.first->fr.back().pc++; if (!p.second) { Interp J(p.first, work); J.die("assert", "assertion " + std::to_string(id) + " in " + J.f->f->dem); } else { if (!cur) cur = p.first; else work->push_back(p.first); } } s = cur; if (!s) dead = true; else sync(); return false; }
  case B_MEMALIGN: { if (!conc(A(2), 64, x) || !conc(A(0), 64, y)) return false; Obj *o = writable(y, 8); if (!o) { memErr("write", y, 8); return false; } Val v{allocHeap(x), nullptr}; o = writable(y, 8); writev(o, (u32)y, v, 64); rg[ci.ret] = {0, nullptr}; return true; }
  default: die("engine", "call to unmodelled function " + fn->dem); return false; }
}
void Interp::run() {
  u64 lim = g_pathLimit;
  while (!dead) {
    if (f->pc >= f->f->code.size()) fatal("pc out of range in %s", f->f->dem.c_str());
    Ins &i = f->f->code[f->pc]; s->icount++; if (s->icount > lim) { R.unknown = "instruction limit on one path in " + f->f->dem; account(); kill(); return; }
    if ((s->icount & 0xffff) == 0 && shm->stop && !leafCtx) { kill(); return; }
    switch (i.op) {
    case I_BIN: { if ((i.sub == UDIV || i.sub == UREM) && i.w <= 64) { const Val &b0 = V(i.b); if (b0.e && nonLinear(b0.e)) { u64 x; if (!conc(i.b, i.w, x)) return; } }
      const Val &a = V(i.a), &b = V(i.b); if (!a.e && !b.e && i.w <= 64) { u64 x = a.v, y = b.v, m = (u64)maskw(i.w), r; switch (i.sub) { case ADD: r = x + y; break; case SUB: r = x - y; break; case MUL: r = x * y; break; case AND: r = x & y; break; case OR: r = x | y; break; case XOR: r = x ^ y; break; case SHL: r = y >= i.w ? 0 : x << y; break; case LSHR: r = y >= i.w ? 0 : x >> y; break; case UDIV: r = y ? x / y : 0; break; case UREM: r = y ? x % y : 0; break; default: { E e = mkBin((Op)i.sub, mkConst(x, i.w), mkConst(y, i.w)); r = (u64)e->c; } } rg[i.d] = {r & m, nullptr}; } else rg[i.d] = mkv(mkBin((Op)i.sub, ex(a, i.w), ex(b, i.w))); f->pc++; break; }
    case I_CMP: { const Val &a = V(i.a), &b = V(i.b); if (!a.e && !b.e && i.w <= 64) { u64 r; if (i.sub == EQ) r = a.v == b.v; else if (i.sub == ULT) r = a.v < b.v; else { unsigned sh = 64 - i.w; r = (i64)(a.v << sh) < (i64)(b.v << sh); } rg[i.d] = {r ^ i.w2, nullptr}; } else { E e = mkBin((Op)i.sub, ex(a, i.w), ex(b, i.w)); if (i.w2) e = mkNot(e); rg[i.d] = mkv(e); } f->pc++; break; }
    case I_SELECT: { const Val &c = V(i.a); if (!c.e) { rg[i.d] = c.v ? V(i.b) : V(i.c); f->pc++; break; }
      const Val &a = V(i.b), &b = V(i.c); if (!a.e && !b.e && a.v == b.v) { rg[i.d] = a; f->pc++; break; }
      bool fork = i.w > 32; // addresses, indices and lengths: fork instead of building ites
      if (isUnary(c.e)) { auto p = condSplit(s->dom[c.e->var], c.e); if (p.first != (Dom)-1) { if (!p.second) { rg[i.d] = a; f->pc++; break; } if (!p.first) { rg[i.d] = b; f->pc++; break; } } }
      if (!fork) { rg[i.d] = mkv(mkIte(c.e, ex(a, i.w), ex(b, i.w))); f->pc++; break; }
      { vector<pair<State *, bool>> o; int d = i.d, bb = i.b, cc = i.c; E ce = c.e; splitAll(s, ce, o); bool first = true; for (auto &p : o) { State *t = p.first; Frame &g = t->fr.back(); Val *r = t->regs.data() + g.base; int so = p.second ? bb : cc; r[d] = so >= 0 ? r[so] : pool[~so]; g.pc++; if (first) { s = t; first = false; } else work->push_back(t); } if (first) { dead = true; s = nullptr; return; } sync(); } break; }
    case I_ZEXT: { const Val &a = V(i.a); if (!a.e && i.w2 <= 64) rg[i.d] = a; else rg[i.d] = mkv(mkZext(ex(a, i.w), i.w2)); f->pc++; break; }
    case I_SEXT: { const Val &a = V(i.a); if (!a.e && i.w2 <= 64) { unsigned sh = 64 - i.w; rg[i.d] = {(u64)((i64)(a.v << sh) >> sh) & (u64)maskw(i.w2), nullptr}; } else rg[i.d] = mkv(mkSext(ex(a, i.w), i.w2)); f->pc++; break; }
    case I_TRUNC: { const Val &a = V(i.a); if (!a.e) rg[i.d] = {a.v & (u64)maskw(i.w2), nullptr}; else rg[i.d] = mkv(mkExtract(a.e, 0, i.w2)); f->pc++; break; }
    case I_COPY: rg[i.d] = V(i.a); f->pc++; break;
    case I_GEP: { const Val &a = V(i.a); const Val &b = V(i.b); i64 sc = i.c ? (i64)((int)i.x) : 0; if (!a.e && !b.e) rg[i.d] = {a.v + (u64)i.imm + (i.c ? b.v * (u64)sc : 0), nullptr}; else { E e = mkBin(ADD, ex(a, 64), mkConst((u128)(u64)i.imm, 64)); if (i.c) e = mkBin(ADD, e, mkBin(MUL, ex(b, 64), mkConst((u64)sc, 64))); rg[i.d] = mkv(e); } f->pc++; break; }
    case I_LOAD: { const Val &a = V(i.a); if (a.e) { Val out; if (tabLoad(a.e, i.imm, i.w, out)) { rg[i.d] = out; f->pc++; break; } u64 x; conc(i.a, 64, x); break; }
      u64 ad = a.v + i.imm; const u8 *d; const SymByte *sy; if (!view(ad, (i.w + 7) / 8, d, sy)) { memErr("read", ad, (i.w + 7) / 8); return; } rg[i.d] = readv(d, sy, i.w); f->pc++; break; }
    case I_STORE: { const Val &a = V(i.a); if (a.e) { u64 x; conc(i.a, 64, x); break; } u64 ad = a.v + i.imm; Obj *o = writable(ad, (i.w + 7) / 8); if (!o) { memErr("write", ad, (i.w + 7) / 8); return; } writev(o, (u32)ad, V(i.b), i.w); f->pc++; break; }
    case I_ALLOCA: { u64 n; if (!conc(i.a, 64, n)) return; s->stk.push_back(objNew(n * i.imm)); rg[i.d] = {(u64)(STK0 + s->stk.size() - 1) << 32, nullptr}; f->pc++; break; }
    case I_BR: jump(*f, s, i.x); break;
    case I_CBR: { const Val &c = V(i.a); if (!c.e) { jump(*f, s, c.v ? i.b : i.c); break; }
      vector<pair<State *, bool>> &o = sp; o.clear(); u32 bt = i.b, bf = i.c; splitAll(s, c.e, o); if (o.empty()) { dead = true; s = nullptr; return; } for (size_t k = 0; k < o.size(); k++) { State *t = o[k].first; jump(t->fr.back(), t, o[k].second ? bt : bf); if (k) work->push_back(t); } s = o[0].first; sync(); break; }
    case I_SWITCH: { const Val &c = V(i.a); SwitchInfo &si = f->f->sw[i.x]; if (!c.e) { u32 e = si.def; for (auto &q : si.cases) if (q.first == c.v) { e = q.second; break; } jump(*f, s, e); break; }
      // group by target edge
      E ce = c.e; std::map<u32, vector<u64>> g; for (auto &q : si.cases) g[q.second].push_back(q.first); State *cur = s; vector<State *> outs; vector<State *> rest{s}; (void)cur;
      std::map<u32, vector<u64>> byT; for (auto &q : g) { Edge &ed = f->f->edges[q.first]; if (ed.cb == ed.ce) { bool merged = false; for (auto &b : byT) { Edge &e2 = f->f->edges[b.first]; if (e2.cb == e2.ce && e2.target == ed.target) { b.second.insert(b.second.end(), q.second.begin(), q.second.end()); merged = true; break; } } if (!merged) byT[q.first] = q.second; } else byT[q.first] = q.second; }
      Func *fn = f->f; unsigned w = i.w; (void)fn;
      for (auto &q : byT) { if (rest.empty()) break; Edge &ed = f->f->edges[q.first]; Edge &dd = fn->edges[si.def]; if (ed.target == dd.target && ed.cb == ed.ce && dd.cb == dd.ce) continue; vector<State *> nrest; E cond = mkConst(0, 1); for (u64 v : q.second) cond = mkBin(OR, cond, mkEq(ce, mkConst(v, w))); for (State *st : rest) { vector<pair<State *, bool>> o; splitAll(st, cond, o); for (auto &p : o) { if (p.second) { jump(p.first->fr.back(), p.first, q.first); outs.push_back(p.first); } else nrest.push_back(p.first); } } rest.swap(nrest); if (rest.size()) { f = &rest[0]->fr.back(); } }
      for (State *st : rest) { jump(st->fr.back(), st, si.def); outs.push_back(st); }
      if (outs.empty()) { dead = true; s = nullptr; return; } for (size_t k = 1; k < outs.size(); k++) work->push_back(outs[k]); s = outs[0]; sync(); break; }
    case I_UNREACH: die("unreachable", "unreachable code in " + f->f->dem); return;
    case I_RET: { vector<int> &L = f->f->lists[i.x]; Frame fr = *f;
      if (s->fr.size() == 1) { if (leafCtx) { vector<Val> r; for (int o : L) r.push_back(V(o)); leafCtx->leaves.push_back({s, r}); R.instrs += s->icount; s = nullptr; dead = true; return; } if (s->expectPanic) { s->expectPanic = false; die("assert", "expected panic did not happen in " + fr.f->dem); return; } done(); return; }
      Val tmp[16]; vector<Val> big; Val *tv = tmp; if (L.size() > 16) { big.resize(L.size()); tv = big.data(); } for (size_t k = 0; k < L.size(); k++) tv[k] = V(L[k]); popStk(fr.stk); s->fr.pop_back(); sync(); for (size_t k = 0; k < L.size() && k < fr.nret; k++) rg[fr.ret + k] = tv[k]; break; }
    case I_CALL: { CallInfo &ci = f->f->calls[i.x]; Func *fn = ci.f; if (!fn) { const Val &v = V(ci.fop); if (v.e) { u64 x; conc(ci.fop, 64, x); break; } u32 id = v.v >> 32; if (id == 0 || id >= P.globals.size() || !P.globals[id]->fn || (u32)v.v) { die("memory", "call through an invalid function pointer"); return; } fn = P.globals[id]->fn; }
      if (fn->b != B_NONE) { if (builtin(fn, ci)) f->pc++; break; }
      if (fn->isnoret && (fn->dem.find("panicking") != string::npos)) { die("panic", fn->dem); return; }
      if (fn->summ && fn->nparams == 1 && V(ci.args[0]).e && isUnary(V(ci.args[0]).e) && s->fr.size() && !(leafCtx && s->fr[0].f == fn)) { if (fn->summ == 1) { State *keep = s; buildSummary(fn); s = keep; sync(); }
        if (fn->summ == 2) { fn->hits++; E a = V(ci.args[0]).e; E v = canonVar(a); if (v && g_vars[v->var].bits != 21) v = nullptr; int ret = ci.ret; for (size_t k = 0; k < fn->slut.size(); k++) { E e = v ? mkLut(fn->slut[k], v) : compose(fn->slut[k], a); vector<pair<u64, Dom>> pr; if (valuePart(e, s->dom[e->var], 1, pr) && pr.size() == 1) rg[ret + k] = {pr[0].first, nullptr}; else rg[ret + k] = {0, e}; } f->pc++; break; } }
      f->pc++; call(fn, ci); break; }
    case I_INTRIN: if (intrin(i)) f->pc++; break;
    case I_UNSUP: die("engine", "unsupported instruction: " + f->f->msgs[i.x]); return;
    default: fatal("op"); } } }

// ---- summaries: a function of one char, explored once over all scalar values ------------------------------
static u64 g_sumLeaves = 0; static int g_sumBuilt = 0;
static void buildSummary(Func *fn) {
  if (leafCtx && leafCtx->fail) return;
  ensureConv(fn); LeafCtx *outer = leafCtx; LeafCtx L; leafCtx = &L; fn->summ = 0; // no recursion
  State *s = new State(); s->fr.push_back({fn, 0, 0, 0, -1, 0}); s->regs.resize(fn->nregs + 64); s->nsym = 0; E v = newVar(*s, 21, scalarDom(), true); s->regs[0] = {0, mkZext(v, 32)};
  vector<State *> work{s}; int var = v->var; bool ok = fn->paramw.size() == 1 && fn->paramw[0] == 32; u64 n = 0;
  while (ok && work.size()) { State *t = work.back(); work.pop_back(); Interp I(t, &work); I.run(); if (L.fail) ok = false; if (++n > 200000) ok = false; }
  for (State *t : work) delete t;
  size_t nr = fn->retw.size(); vector<std::map<u64, vector<Dom>>> part(nr);
  for (auto &lf : L.leaves) { if (ok) { if (lf.second.size() != nr || nr == 0) ok = false; for (size_t k = 0; ok && k < nr; k++) { const Val &r = lf.second[k]; Dom d = lf.first->dom[var]; if (lf.first->rel.size()) { ok = false; break; } if (!r.e) { if ((r.v >> 32) >= HEAP0 && fn->retw[k] == 64 && (r.v >> 32) < 0x70000000u) ok = false; else part[k][r.v].push_back(d); } else { vector<pair<u64, Dom>> pr; if (fn->retw[k] > 64 || !isUnary(r.e) || !valuePart(r.e, d, 5000, pr)) ok = false; else for (auto &q : pr) part[k][q.first].push_back(q.second); } } } delete lf.first; }
  leafCtx = outer;
  if (!ok) { fn->summ = 0; if (getenv("RSYM_DEBUG")) fprintf(stderr, "no summary: %s\n", fn->dem.c_str()); return; }
  for (size_t k = 0; k < nr; k++) { LutT *l = new LutT(); l->w = fn->retw[k]; l->name = fn->dem; for (auto &p : part[k]) l->part.push_back({p.first, domOrAll(p.second)}); fn->slut.push_back(lutAdd(l)); }
  fn->summ = 2; g_sumLeaves += L.leaves.size(); g_sumBuilt++; if (getenv("RSYM_DEBUG")) fprintf(stderr, "summary %s: %zu leaves\n", fn->dem.c_str(), L.leaves.size());
}

// ---- driver -------------------------------------------------------------------------------------------------
static string jesc(const string &s) { string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((u8)c < 32) o += ' '; else o += c; } return o; }
static void put(FILE *o, const string &s) { u32 n = s.size(); fwrite(&n, 4, 1, o); fwrite(s.data(), 1, n, o); }
static string get(FILE *o) { u32 n = 0; if (fread(&n, 4, 1, o) != 1) return ""; string s(n, 0); if (n && fread(&s[0], 1, n, o) != n) fatal("pipe"); return s; }
static u64 getn(FILE *o) { u64 n = 0; if (fread(&n, 8, 1, o) != 1) fatal("worker result truncated"); return n; }
static void putn(FILE *o, u64 n) { fwrite(&n, 8, 1, o); }
static void dumpR(FILE *o) {
  u64 a[] = {R.paths, R.panicsExpected, R.infeasible, R.forks, R.instrs, R.asserts, R.assertsSym, R.solverBranches, R.domBranches, g_st.z3_queries, g_st.z3_cert, g_st.z3_unsat, g_st.z3_sat, g_st.cond_unique, (u64)R.relVolume}; for (u64 x : a) putn(o, x);
  double d[] = {R.volume, R.dropped, g_st.z3_time}; fwrite(d, 8, 3, o); put(o, R.unknown); putn(o, R.covers.size()); for (u32 c : R.covers) putn(o, c); putn(o, R.notes.size()); for (auto &c : R.notes) { putn(o, c.first); putn(o, c.second); }
  putn(o, R.viol.size()); for (auto &v : R.viol) { put(o, v.kind); put(o, v.msg); putn(o, v.in.size()); for (u64 x : v.in) putn(o, x); putn(o, v.stack.size()); for (auto &x : v.stack) put(o, x); }
  putn(o, R.known.size()); for (auto &k : R.known) { put(o, k.first); putn(o, k.second.size()); for (u64 x : k.second) putn(o, x); }
  putn(o, R.samples.size()); for (auto &x : R.samples) { putn(o, x.nchk); putn(o, x.cov); putn(o, x.pan); putn(o, x.in.size()); for (u64 y : x.in) putn(o, y); }
  putn(o, P.funcs.size()); for (auto f : P.funcs) putn(o, f->hits); }
static void mergeR(FILE *o) {
  u64 *a[] = {&R.paths, &R.panicsExpected, &R.infeasible, &R.forks, &R.instrs, &R.asserts, &R.assertsSym, &R.solverBranches, &R.domBranches, &g_st.z3_queries, &g_st.z3_cert, &g_st.z3_unsat, &g_st.z3_sat, &g_st.cond_unique}; for (auto x : a) *x += getn(o); if (getn(o)) R.relVolume = true;
  double d[3]; if (fread(d, 8, 3, o) != 3) fatal("pipe"); R.volume += d[0]; R.dropped += d[1]; g_st.z3_time += d[2]; string u = get(o); if (u.size()) R.unknown = u; u64 n = getn(o); while (n--) R.covers.insert(getn(o)); n = getn(o); while (n--) { u64 k = getn(o); R.notes[k] += getn(o); }
  n = getn(o); while (n--) { Violation v; v.kind = get(o); v.msg = get(o); u64 m = getn(o); while (m--) v.in.push_back(getn(o)); m = getn(o); while (m--) v.stack.push_back(get(o)); bool dup = false; for (auto &x : R.viol) if (x.kind == v.kind && x.msg == v.msg) dup = true; if (!dup) R.viol.push_back(v); }
  n = getn(o); while (n--) { string k = get(o); u64 m = getn(o); vector<u64> v; while (m--) v.push_back(getn(o)); R.known.emplace(k, v); }
  n = getn(o); while (n--) { Sample x; x.nchk = getn(o); x.cov = getn(o); x.pan = getn(o); u64 m = getn(o); while (m--) x.in.push_back(getn(o)); R.samples.push_back(x); }
  n = getn(o); for (u64 i = 0; i < n; i++) P.funcs[i]->hits += getn(o); }
static void resetCounters() { R = Result(); g_st = Stats(); for (auto f : P.funcs) f->hits = 0; }

static void loadRefs(const char *path) { // lines: T id width name / v: lo-hi lo-hi ...
  FILE *f = fopen(path, "r"); if (!f) fatal("cannot open %s", path); char *line = nullptr; size_t cap = 0; LutT *l = nullptr; u32 id = 0;
  auto fin = [&]() { if (l) { g_refs[id] = lutAdd(l); l = nullptr; } };
  while (getline(&line, &cap, f) > 0) { if (line[0] == '#' || line[0] == '\n') continue; if (line[0] == 'T') { fin(); char nm[200]; unsigned w; if (sscanf(line, "T %u %u %199s", &id, &w, nm) != 3) fatal("ref table"); l = new LutT(); l->w = w; l->name = nm; continue; }
    char *p = line; u64 v = strtoull(p, &p, 10); p++; Ivs iv; while (*p && *p != '\n') { u32 a = strtoul(p, &p, 16), b = a; if (*p == '-') b = strtoul(p + 1, &p, 16); iv.push_back({a, b}); while (*p == ' ') p++; } l->part.push_back({v, domIntern(std::move(iv))}); }
  fin(); free(line); fclose(f); }

int main(int argc, char **argv) {
  string bc, out, refs; vector<string> entries, summ; int jobs = 8; double limit = 600; int frontier = 0; string scratch = "/tmp";
  for (int i = 1; i < argc; i++) { string a = argv[i]; auto nx = [&]() { return string(argv[++i]); }; if (a == "--entries") { string e = nx(); size_t p = 0; while (p < e.size()) { size_t q = e.find(',', p); if (q == string::npos) q = e.size(); entries.push_back(e.substr(p, q - p)); p = q + 1; } } else if (a == "--summary") summ.push_back(nx()); else if (a == "--jobs") jobs = atoi(nx().c_str()); else if (a == "--out") out = nx(); else if (a == "--limit") limit = atof(nx().c_str()); else if (a == "--refs") refs = nx(); else if (a == "--frontier") frontier = atoi(nx().c_str()); else if (a == "--scratch") scratch = nx(); else if (a == "--samples") g_nsamples = atoi(nx().c_str()); else if (a == "--seed") g_seed = atoll(nx().c_str()) * 7919 + 17; else if (a == "--max-viol") g_maxViol = atoi(nx().c_str()); else bc = a; }
  double t0 = now(); shm = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  loadProg(bc.c_str(), entries, summ, P); if (refs.size()) loadRefs(refs.c_str()); double tl = now() - t0; fprintf(stderr, "rsym: loaded %zu functions in %.1fs\n", P.funcs.size(), tl);
  FILE *jo = out.size() ? fopen(out.c_str(), "w") : stdout; fprintf(jo, "{\"load_s\":%.2f,\"functions\":%zu,\"entries\":[\n", tl, P.funcs.size()); int rc = 0;
  for (size_t ei = 0; ei < entries.size(); ei++) {
    Func *fn = P.byName.count(entries[ei]) ? P.byName[entries[ei]] : nullptr; if (!fn || !fn->defined) fatal("no entry %s", entries[ei].c_str());
    double te = now(); g_deadline = te + limit; resetCounters(); shm->next = 0; shm->stop = 0; bool timeout = false; g_sumLeaves = 0; g_sumBuilt = 0;
    ensureConv(fn); State *s = new State(); s->fr.push_back({fn, 0, 0, 0, -1, 0}); s->regs.resize(fn->nregs + 256);
    std::deque<State *> q{s}; vector<State *> w; size_t want = frontier ? frontier : jobs * 60; double bfs = std::min(limit * 0.3, 10.0);
    while (q.size() && q.size() < want && !shm->stop && (jobs > 1 || true)) { State *t = q.front(); q.pop_front(); w.clear(); 
      Interp I(t, &w); I.run(); for (State *x : w) q.push_back(x); if (now() - te > bfs && q.size() >= (size_t)jobs * 2) break; if (now() - te > limit) { timeout = true; break; } }
    if (q.size() && !shm->stop && !timeout) {
      vector<State *> tasks(q.begin(), q.end()); q.clear(); unsigned seed = 1; for (size_t k = tasks.size() - 1; k > 0; k--) { seed = seed * 1103515245 + 12345; std::swap(tasks[k], tasks[(seed >> 8) % (k + 1)]); }
      vector<pair<pid_t, string>> ch; fflush(stdout); fflush(jo); fflush(stderr);
      for (int j = 0; j < jobs; j++) { string fnm = scratch + "/rsym." + std::to_string(getpid()) + "." + std::to_string(ei) + "." + std::to_string(j); pid_t pid = fork(); if (pid < 0) fatal("fork");
        if (pid == 0) { g_seed += 0x9e3779b97f4a7c15ull * (j + 1); R.viol.clear(); u64 keep = 0; (void)keep; resetCounters(); bool to = false;
          for (;;) { u32 k = shm->next++; if (k >= tasks.size() || shm->stop) break; vector<State *> wk{tasks[k]}; tasks[k] = nullptr;
            while (wk.size() && !shm->stop) { if (now() - te > limit) { to = true; break; } State *t = wk.back(); wk.pop_back(); Interp I(t, &wk); I.run(); } if (to) break; }
          if (to) { R.unknown = "time limit"; shm->stop = 1; } FILE *o = fopen(fnm.c_str(), "w"); dumpR(o); fclose(o); _exit(0); }
        ch.push_back({pid, fnm}); }
      for (auto &c : ch) { int st; waitpid(c.first, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { R.unknown = "a worker ended abnormally"; unlink(c.second.c_str()); continue; } FILE *o = fopen(c.second.c_str(), "r"); if (!o) { R.unknown = "worker result missing"; continue; } mergeR(o); fclose(o); unlink(c.second.c_str()); }
      for (State *t : tasks) delete t;
    }
    for (State *t : q) delete t;
    if (timeout) R.unknown = "time limit";
    // engine-kind violations are limits of the tool, not findings
    for (size_t k = 0; k < R.viol.size();) if (R.viol[k].kind == "engine") { R.unknown = R.viol[k].msg; R.viol.erase(R.viol.begin() + k); } else k++;
    string status = R.viol.size() ? "violated" : R.unknown.size() ? "unknown" : "held"; if (status == "violated") rc = 1; else if (status == "unknown" && rc == 0) rc = 2;
    fprintf(jo, "%s{\"entry\":\"%s\",\"status\":\"%s\",\"unknown\":\"%s\",\"wall_s\":%.2f,\"paths\":%llu,\"dropped_paths\":%llu,\"expected_panics\":%llu,\"forks\":%llu,\"instructions\":%llu,\"asserts\":%llu,\"symbolic_asserts\":%llu,\"solver_branches\":%llu,\"domain_branches\":%llu,\"z3_queries\":%llu,\"z3_certificates\":%llu,\"z3_unsat\":%llu,\"z3_sat\":%llu,\"z3_time_s\":%.2f,\"unique_conditions\":%llu,\"inputs_covered\":%.17g,\"inputs_dropped\":%.17g,\"relational\":%s,\"summaries\":%d,\"summary_leaves\":%llu,\"covers\":[", ei ? ",\n" : "", entries[ei].c_str(), status.c_str(), jesc(R.unknown).c_str(), now() - te,
      (unsigned long long)R.paths, (unsigned long long)R.infeasible, (unsigned long long)R.panicsExpected, (unsigned long long)R.forks, (unsigned long long)R.instrs, (unsigned long long)R.asserts, (unsigned long long)R.assertsSym, (unsigned long long)R.solverBranches, (unsigned long long)R.domBranches, (unsigned long long)g_st.z3_queries, (unsigned long long)g_st.z3_cert, (unsigned long long)g_st.z3_unsat, (unsigned long long)g_st.z3_sat, g_st.z3_time, (unsigned long long)g_st.cond_unique, R.volume, R.dropped, R.relVolume ? "true" : "false", g_sumBuilt, (unsigned long long)g_sumLeaves);
    bool first = true; for (u32 c : R.covers) { fprintf(jo, "%s%u", first ? "" : ",", c); first = false; } fprintf(jo, "],\"notes\":{"); first = true; for (auto &c : R.notes) { fprintf(jo, "%s\"%u\":%llu", first ? "" : ",", c.first, (unsigned long long)c.second); first = false; } fprintf(jo, "},\"known\":{"); first = true; for (auto &c : R.known) { fprintf(jo, "%s\"%s\":[", first ? "" : ",", c.first.c_str()); for (size_t k = 0; k < c.second.size(); k++) fprintf(jo, "%s%llu", k ? "," : "", (unsigned long long)c.second[k]); fprintf(jo, "]"); first = false; }
    fprintf(jo, "},\"violations\":["); first = true; for (auto &v : R.viol) { fprintf(jo, "%s{\"kind\":\"%s\",\"msg\":\"%s\",\"inputs\":[", first ? "" : ",", v.kind.c_str(), jesc(v.msg).c_str()); for (size_t k = 0; k < v.in.size(); k++) fprintf(jo, "%s%llu", k ? "," : "", (unsigned long long)v.in[k]); fprintf(jo, "],\"stack\":["); for (size_t k = 0; k < v.stack.size(); k++) fprintf(jo, "%s\"%s\"", k ? "," : "", jesc(v.stack[k]).c_str()); fprintf(jo, "]}"); first = false; }
    fprintf(jo, "],\"samples\":["); first = true; for (auto &x : R.samples) { fprintf(jo, "%s{\"checks\":%llu,\"covers\":%llu,\"panic\":%llu,\"inputs\":[", first ? "" : ",", (unsigned long long)x.nchk, (unsigned long long)x.cov, (unsigned long long)x.pan); for (size_t k = 0; k < x.in.size(); k++) fprintf(jo, "%s%llu", k ? "," : "", (unsigned long long)x.in[k]); fprintf(jo, "]}"); first = false; }
    fprintf(jo, "],\"repo_functions\":["); first = true; std::set<string> names; for (auto x : P.funcs) if (x->hits && x->isrepo) names.insert(x->dem); for (auto &x : names) { fprintf(jo, "%s\"%s\"", first ? "" : ",", jesc(x).c_str()); first = false; } fprintf(jo, "]}"); fflush(jo);
    fprintf(stderr, "rsym: %s: %s paths=%llu instr=%llu z3=%llu/%.1fs %.1fs %s\n", entries[ei].c_str(), status.c_str(), (unsigned long long)R.paths, (unsigned long long)R.instrs, (unsigned long long)g_st.z3_queries, g_st.z3_time, now() - te, R.unknown.c_str());
    for (auto &v : R.viol) { fprintf(stderr, "  %s: %s inputs:", v.kind.c_str(), v.msg.c_str()); for (u64 x : v.in) fprintf(stderr, " %llx", (unsigned long long)x); fprintf(stderr, "\n"); }
  }
  fprintf(jo, "\n]}\n"); if (jo != stdout) fclose(jo); fflush(stdout); _Exit(rc);
}
