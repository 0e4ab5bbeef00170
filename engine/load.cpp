#include "prog.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/Verifier.h>
#include <regex>
#include <set>
using namespace llvm; using std::vector; using std::string;

static const DataLayout *DL; static Prog *P; static LLVMContext ctx;
static void flat(Type *t, vector<u16> &o) {
  if (t->isVoidTy()) return;
  if (t->isIntegerTy()) { o.push_back(t->getIntegerBitWidth()); return; }
  if (t->isPointerTy()) { o.push_back(64); return; }
  if (t->isFloatTy()) { o.push_back(32); return; } if (t->isDoubleTy()) { o.push_back(64); return; }
  if (auto *s = dyn_cast<StructType>(t)) { for (Type *e : s->elements()) flat(e, o); return; }
  if (auto *a = dyn_cast<ArrayType>(t)) { for (u64 i = 0; i < a->getNumElements(); i++) flat(a->getElementType(), o); return; }
  if (auto *v = dyn_cast<FixedVectorType>(t)) { for (unsigned i = 0; i < v->getNumElements(); i++) flat(v->getElementType(), o); return; }
  o.push_back(64); }
static void flatOff(Type *t, u64 base, vector<std::pair<u64, u16>> &o) {
  if (auto *s = dyn_cast<StructType>(t)) { auto *l = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) flatOff(s->getElementType(i), base + l->getElementOffset(i), o); return; }
  if (auto *a = dyn_cast<ArrayType>(t)) { u64 sz = DL->getTypeAllocSize(a->getElementType()); for (u64 i = 0; i < a->getNumElements(); i++) flatOff(a->getElementType(), base + i * sz, o); return; }
  if (auto *v = dyn_cast<FixedVectorType>(t)) { u64 sz = DL->getTypeAllocSize(v->getElementType()); for (unsigned i = 0; i < v->getNumElements(); i++) flatOff(v->getElementType(), base + i * sz, o); return; }
  vector<u16> w; flat(t, w); if (w.size()) o.push_back({base, w[0]}); }
static unsigned nslots(Type *t) { vector<u16> o; flat(t, o); return o.size(); }
static unsigned aggIndex(Type *t, ArrayRef<unsigned> idx, Type *&out) { unsigned s = 0; for (unsigned i : idx) { if (auto *st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; j++) s += nslots(st->getElementType(j)); t = st->getElementType(i); } else { Type *e = t->getContainedType(0); s += nslots(e) * i; t = e; } } out = t; return s; }
static std::unordered_map<const Value *, u64> gaddr; static std::unordered_map<const Function *, Func *> fmap;
static u64 constInt(const Constant *c);
static u64 constInt(const Constant *c) {
  if (auto *i = dyn_cast<ConstantInt>(c)) return i->getValue().getLimitedValue();
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
  if (auto *f = dyn_cast<ConstantFP>(c)) return f->getValueAPF().bitcastToAPInt().getZExtValue();
  if (auto *g = dyn_cast<GlobalValue>(c)) { if (auto *a = dyn_cast<GlobalAlias>(g)) return constInt(a->getAliasee()); auto it = gaddr.find(g); return it == gaddr.end() ? 0 : it->second; }
  if (auto *e = dyn_cast<ConstantExpr>(c)) {
    switch (e->getOpcode()) {
    case Instruction::GetElementPtr: { APInt off(64, 0); if (!cast<GEPOperator>(e)->accumulateConstantOffset(*DL, off)) fatal("constant gep"); return constInt(e->getOperand(0)) + off.getSExtValue(); }
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: return constInt(e->getOperand(0));
    case Instruction::Trunc: return constInt(e->getOperand(0)) & (u64)maskw(e->getType()->getIntegerBitWidth());
    case Instruction::Add: return constInt(e->getOperand(0)) + constInt(e->getOperand(1));
    case Instruction::Sub: return constInt(e->getOperand(0)) - constInt(e->getOperand(1));
    default: string s; raw_string_ostream o(s); c->print(o); fatal("constant expr %s", s.c_str()); } }
  string s; raw_string_ostream o(s); c->print(o); fatal("constant %s", s.c_str()); }
static u128 ap(const APInt &a) { u128 v = a.getRawData()[0]; if (a.getNumWords() > 1) v |= (u128)a.getRawData()[1] << 64; return v; }
static void fillBytes(const Constant *c, vector<u8> &d, u64 off) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto *s = dyn_cast<ConstantDataSequential>(c)) { StringRef r = s->getRawDataValues(); memcpy(&d[off], r.data(), r.size()); return; }
  if (auto *s = dyn_cast<ConstantStruct>(c)) { auto *l = DL->getStructLayout(s->getType()); for (unsigned i = 0; i < s->getNumOperands(); i++) fillBytes(s->getOperand(i), d, off + l->getElementOffset(i)); return; }
  if (isa<ConstantArray>(c) || isa<ConstantVector>(c)) { u64 sz = DL->getTypeAllocSize(t->getContainedType(0)); for (unsigned i = 0; i < c->getNumOperands(); i++) fillBytes(cast<Constant>(c->getOperand(i)), d, off + i * sz); return; }
  u64 n = DL->getTypeStoreSize(t); if (auto *ci = dyn_cast<ConstantInt>(c)) { u128 v = ap(ci->getValue()); memcpy(&d[off], &v, n); return; }
  u64 v = constInt(c); memcpy(&d[off], &v, n); }
static int poolAdd(Val v) { static std::map<std::pair<u64, E>, int> m; auto k = std::make_pair(v.v, v.e); auto it = m.find(k); if (it != m.end() ) return it->second; P->pool.push_back(v); int r = ~(int)(P->pool.size() - 1); m[k] = r; return r; }
static int poolSeq(const vector<Val> &v) { if (v.size() == 1) return poolAdd(v[0]); int b = P->pool.size(); for (auto &x : v) P->pool.push_back(x); return ~b; }
static void constVals(const Constant *c, vector<Val> &o) {
  Type *t = c->getType();
  if (t->isIntegerTy() && t->getIntegerBitWidth() > 64) { u128 v = 0; if (auto *ci = dyn_cast<ConstantInt>(c)) v = ap(ci->getValue()); o.push_back({0, mkConst(v, t->getIntegerBitWidth())}); return; }
  if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    for (unsigned i = 0; i < n; i++) { Constant *e = c->getAggregateElement(i); if (!e) fatal("aggregate constant"); constVals(e, o); } return; }
  o.push_back({constInt(c), nullptr}); }
// operands are encoded as slot>=0, or ~poolindex; element i of a pool sequence is ~(idx+i)
static inline int opAt(int op, unsigned i) { return op >= 0 ? op + (int)i : ~(~op + (int)i); }

struct Conv {
  Function &F; Func *f; std::unordered_map<const Value *, int> slot; std::unordered_map<const BasicBlock *, u32> start; vector<std::pair<u32, const BasicBlock *>> fix;
  Conv(Function &F, Func *f) : F(F), f(f) {}
  int op(const Value *v) { if (auto *c = dyn_cast<Constant>(v)) { vector<Val> o; constVals(c, o); if (o.empty()) return ~0; return poolSeq(o); } auto it = slot.find(v); if (it == slot.end()) { if (isa<MetadataAsValue>(v)) return ~0; fatal("operand without slot in %s", f->name.c_str()); } return it->second; }
  int op(const Value *v, unsigned i) { return opAt(op(v), i); }
  int fresh(unsigned n = 1) { int s = f->nregs; f->nregs += n; return s; }
  Ins &emit(IOp o) { Ins i; memset(&i, 0, sizeof i); i.op = o; f->code.push_back(i); return f->code.back(); }
  void unsup(const Instruction &I) { string s; raw_string_ostream o(s); I.print(o); f->msgs.push_back(s); emit(I_UNSUP).x = f->msgs.size() - 1; }
  u32 edge(const BasicBlock *from, const BasicBlock *to) {
    Edge e; e.target = 0; e.cb = f->copies.size();
    for (auto &I : *to) { auto *p = dyn_cast<PHINode>(&I); if (!p) break; const Value *v = p->getIncomingValueForBlock(from); unsigned n = nslots(p->getType()); for (unsigned i = 0; i < n; i++) f->copies.push_back({slot[p] + (int)i, op(v, i)}); }
    e.ce = f->copies.size(); f->edges.push_back(e); fix.push_back({(u32)f->edges.size() - 1, to}); return f->edges.size() - 1; }
  void bin(Op o, unsigned w, int d, int a, int b) { Ins &i = emit(I_BIN); i.sub = o; i.w = w; i.d = d; i.a = a; i.b = b; }
  void copy(int d, int a) { Ins &i = emit(I_COPY); i.d = d; i.a = a; }
  void run() {
    for (auto &A : F.args()) { slot[&A] = fresh(nslots(A.getType())); flat(A.getType(), f->paramw); }
    f->nparams = f->nregs;
    for (auto &B : F) for (auto &I : B) if (!I.getType()->isVoidTy()) slot[&I] = fresh(nslots(I.getType()));
    for (auto &B : F) { start[&B] = f->code.size(); for (auto &I : B) ins(I, B); }
    for (auto &x : fix) f->edges[x.first].target = start[x.second];
  }
  void ins(Instruction &I, BasicBlock &B) {
    if (isa<PHINode>(I)) return;
    Type *t = I.getType(); vector<u16> w; flat(t, w);
    if (auto *b = dyn_cast<BinaryOperator>(&I)) {
      Op o; switch (b->getOpcode()) { case Instruction::Add: o = ADD; break; case Instruction::Sub: o = SUB; break; case Instruction::Mul: o = MUL; break; case Instruction::UDiv: o = UDIV; break; case Instruction::SDiv: o = SDIV; break; case Instruction::URem: o = UREM; break; case Instruction::SRem: o = SREM; break; case Instruction::Shl: o = SHL; break; case Instruction::LShr: o = LSHR; break; case Instruction::AShr: o = ASHR; break; case Instruction::And: o = AND; break; case Instruction::Or: o = OR; break; case Instruction::Xor: o = XOR; break; default: return unsup(I); }
      for (unsigned i = 0; i < w.size(); i++) bin(o, w[i], slot[&I] + i, op(b->getOperand(0), i), op(b->getOperand(1), i)); return; }
    if (auto *c = dyn_cast<ICmpInst>(&I)) {
      vector<u16> ow; flat(c->getOperand(0)->getType(), ow);
      for (unsigned i = 0; i < w.size(); i++) { Ins n; memset(&n, 0, sizeof n); n.op = I_CMP; n.w = ow[i]; n.d = slot[&I] + i; int a = op(c->getOperand(0), i), b = op(c->getOperand(1), i); bool neg = false, sw = false; Op o = EQ;
        switch (c->getPredicate()) { case CmpInst::ICMP_EQ: break; case CmpInst::ICMP_NE: neg = true; break; case CmpInst::ICMP_ULT: o = ULT; break; case CmpInst::ICMP_UGT: o = ULT; sw = true; break; case CmpInst::ICMP_ULE: o = ULT; sw = true; neg = true; break; case CmpInst::ICMP_UGE: o = ULT; neg = true; break; case CmpInst::ICMP_SLT: o = SLT; break; case CmpInst::ICMP_SGT: o = SLT; sw = true; break; case CmpInst::ICMP_SLE: o = SLT; sw = true; neg = true; break; case CmpInst::ICMP_SGE: o = SLT; neg = true; break; default: return unsup(I); }
        n.sub = o; n.w2 = neg; n.a = sw ? b : a; n.b = sw ? a : b; f->code.push_back(n); } return; }
    if (auto *s = dyn_cast<SelectInst>(&I)) { bool vc = s->getCondition()->getType()->isVectorTy(); for (unsigned i = 0; i < w.size(); i++) { Ins &n = emit(I_SELECT); n.w = w[i]; n.d = slot[&I] + i; n.a = op(s->getCondition(), vc ? i : 0); n.b = op(s->getTrueValue(), i); n.c = op(s->getFalseValue(), i); } return; }
    if (auto *c = dyn_cast<CastInst>(&I)) {
      vector<u16> sw; flat(c->getSrcTy(), sw); Value *v = c->getOperand(0); IOp o;
      switch (c->getOpcode()) { case Instruction::ZExt: o = I_ZEXT; break; case Instruction::SExt: o = I_SEXT; break; case Instruction::Trunc: o = I_TRUNC; break; case Instruction::PtrToInt: case Instruction::IntToPtr: o = (w[0] < sw[0]) ? I_TRUNC : w[0] > sw[0] ? I_ZEXT : I_COPY; break;
        case Instruction::BitCast: o = I_COPY; if (w != sw) { f->lists.push_back({}); unsigned li = f->lists.size() - 1; for (unsigned i = 0; i < sw.size(); i++) f->lists[li].push_back(op(v, i)); Ins &n = emit(I_INTRIN); n.sub = N_REDUCE; n.w = sw[0]; n.w2 = w[0]; n.imm = w.size(); n.x = li; n.d = slot[&I]; return; } break;
        default: return unsup(I); }
      for (unsigned i = 0; i < w.size(); i++) { Ins &n = emit(o); n.w = sw[i]; n.w2 = w[i]; n.d = slot[&I] + i; n.a = op(v, i); } return; }
    if (auto *fz = dyn_cast<FreezeInst>(&I)) { for (unsigned i = 0; i < w.size(); i++) copy(slot[&I] + i, op(fz->getOperand(0), i)); return; }
    if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
      if (t->isVectorTy()) return unsup(I);
      MapVector<Value *, APInt> vo; APInt co(64, 0); if (!cast<GEPOperator>(g)->collectOffset(*DL, 64, vo, co)) return unsup(I);
      int a = op(g->getPointerOperand()); i64 imm = co.getSExtValue(); int d = slot[&I];
      if (vo.empty()) { Ins &n = emit(I_GEP); n.d = d; n.a = a; n.imm = imm; n.b = ~0; n.c = 0; return; }
      bool first = true; for (auto &p : vo) { int ix = op(p.first); unsigned iw = p.first->getType()->getIntegerBitWidth(); if (iw != 64) { int s = fresh(); Ins &z = emit(iw < 64 ? I_SEXT : I_TRUNC); z.w = iw; z.w2 = 64; z.d = s; z.a = ix; ix = s; }
        Ins &n = emit(I_GEP); n.d = d; n.a = first ? a : d; n.imm = first ? imm : 0; n.b = ix; n.c = 1; n.x = (u32)p.second.getSExtValue(); first = false; if ((u64)p.second.getZExtValue() >> 32) fatal("gep scale"); } return; }
    if (auto *l = dyn_cast<LoadInst>(&I)) { vector<std::pair<u64, u16>> fo; flatOff(t, 0, fo); int a = op(l->getPointerOperand()); for (unsigned i = 0; i < fo.size(); i++) { Ins &n = emit(I_LOAD); n.w = fo[i].second; n.d = slot[&I] + i; n.a = a; n.imm = fo[i].first; } return; }
    if (auto *s = dyn_cast<StoreInst>(&I)) { Value *v = s->getValueOperand(); vector<std::pair<u64, u16>> fo; flatOff(v->getType(), 0, fo); int a = op(s->getPointerOperand()); for (unsigned i = 0; i < fo.size(); i++) { Ins &n = emit(I_STORE); n.w = fo[i].second; n.b = op(v, i); n.a = a; n.imm = fo[i].first; } return; }
    if (auto *al = dyn_cast<AllocaInst>(&I)) { Ins &n = emit(I_ALLOCA); n.d = slot[&I]; n.imm = DL->getTypeAllocSize(al->getAllocatedType()); n.a = al->isArrayAllocation() ? op(al->getArraySize()) : poolAdd({1, nullptr}); return; }
    if (auto *e = dyn_cast<ExtractValueInst>(&I)) { Type *o; unsigned s = aggIndex(e->getAggregateOperand()->getType(), e->getIndices(), o); for (unsigned i = 0; i < w.size(); i++) copy(slot[&I] + i, op(e->getAggregateOperand(), s + i)); return; }
    if (auto *e = dyn_cast<InsertValueInst>(&I)) { Type *o; unsigned s = aggIndex(t, e->getIndices(), o); unsigned n = nslots(o); for (unsigned i = 0; i < w.size(); i++) copy(slot[&I] + i, i >= s && i < s + n ? op(e->getInsertedValueOperand(), i - s) : op(e->getAggregateOperand(), i)); return; }
    if (auto *e = dyn_cast<ExtractElementInst>(&I)) { auto *ci = dyn_cast<ConstantInt>(e->getIndexOperand()); if (!ci) return unsup(I); copy(slot[&I], op(e->getVectorOperand(), ci->getZExtValue())); return; }
    if (auto *e = dyn_cast<InsertElementInst>(&I)) { auto *ci = dyn_cast<ConstantInt>(e->getOperand(2)); if (!ci) return unsup(I); for (unsigned i = 0; i < w.size(); i++) copy(slot[&I] + i, i == ci->getZExtValue() ? op(e->getOperand(1)) : op(e->getOperand(0), i)); return; }
    if (auto *e = dyn_cast<ShuffleVectorInst>(&I)) { auto m = e->getShuffleMask(); int n = cast<FixedVectorType>(e->getOperand(0)->getType())->getNumElements(); for (unsigned i = 0; i < w.size(); i++) { int k = m[i]; if (k < 0) copy(slot[&I] + i, ~0); else copy(slot[&I] + i, k < n ? op(e->getOperand(0), k) : op(e->getOperand(1), k - n)); } return; }
    if (auto *b = dyn_cast<BranchInst>(&I)) { if (b->isUnconditional()) { u32 e = edge(&B, b->getSuccessor(0)); emit(I_BR).x = e; } else { u32 e1 = edge(&B, b->getSuccessor(0)), e2 = edge(&B, b->getSuccessor(1)); Ins &n = emit(I_CBR); n.a = op(b->getCondition()); n.b = e1; n.c = e2; } return; }
    if (auto *s = dyn_cast<SwitchInst>(&I)) { SwitchInfo si; si.def = edge(&B, s->getDefaultDest()); for (auto &c : s->cases()) si.cases.push_back({c.getCaseValue()->getValue().getLimitedValue(), edge(&B, c.getCaseSuccessor())}); f->sw.push_back(si); Ins &n = emit(I_SWITCH); n.a = op(s->getCondition()); n.w = s->getCondition()->getType()->getIntegerBitWidth(); n.x = f->sw.size() - 1; return; }
    if (isa<UnreachableInst>(&I)) { emit(I_UNREACH); return; }
    if (auto *r = dyn_cast<ReturnInst>(&I)) { f->lists.push_back({}); if (r->getReturnValue()) { unsigned n = nslots(r->getReturnValue()->getType()); for (unsigned i = 0; i < n; i++) f->lists.back().push_back(op(r->getReturnValue(), i)); } unsigned li = f->lists.size() - 1; emit(I_RET).x = li; return; }
    if (auto *a = dyn_cast<AtomicRMWInst>(&I)) { int d = slot[&I]; Ins &n = emit(I_LOAD); n.w = w[0]; n.d = d; n.a = op(a->getPointerOperand()); int s = fresh(); Op o; bool x = false; switch (a->getOperation()) { case AtomicRMWInst::Add: o = ADD; break; case AtomicRMWInst::Sub: o = SUB; break; case AtomicRMWInst::And: o = AND; break; case AtomicRMWInst::Or: o = OR; break; case AtomicRMWInst::Xor: o = XOR; break; case AtomicRMWInst::Xchg: o = ADD; x = true; break; default: return unsup(I); } if (x) copy(s, op(a->getValOperand())); else bin(o, w[0], s, d, op(a->getValOperand())); Ins &m = emit(I_STORE); m.w = w[0]; m.a = op(a->getPointerOperand()); m.b = s; return; }
    if (auto *a = dyn_cast<AtomicCmpXchgInst>(&I)) { int d = slot[&I]; Ins &n = emit(I_LOAD); n.w = w[0]; n.d = d; n.a = op(a->getPointerOperand()); Ins c; memset(&c, 0, sizeof c); c.op = I_CMP; c.sub = EQ; c.w = w[0]; c.d = d + 1; c.a = d; c.b = op(a->getCompareOperand()); f->code.push_back(c); int s = fresh(); Ins &q = emit(I_SELECT); q.w = w[0]; q.d = s; q.a = d + 1; q.b = op(a->getNewValOperand()); q.c = d; Ins &m = emit(I_STORE); m.w = w[0]; m.a = op(a->getPointerOperand()); m.b = s; return; }
    if (isa<FenceInst>(&I)) return;
    if (auto *ii = dyn_cast<IntrinsicInst>(&I)) {
      int d = w.size() ? slot[&I] : -1; auto id = ii->getIntrinsicID(); auto mk = [&](Intrin n, unsigned nargs) { unsigned lanes = w.size(); bool ovf = n <= N_SMULO; if (ovf) lanes = 1; for (unsigned l = 0; l < lanes; l++) { Ins &i = emit(I_INTRIN); i.sub = n; i.w = w[ovf ? 0 : l]; i.d = d + l; f->lists.push_back({}); i.x = f->lists.size() - 1; for (unsigned k = 0; k < nargs; k++) f->lists.back().push_back(op(ii->getArgOperand(k), ii->getArgOperand(k)->getType()->isVectorTy() ? l : 0)); } };
      switch (id) {
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_value: case Intrinsic::dbg_declare: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::sideeffect: case Intrinsic::invariant_end: return;
      case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::threadlocal_address: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptrmask: copy(d, op(ii->getArgOperand(0))); return;
      case Intrinsic::uadd_with_overflow: return mk(N_UADDO, 2); case Intrinsic::sadd_with_overflow: return mk(N_SADDO, 2); case Intrinsic::usub_with_overflow: return mk(N_USUBO, 2); case Intrinsic::ssub_with_overflow: return mk(N_SSUBO, 2); case Intrinsic::umul_with_overflow: return mk(N_UMULO, 2); case Intrinsic::smul_with_overflow: return mk(N_SMULO, 2);
      case Intrinsic::ctpop: return mk(N_CTPOP, 1); case Intrinsic::ctlz: return mk(N_CTLZ, 1); case Intrinsic::cttz: return mk(N_CTTZ, 1); case Intrinsic::umin: return mk(N_UMIN, 2); case Intrinsic::umax: return mk(N_UMAX, 2); case Intrinsic::smin: return mk(N_SMIN, 2); case Intrinsic::smax: return mk(N_SMAX, 2);
      case Intrinsic::usub_sat: return mk(N_USUBSAT, 2); case Intrinsic::uadd_sat: return mk(N_UADDSAT, 2); case Intrinsic::sadd_sat: return mk(N_SADDSAT, 2); case Intrinsic::ssub_sat: return mk(N_SSUBSAT, 2); case Intrinsic::fshl: return mk(N_FSHL, 3); case Intrinsic::fshr: return mk(N_FSHR, 3); case Intrinsic::bswap: return mk(N_BSWAP, 1); case Intrinsic::abs: return mk(N_ABS, 1); case Intrinsic::bitreverse: return mk(N_BITREV, 1);
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { Ins &i = emit(I_INTRIN); i.sub = N_MEMCPY; i.a = op(ii->getArgOperand(0)); i.b = op(ii->getArgOperand(1)); i.c = op(ii->getArgOperand(2)); return; }
      case Intrinsic::memset: { Ins &i = emit(I_INTRIN); i.sub = N_MEMSET; i.a = op(ii->getArgOperand(0)); i.b = op(ii->getArgOperand(1)); i.c = op(ii->getArgOperand(2)); return; }
      case Intrinsic::trap: emit(I_INTRIN).sub = N_TRAP; return;
      case Intrinsic::is_constant: copy(d, poolAdd({0, nullptr})); return;
      case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_mul: { Value *v = ii->getArgOperand(0); unsigned n = nslots(v->getType()); Op o = id == Intrinsic::vector_reduce_add ? ADD : id == Intrinsic::vector_reduce_or ? OR : id == Intrinsic::vector_reduce_and ? AND : id == Intrinsic::vector_reduce_mul ? MUL : XOR; copy(d, op(v, 0)); for (unsigned i = 1; i < n; i++) bin(o, w[0], d, d, op(v, i)); return; }
      default: return unsup(I); } }
    if (auto *c = dyn_cast<CallBase>(&I)) {
      if (c->isInlineAsm()) { if (t->isVoidTy()) return; return unsup(I); }
      CallInfo ci; ci.f = nullptr; ci.fop = ~0; Value *cv = c->getCalledOperand()->stripPointerCasts(); if (auto *ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
      if (auto *cf = dyn_cast<Function>(cv)) ci.f = fmap[cf]; else ci.fop = op(c->getCalledOperand());
      for (auto &a : c->args()) { vector<u16> aw; flat(a->getType(), aw); for (unsigned i = 0; i < aw.size(); i++) { ci.args.push_back(op(a, i)); ci.argw.push_back(aw[i]); } }
      ci.ret = w.size() ? slot[&I] : -1; ci.retw = w; f->calls.push_back(ci); u32 k = f->calls.size() - 1; emit(I_CALL).x = k;
      if (auto *iv = dyn_cast<InvokeInst>(&I)) { u32 e = edge(&B, iv->getNormalDest()); emit(I_BR).x = e; } return; }
    unsup(I);
  }
};
static string demang(StringRef n) {
  string s = demangle(n.str()); size_t p = s.rfind("::h"); if (p != string::npos && s.size() - p == 19) s.resize(p);
  static const std::pair<const char *, const char *> sub[] = {{"$LT$", "<"}, {"$GT$", ">"}, {"$RF$", "&"}, {"$u20$", " "}, {"$C$", ","}, {"$u7b$", "{"}, {"$u7d$", "}"}, {"$LP$", "("}, {"$RP$", ")"}, {"$BP$", "*"}, {"..", "::"}};
  for (auto &q : sub) { size_t i = 0; while ((i = s.find(q.first, i)) != string::npos) s.replace(i, strlen(q.first), q.second); }
  if (s.size() > 2 && s[0] == '_' && s[1] == '<') s = s.substr(1); return s; }
static Builtin builtinOf(const string &n, const string &d, const Function &F) {
  static const std::map<string, Builtin> m = {{"__rust_alloc", B_ALLOC}, {"__rust_alloc_zeroed", B_ALLOCZ}, {"__rust_dealloc", B_DEALLOC}, {"__rust_realloc", B_REALLOC}, {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"free", B_FREE}, {"realloc", B_LREALLOC}, {"posix_memalign", B_MEMALIGN}, {"memcmp", B_MEMCMP}, {"bcmp", B_BCMP}, {"strlen", B_STRLEN}, {"abort", B_ABORT}, {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET},
    {"rsym_char", B_CHAR}, {"rsym_range", B_RANGE}, {"rsym_u64", B_U64}, {"rsym_assume", B_ASSUME}, {"rsym_assert", B_ASSERT}, {"rsym_cover", B_COVER}, {"rsym_concrete", B_CONCRETE}, {"rsym_ref", B_REF}, {"rsym_expect_panic", B_EXPECT_PANIC}, {"rsym_note", B_NOTE}, {"rsym_known", B_KNOWN}, {"rsym_pin", B_PIN}};
  auto it = m.find(n); if (it != m.end()) return it->second;
  if (F.hasFnAttribute(Attribute::NoReturn)) { for (const char *p : {"core::", "std::", "alloc::", "<core::", "<alloc::", "<std::", "rust_begin_unwind", "__rust_start_panic"}) if (d.compare(0, strlen(p), p) == 0) return B_PANIC; }
  if (F.isDeclaration() && !F.isIntrinsic()) return B_UNKNOWN;
  return B_NONE; }
void loadProg(const char *path, const vector<string> &entries, const vector<string> &summaries, Prog &p) {
  P = &p; SMDiagnostic err; auto Mu = parseIRFile(path, err, ctx); Module *M = Mu.release(); if (!M) { err.print("rsym", errs()); _Exit(70); }
  StripDebugInfo(*M); std::set<string> keep(entries.begin(), entries.end());
  vector<std::regex> rx; for (auto &s : summaries) rx.emplace_back(s);
  for (auto &F : *M) { string d = demang(F.getName()); bool summ = false; for (auto &r : rx) if (std::regex_search(d, r)) summ = true;
    F.removeFnAttr(Attribute::AlwaysInline); F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr("target-cpu"); F.removeFnAttr("target-features");
    if (summ || builtinOf(F.getName().str(), d, F) != B_NONE) { F.removeFnAttr(Attribute::InlineHint); F.addFnAttr(Attribute::NoInline); } 
    if (F.getName() == "memcpy" || F.getName() == "memset" || F.getName() == "memmove" || F.getName() == "memcmp" || F.getName() == "bcmp" || F.getName() == "__rust_alloc" || F.getName()=="__rust_realloc" || F.getName()=="__rust_dealloc" || F.getName()=="__rust_alloc_zeroed") F.deleteBody(); }
  internalizeModule(*M, [&](const GlobalValue &g) { return keep.count(g.getName().str()) || g.getName().starts_with("mem") || g.getName() == "bcmp"; });
  { LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM; PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
    ModulePassManager MPM; const char *pl = getenv("RSYM_PASSES"); if (!pl) pl = "globaldce,function(sroa,early-cse,simplifycfg),cgscc(inline),globaldce,function(sroa,early-cse<memssa>,simplifycfg<no-switch-to-lookup;no-switch-range-to-icmp>,adce)";
    if (auto e = PB.parsePassPipeline(MPM, pl)) { errs() << toString(std::move(e)) << "\n"; _Exit(70); } MPM.run(*M, MAM); }
  DL = &M->getDataLayout(); // functions are converted on first call
  p.globals.push_back(nullptr); p.pool.push_back({0, nullptr}); // object 0: never valid; pool 0: zero
  for (auto &F : *M) { if (F.isIntrinsic()) continue; Func *f = new Func(); f->name = F.getName().str(); f->dem = demang(F.getName()); f->defined = !F.isDeclaration(); f->isnoret = F.hasFnAttribute(Attribute::NoReturn); f->b = builtinOf(f->name, f->dem, F); f->idx = p.funcs.size(); p.funcs.push_back(f); fmap[&F] = f; p.byName[f->name] = f;
    f->isrepo = f->dem.compare(0, 5, "unic_") == 0 || f->dem.find("<unic_") != string::npos || f->dem.find(" unic_") != string::npos || f->dem.find("&unic_") != string::npos;
    if (f->b == B_NONE) for (auto &r : rx) if (std::regex_search(f->dem, r)) f->summ = 1;
    Global *g = new Global(); g->name = f->name; g->size = 0; g->ro = true; g->fn = f; g->addr = (u64)p.globals.size() << 32; f->addr = g->addr; gaddr[&F] = g->addr; p.globals.push_back(g); }
  vector<std::pair<GlobalVariable *, Global *>> gv;
  for (auto &G : M->globals()) { Global *g = new Global(); g->name = G.getName().str(); g->size = DL->getTypeAllocSize(G.getValueType()); g->ro = G.isConstant(); g->addr = (u64)p.globals.size() << 32; g->data.assign(g->size, 0); gaddr[&G] = g->addr; p.globals.push_back(g); gv.push_back({&G, g}); }
  for (auto &x : gv) if (x.first->hasInitializer()) fillBytes(x.first->getInitializer(), x.second->data, 0);
  for (auto &F : *M) { if (F.isIntrinsic()) continue; Func *f = fmap[&F]; flat(F.getReturnType(), f->retw); if (f->b != B_NONE || !f->defined) continue; f->lf = &F; }
}
void ensureConv(Func *f) { if (f->lf) { Conv c(*(Function *)f->lf, f); f->lf = nullptr; c.run(); } }
