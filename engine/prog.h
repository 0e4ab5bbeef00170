// Flattened program representation produced from LLVM IR by load.cpp.
#pragma once
#include "expr.h"
enum IOp : u8 { I_BIN, I_CMP, I_SELECT, I_ZEXT, I_SEXT, I_TRUNC, I_COPY, I_GEP, I_LOAD, I_STORE, I_ALLOCA, I_CALL, I_RET,
                I_BR, I_CBR, I_SWITCH, I_UNREACH, I_INTRIN, I_UNSUP, I_RMW, I_CMPXCHG };
enum Intrin : u8 { N_UADDO, N_SADDO, N_USUBO, N_SSUBO, N_UMULO, N_SMULO, N_CTPOP, N_CTLZ, N_CTTZ, N_UMIN, N_UMAX, N_SMIN, N_SMAX,
                   N_USUBSAT, N_UADDSAT, N_SADDSAT, N_SSUBSAT, N_FSHL, N_FSHR, N_BSWAP, N_ABS, N_BITREV, N_MEMCPY, N_MEMSET, N_TRAP, N_REDUCE };
struct Ins { u8 op, sub, w, w2; int d, a, b, c; u32 x; i64 imm; };
struct Copy { int d, s; };
struct Edge { u32 target; u32 cb, ce; };            // phi copies [cb,ce)
struct SwitchInfo { std::vector<std::pair<u64, u32>> cases; u32 def; };  // edges
struct Func;
enum Builtin : u8 { B_NONE, B_ALLOC, B_ALLOCZ, B_DEALLOC, B_REALLOC, B_MALLOC, B_CALLOC, B_FREE, B_LREALLOC, B_MEMALIGN, B_MEMCMP, B_BCMP, B_STRLEN, B_PANIC,
  B_CHAR, B_RANGE, B_U64, B_ASSUME, B_ASSERT, B_COVER, B_CONCRETE, B_REF, B_EXPECT_PANIC, B_NOTE, B_KNOWN, B_ABORT, B_NOP, B_MEMCPY, B_MEMSET, B_UNKNOWN, B_PIN };
struct CallInfo { Func *f; int fop; std::vector<int> args; std::vector<u16> argw; int ret; std::vector<u16> retw; };
struct Func { std::string name, dem; bool defined = false, isnoret = false, isrepo = false; Builtin b = B_NONE; int nregs = 0, nparams = 0; std::vector<u16> paramw, retw;
  std::vector<Ins> code; std::vector<Edge> edges; std::vector<Copy> copies; std::vector<std::vector<int>> lists; std::vector<CallInfo> calls; std::vector<SwitchInfo> sw;
  std::vector<std::string> msgs; u64 addr = 0; u32 idx = 0; int summ = 0; std::vector<u32> slut; bool visited = false; u64 hits = 0; void *lf = nullptr; };
struct Global { std::string name; u64 addr; u32 size; bool ro; std::vector<u8> data; Func *fn = nullptr; };
struct Val { u64 v; E e; };
struct Prog { std::vector<Func *> funcs; std::vector<Global *> globals; // globals indexed by object id
  std::vector<Val> pool; std::unordered_map<std::string, Func *> byName; };
void loadProg(const char *path, const std::vector<std::string> &entries, const std::vector<std::string> &summaries, Prog &p);
