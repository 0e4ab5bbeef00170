// Bit-vector expressions with hash-consing, interval-set domains, and the solver layer.
#pragma once
#include <cstdint>
#include <vector>
#include <string>
#include <unordered_map>
#include <map>
#include <utility>
#include <cstdio>
#include <cstdlib>
#include <cassert>
#include <cstring>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int64_t i64; typedef unsigned __int128 u128;

enum Op : u8 { CONST, VAR, LUT, BITS, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, SHL, LSHR, ASHR,
               AND, OR, XOR, EQ, ULT, SLT, ITE, SEXT, NOT };

struct Expr;
typedef Expr *E;
struct Piece { E src; u128 c; u16 lo, len; };      // src==null: constant bits c
struct Expr {
  Op op; u16 w; u32 id; int var; E atom; E k[3]; u128 c; u32 lut; std::vector<Piece> *p; u64 h;
};
static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }

// ---- variables -------------------------------------------------------------------------------
struct VarInfo { u16 bits; bool dense; };
extern std::vector<VarInfo> g_vars;

E mkConst(u128 v, unsigned w);
E mkVar(int id, unsigned bits);                    // width == bits
E mkLut(u32 table, E var);
E mkBin(Op op, E a, E b);
E mkNot(E a);
u128 maxVal(E e);
E mkEq(E a, E b);
E mkIte(E c, E a, E b);
E mkZext(E a, unsigned w);
E mkSext(E a, unsigned w);
E mkExtract(E a, unsigned lo, unsigned len);       // len bits starting at lo
E mkConcat(const std::vector<E> &lowToHigh);
static inline E mkTrue() { return mkConst(1, 1); }
static inline bool isC(E e) { return e->op == CONST; }
void collectVars(E e, std::vector<int> &out);
std::string show(E e, int depth = 6);

// ---- interval sets ---------------------------------------------------------------------------
typedef std::vector<std::pair<u32, u32>> Ivs;       // inclusive, sorted, disjoint, non adjacent
typedef u32 Dom;                                    // hash-consed id; 0 = empty
Dom domIntern(Ivs &&v);
const Ivs &domIvs(Dom d);
u64 domSize(Dom d);
Dom domAnd(Dom a, Dom b);
Dom domSub(Dom a, Dom b);
Dom domOrAll(std::vector<Dom> v);
Dom domFull(unsigned bits);
bool domHas(Dom d, u32 v);

// ---- tables (functions of one dense variable) --------------------------------------------------
struct LutT { u16 w; u16 bits = 21; std::string name; std::vector<std::pair<u64, Dom>> part; std::vector<u64> d64; std::vector<u32> d32; bool ready = false; Dom total; u64 at(u64 x) const { return x < d32.size() ? d32[x] : x < d64.size() ? d64[x] : 0; }
  std::unordered_map<u64,u32> index; };
extern std::vector<LutT *> g_luts;
u32 lutAdd(LutT *t);
u64 lutAt(u32 t, u32 x);

// ---- unary reasoning ---------------------------------------------------------------------------
// The set of values of e's only variable for which the 1-bit expression e is 1. certified by z3.
bool isUnary(E e);
E canonical(E e);
std::pair<Dom, Dom> condSplit(Dom d, E e);          // cached
// value partition of a unary expression over dom d; false if more than `limit` values
bool valuePart(E e, Dom d, size_t limit, std::vector<std::pair<u64, Dom>> &out);
u64 evalAt(E e, const std::map<int, u32> &m);       // full evaluation

// ---- z3 -----------------------------------------------------------------------------------------
struct Stats { u64 z3_queries = 0, z3_cert = 0, z3_unsat = 0, z3_sat = 0; double z3_time = 0; u64 cond_unique = 0; };
extern Stats g_st;
enum Res { UNSAT, SAT, UNKNOWN };
// conj of cs with var domains; model values for vars if wanted
Res z3Check(const std::vector<E> &cs, const std::vector<Dom> &doms, std::map<int, u64> *model);
[[noreturn]] void fatal(const char *fmt, ...);
