// Hash-consed bit-vector expressions, their concrete evaluation, and the Z3 bridge.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <algorithm>
#include <bitset>

typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8; typedef int64_t i64;

enum Op : u8 {
  O_CONST, O_VAR,
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
  O_ITE, O_ZEXT, O_SEXT, O_EXTRACT, O_CONCAT,
  // IEEE-754 operations on bit patterns (width 32 or 64)
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FEQ, O_FLT, O_FLE, O_FUNO,
  O_FPTOSI, O_FPTOUI, O_SITOFP, O_UITOFP, O_FPTRUNC, O_FPEXT,
};

typedef std::vector<u32> VarSet;  // sorted var ids

struct Expr {
  Op op; u16 w; u32 id; u64 c;          // c: constant value / var id / extract offset
  Expr* k[3];
  const VarSet* vs;
  u64* tab;                              // 256 values when exactly one byte variable
  void* z3;
  u32 stamp; u64 val;                    // evaluation memo
  u32 size;                              // dag-ish size (saturating)
};

typedef std::bitset<256> Dom;

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx(u64 v, unsigned w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }

struct VarInfo { std::string name; unsigned w; };
extern std::vector<VarInfo> g_vars;

Expr* mkConst(u64 c, unsigned w);
Expr* mkVar(const std::string& name, unsigned w);
Expr* mk(Op op, unsigned w, Expr* a, Expr* b = nullptr, Expr* c = nullptr, u64 imm = 0);
Expr* mkNot1(Expr* a);
Expr* mkExtract(Expr* a, unsigned off, unsigned w);
static inline bool isC(Expr* e) { return e->op == O_CONST; }
static inline bool isC(Expr* e, u64 v) { return e->op == O_CONST && e->c == v; }
u64 foldOp(Op op, unsigned w, unsigned kw, u64 a, u64 b, u64 c, u64 imm);
u64 evalExpr(Expr* e, const std::vector<u64>& model, bool newEpoch = true);
const u64* exprTable(Expr* e);           // e must depend on exactly one 8-bit var
bool singleByte(Expr* e, u32& var);
Dom domOf(Expr* boolExpr);
Expr* varExpr(u32 id);
Expr* exprFromTable(Expr* v, const u64* t, const Dom& dom, unsigned w);   // null when it has too many pieces
std::string exprStr(Expr* e, int depth = 6);
u64 exprCount();

// solver
struct SolverStats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0; double secs = 0; };
extern SolverStats g_ss;
void solverInit(unsigned timeoutMs);
// 1 sat, 0 unsat, -1 unknown.  On sat fills values of all variables that occur in cs.
int solverCheck(const std::vector<Expr*>& cs, std::vector<std::pair<u32, u64>>* out, bool useCache = true);
std::string solverDump(const std::vector<Expr*>& cs);
