// Hash-consed bit-vector expression DAG, evaluation under an assignment, and the
// bridge to Z3. Widths are 1..64 bits.
#pragma once
#include <cstdint>
#include <vector>
#include <string>
#include <unordered_map>
#include <memory>
#include <algorithm>

enum class K : uint8_t {
  Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
  Eq, Ult, Ule, Slt, Sle, Ite, ZExt, SExt, Extract, Concat
};

typedef std::vector<uint32_t> VarSet;   // sorted

struct E {
  K k; uint16_t w; uint32_t id; uint64_t v;  // v: constant / variable index / extract low bit
  E *a, *b, *c;
  const VarSet *vars;
  uint64_t lo = 0, hi = ~0ull;                // unsigned bounds of the value
  uint64_t ev; uint32_t stamp;               // evaluation memo
  void *z3;
};

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

struct VarInfo { std::string name; unsigned w; };

E *mkConst(uint64_t v, unsigned w);
E *mkVar(const std::string &name, unsigned w);
E *mkBin(K k, E *a, E *b);
E *mkIte(E *c, E *a, E *b);
E *mkZExt(E *a, unsigned w);
E *mkSExt(E *a, unsigned w);
E *mkExtract(E *a, unsigned lo, unsigned w);
E *mkConcat(E *hi, E *lo);
E *mkNot(E *a);                                   // width 1
const VarInfo &varInfo(uint32_t idx);
uint64_t evalBin(K k, uint64_t a, uint64_t b, unsigned w);

typedef std::vector<uint64_t> Model;              // by variable index; missing = 0
uint64_t evalE(E *e, const Model &m);
void evalNewStamp();
std::string showE(E *e, int depth = 6);

struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, cacheHits = 0, unknown = 0, modelHits = 0, internal = 0, z3 = 0, crossChecked = 0; double seconds = 0; };
extern SolverStats gSolver;

enum class Res { Sat, Unsat, Unknown };
// Is (constraints /\ cond) satisfiable?  On Sat, *m is updated in place to a model of all constraints and cond
// (m must be a model of `constraints` on entry).
// useZ3: decide with Z3; otherwise the incremental internal solver decides (its models are checked by evaluation,
// one in gCrossCheck of its unsatisfiable answers is repeated with Z3) and Z3 takes over when it gives up.
Res solve(const std::vector<E *> &constraints, E *cond, Model &m, bool useZ3 = false);
extern uint64_t gCrossCheck;
