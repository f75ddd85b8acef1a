// The executor's own instruction form, lowered lazily from LLVM IR one function at a time.
#pragma once
#include "expr.hpp"
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>

struct Val { uint64_t c = 0; E *e = nullptr; };      // concrete when e == nullptr

struct Opnd { int32_t slot = -1; uint64_t c = 0; };  // slot >= 0: register; otherwise the constant c

enum class Op : uint8_t {
  Bin, ICmp, Select, ZExt, SExt, Trunc, Copy,
  FBin, FCmp, FNeg, SIToFP, UIToFP, FPToSI, FPToUI, FPCast,
  Load, Store, Alloca, Gep, Call, Ret, Br, CondBr, Switch, Unreachable,
  LandingPad, Resume, MemCpy, MemSet, Intrinsic, AtomicRMW, CmpXchg, Nop, Unsupported
};
enum class Intr : uint8_t { UMin, UMax, SMin, SMax, Abs, CtPop, CtLz, CtTz, BSwap, FShl, FShr, UAddO, USubO, UMulO, SAddO, SSubO, SMulO, USubSat, UAddSat, SSubSat, SAddSat, TypeId, Trap, StackSave, ObjectSize, IsConstant, FAbs, BitReverse, VaStart, VaCopy, FFloor, FCeil, FTrunc, FRound, FSqrt, FMulAdd, FMin, FMax };

struct Edge { uint32_t target; uint32_t bb; std::vector<std::pair<int32_t, Opnd>> copies; };

struct Func;
struct Inst {
  Op op; uint8_t sub = 0;          // Bin/ICmp: K;  Intrinsic: Intr; FBin: opcode; FCmp: predicate
  bool neg = false;                // ICmp: negate the result; MemCpy: memmove
  bool invoke = false; mutable bool seen = false;
  uint16_t w = 0, w2 = 0;          // result width / operand width
  int32_t dst = -1;
  uint32_t line = 0; const char *file = nullptr;
  std::vector<Opnd> ops;
  std::vector<uint64_t> imm;       // Gep: scales; Switch: case values; LandingPad: clauses; Call: widths of results
  std::vector<uint64_t> imm2;      // Gep: widths of the index operands; Switch: edges; LandingPad: kind of each clause; Call: byval sizes
  int32_t edge = -1, edge2 = -1;   // Br/CondBr: edges; Call(invoke): normal / unwind
  Func *callee = nullptr;          // direct calls
};

struct Func {
  std::string name;                // mangled (internal symbols carry a module suffix)
  void *llvm = nullptr;            // llvm::Function*; null for externals without a body
  uint64_t addr = 0;
  bool lowered = false, external = false;
  bool vararg = false; int builtin = -1; int nativeKind = -1;                // index into the executor's builtin table
  std::string file;                // source file of the definition, when known
  unsigned line = 0;
  std::vector<int32_t> params; std::vector<uint16_t> paramW;
  int nslots = 0;
  std::vector<Inst> code;
  std::vector<Edge> edges;
  uint64_t execCount = 0;
  std::set<unsigned> linesHit;
};

struct Global {
  std::string name; uint64_t size = 0; bool constant = false; bool external = false; void *llvm = nullptr; void *module = nullptr;
};

// ---- provided by loader.cpp
void loaderInit(const std::vector<std::string> &files);
Func *loaderFunc(const std::string &name);                    // null when unknown
void loaderLower(Func *f);
Func *loaderFuncAny(const std::string &name);                 // also functions no module declares (external)
Func *funcAt(uint64_t addr);
const std::vector<std::string> &loaderCtorOrder();             // names of functions run before the harness
// fill the initial bytes of a global; pointers are resolved to addresses
void globalInit(Global &g, std::vector<uint8_t> &bytes);
Global *globalByName(const std::string &name);
std::string demangle(const std::string &s);
// ---- provided by the executor
uint64_t allocGlobalAddress(Global *g);                        // assigns the address of a global
extern int (*builtinIndex)(const std::string &name);
extern std::string gLoaderError;
