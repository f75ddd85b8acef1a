// Statements of every kind, nested.
#pragma once
#include "prog.h"
// kinds common to all languages come first
enum { KCall, KNull, KEmpty, KBlock, KIf, KIfElse, KWhile, KDo, KFor, KForDecl, KSwitch, KSwitchOne, KReturn, KDecl, KCommon, KTry = KCommon, KTry2, KCxx, KAtTry = KCommon, KAtFinally, KAtBoth, KSync, KPool, KForIn, KObjC };
static inline int kinds() { return gLang == CXX ? KCxx : gLang == OBJC ? KObjC : KCommon; }
static inline N *asBlk(N *s) { return s->k == SBlk ? s : Blk({s}); }
static int gLocals;
// a statement of kind k with s1, s2 inside and condition c
static inline N *stmtOf(Prog &g, int k, N *s1, N *s2, N *c) {
  std::string v = "llll"; v[3] = (char)('a' + gLocals++ % 26); v[2] = (char)('a' + gLocals / 26);
  switch (k) {
  case KCall: return g.use(c);
  case KNull: return Null();
  case KEmpty: return Blk();
  case KBlock: return Blk({s1, s2});
  case KIf: return If(c, s1);
  case KIfElse: return If(c, asBlk(s1), s2);
  case KWhile: return While(c, s1);
  case KDo: return Do(s1, c);
  case KFor: return For(nullptr, c, nullptr, s1);
  case KForDecl: { N *i = Var(v, &tyInt, Int(0)); return For(Decl(i), c, Un(clang::UO_PreInc, Ref(i)), s1); }
  case KSwitch: return Switch(c, Blk({Case(Int(1), s1), g.call(), Break(), Default(s2)}));
  case KSwitchOne: return Switch(c, Case(Int(1), s1));
  case KReturn: return Return();
  case KDecl: return Decl(Var(v, &tyInt, c));
  }
  if (gLang == CXX) { if (k == KTry) return Try(asBlk(s1), {Catch(asBlk(s2))}); N *x = Catch(asBlk(s1)); x->d = Var(v); return Try(Blk({g.call()}), {x, Catch(asBlk(s2))}); }
  switch (k) {
  case KAtTry: return AtTry(asBlk(s1), {AtCatch(asBlk(s2))});
  case KAtFinally: return AtTry(asBlk(s1), {AtFinally(asBlk(s2))});
  case KAtBoth: return AtTry(Blk({g.call()}), {AtCatch(asBlk(s1)), AtFinally(asBlk(s2))});
  case KSync: return Sync(Ref(g.o), asBlk(s1));
  case KPool: return Pool(asBlk(s1));
  default: return ForIn(Var(v, &tyId), Ref(g.o), s1);
  }
}
static inline bool usesCond(int k) { return k == KCall || (k >= KIf && k <= KSwitchOne) || k == KDecl; }
static inline bool usesTwo(int k) { return k == KBlock || k == KIfElse || k == KSwitch || k == KTry || (gLang == CXX && k == KTry2) || (gLang == OBJC && (k == KAtFinally || k == KAtBoth)); }
static inline bool usesOne(int k) { return k == KBlock || (k >= KIf && k <= KSwitchOne) || k >= KCommon; }
// conditions: o1, o2 are operators (symbolic)
static inline int conds() { return 22; }
// the same operator again, without parentheses
static inline N *again(N *x, N *b) { N *n = mk(EBin, {x, b}); n->op = x->op; n->sym = x->sym; n->t = x->t; return n; }
static inline N *condOf(Prog &g, int k, N *(*op)(N *, N *)) {
  N *a = Ref(g.a), *b = Ref(g.b);
  switch (k) {
  case 0: return a;
  case 1: return op(a, b);
  case 2: return op(Paren(op(a, b)), Int(3));
  case 3: return op(a, Paren(op(b, Int(3))));
  case 4: return Cond(a, b, Int(1));
  case 5: return Cond(Paren(op(a, b)), Int(2), Paren(op(b, Int(4))));
  case 6: return Un(clang::UO_LNot, Paren(op(a, b)));
  case 7: return Paren(op(a, b));
  case 8: return Call(g.h, {op(a, b)});
  case 9: return op(Call(g.h, {op(a, b)}), Paren(Cond(a, b, Int(5))));
  case 10: return Bin(clang::BO_Assign, a, Paren(op(b, Int(3))));
  case 11: return again(op(a, b), Int(3));
  case 12: return again(again(op(a, b), Int(3)), Ref(g.b));
  case 13: return Bin(clang::BO_LOr, Bin(clang::BO_LAnd, a, b), Bin(clang::BO_LAnd, Ref(g.b), Int(3)));
  case 14: return CCast(&tyChar, Paren(op(a, b)));
  case 15: return CCast(&tyInt, Paren(Cond(Paren(op(a, b)), Int(2), Int(4))));
  case 16: return Cond(a, Cond(b, Int(1), Int(2)), Cond(Ref(g.b), Int(3), Paren(op(Ref(g.a), Int(5)))));
  case 17: return Paren(Bin(clang::BO_Comma, Ref(g.b), Paren(op(a, b))));
  case 18: return Un(clang::UO_Minus, Paren(Paren(op(a, Paren(Cond(b, Int(1), Int(2)))))));
  case 19: return Bin(clang::BO_LT, Call(g.h, {Cond(a, b, Int(1))}), Paren(Paren(op(Ref(g.a), Ref(g.b)))));
  case 20: return Bin(clang::BO_LAnd, a, Paren(Bin(clang::BO_LT, Paren(op(Ref(g.a), b)), Int(3))));
  case 21: return Bin(clang::BO_LOr, Un(clang::UO_LNot, Paren(op(a, b))), CCast(&tyInt, Ref(g.b)));
  default: return Cond(Paren(Cond(Ref(g.a), Int(1), Ref(g.b))), a, b);
  }
}
static inline N *symOp(N *a, N *b) { return SBin(clang::BO_Mul, clang::BO_LOr, a, b); }
static inline N *symOrLess(N *a, N *b) { return gLang == C ? symOp(a, b) : Bin(BO_LT, a, b); }
