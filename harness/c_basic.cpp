// Suspicious expressions.
#include "stmts.h"

static N *parens(N *e, int n) { while (n--) e = Paren(e); return e; }
// two or three unary operators with parentheses between
static bool gPlain;
static N *unary(Prog &g) {
  gLang = (Lang)sym_choose("language", 0, 2); auto op = [&](N *e) { return gLang == CXX ? Un(sym_choose("op", UO_Plus, UO_LNot), e) : SUn(e); };
  N *x; int np = sym_choose("parens", 0, 2), k = sym_choose("between", 0, 4); gPlain = k == 0 && np == 1; switch (k || np ? 0 : sym_choose("operand", 0, 4)) { case 0: x = Ref(g.a); break; case 1: x = Paren(Bin(BO_Add, Ref(g.a), Ref(g.b))); break; case 2: x = Un(UO_PostInc, Ref(g.a)); break; case 3: x = Call(g.h, {op(Ref(g.a))}); break; default: x = Int(7); }
  x = parens(op(x), np); if (k == 1) x = parens(op(x), 1); if (k == 2) x = Paren(Bin(BO_Mul, Ref(g.b), x)); if (k == 3) x = Call(g.h, {x}); if (k == 4) { N *c = mk(ECast, {x}); c->t = &tyInt; x = c; } return op(x); }
static bool isSign(N *n) { return sym_concretize(sym_and(n->op >= UO_Plus, n->op <= UO_LNot)); }
HARNESS(double_negative) { Prog g; N *e = unary(g); putExpr(g, e, gPlain); judgeEach(g, "double negative", "exactly !! and ~~ are reported", [](N *n, Wants &w) { if (n->k != EUn) return; N *i = bare(n->c[0]); if (i->k != EUn) return; bool same = sym_and(n->op == i->op, sym_or(n->op == UO_LNot, n->op == UO_Not)); if (sym_concretize(same)) w.add(n); }); }
HARNESS(multiple_unary) { Prog g; N *e = unary(g); putExpr(g, e, gPlain); judgeEach(g, "multiple unary operator", "exactly a + - ~ ! applied to another is reported", [](N *n, Wants &w) { if (n->k != EUn) return; N *i = bare(n->c[0]); if (i->k == EUn && isSign(n) && isSign(i)) w.add(n); }); }
// x % 2 == 1 with any operators and numbers
HARNESS(oddness) { chooseLang(); Prog g; int k = sym_choose("shape", 0, 5), wide = k == 0 || k == 1 ? sym_choose("wide", 0, 3) : 0; auto bop = [&](int lo, int hi, int dflt, N *a, N *b) { return gLang == C ? SBin(lo, hi, a, b) : Bin(sym_choose("other operator", 0, 1) ? dflt == BO_EQ ? BO_NE : BO_Div : dflt, a, b); };
  N *x = sym_choose("x", 0, 1) ? Ref(g.a) : Call(g.h, {Ref(g.b)}), *two = wide & 1 ? SLong() : SInt(), *one = wide & 2 ? SLong() : SInt(), *rem = bop(BO_Mul, BO_Sub, BO_Rem, x, k == 3 ? Paren(two) : k == 4 ? Ref(g.b) : two), *l = k == 1 ? one : rem, *r = k == 1 ? rem : one;
  N *e = bop(BO_LT, BO_NE, BO_EQ, l, k == 5 ? Un(UO_Minus, one) : r); if (k == 2) e = Bin(BO_LAnd, Ref(g.a), Paren(e));
  putExpr(g, e); judgeEach(g, "broken oddness check", "exactly x % 2 == 1 is reported", [](N *n, Wants &w) { if (n->k != EBin) return; auto rem2 = [](N *x) { if (x->k != EBin || x->c[1]->k != EInt) return false; return sym_and(x->op == BO_Rem, x->c[1]->v == 2); }; auto one = [](N *x) { if (x->k != EInt) return false; return (bool)(x->v == 1); };
    auto fits = [](N *x, N *y) { return x->k == EBin && x->c[1]->t == y->t; }; bool m = sym_or(sym_and(fits(n->c[0], n->c[1]) && rem2(n->c[0]), one(n->c[1])), sym_and(fits(n->c[1], n->c[0]) && rem2(n->c[1]), one(n->c[0]))); if (sym_concretize(sym_and(n->op == BO_EQ, m))) w.add(n); }); }
// conditions known when compiling: what C's rules fold
struct V { bool ok; long v; };
static V eval(N *e) {
  switch (e->k) {
  case EStr: return {true, e->v}; case EFloat: return {true, e->v}; case ERef: return {e->d->k == DEnumConst, 1}; case ECast: { V x = eval(e->c[0]); if (e->t == &tyChar) x.v = (signed char)x.v; return x; }
  case EInt: case EBool: return {true, e->v};
  case EParen: return eval(e->c[0]);
  case EUn: { V x = eval(e->c[0]); switch (e->op) { case UO_LNot: return {x.ok, x.v == 0}; case UO_Minus: return {x.ok, -x.v}; case UO_Not: return {x.ok, ~x.v}; case UO_Plus: return x; default: return {false, 0}; } }
  case ECond: { V c = eval(e->c[0]), a = eval(e->c[1]), b = eval(e->c[2]); return {sym_and(c.ok, sym_ite(c.v != 0, a.ok, b.ok)), (long)sym_ite(c.v != 0, a.v, b.v)}; }
  case EBin: {
    V a = eval(e->c[0]), b = eval(e->c[1]); if (!e->sym && e->op <= BO_Sub) { bool ok = sym_and(a.ok, b.ok); long d = (long)sym_ite(b.v == 0, 1, b.v); return e->op == BO_Sub ? V{ok, a.v - b.v} : e->op == BO_Mul ? V{ok, a.v * b.v} : V{sym_and(ok, b.v != 0), (int)a.v % (int)d}; } bool both = sym_and(a.ok, b.ok); bool az = sym_and(a.ok, a.v == 0), an = sym_and(a.ok, a.v != 0), bz = sym_and(b.ok, b.v == 0), bn = sym_and(b.ok, b.v != 0);
    struct { int op; bool ok; long v; } t[] = {{BO_LT, both, a.v < b.v}, {BO_GT, both, a.v > b.v}, {BO_LE, both, a.v <= b.v}, {BO_GE, both, a.v >= b.v}, {BO_EQ, both, a.v == b.v}, {BO_NE, both, a.v != b.v}, {BO_And, both, a.v & b.v}, {BO_Xor, both, a.v ^ b.v}, {BO_Or, both, a.v | b.v},
      {BO_LAnd, sym_or(sym_or(az, bz), sym_and(an, bn)), sym_and(an, bn)}, {BO_LOr, sym_or(sym_or(an, bn), sym_and(az, bz)), sym_or(an, bn)}};
    V r{false, 0}; for (auto &x : t) { r.ok = sym_ite(e->op == x.op, x.ok, r.ok); r.v = sym_ite(e->op == x.op, x.v, r.v); } return r; }
  default: return {false, 0}; } }
static N *gOne;
static N *small() { N *n = mk(EInt); n->v = sym_int("small literal", 0, 15); n->sym = true; n->t = &tyInt; return n; }
static N *tok(const char *s, long v) { N *n = Tok(s, &tyInt); n->v = v; return n; }
static N *constant(Prog &g) {
  gOne = Enumerator("Aaaa"); N *one = Enumerator("Bbbb"); N *en = EnumT("Eeee", {one, gOne}, new Ty{TEnum}); g.top.push_back(en);
  auto op = [&](N *a, N *b) { if (gLang == C) return SBin(BO_LT, BO_LOr, a, b); static const int ops[] = {BO_LT, BO_NE, BO_And, BO_LAnd, BO_LOr}; return Bin(ops[sym_choose("op", 0, 4)], a, b); };
  N *a = Ref(g.a); int k = sym_choose("condition", 0, 22); gPlain = k == 4; switch (k) {
  case 0: return a; case 1: return SInt(); case 2: return gLang == CXX ? SBool() : Un(UO_Plus, SInt()); case 3: return op(SInt(), SInt()); case 4: return op(a, SInt()); case 5: return op(SInt(), Call(g.h, {a})); case 6: return Un(UO_LNot, Paren(op(SInt(), a)));
  case 7: return op(Paren(op(a, SInt())), SInt()); case 8: return op(SInt(), Paren(op(SInt(), a))); case 9: return Cond(SInt(), a, SInt()); case 10: return Cond(a, SInt(), SInt()); case 11: return Un(UO_LNot, Un(UO_Minus, SInt())); case 12: return op(Un(UO_Minus, SInt()), Un(UO_Not, SInt()));
  case 13: return tok("'x'", 'x'); case 14: return tok("1.5", 1); case 15: return CCast(&tyInt, tok("0.5", 0)); case 16: return Ref(gOne); case 17: return Bin(BO_LAnd, tok("'\\0'", 0), a); case 18: return CCast(&tyChar, SInt());
  case 19: return Bin(BO_Sub, small(), small()); case 20: return Bin(BO_Rem, small(), small()); case 21: return Bin(BO_LOr, a, Paren(Bin(BO_Mul, small(), Un(UO_Minus, small())))); default: return Bin(BO_LAnd, Paren(Bin(BO_Rem, a, small())), CCast(&tyChar, SInt())); } }
HARNESS(constant_if) { chooseLang(); Prog g; N *c = constant(g), *s; switch (sym_choose("statement", 0, 3)) { case 0: s = If(c, Blk()); break; case 1: s = If(Ref(g.a), Blk({If(c, g.call(), g.call())})); break; case 2: s = While(c, g.call()); break; default: s = If(Ref(g.a), g.call(), If(c, Blk())); }
  g.put({s}, sym_choose("context", 0, 1) * 7 % (Prog::contexts() + 1)); judgeEach(g, "constant if expression", "exactly the if conditions known when compiling are reported", [](N *n, Wants &w) { if (n->k == SIf && sym_concretize(eval(n->c[0]).ok)) w.add(n->c[0]); }); }
HARNESS(constant_cond) { chooseLang(); Prog g; N *c = constant(g); if (c->k == ECond || c->k == EBin) c = Paren(c); N *x = sym_choose("kind", 0, 1) ? Cond(c, Ref(g.a), Int(3)) : Cond(Ref(g.a), Int(4), Paren(Cond(c, Ref(g.b), Ref(g.a)))); putExpr(g, x, gPlain); judgeEach(g, "constant conditional operator", "exactly the ?: conditions known when compiling are reported", [](N *n, Wants &w) { if (n->k == ECond && sym_concretize(eval(n->c[0]).ok)) w.add(n->c[0]); }); }
