// Conventions for conditions, parameters and the ends of loops.
#include "stmts.h"
// !x and x != y as the condition of what has another branch
static N *truth(Prog &g, int k) {
  N *a = Ref(g.a), *b = Ref(g.b); switch (k) { case 0: return gLang == C ? SBin(BO_LT, BO_LOr, a, b) : Bin(sym_choose("op", 0, 2) == 0 ? BO_NE : sym_choose("other", 0, 1) ? BO_EQ : BO_LAnd, a, b); case 1: return gLang == CXX ? Un(sym_choose("op", UO_Plus, UO_LNot), a) : SUn(a); case 2: return Un(UO_LNot, Paren(Bin(BO_EQ, a, b)));
  case 3: return Bin(BO_LAnd, Un(UO_LNot, a), Bin(BO_NE, b, Int(3))); case 4: return Paren(Bin(BO_NE, a, b)); case 5: return Paren(Un(UO_LNot, a)); case 6: return Bin(BO_EQ, Paren(Bin(BO_NE, a, b)), Int(1)); case 7: return Un(UO_LNot, Un(UO_LNot, a)); case 8: return Bin(BO_Assign, a, Bin(BO_NE, b, Int(2))); default: return Ref(g.b); } }
HARNESS(inverted) {
  chooseLang(); Prog g; int k = sym_choose("condition", 0, 9), form = sym_choose("form", 0, 7); N *c = truth(g, k), *s, *x = c->k == EBin ? Paren(c) : c; if (c->k == EBin && k != 8 && sym_choose("bare", 0, 1)) x = c;
  switch (form) { case 0: s = If(c, g.call(), g.call()); break; case 1: s = If(c, g.call()); break; case 2: s = If(Ref(g.a), Blk(), If(c, Blk(), Blk())); break; case 3: s = If(Ref(g.a), Blk(), If(c, Blk())); break; case 4: s = g.use(k == 8 ? Cond(Paren(c), Int(1), Int(2)) : Cond(x, Int(1), Int(2))); break; case 5: s = While(c, If(Ref(g.a), g.call(), Null())); break; case 6: s = g.use(Cond(Ref(g.a), Paren(Cond(Paren(c), Int(1), Int(2))), Paren(Cond(Un(UO_LNot, Ref(g.b)), Int(4), Int(5))))); break; default: s = If(c, Blk({If(Un(UO_LNot, Ref(g.b)), g.call())}), Null()); }
  g.put({s}, k == 1 && form == 0 ? chooseContext() : 0);
  judgeEach(g, "inverted logic", "exactly the inverted conditions of what has another branch are reported", [](N *n, Wants &w) { if (n->k != ECond && !(n->k == SIf && n->c.size() > 2)) return; N *c = n->c[0]; if (c->k == EBin ? sym_concretize(c->op == BO_NE) : c->k == EUn && sym_concretize(c->op == UO_LNot)) w.add(c); }); }
// parameters
HARNESS(reassignment) {
  chooseLang(); Prog g; N *other = Parm("cccc"), *hid = Var("aaaa", &tyInt, Int(1)), *l = Var("llll", &tyInt, Int(2)), *gv = Var("vvvv", &tyInt, nullptr, FExtern); g.top.push_back(Fn("kkkk", &tyVoid, {other}, Blk({g.use(Int(1))}))); g.top.push_back(gv);
  int op = sym_choose("op", BO_Assign, BO_OrAssign + 1); std::vector<N *> v, pre; N *t; int target = sym_choose("target", 0, 6); if (op > BO_OrAssign) op = BO_EQ; if (op == BO_RemAssign) sym_assume(target == 0);
  switch (target) { case 0: t = Ref(g.a); break; case 1: t = Ref(g.b); break; case 2: t = Ref(l); pre = {Decl(l)}; break; case 3: t = Ref(gv); break; case 4: t = Ref(hid); break; case 5: t = Paren(Ref(g.a)); break; default: t = Ref(other); }
  N *e = Bin(op, t, target == 1 ? Bin(BO_Add, Ref(g.a), Int(1)) : Int(4)), *s; int form = target == 6 ? 0 : sym_choose("form", 0, op == BO_Assign ? 6 : 0);
  switch (form) { case 0: s = e; break; case 1: s = If(Paren(e), g.call()); break; case 2: s = For(Bin(BO_Assign, Ref(g.b), Int(0)), Ref(g.a), e, g.call()); break; case 3: s = g.use(Paren(e)); break; case 4: s = Bin(BO_Assign, Ref(g.b), e); break; case 5: s = While(Ref(g.b), Blk({e})); break; default: s = Blk({Un(UO_PreInc, Ref(g.b)), Decl(Var("mmmm", &tyInt, Paren(e)))}); }
  if (target == 4) s = Blk({Decl(hid), s}); if (target == 6) { g.top[0]->body->c.push_back(s); s = g.call(); } pre.push_back(s); if (target == 2) pre = {Blk(pre)}; g.put(pre, op == BO_Assign && form <= 1 ? chooseContext() : 0);
  judgeEach(g, "parameter reassignment", "exactly the assignments to parameters are reported", [](N *n, Wants &w) { if (n->k == EBin && n->op == BO_Assign && n->c[0]->k == ERef && n->c[0]->d->k == DParm) w.add(n); }); }
// a parameter of a function within the function
HARNESS(reassignment_inner) {
  gLang = CXX; Prog g; bool same = sym_choose("same name", 0, 1), in = sym_choose("inner", 0, 1), out = sym_choose("outer", 0, 1); N *p = Parm(same ? "aaaa" : "cccc"); N *m = Fn("mmmm", &tyVoid, {p}, Blk({in ? Bin(BO_Assign, Ref(p), Int(1)) : g.call()})); if (!in) m->body = Blk(); N *r = Rec("Llll", {m});
  g.put({mk(SDecl, {r}), out ? Bin(BO_Assign, Ref(g.a), Int(2)) : g.call()}, sym_choose("context", 0, 1) * 7);
  judgeEach(g, "parameter reassignment", "exactly the assignments to parameters are reported", [](N *n, Wants &w) { if (n->k == EBin && n->op == BO_Assign && n->c[0]->k == ERef && n->c[0]->d->k == DParm) w.add(n); }); }
// the last statement of a loop
static N *loop(Prog &g, int k, N *body) { switch (k) { case 0: return While(Ref(g.a), body); case 1: return Do(body, Ref(g.a)); case 2: return For(nullptr, Ref(g.b), nullptr, body); case 3: { N *i = Var("iiii", &tyInt, Int(0)); return For(Decl(i), Bin(BO_LT, Ref(i), Int(3)), Un(UO_PreInc, Ref(i)), body); } case 4: return gLang == OBJC ? ForIn(Var("xxxx", &tyId), Ref(g.o), body) : If(Ref(g.a), body); case 5: return If(Ref(g.a), body); case 6: return If(Ref(g.a), g.call(), body); case 7: return While(SInt("constant"), body); case 8: return Do(body, SInt("constant")); case 9: return For(nullptr, nullptr, nullptr, body); case 10: return For(nullptr, SInt("constant"), Un(UO_PreInc, Ref(g.b)), body); case 11: return Do(body, Bin(BO_LT, Ref(g.a), Int(0))); default: return While(Bin(BO_LAnd, Ref(g.a), Call(g.h, {Ref(g.b)})), body); } }
static N *leave(Prog &g, int k) { switch (k) { case 0: return Break(); case 1: return Continue(); case 2: return Return(); case 3: return Goto("tttt"); case 4: return g.call(); case 5: return Blk({Break()}); case 6: return If(Ref(g.a), Break()); default: return gLang == CXX ? Throw(Int(1)) : Null(); } }
static N *lastOf(N *body) { return body->k != SBlk ? nullptr : body->c.empty() ? nullptr : body->c.back(); }
static N *bodyOfLoop(N *n) { switch (n->k) { case SWhile: return n->c[1]; case SDo: return n->c[0]; case SFor: return n->c[3]; case SForIn: return n->c[2]; default: return nullptr; } }
HARNESS(branching_last) {
  chooseLang(); Prog g; int k = sym_choose("loop", 0, 12), l = sym_choose("leave", 0, 7), form = sym_choose("form", 0, 5); N *s = leave(g, l), *b;
  switch (form) { case 0: b = Blk({g.call(), s}); break; case 1: b = Blk({s}); break; case 2: b = s; break; case 3: b = Blk({s, g.call()}); break; case 4: b = Blk({g.call(), While(Ref(g.b), Blk({s}))}); break; default: b = Blk(); }
  g.put({While(Ref(g.a), Blk({loop(g, k, b), g.call()})), Label("tttt", g.call())}, l == 0 && form == 0 ? chooseContext() : 0);
  judgeEach(g, "avoid branching statement as last in loop", "exactly a break, continue or return that ends a loop body is reported", [](N *n, Wants &w) { N *b = bodyOfLoop(n), *l = b ? lastOf(b) : nullptr; if (l && (l->k == SBreak || l->k == SContinue || l->k == SReturn)) w.add(l); }); }
// long ifs at the end
HARNESS(early_exit) {
  long t = limit({"MAXIMUM_IF_LENGTH", 15}); if (gSet) gLang = C; else chooseLang(); Prog g; int gap = sym_int("lines", 0, 200), k = sym_choose("around", 0, gSet ? 2 : 12), form = sym_choose("form", 0, 6), l = form >= 2 && form <= 4 ? sym_choose("leave", 0, 7) : 0; N *tb = Blk({g.call()}), *i, *b; tb->gap = gap; i = If(Ref(g.a), tb);
  switch (form) { case 0: b = Blk({g.call(), i}); break; case 1: b = i; break; case 2: b = Blk({i, leave(g, l)}); break; case 3: b = Blk({g.call(), If(Ref(g.b), tb, g.call()), leave(g, l)}); break; case 4: b = Blk({i, g.call(), leave(g, l)}); break; case 5: b = Blk({Blk({i})}); break; default: b = Blk({If(Ref(g.b), g.call(), i)}); }
  if (form == 1 && k == 5) b = Blk({b}); if (k == 5 || k == 6) b = b->k == SIf ? Blk({b}) : b; g.put({While(Ref(g.a), Blk({loop(g, k, b), g.call()})), Label("tttt", g.call())}, 0);
  judgeEach(g, "prefer early exits and continue", "exactly a long if without else that ends a loop body or stands before leaving a block is reported", [t](N *n, Wants &w) {
    auto judge = [&](N *s) { if (s && s->k == SIf && s->c.size() == 2 && s->e.l - s->b.l + 1 > t) w.add(s, "Use early exit/continue to simplify code and reduce indentation"); };
    if (n->k == SWhile || n->k == SDo || n->k == SFor) { N *b = bodyOfLoop(n); judge(b->k == SBlk ? lastOf(b) : b); }
    if (n->k == SBlk && n->c.size() >= 2) { N *l = n->c.back(); if (l->k == SBreak || l->k == SContinue || l->k == SGoto || l->k == SReturn) judge(n->c[n->c.size() - 2]); } }); }
