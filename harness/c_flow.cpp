// Statements that cannot run, or not as they look.
#include "stmts.h"
// statements that may leave
static N *leaver(Prog &g, int k) {
  switch (k) {
  case 0: return Return(); case 1: return g.call(); case 2: return Break(); case 3: return Continue(); case 4: return Goto("tttt"); case 5: return Blk({g.call(), Return()}); case 6: return Blk({Break(), g.call()}); case 7: return If(Ref(g.a), Return()); case 8: return If(Ref(g.a), Return(), Continue());
  case 9: return If(Ref(g.a), Blk({g.call(), Break()}), Blk({Return()})); case 10: return If(Ref(g.a), g.call(), Return()); case 11: return While(Ref(g.b), Return()); case 12: return If(Ref(g.a), If(Ref(g.b), Break(), Return()), Return()); case 13: return Blk({Blk({Return()})}); case 14: return Null();
  case 15: return Blk({Return(), Label("uuuu", g.call())}); case 16: return Blk({Return(), Label("uuuu", g.call()), Return()}); case 17: return Switch(Ref(g.a), Blk({Case(Int(1), Return()), Default(Return())})); default: return gLang == CXX ? Throw(Int(1)) : gLang == OBJC ? AtThrow(Ref(g.o)) : nullptr; } }
static bool labelled(N *s) { return s->k == SCase || s->k == SDefault || s->k == SLabel; }
// whether the end of a statement is never reached
static bool leaves(N *s) {
  switch (s->k) {
  case SReturn: case SBreak: case SContinue: case SGoto: case EThrow: case SAtThrow: return true;
  case SCase: return leaves(s->c[1]); case SDefault: return leaves(s->c[0]);
  case SBlk: { bool l = false; for (N *x : s->c) l = l && !labelled(x) ? true : leaves(x); return l; }
  case SIf: return s->c.size() > 2 && leaves(s->c[1]) && leaves(s->c[2]);
  default: return false; } }
HARNESS(dead_code) {
  chooseLang(); Prog g; int k1 = sym_choose("first", 0, gLang == C ? 17 : 18), k2 = sym_choose("second", 0, 3), k3 = sym_choose("third", 0, k2 ? 2 : 1); N *s1 = leaver(g, k1), *s2, *s3;
  switch (k2) { case 0: s2 = g.call(); break; case 1: s2 = Label("tttt", g.call()); break; case 2: s2 = If(Ref(g.b), Return(), Break()); break; default: s2 = Null(); } bool label = k2 == 1;
  switch (k3) { case 0: s3 = g.call(); break; case 1: s3 = Blk(); break; default: s3 = Label("vvvv", Null()); }
  std::vector<N *> v = {s1, s2, s3}; if (!label) v.push_back(Label("tttt", g.call())); int kind = k2 <= 1 && !k3 ? sym_choose("block", 0, 4) : k1 % 5; N *b;
  switch (kind) { case 0: b = While(Ref(g.b), Blk(v)); break; case 1: b = Do(Blk(v), Ref(g.b)); break; case 2: b = For(nullptr, nullptr, nullptr, Blk({If(Ref(g.a), Blk(v))})); break; case 3: v[0] = Case(Int(1), v[0]); v.insert(v.begin(), g.call()); v.insert(v.begin(), Default(Null())); v.push_back(Case(Int(2), g.call())); b = While(Ref(g.a), Blk({Switch(Ref(g.a), Blk(v))})); break; default: b = While(Ref(g.a), Switch(Ref(g.a), Blk(v))); }
  g.put({b}, sym_choose("context", 0, 1) * (k1 == 0) * 7 % (Prog::contexts() + 1));
  judgeEach(g, "dead code", "exactly the first statement of a block that cannot be reached is reported", [](N *n, Wants &w) { if (n->k != SBlk) return; bool dead = false; for (N *x : n->c) { if (dead && !labelled(x)) { w.add(x); return; } dead = leaves(x); } }); }
HARNESS(collapsible) {
  chooseLang(); Prog g; N *c = Ref(g.a), *s; int k = sym_choose("inner", 0, 7), e1 = sym_choose("outer else", 0, 2); N *in = k & 1 ? If(Ref(g.b), Blk(), g.call()) : If(Ref(g.b), g.call()), *t;
  switch (k / 2) { case 0: t = Blk({in}); break; case 1: t = Blk({in, k & 1 ? Null() : g.call()}); break; case 2: t = Blk({Blk({in})}); break; default: t = k & 1 ? Blk({g.call(), in}) : in; }
  if (t->k == SIf && e1) t = Blk({t}); s = e1 == 0 ? If(c, t) : e1 == 1 ? If(c, t, g.call()) : If(c, Blk({g.call()}), If(Ref(g.b), t)); g.put({s}, chooseContext());
  judgeEach(g, "collapsible if statements", "exactly an if around nothing but an if, both without else, is reported", [](N *n, Wants &w) { if (n->k != SIf || n->c.size() > 2) return; N *t = n->c[1]; if (t->k == SBlk) { if (t->c.size() != 1) return; t = t->c[0]; } if (t->k == SIf && t->c.size() == 2) w.add(n); }); }
HARNESS(for_while) {
  chooseLang(); Prog g; int i = sym_choose("init", 0, 2), c = sym_choose("condition", 0, 2), s = sym_choose("step", 0, 1); N *v = Var("iiii", &tyInt, Int(0));
  N *f = For(i == 0 ? nullptr : i == 1 ? Decl(v) : Bin(BO_Assign, Ref(g.a), Int(1)), c == 0 ? nullptr : c == 1 ? Ref(g.b) : symOrLess(Ref(g.a), Int(5)), s ? Un(UO_PreInc, Ref(g.a)) : nullptr, sym_choose("body", 0, 1) ? Blk({g.call()}) : Null()); g.put({f}, chooseContext());
  judgeEach(g, "for loop should be while loop", "exactly a for loop with nothing but a condition is reported", [](N *n, Wants &w) { if (n->k == SFor && !n->c[0] && n->c[1] && !n->c[2]) w.add(n); }); }
HARNESS(jumbled) {
  chooseLang(); Prog g; N *i = Var("iiii", &tyInt, Int(0)), *j = Var("jjjj", &tyInt, Int(0)), *k = Var("iiii", &tyInt, Int(0)); int form = sym_choose("nesting", 0, 9), di = sym_choose("outer declares", 0, 2), inc = sym_choose("step", 0, 10), dj = sym_choose("inner declares", 0, 2); N *d1, *d2, *st; bool hides = dj == 2;
  if (di == 0) d1 = Decl(i); else if (di == 1) d1 = mk(SDecl, {i, Var("kkkk", &tyInt, Int(1))}); else { d1 = Bin(BO_Assign, Ref(g.a), Int(0)); i = g.a; }
  d2 = dj == 0 ? Decl(j) : dj == 1 ? nullptr : Decl(k); if (dj == 1) j = g.b; if (dj == 2) j = k; N *x = hides && di != 2 ? k : i;
  switch (inc) { case 0: st = Un(UO_PostInc, Ref(x)); break; case 1: st = Un(UO_PreInc, Ref(x)); break; case 2: st = Un(UO_PreDec, Ref(x)); break; case 3: st = Un(UO_PostDec, Ref(x)); break; case 4: st = Un(UO_PreInc, Ref(j)); break; case 5: st = Bin(BO_AddAssign, Ref(x), Int(1)); break; case 6: st = Un(UO_PostInc, Ref(g.a)); break; case 7: st = nullptr; break; case 8: st = Un(UO_PreInc, Paren(Ref(x))); break; case 9: st = Un(UO_AddrOf, Ref(x)); break; default: st = Un(UO_Minus, Ref(x)); }
  N *in = For(d2, Bin(BO_LT, Ref(j), Int(9)), st, g.call()), *b; switch (form) { case 0: b = Blk({in}); break; case 1: b = in; break; case 2: b = Blk({in, g.call()}); break; case 3: b = Blk({If(Ref(g.b), in)}); break; case 4: b = Blk({For(nullptr, Ref(g.b), nullptr, in)}); break; case 5: b = Blk({g.call(), in}); break; case 6: b = Blk({For(nullptr, Ref(g.b), nullptr, Null()), in}); break; case 7: b = Blk({in, For(nullptr, Ref(g.b), nullptr, Null())}); break; case 8: b = Blk({Blk({in})}); break; default: b = Blk({Null(), in}); }
  g.put({For(d1, Bin(BO_LT, Ref(i), Int(8)), Un(UO_PostInc, Ref(i)), b)}, (inc == 0 && form == 0) ? sym_choose("context", 0, 1) * 7 % (Prog::contexts() + 1) : 0);
  judgeEach(g, "jumbled incrementer", "exactly an inner for that steps the outer one's variable is reported", [](N *n, Wants &w) { if (n->k != SFor) return; N *b = n->c[3]; if (b->k == SBlk) { if (b->c.size() != 1) return; b = b->c[0]; } if (b->k != SFor || !b->c[2]) return; N *d = n->c[0], *s = b->c[2]; if (d && d->k == SDecl && d->c.size() == 1 && s->k == EUn && (s->op == UO_PreInc || s->op == UO_PreDec || s->op == UO_PostInc || s->op == UO_PostDec) && s->c[0]->k == ERef && s->c[0]->d == d->c[0]) w.add(s); }); }
// @finally
static void finally(const char *rule, const char *label, bool ret) {
  gLang = OBJC; Prog g; N *i = Iface("NSException", {Meth("raise", &tyVoid, {}, nullptr), Meth("fall", &tyVoid, {}, nullptr), Meth("raise:", &tyVoid, {Parm("xxxx", &tyId)}, nullptr, FStatic), Meth("raise:format:", &tyVoid, {Parm("xxxx", &tyId), Parm("yyyy", &tyId)}, nullptr, FStatic), Meth("raise:format:arguments:", &tyVoid, {Parm("xxxx", &tyId), Parm("yyyy", &tyId), Parm("zzzz", &tyId)}, nullptr, FStatic)}), *j = Iface("NSExceptions", {Meth("raise", &tyVoid, {}, nullptr)}); Ty *t = new Ty{TObj, nullptr, i}, *u = new Ty{TObj, nullptr, j}; N *e = Var("eeee", t, nullptr, FExtern), *f = Var("uuuu", u, nullptr, FExtern); g.top.insert(g.top.end(), {i, j, e, f});
  N *s; switch (sym_choose("what", 0, 10)) { case 0: s = Return(); break; case 1: s = AtThrow(Ref(g.o)); break; case 2: s = Msg(Ref(e), "raise", {}, &tyVoid); break; case 3: s = Msg(Ref(f), "raise", {}, &tyVoid); break; case 4: s = Msg(i, "raise:", {Ref(g.o)}, &tyVoid); break; case 5: s = Msg(Ref(e), "fall", {}, &tyVoid); break; case 6: s = Msg(Ref(g.o), "raise", {}, &tyVoid); break; case 7: s = AtThrow(); break; case 8: s = Msg(i, "raise:format:", {Ref(g.o), Ref(g.o)}, &tyVoid); break; case 9: s = Msg(i, "raise:format:arguments:", {Ref(g.o), Ref(g.o), Ref(g.o)}, &tyVoid); break; default: s = g.call(); }
  N *in; switch (sym_choose("within", 0, 6)) { case 0: in = Blk({s}); break; case 1: in = Blk({If(Ref(g.a), s)}); break; case 2: in = Blk({g.call(), While(Ref(g.b), Blk({s}))}); break; case 3: in = Blk({AtTry(Blk({s}), {AtCatch(Blk())})}); break; case 4: in = Blk({Switch(Ref(g.a), Case(Int(1), s))}); break; case 5: in = Blk({AtTry(Blk(), {AtCatch(Blk({s}))})}); break; default: in = Blk({AtTry(Blk({s}), {AtFinally(Blk({g.call()}))}), AtTry(Blk(), {AtFinally(Blk({g.use(Ref(g.b))}))})}); in->c[1]->c.back()->c[0]->c[0] = ret ? Return() : AtThrow(Ref(g.o)); }
  switch (sym_choose("another", 0, 2)) { case 0: break; case 1: in->c.push_back(If(Ref(g.b), ret ? Return() : AtThrow(Ref(g.o)))); break; default: in->c.insert(in->c.begin(), If(Ref(g.b), ret ? Return() : Msg(i, "raise:", {Ref(g.o)}, &tyVoid))); }
  N *c = Blk({g.call()}), *fin = c; int where = s->k == SAtThrow && s->c.empty() ? 1 : sym_choose("where", 0, 2); if (where == 0) fin = in; if (where == 1) c = in; N *t0 = where == 2 ? in : Blk({g.call()}); g.put({AtTry(t0, {AtCatch(c), AtFinally(where == 0 ? fin : Blk({g.call()}))})}, (s->k == SReturn || s->k == SAtThrow) && in->c.size() > 1 ? chooseContext() : 0);
  judgeEach(g, rule, label, [&](N *n, Wants &w) { bool hit = ret ? n->k == SReturn : n->k == SAtThrow || (n->k == EMsg && ((n->s == "raise" && n->c[0] && n->c[0]->t->k == TObj && n->c[0]->t->rec == i) || ((n->s == "raise:format:" || n->s == "raise:format:arguments:") && n->d == i))); if (!hit) return; int depth = 0; for (N *p = n->up; p; p = p->up) depth += p->k == SAtFinally; for (int k = 0; k < depth; k++) w.add(n); }); }
HARNESS(finally_return) { finally("return from finally block", "exactly the returns within a finally block are reported", true); }
HARNESS(finally_throw) { finally("throw exception from finally block", "exactly what throws within a finally block is reported", false); }
