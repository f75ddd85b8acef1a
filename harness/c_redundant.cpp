// Code that could be left out.
#include "stmts.h"
// literals: how they are written, and a class and number that tell which denote the same constant
struct Lit { N *n; int cls; long v; };
static N *gVar[2], *gEnum[2];
static Lit lit(Prog &g, int k, int i) {
  static const char *chars[] = {"'a'", "'b'", "'c'"}, *strs[] = {"\"x\"", "\"yy\"", "\"\\x78\""}, *floats[] = {"1.5", "2.5", "1.50", "0.1", "0.10000000001", "1e40", "1e41", "0.0"}, *yes[] = {"__objc_no", "__objc_yes"}; int which = k >= 3 && k <= 10 && k != 8 ? sym_choose("which", 0, k == 6 ? 7 : k == 5 ? 2 : 1) : 0;
  switch (k) {
  case 0: { N *n = SInt(); return {n, 0, n->v}; }
  case 1: { if (gLang == CXX) { N *n = SBool(); return {n, 1, n->v}; } N *n = gLang == OBJC ? Tok(yes[i], &tySChar) : CCast(&tyChar, Int(i)); return {n, gLang == OBJC ? 1 : 2, i}; }
  case 2: { N *x = SInt(); return {CCast(gLang == CXX ? &tyBool : &tySChar, x), gLang == CXX ? -1 : 2, x->v}; }
  case 3: return {Ref(gVar[which]), 3, which};
  case 4: return {Tok(chars[which], gLang == CXX ? &tyChar : &tyInt), 4, which};
  case 5: return {Tok(strs[which], new Ty{TPtr, &tyChar, nullptr, true}), 5, which % 2};
  case 6: return {Tok(floats[which], &tyDouble), 6, which == 2 ? 0 : which};
  case 7: return {Ref(gEnum[which]), 7, which};
  case 8: return {Paren(Int(3)), -1, 0};
  case 9: return {Un(UO_PreInc, Ref(gVar[which])), -1, 0};
  case 10: return {Un(UO_Minus, Int(which)), -1, 0};
  default: return {Call(g.h, {Ref(g.a)}), -1, 0}; } }
static bool same(const Lit &a, const Lit &b) { return a.cls == b.cls && a.cls >= 0 && sym_concretize(a.v == b.v); }
static bool opposite(const Lit &a, const Lit &b) { return a.cls == b.cls && (a.cls == 1 || a.cls == 2) && sym_concretize(sym_and(sym_and(a.v <= 1, b.v <= 1), a.v != b.v)); }
static void vars(Prog &g) { gVar[0] = Var("vvvv", &tyInt, nullptr, FExtern); gVar[1] = Var("wwww", &tyInt, nullptr, FExtern); gEnum[0] = Enumerator("Aaaa"); gEnum[1] = Enumerator("Bbbb"); Ty *t = new Ty{TEnum}; N *e = EnumT("Eeee", {gEnum[0], gEnum[1]}, t); g.top.insert(g.top.end(), {gVar[0], gVar[1], e}); }
HARNESS(conditional) {
  chooseLang(); Prog g; vars(g); int k = sym_choose("first", 0, 11), l = sym_choose("second", -1, 11); if (l < 0) l = k; auto group = [](int k) { return k == 5 ? 1 : 0; }; sym_assume(group(k) == group(l)); Lit x = lit(g, k, 0), y = lit(g, l, sym_choose("i", 0, k == 1 && l == 1)); N *c = Cond(Ref(g.b), x.n, y.n);
  if (k == 5) g.put({Decl(Var("llll", new Ty{TPtr, &tyChar, nullptr, true}, c))}); else if (k == 4 || k == 6 || l == 6 || k != l) g.put({Decl(Var("llll", k == 6 || l == 6 ? &tyDouble : &tyInt, c))}); else putExpr(g, c, k == 0);
  judgeEach(g, "redundant conditional operator", "exactly a ?: of opposite truth values, the same constant or the same variable is reported", [&](N *n, Wants &w) { if (n == c && (same(x, y) || opposite(x, y))) w.add(n); }); }
HARNESS(redundant_if) {
  chooseLang(); Prog g; int k = sym_choose("literal", 0, 3); Ty *bt = gLang == CXX && k != 1 ? &tyBool : &tySChar; vars(g); N *p = Var("pppp", bt, nullptr, FExtern), *q = Var("qqqq", bt, nullptr, FExtern), *fx = Field("xxxx", bt), *fy = Field("yyyy", bt), *rec = Rec("Ssss", {fx, fy}), *m; Ty *rt = new Ty{TRec}; rt->rec = rec; m = Var("zzzz", rt, nullptr, FExtern); g.top.insert(g.top.end(), {p, q, rec, m});
  int form = sym_choose("form", 0, 6), wrap = sym_choose("blocks", 0, 4); int ctx = k == 0 && wrap == 1 ? sym_choose("context", 0, form <= 1 && gLang == CXX ? 10 : Prog::contexts()) : 0; g.ret = form <= 1 ? bt : &tyVoid;
  auto value = [&](int i) -> Lit { switch (k) { case 0: if (gLang == CXX) { N *n = SBool(); return {n, 1, n->v}; } { int v = sym_choose("truth", 0, 1); if (gLang == OBJC) return {Tok(v ? "__objc_yes" : "__objc_no", bt), 1, v}; return {CCast(bt, Int(v)), 2, v}; } case 1: { N *x = SInt(); return {CCast(bt, x), gLang == CXX ? -1 : 2, x->v}; } case 2: { N *x = SInt(); return {x, -1, 0}; } default: return i ? Lit{CCast(bt, Int(0)), gLang == CXX ? -1 : 2, 0} : Lit{Call(g.h, {Ref(g.a)}), -1, 0}; } };
  Lit x = value(0), y = value(1); auto assign = [&](N *t, N *v, int op = BO_Assign) { return Bin(op, t, v); }; N *a, *b;
  switch (form) { case 0: a = Return(x.n); b = Return(y.n); break; case 1: a = Return(x.n); b = g.call(); break; case 2: a = assign(Ref(p), x.n); b = assign(Ref(p), y.n); break; case 3: a = assign(Ref(p), x.n); b = assign(Ref(q), y.n); break; case 4: a = assign(Member(Ref(m), fx, false), x.n); b = assign(Member(Ref(m), fx, false), y.n); break; case 5: a = assign(Member(Ref(m), fx, false), x.n); b = assign(Member(Ref(m), fy, false), y.n); break; default: a = assign(Ref(p), x.n); b = assign(Ref(p), y.n, gLang == CXX ? BO_OrAssign : BO_AddAssign); }
  N *t = a, *e = b; switch (wrap) { case 1: t = Blk({a}); e = Blk({b}); break; case 2: t = Blk({Blk({a})}); break; case 3: t = Blk({g.call(), a}); break; case 4: e = Blk({b, g.call()}); break; } bool only = wrap <= 2 && (form == 0 || form == 2 || form == 4);
  N *s = If(Ref(g.b), t, e); std::vector<N *> v = {s}; g.put(v, ctx); if (form <= 1) g.f->body->c.push_back(Return(CCast(bt, Int(1))));
  judgeEach(g, "redundant if statement", "exactly an if whose branches only set or return opposite truth values is reported", [&](N *n, Wants &w) { if (n == s && only && opposite(x, y)) w.add(n); }); }
HARNESS(local_variable) {
  chooseLang(); Prog g; vars(g); g.ret = sym_choose("type", 0, 1) ? &tyLong : &tyInt; N *x = Var("llll", &tyInt, sym_choose("value", 0, 1) ? Bin(BO_Add, Ref(g.a), Int(1)) : nullptr), *y = Var("kkkk", &tyInt, Int(1)), *r, *d; int form = sym_choose("returns", 0, 7), before = sym_choose("before", 0, 5), at = sym_choose("at", 0, 3);
  switch (form) { case 0: r = Return(Ref(x)); break; case 1: r = Return(Paren(Ref(x))); break; case 2: r = Return(Ref(g.a)); break; case 3: r = Return(Bin(BO_Add, Ref(x), Int(1))); break; case 4: r = Return(Ref(gVar[0])); break; case 5: r = Return(Un(UO_Minus, Ref(x))); break; case 6: r = g.use(Ref(x)); break; default: r = Return(Ref(y)); }
  switch (before) { case 0: d = Decl(x); break; case 1: d = mk(SDecl, {x, Var("jjjj", &tyInt, Int(3))}); break; case 2: d = Decl(x); x->flags = FStatic; x->c.clear(); break; case 3: d = Decl(x); break; case 4: d = Decl(x); break; default: d = Decl(x); }
  std::vector<N *> v; v.push_back(Decl(y)); v.push_back(d); if (before == 3) v.push_back(g.call()); if (before == 4) v.push_back(Null()); v.push_back(r); if (before == 5) v.push_back(g.call()); N *b = Blk(v), *s; switch (at) { case 0: s = b; break; case 1: s = If(Ref(g.b), b); break; case 2: s = While(Ref(g.b), b); break; default: s = Switch(Ref(g.b), Blk({Case(Int(1), b)})); }
  g.put({s}, form == 0 && before == 0 && at == 0 ? sym_choose("context", 0, gLang == CXX ? 10 : Prog::contexts()) : 0); g.f->body->c.push_back(Return(Int(4))); bool conv = g.ret == &tyLong;
  judgeEach(g, "redundant local variable", "exactly a variable declared for nothing but to be returned is reported", [conv](N *n, Wants &w) { if (n->k != SBlk || n->c.size() < 2) return; N *r = n->c.back(), *d = n->c[n->c.size() - 2]; if (r->k == SReturn && !r->c.empty() && r->c[0]->k == ERef && !conv && d->k == SDecl && d->c.size() == 1 && d->c[0] == r->c[0]->d) w.add(d->c[0]); }); }
// else after return
static bool returns(N *s) { switch (s->k) { case SReturn: return true; case SBlk: for (N *x : s->c) if (returns(x)) return true; return false; case SIf: return s->c.size() > 2 && returns(s->c[1]) && returns(s->c[2]); default: return false; } }
static N *branch(Prog &g, int k) { switch (k) { case 0: return Return(); case 1: return Blk({g.call(), Return()}); case 2: return g.call(); case 3: return Blk({If(Ref(g.b), Return(), Return())}); case 4: return Blk({If(Ref(g.b), Return())}); case 5: return Blk({Return(), g.call()}); case 6: return Blk({While(Ref(g.b), Return())}); case 7: return Blk({If(Ref(g.b), Blk({g.call()}), Return()), Return()}); case 8: return Break(); case 9: return Blk(); default: return Blk({Blk({Return()})}); } }
HARNESS(unnecessary_else) {
  chooseLang(); Prog g; int n = sym_choose("ifs", 1, 3), at = sym_choose("at", 0, n - 1), k = sym_choose("branch", 0, 10), other = sym_choose("others", 0, n > 1), fin = sym_choose("else", 0, 3); N *e; switch (fin) { case 0: e = nullptr; break; case 1: e = g.call(); break; case 2: e = Blk({Return()}); break; default: e = Blk({If(Ref(g.a), Return(), g.call())}); }
  for (int i = n - 1; i >= 0; i--) { N *t = i == at ? branch(g, k) : other ? Blk({g.call()}) : Blk({Return()}); if (e && t->k == SIf) t = Blk({t}); e = If(Ref(g.a), t, e); } N *s = e;
  g.put({While(Ref(g.b), Blk({s, g.call()}))}, n == 1 && fin == 1 && k < 3 ? chooseContext() : 0); std::vector<N *> loops; g.f->body->c.push_back(If(Ref(g.b), Blk({Return()})));
  judgeEach(g, "unnecessary else statement", "exactly an else after only branches that return is reported", [](N *n, Wants &w) { if (n->k != SIf || (n->up && n->up->k == SIf && n->up->c.size() > 2 && n->up->c[2] == n)) return; for (;; n = n->c[2]) { if (!returns(n->c[1]) || n->c.size() < 3) return; if (n->c[2]->k != SIf) { w.add(n->c[2]); return; } } }); }
// parentheses around the whole
HARNESS(parentheses) {
  chooseLang(); Prog g; vars(g); int k = sym_choose("expression", 0, 8), form = sym_choose("form", 0, 8); N *e; g.ret = &tyInt; bool lvalue = false, truth = false;
  switch (k) { case 0: e = Ref(g.a); lvalue = true; break; case 1: e = Int(5); break; case 2: e = Bin(BO_Add, Ref(g.a), Int(2)); break; case 3: e = Bin(BO_LT, Ref(g.a), Ref(g.b)); truth = gLang == CXX; break; case 4: e = Call(g.h, {Ref(g.a)}); break; case 5: e = Paren(Int(6)); break; case 6: e = Cond(Ref(g.a), Int(3), Int(4)); break; case 7: e = Bin(BO_Assign, Ref(g.a), Int(1)); lvalue = gLang == CXX; break; default: e = Un(UO_LNot, Ref(g.b)); truth = gLang == CXX; }
  N *x = Paren(e), *s; switch (form) { case 0: s = If(x, g.call()); break; case 1: s = Return(x); break; case 2: s = Decl(Var("llll", &tyInt, x)); break; case 3: s = While(x, g.call()); break; case 4: s = g.use(x); break; case 5: s = Bin(BO_Assign, Ref(g.b), x); break; case 6: s = Return(Bin(BO_Mul, x, Int(2))); break; case 7: s = If(Ref(g.a), g.call(), If(x, Null(), Blk())); break; default: s = mk(SDecl, {Var("kkkk", &tyInt, Int(1)), Var("llll", &tyInt, x)}); }
  if (s->k == SDecl) s = Blk({s}); g.put({s}, k == 1 && form != 1 ? sym_choose("context", 0, gLang == CXX ? 10 : Prog::contexts()) : 0); if (g.f && g.f->t == &tyInt) g.f->body->c.push_back(Return(Int(0)));
  bool wantsTruth = gLang == CXX; judgeEach(g, "useless parentheses", "exactly parentheses around a whole condition, return value or initial value are reported", [&](N *n, Wants &w) { N *c = nullptr; bool cond = n->k == SIf; if (n->k == SIf || (n->k == SReturn && !n->c.empty()) || (n->k == DVar && !n->c.empty())) c = n->c[0]; if (!c || c->k != EParen) return; if (lvalue || (wantsTruth && truth != cond)) return; w.add(c); }); }
