// Rules written with AST matchers: bitwise operators in conditions, gotos, default arguments of virtual methods, private static members.
#include "stmts.h"
static bool bitwise(N *n) { return n->k == EBin && sym_concretize(sym_or(sym_or(n->op == BO_And, n->op == BO_Or), n->op == BO_Xor)); }
static void judge(Prog &g) {
  judgeEach(g, "bitwise operator in conditional", "exactly the conditions with a bitwise operator are reported", [](N *n, Wants &w) {
    N *c = n->k == SIf || n->k == SWhile || n->k == ECond ? n->c[0] : n->k == SDo ? n->c[1] : nullptr; if (c && any(c, bitwise)) w.add(c); }); }
// the place of an expression: a condition or something else
static N *placeOf(Prog &g, int k, N *e) {
  if (e->k == ECond || (e->k == EBin && !e->sym && e->op >= BO_Assign)) if (k == 4 || k >= 12) e = Paren(e);
  switch (k) {
  case 0: return If(e, g.call());
  case 1: return If(e, Blk({g.call()}), g.call());
  case 2: return While(e, Blk());
  case 3: return Do(Blk({g.call()}), e);
  case 4: return g.use(Cond(e, Int(1), Int(2)));
  case 5: return For(nullptr, e, nullptr, g.call());
  case 6: return Switch(e, Case(Int(1), g.call()));
  case 7: return g.use(e);
  case 8: return Decl(Var("llll", &tyInt, e));
  case 9: return If(Ref(g.a), g.use(e), g.use(Int(2)));
  case 10: return While(Ref(g.a), Do(g.call(), e));
  case 11: return If(Ref(g.b), g.call(), If(e, g.call()));
  case 12: return g.use(Cond(Ref(g.a), Cond(e, Int(1), Int(2)), Int(3)));
  case 13: return g.use(Cond(Ref(g.b), e, Int(3)));
  case 14: return For(e, Ref(g.a), nullptr, While(Ref(g.b), Null()));
  default: return Label("llll", If(e, Null())); } }
extern "C" void bitwise_places() {
  chooseLang(); Prog g; int pl = sym_choose("place", 0, 15); g.put({placeOf(g, pl, condOf(g, pl > 4 ? sym_choose("condition", 0, 3) * 2 + 1 : sym_choose("condition", 0, conds()), symOrLess))}, 0); judge(g); }
// operators whose conditions clang turns into truth values, in C++
extern "C" void bitwise_forms() {
  chooseLang(); Prog g; N *a = Ref(g.a), *b = Ref(g.b), *e;
  auto op = [&](N *x, N *y) { int o[] = {BO_And, BO_Or, BO_Xor, BO_LAnd, BO_LOr, BO_Add, BO_Shl, BO_NE, BO_LT, BO_Rem}; return Bin(o[sym_choose("operator", 0, 9)], x, y); };
  switch (sym_choose("form", 0, 12)) {
  case 0: e = op(a, b); break;
  case 1: { int o[] = {BO_AndAssign, BO_OrAssign, BO_XorAssign, BO_Assign, BO_AddAssign}; e = Paren(Bin(o[sym_choose("assignment", 0, 4)], a, b)); break; }
  case 2: e = Un(UO_Deref, Un(UO_AddrOf, a)); break;
  case 3: e = Un(UO_LNot, Paren(op(a, Int(1)))); break;
  case 4: e = Call(g.h, {op(a, Int(1))}); break;
  case 5: e = Bin(BO_EQ, Paren(op(a, Int(1))), Int(1)); break;
  case 6: e = Bin(BO_LAnd, a, Bin(BO_EQ, Int(1), Paren(op(b, Int(1))))); break;
  case 7: e = CCast(&tyChar, Paren(op(a, b))); break;
  case 8: e = Paren(Bin(BO_Comma, a, Paren(op(a, b)))); break;
  case 9: e = Bin(BO_Assign, a, op(a, b)); break;
  case 10: e = Un(UO_Not, Paren(op(a, b))); break;
  case 11: e = Paren(Paren(Paren(op(a, Paren(Un(UO_Minus, b)))))); break;
  default: e = Bin(BO_LOr, Paren(op(a, Int(1))), Paren(op(b, Int(2)))); }
  int pl = sym_choose("place", 0, 5); g.put({placeOf(g, pl, e)}, pl ? 0 : sym_choose("method", 0, 1) * (gLang == C ? 6 : 7)); judge(g); }

static void gotos(Prog &g) { judgeEach(g, "goto statement", "exactly the gotos are reported", [](N *n, Wants &w) { if (n->k == SGoto) w.add(n); }); }
extern "C" void goto_places() {
  chooseLang(); Prog g; std::vector<N *> s; int form = sym_choose("form", 0, 6);
  switch (form) {
  case 0: s = {Goto("done"), Label("done", g.call())}; break;
  case 1: s = {Label("done", g.call()), Goto("done")}; break;
  case 2: s = {Label("done", g.call())}; break;
  case 3: s = {If(Ref(g.a), Goto("done"), Goto("more")), Label("done", Null()), Label("more", g.call())}; break;
  case 4: s = {Label("done", Goto("done"))}; break;
  case 5: s = {While(Ref(g.a), Break()), Return()}; break;
  default: s = {Label("done", While(Ref(g.b), Blk({Goto("done"), g.call(), Goto("done")})))}; }
  g.put(s, chooseContext()); gotos(g); }
// goto below statements of every kind
extern "C" void goto_nested() {
  chooseLang(); Prog g; int k1 = sym_choose("outer", 0, kinds() - 1), k2 = sym_choose("inner", 0, kinds() - 1), which = sym_choose("which", 0, 2); sym_assume(usesOne(k1)); sym_assume(usesOne(k2));
  // the label is beside the goto: no jump into or out of anything protected
  N *in = Blk({Label("done", g.call()), If(Ref(g.b), which == 2 ? g.call() : Goto("done"))}), *no = g.call();
  N *s = stmtOf(g, k2, which ? in : no, which ? no : in, Ref(g.a)); bool two = usesTwo(k2); if (!two && !which) sym_assume(false);
  g.put({stmtOf(g, k1, s, g.call(), Ref(g.b))}, 0); gotos(g); }

// methods: what they are and what defaults their parameters have
static N *withDefault(const char *s, Ty *t, N *v) { N *p = Parm(s, t); if (v) p->c.push_back(v); return p; }
extern "C" void defaults() {
  gLang = CXX; Program p; int what = sym_choose("method", 0, 10), n = sym_choose("parameters", 0, 3), d = sym_choose("defaults", 0, 3), val = sym_choose("value", 0, 3); sym_assume(d <= n); if (!d) sym_assume(!val);
  const char *nm[] = {"aaaa", "bbbb", "cccc"}; auto parms = [&](int d) { std::vector<N *> v; for (int i = 0; i < n; i++) { bool has = i >= n - d; Ty *t = val == 2 ? &tyIntPtr : val == 3 ? &tyBool : &tyInt; v.push_back(withDefault(nm[i], t, has ? val == 1 ? Un(UO_Minus, Int(1)) : val == 2 ? Nullptr() : val == 3 ? Bool(false) : Int(0) : nullptr)); } return v; };
  int gap = sym_int("gap", 0, 100000); auto body = [&] { N *b = Blk(); b->gap = gap; return b; };
  N *m = nullptr; bool virt = false; std::vector<N *> all;
  switch (what) {
  case 0: m = Fn("mmmm", &tyVoid, parms(d), nullptr, FVirtual); virt = true; break;
  case 1: m = Fn("mmmm", &tyVoid, parms(d), body(), FVirtual); virt = true; break;
  case 2: m = Fn("mmmm", &tyVoid, parms(d), nullptr, FVirtual | FPure); virt = true; break;
  case 3: m = Fn("mmmm", &tyVoid, parms(d), nullptr, FVirtual | FConst); virt = true; break;
  case 4: m = Fn("mmmm", &tyVoid, parms(d), body()); break;
  case 5: m = Fn("mmmm", &tyVoid, parms(d), body(), FStatic); break;
  case 6: m = Fn("Rrrr", &tyVoid, parms(d), body(), FCtor); break;
  case 7: { N *b = Rec("Base", {Fn("mmmm", &tyVoid, parms(0), body(), FVirtual)}); m = Fn("mmmm", &tyVoid, parms(d), body(), sym_choose("override", 0, 1) ? FOverride : 0); virt = true; p.decls = {b, Base(Rec("Rrrr", {m}), b)}; break; }
  case 8: { N *b = Rec("Base", {Fn("mmmm", &tyVoid, parms(0), body(), FVirtual | FConst)}); m = Fn("mmmm", &tyVoid, parms(d), body()); p.decls = {b, Base(Rec("Rrrr", {m}), b)}; break; }
  case 9: { N *b = Rec("Base", {Fn("mmmm", &tyVoid, parms(0), nullptr, FVirtual | FPure)}); N *q = Base(Rec("Midd", {Fn("oooo", &tyVoid, {}, body())}), b); m = Fn("mmmm", &tyVoid, parms(d), body(), FVirtual); virt = true; p.decls = {b, q, Base(Rec("Rrrr", {m}), q)}; break; }
  default: m = Fn("mmmm", &tyVoid, parms(d), body()); p.decls = {m}; }
  if (p.decls.empty()) { int more = sym_choose("neighbour", 0, 2); std::vector<N *> ms = {m}; N *o = Fn("oooo", &tyVoid, {withDefault("dddd", &tyInt, more == 2 ? Int(3) : nullptr)}, body(), more == 1 ? FVirtual : 0); if (more) ms.insert(ms.begin() + (what & 1), o); p.decls.push_back(Rec("Rrrr", ms, FClass)); ms.insert(ms.begin(), Access("public")); p.decls[0]->c = ms; }
  if (sym_choose("namespace", 0, 1)) p.decls = {Namespace("nnnn", p.decls)};
  Wants want; if (virt && d) want.add(m); World w = make(p); RuleBase *r = ruleNamed("avoid default arguments on virtual methods"); compare(runRule(r, w), want, r, "exactly the virtual methods with default arguments are reported"); sym_cover(want.w.empty() ? "good" : "bad"); }

// members of every kind under every access
extern "C" void private_statics() {
  gLang = CXX; Program p; std::vector<N *> ms; Wants want; int n = sym_choose("members", 1, 3); bool cls = sym_choose("class", 0, 1), priv = cls; int gap = sym_int("gap", 0, 100000);
  const char *nm[] = {"aaaa", "bbbb", "cccc"}; std::vector<N *> outside;
  for (int i = 0; i < n; i++) {
    int acc = sym_choose("access", 0, n == 3 ? 2 : 3); if (acc) { const char *t[] = {"", "private", "protected", "public"}; ms.push_back(Access(t[acc])); priv = acc == 1; }
    N *b = Blk(); b->gap = gap; int k = n == 3 ? sym_choose("member", 0, 2) * 3 + 1 : sym_choose("member", 0, 8); N *m; bool stat = false;
    switch (k) {
    case 0: m = Field(nm[i]); break;
    case 1: m = Var(nm[i], &tyInt, nullptr, FStatic); stat = true; break;
    case 2: m = Fn(nm[i], &tyVoid, {}, b, FStatic); stat = true; break;
    case 3: m = Fn(nm[i], &tyVoid, {Parm("vvvv")}, nullptr, FStatic); stat = true; break;
    case 4: m = Fn(nm[i], &tyVoid, {}, b); break;
    case 5: m = Fn(nm[i], &tyInt, {}, nullptr, FVirtual | FPure); break;
    case 6: { N *v = Var(nm[i], &tyIntPtr, nullptr, FStatic); m = v; stat = true; break; }
    case 7: m = Fn(nm[i], &tyVoid, {}, Blk({Decl(Var("llll", &tyInt, Int(1), FStatic))}), 0); break;
    default: { m = Rec(i ? "Inne" : "Innr", {Var("iiii", &tyInt, nullptr, FStatic)}, sym_choose("inner class", 0, 1) ? FClass : 0); if (m->flags) want.add(m->c[0]); } }
    if (priv && stat) { want.add(m); }
    if (stat && n == 1 && (k == 1 || k == 2 || k == 3)) { if (k == 2) m->body = sym_choose("body", 0, 1) ? b : nullptr; if (k == 1 || !m->body) if (sym_choose("defined outside", 0, 1)) { std::string q = std::string("Rrrr::") + nm[i]; N *o = k == 1 ? Var(q, &tyInt, Int(0)) : Fn(q, &tyVoid, k == 3 ? std::vector<N *>{Parm("wwww")} : std::vector<N *>{}, Blk()); outside.push_back(o); if (priv) want.add(o); } }
    ms.push_back(m); }
  p.decls = {Var("zzzz", &tyInt, nullptr, FStatic), Fn("ffff", &tyVoid, {}, Blk(), FStatic), Rec("Rrrr", ms, cls ? FClass : 0)}; for (N *o : outside) p.decls.push_back(o);
  if (outside.empty() && sym_choose("namespace", 0, 1)) p.decls = {Namespace("nnnn", p.decls)};
  World w = make(p); RuleBase *r = ruleNamed("avoid private static members"); compare(runRule(r, w), want, r, "exactly the private static members are reported"); sym_cover(want.w.empty() ? "good" : "bad"); }
