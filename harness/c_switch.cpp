// Switch statements.
#include "prog.h"
// a switch over int or an enumeration, with some cases and a default somewhere
struct Sw { N *e[3], *v, *en; Ty *t = new Ty{TEnum};
  explicit Sw(Prog &g) { const char *s[] = {"Aaaa", "Bbbb", "Cccc"}; for (int i = 0; i < 3; i++) e[i] = Enumerator(s[i]); en = EnumT("Eeee", {e[0], e[1], e[2]}, t); v = Var("eeee", t, nullptr, FExtern); g.top.insert(g.top.end(), {en, v}); } };
static N *cond(Prog &g, Sw &s, int k) { switch (k) { case 0: return Ref(g.a); case 1: return Ref(s.v); case 2: return Paren(Ref(s.v)); case 3: return Bin(BO_Add, Ref(g.a), Int(1)); case 4: return Call(g.h, {Ref(g.b)}); default: return CCast(&tyInt, Ref(s.v)); } }
static N *body(Prog &g, int k) { switch (k) { case 0: return g.call(); case 1: return Blk({g.call()}); case 2: return Null(); default: return If(Ref(g.a), Blk({g.call()})); } }
// n cases and a default at position at (none if negative); stack: labels follow each other without statements
static N *labels(Prog &g, Sw &s, bool enums, int n, int at, bool stack, int base = 1) {
  std::vector<N *> v; N *last = nullptr; auto add = [&](N *l) { if (stack && last) { last->c.back() = l; } else { if (!v.empty()) v.push_back(Break()); v.push_back(l); } last = l; };
  for (int i = 0; i <= n; i++) { if (i == at) add(Default(body(g, i & 3))); if (i < n) add(Case(enums ? i < 3 ? Ref(s.e[(i + base) % 3]) : Int(i) : Int(i + base), body(g, (i + 1) & 3))); }
  return Blk(v); }
static void program(Prog &g) {
  Sw s(g); int vary = sym_choose("what varies", 0, 3), n = 2, at = 2, c = 1, shape = 0, stack = 0, in = 0;
  if (vary == 0) { n = sym_choose("cases", 0, 4); at = sym_choose("default", -1, 4); sym_assume(at <= n); c = sym_choose("condition", 0, 1); stack = sym_choose("stacked", 0, 1); }
  if (vary == 1) { c = sym_choose("condition", 0, 5); n = 2 + sym_choose("more", 0, 1); at = sym_choose("default", -1, 1); }
  if (vary == 2) { shape = sym_choose("shape", 1, 7); n = sym_choose("cases", 2, 3); at = sym_choose("default", -1, 3); sym_assume(at <= n); }
  if (vary == 3) { in = 1; n = sym_choose("cases", 2, 3); at = sym_choose("default", -1, 1); }
  bool en = c == 1 || c == 2; N *b = labels(g, s, en, n, at, stack, sym_choose("rotation", 0, vary == 2)), *x = cond(g, s, c), *sw = Switch(x, b), *inner = Switch(Ref(s.v), Blk({Case(Ref(s.e[0]), g.call()), Break(), Case(Ref(s.e[1]), g.call()), Default(g.call()), Case(Ref(s.e[2]), Break())}));
  switch (shape) {
  case 1: b->c.insert(b->c.begin() + 1, inner); break;                                // a switch within the first group
  case 2: b->c[0]->c.back() = inner; break;                                           // ... directly under a label
  case 3: sw->c[1] = b->c[0]; break;                                                  // no block
  case 4: b->c.push_back(Blk({Case(en ? Bin(BO_Add, Ref(s.e[2]), Int(4)) : Int(9), g.call())})); break;      // a case in an inner block
  case 5: b->c.push_back(While(Ref(g.a), Blk({Default(g.call())}))); if (at >= 0) b->c.back() = While(Ref(g.a), Blk({Case(Int(9), g.call())})); break;
  case 6: { N *t = sw; sw = Switch(Ref(g.a), Blk({Case(Int(1), t), Break(), Default(Null())})); break; }      // within another one
  case 7: b->c.clear(); break; }
  g.put({sw}, in ? chooseContext() : 0); }
// the labels of a switch, first to last
static void own(N *n, std::vector<N *> &v) { if (!n || n->k == SSwitch) return; if (n->k == SCase || n->k == SDefault) v.push_back(n); for (N *x : n->c) own(x, v); }
static std::vector<N *> own(N *s) { std::vector<N *> v; own(s->c[1], v); return v; }
static bool hasDefault(N *s) { for (N *l : own(s)) if (l->k == SDefault) return true; return false; }
static bool covered(N *s) { N *c = bare(s->c[0]); if (c->k != ERef || c->t->k != TEnum) return false; int seen = 0; for (N *e : c->t->rec->c) for (N *l : own(s)) if (l->k == SCase && l->c[0]->k == ERef && l->c[0]->d == e) { seen++; break; } return seen == (int)c->t->rec->c.size(); }
HARNESS(covered_default) { chooseLang(); Prog g; program(g); judgeEach(g, "unnecessary default statement in covered switch statement", "exactly a default beside all values of the enumeration is reported", [](N *n, Wants &w) { if (n->k == SSwitch && covered(n) && hasDefault(n)) w.add(n); }); }
HARNESS(missing_default) { chooseLang(); Prog g; program(g); judgeEach(g, "missing default in switch statements", "exactly a switch without default that does not cover an enumeration is reported", [](N *n, Wants &w) { if (n->k == SSwitch && !covered(n) && !hasDefault(n)) w.add(n); }); }
HARNESS(default_last) { chooseLang(); Prog g; program(g); judgeEach(g, "ill-placed default label in switch statement", "exactly a default followed by a case is reported", [](N *n, Wants &w) { if (n->k != SSwitch) return; N *d = nullptr; for (N *l : own(n)) { if (l->k == SDefault) d = l; else if (d) { w.add(d); return; } } }); }
HARNESS(few_branches) { long t = limit({"MINIMUM_CASES_IN_SWITCH", 3}); if (gSet) gLang = C; else chooseLang(); Prog g; program(g); judgeEach(g, "too few branches in switch statement", "exactly a switch with fewer cases than the limit is reported", [t](N *n, Wants &w) { if (n->k != SSwitch) return; long k = 0; for (N *l : own(n)) k += l->k == SCase; if (k < t) w.add(n); }); }
// break
static N *stmt(Prog &g, int k) {
  switch (k) { case 0: return g.call(); case 1: return Break(); case 2: return Return(); case 3: return Continue(); case 4: return gLang == CXX ? Throw(Int(1)) : gLang == OBJC ? AtThrow(Ref(g.o)) : Goto("tttt"); case 5: return Blk({g.call(), Break()}); case 6: return Blk({g.call()}); case 7: return If(Ref(g.a), Break()); case 8: return If(Ref(g.a), Blk({g.call(), Return()}), g.call()); case 9: return Blk({If(Ref(g.a), Continue())}); case 10: return While(Ref(g.b), Blk({g.call(), Break()})); case 11: return Switch(Ref(g.b), Blk({Case(Int(1), Break()), Default(g.call())})); case 12: return Null(); case 13: return Blk(); case 14: return Blk({gLang == CXX ? Throw(Int(1)) : gLang == OBJC ? AtThrow(Ref(g.o)) : Goto("tttt")}); default: return nullptr; } }
static bool ends(N *n) { return n->k == SBreak || n->k == SReturn || n->k == SContinue || n->k == EThrow || n->k == SAtThrow; }
static bool endsWithin(N *n) { return any(n, [](N *x) { return ends(x); }); }
static bool falls(N *s) {
  if (s->c[1]->k != SBlk) return false; bool open = false;
  for (N *x : s->c[1]->c) { if (x->k == SCase || x->k == SDefault) { if (open) return true; open = !endsWithin(x); } else if (ends(x) || (x->k == SBlk && endsWithin(x))) open = false; }
  return open; }
HARNESS(missing_break) {
  chooseLang(); Prog g; int vary = sym_choose("what varies", 0, 2), k = sym_choose("label's", 0, 14), f = vary == 2 ? 15 : sym_choose("next", 0, 15), at = vary == 1 ? 1 : vary == 0 ? 0 : sym_choose("at", 0, 1), form = vary == 2 ? sym_choose("form", 0, 5) : 0; std::vector<N *> v;
  if (form == 1) v.push_back(g.call()); if (form == 2) v.push_back(Break());
  N *l = at ? Default(stmt(g, k)) : Case(Int(1), stmt(g, k)), *nx = stmt(g, f); if (form == 3) l = Case(Int(3), l); if (!at) v.push_back(l), nx ? v.push_back(nx) : void(); v.push_back(at ? Case(Int(2), g.call()) : Default(g.call())); v.push_back(form == 4 ? g.call() : Break()); if (at) v.push_back(l), nx ? v.push_back(nx) : void();
  N *sw = Switch(Ref(g.a), form == 5 ? l : Blk(v)); g.put({While(Ref(g.a), Blk({sw})), Label("tttt", g.call())}, vary == 2 && k == 6 ? chooseContext() : 0);
  judgeEach(g, "missing break in switch statement", "exactly a switch with a group that does not end is reported, once", [](N *n, Wants &w) { if (n->k == SSwitch && falls(n)) w.add(n); }); }
// labels that are no cases
HARNESS(other_labels) {
  chooseLang(); Prog g; int form = sym_choose("form", 0, 8); N *l = Label("tttt", g.call()), *l2 = Label("uuuu", Break()), *in, *s; std::vector<N *> before, after;
  auto sw = [&](std::vector<N *> v) { return Switch(Ref(g.a), Blk(v)); };
  switch (form) { case 0: s = sw({Case(Int(1), g.call()), l, Break()}); break; case 1: s = sw({Case(Int(1), l), l2}); break; case 2: s = sw({l, Case(Int(1), g.call()), Default(Blk({l2}))}); break; case 3: s = sw({Case(Int(1), Null())}); after = {l}; break; case 4: s = l; before = {sw({Default(Null())})}; break;
  case 5: in = Switch(Ref(g.b), Blk({Case(Int(2), l), Break()})); s = sw({Case(Int(1), g.call()), in}); break; case 6: in = Switch(Ref(g.b), l); s = sw({Case(Int(1), While(Ref(g.a), Blk({in}))), l2}); break; case 7: s = Switch(Ref(g.a), l); break; default: s = sw({Case(Int(1), Goto("tttt"))}); after = {l}; }
  std::vector<N *> v = before; v.push_back(s); for (N *x : after) v.push_back(x); N *t; switch (sym_choose("around", 0, 2)) { case 0: t = Blk(v); break; case 1: t = While(Ref(g.a), Blk(v)); break; default: t = Switch(Ref(g.b), Blk({Case(Int(7), Blk(v)), Default(g.call())})); }
  if (t->k != SSwitch || form < 9) g.put({t->k == SBlk ? While(Ref(g.b), t) : t}, chooseContext());
  judgeEach(g, "non case label in switch statement", "exactly the labels within a switch are reported, once per enclosing switch", [](N *n, Wants &w) { if (n->k != SLabel) return; for (N *p = n->up; p; p = p->up) if (p->k == SSwitch) w.add(n); }); }
