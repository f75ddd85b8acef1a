// Destructors of classes with virtual functions.
#include "prog.h"
#include <algorithm>
// 0 none 1 public 2 virtual 3 protected 4 private 5 protected virtual 6 pure virtual
struct Cls { N *n; int dtor; bool fun; std::vector<Cls *> bases; std::vector<const char *> how; };
static bool virtualDtor(Cls *c) { if (c->dtor == 2 || c->dtor >= 5) return true; for (Cls *b : c->bases) if (virtualDtor(b)) return true; return false; }
static bool poly(Cls *c) { if (c->fun || virtualDtor(c)) return true; for (Cls *b : c->bases) if (poly(b)) return true; return false; }
static Cls *cls(const char *s, int dtor, bool fun, std::vector<Cls *> bases = {}, std::vector<const char *> how = {}, int flags = FClass) {
  std::vector<N *> m; auto add = [&](const char *a, N *f) { m.push_back(Access(a)); m.push_back(f); }; if (fun) add("public", Fn(std::string("mmm") + s[0], &tyVoid, {}, nullptr, FVirtual)); if (dtor) add(dtor == 3 || dtor == 5 ? "protected" : dtor == 4 ? "private" : "public", Fn(s, &tyVoid, {}, dtor == 6 ? nullptr : Blk(), FDtor | (dtor == 2 || dtor >= 5 ? FVirtual : 0) | (dtor == 6 ? FPure : 0)));
  N *n = Rec(s, m, flags); for (size_t i = 0; i < bases.size(); i++) Base(n, bases[i]->n, how[i]); return new Cls{n, dtor, fun, bases, how}; }
static bool open(Cls *c, size_t i) { return *c->how[i] ? !strcmp(c->how[i], "public") || !strcmp(c->how[i], "virtual public") : !(c->n->flags & FClass); }
static void bases(Cls *child, Cls *c, Wants &w) { for (size_t i = 0; i < c->bases.size(); i++) { if (!open(c, i)) continue; Cls *b = c->bases[i]; bool ok = virtualDtor(b) || b->dtor == 3; if (!ok) w.add(b->n, "~" + b->n->s + "() should be protected or virtual according to class " + child->n->s); if (!poly(b)) bases(child, b, w); } }
static void judge(std::vector<N *> decls, std::vector<Cls *> cs, bool inner = false, bool tmpl = false) {
  Program p; if (inner) { p.decls = {Fn("ffff", &tyVoid, {}, Blk(), tmpl ? FTemplate : 0)}; for (N *d : decls) p.decls[0]->body->c.push_back(mk(SDecl, {d})); } else p.decls = decls; Wants own, base; layout(p);
  for (Cls *c : cs) { if (poly(c) && !virtualDtor(c)) own.add(c->n, "class " + c->n->s + " should have a virtual destructor ~" + c->n->s + "()"); if (poly(c)) bases(c, c, base); }
  World w = make(p); RuleBase *r = ruleNamed("destructor of virtual class"); compare(runRule(r, w), own, r, "exactly the classes with virtual functions and no virtual destructor are reported"); r = ruleNamed("base class destructor should be virtual or protected");
  compare(runRule(r, w), base, r, "exactly the public bases whose destructor is neither virtual nor protected are reported"); sym_cover(own.w.empty() ? "no class" : "class"); sym_cover(base.w.empty() ? "no base" : "base"); }
static const char *kHow[] = {"public", "", "virtual public", "protected", "private"};
HARNESS(one_base) {
  gLang = CXX; Cls *a = cls("Aaaa", sym_choose("base destructor", 0, 6), sym_choose("base function", 0, 1), {}, {}, sym_choose("struct", 0, 1) ? 0 : FClass), *b = cls("Bbbb", sym_choose("destructor", 0, 2), sym_choose("function", 0, 1), {a}, {kHow[sym_choose("how", 0, 4)]}, a->n->flags);
  if (a->dtor == 4 && b->dtor) sym_end_path(); judge({a->n, b->n}, {a, b}); }
HARNESS(three) {
  gLang = CXX; Cls *a = cls("Aaaa", sym_choose("first destructor", 0, 3), sym_choose("first function", 0, 1)), *b = cls("Bbbb", sym_choose("second destructor", 0, 2), sym_choose("second function", 0, 1), {a}, {kHow[sym_choose("how", 0, 1) * 3]}), *c = cls("Cccc", sym_choose("third destructor", 0, 1) * 2, sym_choose("third function", 0, 1), {b}, {kHow[sym_choose("how", 0, 1) * 3]}); judge({a->n, b->n, c->n}, {a, b, c}); }
HARNESS(two_bases) {
  gLang = CXX; Cls *a = cls("Aaaa", sym_choose("first destructor", 0, 3), sym_choose("first function", 0, 1)), *b = cls("Bbbb", sym_choose("second destructor", 0, 3), sym_choose("second function", 0, 1)), *c = cls("Cccc", 0, sym_choose("third function", 0, 1), {a, b}, {kHow[sym_choose("how", 0, 1) * 4], kHow[sym_choose("how", 0, 1) * 4]}), *d = cls("Dddd", 0, true, {a}, {"public"});
  std::vector<Cls *> cs = {a, b, c}; std::vector<N *> n = {a->n, b->n, c->n}; if (sym_choose("another child", 0, 1)) { cs.push_back(d); n.push_back(d->n); } judge(n, cs); }
HARNESS(places) {
  gLang = CXX; int d = sym_choose("destructor", 0, 2), where = sym_choose("place", 0, 6), fw = where == 1 || where >= 5 ? 0 : sym_choose("declared", 0, 3); bool fun = sym_choose("function", 0, 1); Cls *a = cls("Aaaa", d, fun), *b = cls("Bbbb", d, true, {a}, {"public"}), *x = cls("Xxxx", 1, false); std::vector<N *> n = {a->n, b->n, x->n}; N *fa = Forward("Aaaa", FClass), *fb = Forward("Bbbb", FClass);
  switch (fw) { case 1: n = {fa, fb, a->n, b->n, x->n}; break; case 2: n = {a->n, b->n, x->n, fb, fa}; break; case 3: n = {fb, a->n, fb = Forward("Bbbb", FClass), b->n, fa}; break; }
  if (where == 2) n = {Namespace("nnnn", n)}; if (where == 3) { for (N *&m : n) m = m; N *out = Rec("Oooo", n); n = {out}; }
  // templates: members of one, local classes of one, and templates themselves (the second as the base of the third)
  if (where == 4) n = {Rec("Oooo", n, FTemplate)}; if (where == 6) { Cls *y = cls("Yyyy", sym_choose("another destructor", 0, 1) * 2, fun, {b}, {"public"}, FClass | FTemplate), *z = cls("Zzzz", d, fun, {}, {}, FClass | FTemplate); n.push_back(y->n); n.push_back(z->n); judge(n, {a, b, x, y, z}); return; } judge(n, {a, b, x}, where == 1 || where == 5, where == 5); }
// a class that derives from one that depends on the arguments of its template may have a virtual destructor, or none
HARNESS(dependent) {
  gLang = CXX; int d = sym_choose("destructor", 0, 2), how = sym_choose("base", 0, 2); Cls *a = cls("Aaaa", sym_choose("base destructor", 0, 2), sym_choose("base function", 0, 1), {}, {}, FClass | FTemplate), *b = cls("Bbbb", d, sym_choose("function", 0, 1), {}, {}, FClass | FTemplate), *use = cls("Cccc", 0, true); static const char *names[] = {"Aaaa<Tttt>", "Tttt", "Aaaa<int>"}; Base(b->n, Rec(names[how], {}), "public"); bool known = how == 2;
  Program p; p.decls = {a->n, b->n, use->n}; Wants own, base; layout(p); Cls real = *b; if (known) { real.bases = {a}; real.how = {"public"}; } auto message = [](Cls *c) { return "class " + c->n->s + " should have a virtual destructor ~" + c->n->s + "()"; }; if (poly(a) && !virtualDtor(a)) own.add(a->n, message(a)); if (known && poly(&real) && !virtualDtor(&real)) own.add(b->n, message(b)); own.add(use->n, message(use)); if (known && poly(&real)) { bases(&real, &real, base); for (Want &x : base.w) { x.n = new N(*x.n); x.n->b = {1, 1}; } } // (a specialization begins with template)
  World w = make(p); RuleBase *r = ruleNamed("destructor of virtual class"); compare(runRule(r, w), own, r, "exactly the classes with virtual functions and no virtual destructor are reported"); r = ruleNamed("base class destructor should be virtual or protected"); compare(runRule(r, w), base, r, "exactly the public bases whose destructor is neither virtual nor protected are reported"); sym_cover(known ? "known" : "unknown"); }
