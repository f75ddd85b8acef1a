// Unused variables and parameters.
#include "stmts.h"
namespace oclint { RuleBase *newUnusedLocal(); }
static bool sameDecl(N *n, N *d) { return (n->k == ERef) && n->d == d; }
static bool mentioned(Prog &g, N *d) { for (N *t : g.p.decls) { std::vector<N *> v; allNodes(t, v); for (N *n : v) { if (sameDecl(n, d)) return true; if (n->k == SCatch && n->body) return true; if (n->k == EStr && n->d == d) return true; } } return false; }
static N *sizeOf(N *d) { static std::string t; N *n = Tok("", &tyInt); n->s = "sizeof(" + d->s + ")"; n->d = d; return n; }
static N *using_(Prog &g, N *v, int k) {
  switch (k) { case 0: return g.use(Int(7)); case 1: return g.use(Ref(v)); case 2: return Bin(BO_Assign, Ref(v), Int(3)); case 3: return g.use(sizeOf(v)); case 4: return While(Paren(Ref(v)), Null()); case 5: return Un(UO_PreInc, Ref(v)); default: return If(Int(1), Blk(), While(Ref(v), Blk())); } }
static bool isLocal(N *v) { if (v->k != DVar) return false; for (N *u = v->up; u; u = u->up) if (u->k == DFn || u->k == DMeth) return !(u->flags & FTemplate); return false; }
static void wanted(Prog &g, N *n, Wants &w) { if (isLocal(n) && !mentioned(g, n)) w.add(n, "The local variable '" + n->s + "' is unused."); }
HARNESS(local_places) {
  chooseLang(); Prog g; int place = sym_choose("place", 0, gLang == C ? 7 : 9), use = sym_choose("use", 0, 6); N *v = Var("llll", &tyInt, sym_choose("value", 0, 1) ? Int(1) : nullptr), *s, *u = using_(g, v, use); std::vector<N *> pre;
  switch (place) {
  case 0: s = Blk({Decl(v), u}); break;
  case 1: v->flags = FStatic; s = Blk({Decl(v), u}); break;
  case 2: v->flags = FExtern; v->c.clear(); s = Blk({Decl(v), u}); break;
  case 3: if (v->c.empty()) v->c = {Int(2)}; s = For(Decl(v), Ref(g.b), nullptr, Blk({u})); break;
  case 4: { N *w = Var("mmmm", &tyInt, Int(4)); s = Blk({mk(SDecl, {w, v}), u}); if (v->c.empty()) s = Blk({Decl(w), Decl(v), u}); else s = Blk({Decl(v), Decl(w), u}); break; }
  case 5: { N *in = Var("llll", &tyInt, Int(5)); s = Blk({Decl(v), Blk({Decl(in), using_(g, in, sym_choose("inner", 0, 1))}), u}); break; }
  case 6: v->flags = sym_choose("kind", 0, 1) ? FStatic : 0; g.top.push_back(v); s = u; break;
  case 7: s = Blk({Decl(v), u}); break;
  case 8: if (gLang == CXX) { v->c.clear(); N *c = Catch(Blk({u})); c->d = v; s = Try(Blk({g.call()}), {c}); } else { v->c.clear(); s = ForIn(v, Ref(g.o), Blk({use == 2 || use == 5 ? g.use(Cond(Ref(v), Int(1), Int(2))) : u})); v->t = &tyId; if (use == 1 || use == 4) sym_assume(false); } break;
  default: if (gLang == CXX) { N *t = Fn("tttt", &tyVoid, {}, Blk({Decl(v), using_(g, v, use == 4 || use == 6 ? 1 : use)}), FTemplate); g.top.push_back(t); s = g.call(); } else s = Blk({g.call(), Decl(v), u}); }
  g.put({s}, place == 7 ? chooseContext() : 0);
  if (place == 8 && gLang == CXX) { Wants want; layout(g.p); if (!use) want.add(v, "The local variable 'llll' is unused."); check(g, "unused local variable", want, "exactly the unused local variables are reported"); return; }
  judgeEach(g, "unused local variable", "exactly the unused local variables are reported", [&g](N *n, Wants &w) { wanted(g, n, w); }); }
// classes whose variables need no use
HARNESS(raii) {
  gLang = sym_choose("cxx", 0, 1) ? CXX : C; int form = gLang == C ? 0 : sym_choose("class", 0, 4), list = sym_choose("list", 0, 4); Prog g; N *r = Rec("Lock", {Field("ffff")}), *alias = r; Ty *t = new Ty{TRec, nullptr, r};
  if (form == 1) { g.top.push_back(Namespace("std", {r})); alias = Rec("std::Lock", {}); } else if (form == 2 || form == 4) { r->flags = FTemplate; g.top.push_back(r); alias = Rec("Lock<const char*>", {}); } else g.top.push_back(r);
  t->rec = alias; if (form < 3 && sym_choose("const", 0, 1)) { t->quals = true; } N *v = Var("llll", t, nullptr, t->quals ? FExtern : 0); std::string name = form == 1 ? "std::Lock" : "Lock";
  auto isSep = [](char c) { return sym_or(sym_or(c == ',', c == ';'), sym_or(c == ' ', c == '\t')); };
  char x = 0, y = 0; std::string txt, other; bool in = false;
  auto word = [&](const std::string &w) { txt = "std::Other"; x = sym_char("before"); y = sym_char("after"); sym_assume(sym_and(x != 0, y != 0)); txt += x; txt += w; txt += y; txt += "Zzzz"; return sym_concretize(sym_and(isSep(x), isSep(y))); };
  switch (list) { case 0: break; case 1: in = word(name); RuleConfiguration::addConfiguration("RAII_CUSTOM_CLASSES", txt); break; case 2: in = word(name); RuleConfiguration::addConfiguration("RAII_DEFAULT_CLASSES", txt); break;
  case 3: { txt = name; x = sym_char("last"); sym_assume(x != 0); txt += x; in = sym_concretize(isSep(x)); RuleConfiguration::addConfiguration("RAII_CUSTOM_CLASSES", txt); break; }
  default: { std::string n2 = name; for (int i = 0; i < 4; i++) n2[n2.size() - 4 + i] = sym_char("letter"); for (char c : n2) sym_assume(sym_and(c != 0, sym_not(isSep(c)))); in = sym_concretize(sym_eq(n2, name)); RuleConfiguration::addConfiguration("RAII_CUSTOM_CLASSES", n2); } }
  if (form >= 3) { N *p = Var("pppp", new Ty{TPtr, t}); g.put({Decl(p)}, 0); v = p; in = false; } else g.put({Decl(v)}, 0);
  Wants want; layout(g.p); if (!in) want.add(v, "The local variable '" + v->s + "' is unused."); World w = make(g.p); RuleBase *rule = newUnusedLocal(); compare(runRule(rule, w), want, rule, "exactly the unused local variables of other classes are reported"); sym_cover(in ? "good" : "bad"); }
HARNESS(raii_standard) {
  gLang = CXX; Prog g; int k = sym_choose("class", 0, 3); const char *n[] = {"lock_guard", "unique_lock", "scoped", "lock_guard"}; int tmpl = sym_choose("template", 0, 5); N *r = Rec(n[k], {Field("ffff")}, tmpl ? FTemplate : 0); g.top.push_back(Namespace(k == 3 ? "stf" : "std", {r, Rec("hold", {Field("gggg")}, FTemplate)})); std::string sp = k == 3 ? "stf::" : "std::", full = sp + n[k]; const std::string types[] = {full, full + "<int>", full + "<" + full + "<int>>", sp + "hold<" + full + "<int>>", full + "<" + sp + "hold<int>>", sp + "hold<int>"}; bool other = k >= 2 || tmpl == 3 || tmpl == 5;
  N *v = Var("llll", new Ty{TRec, nullptr, Rec(types[tmpl], {})}); g.put({Decl(v)}, tmpl == 1 ? chooseContext() : 0);
  Wants want; layout(g.p); if (other) want.add(v, "The local variable 'llll' is unused."); World w = make(g.p); RuleBase *rule = newUnusedLocal(); compare(runRule(rule, w), want, rule, "exactly the unused local variables of other classes are reported"); sym_cover(!other ? "good" : "bad"); }
// parameters of functions
static void unused(N *p, Wants &w) { w.add(p, "The parameter '" + p->s + "' is unused."); }
HARNESS(parameters) {
  chooseLang(); Prog g; N *p = Parm("pppp"), *q = Parm("qqqq"); int form = sym_choose("form", 0, gLang == CXX ? 13 : 6), use = form <= 1 ? sym_choose("use", 0, 6) : sym_choose("use", 0, 1); if (sym_choose("attribute", 0, 1)) p->attr = "__attribute__((unused))";
  auto body = [&] { return Blk({using_(g, p, use)}); }; N *f = Fn("tttt", &tyVoid, {p, q}, body()); bool contract = false, both = true; std::vector<N *> extra; N *fp = Parm("ffff", new Ty{TFun, nullptr, Parm("iiii")});
  switch (form) {
  case 0: break;
  case 1: f->parms = {q, p}; break;
  case 2: f->body = nullptr; contract = true; break;                                        // a prototype
  case 3: p->s = q->s = gLang == CXX ? "" : "rrrr"; if (gLang != CXX) q->s = "qqqq"; if (gLang == CXX) { f->body = Blk(); contract = true; } break;      // no names
  case 4: g.top.push_back(Fn("tttt", &tyVoid, {Parm("xxxx"), Parm("yyyy")}, nullptr)); break; // declared before, with other names
  case 5: f->parms = {p, fp}; extra = {fp}; q = nullptr; break;                              // a name within a type
  case 6: f->body->c.insert(f->body->c.begin(), Decl(Var("llll", new Ty{TFun, nullptr, Parm("iiii")}))); break;
  case 7: f->flags = FTemplate; contract = true; break;
  case 8: case 9: case 10: case 11: contract = true; break;
  }
  if (form == 8) g.top.push_back(Rec("Kkkk", {f}));                                         // written within the class
  else if (form == 9) g.top.push_back(Namespace("nnnn", {f})), contract = false;
  else if (form == 10 || form == 11) { N *d = Fn("tttt", &tyVoid, {Parm("xxxx"), Parm("yyyy")}, nullptr, form == 10 ? 0 : FVirtual); g.top.push_back(Rec("Kkkk", {d})); f->s = "Kkkk::tttt"; g.top.push_back(f); contract = form == 11; }
  else { if (form >= 12) g.top.push_back(Raw("template<class T> struct Kkkk { void mmmm(int xxxx); T oooo; }; template<class T> void Kkkk<T>::mmmm(int yyyy) { oooo = yyyy; }" + std::string(form == 13 ? " void zzzz() { Kkkk<int> kkkk; kkkk.mmmm(1); }" : ""))); g.top.push_back(f); }   // out of line, of a class template
  if (form == 0) g.ret = &tyVoid; g.put({g.use(Bin(BO_Add, Ref(g.a), Ref(g.b)))}, 0); g.p.decls.back()->body ? void() : void(); Wants want; layout(g.p);
  if (gLang == OBJC) unused(g.o, want); bool used = use != 0 && use != 3; 
  if (!contract) { if (!used && p->attr.empty() && !p->s.empty()) unused(p, want); if (q && !q->s.empty()) unused(q, want); for (N *x : extra) unused(x, want); }
  check(g, "unused method parameter", want, "exactly the unused parameters are reported"); }
// methods that override, of a class in a class, and of a class in a function
HARNESS(methods) {
  gLang = CXX; Prog g; N *p = Parm("pppp"); bool used = sym_choose("used", 0, 1); N *f = Fn("tttt", &tyVoid, {p}, Blk({used ? g.use(Ref(p)) : g.use(Int(8))})); int base = sym_choose("base", 0, 3), form = sym_choose("form", 0, 2); bool in = form == 2; f->body = Blk({used ? Bin(BO_Assign, Ref(p), Int(1)) : Null()});
  N *b = Rec("Base", {Fn("tttt", &tyVoid, {Parm("xxxx")}, nullptr, base == 1 ? FVirtual : base == 2 ? FVirtual | FPure : 0)}); if (base == 3) b->c[0]->parms.push_back(Parm("yyyy")); g.top.push_back(b);
  N *r = Rec("Derv", {}); r->d = b; if (in) r->c = {f}; else { r->c = {Fn("tttt", &tyVoid, {Parm("zzzz")}, nullptr, form == 1 && (base == 1 || base == 2) ? FOverride : 0)}; f->s = "Derv::tttt"; } g.top.push_back(r); if (!in) g.top.push_back(f);
  g.put({g.use(Bin(BO_Add, Ref(g.a), Ref(g.b)))}, 0); Wants want; layout(g.p); if (!used && !in && base != 1 && base != 2) unused(p, want); check(g, "unused method parameter", want, "exactly the unused parameters are reported"); }
// Objective-C: a method declared by a superclass or by a protocol of the class or its extension is as it must be
HARNESS(objc_methods) {
  gLang = OBJC; Prog g; int st = sym_choose("class method", 0, 1) * FStatic, where = sym_choose("declared", 0, 13), action = where <= 1 && !st ? sym_choose("action", 0, 1) : 0, use = sym_choose("used", 0, 1); int other = where >= 2 ? sym_choose("declared for", 0, 2) : 0;
  N *p = Parm("pppp"), *q = Parm("qqqq"); N *m = Meth("tttt:uuuu:", &tyVoid, {p, q}, Blk({use ? g.use(Ref(p)) : g.use(Int(8))}), st); if (action) m->attr = "__attribute__((ibaction))"; if (use && sym_choose("attribute", 0, 1)) q->attr = "__attribute__((unused))";
  N *d = Meth(other == 1 ? "tttt:vvvv:" : "tttt:uuuu:", &tyVoid, {Parm("xxxx"), Parm("yyyy")}, nullptr, other == 2 ? st ^ FStatic : st); N *base = Iface("Base"), *cls = Iface("Cccc"), *proto = Proto("Pppp", {}), *up = nullptr, *ext = nullptr; bool impl = false;
  switch (where) { case 0: break; case 1: cls->c = {d}; break; case 2: base->c = {d}; break; case 3: proto->c = {d}; cls->adopt = {proto}; break; case 4: proto->c = {d}; ext = Cat(cls, "", {}); ext->adopt = {proto}; break; case 5: proto->c = {d}; up = Proto("Uuuu", {}); up->adopt = {proto}; cls->adopt = {up}; break; case 6: proto->c = {d}; base->adopt = {proto}; break; case 7: proto->c = {d}; break; case 9: case 10: proto->c = {d}; up = Proto("Uuuu", {Meth("zzzz", &tyVoid, {}, nullptr)}); cls->adopt = where == 9 ? std::vector<N *>{up, proto} : std::vector<N *>{proto, up}; break; case 11: proto->c = {d}; up = Proto("Uuuu", {Meth("zzzz", &tyVoid, {}, nullptr)}); ext = Cat(cls, "", {}); ext->adopt = {up, proto}; break; case 12: proto->c = {d}; up = Proto("Uuuu", {Meth("zzzz", &tyVoid, {}, nullptr)}); cls->adopt = {up}; ext = Cat(cls, "", {}); ext->adopt = {proto}; break; case 13: { N *root = Iface("Root", {d}); g.top.push_back(root); base->d = root; break; } default: ext = Cat(base, "", {d}); }
  cls->d = base; g.top.push_back(proto); if (up) g.top.push_back(up); g.top.push_back(base); if (ext && ext->d == base) { g.top.push_back(ext); ext = nullptr; } g.top.push_back(cls); if (ext) g.top.push_back(ext); g.top.push_back(Impl(cls, {m})); (void)impl;
  g.put({Bin(BO_Assign, Ref(g.o), Ref(g.o)), g.use(Bin(BO_Add, Ref(g.a), Ref(g.b)))}, 0); bool contract = action || (where >= 2 && where != 7 && other == 0);
  Wants want; layout(g.p); if (!contract) { if (!use) unused(p, want); if (q->attr.empty()) unused(q, want); } check(g, "unused method parameter", want, "exactly the unused parameters are reported"); }
