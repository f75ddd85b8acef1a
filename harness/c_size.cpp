// Size limits of methods, classes and lines.
#include "prog.h"
struct What { const char *rule; Limit l; const char *unit; };
static void over(Wants &w, N *n, const char *kind, long v, const char *unit, long t) { if (v > t) w.add(n, std::string(kind) + " with " + num(v) + " " + unit + " exceeds limit of " + gText); }
static void all(N *n, std::vector<N *> &v) { v.push_back(n); for (N *x : n->c) if (x) all(x, v); for (N *x : n->parms) all(x, v); if (n->body) all(n->body, v); }
template <class F> static void judge(std::vector<N *> &decls, Program &p, const char *rule, long t, F f) { Wants want; World w = make(p); std::vector<N *> v; for (N *d : decls) all(d, v); for (N *n : v) f(n, want); RuleBase *r = ruleNamed(rule); compare(runRule(r, w), want, r, "exactly what is over the limit is reported, with its size and the limit"); sym_cover(want.w.empty() ? "good" : "bad"); }
// lines of a body, from brace to brace; methods written inside their class count with the class
static const Limit LM{"LONG_METHOD", 50}, LC{"LONG_CLASS", 1000}, TF{"TOO_MANY_FIELDS", 20}, TM{"TOO_MANY_METHODS", 30}, TP{"TOO_MANY_PARAMETERS", 10}, LL{"LONG_LINE", 100};
static void method(Prog &g, long t) { judge(g.p.decls, g.p, "long method", t, [&](N *n, Wants &w) { if ((n->k == DFn || n->k == DMeth) && n->body && !(n->up && n->up->k == DRec)) over(w, n, "Method", n->body->e.l - n->body->b.l + 1, "lines", t); }); }
HARNESS(method_lines) { chooseLang(); Prog g; long t = limit(LM); N *b = Blk(); b->gap = sym_int("gap of another", 0, 100); g.top.push_back(Fn("kkkk", &tyVoid, {}, b)); g.put({If(Ref(g.a), Blk({g.call()}))}, chooseContext()); method(g, t); }
// a method defined outside its class
HARNESS(method_outside) { gLang = CXX; Prog g; long t = limit(LM); bool ctor = sym_choose("constructor", 0, 1); N *in = Fn(ctor ? "Rrrr" : "mmmm", &tyVoid, {}, nullptr, ctor ? FCtor : 0); N *b = Blk(); b->gap = sym_int("gap", 0, 200); N *out = Fn(ctor ? "Rrrr :: Rrrr" : "Rrrr :: mmmm", &tyVoid, {}, b, ctor ? FCtor : 0); N *r = Rec("Rrrr", {in}); r->gap = sym_int("class gap", 0, 200); g.p.decls = {r, out}; method(g, t); }
// parameters of functions with a body
HARNESS(parameters) { chooseLang(); Prog g; long t = limit(TP); int n = sym_choose("n", 0, 12); std::vector<N *> ps; for (int i = 0; i < n; i++) { std::string s = "pppp"; s[3] = (char)('a' + i); ps.push_back(Parm(s)); }
  int k = sym_choose("place", 0, gLang == C ? 1 : 3); N *b = Blk(); b->gap = sym_int("gap", 0, 100); N *f = Fn("ffff", &tyVoid, ps, k == 1 ? nullptr : b), *d = f;
  if (k >= 2 && gLang == CXX) { if (k == 3) f->s = "Rrrr", f->flags = FCtor; d = Rec("Rrrr", {f}); g.p.decls = {d}; } else if (k >= 2) { N *i = Iface("Iiii"); f = Meth("mmmm", &tyVoid, ps, b); if (k == 3) { N *pn = Meth("mmmm", &tyVoid, ps, nullptr); std::vector<N *> qs; for (N *p : ps) qs.push_back(Parm(p->s)); pn->parms = qs; i->c.push_back(pn); } g.p.decls = {i, Impl(i, {f})}; } else g.p.decls = {d};
  judge(g.p.decls, g.p, "too many parameters", t, [&](N *n, Wants &w) { if ((n->k == DFn || n->k == DMeth) && n->body) over(w, n, "Method", (long)n->parms.size(), "parameters", t); }); }
// classes
static const char *objcKind(N *n) { switch (n->k) { case DIface: return "Objective-C interface"; case DProto: return "Objective-C protocol"; case DCat: return "Objective-C category"; case DImpl: case DCatImpl: return "Objective-C implementation"; default: return nullptr; } }
HARNESS(class_lines) { gLang = sym_choose("language", 0, 1) ? CXX : OBJC; Prog g; long t = limit(LC); int gap = sym_int("gap", 0, 3000); N *d;
  if (gLang == CXX) { int k = sym_choose("kind", 0, 5); N *in = Rec("Iiii", {Field("xxxx")}, k & 1 ? FClass : k == 4 ? FUnion : 0); in->gap = gap; N *o = Rec("Oooo", {Field("yyyy")}); o->gap = sym_int("outer gap", 0, 3000); if (k >= 2) o->c.push_back(in); g.p.decls = {o}; if (k < 2) g.p.decls.push_back(in); if (k == 5) { g.p.decls = {Namespace("nnnn", {Rec("Zzzz", {}, FProtoOnly), o})}; } }
  else { N *i = Iface("Iiii", {Meth("mmmm", &tyVoid, {}, nullptr)}), *j = Iface("Jjjj", {}, {}, i); switch (sym_choose("kind", 0, 5)) { case 0: d = i; g.p.decls = {i}; break; case 1: d = Proto("Pppp", {Meth("mmmm", &tyVoid, {}, nullptr)}); g.p.decls = {d}; break; case 2: d = Cat(i, "Cccc", {Meth("nnnn", &tyVoid, {}, nullptr)}); g.p.decls = {i, d}; break; case 3: d = Cat(i, "", {Meth("nnnn", &tyVoid, {}, nullptr)}); g.p.decls = {i, d}; break; case 4: d = Impl(i, {Meth("mmmm", &tyVoid, {}, Blk())}); g.p.decls = {i, d}; break; default: d = CatImpl(j, "Cccc", {Meth("nnnn", &tyVoid, {}, Blk())}); g.p.decls = {i, j, Cat(j, "Cccc", {}), d}; } d->gap = gap; }
  judge(g.p.decls, g.p, "long class", t, [&](N *n, Wants &w) { const char *k = n->k == DRec ? "C++ class" : objcKind(n); if (k) over(w, n, k, n->e.l - n->b.l + 1, "lines", t); }); }
static std::string nth(const char *s, int i) { std::string r = s; r[3] = (char)('a' + i % 26); r[2] = (char)('a' + i / 26); return r; }
// fields declared in a class, or instance variables of an interface
HARNESS(fields) { gLang = sym_choose("language", 0, 1) ? CXX : OBJC; Prog g; bool many = sym_choose("many", 0, 1); long t = limit(TF, many); int n = many ? sym_choose("n", TF.dflt - 1, TF.dflt + 2) : sym_choose("few", 0, 4), k = sym_choose("extra", 0, 6), gap = sym_int("gap", 0, 10); std::vector<N *> fs; for (int i = 0; i < n; i++) fs.push_back(Field(nth("xxxx", i)));
  if (gLang == CXX) { N *r = Rec("Rrrr", fs, k == 4 ? FUnion : 0); r->gap = gap; if (k == 1) { r->c.push_back(Var("ssss", &tyInt, nullptr, FStatic)); r->c.push_back(Fn("mmmm", &tyVoid, {Parm("aaaa")}, Blk({Decl(Var("llll"))}))); } if (k == 2) r->c.push_back(Rec("Iiii", {Field("zzzz")})); if (k == 3) { r->c.insert(r->c.begin(), Access("public")); } g.p.decls = {r}; if (k >= 5) g.p.decls.insert(k == 5 ? g.p.decls.begin() : g.p.decls.end(), Rec("Rrrr", {}, FProtoOnly)); }
  else { N *i = Iface("Iiii", {}, fs); i->gap = gap; g.p.decls = {i}; if (k == 1) g.p.decls.push_back(Iface("Jjjj", {}, {Field("zzzz")}, i)); if (k == 2) g.p.decls.push_back(Impl(i, {})); if (k == 3) i->c.push_back(Meth("mmmm", &tyVoid, {Parm("aaaa")}, nullptr)); if (k == 4) g.p.decls.push_back(Proto("Pppp", {})); if (k >= 5) { N *fw = Iface("Iiii"); fw->flags = FProtoOnly; g.p.decls.insert(k == 5 ? g.p.decls.begin() : g.p.decls.end(), fw); } }
  judge(g.p.decls, g.p, "too many fields", t, [&](N *n, Wants &w) { if (n->k == DRec) { long c = 0; for (N *x : n->c) c += x->k == DField; over(w, n, "C++ class", c, "fields", t); } if (n->k == DIface) over(w, n, "Objective-C interface", (long)n->parms.size(), "fields", t); }); }
// methods declared in a class, or implemented by an implementation
HARNESS(methods) { gLang = sym_choose("language", 0, 1) ? CXX : OBJC; Prog g; bool many = sym_choose("many", 0, 1); long t = limit(TM, many); int n = many ? sym_choose("n", TM.dflt - 1, TM.dflt + 2) : sym_choose("few", 0, 4), k = sym_choose("extra", 0, 5), gap = sym_int("gap", 0, 10); std::vector<N *> fs;
  if (gLang == CXX) { for (int i = 0; i < n; i++) fs.push_back(i == 1 ? Fn("Rrrr", &tyVoid, {}, Blk(), FCtor) : i == 2 ? Fn("Rrrr", &tyVoid, {}, Blk(), FDtor) : Fn(nth("mmmm", i), &tyVoid, {}, i & 1 ? Blk() : nullptr, i == 3 ? FStatic : 0)); N *r = Rec("Rrrr", fs); r->gap = gap; g.p.decls = {r};
    if (k == 1) { r->c.push_back(Var("ssss", &tyInt, nullptr, FStatic)); r->c.push_back(Field("yyyy")); } if (k == 2) r->c.push_back(Rec("Iiii", {Fn("zzzz", &tyVoid, {}, nullptr)})); if (k == 3) g.p.decls.push_back(Fn("ffff", &tyVoid, {}, Blk({Decl(Var("vvvv", new Ty{TRec, nullptr, r}))}))); 
    if (k == 4) { N *b = Rec("Bbbb", {Fn("Bbbb", &tyVoid, {}, Blk(), FDtor | FVirtual)}); r->d = b; g.p.decls.insert(g.p.decls.begin(), b); } if (k == 5) g.p.decls.insert(g.p.decls.begin(), Rec("Rrrr", {}, FProtoOnly)); }
  else { for (int i = 0; i < n; i++) fs.push_back(Meth(nth("mmmm", i), &tyVoid, {}, Blk(), i == 1 ? FStatic : 0)); N *i = Iface("Iiii", {Meth("qqqq", &tyVoid, {}, nullptr)}); g.p.decls = {i}; N *m = Impl(i, fs); m->gap = gap; g.p.decls.push_back(m); if (k == 1) g.p.decls.push_back(CatImpl(i, "Cccc", {Meth("nnnn", &tyVoid, {}, Blk())})), g.p.decls.insert(g.p.decls.begin() + 1, Cat(i, "Cccc", {})); if (k == 2) i->c.push_back(Meth("zzzz", &tyVoid, {}, nullptr)); if (k == 3) m->c.push_back(Fn("ffff", &tyVoid, {}, Blk())); }
  judge(g.p.decls, g.p, "too many methods", t, [&](N *n, Wants &w) { if (n->k == DRec) { long c = 0; for (N *x : n->c) c += x->k == DFn; over(w, n, "C++ class", c, "methods", t); } if (n->k == DImpl || n->k == DCatImpl) { long c = 0; for (N *x : n->c) c += x->k == DMeth; over(w, n, "Objective-C implementation", c, "methods", t); } }); }
// lines of the main file, byte for byte
HARNESS(lines) { chooseLang(); Prog g; bool def = sym_choose("default", 0, 1), eol = sym_choose("newline at the end", 0, 1); long t = LL.dflt; gText = "100"; if (!def) { t = sym_int("limit", 0, 99); sym_assume(t > 25); gText = num(t); RuleConfiguration::addConfiguration(LL.key, gText); }
  int n = def ? sym_choose("pad", 88, 95) : sym_choose("pad", 10, 14); std::string s = sym_string_upto("comment", def ? 1 : 3); for (char c : s) sym_assume(sym_and(c != '/', c != 0)); g.p.noeol = !eol; int blank = sym_choose("empty lines", 0, 3), raw = sym_choose("long line", 0, 1); if (raw) g.p.decls.push_back(Raw("// " + std::string(def ? 120 : 80, 'y'))); if (blank & 1) g.p.decls.push_back(Raw("")), g.p.decls.push_back(Raw("")); g.p.decls.push_back(Fn("ffff", &tyVoid, {}, Blk({Decl(Var("llll"))}))); if (blank & 2) g.p.decls.push_back(Raw("")); g.p.decls.push_back(Comment(s + std::string(n, 'x')));
  World w = make(g.p); Wants want; std::vector<int> len = g.p.lengths; if (eol) len.pop_back(); std::string c = "/* " + s + std::string(n, 'x') + " */ "; int k = 0; for (char ch : c) if (sym_concretize(ch == '\n')) { len.push_back(k); k = 0; } else k++; len.push_back(k);
  for (size_t i = 0; i < len.size(); i++) if (len[i] > t) { Want x{nullptr, "Line with " + num(len[i]) + " characters exceeds limit of " + gText, false, {(int)i + 1, 1}, {(int)i + 1, len[i]}, true}; want.w.push_back(x); }
  RuleBase *r = ruleNamed("long line"); compare(runRule(r, w), want, r, "exactly the lines over the limit are reported, with their length and the limit"); sym_cover(want.w.empty() ? "good" : "bad"); }
