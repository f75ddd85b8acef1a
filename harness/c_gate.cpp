// What a rule is applied to: languages, the main file, CUDA; and where findings in macros are.
#include "stmts.h"
#include "oclint/AbstractASTVisitorRule.h"
using namespace oclint;
struct Gate : AbstractASTVisitorRule<Gate> {
  unsigned langs = 7, cuda = 1; int ups = 0, downs = 0; bool out = false;
  const std::string name() const override { return "gate"; } int priority() const override { return 1; } const std::string category() const override { return "test"; }
  unsigned int supportedLanguages() const override { return langs; } unsigned int supportedCUDAFunctionAttrs() const override { return cuda; }
  void setUp() override { ups++; } void tearDown() override { downs++; }
  void seen() { if (ups != downs + 1) out = true; }
  bool VisitVarDecl(clang::VarDecl *d) { seen(); addViolation(d, this, "var"); return true; }
  bool VisitFunctionDecl(clang::FunctionDecl *d) { seen(); if (!d->isImplicit()) addViolation(d, this, "fun"); return true; }
  bool VisitObjCMethodDecl(clang::ObjCMethodDecl *d) { seen(); if (!d->isImplicit()) addViolation(d, this, "method"); return true; }
  bool VisitIfStmt(clang::IfStmt *s) { seen(); addViolation(s, this, "if"); return true; } };
static const char *what(N *n) { switch (n->k) { case DVar: case DParm: return "var"; case DFn: return "fun"; case DMeth: return "method"; case SIf: return "if"; default: return nullptr; } }
static void judgeGate(Program &p, Gate *r, Wants &want, bool applied) {
  World w = make(p); compare(runRule(r, w), want, r, "a rule sees exactly the declarations of the main file, in the languages it is for"); sym_assert(!r->out, "a rule is set up before it sees anything"); sym_assert(r->ups == r->downs && r->ups == (applied ? 1 : 0), "a rule that is applied is set up and torn down once"); sym_cover(want.w.empty() ? "nothing" : "something"); }
static N *global(N *f) { f->attr = "__attribute__((global))"; return f; }
HARNESS(languages) {
  int l = sym_choose("language", 0, 5); gLang = l == 0 || l == 3 ? C : l == 1 || l == 5 ? CXX : OBJC; gOld = l == 3; gObjCxx = l == 4; gCuda = l == 5; Gate *r = new Gate(); r->langs = sym_int("languages", 0, 7); r->cuda = sym_int("cuda", 0, 3); Prog g; bool head = sym_choose("header", 0, 1);
  N *f = Fn("tttt", &tyVoid, {Parm("pppp")}, Blk({If(Int(1), Null())})), *k = Fn("kkkk", &tyVoid, {Parm("qqqq")}, Blk({Decl(Var("llll"))})), *v = Var("gvar"); if (gCuda) global(k); g.top = {v, f, k}; if (gLang == CXX) g.top.push_back(Rec("Rrrr", {Fn("mmmm", &tyVoid, {}, nullptr)}));
  if (gLang == OBJC) { N *i = Iface("Iiii"); g.top.push_back(i); g.top.push_back(Impl(i, {Meth("mmmm", &tyVoid, {}, Blk({Decl(Var("zzzz"))}))})); }
  if (head) { N *hf = Fn("head", &tyVoid, {Parm("hpar")}, Blk({Decl(Var("hloc")), If(Int(1), Null())})); hf->flags = FStatic; g.p.header = {hf, Var("hvar")}; if (gCuda) g.p.header.push_back(global(Fn("hker", &tyVoid, {}, Blk({Decl(Var("hlok"))})))); }
  g.put({Null()}, 0); Wants want; layout(g.p); bool on = gCuda || sym_concretize(sym_and((r->langs >> (gLang == C ? 0 : gLang == CXX ? 1 : 2) & 1) != 0, (r->cuda & 1) != 0));
  if (on) for (N *d : g.p.decls) { if (gCuda && d->k == DFn && !sym_concretize((r->cuda >> (d == k) & 1) != 0)) continue; std::vector<N *> ns; allNodes(d, ns); for (N *n : ns) if (what(n)) want.add(n, what(n)); }
  judgeGate(g.p, r, want, on); }
// macros: at their use; arguments at themselves
HARNESS(macros) {
  chooseLang(); Prog g; int form = sym_choose("form", 0, 4); bool head = sym_choose("in the header", 0, 1); Gate *r = new Gate(); N *m1 = Raw("#define MMMM(x) if(x){}"), *m2 = Raw("#define NNNN(x) MMMM(x)"), *m3 = Raw("#define DDDD int dddd"), *m4 = Raw("#define WRAP(x) x");
  if (head) g.p.header = {m1, m2, m3, m4}; else g.p.decls = {m1, m2, m3, m4}; N *t, *s; std::vector<N *> in; bool decl = false;
  switch (form) { case 0: t = Tok("MMMM(aaaa)", &tyVoid); break; case 1: t = Tok("NNNN(aaaa)", &tyVoid); break; case 2: t = Tok("DDDD", &tyVoid); break; case 3: t = Tok("WRAP(if(aaaa){})", &tyVoid); break; default: t = Tok("WRAP(DDDD)", &tyVoid); decl = true; }
  s = t; g.put({Blk({s, g.call()})}, chooseContext()); Wants want; layout(g.p); std::vector<N *> ns; for (N *d : g.p.decls) allNodes(d, ns); for (N *n : ns) if (what(n)) want.add(n, what(n));
  Pos b = t->b, e = t->b; if (form == 3) { b.c += 5; e.c += 14; } if (form == 4) { b.c += 5; e.c += 5; } want.w.push_back({nullptr, form == 2 || form == 4 ? "var" : "if", false, b, e, true}); (void)decl; (void)in;
  World w = make(g.p); compare(runRule(r, w), want, r, "what a macro makes is reported where the macro is used"); sym_cover("something"); }
// declarations that a macro makes at the top of the main file belong to it, wherever the macro is defined
HARNESS(macro_declarations) {
  chooseLang(); Prog g; bool head = sym_choose("in the header", 0, 1), use = sym_choose("used in the header", 0, 1), wrap = sym_choose("wrapped", 0, 1); Gate *r = new Gate(); N *m = Raw("#define DDDD(n) int n"), *m2 = Raw("#define WRAP(x) x"); std::vector<N *> v = {m, m2}; if (use) v.push_back(Raw("DDDD(hhdr);")); N *t = Raw(wrap ? "WRAP(DDDD(vvar));" : "DDDD(vvar);");
  if (head || use) g.p.header = v; else g.p.decls = v; g.p.decls.push_back(t); g.put({Null()}, 0); Wants want; layout(g.p); std::vector<N *> ns; for (N *d : g.p.decls) allNodes(d, ns); for (N *n : ns) if (what(n)) want.add(n, what(n));
  Pos b = t->b, e = t->b; e.c += 5; if (wrap) { b.c += 5; e.c += 5; } want.w.push_back({nullptr, "var", false, b, e, true}); World w = make(g.p); compare(runRule(r, w), want, r, "what a macro makes is reported where the macro is used"); sym_cover("something"); }
