// Suppressing findings by annotations and comments.
#include "stmts.h"
#include "oclint/AbstractASTVisitorRule.h"
#include "oclint/AbstractSourceCodeReaderRule.h"
using namespace oclint;
// finds every variable, parameter, function, method and if
struct Mark : AbstractASTVisitorRule<Mark> {
  const std::string name() const override { return "mark me"; } int priority() const override { return 1; } const std::string category() const override { return "test"; }
  bool VisitVarDecl(clang::VarDecl *d) { addViolation(d, this, "var"); return true; }
  bool VisitFunctionDecl(clang::FunctionDecl *d) { if (!d->isImplicit()) addViolation(d, this, "fun"); return true; }
  bool VisitObjCMethodDecl(clang::ObjCMethodDecl *d) { if (!d->isImplicit()) addViolation(d, this, "method"); return true; }
  bool VisitIfStmt(clang::IfStmt *s) { addViolation(s, this, "if"); return true; } };
static bool plainChar(char c) { return sym_and(sym_and(c >= 32, c <= 126), sym_and(sym_and(c != '"', c != '\\'), sym_and(c != '?', c != '%'))); }
static std::string anyText(const char *label, size_t n) { char b[64]; sym_bytes(b, n, label); for (size_t i = 0; i < n; i++) sym_assume(plainChar(b[i])); return std::string(b, n); }
static bool begins(const std::string &s, const std::string &p) { return s.size() >= p.size() && sym_eq_bytes(s.data(), p.data(), p.size()); }
static bool bare_(const std::string &t) { return t.size() == 15 && sym_eq(t, "oclint:suppress"); }
static bool named_(const std::string &t, const char *rule) { return begins(t, std::string("oclint:suppress[") + rule + "]"); }
static bool matches(const std::string &t, const char *rule) { return sym_concretize(sym_or(bare_(t), named_(t, rule))); }
static bool annotated(N *n, const char *rule) { for (; n; n = n->up) if (!n->note.empty() && matches(n->note, rule)) return true; return false; }
static bool contains(const std::string &t) { static const char w[] = "//!OCLINT"; bool r = false; for (size_t i = 0; i + 9 <= t.size(); i++) r = sym_or(r, sym_eq_bytes(t.data() + i, w, 9)); return sym_concretize(r); }
struct Commented { std::vector<int> lines; void see(N *n) { if (!n->trail.empty() && contains(n->trail)) lines.push_back(gLineOf(0, n->trailTok)); if (!n->head.empty() && contains(n->head)) lines.push_back(gLineOf(0, n->headTok)); } bool on(int l) { bool r = false; for (int x : lines) r = sym_or(r, x == l); return sym_concretize(r); } };
static const char *what(N *n) { switch (n->k) { case DVar: case DParm: return "var"; case DFn: return "fun"; case DMeth: return "method"; case SIf: return "if"; default: return nullptr; } }
template <class F> static void judgeMark(Program &p, const char *label, F hidden) {
  Mark *m = new Mark(); Wants want; layout(p); std::vector<N *> v; for (N *d : p.decls) allNodes(d, v); Commented c; for (N *n : v) c.see(n); int kept = 0, gone = 0;
  for (N *n : v) if (what(n)) { if (c.on(n->b.l) || hidden(n)) gone++; else { want.add(n, what(n)); kept++; } }
  World w = make(p); compare(runRule(m, w), want, m, label); sym_cover(gone ? "suppressed" : "reported"); }
static N *iff(Prog &g) { return If(Ref(g.a), g.call()); }
static std::string noteText() { static const int n[] = {15, 24, 14, 16, 27, 23}; return anyText("annotation", n[sym_choose("annotation length", 0, 5)]); }
HARNESS(annotations) {
  gLang = (Lang)sym_choose("language", 0, 1); Prog g; int level = sym_choose("at", 0, gLang == CXX ? 9 : 4); N *p = Parm("pppp"), *l = Var("llll", &tyInt, Int(1)), *q = Parm("qqqq"), *in = Var("iiii");
  N *f = Fn("tttt", &tyVoid, {p, q}, Blk({Decl(l), iff(g), While(Ref(q), Blk({Decl(in), If(Ref(in), Null())}))})); f->body->c[1] = If(Ref(p), g.use(Ref(q))); N *other = Fn("uuuu", &tyVoid, {}, Blk({Decl(Var("kkkk"))})), *top = f, *at = f;
  switch (level) { case 0: break; case 1: at = p; break; case 2: at = l; break; case 3: at = other; break; case 4: at = in; break;
  case 5: top = at = Namespace("nnnn", {f, other}); break;
  case 6: top = at = Rec("Rrrr", {f, other}); break;
  case 7: top = Rec("Rrrr", {f, other}); break;
  case 8: top = Rec("Rrrr", {other, Rec("Ssss", {f})}); at = top->c[1]; break;
  default: { N *lc = Rec("Llll", {Fn("vvvv", &tyVoid, {Parm("xxxx")}, Blk({Decl(Var("yyyy"))}))}); f->body->c.push_back(mk(SDecl, {lc})); at = lc; } }
  at->note = noteText(); g.top.push_back(top); if (top == f) g.top.push_back(other); g.put({iff(g)}, 0);
  judgeMark(g.p, "exactly what an annotation does not cover is reported", [](N *n) { return annotated(n, "mark me"); }); }
// comments; the text is free
static std::string comment_(int kind) {
  static const int len[] = {6, 9, 9, 12, 12}; static const char *b[] = {"//!", "//!", "/*!", "///", "/**"}; std::string s = anyText("comment", len[kind]); bool block = kind == 2 || kind == 4; for (size_t i = 0; i < s.size(); i++) if (block || !i) sym_assume(s[i] != '*'); sym_assume(s[0] != '/'); return b[kind] + s + (block ? "*/" : ""); }
HARNESS(comments) {
  chooseLang(); Prog g; int at = sym_choose("at", 0, 8), kind = sym_choose("kind", 0, 4); std::string t = comment_(kind); N *d = Decl(Var("llll")), *d2 = Decl(Var("mmmm", &tyInt, Int(1))), *i = If(Ref(g.a), Blk({g.call(), Decl(Var("kkkk"))})), *i2 = If(Ref(g.b), Blk({If(Ref(g.a), Null())}), g.call()), *f = Fn("tttt", &tyVoid, {Parm("pppp")}, Blk({Decl(Var("nnnn"))}));
  switch (at) { case 0: d->trail = t; break; case 1: i->head = t; break; case 2: i->c[1]->c[0]->trail = t; break; case 3: i->c[1]->c[1]->trail = t; break; case 4: i->trail = t; break; case 5: i2->head = t; break; case 6: i2->c[1]->trail = t; break; case 7: f->head = t; break; default: f->body->trail = t; }
  if (sym_choose("another", 0, 1)) d2->trail = "//!OCLINT"; g.top.push_back(f); g.put({Blk({d, i, d2, i2})}, kind ? 0 : sym_choose("context", 0, 1) * 2);
  judgeMark(g.p, "exactly what no comment covers is reported", [](N *) { return false; }); }
// Objective-C: annotations of the interface, of a property and of a category hold for the method
HARNESS(objc_annotations) {
  gLang = OBJC; Prog g; int at = sym_choose("at", 0, 8); std::string t = noteText(); N *p = Parm("pppp"), *m = Meth("mmmm:", &tyVoid, {p}, Blk({Decl(Var("llll")), iff(g)})), *o = Meth("oooo", &tyInt, {}, Blk({Decl(Var("kkkk")), Return(Int(2))})), *c = Iface("Cccc"), *i, *cat = nullptr, *prop = Prop("oooo"), *proto = nullptr; m->body->c[1] = If(Ref(p), Null());
  N *md = Meth("mmmm:", &tyVoid, {Parm("xxxx")}, nullptr), *extra = Meth("eeee", &tyVoid, {}, nullptr); c->c = {md, extra, prop}; i = Impl(c, {m, o}); std::vector<N *> whole;
  switch (at) { case 0: m->note = t; whole = {m}; break; case 1: md->note = t; whole = {md, m}; break; case 2: c->note = t; whole = {c}; break; case 3: p->note = t; whole = {p}; break;
  case 4: { N *r = Meth("mmmm:", &tyVoid, {Parm("yyyy")}, nullptr); r->note = t; cat = Cat(c, "Kkkk", {r}); whole = {r}; break; }
  case 5: proto = Proto("Pppp", {Meth("zzzz:", &tyVoid, {Parm("wwww")}, nullptr), Meth("zzyy", &tyVoid, {}, nullptr)}); proto->c[0]->note = t; whole = {proto->c[0]}; break;
  case 6: extra->note = t; whole = {extra}; break; case 7: prop->note = t; break; default: o->note = t; whole = {o}; }
  if (proto) g.top.push_back(proto); g.top.push_back(c); if (cat) g.top.push_back(cat); g.top.push_back(i); g.put({iff(g)}, 0);
  bool any_ = matches(t, "mark me"), own = sym_concretize(named_(t, "mark me"));
  judgeMark(g.p, "exactly what an annotation does not cover is reported", [&](N *n) { for (N *u = n; u; u = u->up) { for (N *x : whole) if (x == u && any_) return true; if (at == 4 && own && (u == m || u == md)) return true; } return false; }); }
// a rule for the lines of the file
HARNESS(lines) {
  gLang = (Lang)sym_choose("language", 0, 1); RuleConfiguration::addConfiguration("LONG_LINE", "0"); Program p; int at = sym_choose("at", 0, gLang == CXX ? 7 : 5); N *q = Parm("pppp"), *l = Var("llll"), *f = Fn("tttt", &tyVoid, {q}, Blk({Decl(l), If(Ref(q), Null())})), *v = Var("vvvv"), *r = Rec("Rrrr", {Field("ffff"), Field("gggg")}), *top = f;
  std::string t; if (at != 4) { static const int n[] = {15, 26, 29, 25}; t = anyText("annotation", n[sym_choose("annotation length", 0, 3)]); } N *who = nullptr; std::string cm;
  switch (at) { case 0: who = f; break; case 1: who = l; break; case 2: who = v; break; case 3: who = r; break; case 4: f->body->c[sym_choose("line", 0, 1)]->trail = cm = comment_(sym_choose("kind", 0, 4)); break; case 5: who = r->c[1]; break; case 6: who = top = Namespace("nnnn", {f}); break; default: top = Namespace("nnnn", {f}); who = f; }
  if (who) who->note = t; p.decls = {v, top, r}; p.noeol = true; layout(p); std::vector<int> len = p.lengths; len.push_back(2); len.back() = r->e.c + 3; Wants want; std::vector<N *> ns; for (N *d : p.decls) allNodes(d, ns); Commented c; for (N *n : ns) c.see(n); int gone = 0; bool hide = who && matches(t, "long line");
  for (size_t i = 0; i < len.size(); i++) { int line = (int)i + 1; if (len[i] <= 0) continue; if (c.on(line) || (hide && line >= who->b.l && line <= who->e.l)) { gone++; continue; } want.w.push_back({nullptr, "Line with " + num(len[i]) + " characters exceeds limit of 0", false, {line, 1}, {line, len[i]}, true}); }
  World w = make(p); RuleBase *rl = ruleNamed("long line"); compare(runRule(rl, w), want, rl, "exactly the lines that no annotation or comment covers are reported"); sym_cover(gone ? "suppressed" : "reported"); }

// two such rules, one after the other
struct LineMark : AbstractSourceCodeReaderRule {
  const std::string name() const override { return "mark me"; } int priority() const override { return 1; } const std::string category() const override { return "test"; }
  void eachLine(int n, std::string line) override { if (line.size()) addViolation(n, 1, n, 2, this, "line"); } };
HARNESS(two_line_rules) {
  gLang = (Lang)sym_choose("language", 0, 1); RuleConfiguration::addConfiguration("LONG_LINE", "0"); Program p; int at = sym_choose("at", 0, 2); N *q = Parm("pppp"), *l = Var("llll"), *f = Fn("tttt", &tyVoid, {q}, Blk({Decl(l), If(Ref(q), Null())})), *v = Var("vvvv"), *r = Rec("Rrrr", {Field("ffff"), Field("gggg")});
  static const int n[] = {15, 24, 26}; std::string t = anyText("annotation", n[sym_choose("annotation length", 0, 2)]); N *who = at == 0 ? f : at == 1 ? l : r; who->note = t; if (sym_choose("comment", 0, 1)) f->body->c[1]->trail = "//!OCLINT";
  p.decls = {v, f, r}; p.noeol = true; layout(p); std::vector<int> len = p.lengths; len.push_back(2); len.back() = r->e.c + 3; std::vector<N *> ns; for (N *d : p.decls) allNodes(d, ns); Commented c; for (N *n : ns) c.see(n); int gone = 0;
  World w = make(p); RuleBase *ll = ruleNamed("long line"); LineMark *mk = new LineMark(); bool first = sym_choose("first", 0, 1);
  for (int k = 0; k < 2; k++) { bool isLong = first == (k == 0), hide = matches(t, isLong ? "long line" : "mark me"); Wants want;
    for (size_t i = 0; i < len.size(); i++) { int line = (int)i + 1; if (len[i] <= 0) continue; if (c.on(line) || (hide && line >= who->b.l && line <= who->e.l)) { gone++; continue; } want.w.push_back({nullptr, isLong ? "Line with " + num(len[i]) + " characters exceeds limit of 0" : std::string("line"), false, {line, 1}, {line, isLong ? len[i] : 2}, true}); }
    RuleBase *rl = isLong ? ll : mk; compare(runRule(rl, w), want, rl, k ? "what one rule leaves out is no matter of the next" : "exactly the lines that nothing covers are reported"); }
  sym_cover(gone ? "suppressed" : "reported"); }
