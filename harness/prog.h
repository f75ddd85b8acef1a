// Contexts a construct is put in.
#pragma once
#include "ast.h"
#pragma clang diagnostic ignored "-Wc++20-extensions"
using enum clang::BinaryOperatorKind;
using enum clang::UnaryOperatorKind;
// a program with the callee gggg(int) and variables aaaa, bbbb (parameters), and one place for statements
struct Prog {
  Program p; N *a = Parm("aaaa"), *b = Parm("bbbb"), *o = Parm("oooo", &tyId), *g, *h, *f = nullptr; std::vector<N *> top, more; Ty *ret = &tyVoid;
  Prog() { g = Fn("gggg", &tyVoid, {Parm("vvvv")}, nullptr); h = Fn("hhhh", &tyInt, {Parm("wwww")}, nullptr); }
  N *call() { return Call(g, {Ref(a)}); }
  N *use(N *e) { return Call(g, {e}); }
  // 0 function body  1 while body  2 then  3 else  4 case  5 do body  6 nested block | C++: 7 method  8 namespace  9 try  10 catch  11 constructor | ObjC: 7 method  8 @try  9 @finally  10 @synchronized  11 @autoreleasepool
  static int contexts() { return gLang == C ? 6 : 11; }
  void put(std::vector<N *> s, int ctx = 0) {
    int gap = sym_int("gap", 0, 100000); auto blk = [&](std::vector<N *> v) { N *n = Blk(v); n->gap = gap; return n; };
    std::vector<N *> body; N *inner;
    switch (ctx) {
    case 1: body = {While(Ref(a), blk(s))}; break;
    case 2: body = {If(Ref(a), blk(s))}; break;
    case 3: body = {If(Ref(a), Blk({call()}), blk(s))}; break;
    case 4: s.insert(s.begin(), Case(Int(1), call())); s.push_back(Break()); s.push_back(Default(call())); body = {Switch(Ref(a), blk(s))}; break;
    case 5: body = {Do(blk(s), Ref(a))}; break;
    case 6: body = {blk(s)}; break;
    case 8: if (gLang == CXX) { body = s; break; } body = {AtTry(blk(s), {AtFinally(Blk({call()}))})}; break;
    case 9: if (gLang == CXX) body = {Try(blk(s), {Catch(Blk({call()}))})}; else body = {AtTry(Blk({call()}), {AtFinally(blk(s))})}; break;
    case 10: if (gLang == CXX) body = {Try(Blk({call()}), {Catch(blk(s))})}; else body = {Sync(mk(ESelf), blk(s))}; break;
    case 11: if (gLang == CXX) body = s; else body = {Pool(blk(s))}; break;
    default: body = s;
    }
    body.push_back(call()); std::vector<N *> parms = {a, b}; if (gLang == OBJC) parms.push_back(o); p.decls.push_back(g); p.decls.push_back(h); for (N *t : top) p.decls.push_back(t);
    N *bd = ctx == 0 || ctx >= 7 ? blk(body) : Blk(body);
    if (gLang == CXX && (ctx == 7 || ctx == 11)) { f = Fn(ctx == 7 ? "mmmm" : "Rrrr", ret, parms, bd, ctx == 11 ? FCtor : 0); p.decls.push_back(Rec("Rrrr", {f})); }
    else if (gLang == CXX && ctx == 8) { f = Fn("ffff", ret, parms, bd); N *ns = mk(DNamespace, {f}); ns->s = "nnnn"; p.decls.push_back(ns); }
    else if (gLang == OBJC && ctx >= 7) { N *i = mk(DIface); i->s = "Iiii"; N *m = mk(DMeth); m->s = "mmmm"; m->t = ret; m->parms = parms; m->body = bd; N *im = mk(DImpl, {m}); im->d = i; f = m; p.decls.push_back(i); p.decls.push_back(im); }
    else { f = Fn("ffff", ret, parms, bd); p.decls.push_back(f); }
  }
};
static inline int chooseContext() { return sym_choose("context", 0, Prog::contexts()); }
static inline Lang chooseLang(int n = 3) { return gLang = (Lang)sym_choose("language", 0, n - 1); }
static inline void check(Prog &g, const char *rule, Wants &want, const char *label) { World w = make(g.p); RuleBase *r = ruleNamed(rule); compare(runRule(r, w), want, r, label); sym_cover(want.w.empty() ? "good" : "bad"); }
// puts an expression into every place of a function body, and a call with it into every context
static inline void putExpr(Prog &g, N *e, bool vary = true) {
  int n = Prog::contexts(), k = vary ? sym_choose("place", 0, 5 + n) : 5 + sym_choose("context", 0, 1) * n, ctx = 0; N *s;
  switch (k) { case 0: s = If(e, Blk()); break; case 1: s = Decl(Var("llll", &tyInt, e)); break; case 2: s = While(Bin(BO_LAnd, Ref(g.a), Paren(e)), Null()); break; case 3: s = For(nullptr, e, nullptr, Null()); break; case 4: s = Switch(e, Case(Int(1), g.use(Call(g.h, {Ref(g.a)})))); break; default: s = g.use(e); ctx = k - 5; }
  g.put({s}, ctx); }
static inline void allNodes(N *n, std::vector<N *> &v) { v.push_back(n); for (N *x : n->c) if (x) allNodes(x, v); for (N *x : n->parms) allNodes(x, v); if (n->body) allNodes(n->body, v); }
// what f says of every node is what the rule reports
template <class F> static void judgeEach(Prog &g, const char *rule, const char *label, F f) { Wants want; layout(g.p); std::vector<N *> v; for (N *d : g.p.decls) allNodes(d, v); for (N *n : v) f(n, want); check(g, rule, want, label); }
static inline bool isLogicOp(N *n) { return sym_concretize(sym_or(n->op == BO_LAnd, n->op == BO_LOr)); }
static inline N *bare(N *e) { while (e->k == EParen) e = e->c[0]; return e; }
// a node and all below it
template <class F> static bool any(N *n, F f) { if (!n) return false; if (f(n)) return true; for (N *x : n->c) if (any(x, f)) return true; return n->body && any(n->body, f); }
struct Limit { const char *key; int dflt; };
// a limit of up to two digits, or none configured
static std::string gText; static bool gSet;
static inline long limit(Limit l, bool fixed = false) {
  gSet = sym_choose("configured", 0, 1); if (!gSet) { gText = num(l.dflt); return l.dflt; } if (fixed) { gText = num(l.dflt + 1); RuleConfiguration::addConfiguration(l.key, num(l.dflt + 1)); return l.dflt + 1; }
  char d[3] = {0, 0, 0}; int n = sym_choose("digits", 1, 2); for (int i = 0; i < n; i++) { d[i] = sym_char("digit"); sym_assume(sym_and(d[i] >= (n == 2 && !i ? '1' : '0'), d[i] <= '9')); } gText = std::string(d, n); RuleConfiguration::addConfiguration(l.key, gText); return n == 1 ? d[0] - '0' : (d[0] - '0') * 10 + d[1] - '0'; }
