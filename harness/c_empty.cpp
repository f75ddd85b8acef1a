// Empty statements.
#include "prog.h"
using namespace clang;
// the statement a rule looks at: empty in some way or not
static N *body(Prog &g, int k, bool &empty) {
  empty = k < 3;
  switch (k) { case 0: { N *n = Blk(); n->gap = sym_int("empty gap", 0, 1000); return n; } case 1: return Null(); case 2: return Blk(); case 3: return Blk({Null()}); case 4: return g.call(); case 5: return Blk({Blk()}); default: return Blk({g.call(), Break()}); } }
static N *choose(Prog &g, bool &empty, bool block = false) { int k = sym_choose("body", 0, 5); if (block) sym_assume(k != 1), sym_assume(k != 4); return body(g, k, empty); }
#define RULE(name, lang, rule, label, code) HARNESS(name) { lang; Prog g; Wants want; bool e; N *s; code; g.put({s}, chooseContext()); check(g, rule, want, label); }
RULE(empty_if, chooseLang(), "empty if statement", "an empty then branch is reported, nothing else is",
  N *t = choose(g, e); int k = sym_choose("else", 0, 3); s = If(Ref(g.a), t, k == 0 ? nullptr : k == 1 ? Blk() : k == 2 ? Blk({g.call()}) : If(Ref(g.b), Blk())); if (e) want.add(t); if (k == 3) want.add(s->c[2]->c[1]))
RULE(empty_else, chooseLang(), "empty else block", "an empty else branch is reported, nothing else is",
  int k = sym_choose("else", 0, 2); N *t = choose(g, e); s = k == 0 ? If(Ref(g.a), Blk()) : k == 1 ? If(Ref(g.a), Blk(), t) : If(Ref(g.a), Blk(), If(Ref(g.b), Blk({g.call()}), t)); if (k && e) want.add(t))
RULE(empty_while, chooseLang(), "empty while statement", "an empty while body is reported, nothing else is", N *t = choose(g, e); s = While(Ref(g.a), t); if (e) want.add(t))
RULE(empty_do, chooseLang(), "empty do/while statement", "an empty do body is reported, nothing else is", N *t = choose(g, e); s = Do(t, Ref(g.a)); if (e) want.add(t))
RULE(empty_for, chooseLang(), "empty for statement", "an empty for body is reported, nothing else is", N *t = choose(g, e); int k = sym_choose("parts", 0, 1); s = k ? For(nullptr, Ref(g.a), nullptr, t) : For(nullptr, nullptr, nullptr, t); if (e) want.add(t))
RULE(empty_switch, chooseLang(), "empty switch statement", "an empty switch body is reported, nothing else is", N *t = choose(g, e); s = Switch(Ref(g.a), t); if (e) want.add(t))
RULE(empty_try, gLang = sym_choose("language", 0, 1) ? CXX : OBJC, "empty try statement", "an empty try block is reported, nothing else is", N *t = choose(g, e, true); s = gLang == CXX ? Try(t, {Catch(Blk())}) : AtTry(t, {AtCatch(Blk())}); if (e) want.add(t))
RULE(empty_catch, gLang = sym_choose("language", 0, 1) ? CXX : OBJC, "empty catch statement", "an empty catch block is reported, nothing else is", N *t = choose(g, e, true); int k = sym_choose("catches", 0, 1); bool cxx = gLang == CXX; N *c = cxx ? Catch(t) : AtCatch(t); N *c0 = cxx ? Catch(Blk({g.call()})) : AtFinally(Blk()); if (k && cxx) { c0->d = Var("eeee"); } s = cxx ? k ? Try(Blk(), {c0, c}) : Try(Blk(), {c}) : k ? AtTry(Blk(), {c, c0}) : AtTry(Blk(), {c}); if (e) want.add(t))
RULE(empty_finally, gLang = OBJC, "empty finally statement", "an empty finally block is reported, nothing else is", N *t = choose(g, e, true); s = AtTry(Blk(), {AtCatch(Blk()), AtFinally(t)}); if (e) want.add(t))
