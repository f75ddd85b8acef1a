// Lengths of names.
#include "stmts.h"
static const char kText[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
static std::string longName(int n) { std::string s(kText, n > 60 ? 60 : n); if (n > 6) { s[n - 1] = 'z'; s[n - 2] = 'q'; s[n - 3] = 'x'; } return s; }
static void tooLong(N *v, long t, Wants &w) {
  long n = (long)v->s.size(); if (sym_concretize(n <= t)) return; std::string shown = v->s; if (sym_concretize(n > t + 10)) t = sym_concretize(t),  shown = v->s.substr(0, t + 3) + "..." + v->s.substr(n - 3);
  w.add(v, "Length of variable name `" + shown + "` is " + num(n) + ", which is longer than the threshold of " + gText); }
static void tooShort(N *v, long t, Wants &w) { long n = (long)v->s.size(); if (n && n < t) w.add(v, "Length of variable name `" + v->s + "` is " + num(n) + ", which is shorter than the threshold of " + gText); }
// any length and limit
HARNESS(long_lengths) {
  gLang = C; long t = limit({"LONG_VARIABLE_NAME", 20}); Prog g; int n = sym_choose("length", 1, 48); N *v = Var(longName(n)); g.put({Decl(v)}, 0); g.a->s = "Y"; g.b->s = "Z"; g.g->parms[0]->s = ""; g.h->parms[0]->s = "";
  Wants want; layout(g.p); tooLong(v, t, want); if (sym_concretize(t == 0)) { tooLong(g.a, t, want); tooLong(g.b, t, want); } check(g, "long variable name", want, "exactly the longer names are reported"); }
HARNESS(short_lengths) {
  gLang = C; long t = limit({"SHORT_VARIABLE_NAME", 3}); Prog g; int n = sym_choose("length", 1, 24); N *v = Var(longName(n)); g.put({Decl(v)}, 0); std::string big(60, 'a'); for (int i = 0; i < 2; i++) big += "012345678901234567890123456789"; g.a->s = big; g.b->s = "b" + big; g.g->parms[0]->s = ""; g.h->parms[0]->s = "";
  Wants want; layout(g.p); if (sym_concretize(n < t)) tooShort(v, n + 1, want); check(g, "short variable name", want, "exactly the shorter names are reported"); }
// variables of every kind
static bool gLoopVar(N *v) { N *u = v->up; if (u && u->k == SCatch) return true; if (!u || u->k != SDecl) return false; N *f = u->up; return f && ((f->k == SFor && f->c[0] == u) || (f->k == SForIn && f->c[0] == u)); }
template <bool Long> static void places() {
  chooseLang(); gText = Long ? "20" : "3"; Prog g; auto name = [](const char *l) { int k = sym_choose(l, 0, 1); return std::string(Long ? k ? "abcdefghijklmnopqrst" : "abcdefghijklmnopqrstu" : k ? "ij" : "ijk"); }; std::string nm = name("length"), other = Long ? "zbcdefghijklmnopqrstu" : "z"; N *v = Var(nm, &tyInt, Int(1)), *s; int place = sym_choose("place", 0, 14);
  switch (place) {
  case 0: s = Blk({Decl(v)}); break;
  case 1: s = Decl(v); v->flags = FStatic; break;
  case 2: g.top.push_back(v); s = g.call(); break;
  case 3: g.top.push_back(Fn("tttt", &tyVoid, {Parm(nm)}, nullptr)); s = g.call(); break;
  case 4: g.top.push_back(Fn("tttt", &tyVoid, {Parm(nm), Parm(other)}, Blk())); s = g.call(); break;
  case 5: s = For(Decl(v), Ref(g.b), nullptr, Blk({Decl(Var(other))})); break;
  case 6: s = For(Decl(v), Ref(g.b), nullptr, For(Decl(Var(other, &tyInt, Int(2))), Ref(g.b), nullptr, Blk({Decl(Var(other + "y"))}))); break;
  case 7: if (gLang == CXX) { v->c.clear(); N *c = Catch(Blk({Decl(Var(other))})); c->d = v; s = Try(Blk({g.call()}), {c}); } else if (gLang == OBJC) { v->c.clear(); v->t = &tyId; s = ForIn(v, Ref(g.o), Blk({Decl(Var(other))})); } else s = Decl(v); break;
  case 8: s = For(Decl(v), Ref(g.b), nullptr, Null()); break;
  case 9: g.top.push_back(Rec("Ssss", {Field(nm)})); s = g.call(); break;
  case 10: s = Blk({For(nullptr, Ref(g.b), nullptr, Null()), Decl(v)}); break;
  case 11: s = Blk({For(Decl(v), Ref(g.b), nullptr, Null()), Decl(Var(nm, &tyInt, Int(3)))}); break;
  case 12: s = For(Bin(BO_Assign, Ref(g.a), Int(1)), Ref(g.b), nullptr, Blk({Decl(v)})); break;
  case 13: s = For(mk(SDecl, {v, Var(other, &tyInt, Int(2))}), Ref(g.b), nullptr, Blk({mk(SDecl, {Var(nm + "y"), Var("w")})})); break;
  default: s = gLang == OBJC ? ForIn(Var(other, &tyId), Ref(g.o), For(Decl(v), Ref(g.b), nullptr, Null())) : For(Decl(Var(other, &tyInt, Int(2))), Ref(g.b), nullptr, gLang == CXX ? Try(Blk({Decl(v)}), {Catch(Blk())}) : Blk({Decl(v)})); }
  if (!Long && place == 10) g.b->s = "b"; g.put({place == 12 ? Blk({s}) : s}, place == 0 ? chooseContext() : 0);
  if (place == 7 && gLang == CXX) { N *c = nullptr; for (N *t : g.p.decls) { std::vector<N *> ns; allNodes(t, ns); for (N *n : ns) if (n->k == SCatch && n->d) c = n->d; } Wants want; layout(g.p); if (Long) tooLong(c, 20, want); N *in = nullptr; std::vector<N *> ns; allNodes(s, ns); for (N *n : ns) if (n->k == DVar && n != c) in = n; Long ? tooLong(in, 20, want) : tooShort(in, 3, want); check(g, Long ? "long variable name" : "short variable name", want, "exactly the names of the wrong length are reported"); return; }
  judgeEach(g, Long ? "long variable name" : "short variable name", "exactly the names of the wrong length are reported", [](N *n, Wants &w) { if (n->k != DVar && n->k != DParm) return; if (Long) tooLong(n, 20, w); else if (!gLoopVar(n)) tooShort(n, 3, w); }); }
HARNESS(long_places) { places<true>(); }
HARNESS(short_places) { places<false>(); }
