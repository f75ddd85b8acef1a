// Null checks.
#include "prog.h"
struct Ptr { N *v = Field("vvvv"), *next = Field("nnnn"), *rec = nullptr, *p, *q; Ty *rt = new Ty{TRec}, *pt = new Ty{TPtr, rt};
  explicit Ptr(Prog &g) { rec = Rec("Ssss", {v, next}); rt->rec = rec; next->t = pt; p = Var("pppp", pt, nullptr, FExtern), q = Var("qqqq", pt, nullptr, FExtern); g.top.insert(g.top.end(), {rec, p, q}); } };
static N *bop(int lo, int hi, N *a, N *b) { if (gLang != CXX) return SBin(lo, hi, a, b); return Bin(sym_choose("op", lo, hi), a, b); }
static N *null() { if (gLang == CXX) return Nullptr(); N *z = Paren(CCast(new Ty{TPtr, &tyVoid}, Int(0))); return z; }
// an expression that may be a check of p
static N *checkOf(N *p, N *q, N *other, int k) { switch (k) { case 0: return bop(BO_EQ, BO_NE, Ref(p), Int(0)); case 1: return Ref(p); case 2: return Un(UO_LNot, Ref(p)); case 3: return bop(BO_EQ, BO_NE, Int(0), Ref(p)); case 4: return bop(BO_EQ, BO_NE, Ref(p), null()); case 5: return bop(BO_EQ, BO_NE, Ref(p), Ref(q)); case 6: return Paren(bop(BO_EQ, BO_NE, Ref(p), Int(0))); case 7: return Ref(q); case 8: return bop(BO_EQ, BO_NE, Ref(q), Int(0)); case 9: return Ref(other); default: return bop(BO_EQ, BO_NE, null(), Ref(p)); } }
static N *joined(int order, N *a, N *b, N *c) { auto op = [](N *x, N *y) { return bop(BO_LAnd, BO_LOr, x, y); }; switch (order) { case 0: return op(a, b); case 1: return op(b, a); case 2: return op(c, Paren(op(a, b))); default: return op(Paren(op(b, a)), c); } }
// what an expression checks
static bool zero(N *e) { e = bare(e); if (e->k == ECast) e = e->c[0]; return (e->k == EInt && e->v == 0) || e->k == ENullptr; }
struct Chk { bool eq, ne; N *v; };
static Chk what(N *e) {
  if (e->k == ERef) return {false, true, e->d};
  if (e->k == EUn && e->op == UO_LNot && e->c[0]->k == ERef) return {true, false, e->c[0]->d};
  if (e->k == EBin && !isLogicOp(e) && zero(e->c[0]) != zero(e->c[1])) { N *x = zero(e->c[0]) ? e->c[1] : e->c[0]; if (x->k == ERef && (x->t->k == TPtr || x->t->k == TId)) return {(bool)(e->op == BO_EQ), (bool)(e->op == BO_NE), x->d}; }
  return {false, false, nullptr}; }
static bool uses(N *e, N *v, bool msg) { return v && any(e, [&](N *x) { return msg ? x->k == EMsg && x->c[0] && x->c[0]->k == ERef && x->c[0]->d == v : x->k == EMember && x->op && x->c[0]->k == ERef && x->c[0]->d == v; }); }
template <class F> static void rule(Prog &g, const char *name, const char *label, F f) { judgeEach(g, name, label, [&](N *n, Wants &w) { if (n->k == EBin && isLogicOp(n)) if (sym_concretize(f(n))) w.add(n); }); }
static bool broken(N *n, bool msg) { Chk c = what(n->c[0]); bool u = uses(n->c[1], c.v, msg); return sym_and(u, sym_or(sym_and(n->op == BO_LOr, c.ne), sym_and(n->op == BO_LAnd, c.eq))); }
static bool misplaced(N *n, bool msg) { Chk c = what(n->c[1]); bool u = uses(n->c[0], c.v, msg); return sym_and(u, sym_or(sym_and(n->op == BO_LAnd, c.ne), sym_and(n->op == BO_LOr, c.eq))); }
static void program(Prog &g) {
  gLang = sym_choose("language", 0, 1) ? CXX : C; Ptr s(g); int vary = sym_choose("what varies", 0, 2), ck = vary == 1 ? sym_choose("check", 0, 10) : 0, dk = vary == 2 ? sym_choose("use", 0, 10) : 0; N *d, *p = s.p, *q = s.q;
  switch (dk) { case 0: d = Member(Ref(p), s.v, true); break; case 1: d = bop(BO_EQ, BO_NE, Member(Ref(p), s.v, true), Int(3)); break; case 2: d = Call(g.h, {Member(Ref(p), s.v, true)}); break; case 3: d = Member(Member(Ref(p), s.next, true), s.v, true); break; case 4: d = Member(Ref(q), s.v, true); break; case 5: d = Un(UO_LNot, Member(Ref(p), s.v, true)); break; case 6: d = Paren(Member(Ref(p), s.v, true)); break; case 7: d = bop(BO_EQ, BO_NE, Member(Ref(q), s.next, true), Ref(p)); break; case 8: d = Member(Paren(Un(UO_Deref, Ref(p))), s.v, false); break; case 9: d = Paren(bop(BO_LAnd, BO_LOr, Ref(g.a), Member(Ref(p), s.v, true))); break; default: d = bop(BO_EQ, BO_NE, Ref(g.a), Int(3)); }
  putExpr(g, joined(sym_choose("order", 0, 3), checkOf(p, q, g.a, ck), d, Ref(g.b)), vary == 0); }
HARNESS(broken_null) { Prog g; program(g); rule(g, "broken null check", "exactly the checks whose outcome leads into the dereference are reported", [](N *n) { return broken(n, false); }); }
HARNESS(misplaced_null) { Prog g; program(g); rule(g, "misplaced null check", "exactly the checks after the dereference are reported", [](N *n) { return misplaced(n, false); }); }
static void messages(Prog &g) {
  gLang = OBJC; N *i = Iface("Jjjj", {Meth("kkkk", &tyInt, {}, nullptr), Meth("kkkk", &tyInt, {}, nullptr, FStatic), Meth("llll", &tyInt, {Parm("xxxx", &tyId)}, nullptr)}), *p = Var("pppp", &tyId, nullptr, FExtern), *q = Var("qqqq", &tyId, nullptr, FExtern); g.top.insert(g.top.end(), {i, p, q});
  int vary = sym_choose("what varies", 0, 2), ck = vary == 1 ? sym_choose("check", 0, 10) : 0, dk = vary == 2 ? sym_choose("use", 0, 9) : 0; N *d;
  switch (dk) { case 0: d = Msg(Ref(p), "kkkk"); break; case 1: d = bop(BO_EQ, BO_NE, Msg(Ref(p), "kkkk"), Int(3)); break; case 2: d = Call(g.h, {Msg(Ref(p), "kkkk")}); break; case 3: d = Msg(Ref(p), "llll:", {Ref(q)}); break; case 4: d = Msg(Ref(q), "kkkk"); break; case 5: d = Un(UO_LNot, Msg(Ref(p), "kkkk")); break; case 6: d = Paren(Msg(Ref(p), "kkkk")); break; case 7: d = Msg(Ref(q), "llll:", {Ref(p)}); break; case 8: d = Msg(i, "kkkk"); break; default: d = Un(UO_Minus, Msg(Ref(p), "kkkk")); }
  putExpr(g, joined(sym_choose("order", 0, 3), checkOf(p, q, g.a, ck), d, Ref(g.b)), vary == 0); }
HARNESS(broken_nil) { Prog g; messages(g); rule(g, "broken nil check", "exactly the checks whose outcome leads into the message are reported", [](N *n) { return broken(n, true); }); }
HARNESS(misplaced_nil) { Prog g; messages(g); rule(g, "misplaced nil check", "exactly the checks after the message are reported", [](N *n) { return misplaced(n, true); }); }
HARNESS(redundant_nil) { Prog g; messages(g); rule(g, "redundant nil check", "exactly the checks before a message that would answer no anyway are reported", [](N *n) { Chk c = what(n->c[0]); bool u = uses(n->c[1], c.v, true), neg = n->c[1]->k == EUn && n->c[1]->op == UO_LNot; return sym_and(sym_and(u, !neg), sym_and(n->op == BO_LAnd, c.ne)); }); }
// if (p) delete p;
static bool same(N *a, N *b) { if (a->k != b->k) return false; if (a->k == ERef) return a->d == b->d; if (a->k == EMember) return a->d == b->d && a->op == b->op && same(a->c[0], b->c[0]); return false; }
HARNESS(dealloc_check) {
  gLang = CXX; Prog g; Ptr s(g); int vary = sym_choose("what varies", 0, 2), ck = vary == 1 ? sym_choose("check", 0, 9) : sym_choose("check", 0, 1), bk = vary == 2 ? sym_choose("body", 0, 12) : sym_choose("body", 0, 1); auto pn = [&] { return Member(Ref(s.p), s.next, true); };
  N *c, *b, *v = nullptr; auto ref = [&] { return ck >= 7 ? pn() : Ref(s.p); };
  switch (ck) { case 0: c = Ref(s.p); break; case 1: c = Bin(BO_NE, Ref(s.p), Nullptr()); break; case 2: c = Bin(BO_NE, Nullptr(), Ref(s.p)); break; case 3: c = Bin(BO_NE, Ref(s.p), Int(0)); break; case 4: c = Un(UO_LNot, Ref(s.p)); break; case 5: c = Bin(BO_EQ, Ref(s.p), Nullptr()); break; case 6: c = Ref(s.q); break; case 7: c = pn(); break; case 8: c = Bin(BO_NE, pn(), Nullptr()); break; default: c = Bin(BO_NE, pn(), Ref(s.q)); }
  switch (bk) { case 0: b = Delete(ref()); break; case 1: b = Blk({Delete(ref())}); break; case 2: b = Blk({Delete(ref()), Bin(BO_Assign, ref(), Nullptr())}); break; case 3: b = Blk({Delete(ref()), Bin(BO_Assign, ref(), Int(0))}); break; case 4: b = Blk({Delete(ref()), g.call()}); break; case 5: b = Blk({Bin(BO_Assign, ref(), Nullptr()), Delete(ref())}); break; case 6: b = Delete(ref(), true); break; case 7: b = Blk({Delete(ref()), Bin(BO_Assign, Ref(s.q), Nullptr())}); break; case 8: b = Blk({Delete(ref()), Bin(BO_Assign, ref(), Nullptr()), g.call()}); break; case 9: b = Blk(); break; case 10: b = g.call(); break; case 11: b = Delete(Ref(s.q)); break; default: b = Blk({Delete(ref()), Bin(BO_Assign, ref(), Ref(s.q))}); }
  N *st = sym_choose("else", 0, 1) ? If(c, b, g.call()) : If(c, b); g.put({st}, vary ? 0 : chooseContext());
  judgeEach(g, "unnecessary null check for dealloc", "exactly the checks before nothing but a delete are reported", [](N *n, Wants &w) {
    if (n->k != SIf || n->c.size() > 2) return; N *c = n->c[0], *v = c; if (c->k == EBin) { if (c->op != BO_NE) return; v = zero(c->c[0]) ? c->c[1] : zero(c->c[1]) ? c->c[0] : nullptr; } if (!v || (v->k != ERef && v->k != EMember)) return;
    auto del = [&](N *x) { return x->k == EDelete && same(x->c[0], v); }; auto clear = [&](N *x) { return x->k == EBin && x->op == BO_Assign && same(x->c[0], v) && zero(x->c[1]); }; N *b = n->c[1];
    if (b->k == SBlk ? (b->c.size() == 1 && del(b->c[0])) || (b->c.size() == 2 && del(b->c[0]) && clear(b->c[1])) : del(b)) w.add(n); }); }
