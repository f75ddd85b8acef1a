// Annotations that methods enforce, and isEqual: without hash.
#include "prog.h"
static Ty *objOf(N *i) { return new Ty{TObj, nullptr, i}; }
static std::string enforce(const char *what, const char *more = "") { return std::string("oclint:enforce[") + what + " method]" + more; }
static N *note(N *n, const std::string &s) { n->note = s; return n; }
static N *super_() { return Tok("super", &tyId); }
static std::string sel(bool arg, const char *name = "fooo") { return arg ? std::string(name) + ":" : std::string(name); }
// a method named fooo or fooo:, of a class or its instances
static N *method(bool arg, bool cls, N *body = nullptr, const char *name = "fooo") { std::vector<N *> p; if (arg) p.push_back(Parm("pppp")); return Meth(sel(arg, name), &tyInt, p, body, cls ? FStatic : 0); }
static N *send(N *to, bool arg, const char *name = "fooo") { N *m = Msg(to, "", {}); if (arg) m->c.push_back(Int(1)); m->s = sel(arg, name); return m; }
struct Cocoa { Program p; N *g = Fn("gggg", &tyVoid, {Parm("vvvv")}, nullptr), *v = Var("aaaa", &tyInt, nullptr, FExtern); Cocoa() { gLang = OBJC; p.decls = {g, v}; }
  void add(std::initializer_list<N *> n) { p.decls.insert(p.decls.end(), n); } N *use(N *e) { return Call(g, {e}); }
  void judge(const char *rule, Wants &w, const char *label) { World x = make(p); RuleBase *r = ruleNamed(rule); compare(runRule(r, x), w, r, label); sym_cover(w.w.empty() ? "good" : "bad"); }
  // a body with a message somewhere
  N *body(int k, N *s) { std::vector<N *> b; switch (k) { case 0: b = {s}; break; case 1: b = {If(Ref(v), Blk({While(Ref(v), s)}))}; break; case 2: b = {AtTry(Blk({s}), {AtFinally(Blk({use(Ref(v))}))})}; break; case 3: b = {use(s)}; break; case 4: return Blk({use(Ref(v)), Return(s)}); default: b = {Decl(Var("llll", &tyInt, s))}; } b.push_back(Return(Int(1))); return Blk(b); } };
HARNESS(must_call_super) {
  Cocoa c; bool arg = sym_choose("argument", 0, 1), cls = sym_choose("class method", 0, 1); int where = sym_choose("annotated", 0, 4), who = sym_choose("implemented by", 0, 3), what = sym_choose("body", 0, 7), text = where == 1 && what <= 1 ? sym_choose("text", 0, 4) : 0; bool also = where != 3 && what <= 1 && !text && sym_choose("adopts", 0, 1); bool again = (who == 1 || who == 2) && !(where == 4 && who == 1) && what <= 1 && !text && sym_choose("declared again", 0, 1);
  std::string ann = text == 0 ? enforce("base") : text == 1 ? enforce("base", "[really]") : text == 2 ? enforce("abstract") : text == 3 ? "oclint:suppress[missing call to base method]" : "enforce[base method]"; bool counts = text <= 1;
  N *r = Iface("Rrrr", {method(arg, cls, nullptr, "barr")}), *ma = method(arg, cls), *mp = method(arg, cls), *a = Iface("Aaaa", {ma, method(arg, !cls)}, {}, r), *b = Iface("Bbbb", {}, {}, a), *d = Iface("Cccc", {}, {}, b), *pr = Proto("Pppp", {mp}), *mc = method(arg, cls), *cat = Cat(a, "kkkk", {mc}), *mb = method(arg, cls), *bc = Cat(b, "zzzz", {});
  N *x = who == 0 ? a : who == 2 ? d : b; if (where == 1) note(ma, ann); if (where == 2) note(mc, ann); if (where == 3) { note(mp, ann); x->adopt.push_back(pr); } if (where == 4) { note(mb, ann); b->c.push_back(mb); } if (also) x->adopt.push_back(pr); if (again) x->c.push_back(method(arg, cls));
  c.add({r, pr, a}); if (where == 2) c.add({cat}); c.add({b, d, bc}); bool calls = what == 1 || what >= 4; if (!who && (calls || what == 3)) sym_end_path();
  N *s = what == 0 ? Ref(c.v) : what == 2 ? send(Self(), arg) : what == 3 ? send(super_(), arg, "barr") : send(super_(), arg), *m = method(arg, cls, c.body(what >= 4 ? what - 3 : 0, s)); c.add({who == 3 ? CatImpl(b, "zzzz", {m}) : Impl(x, {m})});
  bool over = where == 1 || where == 2 ? who >= 1 : where == 3 ? true : where == 4 ? who == 2 : false; Wants w; layout(c.p); if (over && counts && !calls) w.add(m, "overridden method " + sel(arg) + " must call super"); c.judge("missing call to base method", w, "exactly the overriding methods that do not call super are reported"); }
// calls of what is prohibited
static char plainText(const char *n) { char ch = sym_char(n); sym_assume(sym_and(sym_and(ch >= 32, ch <= 126), sym_and(sym_and(ch != '"', ch != '\\'), sym_and(ch != '?', ch != '%')))); return ch; }
static void judgeText(const char *rule, const char *what, bool comments) {
  Cocoa c; std::string full = enforce(what), t = full; int form = sym_choose("text", 0, 3); if (form == 0) { size_t k = (size_t)sym_choose("at", 0, (int)full.size() - 1); t[k] = plainText("byte"); } else { int n = form == 1 ? sym_choose("more", 0, 4) : form == 2 ? 5 : 3; for (int i = 0; i < n; i++) t += plainText("byte"); if (form == 2) t[full.size()] = '['; if (form == 3) { t.erase(full.size() - 1, 1); } }
  bool begins = t.size() >= full.size() && sym_eq_bytes(t.data(), full.data(), full.size()); begins = sym_concretize(begins); std::string extra; if (begins && comments) { size_t o = full.size(); while (o < t.size() && !sym_concretize(t[o] == '[')) o++; if (o < t.size() && sym_concretize(t.back() == ']')) extra = t.substr(o + 1, t.size() - o - 2); }
  bool fun = comments && sym_choose("function", 0, 1); N *s, *f = Fn("ffff", &tyInt, {}, nullptr), *m = method(false, false), *a = Iface("Aaaa", {m}), *x = Iface("Xxxx"), *o = Var("oooo", objOf(a), nullptr, FExtern); note(fun ? f : m, t); s = fun ? Call(f, {}) : send(Ref(o), false); N *im = Impl(x, {method(true, false, c.body(0, s), "quxx")}); c.add({f, a, x, o, im}); Wants w; layout(c.p);
  if (begins) { if (comments) { std::string msg = std::string("calling prohibited ") + (fun ? "function ffff" : "method fooo"); if (!extra.empty()) msg += " instead use " + extra; w.add(s, msg); } else w.add(s, "calling protected method fooo from outside Aaaa and its subclasses"); } c.judge(rule, w, "exactly the calls of what carries the annotation are reported, with its comment"); }
HARNESS(prohibited_text) { judgeText("calling prohibited method", "prohibited", true); }
HARNESS(protected_text) { judgeText("calling protected method", "protected", false); }
HARNESS(prohibited) {
  Cocoa c; bool arg = sym_choose("argument", 0, 1), cls = sym_choose("class method", 0, 1); int where = sym_choose("annotated", 0, 4), to = sym_choose("to", 0, 5), place = sym_choose("place", 0, 5), in = to == 0 ? sym_choose("in", 0, 2) : 0; N *ma = method(arg, cls), *mp = method(arg, cls), *mc = method(arg, cls), *f = Fn("ffff", &tyInt, {}, nullptr), *h = Fn("hhhh", &tyInt, {}, nullptr), *pr = Proto("Pppp", {mp}), *a = Iface("Aaaa", {method(arg, !cls)}), *b = Iface("Bbbb", {}, {}, a), *cat = Cat(a, "kkkk", {mc}), *x = Iface("Xxxx"), *o = Var("oooo", objOf(b), nullptr, FExtern), *q = Var("qqqq", objOf(a), nullptr, FExtern); if (where != 2) a->c.push_back(ma);
  std::string ann = enforce("prohibited"); bool hit = false, fun = to >= 4; switch (where) { case 1: note(ma, ann); hit = !fun; break; case 2: note(mp, ann); a->adopt.push_back(pr); hit = !fun; break; case 3: note(mc, ann); hit = !fun; break; case 4: note(f, ann); hit = to == 4; break; }
  N *s; switch (to) { case 0: s = send(cls ? a : Ref(q), arg); break; case 1: s = send(cls ? b : Ref(o), arg); break; case 2: s = send(cls ? a : Ref(q), arg, "barr"); hit = false; a->c.push_back(method(arg, cls, nullptr, "barr")); break; case 3: s = send(Self(), arg); break; case 4: s = Call(f, {}); break; default: s = Call(h, {}); }
  N *m = method(false, to == 3 && cls, c.body(place, s), "quxx"); c.add({pr, a}); if (where == 3) c.add({cat}); c.add({b, x, f, h, o, q}); if (in == 0) c.add({Impl(to == 3 ? b : x, {m})}); else if (in == 1) { Fn("zzzz", &tyInt, {}, nullptr); c.add({Fn("zzzz", &tyInt, {}, m->body)}); } else c.add({Cat(x, "wwww", {}), CatImpl(x, "wwww", {m})});
  Wants w; layout(c.p); if (hit) w.add(s, fun ? "calling prohibited function ffff" : "calling prohibited method " + sel(arg)); c.judge("calling prohibited method", w, "exactly the calls of what is prohibited are reported"); }
HARNESS(protected_) {
  Cocoa c; bool arg = sym_choose("argument", 0, 1), cls = sym_choose("class method", 0, 1); int where = sym_choose("annotated", 0, 3), to = sym_choose("to", 0, 4), who = sym_choose("called by", 0, 5), place = who == 3 && to == 0 ? sym_choose("place", 0, 5) : 0; N *ma = method(arg, cls), *mp = method(arg, cls), *mc = method(arg, cls), *pr = Proto("Pppp", {mp}), *r = Iface("Rrrr"), *a = Iface("Aaaa", {method(arg, !cls)}, {}, r), *b = Iface("Bbbb", {}, {}, a), *d = Iface("Cccc", {}, {}, a), *cat = Cat(a, "kkkk", {mc}), *x = Iface("Xxxx", {}, {}, r), *oa = Var("oooo", objOf(a), nullptr, FExtern), *ob = Var("qqqq", objOf(b), nullptr, FExtern), *oi = Var("iiii", &tyId, nullptr, FExtern);
  if (where != 2) a->c.push_back(ma); std::string ann = enforce("protected"); switch (where) { case 1: note(ma, ann); break; case 2: note(mp, ann); a->adopt.push_back(pr); break; case 3: note(mc, ann); break; }
  bool toB = false, hit = where != 0; N *s; switch (to) { case 0: s = send(cls ? a : Ref(oa), arg); break; case 1: s = send(cls ? b : Ref(ob), arg); toB = true; break; case 2: s = send(cls ? a : Ref(oa), arg, "barr"); hit = false; a->c.push_back(method(arg, cls, nullptr, "barr")); break; case 3: if (cls) sym_end_path(); s = send(Ref(oi), arg); hit = false; break; default: if (who != 1 && who != 2) sym_end_path(); s = send(who == 1 ? super_() : Self(), arg); hit = false; }
  // called by: A, B (a subclass), C (another), an unrelated class, its category, the superclass
  N *m = method(false, cls, c.body(place, s), "quxx"), *im; switch (who) { case 0: im = Impl(a, {m}); break; case 1: im = Impl(b, {m}); break; case 2: im = Impl(d, {m}); break; case 3: im = Impl(x, {m}); break; case 4: im = CatImpl(x, "wwww", {m}); break; default: im = Impl(r, {m}); }
  c.add({pr, r, a}); if (where == 3) c.add({cat}); c.add({b, d, x, oa, ob, oi, Cat(x, "wwww", {}), im}); N *owner = where == 2 ? toB ? b : a : a; bool inside = owner == a ? who <= 2 : who == 1; Wants w; layout(c.p); if (hit && !inside) w.add(s, "calling protected method " + sel(arg) + " from outside " + owner->s + " and its subclasses"); c.judge("calling protected method", w, "exactly the calls of protected methods from elsewhere are reported"); }
HARNESS(abstract_) {
  Cocoa c; int n1 = sym_choose("first", 0, 3), n2 = sym_choose("second", 0, 2), has = sym_choose("implements", 0, 15), who = sym_choose("child", 0, 3); bool arg = sym_choose("argument", 0, 1); N *m1 = method(arg, false), *m2 = method(arg, true, nullptr, "barr"), *m3 = method(arg, true), *a = Iface("Aaaa", {m1, m2, m3}), *b = Iface("Bbbb", {}, {}, a), *d = Iface("Cccc", {}, {}, b), *mc = method(arg, false), *cat = Cat(a, "kkkk", {mc});
  std::string ann = enforce("abstract"); if (n1 == 1) note(m1, ann); if (n1 == 2) note(mc, ann); if (n1 == 3) note(m1, enforce("base")); if (n2 == 1) note(m2, ann); if (n2 == 2) note(m2, enforce("abstract", "[do it]"));
  std::vector<N *> ms; auto body = [&] { return Blk({Return(Int(1))}); }; if (has & 1) ms.push_back(method(arg, false, body())); if (has & 2) ms.push_back(method(arg, true, body(), "barr")); if (has & 4) ms.push_back(method(arg, true, body())); if (has & 8) ms.push_back(method(!arg, false, body()));
  N *im = who == 0 ? Impl(b, ms) : who == 1 ? Impl(d, ms) : who == 2 ? Impl(a, ms) : CatImpl(b, "zzzz", ms); c.add({a}); if (n1 == 2) c.add({cat}); c.add({b, d, Cat(b, "zzzz", {}), im}); Wants w; layout(c.p); if (who == 0) { auto miss = [&](const char *s) { w.add(im, std::string("subclasses of Aaaa must implement ") + sel(arg, s)); }; if ((n1 == 1 || n1 == 2) && !(has & 1)) miss("fooo"); if (n2 && !(has & 2)) miss("barr"); }
  c.judge("missing abstract method implementation", w, "exactly the abstract methods a subclass leaves out are reported"); }
HARNESS(equal_hash) {
  Cocoa c; int has = sym_choose("implements", 0, 127); bool cat = sym_choose("category", 0, 1); N *a = Iface("Aaaa"), *b = Iface("Bbbb", {}, {}, a); std::vector<N *> ms; auto add = [&](int k, bool arg, bool cls, const char *n) { if (has >> k & 1) ms.push_back(method(arg, cls, Blk({Return(Int(1))}), n)); };
  add(0, true, false, "isEqual"); add(1, false, false, "hash"); add(2, false, false, "isEqual"); add(3, true, false, "hash"); add(4, true, true, "isEqual"); add(5, false, true, "hash"); if (has >> 6 & 1) ms.insert(ms.begin(), method(false, false, Blk({Return(Int(1))}), "hash0")); N *im = cat ? CatImpl(b, "zzzz", ms) : Impl(b, ms); c.add({a, b}); if (cat) c.add({Cat(b, "zzzz", {})}); c.add({Impl(a, {method(false, false, Blk({Return(Int(1))}), "hash")}), im}); Wants w; layout(c.p);
  if (!cat && (has & 1) && !(has & 2)) w.add(im, "If you override isEqual you must override hash too."); c.judge("missing hash method", w, "exactly the implementations of isEqual: without hash are reported"); }
