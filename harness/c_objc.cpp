// Literals of Objective-C, instance variables, feature envy; branches of CUDA kernels.
#include "prog.h"
static Ty *objOf(N *i) { return new Ty{TObj, nullptr, i}; }
static N *use_(Prog &g, N *e) { return Bin(BO_Assign, Ref(g.o), e); }
// a message in some place of a function or method
static void place(Prog &g, N *s, bool vary) {
  gLang = OBJC; int k = vary ? sym_choose("place", 0, 12 + 3) : 0; N *o = Ref(g.o); switch (k) { case 13: g.put({If(s, g.call())}); break; case 14: g.ret = &tyInt; g.put({Return(Call(Fn("kkkk", &tyInt, {Parm("vvvv", &tyId)}, nullptr), {s}))}); g.p.decls.insert(g.p.decls.begin(), Fn("kkkk", &tyInt, {Parm("vvvv", &tyId)}, nullptr)); break; case 15: g.put({Decl(Var("llll", &tyId, s))}); break; case 12: g.put({Msg(s, "mmmm", {o}, &tyId)}); break; default: g.put({use_(g, s)}, k); } }
// ---------------------------------------------------------------- numbers and strings
enum Form { Chr, Lit, Yes, Cst, Parens, Lvalue, Enum, Calls, Name, Minus };
struct Arg { const char *text; const char *type; Form f; };
static const Arg kArgs[] = {{"'a'", "int", Chr}, {"1", "int", Lit}, {"1u", "unsigned int", Lit}, {"1l", "long", Lit}, {"1ul", "unsigned long", Lit}, {"1ll", "long long", Lit}, {"1ull", "unsigned long long", Lit}, {"1.0f", "float", Lit}, {"1.0", "double", Lit}, {"__objc_yes", "BOOL", Yes}, {"((BOOL)1)", "BOOL", Cst}, {"-1", "int", Minus}, {"xint", "int", Name}, {"(xint)", "int", Lvalue},
  {"(xint+1)", "int", Parens}, {"(7u)", "unsigned int", Parens}, {"(xlng-1)", "long", Parens}, {"(3ul)", "unsigned long", Parens}, {"(1ll*2)", "long long", Parens}, {"(4ull)", "unsigned long long", Parens}, {"(1.f/2)", "float", Parens}, {"(xdbl+1)", "double", Parens}, {"((char)3)", "char", Parens}, {"enumA", "int", Enum}, {"xfun()", "int", Calls}, {"(xfun())", "int", Parens}, {"((BOOL)xint)", "BOOL", Parens}};
static const char *kSels[] = {"numberWithChar:", "numberWithInt:", "numberWithUnsignedInt:", "numberWithLong:", "numberWithUnsignedLong:", "numberWithLongLong:", "numberWithUnsignedLongLong:", "numberWithFloat:", "numberWithDouble:", "numberWithBool:", "numberWithShort:", "numberWithFlag:", "numberWithIntValue:"};
static const char *kTypes[] = {"char", "int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "float", "double", "BOOL", "short", "BOOL", "int"};
static const int kNumSels = 13, kNumArgs = sizeof kArgs / sizeof *kArgs;
static void numbers(bool boxed) {
  gObjCxx = sym_choose("C++", 0, 1); int s = sym_choose("selector", 0, kNumSels - 1), a = sym_choose("argument", 0, kNumArgs - 1), to = s == 1 || s == 9 ? sym_choose("to", 0, 2) : 0; bool vary = s == 1 && (a == 1 || a == 14) && !to && !gObjCxx; Prog g; gLang = OBJC; if (gObjCxx && (kArgs[a].f == Enum)) sym_end_path();
  std::string decl; for (int i = 0; i < kNumSels; i++) { decl += "+(id)"; decl += kSels[i]; decl += "("; decl += kTypes[i]; decl += ")v; "; } static const char *cls[] = {"NSNumber", "NSNumbers", "NSDecimalNumber"};
  N *x = Iface(cls[to]); g.top = {Raw("typedef signed char BOOL; extern int xint; extern long xlng; extern double xdbl; enum Eeee { enumA }; int xfun(void);"), Raw("@interface NSNumber " + decl + "@end"), Raw("@interface NSNumbers " + decl + "@end"), Raw("@interface NSDecimalNumber : NSNumber @end")};
  N *m = Msg(x, kSels[s], {Tok(kArgs[a].text, &tyInt)}, &tyId); place(g, m, vary); const Arg &r = kArgs[a]; std::string t = kTypes[s]; bool hit = false, same = t == r.type; if (boxed) hit = (r.f == Parens || r.f == Cst) ? (s < 9 && same) || (s == 9 && !same) : r.f == Enum && s == 1; else hit = r.f == Chr ? s == 0 : r.f == Lit ? s > 0 && s < 9 && same : (r.f == Yes || r.f == Cst) ? s == 9 : false; if (to) hit = false;
  Wants w; layout(g.p); if (hit) w.add(m); check(g, boxed ? "use boxed expression" : "use number literal", w, boxed ? "exactly the numbers made from what can be boxed are reported" : "exactly the numbers made from literals are reported"); }
HARNESS(number_literals) { numbers(false); }
HARNESS(boxed_numbers) { numbers(true); }
HARNESS(boxed_strings) {
  gObjCxx = sym_choose("C++", 0, 1); Prog g; int a = sym_choose("argument", 0, 7), to = sym_choose("to", 0, 1), s = sym_choose("selector", 0, 1); static const char *args[] = {"xstr()", "xptr", "(xptr+1)", "(xptr)", "xcst()", "\"text\"", "(xcst())", "(xstr())"}; static const bool box[] = {true, false, true, false, false, false, false, true}; static const char *cls[] = {"NSString", "NSStrings"};
  N *x = Iface(cls[to]); g.top = {Raw("extern char *xptr; char *xstr(void); const char *xcst(void);"), Raw("@interface NSString +(id)stringWithUTF8String:(const char *)s; +(id)stringWithCString:(const char *)s; @end"), Raw("@interface NSStrings +(id)stringWithUTF8String:(const char *)s; +(id)stringWithCString:(const char *)s; @end")}; N *m = Msg(x, s ? "stringWithCString:" : "stringWithUTF8String:", {Tok(args[a], &tyInt)}, &tyId); place(g, m, a == 0 && !to && !s && !gObjCxx);
  Wants w; layout(g.p); if (box[a] && !to && !s) w.add(m); check(g, "use boxed expression", w, "exactly the strings made from char pointers that can be boxed are reported"); }
// ---------------------------------------------------------------- containers
HARNESS(containers) {
  Prog g; gLang = OBJC; static const char *sels[] = {"array", "arrayWithObject:", "arrayWithObjects:count:", "arrayWithObjects:", "dictionary", "dictionaryWithObject:forKey:", "dictionaryWithObjects:forKeys:count:", "dictionaryWithObjectsAndKeys:", "dictionaryWithObjects:forKeys:", "arrayWithArray:", "dictionaryWithDictionary:", "arrayWith:objects:"}; static const char *cls[] = {"NSArray", "NSDictionary", "NSMutableArray", "NSMutableDictionary", "NSSet"};
  int s = sym_choose("selector", 0, 11), to = sym_choose("class", 0, 4); std::string decl; for (auto *x : sels) { std::string n = x, d; size_t b = 0, e; int k = 0; while ((e = n.find(':', b)) != std::string::npos) { d += n.substr(b, e + 1 - b) + "(id)a" + num(k++) + " "; b = e + 1; } decl += "+(id)" + (d.empty() ? n : d) + "; "; } g.top = {Raw("@interface NSArray " + decl + "@end"), Raw("@interface NSDictionary " + decl + "@end"), Raw("@interface NSMutableArray : NSArray @end"), Raw("@interface NSMutableDictionary : NSDictionary @end"), Raw("@interface NSSet " + decl + "@end")};
  N *m = Msg(Iface(cls[to]), sels[s], {}, &tyId); for (const char *p = sels[s]; *p; p++) if (*p == ':') m->c.push_back(Ref(g.o)); place(g, m, (s == 0 && to == 0) || (s == 5 && to == 1)); bool hit = (to == 0 && s <= 3) || (to == 1 && s >= 4 && s <= 8);
  Wants w; layout(g.p); if (hit) w.add(m); check(g, "use container literal", w, "exactly the arrays and dictionaries that can be literals are reported"); }
HARNESS(subscripts) {
  Prog g; gLang = OBJC; static const char *sels[] = {"objectAtIndex:", "objectAtIndexedSubscript:", "replaceObjectAtIndex:withObject:", "setObject:atIndexedSubscript:", "objectForKey:", "objectForKeyedSubscript:", "setObject:forKey:", "setObject:forKeyedSubscript:", "objectAt:", "setObject:at:"}; static const char *cls[] = {"NSArray", "NSMutableArray", "NSDictionary", "NSMutableDictionary", "NSOther"}; static const int from[] = {0, 2, 4, 6, 8}, last[] = {1, 3, 5, 7, 7};
  int s = sym_choose("selector", 0, 9), to = sym_choose("class", 0, 4), recv = sym_choose("receiver", 0, 7); std::string decl; for (auto *x : sels) { std::string n = x, d; size_t b = 0, e; int k = 0; while ((e = n.find(':', b)) != std::string::npos) { d += n.substr(b, e + 1 - b) + (n[b] == 'r' || n.compare(b, 2, "at") == 0 || n.compare(0, 8, "objectAt") == 0 ? "(int)a" : "(id)a") + num(k++) + " "; b = e + 1; } decl += "-(id)" + d + "; "; }
  N *is[5]; for (int i = 0; i < 5; i++) { is[i] = Iface(cls[i]); g.top.push_back(Raw(std::string("@interface ") + cls[i] + (i == 1 || i == 3 ? std::string(" : ") + cls[i - 1] : "") + " " + (i == 1 || i == 3 ? "" : decl) + "@end")); } N *v = Var("vvvv", objOf(is[to]), nullptr, FExtern), *f = Fn("ffgg", objOf(is[to]), {}, nullptr); g.top.insert(g.top.end(), {v, f});
  N *iv = Field("wwww", objOf(is[to])), *own = Iface("Oooo", {Prop("pppp", objOf(is[to]))}, {iv}), *fd = Field("yyyy", objOf(is[to])), *rec = Rec("Ssss", {fd}), *rv = Var("zzzz", new Ty{TRec, nullptr, rec}, nullptr, FExtern), *oo = Var("jjjj", objOf(own), nullptr, FExtern), *lo = Var("llll", objOf(is[to])); g.top.insert(g.top.end(), {own, rec, rv, oo});
  N *r = recv == 0 ? Ref(v) : recv == 1 ? Paren(Ref(v)) : recv == 2 ? Call(f) : recv == 3 ? Ref(g.o) : recv == 4 ? Ref(iv) : recv == 5 ? Member(Ref(rv), fd, false) : recv == 6 ? Ref(lo) : Member(Ref(oo), own->c[0], false), *m = Msg(r, sels[s], {}, &tyId); int k = 0; for (const char *p = sels[s]; *p; p++) if (*p == ':') { bool idx = (k == 0 && (s == 0 || s == 1 || s == 2 || s == 8)) || (k == 1 && (s == 3 || s == 9)); m->c.push_back(idx ? Int(1) : Ref(g.o)); k++; }
  if (recv == 4) { g.top.push_back(Impl(own, {Meth("qqqq", &tyId, {Parm("oooo", &tyId)}, Blk({Return(m)}))})); g.o = g.top.back()->c[0]->parms[0]; for (N *&x : m->c) if (x->k == ERef && x->d != iv) x = Ref(g.o); g.o = Parm("oooo", &tyId); g.put({g.call()}, 0); } else if (recv == 6) g.put({Decl(lo), use_(g, m)}, 0); else place(g, m, !recv && s == from[to] && (to == 0 || to == 3)); bool hit = recv != 2 && recv != 3 && recv != 7 && s >= from[to] && s <= last[to]; Wants w; layout(g.p); if (hit) w.add(m); check(g, "use object subscripting", w, "exactly the element accesses of array and dictionary variables are reported"); }
// ---------------------------------------------------------------- instance variables
HARNESS(ivar_names) {
  gLang = OBJC; Program p; int form = sym_choose("selector", 0, 9); auto letters = [](int n, const char *what, char low = 'a') { std::string s; for (int i = 0; i < n; i++) { char c = sym_char(what); sym_assume(sym_or(c == '_', sym_and(c >= low, c <= low + 25))); s += c; } return s; };
  // the lengths differ, so that no two of them are one identifier of the parser
  std::string iv = letters(4, "ivar"), m; for (auto *k : {"auto", "case", "char", "else", "enum", "goto", "long", "void"}) sym_assume(sym_not(sym_eq(iv, k))); switch (form) { case 0: m = letters(3, "name"); break; case 1: m = letters(2, "name"); break; case 2: case 7: m = "set" + letters(form == 2 ? 3 : 4, "name", 'A'); for (size_t i = 4; i < m.size(); i++) m[i] = sym_char("name"); for (size_t i = 4; i < m.size(); i++) sym_assume(sym_or(m[i] == '_', sym_and(m[i] >= 'a', m[i] <= 'z'))); break; case 3: m = "set" + letters(2, "name", 'A'); break; case 4: m = "init" + letters(2, "name"); break; case 5: m = "ini" + letters(2, "name"); break; case 8: m = letters(2, "name") + "init"; break; case 9: m = letters(1, "name") + "init" + letters(1, "name"); break; default: m = letters(1, "name"); }
  if (form == 0 || form == 1) { sym_assume(sym_not(sym_eq(m, "int"))); sym_assume(sym_not(sym_eq(m, "for"))); sym_assume(sym_not(sym_eq(m, "asm"))); sym_assume(sym_not(sym_eq(m, "if"))); sym_assume(sym_not(sym_eq(m, "do"))); } bool arg = sym_choose("argument", 0, 1);
  N *x = Field(iv), *i = Iface("Aaaa", {}, {x}), *r = Ref(x), *me = Meth(arg ? m + ":" : m, &tyVoid, {}, Blk({Bin(BO_Assign, r, Int(1))})); if (arg) me->parms.push_back(Parm("pppp")); x->sym = true; me->sym = true; p.decls = {i, Impl(i, {me})};
  std::string get; for (char c : iv) if (sym_concretize(c != '_')) get += c; std::string set = "set" + get + ":"; if (!get.empty()) set[3] = (char)sym_ite(set[3] >= 'a', set[3] - 32, set[3]); std::string sel = arg ? m + ":" : m; bool ok = sym_or(sym_or(sym_eq(sel, get), sym_eq(sel, set)), sel.size() >= 4 && sym_eq_bytes(sel.data(), "init", 4)); ok = sym_concretize(ok);
  Wants w; layout(p); if (!ok) w.add(r); World wd = make(p); RuleBase *rule = ruleNamed("ivar assignment outside accessors or init"); compare(runRule(rule, wd), w, rule, "exactly the assignments outside accessors and initializers are reported"); sym_cover(ok ? "good" : "bad"); }
HARNESS(ivar_places) {
  gLang = OBJC; Program p; N *x = Field("xxxx"), *y = Field("yyyy"), *acc = Access("@public"), *l = Var("llll"), *a = Iface("Aaaa", {}, {x, y}), *b = Iface("Bbbb", {}, {Raw("@public int zzzz;")}), *z = Field("zzzz"), *o = Var("oooo", objOf(b), nullptr, FExtern), *fn = Fn("gggg", &tyVoid, {Parm("vvvv")}, nullptr); (void)acc; int what = sym_choose("what", 0, 9), op = what == 0 ? sym_choose("op", BO_Mul, BO_OrAssign) : BO_Assign, where = sym_choose("where", 0, 6), named = where == 0 && what ? sym_choose("method", 0, 3) : 0; if (op == BO_Cmp) sym_end_path();
  N *rx = Ref(x), *ry = Ref(y), *s; std::vector<N *> hit; N *self = Self(); self->t = objOf(a); switch (what) { case 0: s = Bin(op, rx, Int(2)); if (op >= BO_Assign) hit = {rx}; break; case 1: s = Bin(op, rx, Bin(op, ry, Int(1))); hit = {rx, ry}; break; case 2: s = Bin(op, Ref(l), rx); break; case 3: { N *m = Member(self, x, true); s = Bin(op, m, Int(1)); hit = {m}; break; } case 4: { N *m = Member(Ref(o), z, true); s = Bin(op, m, Int(1)); hit = {m}; break; } case 5: s = Un(UO_PostInc, rx); break; case 6: s = Bin(op, Paren(rx), Int(4)); hit = {rx}; break; case 7: s = Call(fn, {rx}); break; case 8: s = Bin(op, Ref(l), Paren(Bin(BO_AddAssign, rx, ry))); hit = {rx}; break; default: s = Bin(op, Ref(l), Int(1)); }
  bool init = false; N *bd; switch (where) { case 0: bd = Blk({s}); break; case 1: bd = Blk({If(Ref(l), s)}); break; case 2: bd = Blk({While(Ref(l), Blk({s}))}); break; case 3: bd = Blk({AtTry(Blk({s}), {AtFinally(Blk())})}); break; case 4: init = true; bd = Blk({s}); break; case 5: bd = Blk({s}); break; default: bd = Blk({s}); }
  N *m = Meth(init ? "initWith" : named == 1 ? "xxxx" : named == 2 ? "setXxxx:" : named == 3 ? "setxxxx:" : "mmmm", &tyVoid, {}, bd, 0),  *im = where == 5 ? CatImpl(a, "kkkk", {m}) : Impl(a, {m}); bd->c.insert(bd->c.begin(), Decl(l)); p.decls = {fn, a, b, o, Cat(a, "kkkk", {})}; if (where == 6) { if (what != 4 && what != 9 && what != 2) sym_end_path(); if (what == 2) sym_end_path(); p.decls.push_back(Fn("ffff", &tyVoid, {}, bd)); hit.clear(); } else p.decls.push_back(im);
  if (init) hit.clear(); if (named >= 2) m->parms.push_back(Parm("pppp")); if (named == 1 || named == 2) { std::vector<N *> rest; for (N *h : hit) if ((h->k == EMember ? h->d : h->d) != x) rest.push_back(h); hit = rest; } Wants w; layout(p); for (N *h : hit) w.add(h); World wd = make(p); RuleBase *rule = ruleNamed("ivar assignment outside accessors or init"); compare(runRule(rule, wd), w, rule, "exactly the assignments outside accessors and initializers are reported"); sym_cover(hit.empty() ? "good" : "bad"); }
// ---------------------------------------------------------------- feature envy
HARNESS(envy) {
  gLang = OBJC; Program p; bool cls = sym_choose("class method", 0, 1), cat = sym_choose("category", 0, 1); auto members = [](std::vector<N *> v) { v.push_back(Meth("ffff", &tyInt, {}, nullptr)); v.push_back(Meth("gggg", &tyInt, {}, nullptr, FStatic)); return v; }; N *pb = Prop("pppp"), *pa = Prop("qqqq"), *iv = Field("xxxx"), *r = Iface("Rrrr", members({})), *a = Iface("Aaaa", members({pa}), {iv}, r), *b = Iface("Bbbb", members({pb})), *c = Iface("Cccc", members({})), *u = Fn("uuuu", &tyVoid, {Parm("vvvv")}, nullptr), *ob = Var("bbbb", objOf(b), nullptr, FExtern), *oc = Var("cccc", objOf(c), nullptr, FExtern), *oa = Var("aaaa", objOf(a), nullptr, FExtern), *oi = Var("iiii", &tyId, nullptr, FExtern); std::vector<N *> s;
  int own = sym_choose("own", 0, 2), ownKind = own ? sym_choose("own kind", 0, cls ? 2 : 4) : 0, nb = sym_choose("others", 0, 3), bKind = nb ? sym_choose("other kind", 0, 3) : 0, nc = sym_choose("third", 0, 1), more = nb == 1 && own <= 1 ? sym_choose("more", 0, 2) : 0; Ty *ta = objOf(a);
  for (int i = 0; i < own; i++) { N *me = Self(); if (!cls) me->t = ta; switch (ownKind) { case 0: s.push_back(Msg(me, cls ? "gggg" : "ffff")); break; case 1: s.push_back(Msg(a, "gggg")); break; case 2: s.push_back(If(Msg(Ref(oa), "ffff"), Call(u, {Int(1)}))); break; case 3: s.push_back(Call(u, {Ref(iv)})); break; default: s.push_back(Call(u, {Member(me, pa, false)})); } }
  for (int i = 0; i < nb; i++) switch (bKind) { case 0: s.push_back(Msg(Ref(ob), "ffff")); break; case 1: s.push_back(Msg(b, "gggg")); break; case 2: s.push_back(Bin(BO_Assign, Member(Ref(ob), pb, false), Int(3))); break; default: s.push_back(While(Member(Ref(ob), pb, false), Msg(Ref(oi), "ffff"))); }
  for (int i = 0; i < nc; i++) s.push_back(Msg(Ref(oc), "ffff")); if (more == 1) s.push_back(Msg(Tok("super", &tyId), cls ? "gggg" : "ffff")); if (more == 2) s.push_back(Msg(Ref(oi), "ffff")); N *m = Meth("mmmm", &tyVoid, {}, Blk(s), cls ? FStatic : 0); p.decls = {u, r, a, b, c, ob, oc, oa, oi, Cat(a, "kkkk", {}), cat ? CatImpl(a, "kkkk", {m}) : Impl(a, {m})};
  Wants w; layout(p); auto say = [&](const char *n) { w.add(m, std::string("Method mmmm messages ") + n + " more than self."); }; if (nb > own) say("Bbbb"); if (nc > own) say("Cccc"); World wd = make(p); RuleBase *rule = ruleNamed("feature envy"); compare(runRule(rule, wd), w, rule, "exactly the classes messaged more than the own one are reported"); sym_cover(w.w.empty() ? "good" : "bad"); }
// ---------------------------------------------------------------- CUDA
HARNESS(divergence) {
  gLang = CXX; gCuda = true; Program p; N *v = Parm("vvvv"), *u = Fn("uuuu", &tyVoid, {Parm("wwww")}, nullptr); u->flags |= 0; std::vector<N *> ifs; auto one = [&](N *t, N *e) { N *n = If(Ref(v), t, e); if (e) ifs.push_back(n); return n; }; auto body = [&](int k) -> N * { switch (k) { case 0: return Null(); case 1: return Bin(BO_Assign, Ref(v), Int(1)); case 2: return one(Null(), nullptr); case 3: return one(Blk(), Blk()); default: return While(Ref(v), one(Null(), Blk({one(Null(), nullptr)}))); } };
  int k1 = sym_choose("then", 0, 4), k2 = sym_choose("else", -1, 4), kind = sym_choose("function", 0, 2); N *t = body(k1), *e = k2 < 0 ? nullptr : body(k2), *s = one(Blk({t}), e); N *f = Fn("ffff", &tyVoid, {v}, Blk({s})); f->attr = kind == 0 ? "__attribute__((global))" : kind == 1 ? "" : "__attribute__((host))"; N *q = Parm("qqqq"), *h = Fn("hhhh", &tyVoid, {q}, Blk({If(Ref(q), Null(), Null())})); p.decls = {h, f};
  Wants w; layout(p); if (kind == 0) for (N *i : ifs) w.add(i); World wd = make(p); RuleBase *rule = ruleNamed("branch divergence"); compare(runRule(rule, wd), w, rule, "exactly the ifs with else of CUDA kernels are reported"); sym_cover(w.w.empty() ? "good" : "bad"); }
