// Complexity, size and depth of code against a threshold.
#include "stmts.h"
using namespace clang;
static long ccn(N *n) {
  long c = 0; switch (n->k) { case SIf: case SFor: case SForIn: case SWhile: case SDo: case SCase: case SAtCatch: case SCatch: case ECond: c = 1; break; case EBin: c = sym_ite(sym_or(n->op == BO_LAnd, n->op == BO_LOr), 1, 0); break; default: ; }
  for (N *x : n->c) if (x) c += ccn(x); return c; }
static long npathE(N *n) {
  if (!n) return 0; switch (n->k) { case ECond: return npathE(n->c[0]) + npathE(n->c[1]) + npathE(n->c[2]) + 2; case EBin: return sym_ite(sym_or(n->op == BO_LAnd, n->op == BO_LOr), 1 + npathE(n->c[0]) + npathE(n->c[1]), 0); case EParen: case ECast: return npathE(n->c[0]); default: return 0; } }
static long cap(long v) { return sym_ite(v > 0x7fffffff, 0x7fffffff, v); }
static long npath1(N *n);
static long npath(N *n) { return cap(npath1(n)); }
static long npath1(N *n) {
  if (!n) return 1;
  switch (n->k) {
  case SBlk: { long p = 1; for (N *x : n->c) p = cap(p * npath(x)); return p; }
  case SIf: return npathE(n->c[0]) + npath(n->c[1]) + (n->c.size() > 2 ? npath(n->c[2]) : 1);
  case SWhile: return npathE(n->c[0]) + npath(n->c[1]) + 1;
  case SDo: return npathE(n->c[1]) + npath(n->c[0]) + 1;
  case SFor: return npath(n->c[0]) + npathE(n->c[1]) + npathE(n->c[2]) + npath(n->c[3]) + 1;
  case SForIn: return npath(n->c[2]) + 2;
  case SCase: return npath(n->c[1]);
  case SDefault: return npath(n->c[0]);
  case SSwitch: { long p = npathE(n->c[0]), grp = 0; N *b = n->c[1]; if (b->k != SBlk) return p + npath(b); for (N *x : b->c) if (x->k == SCase || x->k == SDefault) { p += grp; grp = npath(x); } else grp = cap(grp * npath(x)); return p + grp; }
  default: return 1; } }
static long ncss(N *n) {
  switch (n->k) {
  case SNull: return 0;
  case SBlk: { long s = 0; for (N *x : n->c) s += ncss(x); return s; }
  case SIf: return 1 + ncss(n->c[1]) + (n->c.size() > 2 ? 1 + ncss(n->c[2]) : 0);
  case SWhile: case SSwitch: case SCase: case SSync: return 1 + ncss(n->c[1]);
  case SDo: return 2 + ncss(n->c[0]);
  case SFor: return 1 + ncss(n->c[3]);
  case SForIn: return 1 + ncss(n->c[2]);
  case SDefault: case SPool: case SCatch: case SAtCatch: case SAtFinally: return 1 + ncss(n->c[0]);
  case STry: case SAtTry: { long s = 1; for (N *x : n->c) s += ncss(x); return s; }
  default: return 1; } }
static long depth(N *n) {
  long m = 0; if (isExpr(n->k) || n->k == SDecl || n->k == SReturn) return 0;
  for (N *x : n->c) if (x && !isExpr(x->k)) { long d = depth(x); if (d > m) m = d; } return m + (n->k == SBlk); }
#if defined M_CCN
static const char *RULE = "high cyclomatic complexity", *KEY = "CYCLOMATIC_COMPLEXITY"; static const int DFLT = 10;
static long measure(N *f) { return 1 + (f->body ? ccn(f->body) : 0); }
static std::string text(long v, long t) { return "Cyclomatic Complexity Number " + num(v) + " exceeds limit of " + num(t); }
static bool measured(N *) { return true; }
#elif defined M_NPATH
static const char *RULE = "high npath complexity", *KEY = "NPATH_COMPLEXITY"; static const int DFLT = 200;
static long measure(N *f) { return npath(f->body); }
static std::string text(long v, long t) { return "NPath Complexity Number " + num(v) + " exceeds limit of " + num(t); }
static bool measured(N *f) { return f->body; }
#elif defined M_NCSS
static const char *RULE = "high ncss method", *KEY = "NCSS_METHOD"; static const int DFLT = 30;
static long measure(N *f) { return f->body ? 1 + ncss(f->body) : 0; }
static std::string text(long v, long t) { return "Method of " + num(v) + " non-commenting source statements exceeds limit of " + num(t); }
static bool measured(N *) { return true; }
#elif defined M_DEPTH
static const char *RULE = "deep nested block", *KEY = "NESTED_BLOCK_DEPTH"; static const int DFLT = 5;
static long measure(N *b) { return depth(b); }
static std::string text(long v, long t) { return "Block depth of " + num(v) + " exceeds limit of " + num(t); }
#elif defined M_LINES
static const char *RULE = "long method", *KEY = "LONG_METHOD"; static const int DFLT = 50;
static long measure(N *f) { return f->body->e.l - f->body->b.l + 1; }
static std::string text(long v, long t) { return "Method with " + num(v) + " lines exceeds limit of " + num(t); }
static bool measured(N *f) { return f->body && !(f->up && f->up->k == DRec); }
#else
static const char *RULE = "too many parameters", *KEY = "TOO_MANY_PARAMETERS"; static const int DFLT = 10;
static long measure(N *f) { return (long)f->parms.size(); }
static std::string text(long v, long t) { return "Method with " + num(v) + " parameters exceeds limit of " + num(t); }
static bool measured(N *f) { return f->body; }
#endif
static void expect(N *n, Wants &w, long t) {
#ifdef M_DEPTH
  bool it = n->k == SBlk;
#else
  bool it = (n->k == DFn || n->k == DMeth) && measured(n);
#endif
  if (it) { long v = measure(n); if (v > t) w.add(n, text(v, t)); }
  for (N *x : n->c) if (x) expect(x, w, t); if (n->body) expect(n->body, w, t); }
static void judge(Prog &g, long t) { World w = make(g.p); Wants want; for (N *d : g.p.decls) expect(d, want, t); RuleBase *r = ruleNamed(RULE); compare(runRule(r, w), want, r, "exactly the code over the limit is reported, with its value and the limit"); sym_cover(want.w.empty() ? "good" : "bad"); }
// a limit of up to two digits given in the configuration
static long limit() { char d[3] = {0, 0, 0}; int n = sym_choose("digits", 1, 2); for (int i = 0; i < n; i++) { d[i] = sym_char("digit"); sym_assume(sym_and(d[i] >= (n == 2 && !i ? '1' : '0'), d[i] <= '9')); } RuleConfiguration::addConfiguration(KEY, std::string(d, n)); return n == 1 ? d[0] - '0' : (d[0] - '0') * 10 + d[1] - '0'; }
static long someLimit(long a) { RuleConfiguration::addConfiguration(KEY, num(a)); return a; }
// a limit of one digit, or of two for what grows fast
static long some() {
#ifdef M_NPATH
  return limit();
#else
  char d[2] = {0, 0}; d[0] = sym_char("digit"); sym_assume(sym_and(d[0] >= '0', d[0] <= '9')); RuleConfiguration::addConfiguration(KEY, std::string(d, 1)); return d[0] - '0';
#endif
}
// every kind of statement inside every kind of statement
HARNESS(nested) {
  chooseLang(); Prog g; int k1 = sym_choose("outer", KBlock, kinds() - 1), k2 = sym_choose("inner", 0, kinds() - 1); sym_assume(usesOne(k1)); bool second = usesTwo(k1) && sym_choose("place", 0, 1);
  N *in = stmtOf(g, k2, g.call(), If(Ref(g.b), Blk({g.call(), g.call()})), Ref(g.a)), *x; if (k2 == KDecl) in = Blk({in}); x = stmtOf(g, k1, second ? While(Ref(g.b), Blk()) : in, second ? in : Blk({g.call()}), Ref(g.b));
  g.put({x, g.call()}); judge(g, limit()); }
// a condition with free operators in every place
HARNESS(conditions) {
  chooseLang(); Prog g; int k = sym_choose("statement", 0, kinds() - 1), c = sym_choose("condition", 0, conds()); sym_assume(usesCond(k));
  g.put({stmtOf(g, k, Blk({g.call()}), Blk(), condOf(g, c, gLang == C ? symOp : [](N *a, N *b) { return Bin(BO_LAnd, a, b); }))}); judge(g, limit()); }
// three statements of every kind, one in the other (of the kinds of one language only, where there are some)
HARNESS(deep) {
  chooseLang(); Prog g; int hi = kinds() - 1, k1 = sym_choose("outer", KBlock, hi), k2 = sym_choose("middle", KBlock, hi), p1 = usesTwo(k1) ? sym_choose("place", 0, 1) : 0, p2 = usesTwo(k2) ? sym_choose("place", 0, 1) : 0; sym_assume(usesOne(k1)); sym_assume(usesOne(k2)); sym_assume(gLang == C || k1 >= KCommon || k2 >= KCommon);
#ifdef TIER_THOROUGH
  int k3 = sym_choose("inner", KBlock, hi); sym_assume(usesOne(k3));
#else
  static const int ks[] = {KBlock, KIf, KIfElse, KWhile, KSwitch}; int k3 = ks[sym_choose("inner", 0, 4)];
#endif
  N *in = stmtOf(g, k3, g.call(), Blk({g.call()}), Ref(g.a)), *mid = stmtOf(g, k2, p2 ? g.call() : in, p2 ? in : g.call(), Ref(g.b)); g.put({stmtOf(g, k1, p1 ? g.call() : mid, p1 ? mid : g.call(), Ref(g.a))}); judge(g, some()); }
// two statements of every kind, one after the other
HARNESS(sequence) {
  chooseLang(); Prog g; int hi = kinds() - 1, k1 = sym_choose("first", 0, hi), k2 = sym_choose("second", 0, hi); sym_assume(gLang == C || k1 >= KCommon || k2 >= KCommon);
  N *x = stmtOf(g, k1, g.call(), Blk({g.call()}), Ref(g.a)), *y = stmtOf(g, k2, Blk({Blk()}), g.call(), Ref(g.b)); if (sym_choose("inside", 0, 1)) g.put({While(Ref(g.a), Blk({x, y}))}); else g.put({x, y, g.call()}); judge(g, some()); }
// if, else if, ... else; something in one of the branches
HARNESS(chain) {
  chooseLang(); Prog g; int n = sym_choose("links", 1, 4), last = sym_choose("last else", 0, 2), at = sym_choose("at", 0, n - (last == 0)), what = sym_choose("what", 0, 5), braces = sym_choose("braces", 0, 1); N *s = last ? last == 1 ? g.call() : Blk({g.call()}) : nullptr, *x;
  switch (what) { case 0: x = Blk({Blk({Blk()})}); break; case 1: x = Blk({If(Ref(g.b), g.call())}); break; case 2: x = While(Ref(g.b), Blk({g.call()})); break; case 3: x = Do(If(Ref(g.a), g.call(), g.call()), Ref(g.b)); break; case 4: x = Switch(Ref(g.b), Blk({Case(Int(1), If(Ref(g.a), Blk())), Default(g.call())})); break; default: x = Null(); }
  if (at == n) s = x; for (int i = n - 1; i >= 0; i--) s = If(i & 1 ? Bin(BO_LAnd, Ref(g.a), Ref(g.b)) : Ref(g.b), i == at ? x : braces ? Blk({g.call()}) : g.call(), s); g.put({s}); judge(g, some()); }
// functions, methods, constructors, in namespaces and classes; a condition deep inside
HARNESS(places) {
  chooseLang(); Prog g; N *s = If(Ref(g.a), Do(Blk({If(Cond(Ref(g.a), Ref(g.b), Int(1)), Blk({Blk()}))}), Ref(g.b))); g.top.push_back(Fn("kkkk", &tyVoid, {Parm("xxxx")}, Blk({While(Int(1), Blk())})));
  g.put({s}, chooseContext()); judge(g, limit()); }
// around the default limit: n pieces
static void pieces(Prog &g, int n) {
  std::vector<N *> v;
#if defined M_CCN
  for (int i = 2; i < n; i++) v.push_back(If(Ref(g.a), Blk()));
  if (n > 1) v.push_back(g.use(Cond(Ref(g.a), Int(1), Int(2))));
#elif defined M_NPATH
  std::vector<N *> cs; for (int i = 0; i < n; i++) { cs.push_back(Case(Int(i), g.call())); cs.push_back(Break()); } v.push_back(Switch(Ref(g.a), Blk(cs)));
#elif defined M_DEPTH
  N *b = Blk(); for (int i = 2; i < n; i++) b = Blk({b}); v.push_back(b);
#else
  for (int i = 2; i < n; i++) v.push_back(g.call());
#endif
#ifdef M_PARMS
  for (int i = 2; i < n; i++) { std::string s = "pppp"; s[3] = (char)('a' + i); N *p = Parm(s); g.more.push_back(p); } v.clear();
#endif
  g.put(v); if (!g.more.empty()) for (N *p : g.more) g.f->parms.push_back(p); }
HARNESS(defaults) { chooseLang(); Prog g; int n = sym_choose("n", DFLT - 1, DFLT + 2); pieces(g, n); long t = DFLT; switch (sym_choose("configured", 0, 2)) { case 1: t = someLimit(DFLT - 1); break; case 2: t = someLimit(DFLT + 1); break; } judge(g, t); }
#ifdef M_NPATH
// more paths than a number can hold
HARNESS(huge) { chooseLang(1); Prog g; int n = sym_choose("n", 29, 34), k = sym_choose("around", 0, 5); std::vector<N *> v; for (int i = 0; i < n; i++) v.push_back(If(Ref(g.a), Blk()));
  N *b = Blk(v), *s; switch (k) { case 0: s = b; break; case 1: s = While(Ref(g.a), b); break; case 2: s = If(Ref(g.b), b, Blk({b})); s->c[2] = Blk({g.call()}); break; case 3: s = For(nullptr, Ref(g.a), nullptr, b); break; case 4: s = Do(b, Bin(BO_LAnd, Ref(g.a), Ref(g.b))); break; default: v.insert(v.begin(), Case(Int(1), g.call())); v.push_back(Default(Null())); s = Switch(Ref(g.a), Blk(v)); }
  g.put({s, g.call()}); judge(g, DFLT); }
#endif
