// Small programs.  A harness describes one as a tree of N; layout() assigns every token its line and column.
// Natively the program is printed and parsed by the real clang; for the executor the same tree is laid out in memory
// as the clang nodes the parser would produce (native replays on every run compare the two).
#pragma once
#include "util.h"
#include <cstdlib>
#include <cstring>
#include <new>
#include <initializer_list>
#include <clang/AST/AST.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclObjC.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/ExprObjC.h>
#include <clang/AST/StmtCXX.h>
#include <clang/AST/StmtObjC.h>
#include <clang/AST/ParentMapContext.h>
#include <clang/Basic/SourceManager.h>
#include "oclint/RuleConfiguration.h"

enum K : int {
  SNull, SBlk, SIf, SWhile, SDo, SFor, SSwitch, SCase, SDefault, SLabel, SGoto, SBreak, SContinue, SReturn, SDecl, STry, SCatch,
  SAtTry, SAtCatch, SAtFinally, SAtThrow, SSync, SPool, SForIn, SRange,
  EInt, EFloat, EBool, EStr, ERef, ECall, EParen, EUn, EBin, ECond, ECast, EMember, EIndex, EThrow, EDelete, ENew, EThis, ENullptr, EMsg, EIvar, ESelf,
  DVar, DParm, DFn, DRec, DField, DEnum, DEnumConst, DNamespace, DAccess, DIface, DImpl, DMeth, DProto, DCat, DCatImpl, DComment, DProp, DRaw
};
struct N;
enum TK { TInt, TVoid, TBool, TChar, TSChar, TDouble, TLong, TPtr, TRec, TId, TObj, TEnum, TAuto, TFun };
struct Ty { TK k; Ty *to = nullptr; N *rec = nullptr; bool quals = false; };
struct Pos { int l = 0, c = 0; };
struct N {
  K k; int op = 0; long v = 0; std::string s; N *d = nullptr; Ty *t = nullptr; std::vector<N *> c; N *body = nullptr; std::vector<N *> parms;
  int gap = 0;                     // blank lines before the last token (symbolic lines)
  int flags = 0; std::string attr; std::vector<N *> adopt; std::vector<const char *> how; // declarations (a record's bases with their access)
  std::string note, trail, head;   // annotation of a declaration; comments at the end of a statement or behind the head of an if or function (bytes may be symbolic)
  int noteTok = -1, trailTok = -1, headTok = -1;
  Pos b, e, p, q, r; N *up = nullptr; int idx = -1; bool sym = false;      // sym: op or v is symbolic
  explicit N(K k) : k(k) {}
};
enum { FStatic = 1, FVirtual = 2, FPure = 4, FCtor = 8, FDtor = 16, FExtern = 32, FNoProto = 64, FConst = 128, FPrivate = 256, FProtected = 512, FPublic = 1024, FUnion = 2048, FClass = 4096, FInline = 8192, FHeader = 16384, FOverride = 32768, FDefault = 65536, FProtoOnly = 131072, FTypedef = 262144, FTemplate = 524288 };
enum Lang { C, CXX, OBJC };
extern Lang gLang; extern bool gCuda, gOld, gObjCxx;         // CUDA (with CXX), C89 (with C), Objective-C++ (with OBJC)
extern Ty tyInt, tyVoid, tyBool, tyChar, tySChar, tyLong, tyDouble, tyIntPtr, tyId;
static inline N *mk(K k, std::initializer_list<N *> c = {}) { N *n = new N(k); n->c.assign(c); return n; }
static inline bool isExpr(K k) { return k >= EInt && k < DVar; }
// statements
static inline N *Null() { return mk(SNull); }
static inline N *Blk(std::initializer_list<N *> c = {}) { return mk(SBlk, c); }
static inline N *Blk(const std::vector<N *> &c) { N *n = mk(SBlk); n->c = c; return n; }
static inline N *If(N *c, N *t, N *e = nullptr) { N *n = mk(SIf, {c, t}); if (e) n->c.push_back(e); return n; }
static inline N *While(N *c, N *b) { return mk(SWhile, {c, b}); }
static inline N *Do(N *b, N *c) { return mk(SDo, {b, c}); }
static inline N *For(N *i, N *c, N *s, N *b) { return mk(SFor, {i, c, s, b}); }
static inline N *Switch(N *c, N *b) { return mk(SSwitch, {c, b}); }
static inline N *Case(N *v, N *s) { return mk(SCase, {v, s}); }
static inline N *Default(N *s) { return mk(SDefault, {s}); }
static inline N *Goto(const char *l) { N *n = mk(SGoto); n->s = l; return n; }
static inline N *Break() { return mk(SBreak); }
static inline N *Continue() { return mk(SContinue); }
static inline N *Return(N *e = nullptr) { N *n = mk(SReturn); if (e) n->c.push_back(e); return n; }
static inline N *Decl(N *v) { return mk(SDecl, {v}); }
static inline N *Catch(N *b) { return mk(SCatch, {b}); }
static inline N *Try(N *b, std::initializer_list<N *> cs) { N *n = mk(STry, {b}); for (N *x : cs) n->c.push_back(x); return n; }
static inline N *AtCatch(N *b) { return mk(SAtCatch, {b}); }
static inline N *AtFinally(N *b) { return mk(SAtFinally, {b}); }
static inline N *AtTry(N *b, std::initializer_list<N *> cs) { N *n = mk(SAtTry, {b}); for (N *x : cs) n->c.push_back(x); return n; }
static inline N *AtThrow(N *e = nullptr) { N *n = mk(SAtThrow); if (e) n->c.push_back(e); return n; }
static inline N *Sync(N *e, N *b) { return mk(SSync, {e, b}); }
static inline N *Pool(N *b) { return mk(SPool, {b}); }
static inline N *ForIn(N *var, N *coll, N *b) { return mk(SForIn, {mk(SDecl, {var}), coll, b}); }
// expressions
static inline N *Int(long v) { N *n = mk(EInt); n->v = v; n->t = &tyInt; return n; }
static inline N *SInt(const char *name = "literal") { N *n = mk(EInt); n->v = sym_int(name, 0, 0x7fffffff); n->sym = true; n->t = &tyInt; return n; }
static inline N *SLong(const char *name = "literal") { N *n = mk(EInt); n->v = (long)sym_u64(name, 63); n->sym = true; n->t = &tyLong; return n; }
static inline N *SBool(const char *name = "bool") { N *n = mk(EBool); n->v = sym_bool(name); n->sym = true; n->t = &tyBool; return n; }
static inline N *Float(const char *s) { N *n = mk(EFloat); n->s = s; n->t = &tyDouble; return n; }
// a token as it is
static inline N *Tok(const char *s, Ty *t) { N *n = mk(EStr); n->s = s; n->t = t; return n; }
static inline N *Bool(bool v) { N *n = mk(EBool); n->v = v; n->t = &tyBool; return n; }
static inline N *Ref(N *d) { N *n = mk(ERef); n->d = d; n->t = d->t; return n; }
static inline N *Call(N *f, std::initializer_list<N *> a = {}) { N *n = mk(ECall, a); n->d = f; n->t = f->t; return n; }
static inline N *Paren(N *e) { N *n = mk(EParen, {e}); n->t = e->t; return n; }
Ty *unType(int op, N *e); Ty *binType(int op, N *a, N *b);
static inline N *Un(int op, N *e) { N *n = mk(EUn, {e}); n->op = op; n->t = unType(op, e); return n; }
static inline N *Bin(int op, N *a, N *b) { N *n = mk(EBin, {a, b}); n->op = op; n->t = binType(op, a, b); return n; }
// any of the operators from lo to hi (clang::BinaryOperatorKind, without assignments and comma) over int operands; C
static inline N *SBin(int lo, int hi, N *a, N *b) { int op = sym_int("operator", lo, hi); sym_assume(op != clang::BO_Cmp); N *n = mk(EBin, {a, b}); n->op = op; n->sym = true; n->t = &tyInt; return n; }
// any of + - ~ ! over an int operand; C and Objective-C
static inline N *SUn(N *e) { int op = sym_int("unary operator", clang::UO_Plus, clang::UO_LNot); N *n = mk(EUn, {e}); n->op = op; n->sym = true; n->t = &tyInt; return n; }
static inline N *Cond(N *c, N *a, N *b) { N *n = mk(ECond, {c, a, b}); n->t = a->t; return n; }
static inline N *Throw(N *e = nullptr) { N *n = mk(EThrow); if (e) n->c.push_back(e); n->t = &tyVoid; return n; }
static inline N *Nullptr() { N *n = mk(ENullptr); n->t = &tyIntPtr; return n; }
static inline N *Member(N *e, N *f, bool arrow) { N *n = mk(EMember, {e}); n->d = f; n->op = arrow; n->t = f->t; return n; }
static inline N *CCast(Ty *t, N *e) { N *n = mk(ECast, {e}); n->t = t; return n; }
static inline N *Delete(N *e, bool array = false) { N *n = mk(EDelete, {e}); n->op = array; n->t = &tyVoid; return n; }
static inline N *This(Ty *t) { N *n = mk(EThis); n->t = t; return n; }
static inline N *Self() { N *n = mk(ESelf); n->t = &tyId; return n; }
// a message: to an expression, or to a class (an interface)
static inline N *Msg(N *to, const char *sel, std::initializer_list<N *> args = {}, Ty *t = &tyInt) { N *n = mk(EMsg); if (to->k == DIface) { n->d = to; n->c.push_back(nullptr); } else n->c.push_back(to); n->c.insert(n->c.end(), args.begin(), args.end()); n->s = sel; n->t = t; return n; }
static inline N *Label(const std::string &l, N *s) { N *n = mk(SLabel, {s}); n->s = l; return n; }
// declarations
static inline N *EnumT(const std::string &s, std::vector<N *> cs, Ty *t) { N *n = mk(DEnum); n->s = s; n->c = cs; t->rec = n; for (N *c : cs) c->t = t; return n; }
static inline N *Enumerator(const std::string &s) { N *n = mk(DEnumConst); n->s = s; n->t = &tyInt; return n; }
static inline N *Var(const std::string &s, Ty *t = &tyInt, N *init = nullptr, int flags = 0) { N *n = mk(DVar); n->s = s; n->t = t; n->flags = flags; if (init) n->c.push_back(init); return n; }
static inline N *Parm(const std::string &s, Ty *t = &tyInt) { N *n = mk(DParm); n->s = s; n->t = t; return n; }
static inline N *Fn(const std::string &s, Ty *t, std::vector<N *> parms, N *body, int flags = 0) { N *n = mk(DFn); n->s = s; n->t = t; n->parms = parms; n->body = body; n->flags = flags; return n; }
static inline N *Rec(const std::string &s, std::vector<N *> members, int flags = 0) { N *n = mk(DRec); n->s = s; n->c = members; n->flags = flags; return n; }
// `name;`
static inline N *Forward(const std::string &s, int flags = 0) { N *n = mk(DRec); n->s = s; n->flags = flags | FProtoOnly; return n; }
static inline N *Base(N *n, N *base, const char *how = "public") { n->adopt.push_back(base); n->how.push_back(how); return n; }
static inline N *Meth(const std::string &s, Ty *t, std::vector<N *> parms, N *body, int flags = 0) { N *n = mk(DMeth); n->s = s; n->t = t; n->parms = parms; n->body = body; n->flags = flags; return n; }
static inline N *Iface(const std::string &s, std::vector<N *> members = {}, std::vector<N *> ivars = {}, N *super = nullptr) { N *n = mk(DIface); n->s = s; n->c = members; n->parms = ivars; n->d = super; return n; }
static inline N *Impl(N *i, std::vector<N *> members, std::vector<N *> ivars = {}) { N *n = mk(DImpl); n->d = i; n->c = members; n->parms = ivars; return n; }
static inline N *Proto(const std::string &s, std::vector<N *> members) { N *n = mk(DProto); n->s = s; n->c = members; return n; }
static inline N *Cat(N *i, const std::string &s, std::vector<N *> members, std::vector<N *> ivars = {}) { N *n = mk(DCat); n->d = i; n->s = s; n->c = members; n->parms = ivars; return n; }
static inline N *CatImpl(N *i, const std::string &s, std::vector<N *> members) { N *n = mk(DCatImpl); n->d = i; n->s = s; n->c = members; return n; }
static inline N *Namespace(const std::string &s, std::vector<N *> members) { N *n = mk(DNamespace); n->s = s; n->c = members; return n; }
static inline N *Access(const char *s) { N *n = mk(DAccess); n->s = s; return n; }
// a block comment, last in the file: positions behind it are not known
static inline N *Comment(const std::string &s) { N *n = mk(DComment); n->s = s; n->sym = true; return n; }
// text as it is, on a line of its own
static inline N *Raw(const std::string &s) { N *n = mk(DRaw); n->s = s; return n; }
static inline N *Prop(const std::string &s, Ty *t = &tyInt) { N *n = mk(DProp); n->s = s; n->t = t; return n; }
static inline N *Field(const std::string &s, Ty *t = &tyInt) { N *n = mk(DField); n->s = s; n->t = t; return n; }

// the program
struct Program { std::vector<N *> decls, header; std::string text, htext; bool noeol = false; std::vector<int> lengths; };      // lengths of the lines (without gaps)
int gLineOf(int file, int tok);                            // after layout: the line of a token
void layout(Program &p);                                  // positions (and, natively, the text)
struct World { clang::ASTContext *ctx; };
World make(Program &p);                                   // lay out, parse; for the executor the parser's memory with the symbolic parts put in
clang::Decl *declOf(N *n); clang::Stmt *bodyOf(N *fn);     // the clang nodes
RuleBase *ruleNamed(const char *name);
std::vector<Violation> runRule(RuleBase *r, World &w);
// what a rule must report
struct Want { N *n; std::string msg; bool any; Pos b, e; bool pos; };
struct Wants { std::vector<Want> w; void add(N *n, const std::string &m = "") { w.push_back({n, m, m.empty(), {}, {}, false}); } };
void compare(const std::vector<Violation> &got, const Wants &want, RuleBase *r, const char *label);
const char *fileName();
std::string num(long v);
