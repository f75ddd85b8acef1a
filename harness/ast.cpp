#include "ast.h"
#include "oclint/RuleSet.h"
#include "oclint/RuleCarrier.h"
#include <map>
#include <unistd.h>
using namespace clang;
Lang gLang = C; bool gCuda, gOld, gObjCxx;
Ty tyInt{TInt}, tyVoid{TVoid}, tyBool{TBool}, tyChar{TChar}, tySChar{TSChar}, tyLong{TLong}, tyDouble{TDouble}, tyIntPtr{TPtr, &tyInt}, tyId{TId};
const char *fileName() { return gLang == OBJC ? gObjCxx ? "input.mm" : "input.m" : gCuda ? "input.cu" : gLang == CXX ? "input.cpp" : "input.c"; }
std::string num(long v) { char t[24], r[26]; bool neg = v < 0; unsigned long u = neg ? 0ul - (unsigned long)v : (unsigned long)v; int n = 0, k = 0; do { t[n++] = '0' + u % 10; u /= 10; } while (u); if (neg) r[k++] = '-'; while (n) r[k++] = t[--n]; return std::string(r, k); }
static bool isCmp(int op) { return op >= BO_LT && op <= BO_NE; }
static bool isAssign(int op) { return op >= BO_Assign && op <= BO_OrAssign; }
static bool isLogic(int op) { return op == BO_LAnd || op == BO_LOr; }
static Ty *truth() { return gLang == CXX ? &tyBool : &tyInt; }
Ty *unType(int op, N *e) { if (op == UO_LNot) return truth(); if (op == UO_Deref) return e->t->to; if (op == UO_AddrOf) return new Ty{TPtr, e->t}; if ((op == UO_Minus || op == UO_Plus || op == UO_Not) && (e->t->k == TBool || e->t->k == TChar)) return &tyInt; return e->t; }
Ty *binType(int op, N *a, N *b) { if (isAssign(op)) return a->t; if (isLogic(op) || isCmp(op)) return truth(); if (op == BO_Comma) return b->t; if (a->t->k == TBool || a->t->k == TChar) return b->t->k == TBool || b->t->k == TChar ? &tyInt : b->t; return a->t; }

// ---------------------------------------------------------------- layout
namespace {
struct Toks { std::vector<Pos> pos; std::vector<unsigned> off; };
struct Out {
  std::string text; int line = 1, col = 1; Pos last; Toks *toks; std::vector<int> lengths;
  Pos here() { return {line, col}; }
  Pos tok(const char *s, size_t n, size_t wide = 0) { last = {line, col}; col += (int)(wide > n ? wide : n) + 1; toks->pos.push_back(last);
#ifdef SYM_NATIVE
    toks->off.push_back(text.size()); text.append(s, n); text.append((wide > n ? wide - n : 0) + 1, ' ');
#endif
    return last; }
  Pos tok(const char *s) { return tok(s, strlen(s)); }
  Pos tok(const std::string &s) { return tok(s.data(), s.size()); }
  void nl(int extra = 0) {
    lengths.push_back(col - 1);
    line += 1 + extra; col = 1;
#ifdef SYM_NATIVE
    text.append((size_t)1 + extra, '\n');
#endif
  }
};
Toks gToks[2]; Out o; int gNodes;
const char *typeText(Ty *t) {
  switch (t->k) { case TInt: return "int"; case TVoid: return "void"; case TBool: return "bool"; case TChar: return "char"; case TSChar: return "signed char"; case TLong: return "long"; case TDouble: return "double"; case TId: return "id"; case TAuto: return "auto"; default: return nullptr; } }
void typeTok(Ty *t) { if (t->quals) o.tok("const"); if (t->k == TPtr) { typeTok(t->to); o.tok("*"); return; } if (t->k == TObj) { o.tok(t->rec->s); o.tok("*"); return; } if (t->k == TRec || t->k == TEnum) { if (gLang != CXX) o.tok(t->k == TEnum ? "enum" : t->rec->flags & FUnion ? "union" : "struct"); o.tok(t->rec->s); return; } o.tok(typeText(t)); }
// the i-th part of a selector, with its colon
std::string selPart(const std::string &s, size_t i) { size_t b = 0; while (i--) { size_t e = s.find(':', b); if (e == std::string::npos) return ":"; b = e + 1; if (b == s.size()) return ":"; } size_t e = s.find(':', b); return s.substr(b, e == std::string::npos ? e : e - b) + ":"; }
const char *binText[] = {".*", "->*", "*", "/", "%", "+", "-", "<<", ">>", "<=>", "<", ">", "<=", ">=", "==", "!=", "&", "^", "|", "&&", "||", "=", "*=", "/=", "%=", "+=", "-=", "<<=", ">>=", "&=", "^=", "|=", ","};
const char *unText[] = {"++", "--", "++", "--", "&", "*", "+", "-", "~", "!"};
#ifdef SYM_NATIVE
const char *opText(N *n) { return binText[n->op]; }
const char *unOp(N *n) { return unText[n->op]; }
const char *boolText(long v) { return v ? "true" : "false"; }
void hexTok(N *n) { char b[24]; if (n->t == &tyLong) { snprintf(b, 24, "0x%016lxL", (unsigned long)n->v); o.tok(b, 19); return; } snprintf(b, 24, "0x%08lx", (unsigned long)n->v & 0xffffffff); o.tok(b, 10); }
#else
const char *opText(N *n) { return n->sym ? "" : binText[n->op]; }
const char *unOp(N *n) { return n->sym ? "?" : unText[n->op]; }
const char *boolText(long) { return ""; }
void hexTok(N *n) { if (n->t == &tyLong) o.tok("0x----------------L", 19); else o.tok("0x--------", 10); }
#endif
void ex(N *n); void st(N *n); void decl(N *n, bool top);
void callArgs(N *n, size_t from) { o.tok("("); for (size_t i = from; i < n->c.size(); i++) { if (i > from) o.tok(","); ex(n->c[i]); } o.tok(")"); }
void ex(N *n) {
  n->b = o.here();
  switch (n->k) {
  case EInt: if (n->sym) hexTok(n); else o.tok(num(n->v)); break;
  case EFloat: case EStr: o.tok(n->s); break;
  case EBool: { const char *s = n->sym ? boolText(n->v) : n->v ? "true" : "false"; o.tok(s, strlen(s), 5); break; }
  case ENullptr: o.tok("nullptr"); break;
  case ERef: o.tok(n->d->s); break;
  case ECall: n->p = o.tok(n->d->s); callArgs(n, 0); break;
  case EParen: o.tok("("); ex(n->c[0]); o.tok(")"); break;
  case EUn: if (!n->sym && n->op <= UO_PostDec) { ex(n->c[0]); n->p = o.tok(unText[n->op]); } else { n->p = o.tok(unOp(n)); ex(n->c[0]); } break;
  case EBin: ex(n->c[0]); { const char *s = opText(n); n->p = o.tok(s, strlen(s), 3); } ex(n->c[1]); break;
  case ECond: ex(n->c[0]); n->p = o.tok("?"); ex(n->c[1]); n->q = o.tok(":"); ex(n->c[2]); break;
  case ECast: o.tok("("); typeTok(n->t); n->p = o.tok(")"); ex(n->c[0]); break;
  case EMember: ex(n->c[0]); n->q = o.tok(n->op ? "->" : "."); n->p = o.tok(n->d->s); break;
  case EIndex: ex(n->c[0]); o.tok("["); ex(n->c[1]); o.tok("]"); break;
  case EThrow: n->p = o.tok("throw"); if (!n->c.empty()) ex(n->c[0]); break;
  case EDelete: n->p = o.tok("delete"); if (n->op) { o.tok("["); o.tok("]"); } ex(n->c[0]); break;
  case EThis: o.tok("this"); break;
  case ESelf: o.tok("self"); break;
  case EMsg: o.tok("["); if (n->d && n->d->k == DIface) n->q = o.tok(n->d->s); else ex(n->c[0]);
    if (n->c.size() <= 1) n->p = o.tok(n->s); else { for (size_t i = 1; i < n->c.size(); i++) { Pos x = o.tok(selPart(n->s, i - 1)); if (i == 1) n->p = x; ex(n->c[i]); } } o.tok("]"); break;
  default: sym_unmodelled("expression");
  }
  n->e = o.last;
}
void sub(N *n) { o.nl(n->k == SBlk ? 0 : 0); st(n); }
void comment(const std::string &c, int &tok) { if (c.empty()) return; Pos l = o.last; tok = (int)o.toks->pos.size(); o.tok(c); o.last = l; }
void note(N *n) { if (n->note.empty()) return; n->noteTok = (int)o.toks->pos.size(); o.tok("__attribute__((annotate(\"" + n->note + "\")))"); }
void attrs(N *n) { if (!n->attr.empty()) o.tok(n->attr); note(n); }
bool plain(N *n) { return n->attr.empty() && n->note.empty(); }
// type and name; a pointer to a function: void ( * name ) ( int parameter )
void named(N *n) { if (n->t->k == TFun) { o.tok("void"); o.tok("("); o.tok("*"); n->p = o.tok(n->s); o.tok(")"); o.tok("("); o.tok("int"); o.tok(n->t->rec->s); o.tok(")"); return; } typeTok(n->t); if (n->s.empty()) n->p = o.here(); else n->p = o.tok(n->s); }
void vardecl(N *n) { n->b = o.here(); if (n->flags & FStatic) o.tok("static"); if (n->flags & FExtern) o.tok("extern"); n->r = o.here(); named(n); attrs(n); if (!n->c.empty()) { o.tok("="); ex(n->c[0]); } n->e = plain(n) || !n->c.empty() ? o.last : n->p; }
void end(N *n) { n->e = o.last; }
void st1(N *n); void st(N *n) { st1(n); comment(n->trail, n->trailTok); }
void st1(N *n) {
  n->b = o.here();
  if (isExpr(n->k)) { ex(n); o.tok(";"); return; }
  switch (n->k) {
  case SNull: o.tok(";"); end(n); break;
  case SBlk: o.tok("{"); for (N *c : n->c) sub(c); o.nl(n->gap); o.tok("}"); end(n); break;
  case SIf: o.tok("if"); if (n->op) o.tok("constexpr"); o.tok("("); ex(n->c[0]); n->p = o.tok(")"); comment(n->head, n->headTok); sub(n->c[1]); if (n->c.size() > 2) { o.nl(); n->q = o.tok("else"); sub(n->c[2]); } n->e = n->c.back()->e; break;
  case SWhile: o.tok("while"); o.tok("("); ex(n->c[0]); n->p = o.tok(")"); sub(n->c[1]); n->e = n->c[1]->e; break;
  case SDo: o.tok("do"); sub(n->c[0]); o.nl(); n->p = o.tok("while"); o.tok("("); ex(n->c[1]); o.tok(")"); end(n); o.tok(";"); break;
  case SFor: o.tok("for"); o.tok("("); if (!n->c[0]) o.tok(";"); else if (n->c[0]->k == SDecl) st(n->c[0]); else { ex(n->c[0]); o.tok(";"); } if (n->c[1]) ex(n->c[1]); o.tok(";"); if (n->c[2]) ex(n->c[2]); o.tok(")"); sub(n->c[3]); n->e = n->c[3]->e; break;
  case SSwitch: o.tok("switch"); o.tok("("); ex(n->c[0]); o.tok(")"); sub(n->c[1]); n->e = n->c[1]->e; break;
  case SCase: o.tok("case"); ex(n->c[0]); n->p = o.tok(":"); sub(n->c[1]); n->e = n->c[1]->e; break;
  case SDefault: o.tok("default"); n->p = o.tok(":"); sub(n->c[0]); n->e = n->c[0]->e; break;
  case SLabel: o.tok(n->s); n->p = o.tok(":"); sub(n->c[0]); n->e = n->c[0]->e; break;
  case SGoto: o.tok("goto"); n->p = o.tok(n->s); end(n); o.tok(";"); break;
  case SBreak: o.tok("break"); end(n); o.tok(";"); break;
  case SContinue: o.tok("continue"); end(n); o.tok(";"); break;
  case SReturn: o.tok("return"); if (!n->c.empty()) ex(n->c[0]); end(n); o.tok(";"); break;
  case SDecl: if (n->c[0]->k != DVar) { decl(n->c[0], false); end(n); break; } for (size_t i = 0; i < n->c.size(); i++) { if (i) { o.tok(","); n->c[i]->b = n->c[0]->b; n->c[i]->p = o.tok(n->c[i]->s); if (!n->c[i]->c.empty()) { o.tok("="); ex(n->c[i]->c[0]); } n->c[i]->e = o.last; } else vardecl(n->c[0]); } o.tok(";"); end(n); break;
  case STry: o.tok("try"); sub(n->c[0]); for (size_t i = 1; i < n->c.size(); i++) sub(n->c[i]); n->e = n->c.back()->e; break;
  case SCatch: o.tok("catch"); o.tok("("); if (n->d) vardecl(n->d); else o.tok("..."); o.tok(")"); sub(n->c[0]); n->e = n->c[0]->e; break;
  case SAtTry: o.tok("@try"); sub(n->c[0]); for (size_t i = 1; i < n->c.size(); i++) sub(n->c[i]); n->e = n->c.back()->e; break;
  case SAtCatch: o.tok("@catch"); o.tok("("); o.tok("..."); n->p = o.tok(")"); sub(n->c[0]); n->e = n->c[0]->e; break;
  case SAtFinally: o.tok("@finally"); sub(n->c[0]); n->e = n->c[0]->e; break;
  case SAtThrow: o.tok("@throw"); if (!n->c.empty()) ex(n->c[0]); end(n); o.tok(";"); break;
  case SSync: o.tok("@synchronized"); o.tok("("); ex(n->c[0]); o.tok(")"); sub(n->c[1]); n->e = n->c[1]->e; break;
  case SPool: o.tok("@autoreleasepool"); sub(n->c[0]); n->e = n->c[0]->e; break;
  case SForIn: { o.tok("for"); o.tok("("); N *dn = n->c[0]; dn->b = o.here(); vardecl(dn->c[0]); dn->e = o.last; o.tok("in"); ex(n->c[1]); n->p = o.tok(")"); sub(n->c[2]); n->e = n->c[2]->e; break; }
  default: sym_unmodelled("statement");
  }
}
void parm(N *n) { n->b = o.here(); named(n); attrs(n); if (!n->c.empty()) { o.tok("="); ex(n->c[0]); } n->e = plain(n) || !n->c.empty() ? o.last : n->p; }
void fnTail(N *n) {
  n->q = o.tok("("); for (size_t i = 0; i < n->parms.size(); i++) { if (i) o.tok(","); parm(n->parms[i]); } if (n->parms.empty() && gLang != CXX && !(n->flags & FNoProto)) o.tok("void"); n->r = o.tok(")"); n->e = o.last;
  if (n->flags & FConst) n->e = o.tok("const"); if (n->flags & FOverride) o.tok("override"); if (n->flags & FPure) { o.tok("="); n->e = o.tok("0"); }
  attrs(n); comment(n->head, n->headTok);
  if (n->body) { o.nl(); st(n->body); n->e = n->body->e; } else o.tok(";"); }
void adopted(N *n) { if (n->adopt.empty()) return; o.tok("<"); for (size_t i = 0; i < n->adopt.size(); i++) { if (i) o.tok(","); o.tok(n->adopt[i]->s); } o.tok(">"); }
void decl(N *n, bool) {
  if (n->flags & FTemplate) { o.tok("template"); o.tok("<"); o.tok("typename"); o.tok("Tttt"); o.tok(">"); }
  n->b = o.here();
  switch (n->k) {
  case DVar: vardecl(n); o.tok(";"); break;
  case DFn: if (n->flags & FStatic) o.tok("static"); if (n->flags & FInline) o.tok("inline"); if (n->flags & FVirtual) o.tok("virtual");
    if (n->flags & FDtor) { n->p = o.tok("~"); o.tok(n->s); } else if (n->flags & FCtor) n->p = o.tok(n->s); else { typeTok(n->t); n->p = o.tok(n->s); } fnTail(n); break;
  case DRaw: if (!n->s.empty()) o.tok(n->s); break;
  case DProp: o.tok("@property"); o.tok("("); o.tok("nonatomic"); o.tok(")"); typeTok(n->t); n->p = o.tok(n->s); n->e = n->p; note(n); o.tok(";"); break;
  case DField: typeTok(n->t); n->p = o.tok(n->s); n->e = n->p; note(n); o.tok(";"); break;
  case DAccess: o.tok(n->s); end(n); n->e = o.tok(":"); break;
  case DRec: o.tok(n->flags & FUnion ? "union" : n->flags & FClass ? "class" : "struct"); note(n); n->p = o.tok(n->s); if (!n->attr.empty()) o.tok(n->attr); if (n->d) { o.tok(":"); o.tok(n->v ? "virtual" : "public"); o.tok(n->d->s); } for (size_t i = 0; i < n->adopt.size(); i++) { o.tok(i || n->d ? "," : ":"); if (*n->how[i]) o.tok(n->how[i]); o.tok(n->adopt[i]->s); }
    if (!(n->flags & FProtoOnly)) { n->q = o.tok("{"); for (N *c : n->c) { o.nl(); decl(c, false); } o.nl(n->gap); o.tok("}"); end(n); } else n->e = n->p; o.tok(";"); break;
  case DEnum: o.tok("enum"); n->p = o.tok(n->s); n->q = o.tok("{"); for (size_t i = 0; i < n->c.size(); i++) { if (i) o.tok(","); N *c = n->c[i]; c->b = c->e = c->p = o.tok(c->s); } o.tok("}"); end(n); o.tok(";"); break;
  case DNamespace: o.tok("namespace"); note(n); n->p = o.tok(n->s); o.tok("{"); for (N *c : n->c) { o.nl(); decl(c, true); } o.nl(); o.tok("}"); end(n); break;
  case DIface: if (n->flags & FProtoOnly) { o.tok("@class"); n->p = o.tok(n->s); end(n); o.tok(";"); break; } if (!n->note.empty()) { note(n); n->b = o.here(); } o.tok("@interface"); n->p = o.tok(n->s); if (n->d) { o.tok(":"); o.tok(n->d->s); } adopted(n); if (!n->parms.empty()) { o.tok("{"); for (N *c : n->parms) { o.nl(); decl(c, false); } o.nl(); o.tok("}"); } for (N *c : n->c) { o.nl(); decl(c, false); } o.nl(n->gap); o.tok("@end"); end(n); n->e.c++; break;
  case DProto: o.tok("@protocol"); n->p = o.tok(n->s); adopted(n); for (N *c : n->c) { o.nl(); decl(c, false); } o.nl(n->gap); o.tok("@end"); end(n); n->e.c++; break;
  case DCat: o.tok("@interface"); n->p = o.tok(n->d->s); o.tok("("); if (!n->s.empty()) n->q = o.tok(n->s); o.tok(")"); adopted(n); if (!n->parms.empty()) { o.tok("{"); for (N *c : n->parms) { o.nl(); decl(c, false); } o.nl(); o.tok("}"); } for (N *c : n->c) { o.nl(); decl(c, false); } o.nl(n->gap); o.tok("@end"); end(n); n->e.c++; break;
  case DComment: n->p = o.tok("/*"); n->v = (long)o.toks->pos.size(); o.tok(n->s); o.tok("*/"); end(n); break;
  case DCatImpl: o.tok("@implementation"); n->p = o.tok(n->d->s); o.tok("("); n->q = o.tok(n->s); o.tok(")"); for (N *c : n->c) { o.nl(); decl(c, false); } o.nl(n->gap); o.tok("@end"); end(n); break;
  case DImpl: o.tok("@implementation"); n->p = o.tok(n->d->s); if (!n->parms.empty()) { o.tok("{"); for (N *c : n->parms) { o.nl(); decl(c, false); } o.nl(); o.tok("}"); } for (N *c : n->c) { o.nl(); decl(c, false); } o.nl(n->gap); o.tok("@end"); end(n); break;
  case DMeth: { o.tok(n->flags & FStatic ? "+" : "-"); o.tok("("); typeTok(n->t); o.tok(")"); n->p = o.here(); if (!n->attr.empty()) o.tok(n->attr);
    size_t np = 0; if (n->parms.empty()) o.tok(n->s); else for (N *pn : n->parms) { o.tok(selPart(n->s, np++)); o.tok("("); pn->b = o.here(); typeTok(pn->t); o.tok(")"); if (!pn->attr.empty()) o.tok(pn->attr); note(pn); pn->p = o.tok(pn->s); pn->e = o.last; }
    n->e = o.last; note(n); if (n->body) { o.nl(); st(n->body); n->e = n->body->e; } else n->e = o.tok(";"); break; }
  default: sym_unmodelled("declaration");
  }
}
void tie(N *n, N *up) { n->up = up; n->idx = gNodes++; for (N *x : n->c) if (x) tie(x, n); for (N *x : n->parms) tie(x, n); if (n->body) tie(n->body, n); if (n->k == SCatch && n->d) tie(n->d, n); }
}
int gLineOf(int file, int tok) { return gToks[file].pos[tok].l; }
void layout(Program &p) {
  gNodes = 0; o = Out(); o.toks = &gToks[1]; *o.toks = Toks(); bool first = true;
  for (N *d : p.header) { if (!first) o.nl(); first = false; tie(d, nullptr); decl(d, true); } o.nl(); p.htext = o.text;
  o = Out(); o.toks = &gToks[0]; *o.toks = Toks(); first = true; if (!p.header.empty()) { o.tok("#include \"input.h\""); o.nl(); }
  for (N *d : p.decls) { if (!first) o.nl(); first = false; tie(d, nullptr); decl(d, true); } if (!p.noeol) o.nl(); p.text = o.text; p.lengths = o.lengths; }
struct Root { ASTContext *ctx; unsigned start[2], size[2]; unsigned ntok[2]; unsigned *off[2]; unsigned nodes; void **node; char *text; unsigned nnotes; unsigned *noteOf; char **notes; };
static Root *gRoot;

// ---------------------------------------------------------------- rules and violations
RuleBase *ruleNamed(const char *name) { for (int i = 0; i < RuleSet::numberOfRules(); i++) if (RuleSet::getRuleAtIndex(i)->name() == name) return RuleSet::getRuleAtIndex(i); sym_assert(false, "the rule is registered"); sym_end_path(); return nullptr; }
static uint64_t gShape;
uint64_t shapeOf(World &w, Program &p);
static std::vector<Violation> runOnce(RuleBase *r, World &w) { ViolationSet s; RuleCarrier c(w.ctx, &s); r->takeoff(&c); return s.getViolations(); }
// one program in eight (by its shape) is given to the rule twice: it must not remember anything of the first time
static bool gTwice; static void twice(Program &p) { unsigned h = 1; std::vector<N *> v; for (N *d : p.decls) v.push_back(d); for (size_t i = 0; i < v.size(); i++) { N *n = v[i]; h = h * 31 + (unsigned)n->k * 7 + (unsigned)n->c.size(); for (N *x : n->c) if (x) v.push_back(x); for (N *x : n->parms) v.push_back(x); if (n->body) v.push_back(n->body); } h ^= h >> 15; h *= 2654435761u; gTwice = (h >> 20) % 8 == 0; }
std::vector<Violation> runRule(RuleBase *r, World &w) {
  std::vector<Violation> a = runOnce(r, w); if (!gTwice) return a; std::vector<Violation> b = runOnce(r, w); sym_assert(a.size() == b.size(), "the same is found in the same program again"); if (a.size() != b.size()) return a;
  for (size_t i = 0; i < a.size(); i++) { const Violation &x = a[i], &y = b[i]; bool same = sym_and(sym_and(x.startLine == y.startLine, x.startColumn == y.startColumn), sym_and(x.endLine == y.endLine, x.endColumn == y.endColumn)); sym_assert(sym_and(same, sym_eq(x.message, y.message)), "the same is found in the same program again"); } return a; }
static void at(Pos p, int &l, int &c) { l = p.l; c = p.c; }
void compare(const std::vector<Violation> &got, const Wants &want, RuleBase *r, const char *label) {
  sym_observe("reported", got.size());
  sym_assert(got.size() == want.w.size(), label); if (got.size() != want.w.size()) { for (auto &v : got) { sym_print("got line", v.startLine); sym_print("got column", v.startColumn); } for (auto &x : want.w) { sym_print("want line", x.pos ? x.b.l : x.n->b.l); sym_print("want column", x.pos ? x.b.c : x.n->b.c); } }
  std::vector<bool> used(got.size());
  for (auto &x : want.w) {
    Pos b = x.pos ? x.b : x.n->b, e = x.pos ? x.e : x.n->e; bool found = false;
    for (size_t i = 0; i < got.size() && !found; i++) if (!used[i]) {
      const Violation &v = got[i]; bool same = sym_and(sym_and(v.startLine == b.l, v.startColumn == b.c), sym_and(v.endLine == e.l, v.endColumn == e.c)); if (!x.any) same = sym_and(same, sym_eq(v.message, x.msg));
      if (sym_concretize(same)) { used[i] = true; found = true; sym_assert(v.rule == r, "the violation names the rule that found it"); sym_assert(v.path == fileName(), "the violation names the file"); sym_observe("line", v.startLine); sym_observe("column", v.startColumn); } }
    if (!found) for (size_t i = 0; i < got.size(); i++) if (!used[i]) { sym_print("got line", got[i].startLine); sym_print("got column", got[i].startColumn); sym_print("got end line", got[i].endLine); sym_print("got end column", got[i].endColumn); sym_print("want line", b.l); sym_print("want column", b.c); sym_print("want end line", e.l); sym_print("want end column", e.c); sym_note(got[i].message.data(), got[i].message.size()); sym_note(x.msg.data(), x.msg.size()); }
    sym_assert(found, label);
  }
}
static uint64_t mix(uint64_t h, uint64_t v) { return (h * 1000003) ^ v; }
static uint64_t shape(Stmt *s, SourceManager &sm) {
  if (!s) return 7; uint64_t h = s->getStmtClass(); h = mix(h, sm.getPresumedLineNumber(s->getBeginLoc())); h = mix(h, sm.getPresumedColumnNumber(s->getBeginLoc())); h = mix(h, sm.getPresumedLineNumber(s->getEndLoc())); h = mix(h, sm.getPresumedColumnNumber(s->getEndLoc()));
  for (Stmt *c : s->children()) h = mix(h, shape(c, sm)); return h; }
uint64_t shapeOf(World &w, Program &p) { uint64_t h = 1; for (N *d : p.decls) if (d->k == DFn && d->body) h = mix(h, shape(bodyOf(d), w.ctx->getSourceManager())); return h; }

#ifdef SYM_NATIVE
// ---------------------------------------------------------------- the real parser
#include <clang/Frontend/ASTUnit.h>
#include <clang/Tooling/Tooling.h>
#include <clang/AST/Attr.h>
#include <cstdio>
static std::unique_ptr<ASTUnit> gUnit;
// the clang nodes of the program's nodes
struct Finder {
  std::vector<N *> want, noted; std::vector<std::pair<unsigned, char *>> notes; Root *r; SourceManager &sm; std::map<std::pair<int, int>, std::vector<N *>> at;
  static void all(N *n, std::vector<N *> &v) { v.push_back(n); for (N *x : n->c) if (x) all(x, v); for (N *x : n->parms) all(x, v); if (n->body) all(n->body, v); if (n->k == SCatch && n->d) all(n->d, v); }
  static const Pos &key(N *n) { return n->k == EBin || n->k == EUn || (n->k >= DVar && n->k != DMeth) || n->k == ECall || n->k == ECond || n->k == EMember ? n->p : n->b; }
  void index(std::vector<N *> &ds) { std::vector<N *> v; for (N *d : ds) all(d, v); for (N *n : v) { at[{key(n).l, key(n).c}].push_back(n); if (n->noteTok >= 0) noted.push_back(n); } }
  static bool fits(N *n, Stmt *s) { auto c = s->getStmtClass(); switch (n->k) {
    case EInt: return c == Stmt::IntegerLiteralClass; case EBool: return c == Stmt::CXXBoolLiteralExprClass; case EBin: return c == Stmt::BinaryOperatorClass || c == Stmt::CompoundAssignOperatorClass; case EUn: return c == Stmt::UnaryOperatorClass; case ERef: return c == Stmt::DeclRefExprClass; case EParen: return c == Stmt::ParenExprClass; case ECall: return c == Stmt::CallExprClass; case ECond: return c == Stmt::ConditionalOperatorClass;
    case SBlk: return c == Stmt::CompoundStmtClass; case SIf: return c == Stmt::IfStmtClass; case SWhile: return c == Stmt::WhileStmtClass; case SDo: return c == Stmt::DoStmtClass; case SFor: return c == Stmt::ForStmtClass; case SSwitch: return c == Stmt::SwitchStmtClass; case SCase: return c == Stmt::CaseStmtClass; case SDefault: return c == Stmt::DefaultStmtClass; case SReturn: return c == Stmt::ReturnStmtClass; case SDecl: return c == Stmt::DeclStmtClass; case EFloat: return c == Stmt::FloatingLiteralClass;
    default: return false; } }
  SourceLocation loc(Stmt *s) { if (auto *b = dyn_cast<BinaryOperator>(s)) return b->getOperatorLoc(); if (auto *u = dyn_cast<UnaryOperator>(s)) return u->getOperatorLoc(); if (auto *c = dyn_cast<ConditionalOperator>(s)) return c->getQuestionLoc(); return s->getBeginLoc(); }
  void stmt(Stmt *s) { if (!s) return; auto l = loc(s); if (l.isValid() && sm.isInMainFile(l)) { auto it = at.find({(int)sm.getPresumedLineNumber(l), (int)sm.getPresumedColumnNumber(l)}); if (it != at.end()) for (N *n : it->second) if (fits(n, s) && !r->node[n->idx]) { r->node[n->idx] = s; break; } }
    if (auto *d = dyn_cast<DeclStmt>(s)) for (auto *x : d->decls()) decl(x); for (Stmt *c : s->children()) stmt(c); }
  void decl(clang::Decl *d) { for (auto *a : d->specific_attrs<AnnotateAttr>()) if (sm.isInMainFile(a->getLocation())) { unsigned o = sm.getFileOffset(a->getLocation()); for (N *n : noted) if (r->off[0][n->noteTok] + 15 == o) notes.push_back({(unsigned)n->idx, (char *)a->getAnnotation().data()}); }
    auto l = d->getLocation(); if (!d->isImplicit() && l.isValid() && sm.isInMainFile(l)) { auto it = at.find({(int)sm.getPresumedLineNumber(l), (int)sm.getPresumedColumnNumber(l)}); if (it != at.end()) for (N *n : it->second) if (n->k >= DVar && !r->node[n->idx]) { r->node[n->idx] = d; break; } }
    if (auto *c = dyn_cast<DeclContext>(d)) for (auto *x : c->decls()) decl(x); if (auto *f = dyn_cast<FunctionDecl>(d)) for (auto *p : f->parameters()) decl(p); if (auto *m = dyn_cast<ObjCMethodDecl>(d)) for (auto *p : m->parameters()) decl(p); 
    if (auto *v = dyn_cast<VarDecl>(d)) { if (!isa<ParmVarDecl>(v)) stmt(v->getInit()); } else if (d->hasBody() && !isa<BlockDecl>(d)) { if (auto *f = dyn_cast<FunctionDecl>(d)) { if (f->isThisDeclarationADefinition()) stmt(f->getBody()); } else stmt(d->getBody()); } }
};
static void *allocate(size_t n) { return calloc(1, n); }
World make(Program &p) {
  twice(p);
  layout(p);
  std::vector<std::string> a = {"-fsyntax-only", "-w", "-nostdinc", "-Qunused-arguments"};
  if (gLang == C) a.push_back(gOld ? "-std=c89" : "-std=c11"); else if (gCuda) { a.push_back("-nocudainc"); a.push_back("-nocudalib"); a.push_back("--cuda-host-only"); a.push_back("--no-cuda-version-check"); a.push_back("-fexceptions"); } else if (gLang == CXX) { a.push_back("-std=c++17"); a.push_back("-fcxx-exceptions"); a.push_back("-fexceptions"); } else { a.push_back("-fobjc-exceptions"); a.push_back("-fblocks"); a.push_back(gObjCxx ? "-std=c++17" : "-std=c11"); }
  if (getenv("SYM_TEXT")) printf("%s\n----\n%s\n", p.htext.c_str(), p.text.c_str());
  tooling::FileContentMappings fm; if (!p.header.empty()) fm.push_back({"input.h", p.htext});
  gUnit = tooling::buildASTFromCodeWithArgs(p.text, a, fileName(), "clang-tool", std::make_shared<PCHContainerOperations>(), tooling::getClangStripDependencyFileAdjuster(), fm);
  if (!gUnit || gUnit->getDiagnostics().hasErrorOccurred()) { printf("UNPARSED\n%s\n", p.text.c_str()); fflush(stdout); _exit(2); }
  World w{&gUnit->getASTContext()}; auto &sm = w.ctx->getSourceManager();
  if (getenv("SYM_TEXT")) w.ctx->getTranslationUnitDecl()->dump();
  Root *r = gRoot = (Root *)allocate(sizeof(Root)); r->ctx = w.ctx; FileID id[2] = {sm.getMainFileID(), FileID()};
  for (unsigned i = 0; i < 2; i++) { r->ntok[i] = gToks[i].off.size(); r->off[i] = (unsigned *)allocate(4 * r->ntok[i] + 4); for (unsigned k = 0; k < r->ntok[i]; k++) r->off[i][k] = gToks[i].off[k]; }
  r->start[0] = sm.getLocForStartOfFile(id[0]).getRawEncoding(); r->size[0] = p.text.size();
  for (unsigned i = 0; i < sm.local_sloc_entry_size() && !p.header.empty(); i++) { auto &e = sm.getLocalSLocEntry(i); if (e.isFile()) { auto f = sm.getFileEntryRefForID(sm.getFileID(SourceLocation::getFromRawEncoding(e.getOffset()))); if (f && f->getName().ends_with("input.h")) { r->start[1] = e.getOffset(); r->size[1] = p.htext.size(); } } }
  r->text = (char *)sm.getBufferData(id[0]).data(); r->nodes = gNodes; r->node = (void **)allocate(8 * gNodes + 8);
  Finder f{{}, {}, {}, r, sm, {}}; f.index(p.decls); f.decl(w.ctx->getTranslationUnitDecl());
  r->nnotes = f.notes.size(); r->noteOf = (unsigned *)allocate(4 * f.notes.size() + 4); r->notes = (char **)allocate(8 * f.notes.size() + 8); for (size_t i = 0; i < f.notes.size(); i++) { r->noteOf[i] = f.notes[i].first; r->notes[i] = f.notes[i].second; }
  // stay independent of what the tables were made from
  sym_image(r);
  sym_observe("ast", shapeOf(w, p));
  return w;
}
#else
// ---------------------------------------------------------------- the parser's memory, with the symbolic parts put in
static bool place(unsigned raw, int &l, int &c) {
  for (int i = 0; i < 2; i++) { unsigned o = raw - gRoot->start[i]; if (!gRoot->start[i] || o > gRoot->size[i]) continue; unsigned lo = 0, hi = gRoot->ntok[i]; unsigned *t = gRoot->off[i]; if (!hi) continue;
    while (hi - lo > 1) { unsigned m = (lo + hi) / 2; if (t[m] <= o) lo = m; else hi = m; } l = gToks[i].pos[lo].l; c = gToks[i].pos[lo].c + (int)(o - t[lo]); return true; }
  return false; }
unsigned SourceManager::getPresumedLineNumber(SourceLocation s, bool *bad) const { int l = 0, c = 0; if (bad) *bad = s.isInvalid(); if (s.isInvalid()) return 0; if (s.isMacroID()) s = getExpansionLoc(s); if (!place(s.getRawEncoding(), l, c)) sym_unmodelled("line of a location"); return l; }
unsigned SourceManager::getPresumedColumnNumber(SourceLocation s, bool *bad) const { int l = 0, c = 0; if (bad) *bad = s.isInvalid(); if (s.isInvalid()) return 0; if (s.isMacroID()) s = getExpansionLoc(s); if (!place(s.getRawEncoding(), l, c)) sym_unmodelled("column of a location"); return c; }
// the other ways to ask for a line or a column (no #line directives, no macros at the places of interest)
PresumedLoc SourceManager::getPresumedLoc(SourceLocation s, bool) const { if (s.isInvalid()) return PresumedLoc(); if (s.isMacroID()) s = getExpansionLoc(s); unsigned l = getPresumedLineNumber(s), c = getPresumedColumnNumber(s); return PresumedLoc(getFilename(s).data(), getFileID(s), l, c, SourceLocation()); }
unsigned SourceManager::getExpansionLineNumber(SourceLocation s, bool *bad) const { return getPresumedLineNumber(s, bad); }
unsigned SourceManager::getExpansionColumnNumber(SourceLocation s, bool *bad) const { return getPresumedColumnNumber(s, bad); }
unsigned SourceManager::getSpellingLineNumber(SourceLocation s, bool *bad) const { if (s.isMacroID()) s = getSpellingLoc(s); return getPresumedLineNumber(s, bad); }
unsigned SourceManager::getSpellingColumnNumber(SourceLocation s, bool *bad) const { if (s.isMacroID()) s = getSpellingLoc(s); return getPresumedColumnNumber(s, bad); }
unsigned SourceManager::getLineNumber(FileID f, unsigned o, bool *bad) const { return getPresumedLineNumber(getComposedLoc(f, o), bad); }
unsigned SourceManager::getColumnNumber(FileID f, unsigned o, bool *bad) const { return getPresumedColumnNumber(getComposedLoc(f, o), bad); }
unsigned FullSourceLoc::getExpansionLineNumber(bool *bad) const { return SrcMgr->getExpansionLineNumber(*this, bad); }
unsigned FullSourceLoc::getExpansionColumnNumber(bool *bad) const { return SrcMgr->getExpansionColumnNumber(*this, bad); }
unsigned FullSourceLoc::getSpellingLineNumber(bool *bad) const { return SrcMgr->getSpellingLineNumber(*this, bad); }
unsigned FullSourceLoc::getSpellingColumnNumber(bool *bad) const { return SrcMgr->getSpellingColumnNumber(*this, bad); }
unsigned FullSourceLoc::getLineNumber(bool *bad) const { return SrcMgr->getSpellingLineNumber(*this, bad); }
unsigned FullSourceLoc::getColumnNumber(bool *bad) const { return SrcMgr->getSpellingColumnNumber(*this, bad); }
static void text(const std::string &s, int tok) { if (tok >= 0) memcpy(gRoot->text + gRoot->off[0][tok], s.data(), s.size()); }
static void poke(N *n) {
  text(n->trail, n->trailTok); text(n->head, n->headTok); if (n->noteTok >= 0) for (unsigned i = 0; i < gRoot->nnotes; i++) if (gRoot->noteOf[i] == (unsigned)n->idx) memcpy(gRoot->notes[i], n->note.data(), n->note.size());
  void *x = gRoot->node[n->idx];
  if (n->k == DComment) { memcpy(gRoot->text + gRoot->off[0][n->v], n->s.data(), n->s.size()); return; }
  if (n->sym) { if (!x) sym_unmodelled("a symbolic node has no counterpart in the parsed program");
    if (n->k == EBin) ((BinaryOperator *)x)->BinaryOperatorBits.Opc = n->op; else if (n->k == EUn) ((UnaryOperator *)x)->UnaryOperatorBits.Opc = n->op;
    else if (n->k == EInt) ((IntegerLiteral *)x)->VAL = (uint64_t)n->v; else if (n->k == EBool) ((CXXBoolLiteralExpr *)x)->CXXBoolLiteralExprBits.Value = n->v;
    else if (n->k == DMeth) { auto *ii = ((ObjCMethodDecl *)x)->getSelector().getIdentifierInfoForSlot(0); size_t l = n->s.size(); if (l && n->s[l - 1] == ':') l--; memcpy((char *)ii->getNameStart(), n->s.data(), l); }
    else if (n->k >= DVar) { auto *ii = ((NamedDecl *)x)->getIdentifier(); memcpy((char *)ii->getNameStart(), n->s.data(), n->s.size()); }
    else sym_unmodelled("symbolic node"); }
  for (N *c : n->c) if (c) poke(c); for (N *c : n->parms) poke(c); if (n->body) poke(n->body); if (n->k == SCatch && n->d) poke(n->d); }
World make(Program &p) { twice(p); layout(p); gRoot = (Root *)sym_image(nullptr); for (N *d : p.decls) poke(d); World w{gRoot->ctx}; sym_observe("ast", shapeOf(w, p)); return w; }
#endif
clang::Decl *declOf(N *n) { return (clang::Decl *)gRoot->node[n->idx]; }
Stmt *stmtOf(N *n) { return (Stmt *)gRoot->node[n->idx]; }
Stmt *bodyOf(N *fn) { return fn->body ? stmtOf(fn->body) : nullptr; }
// called natively by models of the parser's functions
#ifdef SYM_NATIVE
extern "C" const char *clangsym_typename(void *t) { return strdup(clang::QualType::getFromOpaquePtr(t).getAsString().c_str()); }
extern "C" const void *clangsym_overridden(const clang::ObjCMethodDecl *m, unsigned i) { llvm::SmallVector<const clang::ObjCMethodDecl *, 4> v; m->getOverriddenMethods(v); return i < v.size() ? v[i] : nullptr; }
extern "C" int clangsym_folds(const clang::Expr *e) { bool b; return e->EvaluateAsBooleanCondition(b, *gRoot->ctx); }
extern "C" long clangsym_folded(const clang::Expr *e) { clang::Expr::EvalResult r; if (e->getType()->isIntegralOrEnumerationType() && e->EvaluateAsInt(r, *gRoot->ctx)) return r.Val.getInt().getExtValue(); bool b = false; e->EvaluateAsBooleanCondition(b, *gRoot->ctx); return b; }
extern "C" uint64_t clangsym_double(const clang::FloatingLiteral *f) { double d = f->getValueAsApproximateDouble(); uint64_t r; memcpy(&r, &d, 8); return r; }
#endif
