// Models of out-of-line clang functions whose result depends on parts of the program that are symbolic.
#include <clang/AST/AST.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/ExprCXX.h>
#include "../harness/sym.h"
using namespace clang;

extern "C" int clangsym_folds(const clang::Expr *e); extern "C" long clangsym_folded(const clang::Expr *e);
// Constant folding over integers: literals, + - * / %, + - ~ !, comparisons, & ^ |, && ||, ?:, parentheses, conversions between integers.
namespace {
struct K { bool ok; long v; };
// constants that are never symbolic: the real evaluator says
bool leaf(const Expr *e) { while (auto *p = dyn_cast<ParenExpr>(e)) e = p->getSubExpr(); return isa<CharacterLiteral>(e) || isa<FloatingLiteral>(e) || isa<StringLiteral>(e) || isa<UnaryExprOrTypeTraitExpr>(e) || isa<CXXNullPtrLiteralExpr>(e) || isa<DeclRefExpr>(e); }
K real(const Expr *e) { if (!clangsym_folds(e)) return {false, 0}; return {true, clangsym_folded(e)}; }
K fold(const Expr *e) {
  if (leaf(e)) return real(e);
  if (auto *x = dyn_cast<ParenExpr>(e)) return fold(x->getSubExpr());
  if (auto *x = dyn_cast<IntegerLiteral>(e)) return {true, (long)(int)x->getValue().getZExtValue()};
  if (auto *x = dyn_cast<CXXBoolLiteralExpr>(e)) return {true, (long)x->getValue()};
  if (auto *x = dyn_cast<CastExpr>(e)) {
    switch (x->getCastKind()) {
    case CK_IntegralToBoolean: { K k = fold(x->getSubExpr()); k.v = k.v != 0; return k; }
    case CK_IntegralCast: { K k = fold(x->getSubExpr()); if (x->getType()->isCharType()) k.v = (long)(signed char)k.v; else if (x->getType()->isBooleanType()) k.v = k.v != 0; return k; }
    case CK_NoOp: return fold(x->getSubExpr());
    default: if (auto *c = dyn_cast<CastExpr>(x->getSubExpr())) if (leaf(c->getSubExpr())) return real(x); return leaf(x->getSubExpr()) ? real(x) : K{false, 0}; } }
  if (auto *x = dyn_cast<UnaryOperator>(e)) {
    unsigned op = x->getOpcode(); if (sym_or(op < UO_Plus, op > UO_LNot)) return {false, 0};
    K k = fold(x->getSubExpr()); k.v = (long)sym_ite(op == UO_LNot, k.v == 0, sym_ite(op == UO_Not, ~k.v, sym_ite(op == UO_Minus, -k.v, k.v))); return k; }
  if (auto *x = dyn_cast<BinaryOperator>(e)) {
    unsigned op = x->getOpcode(); bool isAnd = op == BO_LAnd, isOr = op == BO_LOr; K a = fold(x->getLHS()), b = fold(x->getRHS());
    if (sym_and(a.ok, b.ok) && sym_concretize(sym_not(sym_or(sym_and(op >= BO_LT, op <= BO_NE), sym_or(sym_and(op >= BO_And, op <= BO_Or), sym_or(isAnd, isOr)))))) {
      op = sym_concretize(op); if (op < BO_Mul || op > BO_Sub) sym_unmodelled("constant folding of an operator"); K k{true, 0}; if ((op == BO_Div || op == BO_Rem) && sym_concretize(b.v == 0)) return {false, 0};
      switch (op) { case BO_Mul: k.v = a.v * b.v; break; case BO_Div: k.v = (int)a.v / (int)b.v; break; case BO_Rem: k.v = (int)a.v % (int)b.v; break; case BO_Add: k.v = a.v + b.v; break; default: k.v = a.v - b.v; } if (sym_concretize(sym_or(k.v > 0x7fffffff, k.v < -0x7fffffffl - 1))) sym_unmodelled("overflow in constant folding"); return k; }
    bool l = a.v != 0, r = b.v != 0, both = sym_and(a.ok, b.ok);
    bool okAnd = sym_or(sym_and(a.ok, sym_or(sym_not(l), b.ok)), sym_and(b.ok, sym_not(r))), okOr = sym_or(sym_and(a.ok, sym_or(l, b.ok)), sym_and(b.ok, r));
    bool vAnd = sym_and(sym_and(a.ok, l), sym_and(b.ok, r)), vOr = sym_or(sym_and(a.ok, l), sym_and(b.ok, r));
    long v = sym_ite(op == BO_LT, a.v < b.v, sym_ite(op == BO_GT, a.v > b.v, sym_ite(op == BO_LE, a.v <= b.v, sym_ite(op == BO_GE, a.v >= b.v, sym_ite(op == BO_EQ, a.v == b.v, sym_ite(op == BO_NE, a.v != b.v, sym_ite(op == BO_And, a.v & b.v, sym_ite(op == BO_Xor, a.v ^ b.v, a.v | b.v))))))));
    return {(bool)sym_ite(isAnd, okAnd, sym_ite(isOr, okOr, both)), (long)sym_ite(isAnd, vAnd, sym_ite(isOr, vOr, v))}; }
  if (auto *x = dyn_cast<ConditionalOperator>(e)) { K c = fold(x->getCond()), a = fold(x->getTrueExpr()), b = fold(x->getFalseExpr()); bool t = c.v != 0; return {sym_and(c.ok, sym_ite(t, a.ok, b.ok)), (long)sym_ite(t, a.v, b.v)}; }
  return {false, 0};
}
}
bool Expr::EvaluateAsBooleanCondition(bool &r, const ASTContext &, bool) const { K k = fold(this); if (!k.ok) return false; r = k.v != 0; return true; }

// Names.
std::string DeclarationName::getAsString() const {
  if (!isIdentifier()) { if (getNameKind() == ObjCZeroArgSelector || getNameKind() == ObjCOneArgSelector || getNameKind() == ObjCMultiArgSelector) return getObjCSelector().getAsString();
    if (getNameKind() == CXXConstructorName || getNameKind() == CXXDestructorName) { std::string s = getNameKind() == CXXDestructorName ? "~" : ""; auto *r = getCXXNameType()->getAs<RecordType>(); if (!r) sym_unmodelled("name of a constructor"); return s + r->getDecl()->getName().str(); }
    sym_unmodelled("name of a special function"); }
  IdentifierInfo *i = getAsIdentifierInfo(); return i ? std::string(i->getNameStart(), i->getLength()) : std::string(); }
std::string Selector::getAsString() const {
  if (isNull()) return "<null selector>"; unsigned n = getNumArgs(); std::string r;
  for (unsigned i = 0; i < (n ? n : 1); i++) { StringRef s = getNameForSlot(i); r += std::string(s.data(), s.size()); if (n) r += ':'; } return r; }
// Structural identity of expressions: what two profiles compare equal for.
static void profile(const Stmt *s, llvm::FoldingSetNodeID &id) {
  if (!s) { id.AddInteger(0u); return; } id.AddInteger((unsigned)s->getStmtClass());
  if (auto *x = dyn_cast<BinaryOperator>(s)) id.AddInteger((unsigned)x->getOpcode());
  else if (auto *x = dyn_cast<UnaryOperator>(s)) id.AddInteger((unsigned)x->getOpcode());
  else if (auto *x = dyn_cast<IntegerLiteral>(s)) { id.AddInteger((unsigned)x->getValue().getZExtValue()); id.AddPointer(x->getType().getAsOpaquePtr()); }
  else if (auto *x = dyn_cast<CXXBoolLiteralExpr>(s)) id.AddInteger((unsigned)x->getValue());
  else if (auto *x = dyn_cast<DeclRefExpr>(s)) id.AddPointer(x->getDecl()->getCanonicalDecl());
  else if (auto *x = dyn_cast<MemberExpr>(s)) { id.AddPointer(x->getMemberDecl()->getCanonicalDecl()); id.AddInteger((unsigned)x->isArrow()); }
  else if (auto *x = dyn_cast<ObjCIvarRefExpr>(s)) { id.AddPointer(x->getDecl()); id.AddInteger((unsigned)x->isArrow()); }
  else if (auto *x = dyn_cast<CStyleCastExpr>(s)) id.AddPointer(x->getTypeAsWritten().getCanonicalType().getAsOpaquePtr());
  else if (!isa<CastExpr>(s) && !isa<ParenExpr>(s) && !isa<ArraySubscriptExpr>(s) && !isa<CallExpr>(s) && !isa<CXXThisExpr>(s) && !isa<ConditionalOperator>(s)) sym_unmodelled("structural identity of an expression");
  for (const Stmt *c : s->children()) profile(c, id); }
void Stmt::Profile(llvm::FoldingSetNodeID &id, const ASTContext &, bool, bool) const { profile(this, id); }
namespace llvm { bool FoldingSetNodeID::operator==(const FoldingSetNodeID &o) const { if (Bits.size() != o.Bits.size()) return false; bool same = true; for (size_t i = 0; i < Bits.size(); i++) same = sym_and(same, Bits[i] == o.Bits[i]); return same; } }

// ---- numbers of the parser's memory
extern "C" uint64_t clangsym_double(const clang::FloatingLiteral *f);
namespace clang { double FloatingLiteral::getValueAsApproximateDouble() const { uint64_t r = clangsym_double(this); double d; __builtin_memcpy(&d, &r, 8); return d; } }
extern "C" const char *clangsym_typename(void *t);
namespace clang { std::string QualType::getAsString() const { return clangsym_typename(getAsOpaquePtr()); } }
#include <clang/AST/RawCommentList.h>
namespace clang { const std::map<unsigned, RawComment *> *RawCommentList::getCommentsInFile(FileID f) const { auto i = OrderedComments.find(f); return i == OrderedComments.end() ? nullptr : &i->second; } }
// ---- diagnostics
#include <clang/Basic/Diagnostic.h>
namespace clang { void Diagnostic::FormatDiagnostic(SmallVectorImpl<char> &o) const { if (!StoredDiagMessage) sym_unmodelled("a message to be formatted"); o.append(StoredDiagMessage->begin(), StoredDiagMessage->end()); }
bool DiagnosticConsumer::IncludeInDiagnosticCounts() const { return true; } DiagnosticConsumer::~DiagnosticConsumer() {}
void DiagnosticConsumer::HandleDiagnostic(DiagnosticsEngine::Level l, const Diagnostic &) { if (!IncludeInDiagnosticCounts()) return; NumWarnings += l == DiagnosticsEngine::Warning; NumErrors += l >= DiagnosticsEngine::Error; } }
#include <clang/AST/DeclObjC.h>
extern "C" const void *clangsym_overridden(const clang::ObjCMethodDecl *m, unsigned i);
namespace clang { void ObjCMethodDecl::getOverriddenMethods(llvm::SmallVectorImpl<const ObjCMethodDecl *> &v) const { for (unsigned i = 0; const void *m = clangsym_overridden(this, i); i++) v.push_back((const ObjCMethodDecl *)m); } }
// ---- the spelling of operators, which may be symbolic
namespace clang {
StringRef BinaryOperator::getOpcodeStr(Opcode op) { switch (op) {
#define BINARY_OPERATION(Name, Spelling) case BO_##Name: return Spelling;
#include "clang/AST/OperationKinds.def"
  } sym_unmodelled("an operator"); }
StringRef UnaryOperator::getOpcodeStr(Opcode op) { switch (op) {
#define UNARY_OPERATION(Name, Spelling) case UO_##Name: return Spelling;
#include "clang/AST/OperationKinds.def"
  } sym_unmodelled("an operator"); }
}
