// Model of clang's AST matchers (the parts behind the headers): kinds of nodes, matchers put together, the finder.
#include <clang/AST/AST.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/ASTTypeTraits.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/ExprObjC.h>
#include <clang/AST/StmtCXX.h>
#include <clang/AST/StmtObjC.h>
#include <clang/ASTMatchers/ASTMatchFinder.h>
#include <clang/ASTMatchers/ASTMatchers.h>
#include "../harness/sym.h"

namespace clang {
// ---- kinds
const ASTNodeKind::KindInfo ASTNodeKind::AllKindInfo[NKI_NumberOfKinds] = {
  {NKI_None, "<None>"}, {NKI_None, "TemplateArgument"}, {NKI_None, "TemplateArgumentLoc"}, {NKI_None, "LambdaCapture"}, {NKI_None, "TemplateName"}, {NKI_None, "NestedNameSpecifierLoc"}, {NKI_None, "QualType"},
#define TYPELOC(CLASS, PARENT) {NKI_##PARENT, #CLASS "TypeLoc"},
#include "clang/AST/TypeLocNodes.def"
  {NKI_None, "TypeLoc"}, {NKI_None, "CXXBaseSpecifier"}, {NKI_None, "CXXCtorInitializer"}, {NKI_None, "NestedNameSpecifier"}, {NKI_None, "Decl"},
#define DECL(DERIVED, BASE) {NKI_##BASE, #DERIVED "Decl"},
#include "clang/AST/DeclNodes.inc"
  {NKI_None, "Stmt"},
#define STMT(DERIVED, BASE) {NKI_##BASE, #DERIVED},
#include "clang/AST/StmtNodes.inc"
  {NKI_None, "Type"},
#define TYPE(DERIVED, BASE) {NKI_##BASE, #DERIVED "Type"},
#include "clang/AST/TypeNodes.inc"
  {NKI_None, "OMPClause"},
#define GEN_CLANG_CLAUSE_CLASS
#define CLAUSE_CLASS(Enum, Str, Class) {NKI_OMPClause, #Class},
#include "llvm/Frontend/OpenMP/OMP.inc"
  {NKI_None, "Attr"},
#define ATTR(A) {NKI_Attr, #A "Attr"},
#include "clang/Basic/AttrList.inc"
  {NKI_None, "ObjCProtocolLoc"}, {NKI_None, "ConceptReference"} };
bool ASTNodeKind::isBaseOf(NodeKindId base, NodeKindId derived, unsigned *distance) {
  if (base == NKI_None || derived == NKI_None) return false;
  unsigned d = 0; while (derived != base && derived != NKI_None) { derived = AllKindInfo[derived].ParentId; d++; }
  if (distance) *distance = d; return derived == base; }
bool ASTNodeKind::isBaseOf(NodeKindId base, NodeKindId derived) { return isBaseOf(base, derived, nullptr); }
bool ASTNodeKind::isBaseOf(ASTNodeKind o) const { return isBaseOf(KindId, o.KindId); }
bool ASTNodeKind::isBaseOf(ASTNodeKind o, unsigned *distance) const { return isBaseOf(KindId, o.KindId, distance); }
StringRef ASTNodeKind::asStringRef() const { return AllKindInfo[KindId].Name; }
ASTNodeKind ASTNodeKind::getMostDerivedType(ASTNodeKind a, ASTNodeKind b) { if (a.isBaseOf(b)) return b; if (b.isBaseOf(a)) return a; return ASTNodeKind(); }
ASTNodeKind ASTNodeKind::getMostDerivedCommonAncestor(ASTNodeKind a, ASTNodeKind b) { NodeKindId p = a.KindId; while (!isBaseOf(p, b.KindId) && p != NKI_None) p = AllKindInfo[p].ParentId; return ASTNodeKind(p); }
ASTNodeKind ASTNodeKind::getFromNode(const Decl &d) {
  switch (d.getKind()) {
#define DECL(DERIVED, BASE) case Decl::DERIVED: return ASTNodeKind(NKI_##DERIVED##Decl);
#define ABSTRACT_DECL(D)
#include "clang/AST/DeclNodes.inc"
  } sym_unmodelled("kind of a declaration"); }
ASTNodeKind ASTNodeKind::getFromNode(const Stmt &s) {
  switch (s.getStmtClass()) {
  case Stmt::NoStmtClass: return NKI_None;
#define STMT(CLASS, PARENT) case Stmt::CLASS##Class: return ASTNodeKind(NKI_##CLASS);
#define ABSTRACT_STMT(S)
#include "clang/AST/StmtNodes.inc"
  } sym_unmodelled("kind of a statement"); }

namespace ast_matchers {
namespace internal {
// ---- bound nodes
void BoundNodesTreeBuilder::addMatch(const BoundNodesTreeBuilder &o) { Bindings.append(o.Bindings.begin(), o.Bindings.end()); }
void BoundNodesTreeBuilder::visitMatches(Visitor *v) { if (Bindings.empty()) Bindings.push_back(BoundNodesMap()); for (BoundNodesMap &b : Bindings) v->visitMatch(BoundNodes(b)); }
// ---- matchers put together
namespace {
typedef DynTypedMatcher::VariadicOperator Op;
struct Variadic : DynMatcherInterface {
  Op op; std::vector<DynTypedMatcher> in;
  Variadic(Op op, std::vector<DynTypedMatcher> in) : op(op), in(std::move(in)) {}
  bool dynMatches(const DynTypedNode &n, ASTMatchFinder *f, BoundNodesTreeBuilder *b) const override {
    switch (op) {
    case DynTypedMatcher::VO_AllOf: for (const DynTypedMatcher &m : in) if (!m.matchesNoKindCheck(n, f, b)) return false; return true;
    case DynTypedMatcher::VO_AnyOf: for (const DynTypedMatcher &m : in) { BoundNodesTreeBuilder r = *b; if (m.matches(n, f, &r)) { *b = std::move(r); return true; } } return false;
    case DynTypedMatcher::VO_EachOf: { BoundNodesTreeBuilder all; bool hit = false; for (const DynTypedMatcher &m : in) { BoundNodesTreeBuilder r(*b); if (m.matches(n, f, &r)) { hit = true; all.addMatch(r); } } *b = std::move(all); return hit; }
    case DynTypedMatcher::VO_Optionally: { BoundNodesTreeBuilder r(*b); if (in[0].matches(n, f, &r)) *b = std::move(r); return true; }
    default: { BoundNodesTreeBuilder discard(*b); return !in[0].matches(n, f, &discard); } } } };
struct Id : DynMatcherInterface {
  std::string id; IntrusiveRefCntPtr<DynMatcherInterface> in;
  Id(StringRef id, IntrusiveRefCntPtr<DynMatcherInterface> in) : id(id.data(), id.size()), in(std::move(in)) {}
  bool dynMatches(const DynTypedNode &n, ASTMatchFinder *f, BoundNodesTreeBuilder *b) const override { bool r = in->dynMatches(n, f, b); if (r) b->setBinding(id, n); return r; } };
struct True : DynMatcherInterface { bool dynMatches(const DynTypedNode &, ASTMatchFinder *, BoundNodesTreeBuilder *) const override { return true; } };
}
DynTypedMatcher DynTypedMatcher::constructVariadic(VariadicOperator op, ASTNodeKind kind, std::vector<DynTypedMatcher> in) {
  ASTNodeKind k = kind;
  switch (op) {
  case VO_AllOf: for (auto &m : in) k = ASTNodeKind::getMostDerivedType(k, m.RestrictKind); break;
  case VO_AnyOf: case VO_EachOf: k = in[0].RestrictKind; for (auto &m : in) k = ASTNodeKind::getMostDerivedCommonAncestor(k, m.RestrictKind); break;
  default: break; }
  return DynTypedMatcher(kind, k, new Variadic(op, std::move(in))); }
DynTypedMatcher DynTypedMatcher::constructRestrictedWrapper(const DynTypedMatcher &in, ASTNodeKind k) { DynTypedMatcher r = in; r.RestrictKind = k; return r; }
DynTypedMatcher DynTypedMatcher::trueMatcher(ASTNodeKind k) { return DynTypedMatcher(k, k, new True()); }
bool DynTypedMatcher::canMatchNodesOfKind(ASTNodeKind k) const { return RestrictKind.isBaseOf(k); }
DynTypedMatcher DynTypedMatcher::dynCastTo(const ASTNodeKind k) const { DynTypedMatcher r = *this; r.SupportedKind = k; r.RestrictKind = ASTNodeKind::getMostDerivedType(k, RestrictKind); return r; }
bool DynTypedMatcher::matches(const DynTypedNode &n, ASTMatchFinder *f, BoundNodesTreeBuilder *b) const {
  if (Implementation->TraversalKind()) sym_unmodelled("traversal of what is spelled in the source only");
  if (RestrictKind.isBaseOf(n.getNodeKind()) && Implementation->dynMatches(n, f, b)) return true;
  b->removeBindings([](const BoundNodesMap &) { return true; }); return false; }
bool DynTypedMatcher::matchesNoKindCheck(const DynTypedNode &n, ASTMatchFinder *f, BoundNodesTreeBuilder *b) const {
  if (Implementation->TraversalKind()) sym_unmodelled("traversal of what is spelled in the source only");
  if (Implementation->dynMatches(n, f, b)) return true;
  b->removeBindings([](const BoundNodesMap &) { return true; }); return false; }
std::optional<DynTypedMatcher> DynTypedMatcher::tryBind(StringRef id) const { if (!AllowBind) return std::nullopt; DynTypedMatcher r(*this); r.Implementation = new Id(id, std::move(r.Implementation)); return std::move(r); }
bool DynTypedMatcher::canConvertTo(ASTNodeKind to) const {
  ASTNodeKind from = getSupportedKind(), q = ASTNodeKind::getFromNodeKind<QualType>(), t = ASTNodeKind::getFromNodeKind<Type>();
  return (to.isSame(q) && from.isSame(t)) || from.isBaseOf(to); }
bool ASTMatchFinder::isTraversalIgnoringImplicitNodes() const { return false; }

// ---- the finder: all nodes, implicit ones too
namespace {
struct Finder : ASTMatchFinder {
  ASTContext &ctx; explicit Finder(ASTContext &c) : ctx(c) {}
  bool classIsDerivedFrom(const CXXRecordDecl *, const Matcher<NamedDecl> &, BoundNodesTreeBuilder *, bool) override { sym_unmodelled("matching base classes"); }
  bool objcClassIsDerivedFrom(const ObjCInterfaceDecl *, const Matcher<NamedDecl> &, BoundNodesTreeBuilder *, bool) override { sym_unmodelled("matching superclasses"); }
  ASTContext &getASTContext() const override { return ctx; }
  bool IsMatchingInASTNodeNotSpelledInSource() const override { return false; }
  bool IsMatchingInASTNodeNotAsIs() const override { return false; }
  bool isMatchingChildrenNotSpelledInSource() const override { return false; }
  void setMatchingChildrenNotSpelledInSource(bool) override {}
  // below a statement
  bool below(const Stmt *s, const DynTypedMatcher &m, BoundNodesTreeBuilder *b, BindKind k, bool deep, BoundNodesTreeBuilder &all) {
    bool hit = false; if (isa<LambdaExpr>(s) || isa<BlockExpr>(s) || isa<DeclStmt>(s) || isa<PseudoObjectExpr>(s) || isa<InitListExpr>(s)) sym_unmodelled("matching below such a node");
    for (const Stmt *c : s->children()) if (c) {
      BoundNodesTreeBuilder r(*b); if (m.matches(DynTypedNode::create(*c), this, &r)) { hit = true; all.addMatch(r); if (k == BK_First) return true; }
      if (deep && below(c, m, b, k, deep, all)) { hit = true; if (k == BK_First) return true; } }
    return hit; }
  bool search(const DynTypedNode &n, const DynTypedMatcher &m, BoundNodesTreeBuilder *b, BindKind k, bool deep) {
    const Stmt *s = n.get<Stmt>(); if (!s) sym_unmodelled("matching below a declaration"); BoundNodesTreeBuilder all; bool hit = below(s, m, b, k, deep, all); *b = std::move(all); return hit; }
  bool matchesChildOf(const DynTypedNode &n, ASTContext &, const DynTypedMatcher &m, BoundNodesTreeBuilder *b, BindKind k) override { return search(n, m, b, k, false); }
  bool matchesDescendantOf(const DynTypedNode &n, ASTContext &, const DynTypedMatcher &m, BoundNodesTreeBuilder *b, BindKind k) override { return search(n, m, b, k, true); }
  bool matchesAncestorOf(const DynTypedNode &, ASTContext &, const DynTypedMatcher &, BoundNodesTreeBuilder *, AncestorMatchMode) override { sym_unmodelled("matching what is above"); } };
struct Visitor : BoundNodesTreeBuilder::Visitor {
  ASTContext *ctx; MatchFinder::MatchCallback *cb; Visitor(ASTContext *c, MatchFinder::MatchCallback *cb) : ctx(c), cb(cb) {}
  void visitMatch(const BoundNodes &n) override { cb->run(MatchFinder::MatchResult(n, ctx)); } };
}
}
const internal::VariadicOperatorMatcherFunc<2, std::numeric_limits<unsigned>::max()> eachOf = {internal::DynTypedMatcher::VO_EachOf}, anyOf = {internal::DynTypedMatcher::VO_AnyOf}, allOf = {internal::DynTypedMatcher::VO_AllOf};
const internal::VariadicOperatorMatcherFunc<1, 1> optionally = {internal::DynTypedMatcher::VO_Optionally}, unless = {internal::DynTypedMatcher::VO_UnaryNot};
MatchFinder::MatchCallback::~MatchCallback() {}
StringRef MatchFinder::MatchCallback::getID() const { return "<unknown>"; }
std::optional<TraversalKind> MatchFinder::MatchCallback::getCheckTraversalKind() const { return std::nullopt; }
MatchFinder::MatchResult::MatchResult(const BoundNodes &n, ASTContext *c) : Nodes(n), Context(c), SourceManager(&c->getSourceManager()) {}
MatchFinder::ParsingDoneTestCallback::~ParsingDoneTestCallback() {}
MatchFinder::MatchFinder(MatchFinderOptions o) : Options(std::move(o)), ParsingDone(nullptr) {}
MatchFinder::~MatchFinder() {}
static void add(MatchFinder::MatchersByType &all, const internal::DynTypedMatcher &m, MatchFinder::MatchCallback *a) { if (a->getCheckTraversalKind()) sym_unmodelled("traversal of what is spelled in the source only"); all.DeclOrStmt.emplace_back(m, a); all.AllCallbacks.insert(a); }
void MatchFinder::addMatcher(const DeclarationMatcher &m, MatchCallback *a) { add(Matchers, m, a); }
void MatchFinder::addMatcher(const StatementMatcher &m, MatchCallback *a) { add(Matchers, m, a); }
bool MatchFinder::addDynamicMatcher(const internal::DynTypedMatcher &m, MatchCallback *a) { add(Matchers, m, a); return true; }
void MatchFinder::match(const DynTypedNode &n, ASTContext &ctx) {
  if (!n.get<Decl>() && !n.get<Stmt>()) sym_unmodelled("matching what is neither a declaration nor a statement");
  internal::Finder f(ctx);
  for (auto &m : Matchers.DeclOrStmt) { internal::BoundNodesTreeBuilder b; if (m.first.matches(n, &f, &b)) { internal::Visitor v(&ctx, m.second); b.visitMatches(&v); } } }
}
}
