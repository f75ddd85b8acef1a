// The compiler's diagnostics on their way to the results, and the analysis of every unit by every rule.
#include "stmts.h"
#include "util.h"
#include "oclint/DiagnosticDispatcher.h"
#include "oclint/RulesetBasedAnalyzer.h"
#include <clang/Basic/Diagnostic.h>
namespace oclint { namespace option { bool enableVerbose() { return false; } } }
using clang::DiagnosticsEngine;
struct Said { alignas(16) char d[sizeof(clang::Diagnostic)], e[sizeof(DiagnosticsEngine)]; std::string text;
  clang::Diagnostic &make(clang::SourceManager *sm, clang::SourceLocation l, const std::string &t) { memset(d, 0, sizeof d); memset(e, 0, sizeof e); text = t; auto *x = (clang::Diagnostic *)d; auto *y = (DiagnosticsEngine *)e; y->SourceMgr = sm; x->DiagObj = y; x->DiagLoc = l; new (&x->StoredDiagMessage) std::optional<clang::StringRef>(clang::StringRef(text)); return *x; } };
// 0 none  1 a statement  2 what a macro makes  3 an argument of a macro  4 in the header  5 made by a macro within a macro
static clang::SourceLocation where(int k, World &w, Prog &g, N *plain, N *hf, Pos &p, std::string &file) {
  file = ""; p = {0, 0}; if (k == 0) return {}; file = fileName(); std::vector<clang::Stmt *> ifs; clang::Stmt *first = nullptr; for (auto *s : bodyOf(g.f)->children()) { if (!first) first = s; if (clang::isa<clang::IfStmt>(s)) ifs.push_back(s); }
  if (k == 1) { p = plain->b; return first->getBeginLoc(); } if (k == 2) { p = g.f->body->c[1]->b; return ifs[0]->getBeginLoc(); } if (k == 3) { p = g.f->body->c[1]->b; return ((clang::IfStmt *)ifs[0])->getCond()->getBeginLoc(); } if (k == 5) { p = g.f->body->c[2]->b; return ifs[1]->getBeginLoc(); }
  file = "./input.h"; p = hf->body->b; for (auto *d : w.ctx->getTranslationUnitDecl()->decls()) if (auto *f = clang::dyn_cast<clang::FunctionDecl>(d)) if (f->hasBody() && !f->isImplicit()) return f->getBody()->getBeginLoc(); return {}; }
HARNESS(diagnostics) {
  chooseLang(); Prog g; bool checker = sym_choose("checker", 0, 1), defs = sym_choose("macros in the header", 0, 1); int n = sym_choose("n", 0, 2); N *hf = Fn("head", &tyVoid, {}, Blk()); hf->flags = FStatic; g.p.header = {hf}; N *m1 = Raw("#define MMMM(x) if(x){}"), *m2 = Raw("#define NNNN(x) MMMM(x)"); if (defs) { g.p.header.push_back(m1); g.p.header.push_back(m2); } else g.p.decls = {m1, m2};
  N *plain = g.call(); g.put({plain, Tok("MMMM(aaaa)", &tyVoid), Tok("NNNN(bbbb)", &tyVoid)}, 0); World w = make(g.p); oclint::DiagnosticDispatcher dd(checker); auto &sm = w.ctx->getSourceManager(); std::vector<Violation> err, warn, bug; int errors = 0, warnings = 0;
  for (int i = 0; i < n; i++) { int lvl = sym_int("level", 0, 5); bool has = sym_choose("sources", 0, 1); int k = has ? sym_choose("where", 0, i ? 2 : 5) : 1; std::string t = sym_string("text", sym_choose("length", 1, i ? 1 : 3)); Pos p; std::string f; auto l = where(k, w, g, plain, hf, p, f); if (!has) { p = {0, 0}; f = ""; }
    Said *s = new Said; dd.HandleDiagnostic((DiagnosticsEngine::Level)lvl, s->make(has ? &sm : nullptr, l, t)); Violation v(nullptr, f, p.l, p.c, 0, 0, t); lvl = sym_concretize(lvl); if (checker) bug.push_back(v); else if (lvl == DiagnosticsEngine::Warning) warn.push_back(v); else if (lvl >= DiagnosticsEngine::Error) err.push_back(v); }
  auto *rc = ResultCollector::getInstance(); auto same = [](const std::vector<Violation> &got, const std::vector<Violation> &want, const char *label) { sym_assert(got.size() == want.size(), label); for (size_t i = 0; i < got.size() && i < want.size(); i++) sym_assert(sameViolation(got[i], want[i]), label); };
  same(rc->getCompilerErrorSet()->getViolations(), err, "exactly the errors of the compiler are reported as errors, where they are"); same(rc->getCompilerWarningSet()->getViolations(), warn, "exactly the warnings of the compiler are reported as warnings, where they are"); same(rc->getClangStaticCheckerBugSet()->getViolations(), bug, "exactly what the static analyzer says is reported as checker bugs, where it is");
  sym_cover(bug.size() ? "bug" : err.size() ? "error" : warn.size() ? "warning" : "nothing"); sym_observe("errors", err.size()); sym_observe("line", err.size() ? err[0].startLine : warn.size() ? warn[0].startLine : 0); }
// every rule, in order, on every unit
static std::vector<std::pair<int, clang::ASTContext *>> gRan;
struct Seer : TestRule { int id; Seer(int i) : TestRule("seer", "c", 1), id(i) {} void apply() override { gRan.push_back({id, _carrier->getASTContext()}); if (_carrier->getMainFilePath() == fileName()) _carrier->addViolation("f", id, (int)gRan.size(), 0, 0, this); } };
HARNESS(every_rule_every_unit) {
  chooseLang(); Prog g; g.put({Null()}, 0); World w = make(g.p); int nr = sym_choose("rules", 0, 3), nu = sym_choose("units", 0, 3), calls = sym_choose("calls", 1, 2); std::vector<RuleBase *> rules; for (int i = 0; i < nr; i++) rules.push_back(new Seer(i)); if (nr == 3 && sym_choose("twice", 0, 1)) rules[2] = rules[0]; std::vector<clang::ASTContext *> units(nu, w.ctx); oclint::RulesetBasedAnalyzer an(rules);
  for (int k = 0; k < calls; k++) { an.preprocess(units); an.analyze(units); an.postprocess(units); } sym_assert((int)gRan.size() == nr * nu * calls, "every rule sees every unit once"); auto c = ResultCollector::getInstance()->getCollection(); sym_assert((int)c.size() == nu * calls, "every unit has its findings"); int at = 0;
  for (int u = 0; u < nu * calls && u < (int)c.size(); u++) { auto v = c[u]->getViolations(); sym_assert((int)v.size() == nr, "a unit's findings are kept with it"); for (int i = 0; i < nr; i++, at++) { int id = ((Seer *)rules[i])->id; if (at < (int)gRan.size()) sym_assert(gRan[at].first == id && gRan[at].second == w.ctx, "rules run in order on the unit"); if (i < (int)v.size()) sym_assert(v[i].rule == rules[i] && v[i].startLine == id && v[i].startColumn == at + 1, "every finding is kept, in order"); } }
  sym_cover(at ? "ran" : "nothing to do"); sym_observe("n", gRan.size()); }
