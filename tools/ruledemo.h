// runs one rule on a piece of code with the real clang: "line:column-line:column message;" for each violation, in order
#include <clang/AST/AST.h>
#include <clang/AST/ASTContext.h>
#include <clang/Frontend/ASTUnit.h>
#include <clang/Tooling/Tooling.h>
#include <algorithm>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include "oclint/RuleBase.h"
#include "oclint/RuleCarrier.h"
#include "oclint/RuleConfiguration.h"
#include "oclint/RuleSet.h"
#include "oclint/Violation.h"
#include "oclint/ViolationSet.h"
static inline std::string run(const char *rule, const std::string &code, const char *file = "input.c") {
  oclint::RuleBase *r = nullptr;
  for (int i = 0; i < oclint::RuleSet::numberOfRules(); i++) if (oclint::RuleSet::getRuleAtIndex(i)->name() == rule) r = oclint::RuleSet::getRuleAtIndex(i);
  if (!r) return "no such rule";
  std::vector<std::string> args = {"-w", "-resource-dir", "/nonexistent"};
  if (strstr(file, ".cpp")) args.push_back("-std=c++17");
  if (strstr(file, ".m")) { args.push_back("-fobjc-runtime=macosx"); args.push_back("-fblocks"); }
  auto unit = clang::tooling::buildASTFromCodeWithArgs(code, args, file);
  if (!unit || unit->getDiagnostics().hasErrorOccurred()) return "does not parse";
  oclint::ViolationSet set; oclint::RuleCarrier carrier(&unit->getASTContext(), &set); r->takeoff(&carrier);
  std::vector<oclint::Violation> v = set.getViolations();
  std::stable_sort(v.begin(), v.end(), [](const oclint::Violation &a, const oclint::Violation &b) { return a.startLine != b.startLine ? a.startLine < b.startLine : a.startColumn < b.startColumn; });
  std::string s; for (auto &x : v) { char b[64]; snprintf(b, sizeof b, "%d:%d-%d:%d ", x.startLine, x.startColumn, x.endLine, x.endColumn); s += b + x.message + ";"; }
  return s;
}
static inline int expect(const std::string &got, const std::string &want) { printf("got  %s\nwant %s\n", got.c_str(), want.c_str()); return got != want; }
