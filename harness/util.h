// Shared by the harnesses: rules that record, symbolic violations.
#pragma once
#include "sym.h"
#include "oclint/AbstractResults.h"
#include "oclint/RawResults.h"
#include "oclint/UniqueResults.h"
#include "oclint/Results.h"
#include "oclint/ResultCollector.h"
#include "oclint/RuleBase.h"
#include "oclint/RuleSet.h"
#include "oclint/RuleCarrier.h"
#include "oclint/Violation.h"
#include "oclint/ViolationSet.h"
#include <vector>
#include <string>
using namespace oclint;
struct TestRule : RuleBase {
  std::string n, c; int p;
  TestRule(std::string n, std::string c, int p) : n(n), c(c), p(p) {}
  void apply() override {}
  const std::string name() const override { return n; }
  const std::string category() const override { return c; }
  int priority() const override { return p; }
};
// equality of violations, without forking
static inline bool sameViolation(const Violation &a, const Violation &b) {
  bool r = a.rule == b.rule;
  r = sym_and(r, sym_eq(a.path, b.path)); r = sym_and(r, sym_eq(a.message, b.message));
  r = sym_and(r, a.startLine == b.startLine); r = sym_and(r, a.startColumn == b.startColumn);
  r = sym_and(r, a.endLine == b.endLine); r = sym_and(r, a.endColumn == b.endColumn);
  return r;
}
static inline Violation symViolation(RuleBase *r, size_t pathLen, size_t msgLen) {
  std::string p = sym_string("path", pathLen), m = sym_string("message", msgLen);
  int a = sym_anyint("startLine"), b = sym_anyint("startColumn"), c = sym_anyint("endLine"), d = sym_anyint("endColumn");
  return Violation(r, p, a, b, c, d, m);
}
