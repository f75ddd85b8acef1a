// The collected results: de-duplication, raw results, counts.
#include "util.h"
#ifdef TIER_THOROUGH
#define N 4
#else
#define N 3
#endif
// violations over two rules; every field free, strings of length 0..maxLen
static std::vector<Violation> arbitrary(int n, RuleBase **rules, int nr, int maxLen) {
  std::vector<Violation> v;
  for (int i = 0; i < n; i++) { RuleBase *r = nr ? rules[sym_choose("rule", 0, nr - 1)] : nullptr; v.push_back(symViolation(r, sym_choose("plen", 0, maxLen), sym_choose("mlen", 0, maxLen))); }
  return v;
}
static void checkUnique(const std::vector<Violation> &all, const std::vector<Violation> &got) {
  size_t k = 0;
  for (size_t i = 0; i < all.size(); i++) {
    bool dup = false; for (size_t j = 0; j < i; j++) dup = sym_or(dup, sameViolation(all[i], all[j]));
    if (dup) continue;
    sym_assert(k < got.size(), "a distinct violation is missing"); if (k >= got.size()) return;
    sym_assert(sameViolation(all[i], got[k]), "distinct violations appear unchanged, in order of first occurrence"); k++;
  }
  sym_assert(k == got.size(), "a violation is reported more than once");
  if (k < all.size()) sym_cover("duplicate removed");
  if (k == all.size()) sym_cover("all distinct");
  sym_observe("size", got.size()); for (auto &v : got) { sym_observe("line", (unsigned)v.startLine); sym_observe("plen", v.path.size()); }
}
static void checkRaw(const std::vector<Violation> &all, const std::vector<Violation> &got) {
  sym_assert(all.size() == got.size(), "the raw results keep every violation"); if (all.size() != got.size()) return;
  for (size_t i = 0; i < all.size(); i++) sym_assert(sameViolation(all[i], got[i]), "the raw results keep every violation unchanged and in order");
}
static TestRule &ruleA() { static TestRule r("a rule", "x", 1); return r; }
static TestRule &ruleB() { static TestRule r("b rule", "x", 2); return r; }
static void collect(const std::vector<Violation> &all, int cut) {
  auto *rc = ResultCollector::getInstance();
  auto *s1 = new ViolationSet, *s2 = new ViolationSet;
  for (int i = 0; i < (int)all.size(); i++) (i < cut ? s1 : s2)->addViolation(all[i]);
  rc->add(s1); rc->add(s2);
}
HARNESS(unique_violations) {
  RuleBase *rs[] = {&ruleA(), &ruleB()};
  auto all = arbitrary(2, rs, 2, 2); collect(all, sym_choose("cut", 0, 2));
  UniqueResults u(*ResultCollector::getInstance()); checkUnique(all, u.allViolations()); checkUnique(all, u.allViolations());
  RawResults r(*ResultCollector::getInstance()); checkRaw(all, r.allViolations());
}
HARNESS(unique_violations_many) {
  RuleBase *rs[] = {&ruleA(), &ruleB()}; std::vector<Violation> all;
  for (int i = 0; i < N; i++) all.push_back(symViolation(rs[i == 0 ? 0 : sym_choose("rule", 0, 1)], 1, 1));
  collect(all, N / 2);
  UniqueResults u(*ResultCollector::getInstance()); auto got = u.allViolations(); checkUnique(all, got);
  auto again = u.allViolations(); sym_assert(again.size() == got.size(), "asking again gives the same list");
}
// the three diagnostic lists
static void diag(int which) {
  auto all = arbitrary(2, nullptr, 0, 1); all.push_back(symViolation(nullptr, 1, 1)); auto *rc = ResultCollector::getInstance();
  for (auto &v : all) which == 0 ? rc->addError(v) : which == 1 ? rc->addWarning(v) : rc->addCheckerBug(v);
  UniqueResults u(*rc); RawResults r(*rc);
  for (int round = 0; round < 2; round++) {
    auto &e = u.allErrors(); auto &w = u.allWarnings(); auto &c = u.allCheckerBugs();
    auto &mine = which == 0 ? e : which == 1 ? w : c;
    checkUnique(all, mine);
    sym_assert(e.size() + w.size() + c.size() == mine.size(), "a diagnostic appears in its own list only");
  }
  auto &e = r.allErrors(); auto &w = r.allWarnings(); auto &c = r.allCheckerBugs(); auto &mine = which == 0 ? e : which == 1 ? w : c;
  checkRaw(all, mine); sym_assert(e.size() + w.size() + c.size() == mine.size(), "a diagnostic appears in its own list only");
  sym_assert(u.allViolations().empty() && r.allViolations().empty(), "a diagnostic is not a rule violation");
}
HARNESS(unique_errors) { diag(0); }
HARNESS(unique_warnings) { diag(1); }
HARNESS(unique_checker_bugs) { diag(2); }
HARNESS(violation_equality) {
  Violation a = symViolation((RuleBase *)&ruleA(), sym_choose("plen", 0, 2), sym_choose("mlen", 0, 2));
  Violation b = symViolation((RuleBase *)sym_ite(sym_bool("same"), (uint64_t)&ruleA(), (uint64_t)&ruleB()), sym_choose("plen", 0, 2), sym_choose("mlen", 0, 2));
  bool e = a == b; sym_assert(e == sameViolation(a, b), "two violations are equal exactly when all their fields are"); sym_cover(e ? "equal" : "different");
  sym_assert((b == a) == e, "symmetric");
}
HARNESS(violation_set) {
  RuleBase *rs[] = {&ruleA()}; auto all = arbitrary(2, rs, 1, 1); ViolationSet s, t;
  sym_assert(s.numberOfViolations() == 0, "empty at first");
  for (auto &v : all) s.addViolation(v);
  sym_assert(s.numberOfViolations() == 2, "keeps all"); checkRaw(all, s.getViolations());
  t.addViolation(all[0]); sym_assert(!(s == t), "sets of different sizes differ");
  t.addViolation(sym_bool("same") ? all[1] : all[0]); sym_assert((s == t) == sameViolation(t.getViolations()[1], all[1]), "set equality is elementwise");
}

// ---------------------------------------------------------------- counts
static void countViolations(bool unique) {
  auto *rc = ResultCollector::getInstance();
  int p0 = sym_anyint("p0"), p1 = sym_anyint("p1");
  TestRule a("a", "x", p0), b("b", "y", p1); RuleBase *rs[] = {&a, &b};
  int nsets = sym_choose("sets", 0, N - 1); int total = 0; std::vector<std::string> files;
  for (int i = 0; i < nsets; i++) { auto *s = new ViolationSet; int n = sym_choose("n", 0, 2); std::string path(1, 'a' + (char)sym_int("path", 0, 3));
    for (int k = 0; k < n && total < N; k++, total++) { Violation v(rs[sym_choose("rule", 0, 1)], path, sym_int("line", 0, 1), 0, 0, 0, "m");
      if (!k) files.push_back(path); s->addViolation(v); }
    rc->add(s); }
  UniqueResults uu(*rc); RawResults rr(*rc); const Results &r = unique ? (const Results &)uu : (const Results &)rr;
  bool countFirst = total == 1 ? true : total == 2 ? false : sym_choose("order", 0, 1); int early = countFirst ? r.numberOfViolations() : 0;
  auto list = r.allViolations(); if (countFirst) sym_assert(early == (int)list.size(), "the count does not depend on when it is asked");
  sym_assert(r.numberOfViolations() == (int)list.size(), "the number of violations is the length of the list");
  int p = sym_anyint("priority"); int want = 0; for (auto &v : list) { int vp = ((TestRule *)v.rule)->p; want = (int)sym_ite(vp == p, (uint64_t)(want + 1), (uint64_t)want); }
  sym_assert(r.numberOfViolationsWithPriority(p) == want, "the count of a priority is the number of listed violations with it");
  sym_assert(r.numberOfFiles() == nsets, "one file per analysed unit");
  int nf = 0; for (size_t i = 0; i < files.size(); i++) { bool seen = false; for (size_t j = 0; j < i; j++) seen = sym_or(seen, files[i][0] == files[j][0]); nf = (int)sym_ite(seen, (uint64_t)nf, (uint64_t)(nf + 1)); }
  int gf = r.numberOfFilesWithViolations(); sym_assert(gf == nf, "files with violations: distinct files");
  if (!unique) sym_assert((int)list.size() == total, "raw count");
  if (gf == 2) sym_cover("two files"); if ((int)list.size() < total) sym_cover("fewer than collected");
  sym_observe("n", list.size()); sym_observe("files", gf);
}
// many units, at most one finding each
HARNESS(counts_units) {
#ifdef TIER_THOROUGH
  int n = 6;
#else
  int n = sym_choose("units", 3, 5);
#endif
  auto *rc = ResultCollector::getInstance(); TestRule a("a", "x", 1); std::vector<char> files;
  for (int i = 0; i < n; i++) { auto *s = new ViolationSet; if (sym_choose("any", 0, 1)) { char c = (char)sym_int("path", 'a', 'd'); files.push_back(c); s->addViolation(Violation(&a, std::string(1, c), i, 0, 0, 0, "m")); } rc->add(s); }
  UniqueResults uu(*rc); RawResults rr(*rc); int nf = 0;
  for (size_t i = 0; i < files.size(); i++) { bool seen = false; for (size_t j = 0; j < i; j++) seen = sym_or(seen, files[i] == files[j]); nf = (int)sym_ite(seen, (uint64_t)nf, (uint64_t)(nf + 1)); }
  sym_assert(uu.numberOfFiles() == n && rr.numberOfFiles() == n, "one file per analysed unit");
  sym_assert(uu.numberOfFilesWithViolations() == nf, "files with violations: distinct files"); sym_assert(rr.numberOfFilesWithViolations() == nf, "files with violations: distinct files (raw)");
  sym_assert(rr.numberOfViolations() == (int)files.size() && uu.numberOfViolations() == (int)files.size(), "every unit's findings are counted");
  if (files.size() >= 2) sym_cover("findings");
}
HARNESS(counts_unique) { countViolations(true); }
HARNESS(counts_raw) { countViolations(false); }
static void countDiagnostics(bool unique) {
  auto *rc = ResultCollector::getInstance();
  int ne = sym_choose("errors", 0, 2), nw = sym_choose("warnings", 0, 2), nc = sym_choose("bugs", 0, 2);
  auto dv = [&](int i) { return Violation(nullptr, "f", sym_int("dline", 0, 1), 0, 0, 0, "d"); };
  for (int i = 0; i < ne; i++) rc->addError(dv(i)); for (int i = 0; i < nw; i++) rc->addWarning(dv(i)); for (int i = 0; i < nc; i++) rc->addCheckerBug(dv(i));
  UniqueResults uu(*rc); RawResults rr(*rc); const Results &r = unique ? (const Results &)uu : (const Results &)rr;
  sym_assert(r.hasErrors() == (ne > 0), "has errors"); sym_assert(r.hasWarnings() == (nw > 0), "has warnings"); sym_assert(r.hasCheckerBugs() == (nc > 0), "has checker bugs");
  sym_assert(r.numberOfErrors() == (int)r.allErrors().size() && r.numberOfWarnings() == (int)r.allWarnings().size() && r.numberOfCheckerBugs() == (int)r.allCheckerBugs().size(), "diagnostic counts are list lengths");
  if (!unique) sym_assert(r.numberOfErrors() == ne && r.numberOfWarnings() == nw && r.numberOfCheckerBugs() == nc, "raw counts");
  sym_assert(r.numberOfViolations() == 0 && r.numberOfViolationsWithPriority(sym_anyint("p")) == 0, "diagnostics are not violations");
  sym_observe("e", r.numberOfErrors()); sym_observe("w", r.numberOfWarnings()); sym_observe("c", r.numberOfCheckerBugs());
  if (r.numberOfErrors() == 2) sym_cover("two errors");
}
HARNESS(counts_diagnostics_unique) { countDiagnostics(true); }
HARNESS(counts_diagnostics_raw) { countDiagnostics(false); }
