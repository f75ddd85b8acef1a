// a reporter run on any results: the text it writes
#include "oclint/Reporter.h"
#include "oclint/Results.h"
#include "oclint/RuleBase.h"
#include "oclint/Violation.h"
#include <cstdio>
#include <sstream>
#include <string>
#include <vector>
using namespace oclint;
extern "C" Reporter *create();
struct R : RuleBase { std::string n, c; int p; R(std::string n, std::string c, int p) : n(n), c(c), p(p) {} void apply() override {} const std::string name() const override { return n; } const std::string category() const override { return c; } int priority() const override { return p; } };
struct G : Results { std::vector<Violation> v, e, w, b; int counts[4] = {0, 0, 0, 0}; int files = 1, bad = 1;
 std::vector<Violation> allViolations() const override { return v; } int numberOfViolations() const override { return (int)v.size(); } int numberOfViolationsWithPriority(int p) const override { return p >= 1 && p <= 3 ? counts[p] : 0; } int numberOfFiles() const override { return files; } int numberOfFilesWithViolations() const override { return bad; }
 int numberOfErrors() const override { return (int)e.size(); } bool hasErrors() const override { return !e.empty(); } const std::vector<Violation> &allErrors() const override { return e; }
 int numberOfWarnings() const override { return (int)w.size(); } bool hasWarnings() const override { return !w.empty(); } const std::vector<Violation> &allWarnings() const override { return w; }
 int numberOfCheckerBugs() const override { return (int)b.size(); } bool hasCheckerBugs() const override { return !b.empty(); } const std::vector<Violation> &allCheckerBugs() const override { return b; } };
static inline std::string out(G &g) { std::ostringstream o; create()->report(&g, o); return o.str(); }
static inline int has(const std::string &s, const std::string &x) { if (s.find(x) == std::string::npos) { printf("missing: %s\nin: %s\n", x.c_str(), s.c_str()); return 0; } return 1; }
