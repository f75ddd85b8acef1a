// The command-line tool's main(): exit status, where the report goes, what is printed.  Everything main() calls
// outside oclint-core is a stand-in that succeeds or fails as the symbolic inputs say.
#include "util.h"
#include <fstream>
#include <sstream>
#include <iostream>
#include <cstdlib>
#include <clang/Tooling/CommonOptionsParser.h>
#include "oclint/Options.h"
#include "oclint/Driver.h"
#include "oclint/GenericException.h"
#include "oclint/ExitCode.h"
#include "reporters.h"
#include "rules.h"
std::string sym_stdout(); std::string sym_stderr();
// the file the report may be written to
static struct FileLog { std::string path, content; int opened = 0, closed = 0; bool fails = false; } gFile;
namespace std {
struct sym_ofstream : ostringstream {
  bool ok = false; void open(const string &p) { gFile.opened++; gFile.path = p; ok = !gFile.fails; if (!ok) setstate(ios_base::failbit); }
  sym_ofstream() {}
  explicit sym_ofstream(const char *p, ios_base::openmode = ios_base::out) { open(p); } explicit sym_ofstream(const string &p, ios_base::openmode = ios_base::out) { open(p); }
  bool is_open() const { return ok; }
  void close() { if (ok) { gFile.closed++; gFile.content = str(); } ok = false; }
  ~sym_ofstream() { close(); }
};
}
static struct Opt { std::vector<std::string> rulesPath; bool hasOut = false; std::string out; int max[3] = {0, 10, 20}; bool list = false, dup = false; RulesetFilter filter; int processed = 0; } gOpt;
namespace oclint { namespace option {
void process(const char *) { gOpt.processed++; }
std::vector<std::string> rulesPath() { return gOpt.rulesPath; }
bool hasOutputPath() { return gOpt.hasOut; }
std::string outputPath() { return gOpt.out; }
int maxP1() { return gOpt.max[0]; } int maxP2() { return gOpt.max[1]; } int maxP3() { return gOpt.max[2]; }
bool showEnabledRules() { return gOpt.list; }
bool allowDuplicatedViolations() { return gOpt.dup; }
const oclint::RulesetFilter &rulesetFilter() { return gOpt.filter; }
std::string reportType() { return "text"; } std::string reporterPath() { return "r"; } bool enableVerbose() { return false; } bool enableGlobalAnalysis() { return false; } bool enableClangChecker() { return false; }
} }
llvm::cl::OptionCategory *sym_category() { return nullptr; }
alignas(8) char gCategory[sizeof(llvm::cl::OptionCategory)] __asm__("OCLintOptionCategory");
static struct Log { int rulesLoads = 0, ran = 0, reported = 0; std::vector<std::string> loadedFrom; Results *results = nullptr; std::ostream *to = nullptr; bool analyzerOk = true; size_t listed = 0; } gLog;
static struct Faults { bool parse = false, rules = false, reporter = false, run = false, report = false; int failAt = 0; } gF;
static TestRule r1("one", "c", 1), r2("two", "c", 2), r3("three", "c", 3);
static std::vector<Violation> gFound; static int gErrors, gWarnings, gBugs; static bool gRules = true;
struct ParseError : llvm::ErrorInfo<ParseError> { static char ID; void log(llvm::raw_ostream &) const override {} std::error_code convertToErrorCode() const override { return {}; } };
char ParseError::ID;
llvm::Expected<clang::tooling::CommonOptionsParser> clang::tooling::CommonOptionsParser::create(int &, const char **, llvm::cl::OptionCategory &, llvm::cl::NumOccurrencesFlag, const char *) {
  if (gF.parse) return llvm::make_error<ParseError>();
  return clang::tooling::CommonOptionsParser();
}
void dynamicLoadRules(std::string p) { gLog.loadedFrom.push_back(p); if (gF.rules && (int)gLog.loadedFrom.size() == gF.failAt + 1) throw oclint::GenericException("cannot open dynamic library: x");
  if (gRules && gLog.rulesLoads++ == 0) { new RuleSet(&r1); new RuleSet(&r2); new RuleSet(&r3); } }
void oclint::Driver::run(const clang::tooling::CompilationDatabase &, llvm::ArrayRef<std::string>, oclint::Analyzer &) {
  gLog.ran++; if (gF.run) throw oclint::GenericException("driver");
  auto *rc = ResultCollector::getInstance(); auto *s = new ViolationSet; for (auto &v : gFound) s->addViolation(v); rc->add(s);
  Violation d(nullptr, "f", 1, 1, 0, 0, "d"); for (int i = 0; i < gErrors; i++) rc->addError(d); for (int i = 0; i < gWarnings; i++) rc->addWarning(d); for (int i = 0; i < gBugs; i++) rc->addCheckerBug(d);
}
struct TheReporter : Reporter {
  void report(Results *r, std::ostream &o) override { gLog.reported++; gLog.to = &o; gLog.listed = r->allViolations().size(); o << "REPORT"; if (gF.report) throw oclint::GenericException("reporter"); }
  const std::string name() const override { return "text"; }
};
static TheReporter gReporter;
void loadReporter() { if (gF.reporter) throw oclint::GenericException("no reporter"); }
oclint::Reporter *reporter() { return &gReporter; }
namespace llvm { namespace cl { void SetVersionPrinter(VersionPrinterTy) {} } }
#define main oclint_main
#define ofstream sym_ofstream
#include "main.cpp"
#undef main
#undef ofstream
static const char *gArgv[] = {"oclint", "f.c", nullptr};
static bool has(const std::string &s, const char *what) { return s.find(what) != std::string::npos; }

static void findings(int n, bool free) {
  TestRule *rs[] = {&r1, &r2, &r3};
  for (int i = 0; i < n; i++) { TestRule *r = rs[sym_choose("priority", 1, 3) - 1]; gFound.push_back(Violation(r, "f.c", free ? sym_int("line", 0, 1) : i, 1, 1, 1, "m")); }
}
// no fault: the status depends on errors and thresholds only
static void status(int n, bool free, int lo, int hi, int only) {
  findings(n, free); gOpt.rulesPath.push_back("rules");
  for (int i = 0; i < 3; i++) gOpt.max[i] = only < 0 || only == i ? (int)sym_int("max", lo, hi) : 1000;
  gOpt.dup = free && sym_choose("dup", 0, 1); gErrors = sym_choose("errors", 0, 2); gWarnings = gErrors ? 0 : n ? 1 : 0; gBugs = gWarnings;
  int rc = oclint_main(2, gArgv);
  int c[3] = {0, 0, 0};
  for (size_t i = 0; i < gFound.size(); i++) { bool dup = false; if (!gOpt.dup) for (size_t j = 0; j < i; j++) dup = sym_or(dup, sameViolation(gFound[i], gFound[j])); int p = ((TestRule *)gFound[i].rule)->p; c[p - 1] = (int)sym_ite(dup, (uint64_t)c[p - 1], (uint64_t)(c[p - 1] + 1)); }
  bool exceed = sym_or(sym_or(c[0] > gOpt.max[0], c[1] > gOpt.max[1]), c[2] > gOpt.max[2]);
  sym_assert(sym_or(gErrors == 0, rc == 6), "compilation errors give status 6");
  sym_assert(sym_or(gErrors > 0, sym_or(sym_not(exceed), rc == 5)), "violations over a threshold give status 5");
  sym_assert(sym_or(gErrors > 0, sym_or(exceed, rc == 0)), "otherwise the status is 0");
  sym_assert(gLog.reported == 1 && gLog.ran == 1, "one analysis, one report");
  sym_assert(has(sym_stdout(), "REPORT"), "the report goes to standard output");
  sym_assert(has(sym_stderr(), "violations exceed threshold") == (rc == 5), "the threshold message is printed exactly with status 5");
  sym_cover(rc == 0 ? "ok" : rc == 5 ? "exceed" : "errors"); sym_observe("rc", rc); sym_observe("listed", gLog.listed);
}
HARNESS(exit_status) { status(sym_choose("n", 0, 2), false, -2, 9, -1); }
#ifdef TIER_THOROUGH
HARNESS(exit_status_many) { status(4, false, 0, 9, -1); }
HARNESS(exit_status_duplicates) { status(3, true, 0, 3, -1); }
#else
HARNESS(exit_status_many) { status(3, false, 0, 9, -1); }
HARNESS(exit_status_duplicates) { status(2, true, 0, 3, -1); }
#endif
HARNESS(exit_status_any_threshold) { status(2, false, -2147483647 - 1, 2147483647, sym_choose("which", 0, 2)); }
// faults at every stage
HARNESS(faults) {
  int np = sym_choose("paths", 0, 2); for (int i = 0; i < np; i++) gOpt.rulesPath.push_back(i ? "b" : "a");
  gF.parse = sym_choose("parse", 0, 1); gF.rules = sym_choose("rules", 0, 1); gF.failAt = sym_choose("failAt", 0, 1); gRules = sym_choose("any rule", 0, 1); gF.reporter = sym_choose("reporter", 0, 1);
  gF.run = sym_choose("run", 0, 1); gF.report = sym_choose("report", 0, 1); gOpt.hasOut = sym_choose("out", 0, 1); gOpt.out = "/tmp/report"; gFile.fails = sym_choose("open", 0, 1);
  gErrors = sym_choose("errors", 0, 1); findings(1, false); gOpt.max[0] = gOpt.max[1] = gOpt.max[2] = 0;
  int rc = oclint_main(2, gArgv);
  bool rulesThrow = gF.rules && gF.failAt < np; bool norules = !gRules || np == 0;
  int want = gF.parse ? 7 : rulesThrow || norules ? 1 : gF.reporter ? 2 : gF.run ? 3 : (gOpt.hasOut && gFile.fails) || gF.report ? 4 : gErrors ? 6 : 5;
  sym_assert(rc == want, "the status names the stage that failed");
  bool reached = want == 0 || want >= 3 && want <= 6;
  sym_assert(gLog.ran == (reached ? 1 : 0), "analysis runs exactly when rules and reporter are loaded");
  sym_assert(gLog.reported == (want == 5 || want == 6 || (want == 4 && !(gOpt.hasOut && gFile.fails)) ? 1 : 0), "a report is written exactly when the analysis succeeded and the output can be opened");
  if (want >= 5 && want <= 6) { if (gOpt.hasOut) sym_assert(gFile.opened == 1 && gFile.path == "/tmp/report" && gFile.closed == 1 && gFile.content == "REPORT" && !has(sym_stdout(), "REPORT"), "the report is written to the output file and only there");
    else sym_assert(gFile.opened == 0 && has(sym_stdout(), "REPORT"), "the report goes to standard output"); }
  if (!gF.parse) sym_assert(gOpt.processed == 1, "options are processed once");
  if (want >= 1 && want <= 4) sym_assert(has(sym_stderr(), "oclint: error: "), "a failure is explained on standard error");
  static const char *names[] = {"0", "1", "2", "3", "4", "5", "6", "7"}; sym_cover(names[rc]); sym_observe("rc", rc);
}
// every rules directory is loaded, in order; listing names the rules that run
HARNESS(listing) {
  gOpt.list = sym_choose("list", 0, 1); int np = sym_choose("paths", 1, 3); for (int i = 0; i < np; i++) gOpt.rulesPath.push_back(std::string(1, 'a' + i));
  int dis = sym_choose("disabled", 0, 3); const char *ids[] = {"", "One", "Two", "Three"}; if (dis) gOpt.filter.disableRule(ids[dis]);
  int rc = oclint_main(2, gArgv); sym_assert(rc == 0, "nothing found: status 0");
  sym_assert((int)gLog.loadedFrom.size() == np, "every rules directory is loaded once");
  for (int i = 0; i < np && i < (int)gLog.loadedFrom.size(); i++) sym_assert(gLog.loadedFrom[i] == gOpt.rulesPath[i], "rules directories are loaded in the given order");
  std::string o = sym_stdout();
  for (int i = 1; i <= 3; i++) sym_assert(has(o, (std::string("- ") + ids[i] + "\n").c_str()) == (gOpt.list && i != dis), "the listing names exactly the enabled rules");
  sym_assert(has(o, "Enabled rules:") == gOpt.list, "rules are listed only on request"); if (gOpt.list) sym_cover("listed");
}
