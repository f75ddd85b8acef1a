// Options: command line, configuration files of the project, the user and the installation, defaults; paths.
#include "sym.h"
#include "oclint/ConfigFile.h"
#include "oclint/RuleSet.h"
#include "oclint/RuleConfiguration.h"
#include "util.h"
#include "Options.cpp"
#include <map>
#ifndef SYM_NATIVE
extern std::map<std::string, std::string> gFiles; extern std::string gCwd; extern const char *gHome; extern std::string gProgram;
static std::string base() { return "/tmp/ocl000000"; }
static void dir(const std::string &) {}
static void file(const std::string &p, const std::string &s) { gFiles[p] = s; }
static void cwd(const std::string &p) { gCwd = p; }
static void home(const char *p) { gHome = p; }
static void onPath(const std::string &p) { gProgram = p; }
#else
#include <sys/stat.h>
#include <cstdlib>
static std::string gBase; static void cleanup() { if (!gBase.empty()) { std::string c = "rm -rf '" + gBase + "'"; if (system(c.c_str())) {} } }
static std::string base() { if (gBase.empty()) { char b[] = "/tmp/oclXXXXXX"; gBase = mkdtemp(b); atexit(cleanup); } return gBase; }
static void dir(const std::string &p) { std::string c = "mkdir -p '" + p + "'"; if (system(c.c_str())) {} }
static void file(const std::string &p, const std::string &s) { dir(p.substr(0, p.rfind('/'))); FILE *f = fopen(p.c_str(), "w"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
static void cwd(const std::string &p) { dir(p); if (chdir(p.c_str())) {} }
static void home(const char *p) { if (p) setenv("HOME", p, 1); else unsetenv("HOME"); }
static void onPath(const std::string &p) { if (p.empty()) setenv("PATH", "/nowhere", 1); else { file(p, "#!/bin/sh\n"); chmod(p.c_str(), 0755); setenv("PATH", p.substr(0, p.rfind('/')).c_str(), 1); } }
#endif
static void arg(llvm::cl::Option &o, const std::string &v) { o.addOccurrence(1, o.ArgStr, v); }
// the three places of configuration files, from the weakest
static std::string place(int i) { return i == 0 ? base() + "/inst/etc/oclint" : i == 1 ? base() + "/home/.oclint" : base() + "/work/.oclint"; }
static void start() { dir(base() + "/inst/bin"); dir(base() + "/inst/etc"); cwd(base() + "/work"); std::string *h = new std::string(base() + "/home"); home(h->c_str()); }
static void run() { oclint::option::process((base() + "/inst/bin/oclint").c_str()); }
static std::string letters(const char *n, size_t l) { std::string s = sym_string(n, l); for (char c : s) sym_assume(sym_and(c >= 'a', c <= 'm')); return s; }
// one option, everywhere it may be set
static const char *kKey[] = {"output", "report-type", "max-priority-1", "max-priority-2", "max-priority-3", "enable-clang-static-analyzer", "allow-duplicated-violations", "enable-global-analysis"};
static std::string text(int o, const std::string &v) { return std::string(kKey[o]) + ": " + v + "\n"; }
HARNESS(precedence) {
  start(); int o = sym_choose("option", 0, 7), mask = sym_choose("where", 0, 15), oth = sym_choose("others", 0, 3), others = oth == 0 ? 0 : oth == 1 ? 15 : oth == 2 ? 15 & ~mask : mask; llvm::cl::Option *opts[] = {&argOutput, &argReportType, &argMaxP1, &argMaxP2, &argMaxP3, &argClangChecker, &argDuplications, &argGlobalAnalysis};
  std::string want, wantOther[8]; static const char *deflt[] = {"-", "text", "0", "10", "20", "false", "false", "false"}; want = deflt[o]; for (int k = 0; k < 8; k++) wantOther[k] = deflt[k];
  for (int i = 0; i < 4; i++) { std::string t = i < 3 && sym_choose("comment", 0, 0) ? "# configuration\n" : "";
    for (int k = 0; k < 8; k++) if (k != o && (others >> i & 1)) { std::string v = k < 2 ? std::string("zz") + (char)('0' + i) : k < 5 ? std::to_string(70 + 10 * i + k) : i & 1 ? "false" : "true"; if (i < 3) t += text(k, v); else arg(*opts[k], v); wantOther[k] = v; }
    if (mask >> i & 1) { std::string v = o < 2 ? letters("value", 3) : o < 5 ? std::string() : sym_choose("value", 0, 1) ? "true" : "false"; if (o >= 2 && o < 5) { int digits = sym_choose("digits", 1, 2); v = sym_string("number", digits); sym_assume(sym_and(v[0] >= (digits == 2 ? '1' : '0'), v[0] <= '9')); if (digits == 2) sym_assume(sym_and(v[1] >= '0', v[1] <= '9')); if (sym_choose("negative", 0, 1)) v = "-" + v; }
      if (i < 3) t = sym_choose("first", 0, 0) ? text(o, v) + t : t + text(o, v); else arg(*opts[o], v); want = v; }
    if (i < 3 && !t.empty()) file(place(i), t); }
  run(); auto num = [](int v, const std::string &s) { int n = 0; bool neg = s[0] == '-'; for (size_t i = neg; i < s.size(); i++) n = n * 10 + (s[i] - '0'); return v == (neg ? -n : n); };
  using namespace oclint::option; wantOther[o] = want;
  auto path = [](const std::string &s) { return s == "-" ? s : base() + "/work/" + s; };
  sym_assert(sym_eq(argOutput, wantOther[0]) && hasOutputPath() == (wantOther[0] != "-"), "the strongest output wins"); if (hasOutputPath()) sym_assert(sym_eq(outputPath(), path(wantOther[0])), "a relative output path starts at the working directory");
  sym_assert(sym_eq(reportType(), wantOther[1]), "the strongest report type wins"); sym_assert(num(maxP1(), wantOther[2]), "the strongest limit of priority 1 wins"); sym_assert(num(maxP2(), wantOther[3]), "the strongest limit of priority 2 wins"); sym_assert(num(maxP3(), wantOther[4]), "the strongest limit of priority 3 wins");
  sym_assert(enableClangChecker() == (wantOther[5] == "true"), "the strongest choice of the static analyzer wins"); sym_assert(allowDuplicatedViolations() == (wantOther[6] == "true"), "the strongest choice about duplicates wins"); sym_assert(enableGlobalAnalysis() == (wantOther[7] == "true"), "the strongest choice of global analysis wins");
  sym_cover(mask ? "set" : "default"); sym_observe("p1", maxP1()); sym_observe("type", reportType().size());
}
HARNESS(rule_configurations) {
  start(); std::vector<std::pair<std::string, std::string>> all; int total = 0;
  for (int i = 0; i < 4; i++) { int n = sym_choose("n", 0, i == 2 ? 2 : 1); std::string t; for (int k = 0; k < n; k++) { std::string key = "K" + letters("key", 1), v = letters("value", 2); all.push_back({key, v}); total++; if (i < 3) t += "  - key: " + key + "\n    value: " + v + "\n"; else arg(argRuleConfiguration, key + "=" + v); } if (n && i < 3) file(place(i), "rule-configurations:\n" + t); }
  run(); for (size_t i = 0; i < all.size(); i++) { bool last = true; for (size_t j = i + 1; j < all.size(); j++) last = sym_and(last, sym_not(sym_eq(all[i].first, all[j].first))); if (sym_concretize(last)) sym_assert(sym_eq(RuleConfiguration::stringForKey(all[i].first, "none"), all[i].second), "the last configuration of a key counts, the command line last"); }
  sym_assert(RuleConfiguration::stringForKey("none", "zz") == "zz", "nothing else is configured"); sym_cover(total ? "some" : "none"); sym_observe("n", total);
}
HARNESS(rule_selection) {
  start(); int decided = 0; bool any = false; for (int i = 0; i < 4; i++) { int w = sym_choose("decision", 0, 3); std::string t; // disabling after enabling in the same place
    if (w & 1) { if (i < 3) t += "rules:\n  - First\n"; else arg(argEnabledRules, "First"); any = true; decided = 1; } if (w & 2) { if (i < 3) t += "disable-rules:\n  - First\n"; else arg(argDisabledRules, "First"); decided = -1; }
    if (!t.empty()) file(place(i), t); }
  static TestRule a("first", "c", 1), b("second", "c", 1); new RuleSet(&a); new RuleSet(&b); run(); auto v = oclint::option::rulesetFilter().filteredRules(); bool hasA = false, hasB = false; for (auto *r : v) { if (r == &a) hasA = true; if (r == &b) hasB = true; }
  (void)any; sym_assert(hasA == (decided >= 0), "the last decision about a rule counts: installation, user, project, command line"); sym_assert(hasB == (decided <= 0), "other rules run unless some are selected"); sym_cover(decided > 0 ? "enabled" : decided < 0 ? "disabled" : "undecided"); sym_observe("n", v.size());
}
HARNESS(rule_paths) {
  start(); std::vector<std::string> want; int nc = sym_choose("arguments", 0, 2); for (int k = 0; k < nc; k++) { std::string p = letters("path", 2); arg(argRulesPath, p); want.push_back(p); }
  for (int i = 0; i < 3; i++) { int n = sym_choose("n", 0, i == 1 ? 2 : 1); std::string t; for (int k = 0; k < n; k++) { std::string p = letters("path", 3); t += "- " + p + "\n"; want.push_back(p); } if (n) file(place(i), "rule-paths:\n" + t); }
  bool none = want.empty(); run(); if (none) want.push_back(base() + "/inst/bin/../lib/oclint/rules"); auto got = oclint::option::rulesPath(); sym_assert(got.size() == want.size(), "every configured rule path counts, the installed one only if there is none"); for (size_t i = 0; i < got.size() && i < want.size(); i++) sym_assert(sym_eq(got[i], want[i]), "rule paths are kept, in order"); sym_cover(none ? "installed" : "configured"); sym_observe("n", got.size());
}
// a configuration is kept as long as it is used
HARNESS(config_file) {
  start(); std::vector<std::string> rules, off, paths; std::string t; auto list = [&](const char *n, std::vector<std::string> &v, int most) { int c = sym_choose("n", 0, most); if (c) t += std::string(n) + ":\n"; for (int i = 0; i < c; i++) { v.push_back(letters("item", 2)); int q = sym_choose("quoted", 0, 1); t += "- " + std::string(q ? "\"" : "") + v.back() + (q ? "\"\n" : "\n"); } };
  list("rules", rules, 2); list("disable-rules", off, 1); list("rule-paths", paths, 1); std::string key = letters("key", 2), val = letters("value", 2), out = letters("output", 2); t += "rule-configurations:\n- key: " + key + "\n  value: " + val + "\noutput: " + out + "\n"; file(base() + "/work/c", t); oclint::option::ConfigFile c(base() + "/work/c");
  auto same = [](llvm::StringRef a, const std::string &b) { return sym_eq(std::string(a.data(), a.size()), b); }; auto all = [&](const auto &g, const std::vector<std::string> &w) { sym_assert(g.size() == w.size(), "every entry of a list is read"); for (size_t i = 0; i < w.size() && i < g.size(); i++) sym_assert(same(g[i], w[i]), "the entries of a list are read"); };
  all(c.rules(), rules); all(c.disableRules(), off); all(c.rulePaths(), paths); sym_assert(c.ruleConfigurations().size() == 1 && same(c.ruleConfigurations()[0].key(), key) && same(c.ruleConfigurations()[0].value(), val), "a rule configuration is read"); sym_assert(c.output().has_value() && sym_eq(*c.output(), out), "the output is read"); sym_assert(!c.maxP1().has_value() && !c.clangChecker().has_value(), "what is not there is not set"); sym_cover("read"); sym_observe("rules", c.rules().size());
}
// paths: of the program, the working directory, the output, the home directory
HARNESS(paths) {
  start(); using namespace oclint::option; int prog = sym_choose("program", 0, 3), len = sym_choose("length", 0, 3), out = sym_choose("output", 0, 3), h = sym_choose("home", 0, 2); static const int kLen[] = {20, 298, 299, 700};
  std::string w = base() + "/"; while ((int)w.size() < kLen[len]) w += w.size() % 50 == 0 && (int)w.size() + 1 < kLen[len] ? '/' : 'd'; cwd(w); if (h == 0) home(nullptr); else if (h == 1) home("");
  if (h < 2) file(base() + "/home/.oclint", "output: never\n"); file(w + "/.oclint", "report-type: zz\n"); onPath(prog == 3 ? base() + "/p/oclint" : "");
  std::string p = prog == 0 ? base() + "/inst/bin/oclint" : prog == 1 ? "sub/bin/oclint" : "oclint", bin = prog == 0 ? base() + "/inst/bin" : prog == 1 ? w + "/sub/bin" : prog == 2 ? w : base() + "/p"; std::string o;
  if (out) { o = letters("name", 2); if (out == 2) o = "/" + o; if (out == 3) o = ""; arg(argOutput, o); } oclint::option::process(p.c_str());
  sym_assert(workingPath() == w, "the working directory is known, of any length"); sym_assert(binPath() == bin, "the directory of the program is known"); sym_assert(installPrefix() == bin + "/.." && libPath() == bin + "/../lib" && etcPath() == bin + "/../etc" && reporterPath() == bin + "/../lib/oclint/reporters", "the installation is found from the program"); sym_assert(hasOutputPath() == (out != 0), "there is an output path exactly if one is given");
  if (out) sym_assert(sym_eq(outputPath(), out == 2 ? o : w + "/" + o), "an output path is absolute or starts at the working directory"); sym_assert(reportType() == "zz", "the project's configuration is in the working directory"); sym_assert(homePath() == (h == 2 ? base() + "/home" : ""), "the home directory is the one in the environment"); sym_cover(out ? "output" : "none"); sym_observe("length", w.size() - base().size());
}
