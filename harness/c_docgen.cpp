// The generator of the rule documentation (main_docgen.cpp).
#include "sym.h"
#include <fstream>
#include <sstream>
#include <iostream>
#include <cstring>
#include <algorithm>
#include <vector>
#include <map>
#include <ctime>
#include <unistd.h>
#include <memory>
#include <clang/Tooling/CommonOptionsParser.h>
#include "oclint/Options.h"
#include "oclint/GenericException.h"
#include "oclint/RuleBase.h"
#include "oclint/RuleSet.h"
#include "rules.h"
using namespace oclint;
struct Written { std::string path, text; bool closed; }; static std::vector<Written> *gFilesOut = new std::vector<Written>();
namespace std { struct sym_ofstream : ostringstream { string p; bool done = false; explicit sym_ofstream(const char *x) : p(x) {} explicit sym_ofstream(const string &x) : p(x) {} bool is_open() const { return !done; } void close() { if (!done) gFilesOut->push_back({p, str(), true}); done = true; } ~sym_ofstream() { close(); } }; }
static struct Opt { std::vector<std::string> paths, loaded; int failAt = -1, processed = 0; bool any = true; } gOpt;
namespace oclint { namespace option { void process(const char *) { gOpt.processed++; } std::vector<std::string> rulesPath() { return gOpt.paths; } } }
alignas(8) char gCategory[sizeof(llvm::cl::OptionCategory)] __asm__("OCLintOptionCategory");
llvm::Expected<clang::tooling::CommonOptionsParser> clang::tooling::CommonOptionsParser::create(int &, const char **, llvm::cl::OptionCategory &, llvm::cl::NumOccurrencesFlag, const char *) { return clang::tooling::CommonOptionsParser(); }
namespace llvm { namespace cl { void SetVersionPrinter(VersionPrinterTy) {} } }
struct DocRule : RuleBase {
  std::string n, id, c, d, e, s, a; std::map<std::string, std::string> t; bool sup = false; void apply() override {} const std::string name() const override { return n; } const std::string category() const override { return c; } int priority() const override { return 1; }
  const std::string since() const override { return s; } const std::string description() const override { return d; } const std::string example() const override { return e; } const std::map<std::string, std::string> thresholds() const override { return t; } bool enableSuppress() const override { return sup; } const std::string additionalDocument() const override { return a; } };
static std::vector<DocRule *> gAll;
void dynamicLoadRules(std::string p) { gOpt.loaded.push_back(p); if ((int)gOpt.loaded.size() == gOpt.failAt + 1) throw GenericException("cannot open dynamic library: x"); if (gOpt.loaded.size() == 1) for (DocRule *r : gAll) new RuleSet(r); }
static time_t fakeTime(time_t *) { return 0; } static tm *fakeLocaltime(const time_t *) { static tm t; return &t; } static char *fakeAsctime(const tm *) { static char s[] = "day\n"; return s; }
#define time fakeTime
#define localtime fakeLocaltime
#define asctime fakeAsctime
#define main docgen_main
#define ofstream sym_ofstream
#include "main_docgen.cpp"
#undef main
#undef ofstream
#ifndef RULES
#define RULES 3
#endif
#undef time
#undef localtime
#undef asctime
static const char *gArgv[] = {"docgen", "f.c", nullptr};
static std::string small_(const char *label, size_t n) { std::string s = sym_string(label, n); for (char c : s) sym_assume(sym_and(c >= 'a', c <= 'z')); return s; }
static char up(char c) { return (char)(c - 32); }
static bool lower(char c) { return sym_concretize(sym_and(c >= 'a', c <= 'z')); } static bool letter(char c) { return lower(c) || sym_concretize(sym_and(c >= 'A', c <= 'Z')); }
// a name: a letter, then letters, blanks and other characters
static std::string name_(size_t n) { std::string s = sym_string("name", n); for (size_t i = 0; i < n; i++) if (i == 1) sym_assume(sym_or(sym_or(s[i] == ' ', s[i] == '-'), sym_and(s[i] >= 'a', s[i] <= 'z'))); else sym_assume(sym_or(sym_and(s[i] >= 'A', s[i] <= 'Z'), sym_and(s[i] >= 'a', s[i] <= 'z'))); return s; }
static std::string ident(const std::string &n) { std::string r; bool first = true; for (char c : n) { if (!letter(c)) { first = true; continue; } r += first && lower(c) ? up(c) : c; first = false; } return r; }
static std::string section(DocRule *r) {
  std::string id = r->id, line(id.size(), '-'), u = "oclint-rules/rules/" + r->c + "/" + id + "Rule.cpp", s = id + "\n" + line + "\n\n**Since: " + r->s + "**\n\n**Name: " + r->n + "**\n\n" + r->d + "\n\nThis rule is defined by the following class: `" + u + " <https://github.com/oclint/oclint/blob/master/" + u + ">`_\n\n**Example:**\n\n" + r->e + "\n\n";
  if (!r->t.empty()) { s += "**Thresholds:**\n\n"; for (auto &x : r->t) s += x.first + "\n    " + x.second + "\n"; s += "\n"; } if (r->sup) s += "**Suppress:**\n\n.. code-block:: cpp\n\n    __attribute__((annotate(\"oclint:suppress[" + r->n + "]\")))\n\n"; if (!r->a.empty()) s += r->a + "\n"; return s; }
static bool before(const std::string &a, const std::string &b) { for (size_t i = 0; i < a.size() && i < b.size(); i++) { if (sym_concretize(a[i] < b[i])) return true; if (sym_concretize(a[i] > b[i])) return false; } return a.size() < b.size(); }
static bool same(const std::string &a, const std::string &b) { return sym_concretize(sym_eq(a, b)); }
// the text up to the date of the day
static void is(const std::string &got, const std::string &want, const char *label) { std::string w = want + "\n.. Generated on "; sym_assert(got.size() > w.size() && sym_eq(got.substr(0, w.size()), w), label); }
HARNESS(documentation) {
  int n = sym_choose("rules", 0, RULES); for (int i = 0; i < n; i++) { DocRule *r = new DocRule(); r->n = i > 1 || (i == 0 && n > 3) ? small_("name", 1) : name_(1 + (i == 1 ? n > 3 ? sym_choose("longer", 0, 1) : 2 * sym_choose("longer", 0, 1) : 0)); r->id = ident(r->n); r->c = small_("category", i == 2 ? sym_choose("length", 1, 2) : 1); r->s = small_("since", 1); r->d = sym_string("description", 2); r->e = sym_string("example", 1); if (i == 0 && n == 1) { int t = sym_choose("thresholds", 0, 2); for (int k = 0; k < t; k++) r->t[k ? "TB" : "TA"] = small_("threshold", 1); r->sup = sym_choose("suppress", 0, 1); if (sym_choose("more", 0, 1)) r->a = small_("additional", 1); } else if (i == 1) { r->t["TC"] = "x"; r->sup = true; } for (DocRule *o : gAll) sym_assume(sym_not(sym_eq(o->id, r->id))); gAll.push_back(r); }
  gOpt.paths = {"p"}; if (sym_choose("two folders", 0, 1)) { gOpt.paths.push_back("q"); gOpt.failAt = sym_choose("fails", 0, 2) - 1; } int rc = docgen_main(2, gArgv);
  if (gOpt.failAt >= 0 || !n) { sym_assert(rc != 0 && gFilesOut->empty(), "without rules, or if one cannot be loaded, nothing is written and the status says so"); sym_cover("error"); return; }
  sym_assert(rc == 0 && gOpt.processed == 1 && gOpt.loaded == gOpt.paths, "the rules of every folder are documented"); std::vector<std::string> cats; for (DocRule *r : gAll) { bool have = false; for (auto &c : cats) have = have || same(c, r->c); if (!have) cats.push_back(r->c); }
  for (size_t i = 0; i < cats.size(); i++) for (size_t j = i + 1; j < cats.size(); j++) if (before(cats[j], cats[i])) std::swap(cats[i], cats[j]);
  std::vector<DocRule *> rs = gAll; for (size_t i = 0; i < rs.size(); i++) for (size_t j = i + 1; j < rs.size(); j++) if (before(rs[j]->id, rs[i]->id)) std::swap(rs[i], rs[j]);
  std::string dir = "../build/oclint-docs/rules/", index = "Rule Index\n==========\n\nOCLint |release| includes " + std::to_string(n) + " rules.\n\n.. toctree::\n   :maxdepth: 2\n\n"; for (auto &c : cats) index += "   " + c + "\n";
  sym_assert(gFilesOut->size() == cats.size() + 1, "there is one file for every category, and the index"); bool indexSeen = false; std::vector<bool> seen(cats.size());
  for (auto &f : *gFilesOut) { if (same(f.path, dir + "index.rst")) { indexSeen = true; is(f.text, index, "the index lists every category once, in order"); continue; }
    for (size_t i = 0; i < cats.size(); i++) if (same(f.path, dir + cats[i] + ".rst")) { seen[i] = true; std::string s = cats[i]; s[0] = up(s[0]); s += "\n" + std::string(s.size(), '=') + "\n\n"; for (DocRule *r : rs) if (same(r->c, cats[i])) s += section(r); is(f.text, s, "every rule is described once, in its category, in order"); } }
  sym_assert(indexSeen, "there is an index"); for (bool b : seen) sym_assert(b, "every category has a file"); sym_cover(cats.size() > 1 ? "several" : "one"); sym_observe("files", gFilesOut->size()); }
