// The report formats: whatever the violations contain, reading the report back (with the parsers below, written from
// the formats' own grammars) gives exactly the violations.
#include "util.h"
#include "oclint/Reporter.h"
#include "oclint/Constants.h"
#include <sstream>
#include <ctime>
#include <chrono>
#include <cstring>

static time_t gNow = 86400; static struct tm gTm;
extern "C" {
time_t time(time_t *t) noexcept { if (t) *t = gNow; return gNow; }
struct tm *gmtime(const time_t *) noexcept { return &gTm; }
struct tm *gmtime_r(const time_t *, struct tm *r) noexcept { *r = gTm; return r; }
char *ctime(const time_t *) noexcept { static char b[32] = "Thu Jan  1 00:00:00 1970\n"; return b; }
}
namespace std { namespace chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { return system_clock::time_point(std::chrono::seconds(gNow)); } } } }
extern "C" oclint::Reporter *create();
static std::string dec(long v) { char t[24], r[24]; bool neg = sym_concretize(v < 0); unsigned long u = neg ? 0ul - (unsigned long)v : (unsigned long)v; int n = 0, k = 0; do { t[n++] = '0' + u % 10; u /= 10; } while (u); if (neg) r[k++] = '-'; while (n) r[k++] = t[--n]; return std::string(r, k); }
struct Given : Results {
  std::vector<Violation> v, e, w, b; int files = 1, filesWith = 1;
  std::vector<Violation> allViolations() const override { return v; }
  int numberOfViolations() const override { return v.size(); }
  int extra[4] = {0, 0, 0, 0};
  int numberOfViolationsWithPriority(int p) const override { int n = p >= 1 && p <= 3 ? extra[p] : 0; for (auto &x : v) if (x.rule->priority() == p) n++; return n; }
  int numberOfFiles() const override { return files; }
  int numberOfFilesWithViolations() const override { return filesWith; }
  int numberOfErrors() const override { return e.size(); } bool hasErrors() const override { return !e.empty(); } const std::vector<Violation> &allErrors() const override { return e; }
  int numberOfWarnings() const override { return w.size(); } bool hasWarnings() const override { return !w.empty(); } const std::vector<Violation> &allWarnings() const override { return w; }
  int numberOfCheckerBugs() const override { return b.size(); } bool hasCheckerBugs() const override { return !b.empty(); } const std::vector<Violation> &allCheckerBugs() const override { return b; }
};
#define BAD(m) do { sym_assert(false, m); sym_end_path(); } while (0)
static void same(const std::string &got, const std::string &want, const char *what) { sym_assert(sym_eq(got, want), what); }
static std::string render(Given &g) { std::ostringstream o; create()->report(&g, o); return o.str(); }
static void checkReport(Given &g);

#if defined(R_JSON)
struct J { enum K { Obj, Arr, Str, Num, Other } k = Other; std::string s; std::vector<std::pair<std::string, J>> f;
  const J *get(const char *n) const { const J *r = nullptr; for (auto &p : f) if (p.first == n) { if (r) BAD("a member appears twice"); r = &p.second; } return r; } };
struct JP {
  const std::string &t; size_t i = 0; int depth = 0; explicit JP(const std::string &t) : t(t) {}
  char c() { if (i >= t.size()) BAD("well-formed JSON"); return t[i]; }
  void ws() { while (i < t.size() && (t[i] == ' ' || t[i] == '\n' || t[i] == '\t' || t[i] == '\r')) i++; }
  void eat(char x) { if (c() != x) BAD("well-formed JSON"); i++; }
  std::string str() { eat('"'); std::string r;
    for (;;) { char x = c(); i++; if (x == '"') return r; if ((unsigned char)x < 0x20) BAD("well-formed JSON");
      if (x != '\\') { r += x; continue; }
      char y = c(); i++;
      if (y == '"' || y == '\\' || y == '/') r += y; else if (y == 'b') r += '\b'; else if (y == 'f') r += '\f'; else if (y == 'n') r += '\n'; else if (y == 'r') r += '\r'; else if (y == 't') r += '\t';
      else if (y == 'u') { unsigned v = 0; for (int k = 0; k < 4; k++) { char h = c(); i++; unsigned d; if (h >= '0' && h <= '9') d = h - '0'; else if (h >= 'a' && h <= 'f') d = h - 'a' + 10; else if (h >= 'A' && h <= 'F') d = h - 'A' + 10; else BAD("well-formed JSON"); v = v * 16 + d; } if (v >= 0x80) BAD("an ASCII character"); r += (char)v; }
      else BAD("well-formed JSON"); } }
  J value() { if (++depth > 6) BAD("nesting"); ws(); J r; char x = c();
    if (x == '{') { i++; r.k = J::Obj; ws(); if (c() != '}') for (;;) { ws(); std::string k = str(); ws(); eat(':'); r.f.push_back({k, value()}); ws(); if (c() == '}') break; eat(','); } i++; }
    else if (x == '[') { i++; r.k = J::Arr; ws(); if (c() != ']') for (;;) { r.f.push_back({"", value()}); ws(); if (c() == ']') break; eat(','); } i++; }
    else if (x == '"') { r.k = J::Str; r.s = str(); }
    else if (x == '-' || (x >= '0' && x <= '9')) { r.k = J::Num; if (x == '-') { r.s += x; i++; } size_t b = i; while (i < t.size() && t[i] >= '0' && t[i] <= '9') r.s += t[i++]; if (i == b || (i - b > 1 && t[b] == '0')) BAD("well-formed JSON"); }
    else BAD("well-formed JSON");
    depth--; return r; }
};
static const J &member(const J &o, const char *n, J::K k) { const J *m = o.get(n); if (o.k != J::Obj || !m || m->k != k) BAD("the report has the documented members"); return *m; }
static void num(const J &o, const char *n, long v, const char *l) { same(member(o, n, J::Num).s, dec(v), l); }
static void one(const J &o, const Violation &v) {
  same(member(o, "path", J::Str).s, v.path, "the path is reported exactly"); same(member(o, "message", J::Str).s, v.message, "the message is reported exactly");
  num(o, "startLine", v.startLine, "the start line is reported exactly"); num(o, "startColumn", v.startColumn, "the start column is reported exactly");
  if (v.endLine != 0 && v.endColumn != 0) { num(o, "endLine", v.endLine, "the end line is reported exactly"); num(o, "endColumn", v.endColumn, "the end column is reported exactly"); }
  else sym_assert(!o.get("endLine") && !o.get("endColumn"), "no end position unless it is known");
  if (v.rule) { same(member(o, "rule", J::Str).s, v.rule->name(), "the rule is reported exactly"); same(member(o, "category", J::Str).s, v.rule->category(), "the category is reported exactly"); num(o, "priority", v.rule->priority(), "the priority is reported exactly"); }
  else sym_assert(!o.get("rule") && !o.get("category") && !o.get("priority"), "no rule for a diagnostic");
}
static void list(const J &o, const char *n, const std::vector<Violation> &v) { const J &a = member(o, n, J::Arr); sym_assert(a.f.size() == v.size(), "every violation is reported once"); if (a.f.size() != v.size()) sym_end_path(); for (size_t i = 0; i < v.size(); i++) one(a.f[i].second, v[i]); }
static void checkReport(Given &g) {
  std::string t = render(g); JP p(t); J o = p.value(); p.ws(); if (p.i != t.size()) BAD("one JSON value");
  same(member(o, "version", J::Str).s, Constants::version(), "version"); same(member(o, "url", J::Str).s, Constants::homepage(), "url"); num(o, "timestamp", gNow, "the time stamp is the current time");
  const J &s = member(o, "summary", J::Obj); num(s, "numberOfFiles", g.files, "number of files"); num(s, "numberOfFilesWithViolations", g.filesWith, "number of files with violations");
  const J &c = member(s, "numberOfViolationsWithPriority", J::Arr); sym_assert(c.f.size() == 3, "three priorities"); if (c.f.size() != 3) sym_end_path();
  for (int i = 1; i <= 3; i++) { num(c.f[i - 1].second, "priority", i, "priority"); num(c.f[i - 1].second, "number", g.numberOfViolationsWithPriority(i), "number of violations with the priority"); }
  list(o, "violation", g.v); list(o, "clangStaticAnalyzer", g.b);
}
#endif

#if defined(R_XML) || defined(R_PMD) || defined(R_HTML)
// markup: elements, attributes, text, references
struct X { std::string name, text; std::vector<std::pair<std::string, std::string>> a; std::vector<X> c;
  const std::string &attr(const char *n) const { const std::string *r = nullptr; for (auto &p : a) if (p.first == n) { if (r) BAD("an attribute appears twice"); r = &p.second; } if (!r) BAD("the element has the documented attributes"); return *r; }
  bool has(const char *n) const { for (auto &p : a) if (p.first == n) return true; return false; }
  std::vector<const X *> kids(const char *n) const { std::vector<const X *> r; for (auto &k : c) if (k.name == n) r.push_back(&k); return r; }
  const X &kid(const char *n) const { auto k = kids(n); if (k.size() != 1) BAD("the report has the documented elements"); return *k[0]; } };
static bool nameChar(char x) { return (x >= 'a' && x <= 'z') || (x >= 'A' && x <= 'Z') || (x >= '0' && x <= '9') || x == '-' || x == '_' || x == ':'; }
struct XP {
  const std::string &t; size_t i = 0; bool html; int depth = 0; XP(const std::string &t, bool html) : t(t), html(html) {}
  char c(size_t k = 0) { if (i + k >= t.size()) BAD("well-formed markup"); return t[i + k]; }
  bool at(const char *s) { size_t n = strlen(s); if (i + n > t.size()) return false; for (size_t k = 0; k < n; k++) if (t[i + k] != s[k]) return false; return true; }
  void ws() { while (i < t.size() && (t[i] == ' ' || t[i] == '\n' || t[i] == '\t' || t[i] == '\r')) i++; }
  void eat(const char *s) { if (!at(s)) BAD("well-formed markup"); i += strlen(s); }
  std::string name() { std::string r; while (nameChar(c())) { r += c(); i++; } if (r.empty()) BAD("well-formed markup"); return r; }
  char ref() { i++;
    if (at("lt;")) { i += 3; return '<'; } if (at("gt;")) { i += 3; return '>'; } if (at("amp;")) { i += 4; return '&'; } if (at("quot;")) { i += 5; return '"'; } if (at("apos;")) { i += 5; return '\''; }
    eat("#"); unsigned base = 10; if (at("x") || (html && at("X"))) { base = 16; i++; } unsigned v = 0; int n = 0;
    for (; c() != ';'; i++, n++) { char h = c(); unsigned d; if (h >= '0' && h <= '9') d = h - '0'; else if (base == 16 && h >= 'a' && h <= 'f') d = h - 'a' + 10; else if (base == 16 && h >= 'A' && h <= 'F') d = h - 'A' + 10; else BAD("well-formed markup"); v = v * base + d; if (n > 6) BAD("well-formed markup"); }
    i++; if (!n || v >= 0x80 || (v < 32 && v != 9 && v != 10 && v != 13)) BAD("a character reference to a character"); return (char)v; }
  std::string quoted() { char q = c(); if (q != '"' && q != '\'') BAD("well-formed markup"); i++; std::string r;
    for (;;) { char x = c(); if (x == q) { i++; return r; } if (x == '&') { r += ref(); continue; } if (x == '<' && !html) BAD("well-formed markup"); i++;
      if (x == '\n' || x == '\t' || x == '\r') { if (!html) x = ' '; } r += x; } }          // attribute-value normalisation
  std::string text() { std::string r; while (i < t.size() && t[i] != '<') { char x = t[i]; if (x == '&') { r += ref(); continue; } i++; if (x == '\r') { if (i < t.size() && t[i] == '\n') continue; x = '\n'; } 
      if (x == '>' && !html && r.size() > 1 && t[i - 2] == ']' && t[i - 3] == ']') BAD("well-formed markup"); r += x; } return r; }
  void attrs(X &e) { for (;;) { ws(); if (c() == '>' || c() == '/' || c() == '?') return; std::string n = name(); ws(); eat("="); ws(); if (!html) for (auto &p : e.a) if (p.first == n) BAD("an attribute appears twice"); e.a.push_back({n, quoted()}); } }
  X element() { if (++depth > 9) BAD("nesting"); X e; eat("<"); e.name = name(); attrs(e);
    if (at("/>")) { i += 2; depth--; return e; } eat(">");
    if (html && e.name == "hr") { depth--; return e; }
    if (html && (e.name == "style" || e.name == "script")) { while (!at("</")) i++; }
    for (;;) { e.text += text(); if (at("</")) { i += 2; std::string n = name(); if (n != e.name) BAD("well-formed markup"); ws(); eat(">"); depth--; return e; } e.c.push_back(element()); } }
  X document() { ws(); if (html) { eat("<!DOCTYPE html>"); } else { eat("<?xml"); X d; attrs(d); eat("?>"); } ws(); X r = element(); ws(); if (i != t.size()) BAD("well-formed markup"); return r; }
};
#endif
#if defined(R_JSON)
#elif defined(R_XML)
static void one(const X &o, const Violation &v) {
  same(o.attr("path"), v.path, "the path is reported exactly"); same(o.attr("message"), v.message, "the message is reported exactly");
  same(o.attr("startline"), dec(v.startLine), "the start line is reported exactly"); same(o.attr("startcolumn"), dec(v.startColumn), "the start column is reported exactly");
  if (v.endLine != 0 && v.endColumn != 0) { same(o.attr("endline"), dec(v.endLine), "the end line is reported exactly"); same(o.attr("endcolumn"), dec(v.endColumn), "the end column is reported exactly"); }
  else sym_assert(!o.has("endline") && !o.has("endcolumn"), "no end position unless it is known");
  if (v.rule) { same(o.attr("rule"), v.rule->name(), "the rule is reported exactly"); same(o.attr("category"), v.rule->category(), "the category is reported exactly"); same(o.attr("priority"), dec(v.rule->priority()), "the priority is reported exactly"); }
  else sym_assert(!o.has("rule") && !o.has("category") && !o.has("priority"), "no rule for a diagnostic");
}
static void list(const X &o, const std::vector<Violation> &v) { auto k = o.kids("violation"); sym_assert(k.size() == v.size() && o.c.size() == v.size(), "every violation is reported once"); if (k.size() != v.size()) sym_end_path(); for (size_t i = 0; i < v.size(); i++) one(*k[i], v[i]); }
static std::string two(int v) { std::string r = dec(v); return r.size() < 2 ? "0" + r : r; }
static void checkReport(Given &g) {
  std::string t = render(g); XP p(t, false); X o = p.document(); sym_assert(o.name == "oclint", "the root element");
  same(o.attr("version"), Constants::version(), "version"); same(o.attr("url"), Constants::homepage(), "url");
  std::string dt = o.kid("datetime").text; same(dt, dec(gTm.tm_year + 1900) + "-" + two(gTm.tm_mon + 1) + "-" + two(gTm.tm_mday) + "T" + two(gTm.tm_hour) + ":" + two(gTm.tm_min) + ":" + two(gTm.tm_sec) + "Z", "the date and time are the current ones");
  const X &s = o.kid("summary"); auto k = s.kids("property"); struct { const char *n; int v; } want[] = {{"number of files", g.files}, {"files with violations", g.filesWith}, {"number of priority 1 violations", g.numberOfViolationsWithPriority(1)}, {"number of priority 2 violations", g.numberOfViolationsWithPriority(2)}, {"number of priority 3 violations", g.numberOfViolationsWithPriority(3)}};
  sym_assert(k.size() == 5, "five numbers in the summary"); if (k.size() != 5) sym_end_path();
  for (auto &x : want) { int n = 0; for (auto *q : k) if (q->attr("name") == x.n) { n++; same(q->text, dec(x.v), "the summary numbers are the results'"); } sym_assert(n == 1, "one number each"); }
  list(o.kid("violations"), g.v); list(o.kid("clangstaticanalyzer"), g.b);
}
#elif defined(R_PMD)
static std::string trim(const std::string &s) { size_t a = 0, b = s.size(); while (a < b && (s[a] == '\n')) a++; while (b > a && (s[b - 1] == '\n')) b--; return s.substr(a, b - a); }
static void one(const X &f, const Violation &v, const char *rule, const char *cat, int prio) {
  same(f.attr("name"), v.path, "the path is reported exactly"); const X &o = f.kid("violation");
  same(trim(o.text), v.message, "the message is reported exactly");
  same(o.attr("beginline"), dec(v.startLine), "the start line is reported exactly"); same(o.attr("begincolumn"), dec(v.startColumn), "the start column is reported exactly");
  same(o.attr("endline"), dec(v.endLine), "the end line is reported exactly"); same(o.attr("endcolumn"), dec(v.endColumn), "the end column is reported exactly");
  same(o.attr("rule"), v.rule ? v.rule->name() : rule, "the rule is reported exactly"); same(o.attr("ruleset"), v.rule ? v.rule->category() : cat, "the category is reported exactly"); same(o.attr("priority"), dec(v.rule ? 2 * v.rule->priority() - 1 : prio), "the priority is reported on the scale 1, 3, 5");
}
static void checkReport(Given &g) {
  std::string t = render(g); XP p(t, false); X o = p.document(); sym_assert(o.name == "pmd", "the root element"); same(o.attr("version"), "oclint-" + Constants::version(), "version");
  auto k = o.kids("file"); sym_assert(k.size() == g.v.size() + g.e.size() + g.w.size() + g.b.size() && o.c.size() == k.size(), "every violation and diagnostic is reported once"); if (k.size() != g.v.size() + g.e.size() + g.w.size() + g.b.size()) sym_end_path();
  size_t i = 0; for (auto &v : g.e) one(*k[i++], v, "compiler error", "clang", 1); for (auto &v : g.w) one(*k[i++], v, "compiler warning", "clang", 2); for (auto &v : g.v) one(*k[i++], v, "", "", 0); for (auto &v : g.b) one(*k[i++], v, "clang static analyzer", "clang", 2);
}
#elif defined(R_HTML)
static void cells(const X &r, std::vector<std::string> want, const char *l) { auto k = r.kids("td"); sym_assert(k.size() == want.size() && r.c.size() == k.size(), "the rows have the columns of the heading"); if (k.size() != want.size()) sym_end_path(); for (size_t i = 0; i < want.size(); i++) { sym_assert(k[i]->c.empty(), "plain text in the cells"); same(k[i]->text, want[i], l); } }
static void checkReport(Given &g) {
  std::string t = render(g); XP p(t, true); X o = p.document(); const X &b = o.kid("body"); auto tb = b.kids("table"); sym_assert(tb.size() == 2, "a summary and a list of violations"); if (tb.size() != 2) sym_end_path();
  cells(tb[0]->kid("tbody").kid("tr"), {dec(g.files), dec(g.filesWith), dec(g.numberOfViolationsWithPriority(1)), dec(g.numberOfViolationsWithPriority(2)), dec(g.numberOfViolationsWithPriority(3)), dec(g.e.size()), dec(g.w.size()), dec(g.b.size())}, "the summary numbers are the results'");
  const X &body = tb[1]->kid("tbody"); auto k = body.kids("tr"); size_t n = g.v.size() + g.e.size() + g.w.size() + g.b.size(); sym_assert(k.size() == n && body.c.size() == n, "every violation and diagnostic is reported once"); if (k.size() != n) sym_end_path();
  size_t i = 0; auto where = [](const Violation &v) { return dec(v.startLine) + ":" + dec(v.startColumn); };
  for (auto &v : g.v) { cells(*k[i], {v.path, where(v), v.rule->name(), v.rule->category(), dec(v.rule->priority()), v.message}, "the row shows the violation exactly"); i++; }
  for (auto &v : g.e) cells(*k[i++], {v.path, where(v), "compiler error", "", "error", v.message}, "the row shows the diagnostic exactly");
  for (auto &v : g.w) cells(*k[i++], {v.path, where(v), "compiler warning", "", "warning", v.message}, "the row shows the diagnostic exactly");
  for (auto &v : g.b) cells(*k[i++], {v.path, where(v), "clang static analyzer", "", "checker bug", v.message}, "the row shows the diagnostic exactly");
}
#elif defined(R_TEXT)
static void checkReport(Given &g) {
  std::string t = render(g), want; auto where = [](const Violation &v) { return v.path + ":" + dec(v.startLine) + ":" + dec(v.startColumn) + ": "; };
  auto diag = [&](const std::vector<Violation> &l, const char *h) { if (l.empty()) return; want += "\n"; want += h; want += "\n\n"; for (auto &v : l) want += where(v) + v.message + "\n"; };
  diag(g.e, "Compiler Errors:\n(please be aware that these errors will prevent OCLint from analyzing this source code)"); diag(g.w, "Compiler Warnings:"); diag(g.b, "Clang Static Analyzer Results:");
  want += "\n\nOCLint Report\n\nSummary: TotalFiles=" + dec(g.files) + " FilesWithViolations=" + dec(g.filesWith) + " P1=" + dec(g.numberOfViolationsWithPriority(1)) + " P2=" + dec(g.numberOfViolationsWithPriority(2)) + " P3=" + dec(g.numberOfViolationsWithPriority(3)) + " \n\n";
  for (auto &v : g.v) want += where(v) + v.rule->name() + " [" + v.rule->category() + "|P" + dec(v.rule->priority()) + "] " + v.message + "\n";
  want += "\n[OCLint (" + Constants::homepage() + ") v" + Constants::version() + "]\n";
  same(t, want, "the report is exactly the summary and one line per violation");
}
#else
static void checkReport(Given &g) {
  std::string t = render(g), want; for (auto &v : g.v) want += v.path + ":" + dec(v.startLine) + ":" + dec(v.startColumn) + ": warning: " + v.rule->name() + " [" + v.rule->category() + "|P" + dec(v.rule->priority()) + "] " + v.message + "\n";
  same(t, want, "the report is exactly one line per violation");
}
#endif

#ifdef TIER_THOROUGH
#define L 3
#else
#define L 2
#endif
static std::string anyText(const char *n, int max) {
  std::string s = sym_string_upto(n, max);
#if defined(R_XML) || defined(R_PMD) || defined(R_HTML)
  for (unsigned char c : s) {      // characters the format cannot carry at all
#if defined(R_XML)
    sym_assume(sym_or(c >= 0x20, sym_or(c == 9, sym_or(c == 10, c == 13))));
#else
    sym_assume(c >= 0x20);
#endif
  }
#endif
  return s;
}
static TestRule &fixedRule(int p) { static TestRule a("rule one", "cat one", 1), b("rule two", "cat two", 2), c("rule three", "cat three", 3); return p == 1 ? a : p == 2 ? b : c; }
static void setTm() { gTm.tm_year = 99; gTm.tm_mon = 8; gTm.tm_mday = 17; gTm.tm_hour = 3; gTm.tm_min = 30; gTm.tm_sec = 9; }
// one text field of one violation is arbitrary
static void textField(int which) {
  setTm(); Given g; std::string s = anyText("text", L);
  TestRule r(which == 2 ? s : "the rule", which == 3 ? s : "the category", 2);
  Violation v(&r, which == 0 ? s : "a/b.c", 3, 5, 4, 6, which == 1 ? s : "it's wrong");
  if (sym_choose("neighbour", 0, 1)) { g.v.push_back(Violation(&fixedRule(1), "x", 1, 2, 3, 4, "m")); }
  g.v.push_back(v); checkReport(g); sym_observe("len", s.size()); if (s.size() == L) sym_cover("longest");
}
HARNESS(report_path) { textField(0); }
HARNESS(report_message) { textField(1); }
HARNESS(report_rule) { textField(2); }
HARNESS(report_category) { textField(3); }
// diagnostics with arbitrary text
HARNESS(report_diagnostic) {
  setTm(); Given g; std::string s = anyText("text", L); bool inPath = sym_choose("in path", 0, 1); Violation v(nullptr, inPath ? s : "p.c", 7, 8, 0, 0, inPath ? "m" : s);
  int where = sym_choose("list", 0, 2); (where == 0 ? g.e : where == 1 ? g.w : g.b).push_back(v); checkReport(g); if (s.size() == L) sym_cover("longest");
}
// one arbitrary number
HARNESS(report_numbers) {
  setTm(); Given g; int which = sym_choose("which", 0, 4); int n = sym_anyint("number"); int f[4] = {1, 2, 3, 4}; if (which < 4) f[which] = n;
  TestRule r("r", "c", which == 4 ? sym_int("p", -2, 12) : 2); g.v.push_back(Violation(&r, "p", f[0], f[1], f[2], f[3], "m")); checkReport(g); sym_cover("checked"); if (which == 2 && n == 0) sym_cover("no end line"); if (which == 3 && n == 0) sym_cover("no end column");
}
// how many of each, in which order
HARNESS(report_lists) {
  setTm(); Given g; int nv = sym_choose("violations", 0, 3), ne = sym_choose("errors", 0, 2), nw = sym_choose("warnings", 0, 2), nb = sym_choose("bugs", 0, 2);
  int alike = nv + ne + nw + nb ? sym_choose("alike", 0, 2) : 0; // no two, those of a list by message and file, all but for the line
  const char *m[] = {alike ? "m" : "m0", alike ? "m" : "m1", alike ? "m" : "m2"};
  for (int i = 0; i < nv; i++) { int l = sym_int("line", 0, 9), c = alike == 2 ? 1 : sym_int("col", 0, 9); g.v.push_back(Violation(&fixedRule(alike == 2 ? 1 : i == 0 ? sym_choose("prio", 1, 3) : i), alike == 2 ? "e.c" : "v.c", l, c, 0, 0, m[i])); }
  auto d = [&](std::vector<Violation> &x, int n, const char *p) { for (int i = 0; i < n; i++) { int l = sym_int("line", 1, 9); x.push_back(Violation(nullptr, alike == 2 ? "e.c" : p, l, 1, 0, 0, m[i])); } };
  d(g.e, ne, "e.c"); d(g.w, nw, "w.c"); d(g.b, nb, "b.c"); checkReport(g); if (!nv && !ne && !nw && !nb) sym_cover("nothing"); if (nv == 3 && nb == 2) sym_cover("many");
}
// the numbers of the summary
HARNESS(report_summary) {
  setTm(); Given g; g.files = sym_int("files", 0, 1000000); g.filesWith = sym_int("with", 0, 99); for (int p = 1; p <= 3; p++) g.extra[p] = sym_int("count", 0, 9); g.extra[sym_choose("big", 1, 3)] = sym_int("bigcount", 0, 100000); checkReport(g); sym_cover("checked");
}
HARNESS(report_time) {
  Given g; gNow = (time_t)sym_u64("now", 34); gTm.tm_year = sym_int("year", 70, 8099); gTm.tm_mon = sym_int("month", 0, 11); gTm.tm_mday = sym_int("day", 1, 31); gTm.tm_hour = sym_int("hour", 0, 23); gTm.tm_min = sym_int("min", 0, 59); gTm.tm_sec = sym_int("sec", 0, 60); checkReport(g); sym_cover("checked");
}
