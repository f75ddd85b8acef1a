// Rule selection, rule identifiers, the rule registry, rule configuration values.
#include "util.h"
#include "oclint/RulesetFilter.h"
#include "oclint/RuleConfiguration.h"
#include <cstdlib>
#ifdef TIER_THOROUGH
#define T(q, t) t
#else
#define T(q, t) q
#endif

// ---------------------------------------------------------------- rule selection
// History of enable/disable calls over three registered rules and one unknown name; the last call on a name wins, a
// non-empty set of enabled names restricts, disabled names never run, registration order is kept.
static const char *const gNames[] = {"aa", "bb", "cc"}; static const char *const gIds[] = {"Aa", "Bb", "Cc", "Zz"};
static void checkSelection(const RulesetFilter &f, TestRule **rules, int nr, const int *st) {
  bool any = false; for (int i = 0; i < 4; i++) any |= st[i] == 1;
  auto got = f.filteredRules(); auto names = f.filteredRuleNames(); size_t k = 0;
  for (int i = 0; i < nr; i++) { bool sel = st[i] != 2 && (!any || st[i] == 1); if (!sel) continue;
    sym_assert(k < got.size(), "a selected rule is missing"); if (k >= got.size()) return;
    sym_assert(got[k] == rules[i], "selected rules come in registration order, each once"); sym_assert(k < names.size() && names[k] == gIds[i], "the names listed are those of the selected rules"); k++; }
  sym_assert(k == got.size() && k == names.size(), "a rule that was not selected runs");
  sym_observe("selected", got.size()); if (k == 0) sym_cover("none"); if (k == (size_t)nr) sym_cover("all"); if (k == 1) sym_cover("one");
}
HARNESS(filter_history) {
  const int nr = 3; TestRule *rules[3]; for (int i = 0; i < nr; i++) { rules[i] = new TestRule(gNames[i], "c", 1); new RuleSet(rules[i]); }
  RulesetFilter f; int st[4] = {0, 0, 0, 0};
  for (int i = 0; i < T(4, 5); i++) { int op = sym_choose("op", 0, 8); if (op == 8) break; int n = op % 4; if (op < 4) { f.enableRule(gIds[n]); st[n] = 1; } else { f.disableRule(gIds[n]); st[n] = 2; } }
  checkSelection(f, rules, nr, st);
}
// the list forms, as used for configuration files and command lines
HARNESS(filter_lists) {
  const int nr = 3; TestRule *rules[3]; for (int i = 0; i < nr; i++) { rules[i] = new TestRule(gNames[i], "c", 1); new RuleSet(rules[i]); }
  RulesetFilter f; int st[4] = {0, 0, 0, 0};
  for (int round = 0; round < 2; round++) {
    std::vector<std::string> e, d; static const int bits[] = {0, 1, 2, 3, 8, 9, 10, 11}; int em = bits[sym_choose("enable", 0, 7)], dm = bits[sym_choose("disable", 0, 7)];
    for (int i = 0; i < 4; i++) { if (em >> i & 1) e.push_back(gIds[i]); if (dm >> i & 1) d.push_back(gIds[i]); }
    f.enableRules(e.begin(), e.end()); for (int i = 0; i < 4; i++) if (em >> i & 1) st[i] = 1;
    f.disableRules(d.begin(), d.end()); for (int i = 0; i < 4; i++) if (dm >> i & 1) st[i] = 2;
    if (round == 0 && em == dm) break;
  }
  checkSelection(f, rules, nr, st);
}
// names are compared whole: any name that is not an identifier of a rule changes nothing but "restrict"
HARNESS(filter_names) {
  TestRule *rules[2] = {new TestRule("aa", "c", 1), new TestRule("bb", "c", 2)}; for (auto r : rules) new RuleSet(r);
  RulesetFilter f; std::string n = sym_string("name", sym_choose("len", 0, 3)); bool en = sym_choose("enable", 0, 1);
  if (en) f.enableRule(n); else f.disableRule(n);
  auto got = f.filteredRules(); bool isA = sym_eq(n, "Aa"), isB = sym_eq(n, "Bb");
  bool wantA = en ? isA : sym_not(isA), wantB = en ? isB : sym_not(isB);
  bool hasA = false, hasB = false; for (auto r : got) { hasA |= r == rules[0]; hasB |= r == rules[1]; }
  sym_assert(hasA == wantA, "a name selects the rule with exactly that identifier"); sym_assert(hasB == wantB, "a name selects the rule with exactly that identifier");
  if (hasA && !hasB) sym_cover("only a"); if (!hasA && !hasB) sym_cover("none");
}
// several rules with the same identifier, rules registered at any time
HARNESS(registry) {
  std::vector<RuleBase *> reg; int n = sym_choose("n", 0, 4);
  sym_assert(RuleSet::numberOfRules() == 0 && RuleSet::getRuleAtIndex(0) == nullptr, "empty at first");
  TestRule a("aa", "c", 1), b("bb", "c", 2); RuleBase *rs[] = {&a, &b};
  for (int i = 0; i < n; i++) { RuleBase *r = rs[sym_choose("which", 0, 1)]; new RuleSet(r); reg.push_back(r); sym_assert(RuleSet::numberOfRules() == i + 1, "every registration counts"); }
  int ix = sym_int("index", 0, 2147483647); RuleBase *got = RuleSet::getRuleAtIndex(ix);
  if (ix < n) { sym_assert(got == reg[ix], "rules are found at their place of registration"); sym_cover("in"); } else { sym_assert(got == nullptr, "no rule beyond the last"); sym_cover("beyond"); }
}

// ---------------------------------------------------------------- identifiers
static bool letter(unsigned char c) { return sym_or(sym_and(c >= 'a', c <= 'z'), sym_and(c >= 'A', c <= 'Z')); }
static unsigned char up(unsigned char c) { return (unsigned char)sym_ite(sym_and(c >= 'a', c <= 'z'), (uint64_t)(unsigned char)(c - 32), (uint64_t)c); }
static void identifierOf(const std::string &n) {
  TestRule r(n, "c", 1); std::string id = r.identifier(); size_t k = 0; bool startWord = true;
  for (size_t i = 0; i < n.size(); i++) { unsigned char c = n[i]; if (!letter(c)) { startWord = true; continue; }
    sym_assert(k < id.size(), "every letter of the name is kept"); if (k >= id.size()) return;
    sym_assert((unsigned char)id[k] == (startWord ? up(c) : c), "letters are kept in order, the first of every word capitalised"); startWord = false; k++; }
  sym_assert(k == id.size(), "nothing but letters remains"); sym_observe("len", id.size());
  if (id.size() == n.size()) sym_cover("all letters"); if (id.empty()) sym_cover("empty");
  sym_assert(r.attributeName() == n, "the attribute name is the name");
}
HARNESS(identifier) { identifierOf(sym_string("name", sym_choose("len", 0, T(5, 7)))); }

// ---------------------------------------------------------------- configuration values
HARNESS(config_history) {
  // keys of one free character; a plain list kept by the harness is the reference
  std::vector<std::pair<std::string, std::string>> ref; int n = sym_choose("n", 0, T(3, 4));
  for (int i = 0; i < n; i++) {
    if (sym_choose("op", 0, 3) == 3) { RuleConfiguration::removeAll(); ref.clear(); sym_cover("cleared"); continue; }
    std::string k = sym_string("key", sym_choose("klen", 0, 1)), v = sym_string("value", 1); RuleConfiguration::addConfiguration(k, v); ref.push_back({k, v}); }
  std::string q = sym_string("query", sym_choose("qlen", 0, 1)); const std::string *want = nullptr;
  for (auto &p : ref) if (sym_eq(p.first, q)) want = &p.second;
  sym_assert(RuleConfiguration::hasKey(q) == (want != nullptr), "a key is known exactly when it was set");
  std::string got = RuleConfiguration::stringForKey(q, "default");
  if (want) { sym_assert(sym_eq(got, *want), "the value set last"); sym_assert(sym_eq(RuleConfiguration::valueForKey(q), *want), "the value set last"); sym_cover("known"); }
  else { sym_assert(got == "default", "the default for a key never set"); sym_cover("unknown"); }
  sym_assert(RuleConfiguration::hasKey(q) == (want != nullptr), "asking changes nothing");
}
HARNESS(config_int) {
  int def = sym_anyint("default"); bool set = sym_choose("set", 0, 1);
  if (!set) { sym_assert(RuleConfiguration::intForKey("k", def) == def, "default"); sym_cover("default"); RuleConfiguration::addConfiguration("l", "7"); sym_assert(RuleConfiguration::intForKey("k", def) == def, "default"); return; }
  bool neg = sym_choose("neg", 0, 1); int nd = sym_choose("digits", 1, T(4, 6)); std::string s = neg ? "-" : ""; int want = 0;
  for (int i = 0; i < nd; i++) { int d = sym_int("digit", 0, 9); s += (char)('0' + d); want = want * 10 + d; } if (neg) want = -want;
  RuleConfiguration::addConfiguration("k", "999"); RuleConfiguration::addConfiguration("k", s);
  sym_assert(RuleConfiguration::intForKey("k", def) == want, "the number that was configured"); sym_cover("number"); sym_observe("v", (unsigned)RuleConfiguration::intForKey("k", def));
}
HARNESS(config_double) {
  bool set = sym_choose("set", 0, 1); if (!set) { sym_assert(RuleConfiguration::doubleForKey("k", 2.5) == 2.5, "default"); return; }
  int a = sym_choose("int", 0, 12), b = sym_choose("frac", 0, 99); char s[8]; int n = 0; if (a >= 10) s[n++] = '0' + a / 10; s[n++] = '0' + a % 10; s[n++] = '.'; s[n++] = '0' + b / 10; s[n++] = '0' + b % 10; s[n] = 0;
  RuleConfiguration::addConfiguration("k", s); double v = RuleConfiguration::doubleForKey("k", -1); double want = (a * 100 + b) / 100.0;
  sym_assert(v == want, "the real number that was configured"); sym_cover("real");
}
