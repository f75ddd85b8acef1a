// Rule libraries and reporters are loaded from their folders.  The folder, its entries and what opening a library
// does are stand-ins that follow the symbolic inputs.
#include <dirent.h>
#include <dlfcn.h>
#include <iostream>
#include <cstring>
#include "util.h"
#include "oclint/GenericException.h"
#include "oclint/Options.h"
#include "oclint/Reporter.h"
#include "rules.h"
#include "reporters.h"
static struct Folder { std::string path; bool there = true; int opened = 0, closed = 0, pos = 0, made = 0; std::vector<std::string> names; std::vector<int> how; std::vector<std::string> loads; std::vector<int> handles; dirent e; std::vector<Reporter *> reps; std::string type, wrong; } gW;  // how: 0 a library, 1 does not open, 2 has no create
static char gDirHandle, gLibs[8];
static DIR *fakeOpendir(const char *p) { if (p != gW.path) gW.wrong = "other folder"; if (!gW.there) return nullptr; gW.opened++; gW.pos = 0; return (DIR *)&gDirHandle; }
static dirent *fakeReaddir(DIR *d) { if ((char *)d != &gDirHandle || gW.closed >= gW.opened) gW.wrong = "folder not open"; if (gW.pos >= (int)gW.names.size()) return nullptr; const std::string &s = gW.names[gW.pos++]; memcpy(gW.e.d_name, s.data(), s.size()); gW.e.d_name[s.size()] = 0; return &gW.e; }
static int fakeClosedir(DIR *d) { if ((char *)d != &gDirHandle || gW.closed >= gW.opened) gW.wrong = "folder not open"; gW.closed++; return 0; }
static void *fakeDlopen(const char *p, int mode) { int i = gW.pos - 1; if (i < 0 || !(mode & (RTLD_LAZY | RTLD_NOW))) { gW.wrong = "no mode"; return nullptr; } gW.loads.push_back(p); gW.handles.push_back(i); return gW.how[i] == 1 ? nullptr : &gLibs[i]; }
static char *fakeDlerror() { static char m[] = "no such library"; return m; }
template <int I> static Reporter *create() { gW.made++; return gW.reps[I]; }
static void *fakeDlsym(void *h, const char *s) { int i = (int)((char *)h - gLibs); if (i < 0 || i > 7 || strcmp(s, "create")) { gW.wrong = "other symbol"; return nullptr; } if (gW.how[i] == 2) return nullptr; static Reporter *(*f[])() = {create<0>, create<1>, create<2>, create<3>}; return (void *)f[i]; }
static int fakeDlclose(void *) { return 0; }
struct Rep : Reporter { std::string n; Rep(std::string n) : n(n) {} void report(Results *, std::ostream &) override {} const std::string name() const override { return n; } };
namespace oclint { namespace option { std::string reporterPath() { return gW.path; } std::string reportType() { return gW.type; } } }
#define opendir fakeOpendir
#define readdir fakeReaddir
#define closedir fakeClosedir
#define dlopen fakeDlopen
#define dlsym fakeDlsym
#define dlerror fakeDlerror
#define dlclose fakeDlclose
#include "rules_dlfcn_port.cpp"
#include "reporters_dlfcn_port.cpp"
#ifndef ENTRIES
#define ENTRIES 3
#endif
static std::string fileName(const char *label, int lo, int hi) { std::string s = sym_string(label, sym_choose("length", lo, hi)); for (char c : s) sym_assume(sym_and(c != 0, c != '/')); return s; }
static void folder(int kinds) { gW.path = fileName("folder", 1, 1); gW.there = !sym_choose("no folder", 0, 1); int n = sym_choose("entries", 0, gW.there ? ENTRIES : 0); for (int i = 0; i < n; i++) { gW.names.push_back(fileName("entry", 1, i ? 1 : 3)); gW.how.push_back(sym_choose("kind", 0, kinds)); } }
static bool hidden(const std::string &s) { return sym_concretize(s[0] == '.'); }
// which entries are opened, up to the first that stops it; what: which of them stops
template <class F> static int expect(F stops) { std::vector<int> v; int last = -1; for (int i = 0; i < (int)gW.names.size() && last < 0; i++) { if (hidden(gW.names[i])) continue; v.push_back(i); if (stops(i)) last = i; }
  sym_assert(gW.handles.size() == v.size(), "every library is opened once, hidden files are not, up to the one that ends it"); if (gW.handles.size() == v.size()) for (size_t i = 0; i < v.size(); i++) { sym_assert(gW.handles[i] == v[i], "libraries are opened in turn"); sym_assert(sym_eq(gW.loads[i], gW.path + "/" + gW.names[v[i]]), "a library is opened by its folder and name"); }
  sym_assert(gW.wrong.empty(), "the folder and the libraries are used as they can be"); sym_assert(gW.opened == (gW.there ? 1 : 0) && gW.closed == gW.opened, "the folder is closed again"); return last; }
HARNESS(load_rules) {
  folder(1); std::string err; bool thrown = false; try { dynamicLoadRules(gW.path); } catch (const GenericException &e) { thrown = true; err = e.what(); }
  int bad = expect([](int i) { return gW.how[i] == 1; }); sym_assert(thrown == (bad >= 0), "exactly a library that cannot be opened is an error");
  if (thrown && bad >= 0) sym_assert(sym_eq(err, "cannot open dynamic library: " + gW.path + "/" + gW.names[bad]), "the error names the library"); sym_cover(thrown ? "error" : gW.loads.empty() ? "none" : "loaded"); }
HARNESS(load_reporter) {
  folder(2); gW.type = fileName("type", 0, 1); for (size_t i = 0; i < gW.names.size(); i++) gW.reps.push_back(new Rep(gW.how[i] ? std::string() : fileName("reporter", 1, i ? 1 : 2)));
  if (sym_choose("loaded before", 0, 1)) { Folder w = gW; gW = Folder(); gW.names = {"x"}; gW.how = {0}; gW.reps = {new Rep("old")}; gW.type = "old"; gW.path = "f"; loadReporter(); sym_assert(reporter() == gW.reps[0] && gW.wrong.empty(), "the reporter is the first of that name"); gW = w; }
  std::string err; bool thrown = false; try { loadReporter(); } catch (const GenericException &e) { thrown = true; err = e.what(); }
  int last = expect([](int i) { return gW.how[i] != 0 || sym_concretize(sym_eq(gW.reps[i]->name(), gW.type)); }); bool found = last >= 0 && gW.how[last] == 0;
  sym_assert(thrown == !found, "exactly a library that is no reporter, or no reporter of that name, is an error"); sym_assert(reporter() == (found ? gW.reps[last] : nullptr), "the reporter is the first of that name");
  if (thrown && !found) sym_assert(last < 0 ? sym_eq(err, "cannot find dynamic library for report type: " + gW.type) : gW.how[last] == 1 ? sym_eq(err, "cannot open dynamic library: " + gW.path + "/" + gW.names[last]) : err.size() > gW.path.size() + gW.names[last].size() && sym_eq(err.substr(err.size() - gW.names[last].size()), gW.names[last]), "the error says what is missing");
  sym_cover(found ? "found" : last < 0 ? "not found" : gW.how[last] == 1 ? "does not open" : "no reporter"); }
