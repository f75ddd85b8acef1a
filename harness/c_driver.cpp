// The driver: which files are compiled, with which command, in which folder, and what of it reaches the analyzer.
// clang is a stand-in (fakeclang/) that does what the symbolic inputs say and records what it is asked.
#include <unistd.h>
#include <cstring>
#include "sym.h"
#include "fakeclang.h"
#include "oclint/GenericException.h"
static int fakeChdir(const char *);
#define chdir fakeChdir
#include "Driver.cpp"
#include "CompilerInstance.cpp"
#undef chdir
using namespace clang;
typedef std::vector<std::string> Strs;
// one compilation: what clang is told and what becomes of it
struct Unit { Strs argv; std::string folder; bool checks = false, offload = false, begun = false, made = false; int job = 1, outcome = 0, finished = 0, ended = 0, executed = 0, actions = 0, notAnalysis = 0; bool checker = false, cuda = false; const llvm::opt::ArgStringList *cc1 = nullptr; driver::Compilation *comp = nullptr; oclint::CompilerInstance *ci = nullptr; };
static struct Fake { std::vector<Unit *> units; std::string cwd = "start", bad, wrong; bool global = false, checker = false; std::vector<std::pair<std::string, std::vector<tooling::CompileCommand>>> db; std::vector<ASTContext *> asts; std::vector<std::pair<int, std::vector<int>>> calls; int badFolders = 0; Unit *last = nullptr; SourceManager sm; } gF;
static int fakeChdir(const char *p) { if (!gF.bad.empty() && gF.bad == p) { gF.badFolders++; return -1; } gF.cwd = p; return 0; }
namespace oclint { namespace option { bool enableGlobalAnalysis() { return gF.global; } bool enableClangChecker() { return gF.checker; } bool enableVerbose() { return false; } }
namespace logger { llvm::raw_ostream &verboseStream() { return llvm::nulls(); } llvm::raw_ostream &debugStream() { return llvm::nulls(); } } 
DiagnosticDispatcher::DiagnosticDispatcher(bool c) : _isCheckerCustomer(c) {} void DiagnosticDispatcher::HandleDiagnostic(clang::DiagnosticsEngine::Level, const clang::Diagnostic &) {} }
std::string llvm::sys::getDefaultTargetTriple() { return "here"; }
std::string llvm::sys::fs::getMainExecutable(const char *, void *) { return "/bin/oclint"; }
llvm::IntrusiveRefCntPtr<llvm::vfs::FileSystem> llvm::vfs::getRealFileSystem() { return llvm::IntrusiveRefCntPtr<FileSystem>(new FileSystem); }
namespace clang {
// clang/Tooling/ArgumentsAdjusters.cpp
static bool is(const std::string &a, const char *b) { return a.size() == strlen(b) && sym_concretize(sym_eq(a, b)); }
static bool begins(const std::string &a, const char *b) { return a.size() >= strlen(b) && sym_concretize(sym_eq_bytes(a.data(), b, strlen(b))); }
static Strs stripOutput(const Strs &a) { Strs r; size_t i = 0; for (; i < a.size(); i++) { if (!begins(a[i], "-o")) r.push_back(a[i]); if (is(a[i], "-o")) i++; } return r; }
static Strs syntaxOnly(const Strs &a) { Strs r; bool has = false; for (auto &s : a) { if (!is(s, "-c") && !is(s, "-S") && !begins(s, "-fcolor-diagnostics") && !begins(s, "-save-temps")) r.push_back(s); if (is(s, "-fsyntax-only")) has = true; } if (!has) { size_t i = 0; while (i < r.size() && !is(r[i], "--")) i++; r.insert(r.begin() + i, "-fsyntax-only"); } return r; }
namespace tooling {
std::string getAbsolutePath(StringRef s) { if (gF.cwd != "start") gF.wrong = "path after a change of folder"; return "/w/" + s.str(); }
ArgumentsAdjuster getClangStripOutputAdjuster() { return [](const CommandLineArguments &a, StringRef) { return stripOutput(a); }; }
ArgumentsAdjuster getClangSyntaxOnlyAdjuster() { return [](const CommandLineArguments &a, StringRef) { return syntaxOnly(a); }; }
ArgumentsAdjuster combineAdjusters(ArgumentsAdjuster f, ArgumentsAdjuster g) { return [f, g](const CommandLineArguments &a, StringRef n) { return g(f(a, n), n); }; } }
struct Database : tooling::CompilationDatabase { std::vector<tooling::CompileCommand> getCompileCommands(StringRef p) const override { for (auto &e : gF.db) if (p == "/w/" + e.first) return e.second; return {}; } };
static int (*gJob)(int unit);
driver::Compilation *driver::Driver::BuildCompilation(ArrayRef<const char *> a) {
  Unit *u = new Unit; gF.units.push_back(u); gF.last = u; for (auto *p : a) u->argv.push_back(p); u->folder = gF.cwd; u->checks = checks; if (executable != "/bin/oclint") gF.wrong = "other executable"; u->job = gJob((int)gF.units.size() - 1);
  // 0 none, 1 one, 2 not clang's, 3 two, 4 two because of a device, 5 the same, which comes first
  Compilation *c = new Compilation; u->comp = c; static Tool cl{"clang"}, other{"gcc"}; int n = u->job == 0 ? 0 : u->job >= 3 ? 2 : 1; for (int i = 0; i < n; i++) { Command *m = new Command; m->creator = u->job == 2 ? &other : &cl; m->args.push_back(i ? "second" : "-cc1"); c->jobs.jobs.emplace_back(m); } c->all.resize(n); if (u->job >= 4) c->all[u->job == 4 ? 1 : 0].offload = true; for (auto &x : c->all) c->actions.push_back(&x); if (n) u->cc1 = &c->jobs.jobs[0]->args; return c; }
bool CompilerInvocation::CreateFromArgs(CompilerInvocation &i, ArrayRef<const char *> a, DiagnosticsEngine &, const char *) { Unit *u = gF.last; if (!u || u->made || !u->cc1 || a.size() != 1 || strcmp(a[0], "-cc1")) gF.wrong = "other arguments"; else { u->made = true; i.unit = (int)gF.units.size() - 1; i.fe.Inputs.resize(1); i.target.Triple = "target"; } return true; }
void CompilerInstance::createDiagnostics(llvm::vfs::FileSystem &, DiagnosticConsumer *c, bool) { Unit *u = inv.unit < 0 ? nullptr : gF.units[inv.unit]; if (!u) { gF.wrong = "no command"; return; } u->checker = static_cast<oclint::DiagnosticDispatcher *>(c)->_isCheckerCustomer; u->ci = static_cast<oclint::CompilerInstance *>(this); diags.reset(new DiagnosticsEngine(new DiagnosticIDs, diagOpts, c)); if (inv.fe.DisableFree) gF.wrong = "memory is not freed"; }
CompilerInstance::~CompilerInstance() { if (inv.unit >= 0) gF.units[inv.unit]->ci = nullptr; }
// outcome: 0 compiles, 1 no target, 2 the file cannot be opened, 3 errors, 4 no tree
TargetInfo *TargetInfo::CreateTargetInfo(DiagnosticsEngine &, TargetOptions &o) { if (gF.last && gF.last->outcome == 1) return nullptr; TargetInfo *t = new TargetInfo; t->triple = o.Triple; t->host = o.HostTriple; return t; }
bool FrontendAction::BeginSourceFile(CompilerInstance &c, const FrontendInputFile &f) { ci = &c; Unit *u = gF.units[c.inv.unit]; u->actions++; if (!analysis) u->notAnalysis++; input = f.n; if (state) gF.wrong = "begun twice"; if (!c.target) gF.wrong = "no target"; if (u->outcome == 2 || (f.n && u->outcome == 5) || (!f.n && u->outcome == 6)) return false; state = 1; c.sm = &gF.sm; u->begun = true; return true; }
bool FrontendAction::Execute() { if (state != 1) gF.wrong = "executed without being begun"; state = 2; Unit *u = gF.units[ci->inv.unit]; u->executed++; if (u->outcome == 3) ci->diags->error = true; if (u->outcome != 4) { ci->ast = new ASTContext; ci->ast->unit = ci->inv.unit; } return true; }
void FrontendAction::EndSourceFile() { if (state != 2) gF.wrong = "ended without being executed"; state = 3; gF.units[ci->inv.unit]->ended++; }
}
struct Spy : oclint::Analyzer { void note(int k, std::vector<ASTContext *> &c) { std::vector<int> v; for (auto *a : c) { v.push_back(a->unit); Unit *u = gF.units[a->unit]; if (!u->ci || u->ci->ast != a || u->ended) gF.wrong = "a tree that is gone"; } gF.calls.push_back({k, v}); } void preprocess(std::vector<ASTContext *> &c) override { note(0, c); } void analyze(std::vector<ASTContext *> &c) override { note(1, c); } void postprocess(std::vector<ASTContext *> &c) override { note(2, c); } };
static int one(int) { return 1; }
struct Ran { bool thrown = false; std::string what; };
static Ran go(const Strs &files) { Database db; Spy spy; oclint::Driver d; Ran r; try { d.run(db, files, spy); } catch (const oclint::GenericException &e) { r.thrown = true; r.what = e.what(); } sym_assert(gF.wrong.empty(), "clang is used as it can be"); return r; }
// the command clang should be given
static void judgeArgs(Unit *u, const Strs &command, bool checker) {
  Strs want = syntaxOnly(stripOutput(command)); want[0] = "/bin/oclint"; Strs w; for (size_t i = 0; i < want.size(); i++) if (i == 0 || !(is(want[i], "-gmodules") || (checker && is(want[i], "-fsyntax-only")))) w.push_back(want[i]);
  Strs got = u->argv; size_t end = 0; while (end < got.size() && !is(got[end], "--")) end++; int defined = 0, analyze = 0; Strs g; for (size_t i = 0; i < got.size(); i++) { if (i < end && i && is(got[i], "-D__OCLINT__")) defined++; else if (checker && i < end && i && is(got[i], "--analyze")) analyze++; else g.push_back(got[i]); }
  sym_assert(defined == 1, "__OCLINT__ is defined"); sym_assert(analyze == (checker ? 1 : 0), "the static analyzer runs exactly when it is asked for"); bool same = g.size() == w.size(); for (size_t i = 0; same && i < g.size(); i++) same = sym_concretize(sym_eq(g[i], w[i])); sym_assert(same, "the command is the one of the file, but for output, modules' debug information and what kind of run it is"); sym_assert(!u->checks, "the driver leaves it to the compiler to look for the files"); }
#ifndef ARGS
#define ARGS 3
#endif
// any command
HARNESS(arguments) {
  static const char *kArgs[] = {"-gmodules", "-fsyntax-only", "--", "-o", "-c", "-ox", "-S", "-gmodules-x"}; gF.checker = sym_choose("static analyzer", 0, 1); gJob = one; Strs c = {"cc"}; int n = sym_choose("arguments", 0, ARGS); for (int i = 0; i < n; i++) { int k = sym_choose("argument", 0, 8); if (k < 8) c.push_back(kArgs[k]); else { std::string s = sym_string("text", 2); for (char x : s) sym_assume(x != 0); c.push_back(s); } }
  tooling::CompileCommand cc; cc.Directory = "d"; cc.CommandLine = c; gF.db = {{"f", {cc}}}; Ran r = go({"f"}); sym_assert(!r.thrown && gF.units.size() == (gF.checker ? 2 : 1), "every command is compiled once, and once more by the static analyzer if that is asked for"); for (size_t i = 0; i < gF.units.size(); i++) judgeArgs(gF.units[i], c, i == 1); sym_cover(gF.checker ? "analyzer" : "compiler"); }
// several files with several commands
static std::vector<int> gJobs, gOutcomes; static int jobOf(int i) { int j = i < (int)gJobs.size() ? gJobs[i] : 1; gF.units[i]->outcome = i < (int)gOutcomes.size() ? gOutcomes[i] : 0; return j; }
static void plan(int kinds) {
  gF.global = sym_choose("global", 0, 1); gF.checker = sym_choose("static analyzer", 0, 1); gJob = jobOf; int files = sym_choose("files", 0, 2); Strs names; static const char *dirs[] = {"d", "e f", "a\\ b\\ c", "\\ \\ "}, *real[] = {"d", "e f", "a b c", "  "}; struct Want { int file; std::string dir; Strs cmd; }; std::vector<Want> want;
  for (int f = 0; f < files; f++) { names.push_back(f ? "y" : "x"); int n = sym_choose("commands", 0, f || kinds ? 1 : 2); std::vector<tooling::CompileCommand> v; for (int i = 0; i < n; i++) { tooling::CompileCommand c; int d = want.empty() ? sym_choose("folder", 0, kinds ? 1 : 3) : (int)want.size() % 2; c.Directory = dirs[d]; c.CommandLine = {"cc", std::string("-D") + (char)('a' + want.size()), names[f]}; v.push_back(c); want.push_back({f, real[d], c.CommandLine}); } gF.db.push_back({names[f], v}); }
  int total = (int)want.size(), stop = -1; for (int i = 0; i < total; i++) { { int o = sym_choose("outcome", 0, total == 3 ? 2 : 4); gOutcomes.push_back(total == 3 && o ? o + 1 : o); } gJobs.push_back(kinds ? sym_choose("jobs", 0, 5) : 1); if (stop < 0 && (gJobs[i] == 0 || gJobs[i] == 2 || gJobs[i] == 3)) stop = i; } bool badDir = kinds && total && sym_choose("bad folder", 0, 1); int bad = -1; if (badDir) { gF.bad = want.back().dir; for (int i = total - 1; i >= 0; i--) if (want[i].dir == gF.bad) bad = i; if (stop < 0 || bad <= stop) stop = bad; else bad = -1; }
  if (gF.checker && stop < 0) for (int i = 0; i < total; i++) { gOutcomes.push_back(kinds || i ? 0 : sym_choose("outcome of the analyzer", 0, 4)); gJobs.push_back(1); }
  Ran r = go(names); sym_assert(r.thrown == (stop >= 0), "exactly a command that is no single one for clang, or whose folder is not there, ends the run with an error"); if (badDir && bad >= 0 && stop == bad && r.thrown) sym_assert(r.what.find("\"" + gF.bad + "\"") != std::string::npos, "the error names the folder");
  int compiled = stop < 0 ? total : bad >= 0 && stop == bad ? stop : stop + 1; size_t all = compiled + (stop < 0 && gF.checker ? total : 0); sym_assert(gF.units.size() == all, "every command is compiled once, and once more by the static analyzer if that is asked for"); if (gF.units.size() != all) return;
  auto fine = [&](int i) { return gOutcomes[i] == 0; }; for (size_t k = 0; k < all; k++) { int i = (int)k % (total ? total : 1); bool an = (int)k >= total; Unit *u = gF.units[k]; judgeArgs(u, want[i].cmd, an); sym_assert(u->folder == want[i].dir, "every command is compiled in its folder"); if (stop == (int)k) continue; sym_assert(u->made && u->checker == an, "diagnostics are those of the compiler or of the static analyzer"); sym_assert(!an || !u->notAnalysis, "the static analyzer runs"); sym_assert(u->executed == (gOutcomes[k] == 1 || gOutcomes[k] == 2 ? 0 : 1), "the file is compiled once"); }
  std::vector<std::pair<int, std::vector<int>>> calls; auto run = [&](std::vector<int> v) { for (int k = 0; k < 3; k++) calls.push_back({k, v}); }; if (gF.global) { if (stop < 0) { std::vector<int> v; for (int i = 0; i < total; i++) if (fine(i)) v.push_back(i); run(v); } } else for (int i = 0; i < (stop < 0 ? total : stop); i++) run(fine(i) ? std::vector<int>{i} : std::vector<int>{});
  // whether the analyzer is also called without any tree says nothing
  auto strip = [](std::vector<std::pair<int, std::vector<int>>> v) { std::vector<std::pair<int, std::vector<int>>> r; for (auto &c : v) if (!c.second.empty()) r.push_back(c); return r; }; sym_assert(strip(gF.calls) == strip(calls), "exactly the trees of the files that compile are prepared, analyzed and finished, together for a global analysis, otherwise one by one");
  for (int i = 0; i < total && stop < 0; i++) if (fine(i)) { Unit *u = gF.units[i]; sym_assert(u->ended == 1 && !u->ci, "what was analyzed is released"); } for (size_t k = total; k < all; k++) { Unit *u = gF.units[k]; sym_assert(u->ended == u->executed, "the static analyzer finishes"); } sym_cover(stop >= 0 ? "error" : gF.calls.empty() ? "nothing" : gF.global ? "global" : "one by one"); }
HARNESS(commands) { plan(0); }
HARNESS(jobs) { plan(1); }
// one compilation
HARNESS(compilation) {
  gF.checker = sym_choose("static analyzer", 0, 1); Unit *u = new Unit; gF.units.push_back(u); gF.last = u; static const int outs[] = {0, 1, 2, 5, 3, 6}; u->outcome = outs[sym_choose("outcome", 0, 5)]; oclint::CompilerInstance c; c.inv.unit = 0; DiagnosticConsumer dc; c.diags.reset(new DiagnosticsEngine(new DiagnosticIDs, c.diagOpts, &dc)); int n = sym_choose("inputs", 0, 2); for (int i = 0; i < n; i++) c.inv.fe.Inputs.push_back({i}); bool cuda = c.inv.lang.CUDA = sym_choose("CUDA", 0, 1); bool aux = sym_choose("device", 0, 1); if (aux) c.inv.fe.AuxTriple = "nv"; c.inv.target.Triple = "target";
  c.start(); bool target = u->outcome != 1; sym_assert(c.hasTarget() == target && gF.wrong.empty(), "clang is used as it can be"); int run = !target || u->outcome == 2 ? 0 : u->outcome == 5 ? (n ? 1 : 0) : u->outcome == 6 ? (n ? n - 1 : 0) : n; sym_assert(u->executed == run, "every file that can be opened is compiled once"); sym_assert(!gF.checker || !u->notAnalysis, "the static analyzer runs exactly when it is asked for"); sym_assert(gF.checker || u->notAnalysis == u->actions, "the static analyzer runs exactly when it is asked for");
  if (target) { sym_assert(c.target->triple == "target" && c.target->adjusted == 1, "the target is the one of the command"); bool both = cuda && aux; sym_assert((c.aux != nullptr) == both && c.target->aux == c.aux, "CUDA code has a second target"); if (both && c.aux) sym_assert(c.aux->triple == "normal nv" && c.aux->host == "target", "CUDA code has a second target"); }
  c.end(); sym_assert(u->ended == run && dc.finished == 1 && gF.wrong.empty(), "all that was begun ends, and the diagnostics with it"); sym_cover(!target ? "no target" : run ? "compiled" : "not opened"); }
