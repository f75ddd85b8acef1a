// A stand-in for the parts of clang that oclint's Driver.cpp and CompilerInstance.cpp are written against (LLVM 21;
// what is installed does not compile them).  It does what it is documented to do to the command, and what the
// symbolic inputs say where clang would decide (jobs, errors, targets), and records everything it is asked.
#pragma once
#include <cassert>
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include <llvm/ADT/ArrayRef.h>
#include <llvm/ADT/IntrusiveRefCntPtr.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/ADT/SmallVector.h>
#include <llvm/ADT/StringRef.h>
#include <llvm/ADT/iterator.h>
#include <llvm/Support/Casting.h>
#include <llvm/Support/raw_ostream.h>
namespace llvm {
namespace opt { typedef SmallVector<const char *, 16> ArgStringList; }
namespace sys { std::string getDefaultTargetTriple(); namespace fs { std::string getMainExecutable(const char *, void *); } }
namespace vfs { struct FileSystem { int n = 0; void Retain() { n++; } void Release() { n--; } }; IntrusiveRefCntPtr<FileSystem> getRealFileSystem(); }
struct Triple { std::string s; std::string str() const { return s; } static std::string normalize(StringRef r) { return "normal " + r.str(); } };
}
namespace clang {
using llvm::isa; using llvm::cast; using llvm::dyn_cast; using llvm::dyn_cast_or_null; using llvm::SmallString; using llvm::StringRef; using llvm::ArrayRef;
struct DiagnosticIDs : llvm::RefCountedBase<DiagnosticIDs> {};
struct DiagnosticOptions { int options = 0; };
struct Diagnostic {};
class DiagnosticConsumer; class ASTContext { public: int unit = 0; };
class DiagnosticsEngine { public: enum Level { Ignored, Note, Remark, Warning, Error, Fatal }; DiagnosticConsumer *client; bool error = false; llvm::IntrusiveRefCntPtr<DiagnosticIDs> ids;
  DiagnosticsEngine(llvm::IntrusiveRefCntPtr<DiagnosticIDs> i, DiagnosticOptions &, DiagnosticConsumer *c = nullptr, bool = true) : client(c), ids(i) {} bool hasErrorOccurred() const { return error; } bool hasUncompilableErrorOccurred() const { return error && sym_choose("only by -Werror", 0, 1) == 0; } bool hasUnrecoverableErrorOccurred() const { return error && sym_choose("recoverable", 0, 1) == 0; } bool hasFatalErrorOccurred() const { return error && sym_choose("fatal", 0, 1) == 1; } DiagnosticConsumer *getClient() { return client; } };
class DiagnosticConsumer { public: int finished = 0; virtual ~DiagnosticConsumer() {} virtual void finish() { finished++; } virtual void HandleDiagnostic(DiagnosticsEngine::Level, const Diagnostic &) {} };
namespace tooling {
struct CompileCommand { std::string Directory, Filename; std::vector<std::string> CommandLine; std::string Output, Heuristic; };
class CompilationDatabase { public: virtual ~CompilationDatabase() {} virtual std::vector<CompileCommand> getCompileCommands(StringRef) const = 0; };
std::string getAbsolutePath(StringRef);
typedef std::vector<std::string> CommandLineArguments; typedef std::function<CommandLineArguments(const CommandLineArguments &, StringRef)> ArgumentsAdjuster;
ArgumentsAdjuster getClangStripOutputAdjuster(); ArgumentsAdjuster getClangSyntaxOnlyAdjuster(); ArgumentsAdjuster combineAdjusters(ArgumentsAdjuster, ArgumentsAdjuster); }
namespace driver {
struct Action { bool offload = false; }; struct OffloadAction : Action { static bool classof(const Action *a) { return a->offload; } }; typedef llvm::SmallVector<Action *, 3> ActionList;
struct Tool { const char *name; const char *getName() const { return name; } };
struct Command { Tool *creator; llvm::opt::ArgStringList args; const Tool &getCreator() const { return *creator; } const llvm::opt::ArgStringList &getArguments() const { return args; } };
struct JobList { std::vector<std::unique_ptr<Command>> jobs; typedef llvm::pointee_iterator<std::vector<std::unique_ptr<Command>>::const_iterator> const_iterator; size_t size() const { return jobs.size(); } bool empty() const { return jobs.empty(); } const_iterator begin() const { return jobs.begin(); } const_iterator end() const { return jobs.end(); } void Print(llvm::raw_ostream &o, const char *end, bool) const { for (auto &j : jobs) o << "job" << end; } };
struct Compilation { JobList jobs; ActionList actions; std::vector<Action> all; JobList &getJobs() { return jobs; } const JobList &getJobs() const { return jobs; } ActionList &getActions() { return actions; } const ActionList &getActions() const { return actions; } };
class Driver { public: std::string executable; bool checks = true; Driver(StringRef e, StringRef triple, DiagnosticsEngine &, std::string = "", llvm::vfs::FileSystem * = nullptr) : executable(e.str()) {} void setTitle(std::string) {} void setCheckInputsExist(bool b) { checks = b; } Compilation *BuildCompilation(ArrayRef<const char *>); }; }
struct TargetOptions { std::string Triple, HostTriple; }; struct LangOptions { bool CUDA = false; };
struct FrontendInputFile { int n = 0; };
struct FrontendOptions { bool DisableFree = true, ShowHelp = false, ShowVersion = false; std::string AuxTriple; std::vector<FrontendInputFile> Inputs; };
class CompilerInvocation { public: FrontendOptions fe; TargetOptions target; LangOptions lang; int unit = -1; static bool CreateFromArgs(CompilerInvocation &, ArrayRef<const char *>, DiagnosticsEngine &, const char * = nullptr); FrontendOptions &getFrontendOpts() { return fe; } TargetOptions &getTargetOpts() { return target; } LangOptions &getLangOpts() { return lang; } };
class TargetInfo { public: std::string triple, host; int adjusted = 0; const TargetInfo *aux = nullptr; static TargetInfo *CreateTargetInfo(DiagnosticsEngine &, TargetOptions &); void adjust(DiagnosticsEngine &, LangOptions &, const TargetInfo *) { adjusted++; } llvm::Triple getTriple() const { return {triple}; } void setAuxTarget(const TargetInfo *t) { aux = t; } };
class SourceManager { public: int cleared = 0; void clearIDTables() { cleared++; } };
class CompilerInstance { public: CompilerInvocation inv; std::unique_ptr<DiagnosticsEngine> diags; DiagnosticOptions diagOpts; TargetInfo *target = nullptr, *aux = nullptr; SourceManager *sm = nullptr; ASTContext *ast = nullptr; virtual ~CompilerInstance(); CompilerInvocation &getInvocation() { return inv; } FrontendOptions &getFrontendOpts() { return inv.fe; } LangOptions &getLangOpts() { return inv.lang; } TargetOptions &getTargetOpts() { return inv.target; }
  void createDiagnostics(llvm::vfs::FileSystem &, DiagnosticConsumer *c = nullptr, bool own = true); bool hasDiagnostics() const { return diags != nullptr; } DiagnosticsEngine &getDiagnostics() const { return *diags; } bool hasASTContext() const { return ast != nullptr; } ASTContext &getASTContext() const { return *ast; } bool hasTarget() const { return target != nullptr; } TargetInfo &getTarget() const { return *target; } void setTarget(TargetInfo *t) { target = t; } TargetInfo *getAuxTarget() const { return aux; } void setAuxTarget(TargetInfo *t) { aux = t; } bool hasSourceManager() const { return sm != nullptr; } SourceManager &getSourceManager() const { return *sm; } };
class FrontendAction { public: int state = 0; CompilerInstance *ci = nullptr; int input = -1; bool analysis = false; virtual ~FrontendAction() {} bool BeginSourceFile(CompilerInstance &, const FrontendInputFile &); bool Execute(); void EndSourceFile(); };
struct SyntaxOnlyAction : FrontendAction {}; namespace ento { struct AnalysisAction : FrontendAction { AnalysisAction() { analysis = true; } }; }
}
