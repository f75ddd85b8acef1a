// Models of LLVM's command line, YAML reader, paths and files, as far as option processing uses them.
#include <llvm/Support/CommandLine.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/Support/Path.h>
#include <llvm/Support/Program.h>
#include <llvm/Support/MemoryBuffer.h>
#include <llvm/Support/YAMLTraits.h>
#include <llvm/Support/YAMLParser.h>
#include <clang/Tooling/CommonOptionsParser.h>
#include "../harness/sym.h"
#include <map>
#include <cstring>
#include <unistd.h>
using namespace llvm;
// ---- what the harness sets up
std::map<std::string, std::string> gFiles; std::string gCwd; const char *gHome; std::string gProgram; // where the program is found on the path
// ---- command line
void cl::Option::anchor() {}
void cl::Option::setArgStr(StringRef s) { ArgStr = s; }
void cl::Option::addArgument() { FullyInitialized = true; }
bool cl::Option::addOccurrence(unsigned pos, StringRef name, StringRef value, bool multi) { if (!multi) NumOccurrences++; return handleOccurrence(pos, name, value); }
bool cl::Option::error(const Twine &, StringRef, raw_ostream &) { sym_unmodelled("error in the command line"); return true; }
void cl::OptionCategory::registerCategory() {}
alignas(8) static char gGeneral[sizeof(cl::OptionCategory)];
cl::OptionCategory &cl::getGeneralCategory() { return *(cl::OptionCategory *)gGeneral; }
void cl::Option::addCategory(OptionCategory &c) { Categories.clear(); Categories.push_back(&c); }
cl::extrahelp::extrahelp(StringRef h) : morehelp(h) {}
const char *const clang::tooling::CommonOptionsParser::HelpMessage = "";
void cl::basic_parser_impl::anchor() {}
void cl::parser<std::string>::anchor() {} void cl::parser<int>::anchor() {} void cl::parser<bool>::anchor() {} void cl::parser<unsigned>::anchor() {} void cl::parser<char>::anchor() {}
void cl::GenericOptionValue::anchor() {} void cl::OptionValue<std::string>::anchor() {}
static bool number(StringRef s, int &v) { size_t i = 0; bool neg = false; if (i < s.size() && s[i] == '-') { neg = true; i++; } if (i == s.size()) return false; long n = 0; for (; i < s.size(); i++) { if (s[i] < '0' || s[i] > '9') return false; n = n * 10 + (s[i] - '0'); if (n > 2147483648l) return false; } if (neg) n = -n; if (n > 2147483647l) return false; v = (int)n; return true; }
bool cl::parser<int>::parse(Option &, StringRef, StringRef a, int &v) { if (!number(a, v)) sym_unmodelled("a bad number in the command line"); return false; }
bool cl::parser<bool>::parse(Option &, StringRef, StringRef a, bool &v) { v = a.empty() || a == "true" || a == "1"; return false; }
template class llvm::cl::opt<std::string>; template class llvm::cl::opt<int>; template class llvm::cl::opt<bool>; template class llvm::cl::opt<unsigned>; template class llvm::cl::opt<char>; template class llvm::cl::basic_parser<int>; template class llvm::cl::basic_parser<bool>; template class llvm::cl::basic_parser<std::string>;
size_t cl::basic_parser_impl::getOptionWidth(const Option &) const { return 0; }
// ---- errors
namespace { struct Category : std::error_category { const char *name() const noexcept override { return "system"; } std::string message(int) const override { return "error"; } }; }
std::error_category::~error_category() = default;
std::error_condition std::error_category::default_error_condition(int v) const noexcept { return std::error_condition(v, *this); }
bool std::error_category::equivalent(int v, const std::error_condition &c) const noexcept { return v == c.value(); }
bool std::error_category::equivalent(const std::error_code &c, int v) const noexcept { return v == c.value(); }
static Category &category() { static Category *c = new Category; return *c; }
const std::error_category &std::_V2::system_category() noexcept { return category(); }
const std::error_category &std::_V2::generic_category() noexcept { return category(); }
// ---- paths and files
static StringRef str(const Twine &t, std::string &s) { s = t.str(); return s; }
StringRef sys::path::filename(StringRef p, Style) { size_t i = p.rfind('/'); return i == StringRef::npos ? p : i + 1 == p.size() ? StringRef(".") : p.substr(i + 1); }
StringRef sys::path::parent_path(StringRef p, Style) { size_t i = p.rfind('/'); if (i == StringRef::npos) return ""; while (i > 0 && p[i - 1] == '/') i--; return i ? p.substr(0, i) : p.substr(0, 1); }
bool sys::path::is_absolute(const Twine &t, Style) { std::string s; return str(t, s).starts_with("/"); }
std::error_code sys::fs::make_absolute(SmallVectorImpl<char> &p) { if (p.size() && p[0] == '/') return {}; std::string s = gCwd + "/" + std::string(p.begin(), p.size()); p.clear(); p.append(s.begin(), s.end()); return {}; }
std::error_code sys::fs::current_path(SmallVectorImpl<char> &p) { p.clear(); p.append(gCwd.begin(), gCwd.end()); return {}; }
ErrorOr<std::string> sys::findProgramByName(StringRef, ArrayRef<StringRef>) { if (gProgram.empty()) return std::make_error_code(std::errc::no_such_file_or_directory); return gProgram; }
extern "C" char *getcwd(char *b, size_t n) { if (!b) { if (n && n <= gCwd.size()) return nullptr; b = (char *)malloc(n ? n : gCwd.size() + 1); } else if (n <= gCwd.size()) return nullptr; memcpy(b, gCwd.c_str(), gCwd.size() + 1); return b; }
extern "C" char *getenv(const char *n) { return !strcmp(n, "HOME") ? (char *)gHome : nullptr; }
MemoryBuffer::~MemoryBuffer() {}
namespace { struct Buf : MemoryBuffer { char *b; Buf(const std::string &s) { b = (char *)malloc(s.size() + 1); memcpy(b, s.c_str(), s.size() + 1); init(b, b + s.size(), true); } ~Buf() override { free(b); } BufferKind getBufferKind() const override { return MemoryBuffer_Malloc; } }; }
void MemoryBuffer::init(const char *b, const char *e, bool) { BufferStart = b; BufferEnd = e; }
// the same file by any spelling of its path: "x/.." is dropped
static std::string plain(std::string p) { for (size_t i; (i = p.find("/..")) != std::string::npos && (i + 3 == p.size() || p[i + 3] == '/');) { size_t j = p.rfind('/', i - 1); p = p.substr(0, j) + p.substr(i + 3); } return p; }
ErrorOr<std::unique_ptr<MemoryBuffer>> MemoryBuffer::getFile(const Twine &t, bool, bool, bool, std::optional<Align>) { std::string s; str(t, s); auto it = gFiles.find(plain(s)); if (it == gFiles.end()) return std::make_error_code(std::errc::no_such_file_or_directory); return std::unique_ptr<MemoryBuffer>(new Buf(it->second)); }
// ---- YAML: block mappings and sequences of plain scalars
namespace { struct Node { int kind = 0; StringRef s; std::vector<std::pair<StringRef, Node *>> m; std::vector<Node *> q; };
struct Reader { StringRef t; size_t at = 0;
  // lines: indentation, then "- " marks, then key: value or value
  bool line(size_t &ind, StringRef &l) { while (at < t.size()) { size_t e = t.find("\n", at); if (e == StringRef::npos) e = t.size(); l = t.substr(at, e - at); ind = 0; while (ind < l.size() && l[ind] == ' ') ind++; if (ind == l.size() || l[ind] == '#') { at = e + 1; continue; } return true; } return false; }
  void next() { size_t e = t.find("\n", at); at = e == StringRef::npos ? t.size() : e + 1; }
  static Node *scalar(StringRef v) { auto *n = new Node; n->kind = 0; if (v.size() >= 2 && (v[0] == '"' || v[0] == '\'')) v = v.substr(1, v.size() - 2); n->s = v; return n; }
  static bool keyed(StringRef l, StringRef &k, StringRef &v) { if (l.size() && (l[0] == '"' || l[0] == '\'')) return false; for (size_t i = 0; i < l.size(); i++) if (l[i] == ':' && (i + 1 == l.size() || l[i + 1] == ' ')) { k = l.substr(0, i); size_t j = i + 1; while (j < l.size() && l[j] == ' ') j++; v = l.substr(j); return true; } return false; }
  Node *map(size_t ind, StringRef first) { auto *n = new Node; n->kind = 1; StringRef l = first; size_t i = ind; for (bool go = true; go;) { StringRef k, v; if (!keyed(l, k, v)) sym_unmodelled("YAML text"); next(); size_t in; StringRef nl; Node *val = nullptr; if (v.size()) val = scalar(v); else if (line(in, nl) && (in > i || (in == i && nl.substr(in).starts_with("- ")))) val = block(in); else val = scalar(v); n->m.push_back({k, val}); go = false; if (line(in, nl) && in == i && !nl.substr(in).starts_with("- ")) { l = nl.substr(in); go = true; } } return n; }
  Node *block(size_t ind) { size_t in; StringRef l; line(in, l); l = l.substr(in); if (!l.starts_with("- ")) { StringRef k, v; if (keyed(l, k, v)) return map(ind, l); next(); return scalar(l); }
    auto *n = new Node; n->kind = 2; while (line(in, l) && in == ind && l.substr(in).starts_with("- ")) { StringRef r = l.substr(in + 2), k, v; if (keyed(r, k, v)) n->q.push_back(map(ind + 2, r)); else { next(); n->q.push_back(scalar(r)); } } return n; } };
static std::map<const void *, Node *> gTop, gCur; static std::vector<std::pair<const void *, bool>> gEnum;
static Node *&cur(const void *i) { return gCur[i]; } }
namespace llvm { namespace yaml {
IO::IO(void *c) : Ctxt(c) {} IO::~IO() {} void *IO::getContext() const { return Ctxt; } void IO::setContext(void *c) { Ctxt = c; }
class Scanner {}; Stream::~Stream() {}
Input::Input(StringRef s, void *c, SourceMgr::DiagHandlerTy, void *) : IO(c) { size_t in; StringRef l; Reader r{s}; gTop[this] = r.line(in, l) ? r.block(in) : nullptr; }
Input::~Input() { gTop.erase(this); gCur.erase(this); }
std::error_code Input::error() { return EC; }
bool Input::setCurrentDocument() { gCur[this] = gTop[this]; return gTop[this] != nullptr; }
bool Input::outputting() const { return false; } bool Input::canElideEmptySequence() { return false; }
void Input::beginMapping() {} void Input::endMapping() {} void Input::postflightKey(void *p) { gCur[this] = (::Node *)p; }
bool Input::preflightKey(const char *k, bool req, bool, bool &dflt, void *&save) { dflt = false; ::Node *n = cur(this); if (!n || n->kind != 1) { if (n) sym_unmodelled("YAML: not a mapping"); return false; }
  for (auto &e : n->m) if (e.first == k) { save = n; gCur[this] = e.second; return true; } if (req) sym_unmodelled("YAML: required key"); else dflt = true; return false; }
unsigned Input::beginSequence() { ::Node *n = cur(this); if (n->kind == 2) return n->q.size(); if (n->kind == 0 && n->s.empty()) return 0; sym_unmodelled("YAML: not a sequence"); return 0; } void Input::endSequence() {}
bool Input::preflightElement(unsigned i, void *&save) { ::Node *n = cur(this); save = n; gCur[this] = n->q[i]; return true; } void Input::postflightElement(void *p) { gCur[this] = (::Node *)p; }
unsigned Input::beginFlowSequence() { return beginSequence(); } bool Input::preflightFlowElement(unsigned i, void *&s) { return preflightElement(i, s); } void Input::postflightFlowElement(void *p) { postflightElement(p); } void Input::endFlowSequence() {}
void Input::beginEnumScalar() { ScalarMatchFound = false; } bool Input::matchEnumScalar(const char *v, bool) { if (ScalarMatchFound) return false; ::Node *n = cur(this); if (n->kind == 0 && n->s == v) { ScalarMatchFound = true; return true; } return false; } bool Input::matchEnumFallback() { if (ScalarMatchFound) return false; ScalarMatchFound = true; return true; } void Input::endEnumScalar() { if (!ScalarMatchFound) sym_unmodelled("YAML: unknown enumerator"); }
void Input::scalarString(StringRef &s, QuotingType) { ::Node *n = cur(this); if (n->kind != 0) sym_unmodelled("YAML: not a scalar"); s = n->s; }
void Input::setError(const Twine &) { sym_unmodelled("YAML: error"); }
StringRef ScalarTraits<StringRef>::input(StringRef s, void *, StringRef &v) { v = s; return {}; }
StringRef ScalarTraits<std::string>::input(StringRef s, void *, std::string &v) { v = s.str(); return {}; }
StringRef ScalarTraits<int32_t>::input(StringRef s, void *, int32_t &v) { if (!number(s, v)) return "invalid number"; return {}; }
StringRef ScalarTraits<bool>::input(StringRef s, void *, bool &v) { if (s == "true") v = true; else if (s == "false") v = false; else return "invalid boolean"; return {}; }
} }
