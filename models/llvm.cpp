// Models of the out-of-line parts of LLVM's support library that the code under test reaches.
#include <llvm/ADT/StringRef.h>
#include <llvm/ADT/SmallVector.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/Error.h>
#include <cstdlib>
#include <cstring>
#include <new>
#include "../harness/sym.h"
using namespace llvm;
// ---- streams: outs() is kept, the others are discarded
static std::string *gOuts;
std::string sym_llvm_outs() { return gOuts ? *gOuts : std::string(); }
alignas(16) static char outsMem[sizeof(raw_fd_ostream)], errsMem[sizeof(raw_fd_ostream)], nullsMem[sizeof(raw_fd_ostream)];
raw_fd_ostream &llvm::outs() { return *(raw_fd_ostream *)outsMem; }
raw_fd_ostream &llvm::errs() { return *(raw_fd_ostream *)errsMem; }
raw_ostream &llvm::nulls() { return *(raw_ostream *)nullsMem; }
raw_ostream &llvm::dbgs() { return *(raw_ostream *)nullsMem; }
bool llvm::DebugFlag;
raw_ostream &raw_ostream::write(const char *p, size_t n) { if ((void *)this == (void *)outsMem) { if (!gOuts) gOuts = new std::string(); gOuts->append(p, n); } else if ((void *)this != (void *)errsMem && (void *)this != (void *)nullsMem) write_impl(p, n); return *this; }
raw_ostream &raw_ostream::write(unsigned char c) { char x = (char)c; return write(&x, 1); }
static raw_ostream &num(raw_ostream &o, bool neg, unsigned long v) { if ((void *)&o == (void *)errsMem || (void *)&o == (void *)nullsMem) return o; char t[24]; size_t k = 24; do { t[--k] = (char)('0' + v % 10); v /= 10; } while (v); if (neg) t[--k] = '-'; return o.write(t + k, 24 - k); }
raw_ostream &raw_ostream::operator<<(unsigned long v) { return num(*this, false, v); }
raw_ostream &raw_ostream::operator<<(long v) { bool neg = sym_concretize(v < 0); return num(*this, neg, neg ? 0ul - (unsigned long)v : (unsigned long)v); }
raw_ostream &raw_ostream::operator<<(unsigned long long v) { return *this << (unsigned long)v; }
raw_ostream &raw_ostream::operator<<(long long v) { return *this << (long)v; }
raw_ostream &raw_ostream::operator<<(double v) { (void)v; sym_unmodelled("formatting of a double"); return *this; }
#include <llvm/Support/Format.h>
void format_object_base::home() {}
raw_ostream &raw_ostream::operator<<(const format_object_base &f) { char b[256]; unsigned n = f.print(b, sizeof b); if (n >= sizeof b) sym_unmodelled("a long format"); return write(b, n); }
raw_ostream &raw_ostream::indent(unsigned n) { for (unsigned i = 0; i < n; i++) write(' '); return *this; }
raw_ostream &raw_ostream::write_escaped(StringRef, bool) { sym_unmodelled("write_escaped"); return *this; }
raw_ostream &raw_ostream::write_hex(unsigned long long n) { char t[16]; size_t k = 16; do { unsigned d = n & 15; t[--k] = (char)sym_ite(d < 10, '0' + d, 'a' + d - 10); n >>= 4; } while (n); return write(t + k, 16 - k); }
void raw_ostream::flush_nonempty() { size_t n = OutBufCur - OutBufStart; OutBufCur = OutBufStart; write_impl(OutBufStart, n); }
void raw_ostream::SetBufferAndMode(char *b, size_t n, BufferKind k) { if (n) sym_unmodelled("buffered raw_ostream"); OutBufStart = b; OutBufEnd = b; OutBufCur = b; BufferMode = k; }
void raw_ostream::SetBuffered() { SetUnbuffered(); }
size_t raw_ostream::preferred_buffer_size() const { return 0; }
raw_ostream &raw_ostream::changeColor(enum Colors, bool, bool) { return *this; }
raw_ostream &raw_ostream::resetColor() { return *this; }
raw_ostream &raw_ostream::reverseColor() { return *this; }
void raw_ostream::anchor() {}
raw_ostream::~raw_ostream() {}
void raw_string_ostream::write_impl(const char *p, size_t n) { OS.append(p, n); }
void raw_svector_ostream::write_impl(const char *p, size_t n) { OS.append(p, p + n); }
void raw_svector_ostream::pwrite_impl(const char *p, size_t n, uint64_t at) { memcpy(OS.data() + at, p, n); }
uint64_t raw_svector_ostream::current_pos() const { return OS.size(); }
void raw_pwrite_stream::anchor() {}
void ErrorInfoBase::anchor() {}
char ErrorInfoBase::ID;
// ---- StringRef
size_t StringRef::find(StringRef s, size_t from) const { for (size_t i = from; i + s.size() <= size(); i++) if (!s.size() || !memcmp(data() + i, s.data(), s.size())) return i; return npos; }
size_t StringRef::find_first_of(StringRef s, size_t from) const { for (size_t i = from; i < size(); i++) for (char c : s) if (data()[i] == c) return i; return npos; }
size_t StringRef::find_first_not_of(char c, size_t from) const { for (size_t i = from; i < size(); i++) if (data()[i] != c) return i; return npos; }
size_t StringRef::find_first_not_of(StringRef s, size_t from) const { for (size_t i = from; i < size(); i++) { bool in = false; for (char c : s) in |= data()[i] == c; if (!in) return i; } return npos; }
size_t StringRef::find_last_of(StringRef s, size_t from) const { for (size_t i = from < size() ? from : size(); i-- > 0;) for (char c : s) if (data()[i] == c) return i; return npos; }
size_t StringRef::find_last_not_of(char c, size_t from) const { for (size_t i = from < size() ? from : size(); i-- > 0;) if (data()[i] != c) return i; return npos; }
size_t StringRef::find_last_not_of(StringRef s, size_t from) const { for (size_t i = from < size() ? from : size(); i-- > 0;) { bool in = false; for (char c : s) in |= data()[i] == c; if (!in) return i; } return npos; }
size_t StringRef::rfind(StringRef s) const { if (s.size() > size()) return npos; for (size_t i = size() - s.size() + 1; i-- > 0;) if (!memcmp(data() + i, s.data(), s.size())) return i; return npos; }
static unsigned char low(char c) { return (unsigned char)sym_ite(sym_and(c >= 'A', c <= 'Z'), (uint64_t)(unsigned char)(c + 32), (uint64_t)(unsigned char)c); }
size_t StringRef::rfind_insensitive(char c, size_t from) const { return lower().rfind((char)low(c), from); }
size_t StringRef::find_insensitive(char c, size_t from) const { return lower().find((char)low(c), from); }
size_t StringRef::find_insensitive(StringRef s, size_t from) const { for (size_t i = from; i + s.size() <= size(); i++) if (!substr(i, s.size()).compare_insensitive(s)) return i; return npos; }
size_t StringRef::rfind_insensitive(StringRef s) const { if (s.size() > size()) return npos; for (size_t i = size() - s.size() + 1; i-- > 0;) if (!substr(i, s.size()).compare_insensitive(s)) return i; return npos; }
size_t StringRef::count(StringRef s) const { size_t n = 0, at = 0; if (s.empty()) return 0; while ((at = find(s, at)) != npos) { n++; at += s.size(); } return n; }
int StringRef::compare_insensitive(StringRef r) const { size_t m = size() < r.size() ? size() : r.size(); for (size_t i = 0; i < m; i++) { unsigned char a = low(data()[i]), b = low(r.data()[i]); if (a != b) return a < b ? -1 : 1; } return size() == r.size() ? 0 : size() < r.size() ? -1 : 1; }
bool StringRef::starts_with_insensitive(StringRef p) const { return size() >= p.size() && substr(0, p.size()).compare_insensitive(p) == 0; }
bool StringRef::ends_with_insensitive(StringRef p) const { return size() >= p.size() && substr(size() - p.size()).compare_insensitive(p) == 0; }
std::string StringRef::upper() const { std::string r(str()); for (char &c : r) c = (char)sym_ite(sym_and(c >= 'a', c <= 'z'), (uint64_t)(unsigned char)(c - 32), (uint64_t)(unsigned char)c); return r; }
std::string StringRef::lower() const { std::string r(str()); for (char &c : r) c = (char)low(c); return r; }
void StringRef::split(SmallVectorImpl<StringRef> &a, StringRef sep, int max, bool keep) const { StringRef s = *this; while (max-- != 0) { size_t i = s.find(sep); if (i == npos) break; if (keep || i > 0) a.push_back(s.slice(0, i)); s = s.slice(i + sep.size(), npos); } if (keep || !s.empty()) a.push_back(s); }
void StringRef::split(SmallVectorImpl<StringRef> &a, char sep, int max, bool keep) const { split(a, StringRef(&sep, 1), max, keep); }
bool llvm::consumeUnsignedInteger(StringRef &s, unsigned base, unsigned long long &out) {
  if (!base) { base = 10; if (s.size() > 1 && s[0] == '0') { char c = s[1]; if (c == 'x' || c == 'X') { base = 16; s = s.drop_front(2); } else if (c == 'b' || c == 'B') { base = 2; s = s.drop_front(2); } else if (c == 'o') { base = 8; s = s.drop_front(2); } else if (c >= '0' && c <= '9') { base = 8; s = s.drop_front(1); } } }
  if (s.empty()) return true; StringRef o = s; out = 0;
  while (!s.empty()) { unsigned d; char c = s[0]; if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break; if (d >= base) break; unsigned long long was = out; out = out * base + d; if (out / base < was) return true; s = s.drop_front(1); }
  return o.size() == s.size(); }
bool llvm::consumeSignedInteger(StringRef &s, unsigned base, long long &out) {
  unsigned long long v; if (s.empty() || s[0] != '-') { if (consumeUnsignedInteger(s, base, v) || (long long)v < 0) return true; out = (long long)v; return false; }
  StringRef t = s.drop_front(1); if (consumeUnsignedInteger(t, base, v) || (long long)-v > 0) return true; s = t; out = (long long)-v; return false; }
bool llvm::getAsUnsignedInteger(StringRef s, unsigned base, unsigned long long &out) { return consumeUnsignedInteger(s, base, out) || !s.empty(); }
bool llvm::getAsSignedInteger(StringRef s, unsigned base, long long &out) { return consumeSignedInteger(s, base, out) || !s.empty(); }
// ---- pointer sets, hashing, maps of strings
#include <llvm/ADT/SmallPtrSet.h>
#include <llvm/ADT/StringMap.h>
// the order of big sets and maps is unspecified (addresses, hashes): a plain search over the buckets here
using PSB = SmallPtrSetImplBase;
const void *const *PSB::doFind(const void *p) const { for (unsigned i = 0; i < CurArraySize; i++) if (CurArray[i] == p) return &CurArray[i]; return nullptr; }
const void *const *PSB::FindBucketFor(const void *p) const { if (auto *b = doFind(p)) return b; for (unsigned i = 0; i < CurArraySize; i++) if (CurArray[i] == getEmptyMarker()) return &CurArray[i]; return nullptr; }
void PSB::Grow(unsigned n) { auto **old = CurArray; unsigned m = EndPointer() - CurArray; bool small = IsSmall; CurArray = (const void **)malloc(n * 8); memset(CurArray, -1, n * 8); CurArraySize = n; IsSmall = false; unsigned k = 0; for (unsigned i = 0; i < m; i++) if (old[i] != getEmptyMarker() && old[i] != getTombstoneMarker()) CurArray[k++] = old[i]; if (!small) free(old); NumNonEmpty -= NumTombstones; NumTombstones = 0; }
std::pair<const void *const *, bool> PSB::insert_imp_big(const void *p) { if (IsSmall || NumNonEmpty * 4 >= CurArraySize * 3) Grow(CurArraySize < 16 ? 32 : CurArraySize * 2); auto **b = const_cast<const void **>(FindBucketFor(p)); if (*b == p) return {b, false}; *b = p; NumNonEmpty++; incrementEpoch(); return {b, true}; }
void PSB::shrink_and_clear() { memset(CurArray, -1, CurArraySize * 8); NumNonEmpty = NumTombstones = 0; }
void PSB::copyHelper(const PSB &o) { CurArraySize = o.CurArraySize; memcpy(CurArray, o.CurArray, (o.EndPointer() - o.CurArray) * 8); NumNonEmpty = o.NumNonEmpty; NumTombstones = o.NumTombstones; }
PSB::SmallPtrSetImplBase(const void **small, const PSB &o) { IsSmall = o.isSmall(); CurArray = IsSmall ? small : (const void **)malloc(8 * o.CurArraySize); copyHelper(o); }
PSB::SmallPtrSetImplBase(const void **small, unsigned n, const void **other, PSB &&o) { moveHelper(small, n, other, std::move(o)); }
void PSB::moveHelper(const void **small, unsigned n, const void **other, PSB &&o) { if (o.isSmall()) { CurArray = small; memcpy(CurArray, o.CurArray, o.NumNonEmpty * 8); } else { CurArray = o.CurArray; o.CurArray = other; } CurArraySize = o.CurArraySize; NumNonEmpty = o.NumNonEmpty; NumTombstones = o.NumTombstones; IsSmall = o.IsSmall; o.CurArraySize = n; o.NumNonEmpty = 0; o.NumTombstones = 0; o.IsSmall = true; }
void PSB::copyFrom(const void **small, const PSB &o) { if (this == &o) return; if (!isSmall()) free(CurArray); IsSmall = o.isSmall(); CurArray = IsSmall ? small : (const void **)malloc(8 * o.CurArraySize); copyHelper(o); }
void PSB::moveFrom(const void **small, unsigned n, const void **other, PSB &&o) { if (!isSmall()) free(CurArray); moveHelper(small, n, other, std::move(o)); }
void PSB::swap(const void **, const void **, PSB &) { sym_unmodelled("swap of small pointer sets"); }
uint32_t StringMapImpl::hash(StringRef k) { return (uint32_t)k.size(); }
void StringMapImpl::init(unsigned n) { NumBuckets = n ? n : 16; NumItems = NumTombstones = 0; TheTable = (StringMapEntryBase **)calloc(NumBuckets + 1, sizeof(void *) + sizeof(unsigned)); TheTable[NumBuckets] = (StringMapEntryBase *)2; }
StringMapImpl::StringMapImpl(unsigned n, unsigned item) { ItemSize = item; if (n) { unsigned m = 16; while (m * 3 < n * 4 + 4) m *= 2; init(m); } }
static bool sameKey(StringMapEntryBase *e, unsigned item, StringRef k) { return e->getKeyLength() == k.size() && !memcmp((const char *)e + item, k.data(), k.size()); }
int StringMapImpl::FindKey(StringRef k, uint32_t) const { for (unsigned i = 0; i < NumBuckets; i++) if (TheTable[i] && TheTable[i] != getTombstoneVal() && sameKey(TheTable[i], ItemSize, k)) return (int)i; return -1; }
unsigned StringMapImpl::LookupBucketFor(StringRef k, uint32_t h) { if (!NumBuckets) init(16); int i = FindKey(k, h); if (i >= 0) return (unsigned)i; for (unsigned j = 0; j < NumBuckets; j++) if (!TheTable[j]) return j; for (unsigned j = 0; j < NumBuckets; j++) if (TheTable[j] == getTombstoneVal()) return j; return 0; }
unsigned StringMapImpl::RehashTable(unsigned at) { if (NumItems * 4 <= NumBuckets * 3) return at; unsigned m = NumBuckets; auto **old = TheTable; unsigned items = NumItems, r = 0, k = 0; init(m * 2); for (unsigned i = 0; i < m; i++) if (old[i] && old[i] != getTombstoneVal()) { if (i == at) r = k; TheTable[k++] = old[i]; } NumItems = items; free(old); return r; }
void StringMapImpl::RemoveKey(StringMapEntryBase *v) { for (unsigned i = 0; i < NumBuckets; i++) if (TheTable[i] == v) { TheTable[i] = getTombstoneVal(); NumItems--; NumTombstones++; } }
StringMapEntryBase *StringMapImpl::RemoveKey(StringRef k) { int i = FindKey(k, 0); if (i < 0) return nullptr; auto *v = TheTable[i]; TheTable[i] = getTombstoneVal(); NumItems--; NumTombstones++; return v; }
unsigned DenseMapInfo<StringRef, void>::getHashValue(StringRef s) { return (unsigned)s.size(); }
// ---- SmallVector
template <class S> void *SmallVectorBase<S>::mallocForGrow(void *, size_t min, size_t ts, size_t &cap) { cap = this->capacity() * 2 + 1 > min ? this->capacity() * 2 + 1 : min; return malloc(cap * ts); }
template <class S> void SmallVectorBase<S>::grow_pod(void *first, size_t min, size_t ts) { size_t cap = this->capacity() * 2 + 1 > min ? this->capacity() * 2 + 1 : min; void *n = malloc(cap * ts); memcpy(n, BeginX, this->size() * ts); if (BeginX != first) free(BeginX); this->BeginX = n; this->Capacity = cap; }
template class llvm::SmallVectorBase<uint32_t>;
template class llvm::SmallVectorBase<uint64_t>;
namespace llvm { void *allocate_buffer(size_t n, size_t) { return malloc(n); } void deallocate_buffer(void *p, size_t, size_t) { free(p); } }
// ---- Twine
#include <llvm/ADT/Twine.h>
static void twine(std::string &r, Twine::Child c, Twine::NodeKind k) { switch (k) { case Twine::NullKind: case Twine::EmptyKind: return; case Twine::TwineKind: r += c.twine->str(); return; case Twine::CStringKind: r += c.cString; return; case Twine::StdStringKind: r += *c.stdString; return; case Twine::PtrAndLengthKind: case Twine::StringLiteralKind: r.append(c.ptrAndLength.ptr, c.ptrAndLength.length); return; case Twine::CharKind: r += c.character; return;
  case Twine::DecUIKind: r += std::to_string(c.decUI); return; case Twine::DecIKind: r += std::to_string(c.decI); return; case Twine::DecULKind: r += std::to_string(*c.decUL); return; case Twine::DecLKind: r += std::to_string(*c.decL); return; case Twine::DecULLKind: r += std::to_string(*c.decULL); return; case Twine::DecLLKind: r += std::to_string(*c.decLL); return; default: sym_unmodelled("Twine"); } }
std::string Twine::str() const { std::string r; twine(r, LHS, LHSKind); twine(r, RHS, RHSKind); return r; }
void Twine::print(raw_ostream &o) const { o << str(); }
void Twine::toVector(SmallVectorImpl<char> &v) const { std::string s = str(); v.append(s.begin(), s.end()); }
StringRef Twine::toNullTerminatedStringRef(SmallVectorImpl<char> &v) const { toVector(v); v.push_back(0); v.pop_back(); return StringRef(v.data(), v.size()); }
// ---- integers of up to 64 bits (wider ones: not modelled)
#include <llvm/ADT/APInt.h>
#include <llvm/ADT/APSInt.h>
static void narrow(const APInt &a) { if (!a.isSingleWord()) sym_unmodelled("an integer wider than 64 bits"); }
#define AOP(OP) APInt &APInt::operator OP(const APInt &r) { narrow(*this); U.VAL OP r.U.VAL; clearUnusedBits(); return *this; } APInt &APInt::operator OP(uint64_t r) { narrow(*this); U.VAL OP r; clearUnusedBits(); return *this; }
AOP(+=) AOP(-=) AOP(*=)
APInt &APInt::operator++() { narrow(*this); U.VAL++; clearUnusedBits(); return *this; }
APInt &APInt::operator--() { narrow(*this); U.VAL--; clearUnusedBits(); return *this; }
APInt APInt::operator*(const APInt &r) const { APInt t(*this); t *= r; return t; }
static int64_t sx(const APInt &a) { return (int64_t)(a.getRawData()[0] << (64 - a.getBitWidth())) >> (64 - a.getBitWidth()); }
int APInt::compare(const APInt &r) const { narrow(*this); return U.VAL < r.U.VAL ? -1 : U.VAL > r.U.VAL; }
int APInt::compareSigned(const APInt &r) const { narrow(*this); int64_t a = sx(*this), b = sx(r); return a < b ? -1 : a > b; }
APInt APInt::udiv(const APInt &r) const { narrow(*this); return APInt(BitWidth, U.VAL / r.U.VAL); }
APInt APInt::udiv(uint64_t r) const { narrow(*this); return APInt(BitWidth, U.VAL / r); }
APInt APInt::urem(const APInt &r) const { narrow(*this); return APInt(BitWidth, U.VAL % r.U.VAL); }
uint64_t APInt::urem(uint64_t r) const { narrow(*this); return U.VAL % r; }
static APInt low64(unsigned w, uint64_t v) { return APInt(w, w < 64 ? v & ((1ull << w) - 1) : v); }
APInt APInt::sdiv(const APInt &r) const { narrow(*this); int64_t b = sx(r); return b == -1 ? low64(BitWidth, 0 - U.VAL) : low64(BitWidth, (uint64_t)(sx(*this) / b)); }
APInt APInt::srem(const APInt &r) const { narrow(*this); int64_t b = sx(r); return b == -1 ? low64(BitWidth, 0) : low64(BitWidth, (uint64_t)(sx(*this) % b)); }
APInt APInt::zext(unsigned w) const { narrow(*this); if (w > 64) sym_unmodelled("an integer wider than 64 bits"); return APInt(w, U.VAL); }
APInt APInt::sext(unsigned w) const { narrow(*this); if (w > 64) sym_unmodelled("an integer wider than 64 bits"); return low64(w, (uint64_t)sx(*this)); }
APInt APInt::trunc(unsigned w) const { narrow(*this); return low64(w, U.VAL); }
APInt APInt::zextOrTrunc(unsigned w) const { return w > BitWidth ? zext(w) : trunc(w); }
APInt APInt::sextOrTrunc(unsigned w) const { return w > BitWidth ? sext(w) : trunc(w); }
