// Interface between a harness and what runs it: the symbolic executor, or (replay) the native runtime in
// sym_native.cpp, which feeds the recorded values of one execution.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
extern "C" {
uint64_t sym_u64(const char *name, unsigned bits);          // a fresh arbitrary value of that many bits
void sym_bytes(void *p, size_t n, const char *name);        // arbitrary bytes
void sym_assume(bool c);
void sym_assert(bool c, const char *label);
void sym_cover(const char *label);                          // reachability witness
void sym_observe(const char *label, uint64_t v);            // compared between the executor and native replays
uint64_t sym_concretize(uint64_t v);                        // one path per feasible value
bool sym_and(bool a, bool b);
bool sym_or(bool a, bool b);
bool sym_not(bool a);
uint64_t sym_ite(bool c, uint64_t a, uint64_t b);
bool sym_eq_bytes(const void *a, const void *b, size_t n);
void sym_print(const char *label, uint64_t v);
void sym_note(const char *p, size_t n);
void sym_where();
void sym_unmodelled(const char *what);
void sym_end_path();
void *sym_image(void *root);                                 // a native process at this point of the same run; its root
}
static inline int sym_int(const char *n, int lo, int hi) {
  if (lo >= 0 && hi < 0x3fffffff) { unsigned w = 1; while ((1l << w) <= hi) w++; int v = (int)sym_u64(n, w); sym_assume(sym_and(v >= lo, v <= hi)); return v; }
  int v = (int)sym_u64(n, 32); sym_assume(sym_and(v >= lo, v <= hi)); return v; }
static inline int sym_anyint(const char *n) { return (int)sym_u64(n, 32); }
static inline bool sym_bool(const char *n) { return sym_u64(n, 1) & 1; }
static inline int sym_choose(const char *n, int lo, int hi) { return (int)sym_concretize((uint64_t)(int64_t)sym_int(n, lo, hi)); }
static inline char sym_char(const char *n) { return (char)sym_u64(n, 8); }
static inline std::string sym_string(const char *n, size_t len) { char b[64]; sym_bytes(b, len, n); return std::string(b, len); }
static inline std::string sym_string_upto(const char *n, size_t max) { size_t l = (size_t)sym_choose("len", 0, (int)max); return sym_string(n, l); }
// equality of strings without forking on the contents
static inline bool sym_eq(const std::string &a, const std::string &b) { return a.size() == b.size() && sym_eq_bytes(a.data(), b.data(), a.size()); }
#define HARNESS(name) extern "C" __attribute__((used)) void name()
