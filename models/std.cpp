// Models of the out-of-line parts of the C and C++ runtime (what the headers do not contain).
// Compiled to LLVM IR and executed symbolically together with the code under test.
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <cerrno>
#include <cctype>
#include <ctime>
#include <climits>
#include <string>
#include <stdexcept>
#include <new>
#include <map>
#include <list>
#include <functional>
#include <unordered_map>
#include <ostream>
#include <iostream>
#include <sstream>
#include "../harness/sym.h"

extern "C" {
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { for (;; a++, b++) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncmp(const char *a, const char *b, size_t n) { for (; n; a++, b++, n--) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
int strcoll(const char *a, const char *b) { return strcmp(a, b); }
char *strncat(char *d, const char *s, size_t n) { char *e = d + strlen(d); size_t k = strnlen(s, n); memcpy(e, s, k); e[k] = 0; return d; }
size_t strspn(const char *s, const char *a) { size_t n = 0; for (; s[n]; n++) { const char *q = a; while (*q && *q != s[n]) q++; if (!*q) break; } return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; for (; s[n]; n++) { const char *q = a; while (*q && *q != s[n]) q++; if (*q) break; } return n; }
char *strtok_r(char *s, const char *a, char **save) { if (!s) s = *save; s += strspn(s, a); if (!*s) { *save = s; return nullptr; } char *e = s + strcspn(s, a); if (*e) *e++ = 0; *save = e; return s; }
char *strtok(char *s, const char *a) { static char *save; return strtok_r(s, a, &save); }
int strcasecmp(const char *a, const char *b) { for (;; a++, b++) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncasecmp(const char *a, const char *b, size_t n) { for (; n; a++, b++, n--) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *r = (char *)malloc(n); memcpy(r, s, n); return r; }
}
#undef strchr
#undef memchr
extern "C" void *memchr_(const void *s, int c, size_t n) __asm__("memchr");
extern "C" void *memchr_(const void *s, int c, size_t n) { const unsigned char *p = (const unsigned char *)s; for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void *)(p + i); return nullptr; }
extern "C" char *strchr_(const char *s, int c) __asm__("strchr");
extern "C" char *strchr_(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return nullptr; } }
extern "C" char *strrchr_(const char *s, int c) __asm__("strrchr");
extern "C" char *strrchr_(const char *s, int c) { const char *r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
extern "C" char *strstr_(const char *h, const char *n) __asm__("strstr");
extern "C" char *strstr_(const char *h, const char *n) { size_t l = strlen(n); for (;; h++) { if (!strncmp(h, n, l)) return (char *)h; if (!*h) return nullptr; } }
extern "C" char *strpbrk_(const char *s, const char *a) __asm__("strpbrk");
extern "C" char *strpbrk_(const char *s, const char *a) { for (; *s; s++) if (strchr_(a, *s)) return (char *)s; return nullptr; }

// ctype, C locale; no forking on the argument (results are selected, not branched on)
#define RNG(lo, hi) ((unsigned)(c) - (unsigned)(lo) <= (unsigned)((hi) - (lo)))
static inline int bit(bool b) { return (int)b; }
extern "C" {
int isalpha(int c) { return bit(sym_or(RNG('a', 'z'), RNG('A', 'Z'))); }
int isdigit(int c) { return bit(RNG('0', '9')); }
int isalnum(int c) { return bit(sym_or(sym_or(RNG('a', 'z'), RNG('A', 'Z')), RNG('0', '9'))); }
int islower(int c) { return bit(RNG('a', 'z')); }
int isupper(int c) { return bit(RNG('A', 'Z')); }
int isspace(int c) { return bit(sym_or(c == ' ', RNG(9, 13))); }
int isblank(int c) { return bit(sym_or(c == ' ', c == 9)); }
int isprint(int c) { return bit(RNG(32, 126)); }
int isgraph(int c) { return bit(RNG(33, 126)); }
int iscntrl(int c) { return bit(sym_or(RNG(0, 31), c == 127)); }
int ispunct(int c) { return bit(sym_and(RNG(33, 126), sym_not(isalnum(c)))); }
int isxdigit(int c) { return bit(sym_or(sym_or(RNG('a', 'f'), RNG('A', 'F')), RNG('0', '9'))); }
int toupper(int c) throw() { return (int)sym_ite(RNG('a', 'z'), (uint64_t)(int64_t)(c - 32), (uint64_t)(int64_t)c); }
int tolower(int c) throw() { return (int)sym_ite(RNG('A', 'Z'), (uint64_t)(int64_t)(c + 32), (uint64_t)(int64_t)c); }

// numbers
static long m_strtol(const char *s, char **end, int base) {
  const char *p = s; while (isspace((unsigned char)*p)) p++;
  bool neg = false; if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
  else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long v = 0; bool any = false, over = false; unsigned long lim = neg ? (unsigned long)LONG_MAX + 1 : (unsigned long)LONG_MAX;
  for (;; p++) { unsigned char c = *p; unsigned d; if (isdigit(c)) d = c - '0'; else if (isalpha(c)) d = (unsigned)tolower(c) - 'a' + 10; else break; if (d >= (unsigned)base) break; any = true;
    if (v > (lim - d) / base) over = true; else v = v * base + d; }
  if (end) *end = (char *)(any ? p : s);
  if (over) { errno = ERANGE; return neg ? LONG_MIN : LONG_MAX; }
  return neg ? (long)(0 - v) : (long)v;
}
long w1(const char *s, char **e, int b) __asm__("strtol"); long w1(const char *s, char **e, int b) { return m_strtol(s, e, b); }
long w2(const char *s, char **e, int b) __asm__("strtoll"); long w2(const char *s, char **e, int b) { return m_strtol(s, e, b); }
long w3(const char *s, char **e, int b) __asm__("__isoc23_strtol"); long w3(const char *s, char **e, int b) { return m_strtol(s, e, b); }
long w4(const char *s, char **e, int b) __asm__("__isoc23_strtoll"); long w4(const char *s, char **e, int b) { return m_strtol(s, e, b); }
static unsigned long m_strtoul(const char *s, char **end, int base) {
  const char *p = s; while (isspace((unsigned char)*p)) p++;
  bool neg = false; if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
  else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long v = 0; bool any = false, over = false;
  for (;; p++) { unsigned char c = *p; unsigned d; if (isdigit(c)) d = c - '0'; else if (isalpha(c)) d = (unsigned)tolower(c) - 'a' + 10; else break; if (d >= (unsigned)base) break; any = true;
    if (v > (ULONG_MAX - d) / base) over = true; else v = v * base + d; }
  if (end) *end = (char *)(any ? p : s);
  if (over) { errno = ERANGE; return ULONG_MAX; }
  return neg ? 0 - v : v;
}
unsigned long u1(const char *s, char **e, int b) __asm__("strtoul"); unsigned long u1(const char *s, char **e, int b) { return m_strtoul(s, e, b); }
unsigned long u2(const char *s, char **e, int b) __asm__("strtoull"); unsigned long u2(const char *s, char **e, int b) { return m_strtoul(s, e, b); }
unsigned long u3(const char *s, char **e, int b) __asm__("__isoc23_strtoul"); unsigned long u3(const char *s, char **e, int b) { return m_strtoul(s, e, b); }
unsigned long u4(const char *s, char **e, int b) __asm__("__isoc23_strtoull"); unsigned long u4(const char *s, char **e, int b) { return m_strtoul(s, e, b); }
int atoi_(const char *s) __asm__("atoi");
int atoi_(const char *s) { return (int)m_strtol(s, nullptr, 10); }
long atol_(const char *s) __asm__("atol");
long atol_(const char *s) { return m_strtol(s, nullptr, 10); }
// decimal reals: sign, digits, point, digits (no exponent); digits are made concrete by the executor
double strtod(const char *s, char **end) {
  const char *p = s; while (isspace((unsigned char)*p)) p++;
  bool neg = false; if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
  double v = 0, sc = 1; bool any = false;
  while (isdigit((unsigned char)*p)) { v = v * 10 + (double)(int)sym_concretize((unsigned char)(*p - '0')); p++; any = true; }
  if (*p == '.') { const char *q = p + 1; bool fr = false; while (isdigit((unsigned char)*q)) { v = v * 10 + (double)(int)sym_concretize((unsigned char)(*q - '0')); sc *= 10; q++; fr = true; } if (any || fr) { p = q; any = any || fr; } }
  if (any && (*p == 'e' || *p == 'E')) { const char *q = p + 1; if (*q == '+' || *q == '-') q++; if (isdigit((unsigned char)*q)) sym_unmodelled("exponent in a decimal real"); }
  if (!any && sym_concretize((unsigned char)tolower(*p) == 'i' || (unsigned char)tolower(*p) == 'n')) { if ((tolower(p[0]) == 'i' && tolower(p[1]) == 'n' && tolower(p[2]) == 'f') || (tolower(p[0]) == 'n' && tolower(p[1]) == 'a' && tolower(p[2]) == 'n')) sym_unmodelled("inf/nan in a decimal real"); }
  if (end) *end = (char *)(any ? p : s);
  v = v / sc; return neg ? -v : v;
}
double atof_(const char *s) __asm__("atof");
double atof_(const char *s) { return strtod(s, nullptr); }
static int model_errno;
int *__errno_location() noexcept { return &model_errno; }
}

extern "C" char __libc_single_threaded; char __libc_single_threaded = 1;
extern "C" void qsort_(void *b, size_t n, size_t w, int (*cmp)(const void *, const void *)) __asm__("qsort");
extern "C" void qsort_(void *b, size_t n, size_t w, int (*cmp)(const void *, const void *)) { char *p = (char *)b; for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && cmp(p + (j - 1) * w, p + j * w) > 0; j--) for (size_t k = 0; k < w; k++) { char t = p[j * w + k]; p[j * w + k] = p[(j - 1) * w + k]; p[(j - 1) * w + k] = t; } }
extern "C" void *bsearch_(const void *key, const void *b, size_t n, size_t w, int (*cmp)(const void *, const void *)) __asm__("bsearch");
extern "C" void *bsearch_(const void *key, const void *b, size_t n, size_t w, int (*cmp)(const void *, const void *)) { for (size_t i = 0; i < n; i++) if (!cmp(key, (const char *)b + i * w)) return (char *)b + i * w; return nullptr; }
// formatting of integers, as the standard library does it
static size_t fmtU(char *b, unsigned long v) { char t[24]; size_t n = 0; do { t[n++] = '0' + v % 10; v /= 10; } while (v); for (size_t i = 0; i < n; i++) b[i] = t[n - 1 - i]; return n; }

#include <cstdarg>
#include <ctime>
extern "C" {
// the printf family: flags 0 - + space, width, precision, lengths, d i u x X c s %
uint64_t sym_double(char *out, uint64_t cap, int conv, int flags, int prec, uint64_t bits);
int vsnprintf(char *out, size_t cap, const char *f, va_list ap) noexcept {
  size_t k = 0; auto put = [&](char c) { if (k + 1 < cap) out[k] = c; k++; };
  for (; *f; f++) {
    if (*f != '%') { put(*f); continue; }
    f++; bool zero = false, left = false, plus = false, space = false; int width = 0, prec = -1, lng = 0;
    for (;; f++) { if (*f == '0') zero = true; else if (*f == '-') left = true; else if (*f == '+') plus = true; else if (*f == ' ') space = true; else break; }
    if (*f == '*') { width = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
    while (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') { lng = 1; f++; } while (*f == 'h') { lng--; f++; }
    if (*f == '%') { put('%'); continue; }
    char b[400]; size_t n = 0; const char *s = b; char sign = 0; bool number = true;
    if (*f == 'd' || *f == 'i') { long v = lng > 0 ? va_arg(ap, long) : (long)va_arg(ap, int); if (lng == -1) v = (short)v; if (lng == -2) v = (signed char)v; bool neg = sym_concretize(v < 0); if (neg) sign = '-'; else if (plus) sign = '+'; else if (space) sign = ' '; n = fmtU(b, neg ? 0ul - (unsigned long)v : (unsigned long)v); }
    else if (*f == 'u' || *f == 'x' || *f == 'X') { unsigned long v = lng > 0 ? va_arg(ap, unsigned long) : (unsigned long)va_arg(ap, unsigned); if (lng == -1) v = (unsigned short)v; if (lng == -2) v = (unsigned char)v;
      if (*f == 'u') n = fmtU(b, v); else { char t[20]; size_t m = 0; do { unsigned d = v & 15; t[m++] = (char)sym_ite(d < 10, '0' + d, (*f == 'x' ? 'a' : 'A') + d - 10); v >>= 4; } while (v); while (m) b[n++] = t[--m]; } }
    else if (*f == 'c') { b[0] = (char)va_arg(ap, int); n = 1; number = false; }
    else if (*f == 's') { s = va_arg(ap, const char *); n = prec >= 0 ? strnlen(s, prec) : strlen(s); number = false; }
    else if (strchr_("fFeEgG", *f)) { double d = va_arg(ap, double); uint64_t u; memcpy(&u, &d, 8); n = sym_double(b, sizeof b, *f, 0, prec, u); if (b[0] == '-') { sign = '-'; s = b + 1; n--; } else if (plus) sign = '+'; else if (space) sign = ' '; prec = -1; }
    else sym_unmodelled("printf conversion");
    if (number && prec >= 0) zero = false;
    size_t digits = number && prec > (int)n ? prec : n; size_t len = digits + (sign ? 1 : 0); size_t pad = width > (int)len ? width - len : 0;
    if (!left && !(zero && number)) for (; pad; pad--) put(' ');
    if (sign) put(sign); if (zero && number && !left) for (; pad; pad--) put('0');
    for (size_t i = n; i < digits; i++) put('0'); for (size_t i = 0; i < n; i++) put(s[i]); for (; pad; pad--) put(' ');
  }
  if (cap) out[k < cap ? k : cap - 1] = 0; return (int)k;
}
int snprintf(char *out, size_t cap, const char *f, ...) noexcept { va_list ap; va_start(ap, f); int r = vsnprintf(out, cap, f, ap); va_end(ap); return r; }
int sprintf(char *out, const char *f, ...) noexcept { va_list ap; va_start(ap, f); int r = vsnprintf(out, (size_t)1 << 30, f, ap); va_end(ap); return r; }
size_t strftime(char *out, size_t cap, const char *f, const struct tm *t) noexcept {
  std::string r; char b[16]; auto two = [&](int v) { r += (char)('0' + v / 10); r += (char)('0' + v % 10); };
  for (; *f; f++) { if (*f != '%') { r += *f; continue; }
    switch (*++f) { case 'Y': r.append(b, fmtU(b, (unsigned long)(t->tm_year + 1900))); break; case 'm': two(t->tm_mon + 1); break; case 'd': two(t->tm_mday); break; case 'H': two(t->tm_hour); break; case 'M': two(t->tm_min); break; case 'S': two(t->tm_sec); break;
      case 'F': r.append(b, fmtU(b, (unsigned long)(t->tm_year + 1900))); r += '-'; two(t->tm_mon + 1); r += '-'; two(t->tm_mday); break; case 'T': two(t->tm_hour); r += ':'; two(t->tm_min); r += ':'; two(t->tm_sec); break; case 'Z': r += "UTC"; break; case '%': r += '%'; break; default: sym_unmodelled("strftime conversion"); } }
  if (r.size() + 1 > cap) return 0; memcpy(out, r.c_str(), r.size() + 1); return r.size(); }
}
namespace std {
size_t _Hash_bytes(const void *p, size_t n, size_t seed) {      // any function of the bytes will do: a small polynomial
  const unsigned char *s = (const unsigned char *)p; unsigned char h = (unsigned char)n; for (size_t i = 0; i < n; i++) h = (unsigned char)(h * 3 + s[i]); (void)seed; return h; }
size_t _Fnv_hash_bytes(const void *p, size_t n, size_t seed) { return _Hash_bytes(p, n, seed); }

namespace __detail {
// bucket counts are an implementation choice: powers of two here
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t r = 2; while (r < n) r *= 2; _M_next_resize = r; return r; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ins) const {
  if (ne + ins > _M_next_resize) { size_t want = ne + ins; size_t nx = _M_next_bkt(want + 1 > nb * 2 ? want + 1 : nb * 2); return {true, nx}; }
  return {false, 0}; }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
  auto fix = [](_List_node_base &t, _List_node_base *old, _List_node_base &now) { (void)now; if (t._M_next == old) t._M_next = t._M_prev = &t; else t._M_next->_M_prev = t._M_prev->_M_next = &t; };
  std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); fix(x, &y, y); fix(y, &x, x); }
void _List_node_base::_M_hook(_List_node_base *p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base *f, _List_node_base *l) noexcept {
  if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; auto *t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::_M_reverse() noexcept { auto *t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
}

// red-black tree: kept as a plain binary search tree (balance is not observable)
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
  else { auto *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
  return x; }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left) { auto *y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
  else { auto *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
  return x; }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
  x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  h._M_color = _S_red; }
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
  auto repl = [&](_Rb_tree_node_base *o, _Rb_tree_node_base *n) { if (h._M_parent == o) h._M_parent = n; else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n; else o->_M_parent->_M_right = n; if (n) n->_M_parent = o->_M_parent; };
  _Rb_tree_node_base *next = nullptr, *prev = nullptr;
  if (h._M_left == z) next = _Rb_tree_increment(z);
  if (h._M_right == z) prev = _Rb_tree_decrement(z);
  if (!z->_M_left) repl(z, z->_M_right);
  else if (!z->_M_right) repl(z, z->_M_left);
  else { auto *y = z->_M_right; while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
  if (next) h._M_left = next; if (prev) h._M_right = prev;
  if (!h._M_parent) { h._M_left = &h; h._M_right = &h; }
  return z; }

void __throw_out_of_range_fmt(const char *s, ...) { throw std::out_of_range(s); }
void __throw_out_of_range(const char *s) { throw std::out_of_range(s); }
void __throw_logic_error(const char *s) { throw std::logic_error(s); }
void __throw_length_error(const char *s) { throw std::length_error(s); }
void __throw_invalid_argument(const char *s) { throw std::invalid_argument(s); }
void __throw_bad_alloc() { throw std::bad_alloc(); }
void __throw_bad_array_new_length() { throw std::bad_alloc(); }
void __throw_bad_function_call() { throw std::bad_function_call(); }
void __throw_bad_cast() { sym_unmodelled("bad_cast"); throw std::bad_alloc(); }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
// std::logic_error and friends keep a private message; here it is a plain heap copy
static void setMsg(void *e, const char *s) { char *c = strdup(s); memcpy((char *)e + 8, &c, 8); }
static const char *getMsg(const void *e) { const char *c; memcpy(&c, (const char *)e + 8, 8); return c; }
logic_error::logic_error(const char *s) : _M_msg() { setMsg(this, s); }
logic_error::logic_error(const string &s) : _M_msg() { setMsg(this, s.c_str()); }
logic_error::logic_error(const logic_error &o) noexcept : _M_msg() { memcpy((char *)this + 8, (const char *)&o + 8, 8); }
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { return getMsg(this); }
out_of_range::out_of_range(const char *s) : logic_error(s) {}
out_of_range::out_of_range(const string &s) : logic_error(s) {}
out_of_range::~out_of_range() noexcept {}
length_error::length_error(const char *s) : logic_error(s) {}
length_error::~length_error() noexcept {}
invalid_argument::invalid_argument(const char *s) : logic_error(s) {}
invalid_argument::invalid_argument(const string &s) : logic_error(s) {}
invalid_argument::~invalid_argument() noexcept {}
runtime_error::runtime_error(const char *s) : _M_msg() { setMsg(this, s); }
runtime_error::runtime_error(const string &s) : _M_msg() { setMsg(this, s.c_str()); }
runtime_error::runtime_error(const runtime_error &o) noexcept : _M_msg() { memcpy((char *)this + 8, (const char *)&o + 8, 8); }
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return getMsg(this); }
#define RT(N) N::N(const char *s) : runtime_error(s) {} N::N(const string &s) : runtime_error(s) {} N::~N() noexcept {}
#define LT(N) N::N(const char *s) : logic_error(s) {} N::N(const string &s) : logic_error(s) {} N::~N() noexcept {}
RT(range_error) RT(overflow_error) RT(underflow_error) LT(domain_error)
length_error::length_error(const string &s) : logic_error(s) {}
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
__cow_string::__cow_string() { }
__cow_string::~__cow_string() { }

// ---------------------------------------------------------------- streams
// stream buffers and string streams come from the headers; locale machinery is cut out here
locale::locale() throw() : _M_impl(nullptr) {}
locale::locale(const locale &o) throw() : _M_impl(o._M_impl) {}
locale::~locale() throw() {}
const locale &locale::operator=(const locale &o) throw() { _M_impl = o._M_impl; return *this; }
ios_base::ios_base() throw() : _M_precision(6), _M_width(0), _M_flags(skipws | dec), _M_exception(goodbit), _M_streambuf_state(goodbit), _M_callbacks(nullptr), _M_word_zero(), _M_word_size(8), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; }
ios_base::Init::Init() {}
ios_base::Init::~Init() {}
ios_base::failure::failure(const string &s) : system_error(error_code()) { (void)s; }
}
extern "C" void cache_locale(void *) __asm__("__ov__ZNSt9basic_iosIcSt11char_traitsIcEE15_M_cache_localeERKSt6locale");
extern "C" void cache_locale(void *) {}
extern "C" char widen_(void *, char c) __asm__("__ov__ZNKSt9basic_iosIcSt11char_traitsIcEE5widenEc");
extern "C" char widen_(void *, char c) { return c; }
static std::ostream &putN(std::ostream &o, const char *b, size_t n) { return std::__ostream_insert(o, b, n); }
static std::ostream &putInt(std::ostream &o, bool neg, unsigned long mag, unsigned long raw) {
  auto f = o.flags() & std::ios_base::basefield; char b[40];
  if (f == std::ios_base::hex || f == std::ios_base::oct) { unsigned base = f == std::ios_base::hex ? 16 : 8; char t[40]; size_t n = 0; bool up = (o.flags() & std::ios_base::uppercase) != 0; do { unsigned d = raw % base; t[n++] = d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10; raw /= base; } while (raw); size_t k = 0;
    if (o.flags() & std::ios_base::showbase) sym_unmodelled("showbase");
    for (size_t i = 0; i < n; i++) b[k++] = t[n - 1 - i]; return putN(o, b, k); }
  size_t k = 0; if (neg) b[k++] = '-'; else if (o.flags() & std::ios_base::showpos) b[k++] = '+'; 
  if (o.width() && (neg) && (o.flags() & std::ios_base::internal)) sym_unmodelled("internal fill");
  k += fmtU(b + k, mag); return putN(o, b, k); }
#define INS(T, mangled, U) extern "C" std::ostream *ins_##mangled(std::ostream *o, T v) __asm__("__ov_" #mangled); extern "C" std::ostream *ins_##mangled(std::ostream *o, T v) { bool neg = sym_concretize(v < 0); putInt(*o, neg, neg ? 0ul - (unsigned long)(long)v : (unsigned long)v, (unsigned long)(U)v); return o; }
INS(short, _ZNSolsEs, unsigned short)
INS(unsigned short, _ZNSolsEt, unsigned short)
INS(int, _ZNSolsEi, unsigned)
INS(unsigned, _ZNSolsEj, unsigned)
INS(long, _ZNSolsEl, unsigned long)
INS(unsigned long, _ZNSolsEm, unsigned long)
INS(long long, _ZNSolsEx, unsigned long)
INS(unsigned long long, _ZNSolsEy, unsigned long)
extern "C" std::ostream *ins_ptr(std::ostream *o, const void *p) __asm__("__ov__ZNSolsEPKv");
extern "C" std::ostream *ins_ptr(std::ostream *o, const void *p) { unsigned long v = (unsigned long)p; char t[24]; size_t n = 0; do { unsigned d = v & 15; t[n++] = (char)(d < 10 ? '0' + d : 'a' + d - 10); v >>= 4; } while (v); if (p) { t[n++] = 'x'; t[n++] = '0'; } for (size_t i = 0; i < n / 2; i++) std::swap(t[i], t[n - 1 - i]); putN(*o, t, n); return o; }
extern "C" std::ostream *ins_bool(std::ostream *o, bool v) __asm__("__ov__ZNSolsEb");
extern "C" std::ostream *ins_bool(std::ostream *o, bool v) { if (o->flags() & std::ios_base::boolalpha) { if (v) putN(*o, "true", 4); else putN(*o, "false", 5); } else putInt(*o, false, v, v); return o; }
extern "C" std::ostream *ins_dbl(std::ostream *o, double v) __asm__("__ov__ZNSolsEd");
extern "C" std::ostream *ins_dbl(std::ostream *o, double v) { uint64_t u; memcpy(&u, &v, 8); auto fl = o->flags(); auto ff = fl & std::ios_base::floatfield; bool up = (fl & std::ios_base::uppercase) != 0; int c = ff == std::ios_base::fixed ? 'f' : ff == std::ios_base::scientific ? 'e' : 'g'; if (up) c -= 32; char b[400]; size_t n = sym_double(b, sizeof b, c, (fl & std::ios_base::showpoint ? 1 : 0) | (fl & std::ios_base::showpos ? 2 : 0), (int)o->precision(), u); putN(*o, b, n); return o; }
extern "C" std::ostream *ins_flt(std::ostream *o, float v) __asm__("__ov__ZNSolsEf");
extern "C" std::ostream *ins_flt(std::ostream *o, float v) { return ins_dbl(o, (double)v); }
// input: the sentry and the formatted extractions that go through the locale
struct SentryBytes { bool ok; };
extern "C" void sentry_(SentryBytes *t, std::istream *i, bool noskip) __asm__("__ov__ZNSi6sentryC2ERSib");
extern "C" void sentry1_(SentryBytes *t, std::istream *i, bool noskip) __asm__("__ov__ZNSi6sentryC1ERSib");
extern "C" void sentry_(SentryBytes *t, std::istream *i, bool noskip) {
  t->ok = false; bool eof = false;
  if (i->good()) { if (i->tie()) i->tie()->flush();
    if (!noskip && (i->flags() & std::ios_base::skipws)) { int c = i->rdbuf()->sgetc(); while (c != EOF && isspace(c)) c = i->rdbuf()->snextc(); if (c == EOF) eof = true; } }
  if (i->good() && !eof) t->ok = true; else i->setstate(eof ? std::ios_base::failbit | std::ios_base::eofbit : std::ios_base::failbit); }
extern "C" void sentry1_(SentryBytes *t, std::istream *i, bool noskip) { sentry_(t, i, noskip); }
extern "C" std::istream *word_(std::istream *i, std::string *s) __asm__("__ov__ZStrsIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE");
extern "C" std::istream *word_(std::istream *i, std::string *s) {
  SentryBytes t; sentry_(&t, i, false); if (!t.ok) return i; s->clear(); size_t n = 0, max = i->width() > 0 ? (size_t)i->width() : (size_t)-1; auto st = std::ios_base::goodbit; int c = i->rdbuf()->sgetc();
  while (n < max) { if (c == EOF) { st |= std::ios_base::eofbit; break; } if (isspace(c)) break; s->push_back((char)c); n++; c = i->rdbuf()->snextc(); }
  i->width(0); if (!n) st |= std::ios_base::failbit; if (st != std::ios_base::goodbit) i->setstate(st); return i; }
extern "C" std::istream *ws_(std::istream *i) __asm__("__ov__ZSt2wsIcSt11char_traitsIcEERSt13basic_istreamIT_T0_ES6_");
extern "C" std::istream *ws_(std::istream *i) { int c = i->rdbuf()->sgetc(); while (c != EOF && isspace(c)) c = i->rdbuf()->snextc(); if (c == EOF) i->setstate(std::ios_base::eofbit); return i; }
static bool readInt(std::istream *i, long lo, unsigned long hi, unsigned long *out) {     // the value in *out when true is returned or a limit was hit
  SentryBytes t; sentry_(&t, i, false); if (!t.ok) return false; auto st = std::ios_base::goodbit;
  auto f = i->flags() & std::ios_base::basefield; unsigned base = f == std::ios_base::hex ? 16 : f == std::ios_base::oct ? 8 : f == std::ios_base::dec ? 10 : 0; if (!base) sym_unmodelled("input without a base");
  int c = i->rdbuf()->sgetc(); bool neg = false, any = false, over = false; if (c == '-' || c == '+') { neg = c == '-'; c = i->rdbuf()->snextc(); }
  unsigned long lim = neg && lo < 0 ? 0ul - (unsigned long)lo : hi, v = 0;
  for (;;) { if (c == EOF) { st |= std::ios_base::eofbit; break; } unsigned d; if (isdigit(c)) d = c - '0'; else if (base == 16 && isxdigit(c)) d = (unsigned)tolower(c) - 'a' + 10; else break; if (d >= base) break; any = true; if (v > (lim - d) / base) over = true; else v = v * base + d; c = i->rdbuf()->snextc(); }
  if (!any) { *out = 0; st |= std::ios_base::failbit; } else if (over) { *out = neg && lo < 0 ? (unsigned long)lo : lim; st |= std::ios_base::failbit; } else *out = neg ? 0ul - v : v;
  if (st != std::ios_base::goodbit) i->setstate(st); return true; }
#define EXT(T, mangled, LO, HI) extern "C" std::istream *ext_##mangled(std::istream *i, T *v) __asm__("__ov_" #mangled); extern "C" std::istream *ext_##mangled(std::istream *i, T *v) { unsigned long x; if (readInt(i, LO, HI, &x)) *v = (T)x; return i; }
EXT(short, _ZNSirsERs, SHRT_MIN, SHRT_MAX)
EXT(unsigned short, _ZNSirsERt, 0, USHRT_MAX)
EXT(int, _ZNSirsERi, INT_MIN, INT_MAX)
EXT(unsigned, _ZNSirsERj, 0, UINT_MAX)
EXT(long, _ZNSirsERl, LONG_MIN, LONG_MAX)
EXT(unsigned long, _ZNSirsERm, 0, ULONG_MAX)
EXT(long long, _ZNSirsERx, LONG_MIN, LONG_MAX)
EXT(unsigned long long, _ZNSirsERy, 0, ULONG_MAX)
extern "C" std::istream *ext_dbl(std::istream *i, double *v) __asm__("__ov__ZNSirsERd");
extern "C" std::istream *ext_dbl(std::istream *i, double *v) { SentryBytes t; sentry_(&t, i, false); if (!t.ok) return i; std::string s; int c = i->rdbuf()->sgetc(); bool dot = false; auto st = std::ios_base::goodbit;
  for (;; c = i->rdbuf()->snextc()) { if (c == EOF) { st |= std::ios_base::eofbit; break; } if (isdigit(c) || (s.empty() && (c == '-' || c == '+')) || (c == '.' && !dot)) { dot |= c == '.'; s.push_back((char)c); } else break; }
  char *e; *v = strtod(s.c_str(), &e); if (e == s.c_str() || *e) { *v = 0; st |= std::ios_base::failbit; } if (st != std::ios_base::goodbit) i->setstate(st); return i; }
// standard output and error: ordinary string buffers
extern "C" { 
alignas(16) char coutMem[sizeof(std::ostream)] __asm__("_ZSt4cout");
alignas(16) char cerrMem[sizeof(std::ostream)] __asm__("_ZSt4cerr");
alignas(16) char clogMem[sizeof(std::ostream)] __asm__("_ZSt4clog");
alignas(16) char cinMem[sizeof(std::istream)] __asm__("_ZSt3cin");
}
static std::stringbuf *coutBuf, *cerrBuf;
static struct StdStreams { StdStreams() { coutBuf = new std::stringbuf(); cerrBuf = new std::stringbuf(); new (coutMem) std::ostream(coutBuf); new (cerrMem) std::ostream(cerrBuf); new (clogMem) std::ostream(cerrBuf); new (cinMem) std::istream(new std::stringbuf()); } } theStdStreams __attribute__((init_priority(101)));
std::string sym_stdout() { return coutBuf->str(); }
std::string sym_stderr() { return cerrBuf->str(); }
template class std::basic_streambuf<char>;
template class std::basic_ios<char>;
template class std::basic_ostream<char>;
template class std::basic_stringbuf<char>;
template class std::basic_ostringstream<char>;
template class std::basic_istream<char>;
template class std::basic_iostream<char>;
template class std::basic_istringstream<char>;
template class std::basic_stringstream<char>;
namespace std {
template <> istream &getline(istream &in, string &s, char d) {
  SentryBytes t; sentry_(&t, &in, true); if (!t.ok) return in; s.clear(); auto st = ios_base::goodbit; size_t n = 0; int c = in.rdbuf()->sgetc();
  for (;;) { if (c == EOF) { st |= ios_base::eofbit; break; } n++; if ((char)c == d) { in.rdbuf()->sbumpc(); break; } s.push_back((char)c); c = in.rdbuf()->snextc(); }
  if (!n) st |= ios_base::failbit; if (st != ios_base::goodbit) in.setstate(st); return in; }
template <> istream &istream::ignore(streamsize n, int d) {
  SentryBytes t; _M_gcount = 0; sentry_(&t, this, true); if (!t.ok) return *this; while (_M_gcount < n) { int c = rdbuf()->sbumpc(); if (c == EOF) { setstate(ios_base::eofbit); break; } _M_gcount++; if (c == d) break; } return *this; }
template <> istream &istream::ignore(streamsize n) { return ignore(n, EOF); }
template <> istream &istream::getline(char *s, streamsize n, char d) {
  SentryBytes t; _M_gcount = 0; sentry_(&t, this, true); auto st = ios_base::goodbit; if (t.ok) { int c = rdbuf()->sgetc(); while (_M_gcount + 1 < n && c != EOF && (char)c != d) { *s++ = (char)c; _M_gcount++; c = rdbuf()->snextc(); }
    if (c == EOF) st |= ios_base::eofbit; else if ((char)c == d) { _M_gcount++; rdbuf()->sbumpc(); } else st |= ios_base::failbit; }
  if (n > 0) *s = 0; if (!_M_gcount) st |= ios_base::failbit; if (st != ios_base::goodbit) setstate(st); return *this; }
}
