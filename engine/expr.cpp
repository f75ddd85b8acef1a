#include "expr.hpp"
#include "sat.hpp"
#include <z3.h>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <set>
#include <map>

// ---------------------------------------------------------------- allocation
static std::vector<VarInfo> gVars;
static std::unordered_map<std::string, uint32_t> gVarIdx;
static uint32_t gNextId = 1;
static std::set<VarSet> gVarSets;
static const VarSet gEmpty;

static const VarSet *internVS(VarSet &&v) { return &*gVarSets.insert(std::move(v)).first; }
static std::map<std::pair<const VarSet *, const VarSet *>, const VarSet *> gUnionCache;
static const VarSet *unionVS(const VarSet *a, const VarSet *b) {
  if (a == b || b->empty()) return a;
  if (a->empty()) return b;
  if (a > b) std::swap(a, b);
  auto it = gUnionCache.find({a, b});
  if (it != gUnionCache.end()) return it->second;
  VarSet r; r.reserve(a->size() + b->size());
  std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
  return gUnionCache[{a, b}] = internVS(std::move(r));
}

struct Key { K k; uint16_t w; uint64_t v; E *a, *b, *c; bool operator==(const Key &o) const { return k == o.k && w == o.w && v == o.v && a == o.a && b == o.b && c == o.c; } };
struct KeyH { size_t operator()(const Key &k) const {
  uint64_t h = (uint64_t)k.k * 0x9E3779B97F4A7C15ull + k.w;
  auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
  mix(k.v); mix((uint64_t)k.a); mix((uint64_t)k.b); mix((uint64_t)k.c); return h; } };
static std::unordered_map<Key, E *, KeyH> gTab;

static void bounds(E *e) {
  uint64_t m = maskw(e->w); uint64_t lo = 0, hi = m; E *a = e->a, *b = e->b;
  switch (e->k) {
  case K::Const: lo = hi = e->v; break;
  case K::ZExt: lo = a->lo; hi = a->hi; break;
  case K::SExt: if (a->hi <= (maskw(a->w) >> 1)) { lo = a->lo; hi = a->hi; } break;
  case K::Ite: lo = std::min(e->b->lo, e->c->lo); hi = std::max(e->b->hi, e->c->hi); break;
  case K::And: hi = std::min(a->hi, b->hi); break;
  case K::Or: lo = std::max(a->lo, b->lo); { uint64_t x = a->hi | b->hi; while (x & (x + 1)) x |= x >> 1; hi = x; } break;
  case K::Xor: { uint64_t x = a->hi | b->hi; while (x & (x + 1)) x |= x >> 1; hi = x; } break;
  case K::URem: if (b->lo > 0) hi = std::min(a->hi, b->hi - 1); else hi = a->hi; break;
  case K::UDiv: if (b->lo > 0) { hi = a->hi / b->lo; lo = a->lo / b->hi; } break;
  case K::LShr: if (b->k == K::Const && b->v < 64) { hi = a->hi >> b->v; lo = a->lo >> b->v; } break;
  case K::Add: { uint64_t s; if (!__builtin_add_overflow(a->hi, b->hi, &s) && s <= m) { lo = a->lo + b->lo; hi = s; } break; }
  case K::Sub: if (a->lo >= b->hi) { lo = a->lo - b->hi; hi = a->hi - b->lo; } break;
  case K::Mul: { uint64_t s; if (!__builtin_mul_overflow(a->hi, b->hi, &s) && s <= m) { lo = a->lo * b->lo; hi = s; } break; }
  case K::Extract: if (a->hi >> e->v <= m) { hi = a->hi >> e->v; lo = a->lo >> e->v; if (a->w > 64) { lo = 0; hi = m; } } break;
  case K::Concat: if (e->w <= 64 && b->w < 64) { lo = (a->lo << b->w) | b->lo; hi = (a->hi << b->w) | b->hi; } break;
  default: break;
  }
  if (e->w > 64) { lo = 0; hi = ~0ull; if (e->k == K::ZExt && a->w <= 64) { lo = a->lo; hi = a->hi; } }
  e->lo = lo; e->hi = hi;
}
static E *mk(K k, unsigned w, uint64_t v, E *a, E *b, E *c) {
  Key key{k, (uint16_t)w, v, a, b, c};
  auto it = gTab.find(key);
  if (it != gTab.end()) return it->second;
  E *e = new E{k, (uint16_t)w, gNextId++, v, a, b, c, &gEmpty, 0, ~0ull, 0, 0, nullptr};
  bounds(e);
  if (k == K::Var) e->vars = internVS(VarSet{(uint32_t)v});
  else {
    if (a) e->vars = a->vars;
    if (b) e->vars = unionVS(e->vars, b->vars);
    if (c) e->vars = unionVS(e->vars, c->vars);
  }
  gTab.emplace(key, e);
  return e;
}

E *mkConst(uint64_t v, unsigned w) { return mk(K::Const, w, v & maskw(w), nullptr, nullptr, nullptr); }
E *mkVar(const std::string &name, unsigned w) {
  auto it = gVarIdx.find(name);
  uint32_t i;
  if (it == gVarIdx.end()) { i = gVars.size(); gVars.push_back({name, w}); gVarIdx[name] = i; }
  else { i = it->second; if (gVars[i].w != w) { fprintf(stderr, "variable %s redeclared with another width\n", name.c_str()); exit(3); } }
  return mk(K::Var, w, i, nullptr, nullptr, nullptr);
}
const VarInfo &varInfo(uint32_t i) { return gVars[i]; }

// ---------------------------------------------------------------- folding
uint64_t evalBin(K k, uint64_t a, uint64_t b, unsigned w) {
  uint64_t m = maskw(w);
  switch (k) {
  case K::Add: return (a + b) & m;
  case K::Sub: return (a - b) & m;
  case K::Mul: return (a * b) & m;
  case K::UDiv: return b ? (a / b) & m : m;
  case K::URem: return b ? (a % b) & m : a;
  case K::SDiv: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return (x < 0 ? 1 : m) & m; if (y == -1) return (0 - a) & m; return (uint64_t)(x / y) & m; }
  case K::SRem: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
  case K::And: return a & b;
  case K::Or: return a | b;
  case K::Xor: return a ^ b;
  case K::Shl: return b >= w ? 0 : (a << b) & m;
  case K::LShr: return b >= w ? 0 : (a >> b);
  case K::AShr: { int64_t x = sx(a, w); return (uint64_t)(x >> (b >= w ? (w > 63 ? 63 : w - 1) : b)) & m; }
  case K::Eq: return a == b;
  case K::Ult: return a < b;
  case K::Ule: return a <= b;
  case K::Slt: return sx(a, w) < sx(b, w);
  case K::Sle: return sx(a, w) <= sx(b, w);
  default: abort();
  }
}
static inline bool isC(E *e) { return e->k == K::Const; }
static inline bool isCmp(K k) { return k >= K::Eq && k <= K::Sle; }

E *mkNot(E *a) { return mkBin(K::Xor, a, mkConst(1, 1)); }

static inline uint64_t ub(E *e) { return e->hi; }

// a - b with the terms they share removed, or null
static bool terms(E *e, bool neg, std::vector<std::pair<E *, int>> &v, uint64_t &c) {
  if (isC(e)) { c += neg ? 0 - e->v : e->v; return true; }
  if (e->k == K::Add || e->k == K::Sub) return terms(e->a, neg, v, c) && terms(e->b, e->k == K::Sub ? !neg : neg, v, c);
  if (v.size() > 24) return false;
  for (auto &p : v) if (p.first == e) { p.second += neg ? -1 : 1; return true; }
  v.push_back({e, neg ? -1 : 1}); return true;
}
static size_t termCount(E *e) { return isC(e) ? 0 : e->k == K::Add || e->k == K::Sub ? termCount(e->a) + termCount(e->b) : 1; }
static E *cancel(E *a, E *b) {
  size_t na = termCount(a), nb = termCount(b); if (na + nb < 2 || na + nb > 24) return nullptr;
  std::vector<std::pair<E *, int>> v; uint64_t c = 0; if (!terms(a, false, v, c) || !terms(b, true, v, c)) return nullptr;
  size_t n = 0; for (auto &p : v) n += std::abs(p.second); if (n >= na + nb) return nullptr;
  E *r = nullptr; for (auto &p : v) for (int i = 0; i < p.second; i++) r = r ? mkBin(K::Add, r, p.first) : p.first;
  if (!r) r = mkConst(c, a->w), c = 0; else r = mkBin(K::Add, r, mkConst(c, a->w)), c = 0;
  for (auto &p : v) for (int i = 0; i < -p.second; i++) r = mk(K::Sub, a->w, 0, r, p.first, nullptr);
  return r;
}
E *mkBin(K k, E *a, E *b) {
  unsigned w = a->w, rw = isCmp(k) ? 1 : w;
  if (a->w != b->w) { fprintf(stderr, "mkBin width mismatch k=%d %d %d\n", (int)k, a->w, b->w); abort(); }
  if (isC(a) && isC(b)) return mkConst(evalBin(k, a->v, b->v, w), rw);
  bool comm = k == K::Add || k == K::Mul || k == K::And || k == K::Or || k == K::Xor || k == K::Eq;
  if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);   // constant on the right
  uint64_t m = maskw(w);
  if (w <= 64) {
    if (k == K::Ult) { if (a->hi < b->lo) return mkConst(1, 1); if (a->lo >= b->hi) return mkConst(0, 1); }
    if (k == K::Ule) { if (a->hi <= b->lo) return mkConst(1, 1); if (a->lo > b->hi) return mkConst(0, 1); }
    if (k == K::Eq && (a->hi < b->lo || b->hi < a->lo)) return mkConst(0, 1);
    // quotients by constants: compared by multiplying out, nested ones merged
    auto divC = [&](E *x) { return x->k == K::UDiv && isC(x->b) && x->b->v; }; uint64_t p;
    if (k == K::Eq && isC(b) && divC(a) && b->v == 0) return mkBin(K::Ult, a->a, a->b);
    if (k == K::Ult && isC(b) && divC(a) && !__builtin_mul_overflow(b->v, a->b->v, &p) && p <= m) return mkBin(K::Ult, a->a, mkConst(p, w));
    if (k == K::Ult && isC(a) && divC(b) && a->v < m && !__builtin_mul_overflow(a->v + 1, b->b->v, &p) && p <= m) return mkBin(K::Ule, mkConst(p, w), b->a);
    if (k == K::Ule && isC(b) && divC(a) && b->v < m && !__builtin_mul_overflow(b->v + 1, a->b->v, &p) && p <= m) return mkBin(K::Ult, a->a, mkConst(p, w));
    if (k == K::Ule && isC(a) && divC(b) && !__builtin_mul_overflow(a->v, b->b->v, &p) && p <= m) return mkBin(K::Ule, mkConst(p, w), b->a);
    if (k == K::UDiv && isC(b) && divC(a) && !__builtin_mul_overflow(b->v, a->b->v, &p) && p <= m) return mkBin(K::UDiv, a->a, mkConst(p, w));
    if ((k == K::Slt || k == K::Sle) && a->k == K::SExt && isC(b) && ((uint64_t)sx(b->v & maskw(a->a->w), a->a->w) & m) == b->v) return mkBin(k, a->a, mkConst(b->v, a->a->w));
    if ((k == K::Slt || k == K::Sle) && b->k == K::SExt && isC(a) && ((uint64_t)sx(a->v & maskw(b->a->w), b->a->w) & m) == a->v) return mkBin(k, mkConst(a->v, b->a->w), b->a);
  }
  if ((k == K::UDiv || k == K::URem) && w <= 64 && isC(b) && b->v) { uint64_t top = std::max(a->hi, b->v); unsigned n = 64 - __builtin_clzll(top); if (n < w) return mkZExt(mkBin(k, mkExtract(a, 0, n), mkConst(b->v, n)), w); }
  if (k == K::Sub && !isC(b)) { E *r = cancel(a, b); if (r) return r; }
  switch (k) {
  case K::Add:
    if (isC(b)) {
      if (b->v == 0) return a;
      if (a->k == K::Add && isC(a->b)) return mkBin(K::Add, a->a, mkConst(a->b->v + b->v, w));
      if (a->k == K::Ite && isC(a->b) && isC(a->c)) return mkIte(a->a, mkConst(a->b->v + b->v, w), mkConst(a->c->v + b->v, w));
    }
    if (a->k == K::Add && isC(a->b)) return mkBin(K::Add, mkBin(K::Add, a->a, b), a->b);
    if (b->k == K::Add && isC(b->b)) return mkBin(K::Add, mkBin(K::Add, a, b->a), b->b);
    break;
  case K::Sub:
    if (a == b) return mkConst(0, w);
    if (isC(b)) return mkBin(K::Add, a, mkConst(0 - b->v, w));
    if (a->k == K::Add && isC(a->b)) return mkBin(K::Add, mkBin(K::Sub, a->a, b), a->b);
    if (b->k == K::Add && isC(b->b)) return mkBin(K::Add, mkBin(K::Sub, a, b->a), mkConst(0 - b->b->v, w));
    if (a->k == K::Add && a->a == b) return a->b;
    if (a->k == K::Add && a->b == b) return a->a;
    break;
  case K::Mul:
    if (isC(b)) { if (b->v == 0) return b; if (b->v == 1) return a;
      if ((b->v & (b->v - 1)) == 0) return mkBin(K::Shl, a, mkConst(__builtin_ctzll(b->v), w)); }
    break;
  case K::UDiv: if (isC(b)) { if (b->v == 1) return a; if (b->v && (b->v & (b->v - 1)) == 0) return mkBin(K::LShr, a, mkConst(__builtin_ctzll(b->v), w));
      if (a->k == K::ZExt && b->v && b->v <= maskw(a->a->w)) return mkZExt(mkBin(K::UDiv, a->a, mkConst(b->v, a->a->w)), w); } break;
  case K::URem: if (isC(b) && b->v && (b->v & (b->v - 1)) == 0) return mkBin(K::And, a, mkConst(b->v - 1, w));
    if (isC(b) && b->v && ub(a) < b->v) return a;
    if (isC(b) && a->k == K::ZExt && b->v && b->v <= maskw(a->a->w)) return mkZExt(mkBin(K::URem, a->a, mkConst(b->v, a->a->w)), w);
    break;
  case K::SDiv: if (isC(b) && b->v == 1) return a; break;
  case K::And:
    if (a == b) return a;
    if (isC(b)) {
      if (b->v == 0) return b; if (b->v == m) return a;
      if (a->k == K::And && isC(a->b)) return mkBin(K::And, a->a, mkConst(a->b->v & b->v, w));
      if (a->k == K::ZExt && (b->v & maskw(a->a->w)) == maskw(a->a->w)) return a;
      if (a->k == K::ZExt) return mkZExt(mkBin(K::And, a->a, mkConst(b->v, a->a->w)), w);
      if ((b->v & (b->v + 1)) == 0 && b->v) { unsigned n = __builtin_popcountll(b->v); if (ub(a) <= b->v) return a; return mkZExt(mkExtract(a, 0, n), w); }
      if (a->k == K::Ite && isC(a->b) && isC(a->c)) return mkIte(a->a, mkConst(a->b->v & b->v, w), mkConst(a->c->v & b->v, w));
      // contiguous run of ones: zero-extended extract, shifted
      { uint64_t t = b->v >> __builtin_ctzll(b->v); if ((t & (t + 1)) == 0 && a->k == K::Or) return mkBin(K::Or, mkBin(K::And, a->a, b), mkBin(K::And, a->b, b)); }
    }
    if (w == 1 && b->k == K::Xor && b->a == a && isC(b->b)) return mkConst(0, 1);
    if (w == 1 && a->k == K::Xor && a->a == b && isC(a->b)) return mkConst(0, 1);
    break;
  case K::Or:
    if (a == b) return a;
    if (isC(b)) { if (b->v == 0) return a; if (b->v == m) return b;
      if (a->k == K::Or && isC(a->b)) return mkBin(K::Or, a->a, mkConst(a->b->v | b->v, w));
      if (a->k == K::Ite && isC(a->b) && isC(a->c)) return mkIte(a->a, mkConst(a->b->v | b->v, w), mkConst(a->c->v | b->v, w)); }
    // zext(lo) | (zext(hi) << |lo|)  ->  concat
    { E *x = a, *y = b; for (int i = 0; i < 2; i++, std::swap(x, y))
        if (x->k == K::ZExt && y->k == K::Shl && isC(y->b) && y->b->v == x->a->w && y->b->v < w) {
          E *hi = mkExtract(y->a, 0, w - y->b->v); return mkConcat(hi, x->a); } }
    if (w == 1 && b->k == K::Xor && b->a == a && isC(b->b)) return mkConst(1, 1);
    if (w == 1 && a->k == K::Xor && a->a == b && isC(a->b)) return mkConst(1, 1);
    break;
  case K::Xor:
    if (a == b) return mkConst(0, w);
    if (isC(b)) { if (b->v == 0) return a;
      if (a->k == K::Xor && isC(a->b)) return mkBin(K::Xor, a->a, mkConst(a->b->v ^ b->v, w));
      if (a->k == K::Ite && isC(a->b) && isC(a->c)) return mkIte(a->a, mkConst(a->b->v ^ b->v, w), mkConst(a->c->v ^ b->v, w));
      if (w == 1) {
        if (a->k == K::Ult) return mkBin(K::Ule, a->b, a->a);
        if (a->k == K::Ule) return mkBin(K::Ult, a->b, a->a);
        if (a->k == K::Slt) return mkBin(K::Sle, a->b, a->a);
        if (a->k == K::Sle) return mkBin(K::Slt, a->b, a->a);
      } }
    break;
  case K::Shl:
    if (isC(b)) { if (b->v == 0) return a; if (b->v >= w) return mkConst(0, w);
      if (a->k == K::Ite && isC(a->b) && isC(a->c)) return mkIte(a->a, mkConst(evalBin(k, a->b->v, b->v, w), w), mkConst(evalBin(k, a->c->v, b->v, w), w));
      if (a->k == K::Shl && isC(a->b) && a->b->v < w && b->v < w) return mkBin(K::Shl, a->a, mkConst(std::min<uint64_t>(a->b->v + b->v, w), w)); }
    break;
  case K::LShr:
    if (isC(b)) { if (b->v == 0) return a; if (b->v >= w) return mkConst(0, w);
      if (a->k == K::Ite && isC(a->b) && isC(a->c)) return mkIte(a->a, mkConst(evalBin(k, a->b->v, b->v, w), w), mkConst(evalBin(k, a->c->v, b->v, w), w));
      return mkZExt(mkExtract(a, b->v, w - b->v), w); }
    break;
  case K::AShr: if (isC(b)) { if (b->v == 0) return a; if (b->v < w) return mkSExt(mkExtract(a, b->v, w - b->v), w); } break;
  case K::Eq:
    if (a == b) return mkConst(1, 1);
    if (isC(b)) {
      if (w == 1) return b->v ? a : mkNot(a);
      if (a->k == K::ZExt) { if (b->v > maskw(a->a->w)) return mkConst(0, 1); return mkBin(K::Eq, a->a, mkConst(b->v, a->a->w)); }
      if (a->k == K::SExt) { uint64_t lo = b->v & maskw(a->a->w); if (((uint64_t)sx(lo, a->a->w) & m) != b->v) return mkConst(0, 1); return mkBin(K::Eq, a->a, mkConst(lo, a->a->w)); }
      if (a->k == K::Add && isC(a->b)) return mkBin(K::Eq, a->a, mkConst(b->v - a->b->v, w));
      if (a->k == K::Xor && isC(a->b)) return mkBin(K::Eq, a->a, mkConst(b->v ^ a->b->v, w));
      if (a->k == K::Ite && isC(a->b)) { if (a->b->v == b->v) return mkBin(K::Or, a->a, mkBin(K::Eq, a->c, b)); return mkBin(K::And, mkNot(a->a), mkBin(K::Eq, a->c, b)); }
      if (a->k == K::Ite && isC(a->c)) { if (a->c->v == b->v) return mkBin(K::Or, mkNot(a->a), mkBin(K::Eq, a->b, b)); return mkBin(K::And, a->a, mkBin(K::Eq, a->b, b)); }
      if (a->k == K::Shl && isC(a->b) && a->b->v < w) { unsigned s = a->b->v; if (b->v & maskw(s)) return mkConst(0, 1); return mkBin(K::Eq, mkExtract(a->a, 0, w - s), mkConst(b->v >> s, w - s)); }
      if (a->k == K::Concat) return mkBin(K::And, mkBin(K::Eq, a->a, mkConst(b->v >> a->b->w, a->a->w)), mkBin(K::Eq, a->b, mkConst(b->v, a->b->w)));
      if (b->v > ub(a)) return mkConst(0, 1);
    }
    if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w) return mkBin(K::Eq, a->a, b->a);
    break;
  case K::Ult:
    if (a == b) return mkConst(0, 1);
    if (isC(b)) { if (b->v == 0) return mkConst(0, 1); if (b->v == 1) return mkBin(K::Eq, a, mkConst(0, w)); if (ub(a) < b->v) return mkConst(1, 1); }
    if (isC(a) && a->v == m) return mkConst(0, 1);
    if (isC(a) && ub(b) <= a->v) return mkConst(0, 1);
    if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w) return mkBin(K::Ult, a->a, b->a);
    if (a->k == K::ZExt && isC(b) && b->v <= maskw(a->a->w)) return mkBin(K::Ult, a->a, mkConst(b->v, a->a->w));
    if (b->k == K::ZExt && isC(a) && a->v <= maskw(b->a->w)) return mkBin(K::Ult, mkConst(a->v, b->a->w), b->a);
    break;
  case K::Ule:
    if (a == b) return mkConst(1, 1);
    if (isC(b) && ub(a) <= b->v) return mkConst(1, 1);
    if (isC(b) && b->v == 0) return mkBin(K::Eq, a, b);
    if (isC(a) && a->v == 0) return mkConst(1, 1);
    if (isC(a) && ub(b) < a->v) return mkConst(0, 1);
    if (a->k == K::ZExt && b->k == K::ZExt && a->a->w == b->a->w) return mkBin(K::Ule, a->a, b->a);
    if (a->k == K::ZExt && isC(b) && b->v <= maskw(a->a->w)) return mkBin(K::Ule, a->a, mkConst(b->v, a->a->w));
    if (b->k == K::ZExt && isC(a) && a->v <= maskw(b->a->w)) return mkBin(K::Ule, mkConst(a->v, b->a->w), b->a);
    break;
  case K::Slt: if (a == b) return mkConst(0, 1);
    if (ub(a) <= (m >> 1) && ub(b) <= (m >> 1)) return mkBin(K::Ult, a, b);
    if (ub(a) <= (m >> 1) && isC(b) && (b->v >> (w - 1))) return mkConst(0, 1);
    if (ub(b) <= (m >> 1) && isC(a) && (a->v >> (w - 1))) return mkConst(1, 1);
    if (a->k == K::SExt && b->k == K::SExt && a->a->w == b->a->w) return mkBin(K::Slt, a->a, b->a);
    break;
  case K::Sle: if (a == b) return mkConst(1, 1);
    if (ub(a) <= (m >> 1) && ub(b) <= (m >> 1)) return mkBin(K::Ule, a, b);
    if (ub(a) <= (m >> 1) && isC(b) && (b->v >> (w - 1))) return mkConst(0, 1);
    if (ub(b) <= (m >> 1) && isC(a) && (a->v >> (w - 1))) return mkConst(1, 1);
    if (a->k == K::SExt && b->k == K::SExt && a->a->w == b->a->w) return mkBin(K::Sle, a->a, b->a);
    break;
  default: break;
  }
  return mk(k, rw, 0, a, b, nullptr);
}

E *mkIte(E *c, E *a, E *b) {
  if (isC(c)) return c->v ? a : b;
  if (a == b) return a;
  if (c->k == K::Xor && isC(c->b)) return mkIte(c->a, b, a);     // ite(!c,..)
  if (a->w == 1) {
    if (isC(a) && isC(b)) return a->v ? c : mkNot(c);
    if (isC(a)) return a->v ? mkBin(K::Or, c, b) : mkBin(K::And, mkNot(c), b);
    if (isC(b)) return b->v ? mkBin(K::Or, mkNot(c), a) : mkBin(K::And, c, a);
  }
  if (a->k == K::Ite && a->a == c) a = a->b;
  if (b->k == K::Ite && b->a == c) b = b->c;
  if (a == b) return a;
  return mk(K::Ite, a->w, 0, c, a, b);
}
E *mkZExt(E *a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst(a->v, w);
  if (a->k == K::ZExt) return mkZExt(a->a, w);
  if (a->k == K::Ite && isC(a->b) && isC(a->c)) return mkIte(a->a, mkZExt(a->b, w), mkZExt(a->c, w));
  return mk(K::ZExt, w, 0, a, nullptr, nullptr);
}
E *mkSExt(E *a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst((uint64_t)sx(a->v, a->w), w);
  if (a->k == K::ZExt && a->a->w < a->w) return mkZExt(a->a, w);
  if (a->w <= 64 && a->hi <= (maskw(a->w) >> 1)) return mkZExt(a, w);
  if (a->k == K::SExt) return mkSExt(a->a, w);
  if (a->k == K::Ite && isC(a->b) && isC(a->c)) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
  return mk(K::SExt, w, 0, a, nullptr, nullptr);
}
E *mkExtract(E *a, unsigned lo, unsigned w) {
  if (lo == 0 && a->w == w) return a;
  if (isC(a)) return mkConst(a->v >> lo, w);
  switch (a->k) {
  case K::Extract: return mkExtract(a->a, a->v + lo, w);
  case K::ZExt: if (lo >= a->a->w) return mkConst(0, w); if (lo + w <= a->a->w) return mkExtract(a->a, lo, w); return mkZExt(mkExtract(a->a, lo, a->a->w - lo), w);
  case K::SExt: if (lo + w <= a->a->w) return mkExtract(a->a, lo, w); if (lo == 0) return mkSExt(a->a, w); break;
  case K::Concat: if (lo >= a->b->w) return mkExtract(a->a, lo - a->b->w, w); if (lo + w <= a->b->w) return mkExtract(a->b, lo, w);
    return mkConcat(mkExtract(a->a, 0, lo + w - a->b->w), mkExtract(a->b, lo, a->b->w - lo));
  case K::Ite: if (isC(a->b) || isC(a->c)) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w)); break;
  case K::And: case K::Or: case K::Xor: if (isC(a->b)) return mkBin(a->k, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
    if (a->a->k == K::ZExt || a->b->k == K::ZExt || a->a->k == K::Shl || a->b->k == K::Shl || a->a->k == K::And || a->b->k == K::And) return mkBin(a->k, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
    break;
  case K::Shl: if (isC(a->b)) { unsigned s = a->b->v; if (lo >= s) return mkExtract(a->a, lo - s, w); if (lo + w <= s) return mkConst(0, w); } break;
  case K::Add: case K::Sub: case K::Mul: if (lo == 0) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
  default: break;
  }
  return mk(K::Extract, w, lo, a, nullptr, nullptr);
}
E *mkConcat(E *hi, E *lo) {
  unsigned w = hi->w + lo->w;
  if (w > 64) { fprintf(stderr, "concat wider than 64\n"); abort(); }
  if (isC(hi) && isC(lo)) return mkConst((hi->v << lo->w) | lo->v, w);
  if (isC(hi) && hi->v == 0) return mkZExt(lo, w);
  if (hi->k == K::Extract && lo->k == K::Extract && hi->a == lo->a && hi->v == lo->v + lo->w) return mkExtract(hi->a, lo->v, w);
  if (hi->k == K::Extract && hi->a == lo && hi->v == lo->w) return mkExtract(hi->a, 0, w);
  if (hi->k == K::Extract && hi->v == lo->w && mkExtract(hi->a, 0, lo->w) == lo) return mkExtract(hi->a, 0, w);
  if (lo->k == K::Concat && hi->k == K::Extract && lo->a->k == K::Extract && lo->a->a == hi->a && hi->v == lo->a->v + lo->a->w) return mkConcat(mkExtract(hi->a, lo->a->v, hi->w + lo->a->w), lo->b);
  if (hi->k == K::ZExt && hi->a->w < hi->w && lo->k != K::Const) return mkZExt(mkConcat(hi->a, lo), w);
  if (hi->k == K::Ite && lo->k == K::Ite && hi->a == lo->a) return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
  if (hi->k == K::Ite && isC(lo) && isC(hi->b) && isC(hi->c)) return mkIte(hi->a, mkConcat(hi->b, lo), mkConcat(hi->c, lo));
  if (lo->k == K::Ite && isC(hi) && isC(lo->b) && isC(lo->c)) return mkIte(lo->a, mkConcat(hi, lo->b), mkConcat(hi, lo->c));
  return mk(K::Concat, w, 0, hi, lo, nullptr);
}

// ---------------------------------------------------------------- evaluation
static uint32_t gStamp = 1;
void evalNewStamp() { gStamp++; }
static uint64_t ev(E *e, const Model &m) {
  if (e->k == K::Const) return e->v;
  if (e->stamp == gStamp) return e->ev;
  uint64_t r;
  switch (e->k) {
  case K::Var: r = e->v < m.size() ? m[e->v] & maskw(e->w) : 0; break;
  case K::Ite: r = ev(e->a, m) ? ev(e->b, m) : ev(e->c, m); break;
  case K::ZExt: r = ev(e->a, m); break;
  case K::SExt: r = (uint64_t)sx(ev(e->a, m), e->a->w) & maskw(e->w); break;
  case K::Extract: r = (ev(e->a, m) >> e->v) & maskw(e->w); break;
  case K::Concat: r = (ev(e->a, m) << e->b->w) | ev(e->b, m); break;
  case K::And: r = ev(e->a, m); if (r) r &= ev(e->b, m); break;
  default: r = evalBin(e->k, ev(e->a, m), ev(e->b, m), e->a->w);
  }
  e->stamp = gStamp; e->ev = r; return r;
}
uint64_t evalE(E *e, const Model &m) { gStamp++; return ev(e, m); }

std::string showE(E *e, int d) {
  static const char *nm[] = {"", "", "+", "-", "*", "u/", "s/", "u%", "s%", "&", "|", "^", "<<", ">>", "s>>", "==", "u<", "u<=", "s<", "s<=", "ite", "zext", "sext", "extract", "concat"};
  if (e->k == K::Const) return std::to_string(sx(e->v, e->w)) + ":" + std::to_string(e->w);
  if (e->k == K::Var) return gVars[e->v].name;
  if (!d) return "...";
  std::string s = "(" + std::string(nm[(int)e->k]);
  if (e->k == K::Extract) s += "@" + std::to_string(e->v) + "." + std::to_string(e->w);
  for (E *x : {e->a, e->b, e->c}) if (x) s += " " + showE(x, d - 1);
  return s + ")";
}

// ---------------------------------------------------------------- Z3
SolverStats gSolver;
static Z3_context C;
static Z3_solver S;
static void z3err(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); exit(3); }
static void initZ3() {
  if (C) return;
  Z3_config cfg = Z3_mk_config();
  C = Z3_mk_context(cfg);
  Z3_set_error_handler(C, z3err);
  const char *mode = getenv("SYMEX_SOLVER"); std::string md = mode ? mode : "qfbv";
  if (md == "qfbv") S = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV"));
  else if (md == "tac") { Z3_tactic t = Z3_mk_tactic(C, "simplify"); Z3_tactic_inc_ref(C, t); for (const char *n : {"propagate-values", "solve-eqs", "simplify", "bit-blast", "simplify", "sat"}) { Z3_tactic u = Z3_mk_tactic(C, n); Z3_tactic_inc_ref(C, u); t = Z3_tactic_and_then(C, t, u); Z3_tactic_inc_ref(C, t); } S = Z3_mk_solver_from_tactic(C, t); }
  else S = Z3_mk_simple_solver(C);
  Z3_solver_inc_ref(C, S);
  Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), 60000);
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "random_seed"), 1);
  Z3_solver_set_params(C, S, p);
}
static Z3_ast b2bv(Z3_ast b) { return Z3_mk_ite(C, b, Z3_mk_unsigned_int64(C, 1, Z3_mk_bv_sort(C, 1)), Z3_mk_unsigned_int64(C, 0, Z3_mk_bv_sort(C, 1))); }
static Z3_ast tr(E *e);
// translate a width-1 expression as a Z3 Bool
static std::unordered_map<E *, Z3_ast> gBool;
static Z3_ast trb(E *e) {
  if (e->k == K::Const) return e->v ? Z3_mk_true(C) : Z3_mk_false(C);
  auto it = gBool.find(e);
  if (it != gBool.end()) return it->second;
  Z3_ast r;
  switch (e->k) {
  case K::Eq: r = e->a->w == 1 ? Z3_mk_iff(C, trb(e->a), trb(e->b)) : Z3_mk_eq(C, tr(e->a), tr(e->b)); break;
  case K::Ult: r = Z3_mk_bvult(C, tr(e->a), tr(e->b)); break;
  case K::Ule: r = Z3_mk_bvule(C, tr(e->a), tr(e->b)); break;
  case K::Slt: r = Z3_mk_bvslt(C, tr(e->a), tr(e->b)); break;
  case K::Sle: r = Z3_mk_bvsle(C, tr(e->a), tr(e->b)); break;
  case K::And: { Z3_ast x[2] = {trb(e->a), trb(e->b)}; r = Z3_mk_and(C, 2, x); break; }
  case K::Or: { Z3_ast x[2] = {trb(e->a), trb(e->b)}; r = Z3_mk_or(C, 2, x); break; }
  case K::Xor: if (isC(e->b) && e->b->v) r = Z3_mk_not(C, trb(e->a)); else r = Z3_mk_xor(C, trb(e->a), trb(e->b)); break;
  case K::Ite: r = Z3_mk_ite(C, trb(e->a), trb(e->b), trb(e->c)); break;
  default: r = Z3_mk_eq(C, tr(e), Z3_mk_unsigned_int64(C, 1, Z3_mk_bv_sort(C, 1)));
  }
  Z3_inc_ref(C, r);
  return gBool[e] = r;
}
static Z3_ast tr(E *e) {
  if (e->z3) return (Z3_ast)e->z3;
  Z3_ast r;
  switch (e->k) {
  case K::Const: r = Z3_mk_unsigned_int64(C, e->v, Z3_mk_bv_sort(C, e->w)); break;
  case K::Var: r = Z3_mk_const(C, Z3_mk_int_symbol(C, (int)e->v), Z3_mk_bv_sort(C, e->w)); break;
  case K::Add: r = Z3_mk_bvadd(C, tr(e->a), tr(e->b)); break;
  case K::Sub: r = Z3_mk_bvsub(C, tr(e->a), tr(e->b)); break;
  case K::Mul: r = Z3_mk_bvmul(C, tr(e->a), tr(e->b)); break;
  case K::UDiv: r = Z3_mk_bvudiv(C, tr(e->a), tr(e->b)); break;
  case K::SDiv: r = Z3_mk_bvsdiv(C, tr(e->a), tr(e->b)); break;
  case K::URem: r = Z3_mk_bvurem(C, tr(e->a), tr(e->b)); break;
  case K::SRem: r = Z3_mk_bvsrem(C, tr(e->a), tr(e->b)); break;
  case K::And: case K::Or: case K::Xor:
    if (e->w == 1) { r = b2bv(trb(e)); break; }
    r = e->k == K::And ? Z3_mk_bvand(C, tr(e->a), tr(e->b)) : e->k == K::Or ? Z3_mk_bvor(C, tr(e->a), tr(e->b)) : Z3_mk_bvxor(C, tr(e->a), tr(e->b)); break;
  case K::Shl: r = Z3_mk_bvshl(C, tr(e->a), tr(e->b)); break;
  case K::LShr: r = Z3_mk_bvlshr(C, tr(e->a), tr(e->b)); break;
  case K::AShr: r = Z3_mk_bvashr(C, tr(e->a), tr(e->b)); break;
  case K::Eq: case K::Ult: case K::Ule: case K::Slt: case K::Sle: r = b2bv(trb(e)); break;
  case K::Ite: r = Z3_mk_ite(C, trb(e->a), tr(e->b), tr(e->c)); break;
  case K::ZExt: r = Z3_mk_zero_ext(C, e->w - e->a->w, tr(e->a)); break;
  case K::SExt: r = Z3_mk_sign_ext(C, e->w - e->a->w, tr(e->a)); break;
  case K::Extract: r = Z3_mk_extract(C, e->v + e->w - 1, e->v, tr(e->a)); break;
  case K::Concat: r = Z3_mk_concat(C, tr(e->a), tr(e->b)); break;
  default: abort();
  }
  Z3_inc_ref(C, r);
  e->z3 = r;
  return r;
}

struct CacheEnt { Res r; std::vector<std::pair<uint32_t, uint64_t>> model; };
struct VH { size_t operator()(const std::vector<uint32_t> &v) const { uint64_t h = v.size(); for (auto x : v) { h ^= x; h *= 0x100000001b3ull; h ^= h >> 29; } return h; } };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VH> gCache;

static bool intersects(const VarSet &a, const std::vector<bool> &in) { for (auto x : a) if (x < in.size() && in[x]) return true; return false; }

static void askZ3(const std::vector<E *> &q, const VarSet &all, CacheEnt &ent) {
  initZ3();
  Z3_solver_push(C, S);
  for (E *e : q) Z3_solver_assert(C, S, trb(e));
  Z3_lbool r = Z3_solver_check(C, S);
  if (r == Z3_L_TRUE) {
    ent.r = Res::Sat;
    Z3_model zm = Z3_solver_get_model(C, S); Z3_model_inc_ref(C, zm);
    for (auto x : all) {
      Z3_ast val = nullptr; uint64_t u = 0;
      E *ve = mk(K::Var, gVars[x].w, x, nullptr, nullptr, nullptr);
      if (Z3_model_eval(C, zm, tr(ve), true, &val) && val) Z3_get_numeral_uint64(C, val, &u);
      ent.model.push_back({x, u});
    }
    Z3_model_dec_ref(C, zm);
  } else ent.r = r == Z3_L_FALSE ? Res::Unsat : Res::Unknown;
  Z3_solver_pop(C, S, 1);
}
uint64_t gCrossCheck = 50;

Res solve(const std::vector<E *> &cons, E *cond, Model &m, bool useZ3) {
  if (isC(cond)) return cond->v ? Res::Sat : Res::Unsat;
  if (evalE(cond, m)) { gSolver.modelHits++; return Res::Sat; }
  // constraint independence: only what is connected to cond through shared variables
  std::vector<bool> in(gVars.size(), false);
  VarSet all = *cond->vars;
  for (auto x : all) in[x] = true;
  std::vector<E *> slice; std::vector<char> used(cons.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < cons.size(); i++) if (!used[i] && intersects(*cons[i]->vars, in)) {
      used[i] = 1; slice.push_back(cons[i]);
      for (auto x : *cons[i]->vars) if (!in[x]) { in[x] = true; all.push_back(x); ch = true; }
    }
  }
  std::vector<uint32_t> key; key.reserve(slice.size() + 1);
  for (E *e : slice) key.push_back(e->id);
  std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  key.push_back(cond->id);
  auto it = gCache.find(key);
  if (it != gCache.end() && !(useZ3 && it->second.r != Res::Sat)) {
    gSolver.cacheHits++;
    if (it->second.r == Res::Sat) for (auto &p : it->second.model) { if (m.size() <= p.first) m.resize(p.first + 1); m[p.first] = p.second; }
    return it->second.r;
  }
  auto t0 = std::chrono::steady_clock::now();
  CacheEnt ent; bool decided = false;
  slice.push_back(cond);
  if (!useZ3) {
    static BvSat *bs = new BvSat();
    int r = bs->check(slice, 20000);
    if (r >= 0) { decided = true; ent.r = r ? Res::Sat : Res::Unsat; if (r) { gSolver.sat++; for (auto x : all) ent.model.push_back({x, bs->modelOf(x)}); } else gSolver.unsat++;
      gSolver.internal++;
      static uint64_t nUnsat = 0; if (!r && gCrossCheck && (nUnsat++ % gCrossCheck) == 0) { CacheEnt z; askZ3(slice, all, z); gSolver.crossChecked++; if (z.r == Res::Sat) { fprintf(stderr, "the two solvers disagree on %s\n", showE(cond).c_str()); exit(3); } } }
  }
  if (!decided) askZ3(slice, all, ent), gSolver.z3++, (ent.r == Res::Sat ? gSolver.sat : ent.r == Res::Unsat ? gSolver.unsat : gSolver.unknown)++;
  gSolver.queries++;
  static const char *slow = getenv("SYMEX_SLOW"); if (slow && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > atof(slow)) { fprintf(stderr, "SLOW %.2f %s\n", std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(), ent.r == Res::Sat ? "sat" : "unsat"); for (E *e : slice) fprintf(stderr, "   %s\n", showE(e, 12).c_str()); }
  gSolver.seconds += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  if (ent.r == Res::Sat) {
    for (auto &p : ent.model) { if (m.size() <= p.first) m.resize(p.first + 1); m[p.first] = p.second; }
    // self-check of the translation: the model must satisfy the slice and the condition
    evalNewStamp();
    if (!ev(cond, m)) { fprintf(stderr, "solver model does not satisfy the condition: %s\n", showE(cond).c_str()); exit(3); }
    for (E *e : slice) if (!ev(e, m)) { fprintf(stderr, "solver model does not satisfy a constraint: %s\n", showE(e).c_str()); exit(3); }
  }
  gCache[std::move(key)] = ent;
  return ent.r;
}
