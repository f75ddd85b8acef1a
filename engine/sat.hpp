// Incremental bit-blaster and CDCL solver. Every expression is translated once; a query assumes the literals
// of its constraints and decides only the variables in their cone of influence.
#pragma once
#include "expr.hpp"
#include <vector>
#include <unordered_map>
#include <cstring>

class BvSat {
  typedef int Lit;                                  // 2*var + sign
  struct Clause { float act = 0; bool learnt = false; std::vector<Lit> l; };
  struct Watch { int c; Lit blocker; };
  std::vector<Clause> cls; std::vector<int> freeCls; std::vector<std::vector<Watch>> watches;
  std::vector<signed char> val;                     // by variable: -1 unassigned, 0 false, 1 true
  std::vector<char> phase, seen; std::vector<int> level, reason, trailLim; std::vector<Lit> trail; size_t qhead = 0;
  std::vector<double> act; double inc = 1; float cinc = 1;
  std::vector<int> heap, hpos; std::vector<uint32_t> mark; uint32_t stamp = 0;
  std::vector<std::pair<Lit, Lit>> gin; std::vector<Lit> gin3;   // inputs of the gate that defines a variable
  std::vector<int> learnts; bool ok = true;
  static Lit neg(Lit a) { return a ^ 1; }
  int value(Lit a) const { signed char v = val[a >> 1]; return v < 0 ? -1 : (v ^ (a & 1)); }

  int newVar(Lit a = -1, Lit b = -1, Lit c = -1) {
    int v = val.size(); val.push_back(-1); phase.push_back(0); seen.push_back(0); level.push_back(0); reason.push_back(-1); act.push_back(0); hpos.push_back(-1); mark.push_back(0);
    gin.push_back({a, b}); gin3.push_back(c); watches.emplace_back(); watches.emplace_back(); return v; }
  int addClauseRaw(std::vector<Lit> l, bool learnt) {
    int id; if (!freeCls.empty()) { id = freeCls.back(); freeCls.pop_back(); } else { id = cls.size(); cls.emplace_back(); }
    cls[id].l = std::move(l); cls[id].learnt = learnt; cls[id].act = 0;
    auto &c = cls[id].l; watches[neg(c[0])].push_back({id, c[1]}); watches[neg(c[1])].push_back({id, c[0]}); return id; }
  void addClause(std::initializer_list<Lit> in) {     // called at decision level 0
    std::vector<Lit> l; for (Lit x : in) { int v = value(x); if (v == 1) return; if (v == 0) continue; bool dup = false; for (Lit y : l) { if (y == x) dup = true; if (y == neg(x)) return; } if (!dup) l.push_back(x); }
    if (l.empty()) { ok = false; return; }
    if (l.size() == 1) { enqueue(l[0], -1); return; }
    addClauseRaw(l, false); }
  void enqueue(Lit p, int r) { int v = p >> 1; val[v] = !(p & 1); level[v] = trailLim.size(); reason[v] = r; trail.push_back(p); }
  int propagate() {
    while (qhead < trail.size()) {
      Lit p = trail[qhead++]; auto &ws = watches[p]; size_t i = 0, j = 0; Lit np = neg(p);
      for (; i < ws.size();) {
        Watch w = ws[i++]; if (value(w.blocker) == 1) { ws[j++] = w; continue; }
        auto &c = cls[w.c].l; if (c[0] == np) std::swap(c[0], c[1]);
        Lit first = c[0]; if (first != w.blocker && value(first) == 1) { ws[j++] = {w.c, first}; continue; }
        bool found = false;
        for (size_t k = 2; k < c.size(); k++) if (value(c[k]) != 0) { std::swap(c[1], c[k]); watches[neg(c[1])].push_back({w.c, first}); found = true; break; }
        if (found) continue;
        ws[j++] = {w.c, first};
        if (value(first) == 0) { while (i < ws.size()) ws[j++] = ws[i++]; ws.resize(j); qhead = trail.size(); return w.c; }
        enqueue(first, w.c);
      }
      ws.resize(j);
    }
    return -1; }
  // heap of decision candidates
  bool lt(int a, int b) { return act[a] > act[b]; }
  void up(int i) { int x = heap[i]; while (i && lt(x, heap[(i - 1) / 2])) { heap[i] = heap[(i - 1) / 2]; hpos[heap[i]] = i; i = (i - 1) / 2; } heap[i] = x; hpos[x] = i; }
  void down(int i) { int x = heap[i]; int n = heap.size(); for (;;) { int c = 2 * i + 1; if (c >= n) break; if (c + 1 < n && lt(heap[c + 1], heap[c])) c++; if (!lt(heap[c], x)) break; heap[i] = heap[c]; hpos[heap[i]] = i; i = c; } heap[i] = x; hpos[x] = i; }
  void hpush(int v) { if (hpos[v] >= 0) return; heap.push_back(v); hpos[v] = heap.size() - 1; up(heap.size() - 1); }
  int hpop() { int v = heap[0]; hpos[v] = -1; int l = heap.back(); heap.pop_back(); if (!heap.empty()) { heap[0] = l; hpos[l] = 0; down(0); } return v; }
  void bump(int v) { if ((act[v] += inc) > 1e100) { for (auto &a : act) a *= 1e-100; inc *= 1e-100; } if (hpos[v] >= 0) up(hpos[v]); }
  void cancel(int lv) { if ((int)trailLim.size() <= lv) return; for (size_t i = trail.size(); i-- > (size_t)trailLim[lv];) { int v = trail[i] >> 1; phase[v] = val[v]; val[v] = -1; reason[v] = -1; if (mark[v] == stamp) hpush(v); } trail.resize(trailLim[lv]); qhead = trail.size(); trailLim.resize(lv); }
  void analyze(int confl, std::vector<Lit> &out, int &bt) {
    int pathC = 0; Lit p = -1; out.assign(1, 0); size_t idx = trail.size(); std::vector<int> toClear;
    do {
      Clause &c = cls[confl]; if (c.learnt) c.act += cinc;
      for (Lit q : c.l) { if (q == p) continue; int v = q >> 1; if (!seen[v] && level[v] > 0) { seen[v] = 1; toClear.push_back(v); bump(v); if (level[v] >= (int)trailLim.size()) pathC++; else out.push_back(q); } }
      while (!seen[trail[--idx] >> 1]) {}
      p = trail[idx]; confl = reason[p >> 1]; seen[p >> 1] = 0; pathC--;
    } while (pathC > 0);
    out[0] = neg(p);
    // cheap minimisation
    size_t j = 1; for (size_t i = 1; i < out.size(); i++) { int r = reason[out[i] >> 1]; bool keep = r < 0; if (!keep) for (Lit q : cls[r].l) if ((q >> 1) != (out[i] >> 1) && !seen[q >> 1] && level[q >> 1] > 0) { keep = true; break; } if (keep) out[j++] = out[i]; } out.resize(j);
    for (int v : toClear) seen[v] = 0;
    bt = 0; if (out.size() > 1) { size_t m = 1; for (size_t i = 2; i < out.size(); i++) if (level[out[i] >> 1] > level[out[m] >> 1]) m = i; std::swap(out[1], out[m]); bt = level[out[1] >> 1]; } }
  void reduceDB() {
    std::sort(learnts.begin(), learnts.end(), [&](int a, int b) { return cls[a].act > cls[b].act; });
    std::vector<char> locked(cls.size(), 0); for (Lit t : trail) if (reason[t >> 1] >= 0) locked[reason[t >> 1]] = 1;
    std::vector<char> dead(cls.size(), 0); std::vector<int> keep; for (size_t i = 0; i < learnts.size(); i++) { int c = learnts[i]; if (i > learnts.size() / 2 && !locked[c] && cls[c].l.size() > 2) { dead[c] = 1; freeCls.push_back(c); } else keep.push_back(c); }
    for (auto &w : watches) { size_t j = 0; for (auto &x : w) if (!dead[x.c]) w[j++] = x; w.resize(j); }
    for (size_t c = 0; c < dead.size(); c++) if (dead[c]) cls[c].l.clear();
    learnts = keep; }

  // ------------------------------------------------------------ gates
  struct GK { int k; Lit a, b, c; bool operator==(const GK &o) const { return k == o.k && a == o.a && b == o.b && c == o.c; } };
  struct GH { size_t operator()(const GK &g) const { uint64_t h = g.k; for (uint64_t x : {(uint64_t)(unsigned)g.a, (uint64_t)(unsigned)g.b, (uint64_t)(unsigned)g.c}) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 31; } return h; } };
  std::unordered_map<GK, Lit, GH> gates;
  static constexpr Lit T = 0, F_ = 1;                     // variable 0 is true: literal 0 is true, literal 1 is false
  Lit gAnd(Lit a, Lit b) {
    if (a == F_ || b == F_ || a == neg(b)) return F_; if (a == T) return b; if (b == T || a == b) return a; if (a > b) std::swap(a, b);
    auto it = gates.find({0, a, b, 0}); if (it != gates.end()) return it->second;
    Lit o = 2 * newVar(a, b); addClause({neg(o), a}); addClause({neg(o), b}); addClause({o, neg(a), neg(b)}); return gates[{0, a, b, 0}] = o; }
  Lit gOr(Lit a, Lit b) { return neg(gAnd(neg(a), neg(b))); }
  Lit gXor(Lit a, Lit b) {
    if (a == F_) return b; if (b == F_) return a; if (a == T) return neg(b); if (b == T) return neg(a); if (a == b) return F_; if (a == neg(b)) return T;
    bool sg = (a & 1) ^ (b & 1); a &= ~1; b &= ~1; if (a > b) std::swap(a, b);
    auto it = gates.find({1, a, b, 0}); Lit o;
    if (it != gates.end()) o = it->second;
    else { o = 2 * newVar(a, b); addClause({neg(o), a, b}); addClause({neg(o), neg(a), neg(b)}); addClause({o, neg(a), b}); addClause({o, a, neg(b)}); gates[{1, a, b, 0}] = o; }
    return sg ? neg(o) : o; }
  Lit gIte(Lit c, Lit a, Lit b) {
    if (c == T) return a; if (c == F_) return b; if (a == b) return a; if (c & 1) { c ^= 1; std::swap(a, b); }
    if (a == T) return gOr(c, b); if (a == F_) return gAnd(neg(c), b); if (b == T) return gOr(neg(c), a); if (b == F_) return gAnd(c, a); if (a == neg(b)) return neg(gXor(c, a)); if (a == c) return gOr(c, b); if (b == c) return gAnd(c, a);
    auto it = gates.find({2, c, a, b}); if (it != gates.end()) return it->second;
    Lit o = 2 * newVar(c, a, b); addClause({neg(c), neg(a), o}); addClause({neg(c), a, neg(o)}); addClause({c, neg(b), o}); addClause({c, b, neg(o)}); addClause({neg(a), neg(b), o}); addClause({a, b, neg(o)}); return gates[{2, c, a, b}] = o; }
  typedef std::vector<Lit> BV;
  Lit gMaj(Lit a, Lit b, Lit c) { return gOr(gAnd(a, b), gAnd(c, gOr(a, b))); }
  BV add(const BV &a, const BV &b, Lit cin) { BV r(a.size()); Lit c = cin; for (size_t i = 0; i < a.size(); i++) { Lit x = gXor(a[i], b[i]); r[i] = gXor(x, c); c = gMaj(a[i], b[i], c); } carry = c; return r; }
  Lit carry = 0;
  BV inv(const BV &a) { BV r(a); for (auto &x : r) x = neg(x); return r; }
  BV cst(uint64_t v, unsigned w) { BV r(w); for (unsigned i = 0; i < w; i++) r[i] = (v >> i & 1) ? T : F_; return r; }
  BV iteV(Lit c, const BV &a, const BV &b) { BV r(a.size()); for (size_t i = 0; i < a.size(); i++) r[i] = gIte(c, a[i], b[i]); return r; }
  Lit ult(const BV &a, const BV &b) { Lit r = F_; for (size_t i = 0; i < a.size(); i++) { Lit d = gXor(a[i], b[i]); r = gIte(d, b[i], r); } return r; }
  Lit eq(const BV &a, const BV &b) { Lit r = T; for (size_t i = 0; i < a.size(); i++) r = gAnd(r, neg(gXor(a[i], b[i]))); return r; }
  BV mul(const BV &a, const BV &b) { unsigned w = a.size(); BV r = cst(0, w); for (unsigned i = 0; i < w; i++) { if (b[i] == F_) continue; BV t(w, F_); for (unsigned k = i; k < w; k++) t[k] = gAnd(a[k - i], b[i]); r = add(r, t, F_); } return r; }
  void udivrem(const BV &a, const BV &b, BV &q, BV &rem) {
    unsigned w = a.size(); BV r(w + 1, F_); BV bb = b; bb.push_back(F_); BV nb = inv(bb); q.assign(w, F_);
    for (int i = w - 1; i >= 0; i--) { for (int k = w; k > 0; k--) r[k] = r[k - 1]; r[0] = a[i]; BV d = add(r, nb, T); Lit ge = carry; q[i] = ge; r = iteV(ge, d, r); }
    rem.assign(r.begin(), r.begin() + w); }
  BV negV(const BV &a) { return add(inv(a), cst(0, a.size()), T); }
  BV absV(const BV &a) { return iteV(a.back(), negV(a), a); }
  BV shift(const BV &a, const BV &b, int kind) {      // 0 shl 1 lshr 2 ashr
    unsigned w = a.size(); BV r = a; Lit fill = kind == 2 ? a.back() : F_; unsigned lg = 0; while ((1u << lg) < w) lg++;
    for (unsigned s = 0; s < lg && s < b.size(); s++) { BV t(w); unsigned n = 1u << s; for (unsigned i = 0; i < w; i++) { if (kind == 0) t[i] = i >= n ? r[i - n] : F_; else t[i] = i + n < w ? r[i + n] : fill; } r = iteV(b[s], t, r); }
    Lit big = F_; for (unsigned s = lg; s < b.size(); s++) big = gOr(big, b[s]);
    if ((w & (w - 1)) != 0) { BV lo(b.begin(), b.begin() + std::min<size_t>(lg, b.size())); BV wc = cst(w, lo.size() + 1); lo.push_back(F_); big = gOr(big, neg(ult(lo, wc))); }
    BV f(w, fill); return iteV(big, f, r); }
  std::unordered_map<E *, BV> bitsOf;
  std::unordered_map<uint32_t, BV> varBits;

public:
  uint64_t conflictsTotal = 0;
  BvSat() { newVar(); enqueue(T, -1); }
  const BV &bits(E *e) {
    auto it = bitsOf.find(e); if (it != bitsOf.end()) return it->second;
    BV r; unsigned w = e->w;
    switch (e->k) {
    case K::Const: r = cst(e->v, w); break;
    case K::Var: { auto &vb = varBits[e->v]; if (vb.empty()) for (unsigned i = 0; i < w; i++) vb.push_back(2 * newVar()); r = vb; break; }
    case K::Add: { BV a = bits(e->a), b = bits(e->b); r = add(a, b, F_); break; }
    case K::Sub: { BV a = bits(e->a), b = bits(e->b); r = add(a, inv(b), T); break; }
    case K::Mul: { BV a = bits(e->a), b = bits(e->b); r = mul(a, b); break; }
    case K::UDiv: case K::URem: { BV a = bits(e->a), b = bits(e->b), q, m; udivrem(a, b, q, m); Lit z = eq(b, cst(0, w)); r = e->k == K::UDiv ? iteV(z, cst(~0ull, w), q) : iteV(z, a, m); break; }
    case K::SDiv: case K::SRem: { BV a = bits(e->a), b = bits(e->b), q, m; udivrem(absV(a), absV(b), q, m); Lit z = eq(b, cst(0, w));
      if (e->k == K::SDiv) { BV sq = iteV(gXor(a.back(), b.back()), negV(q), q); r = iteV(z, iteV(a.back(), cst(1, w), cst(~0ull, w)), sq); } else { BV sm = iteV(a.back(), negV(m), m); r = iteV(z, a, sm); } break; }
    case K::And: case K::Or: case K::Xor: { BV a = bits(e->a), b = bits(e->b); r.resize(w); for (unsigned i = 0; i < w; i++) r[i] = e->k == K::And ? gAnd(a[i], b[i]) : e->k == K::Or ? gOr(a[i], b[i]) : gXor(a[i], b[i]); break; }
    case K::Shl: case K::LShr: case K::AShr: { BV a = bits(e->a), b = bits(e->b); r = shift(a, b, e->k == K::Shl ? 0 : e->k == K::LShr ? 1 : 2); break; }
    case K::Eq: { BV a = bits(e->a), b = bits(e->b); r = {eq(a, b)}; break; }
    case K::Ult: { BV a = bits(e->a), b = bits(e->b); r = {ult(a, b)}; break; }
    case K::Ule: { BV a = bits(e->a), b = bits(e->b); r = {neg(ult(b, a))}; break; }
    case K::Slt: { BV a = bits(e->a), b = bits(e->b); a.back() ^= 1; b.back() ^= 1; r = {ult(a, b)}; break; }
    case K::Sle: { BV a = bits(e->a), b = bits(e->b); a.back() ^= 1; b.back() ^= 1; r = {neg(ult(b, a))}; break; }
    case K::Ite: { Lit c = bits(e->a)[0]; BV a = bits(e->b), b = bits(e->c); r = iteV(c, a, b); break; }
    case K::ZExt: { r = bits(e->a); r.resize(w, F_); break; }
    case K::SExt: { r = bits(e->a); Lit s = r.back(); r.resize(w, s); break; }
    case K::Extract: { const BV &a = bits(e->a); r.assign(a.begin() + e->v, a.begin() + e->v + w); break; }
    case K::Concat: { r = bits(e->b); BV h = bits(e->a); r.insert(r.end(), h.begin(), h.end()); break; }
    }
    return bitsOf[e] = r; }
  // 1 sat, 0 unsat, -1 gave up
  int check(const std::vector<E *> &cs, uint64_t maxConfl) {
    cancel(0); if (!ok) return 0;
    std::vector<Lit> as; for (E *e : cs) { Lit l = bits(e)[0]; as.push_back(l); }
    if (propagate() >= 0) { ok = false; return 0; }
    // cone of influence
    stamp++; heap.clear(); std::fill(hpos.begin(), hpos.end(), -1);
    std::vector<int> st; auto add1 = [&](Lit l) { if (l < 0) return; int v = l >> 1; if (mark[v] != stamp) { mark[v] = stamp; st.push_back(v); } };
    for (Lit a : as) add1(a);
    std::vector<int> cone; while (!st.empty()) { int v = st.back(); st.pop_back(); cone.push_back(v); add1(gin[v].first); add1(gin[v].second); add1(gin3[v]); }
    for (int v : cone) hpush(v);
    uint64_t confl = 0, restart = 100, sinceR = 0; std::vector<Lit> lr;
    for (;;) {
      int c = propagate();
      if (c >= 0) {
        confl++; sinceR++; conflictsTotal++;
        if (trailLim.empty()) { ok = false; return 0; }
        int bt; analyze(c, lr, bt); cancel(bt);
        if (lr.size() == 1) enqueue(lr[0], -1); else { int id = addClauseRaw(lr, true); cls[id].act = cinc; learnts.push_back(id); enqueue(lr[0], id); }
        inc *= 1.05; cinc *= 1.001f; if (cinc > 1e20f) { for (int l : learnts) cls[l].act *= 1e-20f; cinc *= 1e-20f; }
        if (confl > maxConfl) { cancel(0); return -1; }
      } else {
        if (sinceR > restart) { sinceR = 0; restart = restart * 11 / 10; cancel(0); if (learnts.size() > 20000) reduceDB(); continue; }
        if (trailLim.size() < as.size()) {
          Lit p = as[trailLim.size()]; int v = value(p);
          if (v == 0) { cancel(0); return 0; }
          trailLim.push_back(trail.size()); if (v < 0) enqueue(p, -1); continue;
        }
        int nx = -1; while (!heap.empty()) { int v = hpop(); if (val[v] < 0) { nx = v; break; } }
        if (nx < 0) return 1;
        trailLim.push_back(trail.size()); enqueue(2 * nx + (phase[nx] ? 0 : 1), -1);
      }
    }
  }
  uint64_t modelOf(uint32_t var) { auto it = varBits.find(var); if (it == varBits.end()) return 0; uint64_t r = 0; for (size_t i = 0; i < it->second.size(); i++) if (value(it->second[i]) == 1) r |= 1ull << i; return r; }
};
