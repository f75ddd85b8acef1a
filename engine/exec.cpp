// Path-forking symbolic executor over lowered LLVM IR.
#include "ir.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <chrono>
#include <deque>
#include <map>
#include <set>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <fcntl.h>
#include <signal.h>
#include <memory>
#include <cerrno>
#include <pthread.h>

// ------------------------------------------------------------------ memory
struct Obj {
  uint32_t ref = 0; uint64_t base = 0; uint64_t size = 0; bool ro = false; bool ext = false; uint8_t kind = 0; // 1 heap 2 stack 3 global
  std::vector<uint8_t> d; std::vector<E *> s;
};
struct ObjRef {
  Obj *p = nullptr;
  ObjRef() {} ObjRef(Obj *q) : p(q) { if (p) p->ref++; } ObjRef(const ObjRef &o) : p(o.p) { if (p) p->ref++; }
  ObjRef(ObjRef &&o) : p(o.p) { o.p = nullptr; }
  ObjRef &operator=(ObjRef o) { std::swap(p, o.p); return *this; }
  ~ObjRef() { if (p && --p->ref == 0) delete p; }
};
static const int CH = 64;
struct Chunk { uint32_t ref = 0; ObjRef o[CH]; };
struct ChunkRef {
  Chunk *p = nullptr;
  ChunkRef() {} ChunkRef(Chunk *q) : p(q) { if (p) p->ref++; } ChunkRef(const ChunkRef &o) : p(o.p) { if (p) p->ref++; }
  ChunkRef(ChunkRef &&o) : p(o.p) { o.p = nullptr; }
  ChunkRef &operator=(ChunkRef o) { std::swap(p, o.p); return *this; }
  ~ChunkRef() { if (p && --p->ref == 0) delete p; }
};
static const unsigned SH = 20;
static std::vector<Global *> gGlob(1, nullptr);            // by id (multi-id globals repeat)
static std::vector<Obj *> gBase(1, nullptr);
static const uint64_t STATE_ID0 = 1 << 20;                 // ids of heap and stack objects start here

uint64_t allocGlobalAddress(Global *g) {
  uint64_t id = gGlob.size(); uint64_t n = (g->size >> SH) + 1;
  for (uint64_t i = 0; i < n; i++) { gGlob.push_back(g); gBase.push_back(nullptr); }
  return id << SH;
}

// ------------------------------------------------------------------ native images
// A harness may ask for the memory of a native process that ran it up to the same point (sym_image): the real parser's
// result, for example.  Pages are fetched when first touched; writes are kept in the state.  Functions of the real
// libraries that only read that memory (listed in a file of patterns) are called in the process itself.
static const uint64_t NATIVE0 = 1ull << 45; static const unsigned PSH = 16;
struct Image { int fd = -1; pid_t owner = 0; std::vector<uint64_t> inputs; uint64_t root = 0; std::unordered_map<uint64_t, ObjRef> pages; std::map<uint64_t, std::string> names; std::map<std::vector<uint8_t>, std::vector<uint8_t>> calls; std::vector<std::vector<uint8_t>> log; ~Image() { if (fd >= 0) close(fd); } };

struct Frame {
  Func *f; uint32_t ip = 0; std::vector<Val> r; std::vector<uint64_t> allocas; const Inst *site = nullptr; uint64_t va = 0;
};

struct State {
  uint64_t id = 0;
  std::vector<Frame> st;
  std::vector<ChunkRef> mem; uint64_t nextId = STATE_ID0;
  std::unordered_map<uint64_t, ObjRef> glob;                          // written globals (and pages of the image: top bit set)
  std::shared_ptr<Image> img;
  std::vector<E *> cons; Model model;
  std::unordered_map<E *, uint64_t> conc;
  std::vector<E *> inputs;
  std::vector<std::pair<std::string, Val>> obs;
  uint64_t steps = 0; unsigned forks = 0;
  // exceptions
  uint64_t excObj = 0; std::vector<uint64_t> caught;
  std::map<uint64_t, uint64_t> excType;
};

// ------------------------------------------------------------------ globals of a run
struct Violation { std::string msg, where; std::vector<std::pair<std::string, uint64_t>> inputs; std::vector<unsigned> widths; std::string kind; };
static std::vector<Violation> gViol; static std::set<std::string> gViolSeen; static uint64_t gViolCount = 0;
static std::map<std::string, uint64_t> gErrors;
static std::map<std::string, std::pair<uint64_t, std::string>> gCovers;
static std::map<std::string, uint64_t> gAssertLabels;
static uint64_t gPaths = 0, gInfeasible = 0, gSteps = 0, gAsserts = 0, gForks = 0, gConcretized = 0;
static std::vector<std::string> gSamples;
static std::vector<State *> gWork;
static State *cur;
static uint64_t optMaxSteps = 5000000, optMaxPaths = 1u << 30; static double optMaxTime = 600; static bool optTrace = false, optStopFirst = false; static unsigned optMaxViol = 3, optSamples = 6;
static unsigned optConcLimit = 300;
static int optJobs = 1;
static std::chrono::steady_clock::time_point gT0;
struct PathEnd {};                    // thrown to end the current path
static std::set<Func *> gUsed;

static std::string jsonStr(const std::string &s) {
  std::string r = "\""; char b[8];
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c >= 127) { snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
  return r + "\"";
}
static std::string where(State &s) {
  std::string r;
  for (size_t i = s.st.size(), n = 0; i-- > 0 && n < 12; n++) {
    Frame &f = s.st[i]; uint32_t ip = f.ip; if (ip >= f.f->code.size()) ip = f.f->code.size() ? f.f->code.size() - 1 : 0;
    std::string loc; if (f.f->code.size()) { const Inst &x = f.f->code[ip]; if (x.file && x.op != Op::Unsupported) { const char *b = strrchr(x.file, '/'); loc = std::string(b ? b + 1 : x.file) + ":" + std::to_string(x.line); } }
    std::string dn = demangle(f.f->name); if (dn.size() > 90) dn = dn.substr(0, 90) + "...";
    r += (n ? " <- " : "") + dn + (loc.empty() ? "" : " (" + loc + ")");
  }
  return r;
}
static std::string inputsJson(State &s, const Model &m) {
  std::string r = "[";
  for (size_t i = 0; i < s.inputs.size(); i++) { E *v = s.inputs[i]; uint64_t x = v->v < m.size() ? m[v->v] & maskw(v->w) : 0;
    r += (i ? "," : "") + std::string("[") + jsonStr(varInfo(v->v).name) + "," + std::to_string(v->w) + "," + std::to_string(x) + "]"; }
  return r + "]";
}
static void reportViolation(State &s, const std::string &kind, const std::string &msg, const Model &m) {
  gViolCount++;
  std::string key = kind + msg;
  if (gViolSeen.count(key) || gViol.size() >= optMaxViol) return;
  gViolSeen.insert(key);
  Violation v; v.kind = kind; v.msg = msg; v.where = where(s);
  for (E *e : s.inputs) { v.inputs.push_back({varInfo(e->v).name, e->v < m.size() ? m[e->v] & maskw(e->w) : 0}); v.widths.push_back(e->w); }
  gViol.push_back(v);
}
[[noreturn]] static void fail(State &s, const std::string &kind, const std::string &msg) { reportViolation(s, kind, msg, s.model); throw PathEnd(); }
[[noreturn]] static void engineError(State &s, const std::string &msg) { 
  std::string k = msg; if (gErrors.size() < 50) { if (!gErrors.count(k)) fprintf(stderr, "ENGINE: %s\n   at %s\n   inputs %s\n", msg.c_str(), where(s).c_str(), inputsJson(s, s.model).c_str()); gErrors[k]++; } throw PathEnd(); }

static State *cloneState(State &s) { State *n = new State(s); static uint64_t ids = 1; n->id = ids++; n->forks++; gForks++; return n; }

static void addCons(State &s, E *c) {
  if (c->k == K::Const) return;
  if (c->k == K::And && c->w == 1) { addCons(s, c->a); addCons(s, c->b); return; }
  if (s.conc.count(c)) { return; }
  s.cons.push_back(c); s.conc[c] = 1; s.conc[mkNot(c)] = 0;
  if (c->k == K::Eq && c->b->k == K::Const) s.conc[c->a] = c->b->v;
  if (c->k == K::Xor && c->w == 1) { E *n = c->a; if (n->k == K::Or) { addCons(s, mkNot(n->a)); addCons(s, mkNot(n->b)); } }
}
static inline bool known(State &s, E *e, uint64_t &v) { if (e->k == K::Const) { v = e->v; return true; } auto it = s.conc.find(e); if (it == s.conc.end()) return false; v = it->second; return true; }

// returns true for the side the current state takes; queues the other
static bool decide(State &s, E *c, bool *other, State **otherState) {
  *other = false; uint64_t kv; if (known(s, c, kv)) return kv;
  bool v = evalE(c, s.model); E *o = v ? mkNot(c) : c; Model m2 = s.model;
  Res r = solve(s.cons, o, m2);
  if (r == Res::Unknown) engineError(s, "solver gave no answer");
  if (r == Res::Unsat) { s.conc[c] = v; s.conc[mkNot(c)] = !v; return v; }
  *other = true; State *n = cloneState(s); n->model = m2; addCons(*n, o); *otherState = n; addCons(s, v ? c : mkNot(c)); return v;
}
// make an expression concrete on this path; every other feasible value is queued as another path
static uint64_t concretize(State &s, E *e) {
  uint64_t kv; if (known(s, e, kv)) return kv;
  uint64_t v0 = evalE(e, s.model); E *ex = mkBin(K::Eq, e, mkConst(v0, e->w)); E *excl = mkNot(ex); unsigned n = 1;
  gConcretized++;
  for (;;) {
    Model m2 = s.model; Res r = solve(s.cons, excl, m2);
    if (r == Res::Unknown) engineError(s, "solver gave no answer");
    if (r == Res::Unsat) break;
    uint64_t v = evalE(e, m2);
    if (++n > optConcLimit) engineError(s, "too many values for a symbolic address or size: " + showE(e));
    E *q = mkBin(K::Eq, e, mkConst(v, e->w));
    State *c = cloneState(s); c->model = m2; addCons(*c, q); c->conc[e] = v; gWork.push_back(c);
    excl = mkBin(K::And, excl, mkNot(q));
  }
  if (n > 1) addCons(s, ex);
  s.conc[e] = v0; return v0;
}
static inline uint64_t conc(State &s, const Val &v) { return v.e ? concretize(s, v.e) : v.c; }

// ------------------------------------------------------------------ memory access
static Obj *baseObj(uint64_t id) {
  if (id >= gGlob.size() || !gGlob[id]) return nullptr;
  if (!gBase[id]) { Global *g = gGlob[id]; Obj *o = new Obj(); o->ref = 1; uint64_t f = id; while (f > 1 && gGlob[f - 1] == g) f--; 
    o->base = f << SH; o->size = g->size; o->ro = g->constant; o->ext = g->external; o->kind = 3; globalInit(*g, o->d);
    for (uint64_t i = f; i < gGlob.size() && gGlob[i] == g; i++) gBase[i] = o; }
  return gBase[id];
}
static Obj *nativePage(State &s, uint64_t addr);
static inline Obj *findObj(State &s, uint64_t addr) {
  if (addr >= NATIVE0) return nativePage(s, addr);
  uint64_t id = addr >> SH;
  if (id >= STATE_ID0) { uint64_t k = id - STATE_ID0; uint64_t c = k / CH; if (c >= s.mem.size()) return nullptr; Chunk *ch = s.mem[c].p; return ch ? ch->o[k % CH].p : nullptr; }
  if (!s.glob.empty()) { auto it = s.glob.find(id); if (it != s.glob.end()) return it->second.p; }
  return baseObj(id);
}
static Obj *writableObj(State &s, Obj *o) {
  if (o->base >= NATIVE0) { ObjRef &r = s.glob[(1ull << 63) | (o->base >> PSH)]; if (!r.p) r = ObjRef(new Obj(*o)), r.p->ref = 1; else if (r.p->ref > 1) r = ObjRef(new Obj(*r.p)), r.p->ref = 1; return r.p; }
  uint64_t id = o->base >> SH;
  if (id >= STATE_ID0) {
    uint64_t k = id - STATE_ID0; ChunkRef &cr = s.mem[k / CH];
    if (cr.p->ref > 1) cr = ChunkRef(new Chunk(*cr.p)), cr.p->ref = 1;
    ObjRef &r = cr.p->o[k % CH];
    if (r.p->ref > 1) { uint64_t n = (o->size >> SH) + 1; Obj *c = new Obj(*o); c->ref = 0; ObjRef nr(c);
      for (uint64_t i = 0; i < n; i++) { uint64_t kk = k + i; ChunkRef &c2 = s.mem[kk / CH]; if (c2.p->ref > 1) c2 = ChunkRef(new Chunk(*c2.p)), c2.p->ref = 1; c2.p->o[kk % CH] = nr; }
      return c; }
    return r.p;
  }
  auto it = s.glob.find(id);
  if (it != s.glob.end()) { if (it->second.p->ref > 1 && (o->size >> SH) == 0) it->second = ObjRef(new Obj(*it->second.p)), it->second.p->ref = 1; return it->second.p; }
  Obj *c = new Obj(*o); c->ref = 0; ObjRef nr(c); uint64_t n = (o->size >> SH) + 1; for (uint64_t i = 0; i < n; i++) s.glob[id + i] = nr; return c;
}
static uint64_t allocate(State &s, uint64_t size, uint8_t kind, uint8_t fill) {
  if (size > (64u << 20)) engineError(s, "allocation of " + std::to_string(size) + " bytes");
  Obj *o = new Obj(); o->size = size; o->kind = kind; o->d.assign(size, fill);
  uint64_t id = s.nextId; uint64_t n = (size >> SH) + 1; s.nextId += n; o->base = id << SH; ObjRef r(o);
  for (uint64_t i = 0; i < n; i++) { uint64_t k = id - STATE_ID0 + i; if (k / CH >= s.mem.size()) s.mem.resize(k / CH + 1); ChunkRef &c = s.mem[k / CH];
    if (!c.p) c = ChunkRef(new Chunk()); else if (c.p->ref > 1) c = ChunkRef(new Chunk(*c.p)), c.p->ref = 1;
    c.p->o[k % CH] = r; }
  return o->base;
}
static void release(State &s, uint64_t addr) {
  if (addr >= NATIVE0) return;
  uint64_t id = addr >> SH; if (id < STATE_ID0) return; Obj *o = findObj(s, addr); if (!o) return; uint64_t n = (o->size >> SH) + 1;
  for (uint64_t i = 0; i < n; i++) { uint64_t k = id - STATE_ID0 + i; ChunkRef &c = s.mem[k / CH]; if (c.p->ref > 1) c = ChunkRef(new Chunk(*c.p)), c.p->ref = 1; c.p->o[k % CH] = ObjRef(); }
}
static Obj *check(State &s, uint64_t addr, uint64_t n, bool write, const char *what) {
  Obj *o = findObj(s, addr);
  char b[200];
  if (!o) { 
    if (addr < (1u << 16)) fail(s, "memory", std::string("null pointer access (") + what + ")");
    if (addr >= NATIVE0 && !s.img) engineError(s, "native pointer without an image");
    bool dangling = addr < NATIVE0 && (addr >> SH) >= STATE_ID0 && (addr >> SH) < s.nextId;
    snprintf(b, 200, "%s (%s at 0x%llx)", dangling ? "use after free" : "invalid pointer access", what, (unsigned long long)addr); 
    fail(s, "memory", dangling ? std::string("use after free (") + what + ")" : std::string("invalid pointer access (") + what + ")"); }
  if (addr - o->base + n > o->size) {
    if (addr >= NATIVE0) engineError(s, "access across pages of the image");
    if (o->ext) engineError(s, "access beyond the modelled size of external object " + gGlob[o->base >> SH]->name);
    snprintf(b, 200, "out-of-bounds %s: offset %lld, %llu bytes, object of %llu bytes", what, (long long)(addr - o->base), (unsigned long long)n, (unsigned long long)o->size); fail(s, "memory", b); }
  if (o->ext) engineError(s, std::string(what) + " of external object " + gGlob[o->base >> SH]->name);
  if (write && o->ro) fail(s, "memory", "write to constant object");
  return o;
}
static Val readAt(Obj *o, uint64_t off, unsigned w) {
  unsigned n = (w + 7) / 8; Val r;
  bool sym = false;
  if (!o->s.empty()) for (unsigned i = 0; i < n; i++) if (o->s[off + i]) { sym = true; break; }
  if (!sym) { uint64_t v = 0; memcpy(&v, &o->d[off], n); r.c = v & maskw(w); return r; }
  E *e = nullptr;
  for (unsigned i = 0; i < n; i++) { E *b = o->s[off + i] ? o->s[off + i] : mkConst(o->d[off + i], 8); e = e ? mkConcat(b, e) : b; }
  if (e->w > w) e = mkExtract(e, 0, w);
  if (e->k == K::Const) { r.c = e->v; return r; }
  r.e = e; return r;
}
static void writeAt(Obj *o, uint64_t off, unsigned w, const Val &v) {
  unsigned n = (w + 7) / 8;
  if (!v.e) { uint64_t c = v.c & maskw(w); memcpy(&o->d[off], &c, n); if (!o->s.empty()) for (unsigned i = 0; i < n; i++) o->s[off + i] = nullptr; return; }
  if (o->s.empty()) o->s.assign(o->size, nullptr);
  E *e = v.e; if (e->w != n * 8) e = mkZExt(e, n * 8);
  for (unsigned i = 0; i < n; i++) { E *b = mkExtract(e, i * 8, 8); if (b->k == K::Const) { o->d[off + i] = b->v; o->s[off + i] = nullptr; } else o->s[off + i] = b; }
}
static E *toE(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static Val fromE(E *e) { Val v; if (e->k == K::Const) v.c = e->v; else v.e = e; return v; }

static Val loadVal(State &s, const Val &addr, uint64_t off, unsigned w) {
  unsigned n = (w + 7) / 8;
  if (!addr.e) { uint64_t a = addr.c + off; Obj *o = check(s, a, n, false, "read"); return readAt(o, a - o->base, w); }
  uint64_t kv; if (known(s, addr.e, kv)) { uint64_t a = kv + off; Obj *o = check(s, a, n, false, "read"); return readAt(o, a - o->base, w); }
  // enumerate the feasible addresses; inside one object build an if-then-else, across objects fork
  std::vector<uint64_t> vals; E *excl = mkConst(1, 1); Model m = s.model; std::vector<Model> ms;
  uint64_t v = evalE(addr.e, m);
  for (;;) {
    vals.push_back(v);
    excl = mkBin(K::And, excl, mkNot(mkBin(K::Eq, addr.e, mkConst(v, 64))));
    if (vals.size() > optConcLimit) engineError(s, "too many values for a symbolic address: " + showE(addr.e));
    Model m2 = s.model; Res r = solve(s.cons, excl, m2); if (r == Res::Unknown) engineError(s, "solver gave no answer");
    if (r == Res::Unsat) break; v = evalE(addr.e, m2);
  }
  bool same = true; Obj *o0 = findObj(s, vals[0] + off);
  for (uint64_t a : vals) { Obj *o = findObj(s, a + off); if (!o || o != o0 || a + off - o->base + n > o->size) same = false; }
  if (!same || vals.size() == 1) { uint64_t a = concretize(s, addr.e) + off; Obj *o = check(s, a, n, false, "read"); return readAt(o, a - o->base, w); }
  E *r = nullptr;
  for (uint64_t a : vals) { E *x = toE(readAt(o0, a + off - o0->base, w), w); r = r ? mkIte(mkBin(K::Eq, addr.e, mkConst(a, 64)), x, r) : x; }
  return fromE(r);
}
static void storeVal(State &s, const Val &addr, uint64_t off, unsigned w, const Val &v) {
  uint64_t a = conc(s, addr) + off; Obj *o = check(s, a, (w + 7) / 8, true, "write"); o = writableObj(s, o); writeAt(o, a - o->base, w, v);
}
static void copyMem(State &s, uint64_t d, uint64_t sr, uint64_t n) {
  if (!n) return;
  Obj *so = check(s, sr, n, false, "read (block copy)"); Obj *dp = check(s, d, n, true, "write (block copy)");
  uint64_t soff = sr - so->base, doff = d - dp->base;
  ObjRef hold(so); Obj *dо = writableObj(s, dp);
  std::vector<uint8_t> tmp(so->d.begin() + soff, so->d.begin() + soff + n); std::vector<E *> ts; 
  if (!so->s.empty()) { ts.assign(so->s.begin() + soff, so->s.begin() + soff + n); bool any = false; for (E *e : ts) if (e) { any = true; break; } if (!any) ts.clear(); }
  memcpy(&dо->d[doff], tmp.data(), n);
  if (!ts.empty()) { if (dо->s.empty()) dо->s.assign(dо->size, nullptr); std::copy(ts.begin(), ts.end(), dо->s.begin() + doff); }
  else if (!dо->s.empty()) std::fill(dо->s.begin() + doff, dо->s.begin() + doff + n, nullptr);
}
static std::string readStr(State &s, uint64_t a) {
  std::string r; for (int i = 0; i < 4096; i++) { Obj *o = check(s, a + i, 1, false, "read"); uint64_t off = a + i - o->base; if (!o->s.empty() && o->s[off]) { r += '?'; continue; } if (!o->d[off]) break; r += (char)o->d[off]; } return r;
}

// ------------------------------------------------------------------ operands
static inline Val get(State &s, Frame &f, const Opnd &o) {
  if (o.slot < 0) { Val v; v.c = o.c; return v; }
  Val &v = f.r[o.slot];
  if (v.e) { uint64_t k; if (known(s, v.e, k)) { Val c; c.c = k; return c; } }
  return v;
}
static void takeEdge(State &s, Frame &f, const Edge &e) {
  if (e.copies.size() == 1) f.r[e.copies[0].first] = get(s, f, e.copies[0].second);
  else if (!e.copies.empty()) { Val tmp[64]; std::vector<Val> big; Val *t = tmp; if (e.copies.size() > 64) { big.resize(e.copies.size()); t = big.data(); }
    for (size_t i = 0; i < e.copies.size(); i++) t[i] = get(s, f, e.copies[i].second);
    for (size_t i = 0; i < e.copies.size(); i++) f.r[e.copies[i].first] = t[i]; }
  f.ip = e.target;
}
static void popFrame(State &s) { for (uint64_t a : s.st.back().allocas) release(s, a); s.st.pop_back(); }
static void pushFrame(State &s, Func *f, const std::vector<Val> &args, const Inst *site) {
  if (!f->lowered) loaderLower(f);
  if (s.st.size() > 400) fail(s, "recursion", "call depth above 400");
  if (!f->execCount++) gUsed.insert(f);
  Frame fr; fr.f = f; fr.r.resize(f->nslots); fr.site = site;
  if (args.size() < f->params.size()) engineError(s, "argument count mismatch calling " + f->name);
  for (size_t i = 0; i < f->params.size(); i++) fr.r[f->params[i]] = args[i];
  if (f->vararg) { size_t k = args.size() - f->params.size(); fr.va = allocate(s, k ? 8 * k : 1, 2, 0xCD); fr.allocas.push_back(fr.va);
    for (size_t i = 0; i < k; i++) { Val v = args[f->params.size() + i]; if (v.e && v.e->w < 64) v = fromE(mkZExt(v.e, 64)); storeVal(s, Val{fr.va + 8 * i, nullptr}, 0, 64, v); } }
  s.st.push_back(std::move(fr));
}
typedef std::vector<Val> Args;
// ------------------------------------------------------------------ the process behind an image
static std::string optServer, optServerEntry; static int gZygote = -1; static pid_t gZygotePid = 0;
static std::vector<std::pair<bool, std::string>> gNative;      // patterns of functions called natively ('!' lines exclude)
static bool rd(int fd, void *p, size_t n) { char *c = (char *)p; while (n) { ssize_t k = read(fd, c, n); if (k <= 0) { if (k < 0 && errno == EINTR) continue; return false; } c += k; n -= k; } return true; }
static bool wr(int fd, const void *p, size_t n) { const char *c = (const char *)p; while (n) { ssize_t k = send(fd, c, n, MSG_NOSIGNAL); if (k <= 0) { if (k < 0 && errno == EINTR) continue; return false; } c += k; n -= k; } return true; }
static bool startServer() {
  if (gZygote >= 0) return true; int sv[2]; if (optServer.empty() || socketpair(AF_UNIX, SOCK_SEQPACKET, 0, sv)) return false;
  gZygotePid = fork(); if (!gZygotePid) { dup2(sv[1], 100); for (int i = 3; i < 100; i++) close(i); int nul = open("/dev/null", O_RDWR); dup2(nul, 0); dup2(nul, 1); if (!getenv("SYM_SERVER_ERR")) dup2(nul, 2); execl(optServer.c_str(), optServer.c_str(), "--serve", optServerEntry.c_str(), (char *)nullptr); _exit(127); }
  close(sv[1]); int big = 1 << 20; setsockopt(sv[0], SOL_SOCKET, SO_SNDBUF, &big, sizeof big); gZygote = sv[0]; fcntl(gZygote, F_SETFD, FD_CLOEXEC); return true;
}
static bool openImage(State &s, Image &im) {
  if (!startServer()) return false; int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) engineError(s, "no socket for an image");
  std::vector<uint64_t> msg = im.inputs; if (msg.empty()) msg.push_back(0);
  struct iovec io{msg.data(), msg.size() * 8}; char cb[CMSG_SPACE(sizeof(int))]; memset(cb, 0, sizeof cb); struct msghdr mh; memset(&mh, 0, sizeof mh); mh.msg_iov = &io; mh.msg_iovlen = 1; mh.msg_control = cb; mh.msg_controllen = sizeof cb;
  struct cmsghdr *cm = CMSG_FIRSTHDR(&mh); cm->cmsg_level = SOL_SOCKET; cm->cmsg_type = SCM_RIGHTS; cm->cmsg_len = CMSG_LEN(sizeof(int)); memcpy(CMSG_DATA(cm), &sv[1], sizeof(int));
  bool ok = sendmsg(gZygote, &mh, MSG_NOSIGNAL) > 0; close(sv[1]); uint64_t root = 0; if (ok) ok = rd(sv[0], &root, 8) && root; if (!ok) { close(sv[0]); return false; }
  if (im.root && im.root != root) engineError(s, "image is not reproducible"); im.fd = sv[0]; im.root = root; im.owner = getpid(); return true;
}
static void needImage(State &s) { Image &im = *s.img; if (im.owner == getpid()) return; if (im.fd >= 0) close(im.fd); im.fd = -1; if (!openImage(s, im)) engineError(s, "the native process for an image is gone");
  for (auto &m : im.log) { uint64_t n; std::vector<uint8_t> d; if (!wr(im.fd, m.data(), m.size()) || !rd(im.fd, &n, 8) || !n) engineError(s, "the native process for an image is gone"); d.resize(n); if (!rd(im.fd, d.data(), n)) engineError(s, "the native process for an image is gone"); }   // so that memory the calls allocated exists again
}
static Obj *nativePage(State &s, uint64_t addr) {
  if (!s.img) return nullptr; uint64_t pg = addr >> PSH; auto g = s.glob.find((1ull << 63) | pg); if (g != s.glob.end()) return g->second.p;
  auto it = s.img->pages.find(pg); if (it != s.img->pages.end()) return it->second.p;
  needImage(s); uint64_t rq[2] = {1, pg << PSH}; uint64_t ok; if (!wr(s.img->fd, rq, 16) || !rd(s.img->fd, &ok, 8)) engineError(s, "the native process for an image ended");
  if (!ok) return nullptr; Obj *o = new Obj(); o->base = pg << PSH; o->size = 1 << PSH; o->kind = 3; o->d.resize(1 << PSH); if (!rd(s.img->fd, o->d.data(), o->size)) engineError(s, "the native process for an image ended"); s.img->pages[pg] = ObjRef(o); return o;
}
static std::string nativeName(State &s, uint64_t a) {
  if (!s.img) return ""; auto it = s.img->names.find(a); if (it != s.img->names.end()) return it->second;
  needImage(s); uint64_t rq[2] = {2, a}, n; if (!wr(s.img->fd, rq, 16) || !rd(s.img->fd, &n, 8)) engineError(s, "the native process for an image ended"); std::string r(n, 0); if (n && !rd(s.img->fd, &r[0], n)) engineError(s, "the native process for an image ended"); return s.img->names[a] = r;
}
static bool globMatch(const char *p, const char *s) { if (!*p) return !*s; if (*p == '*') { while (p[1] == '*') p++; for (;; s++) { if (globMatch(p + 1, s)) return true; if (!*s) return false; } } return *p == *s && globMatch(p + 1, s + 1); }
static bool isNative(Func *f) { if (f->nativeKind < 0) { f->nativeKind = 0; std::string d = demangle(f->name); for (auto &p : gNative) if (globMatch(p.second.c_str(), d.c_str())) f->nativeKind = p.first; } return f->nativeKind > 0; }
// request: 3, name length, sret size, number of arguments, then per argument {kind, value, size}; kind 1 carries bytes
static void nativeCall(State &s, Func *g, Args &a, const Inst *x) {
  needImage(s); std::string &n = g->name; if (a.size() > 6) engineError(s, "native call with more than six arguments: " + n);
  std::vector<uint8_t> m; auto put = [&](uint64_t v) { m.insert(m.end(), (uint8_t *)&v, (uint8_t *)&v + 8); };
  put(3); put(n.size()); m.insert(m.end(), n.begin(), n.end()); put(a.size()); std::vector<std::pair<Obj *, uint64_t>> back;
  for (size_t i = 0; i < a.size(); i++) { uint64_t v = conc(s, a[i]);
    if (v >= (1ull << 40) && v < NATIVE0) { Obj *o = findObj(s, v); if (!o) engineError(s, "native call with a dangling argument: " + n);
      for (E *e : o->s) if (e) { std::string dn = demangle(n); for (uint64_t k = 0; k < o->size; k++) if (!o->s.empty() && o->s[k]) { Val cv; cv.e = o->s[k]; uint64_t c = conc(s, cv); o = writableObj(s, o); writeAt(o, k, 8, Val{c, nullptr}); } break; }
      put(1); put(v - o->base); put(o->size); m.insert(m.end(), o->d.begin(), o->d.end()); back.push_back({o, o->base}); }
    else { put(0); put(v); } }
  std::vector<uint8_t> *ans; auto hit = s.img->calls.find(m);
  if (hit != s.img->calls.end()) ans = &hit->second;
  else { uint64_t an; if (!wr(s.img->fd, m.data(), m.size()) || !rd(s.img->fd, &an, 8) || !an) engineError(s, "native call failed: " + demangle(n)); ans = &s.img->calls[m]; ans->resize(an); if (!rd(s.img->fd, ans->data(), an)) engineError(s, "native call failed: " + demangle(n)); s.img->log.push_back(m); }
  uint64_t r[2]; memcpy(r, ans->data(), 16); size_t at = 16;
  for (auto &b : back) { Obj *o = findObj(s, b.second); uint64_t sc; memcpy(&sc, &(*ans)[at], 8); at += 8; std::vector<uint8_t> d(ans->begin() + at, ans->begin() + at + o->size); at += o->size;
    for (size_t k = 0; k + 8 <= d.size(); k += 8) { uint64_t w; memcpy(&w, &d[k], 8); if (w >= sc && w < sc + d.size()) { w = w - sc + b.second; memcpy(&d[k], &w, 8); } }
    if (d != o->d) { o = writableObj(s, o); o->d = d; } }
  Frame &fr = s.st.back();
  if (x->dst >= 0) { size_t k = x->imm.size(); if (k > 2) engineError(s, "native call with a large result: " + n);
    if (k == 2 && x->imm[0] <= 32 && x->imm[1] <= 32) { fr.r[x->dst] = Val{r[0] & maskw(x->imm[0]), nullptr}; fr.r[x->dst + 1] = Val{r[1] & maskw(x->imm[1]), nullptr}; }
    else for (size_t i = 0; i < k; i++) fr.r[x->dst + i] = Val{r[i] & maskw(x->imm[i]), nullptr}; }
  if (x->invoke) takeEdge(s, fr, fr.f->edges[x->edge]); else fr.ip++;
}

static void setRes(Frame &f, const Inst *x, const Val &v, int k = 0) { if (x->dst >= 0) f.r[x->dst + k] = v; }

// ------------------------------------------------------------------ exceptions
static std::map<uint64_t, uint32_t> gTypeIds;
static uint32_t typeId(uint64_t ti) { auto it = gTypeIds.find(ti); if (it != gTypeIds.end()) return it->second; uint32_t n = gTypeIds.size() + 1; return gTypeIds[ti] = n; }
static std::map<std::string, std::string> gStdBase = {
  {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
  {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"},
  {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}};
static std::string tiName(uint64_t ti) { uint64_t id = ti >> SH; return id < gGlob.size() && gGlob[id] ? gGlob[id]->name : ""; }
static bool typeMatches(State &s, uint64_t thrown, uint64_t want, int depth = 0) {
  if (!want) return true;
  std::string a = tiName(thrown), b = tiName(want);
  if (thrown == want || (!a.empty() && a == b)) return true;
  if (depth > 8 || a.empty()) return false;
  auto it = gStdBase.find(a); 
  if (it != gStdBase.end()) { std::string n = it->second; while (true) { if (n == b) return true; auto j = gStdBase.find(n); if (j == gStdBase.end()) return false; n = j->second; } }
  Obj *o = findObj(s, thrown); if (!o || o->ext || o->size < 16) return false;
  uint64_t vt; memcpy(&vt, &o->d[0], 8); std::string vn = tiName(vt);
  if (vn.find("__si_class_type_info") != std::string::npos && o->size >= 24) { uint64_t base; memcpy(&base, &o->d[16], 8); return typeMatches(s, base, want, depth + 1); }
  if (vn.find("__vmi_class_type_info") != std::string::npos) { uint32_t n; memcpy(&n, &o->d[20], 4); for (uint32_t i = 0; i < n; i++) { uint64_t base; memcpy(&base, &o->d[24 + 16 * i], 8); if (typeMatches(s, base, want, depth + 1)) return true; } }
  return false;
}
static const char *exitHook = "__harness_terminated";
static void unwind(State &s) {
  // s.excObj is in flight; look for an invoke whose landing pad takes it
  uint64_t ti = s.excType[s.excObj];
  // the current frame (top) has already been positioned: its pending instruction is the call that threw
  while (!s.st.empty()) {
    Frame &f = s.st.back();
    const Inst *x = &f.f->code[f.ip];
    if (x->op == Op::Call && x->invoke) {
      const Edge &e = f.f->edges[x->edge2]; const Inst *lp = nullptr;
      for (uint32_t i = e.target; i < f.f->code.size(); i++) if (f.f->code[i].op == Op::LandingPad) { lp = &f.f->code[i]; break; } 
      if (lp) { bool take = lp->neg; uint32_t sel = 0;
        for (size_t i = 0; i < lp->imm.size(); i++) { if (lp->imm2[i] == 1) continue; if (typeMatches(s, ti, lp->imm[i])) { take = true; sel = typeId(lp->imm[i]); break; } }
        if (take) { takeEdge(s, f, e); f.r[lp->dst].c = s.excObj; f.r[lp->dst].e = nullptr; f.r[lp->dst + 1].c = sel; f.r[lp->dst + 1].e = nullptr; return; } }
    }
    popFrame(s);
  }
  std::string n = demangle(tiName(ti)); 
  reportViolation(s, "uncaught", "uncaught exception: " + n, s.model); throw PathEnd();
}

// ------------------------------------------------------------------ builtins
enum BR { B_VAL, B_JUMPED };        // B_JUMPED: control already transferred (exception)
typedef BR (*Builtin)(State &, Args &, Val &res, const Inst *);
static void requireConst(State &s, Val &v) { v.c = conc(s, v); v.e = nullptr; }

static E *bytesEq(State &s, uint64_t a, uint64_t b, uint64_t n) {
  E *r = mkConst(1, 1);
  for (uint64_t i = 0; i < n; i++) { Obj *x = check(s, a + i, 1, false, "read"), *y = check(s, b + i, 1, false, "read"); r = mkBin(K::And, r, mkBin(K::Eq, toE(readAt(x, a + i - x->base, 8), 8), toE(readAt(y, b + i - y->base, 8), 8))); if (r->k == K::Const && !r->v) return r; }
  return r;
}
static void doAssert(State &s, const Val &c, const std::string &label) {
  gAsserts++; gAssertLabels[label]++;
  if (!c.e) { if (!(c.c & 1)) fail(s, "assert", label); return; }
  E *e = c.e; if (e->w != 1) e = mkNot(mkBin(K::Eq, e, mkConst(0, e->w)));
  uint64_t kv; if (known(s, e, kv)) { if (!kv) fail(s, "assert", label); return; }
  Model m2 = s.model; Res r = solve(s.cons, mkNot(e), m2, true);
  if (r == Res::Unknown) engineError(s, "solver gave no answer");
  if (r == Res::Sat) { reportViolation(s, "assert", label, m2); 
    Model m3 = s.model; if (solve(s.cons, e, m3) != Res::Sat) throw PathEnd(); s.model = m3; }
  addCons(s, e);
}
static double asD(uint64_t v, unsigned w); static uint64_t fromD(double d, unsigned w);
#define BI [](State &s, Args &a, Val &res, const Inst *site) -> BR
#define UNUSED (void)s; (void)a; (void)res; (void)site
static std::vector<std::pair<std::string, Builtin>> gB;
static std::unordered_map<std::string, int> gBIdx;
static E *asE(const Val &v, unsigned w) { E *e = toE(v, w); return e->w > w ? mkExtract(e, 0, w) : mkZExt(e, w); }
static void defBuiltins() {
  auto def = [](std::initializer_list<const char *> names, Builtin b) { for (auto n : names) { gBIdx[n] = gB.size(); gB.push_back({n, b}); } };
  def({"malloc", "_Znwm", "_Znam", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "_ZN4llvm15allocate_bufferEmm", "_ZN4llvm11safe_mallocEm", "__cxa_allocate_exception"}, BI { UNUSED; requireConst(s, a[0]); res.c = allocate(s, a[0].c, 1, 0xCD); return B_VAL; });
  def({"calloc", "_ZN4llvm11safe_callocEmm"}, BI { UNUSED; requireConst(s, a[0]); requireConst(s, a[1]); res.c = allocate(s, a[0].c * a[1].c, 1, 0); return B_VAL; });
  def({"realloc", "_ZN4llvm12safe_reallocEPvm"}, BI { UNUSED; requireConst(s, a[0]); requireConst(s, a[1]); uint64_t n = allocate(s, a[1].c, 1, 0xCD); if (a[0].c) { Obj *o = check(s, a[0].c, 1, false, "realloc"); copyMem(s, n, a[0].c, std::min<uint64_t>(o->size, a[1].c)); release(s, a[0].c); } res.c = n; return B_VAL; });
  def({"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZN4llvm17deallocate_bufferEPvmm", "__cxa_free_exception"}, BI { UNUSED; requireConst(s, a[0]);
    if (a[0].c >= NATIVE0) return B_VAL;
    if (a[0].c) { Obj *o = findObj(s, a[0].c); if (!o) fail(s, "memory", "double free or free of an invalid pointer"); if (o->kind != 1 || o->base != a[0].c) fail(s, "memory", "free of a pointer that was not allocated"); release(s, a[0].c); } return B_VAL; });
  def({"memcpy", "memmove", "__memcpy_chk"}, BI { UNUSED; for (int i = 0; i < 3; i++) requireConst(s, a[i]); copyMem(s, a[0].c, a[1].c, a[2].c); res = a[0]; return B_VAL; });
  def({"memset"}, BI { UNUSED; requireConst(s, a[0]); requireConst(s, a[2]); if (a[2].c) { Obj *o = writableObj(s, check(s, a[0].c, a[2].c, true, "write (fill)")); Val b = a[1].e ? fromE(mkExtract(a[1].e, 0, 8)) : Val{a[1].c & 255, nullptr}; for (uint64_t i = 0; i < a[2].c; i++) writeAt(o, a[0].c - o->base + i, 8, b); } res = a[0]; return B_VAL; });
  def({"memcmp"}, BI { UNUSED; for (int i = 0; i < 3; i++) requireConst(s, a[i]); E *r = mkConst(0, 32);
    for (uint64_t i = a[2].c; i-- > 0;) { Obj *x = check(s, a[0].c + i, 1, false, "read"), *y = check(s, a[1].c + i, 1, false, "read"); E *p = toE(readAt(x, a[0].c + i - x->base, 8), 8), *q = toE(readAt(y, a[1].c + i - y->base, 8), 8);
      r = mkIte(mkBin(K::Eq, p, q), r, mkIte(mkBin(K::Ult, p, q), mkConst((uint64_t)-1, 32), mkConst(1, 32))); }
    res = fromE(r); return B_VAL; });
  def({"bcmp"}, BI { UNUSED; for (int i = 0; i < 3; i++) requireConst(s, a[i]); res = fromE(mkZExt(mkNot(bytesEq(s, a[0].c, a[1].c, a[2].c)), 32)); return B_VAL; });
  def({"__cxa_throw"}, BI { UNUSED; requireConst(s, a[0]); requireConst(s, a[1]); s.excObj = a[0].c; s.excType[a[0].c] = a[1].c; unwind(s); return B_JUMPED; });
  def({"__cxa_rethrow"}, BI { UNUSED; if (s.caught.empty()) fail(s, "abort", "rethrow without an exception"); s.excObj = s.caught.back(); unwind(s); return B_JUMPED; });
  def({"__cxa_begin_catch"}, BI { UNUSED; requireConst(s, a[0]); s.caught.push_back(a[0].c); res = a[0]; return B_VAL; });
  def({"__cxa_get_exception_ptr"}, BI { UNUSED; res = a[0]; return B_VAL; });
  def({"__cxa_end_catch"}, BI { UNUSED; if (!s.caught.empty()) s.caught.pop_back(); return B_VAL; });
  def({"__cxa_guard_acquire"}, BI { UNUSED; requireConst(s, a[0]); Val v = loadVal(s, a[0], 0, 8); res.c = v.c == 0; return B_VAL; });
  def({"__cxa_guard_release"}, BI { UNUSED; requireConst(s, a[0]); storeVal(s, a[0], 0, 8, Val{1, nullptr}); return B_VAL; });
  def({"__cxa_guard_abort"}, BI { UNUSED; return B_VAL; });
  def({"__cxa_atexit", "atexit", "__cxa_thread_atexit", "__cxa_throw_bad_array_new_length"}, BI { UNUSED; return B_VAL; });
  def({"abort", "_ZSt9terminatev", "__cxa_pure_virtual", "__cxa_call_unexpected", "__cxa_deleted_virtual"}, BI { UNUSED; fail(s, "abort", "program aborts (abort/terminate/pure virtual call)"); return B_VAL; });
  def({"__assert_fail"}, BI { UNUSED; std::string m; requireConst(s, a[0]); m = readStr(s, a[0].c); fail(s, "abort", "assertion failed in the code: " + m); return B_VAL; });
  def({"_ZN4llvm25llvm_unreachable_internalEPKcS1_j"}, BI { UNUSED; fail(s, "abort", "llvm_unreachable reached"); return B_VAL; });
  // ---- floating point library calls, on concrete arguments
#define M1(N) def({#N}, BI { UNUSED; requireConst(s, a[0]); res.c = fromD(N(asD(a[0].c, 64)), 64); return B_VAL; }); def({#N "f"}, BI { UNUSED; requireConst(s, a[0]); res.c = fromD(N##f((float)asD(a[0].c, 32)), 32); return B_VAL; });
  M1(sqrt) M1(floor) M1(ceil) M1(round) M1(trunc) M1(log) M1(log2) M1(log10) M1(exp) M1(cbrt) M1(sin) M1(cos)
  def({"pow"}, BI { UNUSED; requireConst(s, a[0]); requireConst(s, a[1]); res.c = fromD(pow(asD(a[0].c, 64), asD(a[1].c, 64)), 64); return B_VAL; });
  def({"fmod"}, BI { UNUSED; requireConst(s, a[0]); requireConst(s, a[1]); res.c = fromD(fmod(asD(a[0].c, 64), asD(a[1].c, 64)), 64); return B_VAL; });
  def({"lround", "llround"}, BI { UNUSED; requireConst(s, a[0]); res.c = (uint64_t)lround(asD(a[0].c, 64)); return B_VAL; });
  // the value's decimal digits: sym_double(out, cap, conversion, flags (1 '#', 2 '+'), precision (-1: none), value)
  def({"sym_double"}, BI { UNUSED; for (int i = 0; i < 6; i++) requireConst(s, a[i]); std::string f = "%"; if (a[3].c & 1) f += '#'; if (a[3].c & 2) f += '+'; char b[512]; int n; if ((int)a[4].c >= 0) { f += ".*"; f += (char)a[2].c; n = snprintf(b, sizeof b, f.c_str(), (int)a[4].c, asD(a[5].c, 64)); } else { f += (char)a[2].c; n = snprintf(b, sizeof b, f.c_str(), asD(a[5].c, 64)); }
    if (n >= (int)a[1].c || n >= (int)sizeof b) engineError(s, "a long real number"); for (int i = 0; i <= n; i++) storeVal(s, a[0], i, 8, Val{(uint8_t)b[i], nullptr}); res.c = (uint64_t)n; return B_VAL; });
  def({"pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock"}, BI { UNUSED; res.c = 0; return B_VAL; });
  // ---- harness interface
  def({"sym_end_path"}, BI { UNUSED; gPaths++; if (gSamples.size() < optSamples) gSamples.push_back(inputsJson(s, s.model)); throw PathEnd(); return B_VAL; });
  def({"sym_u64"}, BI { UNUSED; requireConst(s, a[0]); requireConst(s, a[1]); unsigned w = a[1].c; std::string n = readStr(s, a[0].c) + "#" + std::to_string(s.inputs.size()); if (s.inputs.size() > 0) {} E *v = mkVar(n + (w == 64 ? "" : "." + std::to_string(w)), w); s.inputs.push_back(v); if (s.model.size() <= v->v) s.model.resize(v->v + 1); res = fromE(mkZExt(v, 64)); return B_VAL; });
  def({"sym_bytes"}, BI { UNUSED; for (int i = 0; i < 3; i++) requireConst(s, a[i]); std::string n = readStr(s, a[2].c); if (!a[1].c) return B_VAL; Obj *o = writableObj(s, check(s, a[0].c, a[1].c, true, "write"));
    for (uint64_t i = 0; i < a[1].c; i++) { E *v = mkVar(n + "#" + std::to_string(s.inputs.size()) + ".8", 8); s.inputs.push_back(v); if (s.model.size() <= v->v) s.model.resize(v->v + 1); writeAt(o, a[0].c - o->base + i, 8, fromE(v)); } return B_VAL; });
  def({"sym_assume"}, BI { UNUSED; E *e = asE(a[0], 1); uint64_t kv; if (known(s, e, kv)) { if (!kv) { gInfeasible++; throw PathEnd(); } return B_VAL; } Model m = s.model; Res r = solve(s.cons, e, m); if (r == Res::Unknown) engineError(s, "solver gave no answer"); if (r == Res::Unsat) { gInfeasible++; throw PathEnd(); } s.model = m; addCons(s, e); return B_VAL; });
  def({"sym_assert"}, BI { UNUSED; requireConst(s, a[1]); doAssert(s, a[0].e && a[0].e->w > 1 ? fromE(mkExtract(a[0].e, 0, 1)) : a[0], readStr(s, a[1].c)); return B_VAL; });
  def({"sym_cover"}, BI { UNUSED; requireConst(s, a[0]); std::string l = readStr(s, a[0].c); auto &c = gCovers[l]; if (!c.first++) c.second = inputsJson(s, s.model); return B_VAL; });
  def({"sym_observe"}, BI { UNUSED; requireConst(s, a[0]); s.obs.push_back({readStr(s, a[0].c), a[1]}); return B_VAL; });
  def({"sym_concretize"}, BI { UNUSED; requireConst(s, a[0]); res = a[0]; return B_VAL; });
  def({"sym_is_symbolic"}, BI { UNUSED; res.c = a[0].e != nullptr; return B_VAL; });
  def({"sym_and"}, BI { UNUSED; res = fromE(mkBin(K::And, asE(a[0], 1), asE(a[1], 1))); return B_VAL; });
  def({"sym_or"}, BI { UNUSED; res = fromE(mkBin(K::Or, asE(a[0], 1), asE(a[1], 1))); return B_VAL; });
  def({"sym_not"}, BI { UNUSED; res = fromE(mkNot(asE(a[0], 1))); return B_VAL; });
  def({"sym_ite"}, BI { UNUSED; res = fromE(mkIte(asE(a[0], 1), asE(a[1], 64), asE(a[2], 64))); return B_VAL; });
  def({"sym_eq_bytes"}, BI { UNUSED; for (int i = 0; i < 3; i++) requireConst(s, a[i]); res = fromE(bytesEq(s, a[0].c, a[1].c, a[2].c)); return B_VAL; });
  def({"sym_image"}, BI { UNUSED; if (s.img) engineError(s, "second image on one path"); std::shared_ptr<Image> im(new Image()); for (E *e : s.inputs) im->inputs.push_back(e->v < s.model.size() ? s.model[e->v] & maskw(e->w) : 0); if (!openImage(s, *im)) engineError(s, "no native image: " + inputsJson(s, s.model)); s.img = im; res.c = im->root; return B_VAL; });
  def({"sym_print"}, BI { UNUSED; requireConst(s, a[0]); std::string m = readStr(s, a[0].c); fprintf(stderr, "PRINT %s = %s\n", m.c_str(), a[1].e ? showE(a[1].e).c_str() : std::to_string(a[1].c).c_str()); return B_VAL; });
  def({"sym_note"}, BI { UNUSED; requireConst(s, a[0]); requireConst(s, a[1]); std::string m; for (uint64_t i = 0; i < a[1].c && i < 400; i++) { Obj *o = check(s, a[0].c + i, 1, false, "read"); Val v = readAt(o, a[0].c + i - o->base, 8); m += v.e ? '?' : (char)v.c; } fprintf(stderr, "NOTE %s\n", m.c_str()); return B_VAL; });
  def({"sym_where"}, BI { UNUSED; fprintf(stderr, "WHERE %s\n", where(s).c_str()); return B_VAL; });
  def({"sym_unmodelled"}, BI { UNUSED; requireConst(s, a[0]); engineError(s, "unmodelled: " + readStr(s, a[0].c)); return B_VAL; });
}

// ------------------------------------------------------------------ floating point (concrete only)
static double asD(uint64_t v, unsigned w) { if (w == 32) { float f; uint32_t u = v; memcpy(&f, &u, 4); return f; } double d; memcpy(&d, &v, 8); return d; }
static uint64_t fromD(double d, unsigned w) { if (w == 32) { float f = d; uint32_t u; memcpy(&u, &f, 4); return u; } uint64_t u; memcpy(&u, &d, 8); return u; }

static void intrinsicOp(State &s, Frame &f, const Inst &x) {
  std::vector<Val> a; for (auto &o : x.ops) a.push_back(get(s, f, o));
  unsigned w = x.w2; auto e = [&](int i) { return toE(a[i], w); }; Val r;
  auto put = [&](E *q) { setRes(f, &x, fromE(q)); };
  auto minmax = [&](K k, bool mx) { E *p = e(0), *q = e(1); E *lt = mkBin(k, p, q); put(mx ? mkIte(lt, q, p) : mkIte(lt, p, q)); };
  auto ov = [&](E *v, E *o) { setRes(f, &x, fromE(v), 0); setRes(f, &x, fromE(o), 1); };
  switch ((Intr)x.sub) {
  case Intr::UMin: minmax(K::Ult, false); return; case Intr::UMax: minmax(K::Ult, true); return;
  case Intr::SMin: minmax(K::Slt, false); return; case Intr::SMax: minmax(K::Slt, true); return;
  case Intr::Abs: put(mkIte(mkBin(K::Slt, e(0), mkConst(0, w)), mkBin(K::Sub, mkConst(0, w), e(0)), e(0))); return;
  case Intr::CtPop: { E *t = mkConst(0, w); for (unsigned i = 0; i < w; i++) t = mkBin(K::Add, t, mkZExt(mkExtract(e(0), i, 1), w)); put(t); return; }
  case Intr::CtLz: { E *t = mkConst(w, w); for (unsigned i = 0; i < w; i++) t = mkIte(mkExtract(e(0), i, 1), mkConst(w - 1 - i, w), t); put(t); return; }
  case Intr::CtTz: { E *t = mkConst(w, w); for (unsigned i = w; i-- > 0;) t = mkIte(mkExtract(e(0), i, 1), mkConst(i, w), t); put(t); return; }
  case Intr::BSwap: { E *t = nullptr; for (unsigned i = 0; i < w; i += 8) { E *b = mkExtract(e(0), i, 8); t = t ? mkConcat(t, b) : b; } put(t); return; }
  case Intr::BitReverse: { E *t = nullptr; for (unsigned i = 0; i < w; i++) { E *b = mkExtract(e(0), i, 1); t = t ? mkConcat(t, b) : b; } put(t); return; }
  case Intr::FShl: case Intr::FShr: { uint64_t sh = conc(s, a[2]) % w; E *hi = e(0), *lo = e(1); if ((Intr)x.sub == Intr::FShl) put(sh == 0 ? hi : mkBin(K::Or, mkBin(K::Shl, hi, mkConst(sh, w)), mkBin(K::LShr, lo, mkConst(w - sh, w)))); else put(sh == 0 ? lo : mkBin(K::Or, mkBin(K::Shl, hi, mkConst(w - sh, w)), mkBin(K::LShr, lo, mkConst(sh, w)))); return; }
  case Intr::UAddO: { E *v = mkBin(K::Add, e(0), e(1)); ov(v, mkBin(K::Ult, v, e(0))); return; }
  case Intr::USubO: ov(mkBin(K::Sub, e(0), e(1)), mkBin(K::Ult, e(0), e(1))); return;
  case Intr::UMulO: { if (a[0].e || a[1].e) { if (w > 32) { E *v = mkBin(K::Mul, e(0), e(1)); E *z = mkBin(K::Eq, e(0), mkConst(0, w)); E *o = mkBin(K::And, mkNot(z), mkNot(mkBin(K::Eq, mkBin(K::UDiv, v, e(0)), e(1)))); ov(v, o); return; }
      E *v = mkBin(K::Mul, mkZExt(e(0), 2 * w), mkZExt(e(1), 2 * w)); ov(mkExtract(v, 0, w), mkNot(mkBin(K::Eq, mkExtract(v, w, w), mkConst(0, w)))); return; }
    unsigned __int128 p = (unsigned __int128)a[0].c * a[1].c; ov(mkConst((uint64_t)p, w), mkConst(p > maskw(w), 1)); return; }
  case Intr::SAddO: { E *v = mkBin(K::Add, e(0), e(1)); E *sa = mkExtract(e(0), w - 1, 1), *sb = mkExtract(e(1), w - 1, 1), *sv = mkExtract(v, w - 1, 1); ov(v, mkBin(K::And, mkBin(K::Eq, sa, sb), mkNot(mkBin(K::Eq, sa, sv)))); return; }
  case Intr::SSubO: { E *v = mkBin(K::Sub, e(0), e(1)); E *sa = mkExtract(e(0), w - 1, 1), *sb = mkExtract(e(1), w - 1, 1), *sv = mkExtract(v, w - 1, 1); ov(v, mkBin(K::And, mkNot(mkBin(K::Eq, sa, sb)), mkNot(mkBin(K::Eq, sa, sv)))); return; }
  case Intr::SMulO: { if (w <= 32) { E *v = mkBin(K::Mul, mkSExt(e(0), 2 * w), mkSExt(e(1), 2 * w)); E *lo = mkExtract(v, 0, w); ov(lo, mkNot(mkBin(K::Eq, mkSExt(lo, 2 * w), v))); return; }
    if (a[0].e || a[1].e) engineError(s, "symbolic 64-bit signed multiply with overflow"); int64_t rr; bool o = __builtin_mul_overflow((int64_t)a[0].c, (int64_t)a[1].c, &rr); ov(mkConst(rr, w), mkConst(o, 1)); return; }
  case Intr::USubSat: put(mkIte(mkBin(K::Ult, e(0), e(1)), mkConst(0, w), mkBin(K::Sub, e(0), e(1)))); return;
  case Intr::UAddSat: { E *v = mkBin(K::Add, e(0), e(1)); put(mkIte(mkBin(K::Ult, v, e(0)), mkConst(~0ull, w), v)); return; }
  case Intr::SSubSat: case Intr::SAddSat: engineError(s, "saturating signed arithmetic"); return;
  case Intr::TypeId: r.c = typeId(conc(s, a[0])); setRes(f, &x, r); return;
  case Intr::Trap: fail(s, "abort", "trap instruction (undefined behaviour)"); return;
  case Intr::StackSave: setRes(f, &x, r); return;
  case Intr::VaStart: { uint64_t p = conc(s, a[0]); uint64_t va = f.va;      // everything lies in the overflow area of the va_list
    storeVal(s, Val{p, nullptr}, 0, 32, Val{48, nullptr}); storeVal(s, Val{p, nullptr}, 4, 32, Val{304, nullptr}); storeVal(s, Val{p, nullptr}, 8, 64, Val{va, nullptr}); storeVal(s, Val{p, nullptr}, 16, 64, Val{0, nullptr}); return; }
  case Intr::VaCopy: copyMem(s, conc(s, a[0]), conc(s, a[1]), 24); return;
  case Intr::ObjectSize: r.c = ~0ull; setRes(f, &x, r); return;
  case Intr::IsConstant: setRes(f, &x, r); return;
  case Intr::FFloor: case Intr::FCeil: case Intr::FTrunc: case Intr::FRound: case Intr::FSqrt: { double d = asD(conc(s, a[0]), w); switch ((Intr)x.sub) { case Intr::FFloor: d = floor(d); break; case Intr::FCeil: d = ceil(d); break; case Intr::FTrunc: d = trunc(d); break; case Intr::FRound: d = round(d); break; default: d = w == 32 ? sqrtf((float)d) : sqrt(d); } r.c = fromD(d, w); setRes(f, &x, r); return; }
  case Intr::FMulAdd: { double p = asD(conc(s, a[0]), w), q = asD(conc(s, a[1]), w), t = asD(conc(s, a[2]), w); double m = w == 32 ? (double)((float)p * (float)q) : p * q; r.c = fromD(w == 32 ? (double)((float)m + (float)t) : m + t, w); setRes(f, &x, r); return; }
  case Intr::FMin: case Intr::FMax: { double p = asD(conc(s, a[0]), w), q = asD(conc(s, a[1]), w); r.c = fromD((Intr)x.sub == Intr::FMin ? fmin(p, q) : fmax(p, q), w); setRes(f, &x, r); return; }
  case Intr::FAbs: if (a[0].e) engineError(s, "symbolic floating point"); r.c = fromD(fabs(asD(a[0].c, w)), w); setRes(f, &x, r); return;
  }
}

// ------------------------------------------------------------------ one step
static std::set<std::pair<const char *, unsigned>> gLines;

static void doCall(State &s, Frame &f, const Inst *x) {
  Func *g = x->callee; size_t i0 = 0;
  if (!g) { Val t = get(s, f, x->ops[0]); uint64_t a = conc(s, t); g = a >= NATIVE0 ? nullptr : funcAt(a); i0 = 1; if (!g && a >= NATIVE0) { std::string n = nativeName(s, a); bool anon = n.empty() || n.compare(0, 7, "inside ") == 0; if (anon) { char b[32]; snprintf(b, 32, "@%llx", (unsigned long long)a); n = b; } g = loaderFuncAny(n); if (anon) g->nativeKind = 1; if (!g) engineError(s, "call of unnamed library code " + n); } if (!g) fail(s, "memory", a < 0x10000 ? "call through a null function pointer" : "call through an invalid function pointer"); }
  Args args; args.reserve(x->ops.size());
  for (size_t i = i0; i < x->ops.size(); i++) {
    Val v = get(s, f, x->ops[i]);
    if (x->imm2[i - i0]) { uint64_t src = conc(s, v); uint64_t n = x->imm2[i - i0]; uint64_t c = allocate(s, n, 2, 0xCD); copyMem(s, c, src, n); f.allocas.push_back(c); v = Val{c, nullptr}; }
    args.push_back(v);
  }
  if (g->builtin >= 0) {
    if (!g->execCount++) gUsed.insert(g);
    Val res; BR b = gB[g->builtin].second(s, args, res, x);
    if (b == B_JUMPED) return;
    Frame &fr = s.st.back();
    if (x->dst >= 0 && !x->imm.empty()) { if (res.e && res.e->w != x->imm[0]) res = fromE(res.e->w > x->imm[0] ? mkExtract(res.e, 0, x->imm[0]) : mkZExt(res.e, x->imm[0])); else if (!res.e) res.c &= maskw(x->imm[0]); fr.r[x->dst] = res; }
    if (x->invoke) takeEdge(s, fr, fr.f->edges[x->edge]); else fr.ip++;
    return;
  }
  if (!g->llvm && s.img && isNative(g)) { if (!g->execCount++) gUsed.insert(g); nativeCall(s, g, args, x); return; }
  if (!g->llvm) engineError(s, "call of unmodelled external function " + demangle(g->name) + " [" + g->name + "]");
  pushFrame(s, g, args, x);
}

static void doSwitch(State &s, Frame &f, const Inst *x) {
  Val v = get(s, f, x->ops[0]);
  if (!v.e) { int e = x->edge; for (size_t i = 0; i < x->imm.size(); i++) if (x->imm[i] == v.c) { e = x->imm2[i]; break; } takeEdge(s, f, f.f->edges[e]); return; }
  // find the feasible destinations: first a few values, then case by case
  E *c = v.e; std::vector<std::pair<int, E *>> dest; std::map<int, E *> byEdge; E *any = mkConst(0, 1);
  for (size_t i = 0; i < x->imm.size(); i++) { E *q = mkBin(K::Eq, c, mkConst(x->imm[i], x->w)); any = mkBin(K::Or, any, q); if (q->k == K::Const && !q->v) continue; E *&b = byEdge[x->imm2[i]]; b = b ? mkBin(K::Or, b, q) : q; }
  for (auto &p : byEdge) if (p.first != x->edge) dest.push_back(p);
  { E *d = mkNot(any); if (byEdge.count(x->edge)) d = mkBin(K::Or, d, byEdge[x->edge]); dest.push_back({x->edge, d}); }
  // peel off feasible destinations using models
  std::vector<std::pair<int, Model>> feas; std::vector<E *> conds; E *excl = mkConst(1, 1); Model m = s.model;
  for (;;) {
    evalNewStamp(); int hit = -1; for (size_t i = 0; i < dest.size(); i++) { uint64_t t = evalE(dest[i].second, m); if (t) { hit = i; break; } }
    if (hit < 0) engineError(s, "switch without a destination");
    feas.push_back({dest[hit].first, m}); conds.push_back(dest[hit].second);
    excl = mkBin(K::And, excl, mkNot(dest[hit].second));
    Model m2 = s.model; Res r = solve(s.cons, excl, m2); if (r == Res::Unknown) engineError(s, "solver gave no answer");
    if (r == Res::Unsat) break; m = m2;
  }
  for (size_t i = 1; i < feas.size(); i++) { State *n = cloneState(s); n->model = feas[i].second; addCons(*n, conds[i]); Frame &nf = n->st.back(); takeEdge(*n, nf, nf.f->edges[feas[i].first]); gWork.push_back(n); }
  if (feas.size() > 1) addCons(s, conds[0]);
  takeEdge(s, f, f.f->edges[feas[0].first]);
}

static void step(State &s) {
  Frame &f = s.st.back();
  const Inst *x = &f.f->code[f.ip];
  s.steps++; gSteps++;
  if (s.steps > optMaxSteps) fail(s, "steps", "no end within " + std::to_string(optMaxSteps) + " instructions on one path");
  if (optTrace) fprintf(stderr, "  [%zu] %s ip=%u op=%d line=%u\n", s.st.size(), demangle(f.f->name).substr(0, 80).c_str(), f.ip, (int)x->op, x->line);
  switch (x->op) {
  case Op::Bin: {
    Val a = get(s, f, x->ops[0]), b = get(s, f, x->ops[1]); K k = (K)x->sub; Val r;
    if (!a.e && !b.e) { if ((k == K::UDiv || k == K::SDiv || k == K::URem || k == K::SRem) && !b.c) fail(s, "arith", "division by zero"); r.c = evalBin(k, a.c, b.c, x->w); }
    else {
      if ((k == K::UDiv || k == K::SDiv || k == K::URem || k == K::SRem) && b.e) { bool o; State *os; if (decide(s, mkBin(K::Eq, b.e, mkConst(0, x->w)), &o, &os)) { if (o) gWork.push_back(os); fail(s, "arith", "division by zero"); } if (o) gWork.push_back(os); }
      r = fromE(mkBin(k, toE(a, x->w), toE(b, x->w))); }
    f.r[x->dst] = r; f.ip++; return; }
  case Op::ICmp: {
    Val a = get(s, f, x->ops[0]), b = get(s, f, x->ops[1]); Val r;
    if (!a.e && !b.e) r.c = evalBin((K)x->sub, a.c, b.c, x->w2) ^ (x->neg ? 1 : 0);
    else { E *e = mkBin((K)x->sub, toE(a, x->w2), toE(b, x->w2)); if (x->neg) e = mkNot(e); r = fromE(e); }
    f.r[x->dst] = r; f.ip++; return; }
  case Op::Select: {
    Val c = get(s, f, x->ops[0]); Val r;
    if (!c.e) r = get(s, f, x->ops[c.c & 1 ? 1 : 2]);
    else r = fromE(mkIte(c.e, toE(get(s, f, x->ops[1]), x->w), toE(get(s, f, x->ops[2]), x->w)));
    f.r[x->dst] = r; f.ip++; return; }
  case Op::ZExt: { Val a = get(s, f, x->ops[0]); f.r[x->dst] = a.e ? fromE(mkZExt(a.e, x->w)) : Val{a.c, nullptr}; f.ip++; return; }
  case Op::SExt: { Val a = get(s, f, x->ops[0]); f.r[x->dst] = a.e ? fromE(mkSExt(a.e, x->w)) : Val{(uint64_t)sx(a.c, x->w2) & maskw(x->w), nullptr}; f.ip++; return; }
  case Op::Trunc: { Val a = get(s, f, x->ops[0]); f.r[x->dst] = a.e ? fromE(mkExtract(a.e, 0, x->w)) : Val{a.c & maskw(x->w), nullptr}; f.ip++; return; }
  case Op::Copy: { f.r[x->dst] = get(s, f, x->ops[0]); f.ip++; return; }
  case Op::FBin: { Val a = get(s, f, x->ops[0]), b = get(s, f, x->ops[1]); if (a.e || b.e) engineError(s, "symbolic floating point"); double p = asD(a.c, x->w), q = asD(b.c, x->w), r = x->sub == 0 ? p + q : x->sub == 1 ? p - q : x->sub == 2 ? p * q : x->sub == 3 ? p / q : fmod(p, q); if (x->w == 32) r = x->sub == 0 ? (float)p + (float)q : x->sub == 1 ? (float)p - (float)q : x->sub == 2 ? (float)p * (float)q : x->sub == 3 ? (float)p / (float)q : r; f.r[x->dst] = Val{fromD(r, x->w), nullptr}; f.ip++; return; }
  case Op::FNeg: { Val a = get(s, f, x->ops[0]); if (a.e) engineError(s, "symbolic floating point"); f.r[x->dst] = Val{fromD(-asD(a.c, x->w), x->w), nullptr}; f.ip++; return; }
  case Op::FCmp: { Val a = get(s, f, x->ops[0]), b = get(s, f, x->ops[1]); if (a.e || b.e) engineError(s, "symbolic floating point"); double p = asD(a.c, x->w2), q = asD(b.c, x->w2); bool un = std::isnan(p) || std::isnan(q); unsigned pr = x->sub; bool r = (un && (pr & 8)) || (!un && (((pr & 1) && p == q) || ((pr & 2) && p > q) || ((pr & 4) && p < q))); f.r[x->dst] = Val{r, nullptr}; f.ip++; return; }
  case Op::SIToFP: { Val a = get(s, f, x->ops[0]); if (a.e) a.c = concretize(s, a.e); f.r[x->dst] = Val{fromD((double)sx(a.c, x->w2), x->w), nullptr}; f.ip++; return; }
  case Op::UIToFP: { Val a = get(s, f, x->ops[0]); if (a.e) a.c = concretize(s, a.e); f.r[x->dst] = Val{fromD((double)a.c, x->w), nullptr}; f.ip++; return; }
  case Op::FPToSI: { Val a = get(s, f, x->ops[0]); if (a.e) engineError(s, "symbolic floating point"); f.r[x->dst] = Val{(uint64_t)(int64_t)asD(a.c, x->w2) & maskw(x->w), nullptr}; f.ip++; return; }
  case Op::FPToUI: { Val a = get(s, f, x->ops[0]); if (a.e) engineError(s, "symbolic floating point"); f.r[x->dst] = Val{(uint64_t)asD(a.c, x->w2) & maskw(x->w), nullptr}; f.ip++; return; }
  case Op::FPCast: { Val a = get(s, f, x->ops[0]); if (a.e) engineError(s, "symbolic floating point"); f.r[x->dst] = Val{fromD(asD(a.c, x->w2), x->w), nullptr}; f.ip++; return; }
  case Op::Load: { Val a = get(s, f, x->ops[0]); Val r = loadVal(s, a, x->imm[0], x->w); f.r[x->dst] = r; f.ip++; return; }
  case Op::Store: { Val v = get(s, f, x->ops[0]), a = get(s, f, x->ops[1]); storeVal(s, a, x->imm[0], x->w, v); f.ip++; return; }
  case Op::Alloca: { uint64_t n = conc(s, get(s, f, x->ops[0])) * x->imm[0]; uint64_t a = allocate(s, n, 2, 0xCD); f.allocas.push_back(a); f.r[x->dst] = Val{a, nullptr}; f.ip++; return; }
  case Op::Gep: {
    Val b = get(s, f, x->ops[0]); E *e = b.e; uint64_t c = (b.e ? 0 : b.c) + x->imm[0];
    for (size_t i = 1; i < x->ops.size(); i++) { Val v = get(s, f, x->ops[i]); if (!v.e) c += (uint64_t)sx(v.c, x->imm2[i]) * x->imm[i]; else { E *t = mkBin(K::Mul, mkSExt(v.e, 64), mkConst(x->imm[i], 64)); e = e ? mkBin(K::Add, e, t) : t; } }
    f.r[x->dst] = e ? fromE(mkBin(K::Add, e, mkConst(c, 64))) : Val{c, nullptr}; f.ip++; return; }
  case Op::Call: doCall(s, f, x); return;
  case Op::Ret: {
    std::vector<Val> rv; for (auto &o : x->ops) rv.push_back(get(s, f, o));
    const Inst *site = f.site; popFrame(s);
    if (s.st.empty()) { gPaths++;
      static uint64_t rng = 88172645463325252ull; rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
      if (gSamples.size() < optSamples || rng % gPaths < optSamples) { std::string o = "["; for (size_t i = 0; i < s.obs.size(); i++) o += (i ? "," : "") + std::string("[") + jsonStr(s.obs[i].first) + "," + std::to_string(s.obs[i].second.e ? evalE(s.obs[i].second.e, s.model) : s.obs[i].second.c) + "]"; std::string smp = ("{\"inputs\":" + inputsJson(s, s.model) + ",\"observed\":" + o + "]}"); if (gSamples.size() < optSamples) gSamples.push_back(smp); else if (optSamples) gSamples[(rng >> 32) % optSamples] = smp; }
      throw PathEnd(); }
    Frame &c = s.st.back(); if (site->dst >= 0) for (size_t i = 0; i < rv.size(); i++) c.r[site->dst + i] = rv[i];
    if (site->invoke) takeEdge(s, c, c.f->edges[site->edge]); else c.ip++;
    return; }
  case Op::Br: takeEdge(s, f, f.f->edges[x->edge]); return;
  case Op::CondBr: {
    Val c = get(s, f, x->ops[0]);
    if (!c.e) { takeEdge(s, f, f.f->edges[c.c & 1 ? x->edge : x->edge2]); return; }
    bool o; State *os; bool v = decide(s, c.e, &o, &os);
    if (o) { Frame &nf = os->st.back(); takeEdge(*os, nf, nf.f->edges[v ? x->edge2 : x->edge]); gWork.push_back(os); }
    Frame &f2 = s.st.back(); takeEdge(s, f2, f2.f->edges[v ? x->edge : x->edge2]); return; }
  case Op::Switch: doSwitch(s, f, x); return;
  case Op::Unreachable: fail(s, "abort", "unreachable code reached"); return;
  case Op::LandingPad: f.ip++; return;
  case Op::Resume: { uint64_t ob = conc(s, get(s, f, x->ops[0])); s.excObj = ob; popFrame(s); if (s.st.empty()) { reportViolation(s, "uncaught", "uncaught exception: " + demangle(tiName(s.excType[ob])), s.model); throw PathEnd(); } unwind(s); return; }
  case Op::MemCpy: { uint64_t d = conc(s, get(s, f, x->ops[0])), r = conc(s, get(s, f, x->ops[1])), n = conc(s, get(s, f, x->ops[2])); copyMem(s, d, r, n); s.st.back().ip++; return; }
  case Op::MemSet: { uint64_t d = conc(s, get(s, f, x->ops[0])), n = conc(s, get(s, f, x->ops[2])); Val b = get(s, f, x->ops[1]); if (n) { Obj *o = writableObj(s, check(s, d, n, true, "write (fill)")); 
      if (!b.e) { memset(&o->d[d - o->base], (int)b.c, n); if (!o->s.empty()) std::fill(o->s.begin() + (d - o->base), o->s.begin() + (d - o->base) + n, nullptr); }
      else for (uint64_t i = 0; i < n; i++) writeAt(o, d - o->base + i, 8, b); } f.ip++; return; }
  case Op::Intrinsic: intrinsicOp(s, f, *x); s.st.back().ip++; return;
  case Op::AtomicRMW: { Val p = get(s, f, x->ops[0]), v = get(s, f, x->ops[1]); Val old = loadVal(s, p, 0, x->w); Val nv = x->sub == 255 ? v : fromE(mkBin((K)x->sub, toE(old, x->w), toE(v, x->w))); storeVal(s, p, 0, x->w, nv); f.r[x->dst] = old; f.ip++; return; }
  case Op::CmpXchg: { Val p = get(s, f, x->ops[0]), e = get(s, f, x->ops[1]), n = get(s, f, x->ops[2]); Val old = loadVal(s, p, 0, x->w); E *eq = mkBin(K::Eq, toE(old, x->w), toE(e, x->w)); uint64_t q = eq->k == K::Const ? eq->v : concretize(s, eq); if (q) storeVal(s, p, 0, x->w, n); f.r[x->dst] = old; f.r[x->dst + 1] = Val{q, nullptr}; f.ip++; return; }
  case Op::Nop: f.ip++; return;
  case Op::Unsupported: engineError(s, std::string("unsupported ") + x->file); return;
  }
}

static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - gT0).count(); }
static bool gTimeout = false;
static void markLine(const Inst *x) { if (x->file) gLines.insert({x->file, x->line}); }

static void runState(State *s) {
  cur = s;
  try {
    Func *lf = nullptr; uint32_t lip = ~0u; (void)lip; (void)lf;
    for (uint64_t n = 0;; n++) {
      Frame &f = s->st.back();
      const Inst *x = &f.f->code[f.ip];
      if (x->line && !x->seen) { x->seen = true; if (f.f->file.find("/oclint-") != std::string::npos) markLine(x); }
      step(*s);
      if ((n & 0x3fff) == 0 && elapsed() > optMaxTime) { gTimeout = true; break; }
    }
  } catch (PathEnd &) {}
  delete s;
}
static void explore() {
  while (!gWork.empty() && !gTimeout) {
    State *s = gWork.back(); gWork.pop_back(); runState(s);
    if (optStopFirst && !gViol.empty()) break;
    if (gPaths > optMaxPaths) { gTimeout = true; }
    if (elapsed() > optMaxTime) gTimeout = true;
  }
}

// ------------------------------------------------------------------ results
static void writeResult(FILE *o, const std::string &harness, bool fork) {
  fprintf(o, "{\"harness\":%s,\"paths\":%llu,\"infeasible\":%llu,\"instructions\":%llu,\"forks\":%llu,\"asserts\":%llu,\"complete\":%s,", jsonStr(harness).c_str(), (unsigned long long)gPaths, (unsigned long long)gInfeasible, (unsigned long long)gSteps, (unsigned long long)gForks, (unsigned long long)gAsserts, (gTimeout || !gWork.empty()) ? "false" : "true");
  fprintf(o, "\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"z3_queries\":%llu,\"cross_checked\":%llu,\"solver_seconds\":%.3f,\"violation_count\":%llu,", (unsigned long long)gSolver.queries, (unsigned long long)gSolver.sat, (unsigned long long)gSolver.unsat, (unsigned long long)gSolver.unknown, (unsigned long long)gSolver.cacheHits, (unsigned long long)gSolver.z3, (unsigned long long)gSolver.crossChecked, gSolver.seconds, (unsigned long long)gViolCount);
  fprintf(o, "\"violations\":[");
  for (size_t i = 0; i < gViol.size(); i++) { auto &v = gViol[i]; fprintf(o, "%s{\"kind\":%s,\"msg\":%s,\"where\":%s,\"inputs\":[", i ? "," : "", jsonStr(v.kind).c_str(), jsonStr(v.msg).c_str(), jsonStr(v.where).c_str());
    for (size_t k = 0; k < v.inputs.size(); k++) fprintf(o, "%s[%s,%u,%llu]", k ? "," : "", jsonStr(v.inputs[k].first).c_str(), v.widths[k], (unsigned long long)v.inputs[k].second); fprintf(o, "]}"); }
  fprintf(o, "],\"errors\":{"); bool c = false; for (auto &e : gErrors) { fprintf(o, "%s%s:%llu", c ? "," : "", jsonStr(e.first).c_str(), (unsigned long long)e.second); c = true; }
  fprintf(o, "},\"covers\":{"); c = false; for (auto &e : gCovers) { fprintf(o, "%s%s:[%llu,%s]", c ? "," : "", jsonStr(e.first).c_str(), (unsigned long long)e.second.first, e.second.second.c_str()); c = true; }
  fprintf(o, "},\"assert_labels\":{"); c = false; for (auto &e : gAssertLabels) { fprintf(o, "%s%s:%llu", c ? "," : "", jsonStr(e.first).c_str(), (unsigned long long)e.second); c = true; }
  fprintf(o, "},\"samples\":["); for (size_t i = 0; i < gSamples.size(); i++) fprintf(o, "%s%s", i ? "," : "", gSamples[i].c_str());
  fprintf(o, "],\"functions\":["); c = false; for (Func *f : gUsed) { if (f->file.find("/oclint-") == std::string::npos) continue; fprintf(o, "%s[%s,%s,%u]", c ? "," : "", jsonStr(demangle(f->name)).c_str(), jsonStr(f->file).c_str(), f->line); c = true; }
  fprintf(o, "],\"models\":["); c = false; for (Func *f : gUsed) { if (f->file.find("/oclint-") != std::string::npos) continue; if (f->builtin < 0 && f->file.find("/models/") == std::string::npos) continue; fprintf(o, "%s%s", c ? "," : "", jsonStr(demangle(f->name)).c_str()); c = true; }
  fprintf(o, "],\"lines\":["); c = false; for (auto &l : gLines) { fprintf(o, "%s[%s,%u]", c ? "," : "", jsonStr(l.first).c_str(), l.second); c = true; }
  fprintf(o, "],\"seconds\":%.3f}\n", elapsed()); (void)fork;
}

static int realMain(int argc, char **argv) {
  std::vector<std::string> files; std::string harness, out; 
  for (int i = 1; i < argc; i++) { std::string a = argv[i];
    if (a == "--harness") harness = argv[++i]; else if (a == "--out") out = argv[++i]; else if (a == "--max-time") optMaxTime = atof(argv[++i]); else if (a == "--max-steps") optMaxSteps = atoll(argv[++i]);
    else if (a == "--max-paths") optMaxPaths = atoll(argv[++i]); else if (a == "--trace") optTrace = true; else if (a == "--jobs") optJobs = atoi(argv[++i]); else if (a == "--stop-first") optStopFirst = true; else if (a == "--samples") optSamples = atoi(argv[++i]);
    else if (a == "--max-viol") optMaxViol = atoi(argv[++i]); else if (a == "--conc-limit") optConcLimit = atoi(argv[++i]); else if (a == "--server") optServer = argv[++i];
    else if (a == "--native") { FILE *nf = fopen(argv[++i], "r"); char ln[1024]; while (nf && fgets(ln, sizeof ln, nf)) { std::string l = ln; while (!l.empty() && isspace((unsigned char)l.back())) l.pop_back(); if (l.empty() || l[0] == '#') continue; if (l[0] == '!') gNative.push_back({false, l.substr(1)}); else gNative.push_back({true, l}); } if (nf) fclose(nf); } else files.push_back(a); }
  gT0 = std::chrono::steady_clock::now(); optServerEntry = harness; signal(SIGCHLD, SIG_DFL);
  if (!optServer.empty()) startServer();
  defBuiltins();
  builtinIndex = [](const std::string &n) { auto it = gBIdx.find(n); return it == gBIdx.end() ? -1 : it->second; };
  loaderInit(files);
  State *s = new State();
  // static constructors first, each to completion on a single path
  Inst dummy; dummy.op = Op::Call; dummy.dst = -1;
  auto runConcrete = [&](Func *f) -> bool { 
    pushFrame(*s, f, {}, nullptr);
    try { for (;;) { if (s->st.size() == 1 && s->st.back().f->code[s->st.back().ip].op == Op::Ret) { popFrame(*s); return true; } step(*s); if (!gWork.empty()) { fprintf(stderr, "static constructor forks\n"); return false; } } } catch (PathEnd &) { fprintf(stderr, "static constructor %s did not complete\n", f->name.c_str()); return false; } };
  for (auto &c : loaderCtorOrder()) { Func *f = loaderFunc(c); if (!f) continue; if (!runConcrete(f)) { FILE *o = out.empty() ? stdout : fopen(out.c_str(), "w"); gTimeout = true; gErrors["static constructor " + c]++; writeResult(o, harness, false); return 2; } }
  s->steps = 0;
  Func *h = loaderFunc(harness);
  if (!h || !h->llvm) { fprintf(stderr, "no harness %s\n", harness.c_str()); return 3; }
  pushFrame(*s, h, {}, nullptr);
  gWork.push_back(s);
  if (optJobs > 1) {
    // breadth-first until there is enough work, then share the states among processes
    while (!gWork.empty() && gWork.size() < (size_t)optJobs * 24 && !gTimeout && elapsed() < optMaxTime) { State *t = gWork.front(); gWork.erase(gWork.begin()); runState(t); }
    if (!gWork.empty() && !gTimeout) {
      std::vector<pid_t> kids; std::vector<std::string> outs;
      fflush(stdout); fflush(stderr);
      for (int j = 0; j < optJobs; j++) {
        std::string of = out + "." + std::to_string(j); outs.push_back(of); pid_t p = fork();
        if (p == 0) {
          std::vector<State *> mine; for (size_t k = 0; k < gWork.size(); k++) if ((int)(k % optJobs) == j) mine.push_back(gWork[k]);
          gWork = mine; 
          if (j) { gPaths = gInfeasible = gSteps = gForks = gAsserts = gViolCount = 0; gSolver = SolverStats(); gViol.clear(); gErrors.clear(); gSamples.clear(); gCovers.clear(); gAssertLabels.clear(); }
          explore(); FILE *o = fopen(of.c_str(), "w"); writeResult(o, harness, true); fclose(o); _exit(0);
        }
        kids.push_back(p);
      }
      int bad = 0; for (pid_t p : kids) { int st; waitpid(p, &st, 0); if (st) bad++; }
      FILE *o = fopen(out.c_str(), "w"); fprintf(o, "{\"parts\":["); bool c = false;
      for (auto &of : outs) { FILE *i = fopen(of.c_str(), "r"); if (!i) continue; if (c) fputc(',', o); c = true; char buf[65536]; size_t n; while ((n = fread(buf, 1, sizeof buf, i)) > 0) fwrite(buf, 1, n, o); fclose(i); unlink(of.c_str()); }
      fprintf(o, "],\"died\":%d}\n", bad); fclose(o); return 0;
    }
  }
  explore();
  FILE *o = out.empty() ? stdout : fopen(out.c_str(), "w"); writeResult(o, harness, false); fflush(o); if (o != stdout) fclose(o);
  _exit(0);
}
static int gArgc; static char **gArgv; static int gRet;
int main(int argc, char **argv) {
  gArgc = argc; gArgv = argv; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1ull << 30);
  pthread_t t; pthread_create(&t, &at, [](void *) -> void * { gRet = realMain(gArgc, gArgv); return nullptr; }, nullptr); pthread_join(t, nullptr); return gRet;
}
