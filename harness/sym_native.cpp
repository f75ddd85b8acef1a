// Native runtime behind sym.h: replays one recorded execution of a harness against the real libraries.
//   replay ENTRY INPUTS      INPUTS: one "name width value" per line, in creation order
// Output lines: OBS label value / FAIL label / COVER label.  Exit: 0 passed, 1 an assertion failed, 3 an assumption
// of the harness does not hold, 4 the run asked for inputs that were not recorded (it took another course).
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <vector>
#include <exception>
struct In { std::string name; unsigned w; uint64_t v; };
static std::vector<In> ins; static size_t pos; static bool failed, lenient;
static std::stringbuf outBuf, errBuf;
std::string sym_stdout() { return outBuf.str(); }
std::string sym_stderr() { return errBuf.str(); }
static void finish(int rc) { fflush(stdout); _Exit(rc); }
static uint64_t next(const std::string &name, unsigned w) {
  if (pos >= ins.size()) { if (failed) finish(1); printf("DIVERGED: no more inputs at %s\n", name.c_str()); finish(4); }
  if (lenient) { uint64_t v = ins[pos++].v; return w >= 64 ? v : v & ((1ull << w) - 1); }
  In &i = ins[pos++]; std::string base = i.name.substr(0, i.name.find('#')); std::string asked = name; for (auto &c : asked) if (c == ' ') c = '_';
  if (base != asked || i.w != w) { if (failed) finish(1); printf("DIVERGED: %s.%u asked, %s.%u recorded\n", name.c_str(), w, i.name.c_str(), i.w); finish(4); }
  return w >= 64 ? i.v : i.v & ((1ull << w) - 1);
}
extern "C" {
uint64_t sym_u64(const char *n, unsigned bits) { return next(n, bits); }
void sym_bytes(void *p, size_t n, const char *name) { for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = (unsigned char)next(name, 8); }
void sym_assume(bool c) { if (!c) { if (failed) finish(1); printf("ASSUMPTION\n"); finish(3); } }
void sym_assert(bool c, const char *l) { if (!c) { printf("FAIL %s\n", l); fflush(stdout); failed = true; } }
void sym_cover(const char *l) { printf("COVER %s\n", l); }
void sym_observe(const char *l, uint64_t v) { printf("OBS %s %llu\n", l, (unsigned long long)v); }
uint64_t sym_concretize(uint64_t v) { return v; }
bool sym_and(bool a, bool b) { return a & b; }
bool sym_or(bool a, bool b) { return a | b; }
bool sym_not(bool a) { return !a; }
uint64_t sym_ite(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
bool sym_eq_bytes(const void *a, const void *b, size_t n) { return !memcmp(a, b, n); }
void sym_print(const char *l, uint64_t v) { printf("PRINT %s %lld\n", l, (long long)v); }
void sym_note(const char *p, size_t n) { printf("NOTE %.*s\n", (int)n, p); }
void sym_where() {}
void sym_unmodelled(const char *w) { printf("UNMODELLED %s\n", w); finish(5); }
void sym_end_path() { finish(failed ? 1 : 0); }
}
#ifdef SYM_ARENA
// ---- images for the executor: a process that ran the harness up to sym_image() answers questions about its memory
#include <sys/mman.h>
#include <sys/socket.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
// every allocation comes from one region at a fixed address, in order: the same run has the same addresses
static char *const ARENA = (char *)0x200000000000ull; static const size_t ARENA_SIZE = 16ull << 30; static char *gTop;
static void *arena(size_t n, size_t al) {
  if (!gTop) { void *p = mmap(ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); if (p != ARENA) _exit(126); gTop = ARENA; }
  if (al < 16) al = 16; char *p = (char *)(((uintptr_t)gTop + 16 + al - 1) & ~(al - 1)); uintptr_t a = (uintptr_t)p;
  if (n && (a >> 16) != ((a + n - 1) >> 16) && n <= 65536 - 4096 && al <= 4096) p = (char *)((((a >> 16) + 1) << 16) + al);      // no allocation crosses a page of the executor
  gTop = p + n; ((size_t *)p)[-1] = n; return p;
}
extern "C" {
void *malloc(size_t n) { return arena(n, 16); }
void free(void *) {}
void *calloc(size_t a, size_t b) { return arena(a * b, 16); }
void *realloc(void *p, size_t n) { void *q = arena(n, 16); if (p) { size_t o = ((size_t *)p)[-1]; memcpy(q, p, o < n ? o : n); } return q; }
void *memalign(size_t al, size_t n) { return arena(n, al); }
void *aligned_alloc(size_t al, size_t n) { return arena(n, al); }
int posix_memalign(void **r, size_t al, size_t n) { *r = arena(n, al); return 0; }
void *valloc(size_t n) { return arena(n, 4096); }
size_t malloc_usable_size(void *p) { return p ? ((size_t *)p)[-1] : 0; }
}
static int gFd = -1; static bool gServing;
static bool rd(void *p, size_t n) { char *c = (char *)p; while (n) { ssize_t k = read(gFd, c, n); if (k <= 0) return false; c += k; n -= k; } return true; }
static bool wr(const void *p, size_t n) { const char *c = (const char *)p; while (n) { ssize_t k = send(gFd, c, n, MSG_NOSIGNAL); if (k <= 0) return false; c += k; n -= k; } return true; }
static void page() { gTop = (char *)((((uintptr_t)gTop >> 16) + 2) << 16); }
extern "C" void *sym_image(void *root) {
  if (!gServing) return root;
  uint64_t r = (uint64_t)root; wr(&r, 8); page(); uint64_t q[2]; static int pp[2]; if (pipe(pp)) _exit(0);
  for (;;) {
    if (!rd(q, 16)) _exit(0);
    if (q[0] == 1) { uint64_t ok = 1; for (size_t i = 0; i < 65536 && ok; i += 4096) { char c; if (write(pp[1], (void *)(q[1] + i), 1) != 1) ok = 0; else read(pp[0], &c, 1); } wr(&ok, 8); if (ok) wr((void *)q[1], 65536); }
    else if (q[0] == 2) { Dl_info d; std::string n; if (dladdr((void *)q[1], &d) && d.dli_sname) { n = d.dli_sname; if (d.dli_saddr != (void *)q[1]) n = "inside " + n; } uint64_t k = n.size(); wr(&k, 8); wr(n.data(), k); }
    else if (q[0] == 3) {
      std::string n(q[1], 0); uint64_t na; rd(&n[0], n.size()); rd(&na, 8); uint64_t a[6] = {0}; std::vector<std::pair<char *, size_t>> sc; page();
      for (uint64_t i = 0; i < na; i++) { uint64_t k, v; rd(&k, 8); rd(&v, 8); if (k) { uint64_t sz; rd(&sz, 8); char *b = (char *)arena(sz, 16); rd(b, sz); sc.push_back({b, sz}); v += (uint64_t)b; } a[i] = v; }
      auto f = (unsigned __int128 (*)(uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t))(n[0] == '@' ? (void *)strtoull(n.c_str() + 1, nullptr, 16) : dlsym(RTLD_DEFAULT, n.c_str()));
      uint64_t len = 0; if (!f) { wr(&len, 8); continue; }
      unsigned __int128 r = f(a[0], a[1], a[2], a[3], a[4], a[5]); page();
      len = 16; for (auto &s : sc) len += 8 + s.second; wr(&len, 8); wr(&r, 16); for (auto &s : sc) { uint64_t b = (uint64_t)s.first; wr(&b, 8); wr(s.first, s.second); } }
    else _exit(0);
  }
}
static void serve(const char *entry) {
  signal(SIGCHLD, SIG_IGN); auto h = (void (*)())dlsym(RTLD_DEFAULT, entry); if (!h) _exit(2); page();
  static uint64_t msg[1 << 16];
  for (;;) {
    struct iovec io{msg, sizeof msg}; char cb[CMSG_SPACE(sizeof(int))]; struct msghdr mh; memset(&mh, 0, sizeof mh); mh.msg_iov = &io; mh.msg_iovlen = 1; mh.msg_control = cb; mh.msg_controllen = sizeof cb;
    ssize_t k = recvmsg(100, &mh, 0); if (k <= 0) _exit(0); struct cmsghdr *c = CMSG_FIRSTHDR(&mh); if (!c) continue; int fd; memcpy(&fd, CMSG_DATA(c), sizeof fd);
    if (fork() == 0) { gFd = fd; close(100); gServing = lenient = true; for (ssize_t i = 0; i < k / 8; i++) ins.push_back({"", 64, msg[i]}); h(); _exit(0); }
    close(fd);
  }
}
#else
extern "C" void *sym_image(void *root) { return root; }
static void serve(const char *) {}
#endif
int main(int argc, char **argv) {
  if (argc == 3 && !strcmp(argv[1], "--serve")) { std::cout.rdbuf(&outBuf); std::cerr.rdbuf(&errBuf); serve(argv[2]); return 0; }
  if (argc < 3) return 2;
  std::ifstream f(argv[2]); std::string line;
  while (std::getline(f, line)) { std::istringstream s(line); In i; s >> i.name >> i.w >> i.v; if (s) ins.push_back(i); }
  std::cout.rdbuf(&outBuf); std::cerr.rdbuf(&errBuf);
  auto h = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!h) { printf("no entry %s\n", argv[1]); return 2; }
  std::set_terminate([] { printf("FAIL uncaught exception\n"); finish(1); });
  h();
  finish(failed ? 1 : 0);
}
