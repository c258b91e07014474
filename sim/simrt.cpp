// See simrt.h.  Compiled WITHOUT instrumentation; linked into every simulated program.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "simrt.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <cstdarg>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <pthread.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <poll.h>
#include <time.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/mman.h>
#include <sys/ioctl.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <fnmatch.h>
#include <execinfo.h>
#include <string>

Shared *S = nullptr;
SimConf C;
int simActive = 0;

#define EXPORT extern "C" __attribute__((visibility("default")))
#define REAL(ret, name, args) typedef ret (*name##_t) args; static name##_t real_##name; \
  static name##_t R_##name() { if (!real_##name) real_##name = (name##_t)dlsym(RTLD_NEXT, #name); return real_##name; }

// ------------------------------------------------------------------ PRNG
static inline uint64_t mix(uint64_t z) {
  z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31);
}
struct Rng { uint64_t s; uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; } };
static Rng rSched, rHeap, rClock, rEntropy, rLayout;
static inline void hashIn(uint64_t &h, uint64_t v) { h = (h ^ v) * 0x100000001B3ull; h ^= h >> 29; }

static void simExit(int kind, int code, const char *note) __attribute__((noreturn));
static void simExit(int kind, int code, const char *note)
{
  simActive = 0;
  S->exitKind = kind; S->exitCode = code;
  if (note) { strncpy(S->note, note, sizeof(S->note) - 1); }
  sim_finish_stats();
  syscall(SYS_exit_group, 70 + kind);
  for (;;) ;
}

static void checkAllCanaries();
void sim_finish_stats() { S->stepsAtEnd = S->steps; }

// ------------------------------------------------------------------ signals
typedef void (*sigh_t)(int);
static sigh_t sigintHandler = SIG_DFL;
static void noteSignal(sigh_t h) { sigintHandler = h; if (!S->sigHandlerSet++) S->sigSetStep = S->steps; }
REAL(sigh_t, signal, (int, sigh_t))
EXPORT sigh_t signal(int sig, sigh_t h) {
  if (simActive && sig == SIGINT) { sigh_t o = sigintHandler; noteSignal(h); return o; }
  if (simActive) return SIG_DFL;
  return R_signal()(sig, h);
}
EXPORT sigh_t __sysv_signal(int sig, sigh_t h) { return signal(sig, h); }
REAL(int, sigaction, (int, const struct sigaction *, struct sigaction *))
EXPORT int sigaction(int sig, const struct sigaction *a, struct sigaction *o) {
  if (simActive) {
    if (sig == SIGINT) {
      if (o) { memset(o, 0, sizeof *o); o->sa_handler = sigintHandler; }
      if (a) noteSignal(a->sa_handler);
    }
    return 0;
  }
  return R_sigaction()(sig, a, o);
}
static void deliverSigint()
{
  S->sigDelivered++; S->sigStep = S->steps; S->accessesAtSig = S->accesses;
  hashIn(S->evHash, 0x516 ^ S->steps);
  if (sigintHandler == SIG_IGN) return;
  if (sigintHandler == SIG_DFL) simExit(EK_SIGDFL, 130, "SIGINT with default disposition");
  S->sigHandlerCalls++;
  sigintHandler(SIGINT);
}
EXPORT int raise(int sig) {
  if (simActive && sig == SIGINT) { deliverSigint(); return 0; }
  return (int)syscall(SYS_tgkill, getpid() ? syscall(SYS_getpid) : 0, syscall(SYS_gettid), sig);
}

// ------------------------------------------------------------------ op log + rules
static int fileIndexOf(const char *name);
static void logOp(int op, int file, long a, int act, int err)
{
  if (C.logOps && S->nLog < MAXLOG) {
    OpRec &r = S->log[S->nLog];
    r.op = op; r.file = file; r.a = a; r.act = act; r.err = err; r.step = S->steps;
  }
  S->nLog++;
  hashIn(S->evHash, ((uint64_t)op << 56) ^ ((uint64_t)(file & 0xffff) << 32) ^ (uint64_t)a ^ ((uint64_t)act << 48));
}

// A request made by FFTW for its own planning/execution: FFTW aborts the process when such a request is refused and offers
// no way to prevent that, so only requests through fftw_malloc/fftw_alloc_* (made by imfit) can be refused.
static bool libInternal()
{
  void *pc[16]; int n = backtrace(pc, 16); bool in = false; const char *api = "";
  for (int i = 0; i < n; i++) {
    Dl_info d; if (!dladdr((char *)pc[i] - 1, &d) || !d.dli_fname) { if (in) return true; continue; }
    if (strstr(d.dli_fname, "libfftw3")) { in = true; api = d.dli_sname ? d.dli_sname : ""; }
    else if (in) break;
    // CFITSIO frees a file structure twice when its in-memory copy of an image section can't be allocated
    if (strstr(d.dli_fname, "libcfitsio") && d.dli_sname && !strcmp(d.dli_sname, "fits_select_image_section")) return true;
  }
  return in && !(strstr(api, "fftw_malloc") || strstr(api, "fftw_alloc"));
}

// returns the rule that fires for this op, or null
static Rule *matchRule(int op, const char *name, long size)
{
  Rule *hit = nullptr;
  for (int i = 0; i < S->nRules; i++) {
    Rule &r = S->rules[i];
    if (r.op != op) continue;
    if (op == OP_ALLOC) { if (size < r.arg || libInternal()) continue; }
    else if (strcmp(r.glob, "*") && fnmatch(r.glob, name ? name : "", 0)) continue;
    r.count++;
    if (r.count == r.nth || (r.persistent && r.count > r.nth)) { if (!hit) { hit = &r; r.fired++; } }
  }
  if (hit) S->faultFired[hit->act]++;
  return hit;
}
static void ioTick()
{
  S->ioOps++;
  if (C.ioLimit && (long)S->ioOps > C.ioLimit) simExit(EK_IOLIMIT, 0, "I/O operation limit reached (no progress)");
}

// ------------------------------------------------------------------ heap
extern "C" void *__libc_malloc(size_t); extern "C" void __libc_free(void *);
extern "C" void *__libc_calloc(size_t, size_t); extern "C" void *__libc_realloc(void *, size_t);
extern "C" void *__libc_memalign(size_t, size_t);

static char *heapBase = nullptr; static size_t heapSize = size_t(3) << 30; static size_t heapTop = 0;
struct Blk { uint64_t magic; size_t req; size_t total; void *raw; };  // precedes user pointer (32 bytes)
static const uint64_t MAGIC_LIVE = 0x51AB1EB10C4B10C5ull, MAGIC_FREE = 0xDEADB10CDEADB10Cull;
static const int NCLS = 64;
struct FreeNode { FreeNode *next; };
static FreeNode *freeList[NCLS]; static int freeCnt[NCLS];
static const int RED = 64; static unsigned char redPat[RED];   // guard zone after each block: what an out-of-bounds read finds there varies like uninitialised memory
static int inHeapOp = 0;

static inline bool inArena(void *p) { return heapBase && (char *)p >= heapBase && (char *)p < heapBase + heapSize; }

static void fillMem(void *p, size_t n, int freed)
{
  int mode = C.heapFill;
  unsigned char *c = (unsigned char *)p;
  uint64_t w;
  switch (mode) {
    case 0: if (!freed) { memset(p, 0, n); return; } memset(p, 0, n); return;
    case 3: memset(p, freed ? 0x5D : 0xAA, n); return;
    case 2: { double d = __builtin_nan(""); memcpy(&w, &d, 8); break; }
    case 4: { double d = -7.25e300; memcpy(&w, &d, 8); break; }
    case 5: w = 0x0000000300000002ull; break;
    default: { // pseudo-random bytes (xorshift stream)
      uint64_t x = rHeap.next() | 1; size_t i = 0;
      for (; i + 8 <= n; i += 8) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; memcpy(c + i, &x, 8); }
      for (; i < n; i++) c[i] = (unsigned char)(x >> (8 * (i & 7)));
      return; }
  }
  size_t i = 0;
  for (; i + 8 <= n; i += 8) memcpy(c + i, &w, 8);
  for (; i < n; i++) c[i] = (unsigned char)(w >> (8 * (i & 7)));
}
static int clsOf(size_t total) { // total multiple of 16; power-of-two-ish classes with 4 sub-steps
  int c = 0; size_t s = 64; while (s < total && c < NCLS - 1) { s = (c & 1) ? (s / 3) * 4 : (s / 2) * 3; c++; }
  return c;
}
static size_t clsSize(int c) { size_t s = 64; for (int i = 0; i < c; i++) s = (i & 1) ? (s / 3) * 4 : (s / 2) * 3; return s; }

static void canaryFail(Blk *b, const char *what)
{
  S->canaryBad++;
  if (S->canaryBad == 1)
    snprintf(S->canaryNote, sizeof S->canaryNote, "%s: block of %zu bytes", what, b->req);
}
static void checkBlk(Blk *b)
{
  unsigned char *end = (unsigned char *)(b + 1) + b->req;
  for (int i = 0; i < RED; i++) if (end[i] != redPat[i]) { canaryFail(b, "write past end of heap block"); break; }
  uint64_t *pre = (uint64_t *)((char *)b - 16);
  if (pre[0] != 0xC5C5C5C5C5C5C5C5ull) canaryFail(b, "write before start of heap block");
}
struct LiveIdx { }; // (walk of the arena is used instead of an index)

static void *simAlloc(size_t n, size_t align, bool zero, bool isNew)
{
  S->allocs++; S->heapBytes += n;
  if (n >= 256) S->bigAllocs++;
  if (n > (size_t(1) << 30)) { errno = ENOMEM; logOp(OP_ALLOC, -1, (long)n, FA_NULL, ENOMEM); return nullptr; }
  Rule *r = matchRule(OP_ALLOC, "", (long)n);
  if (r && r->act == FA_NULL) { if (!S->nSite) S->nSite = backtrace(S->sitePc, 24); logOp(OP_ALLOC, -1, (long)n, FA_NULL, ENOMEM); errno = ENOMEM; return nullptr; }
  size_t al = align < 16 ? 16 : align;
  // [pre-canary 16][Blk 32][user n][RED]
  size_t need = 16 + sizeof(Blk) + n + RED + (al > 16 ? al : 0);
  int c = clsOf(need); size_t total = clsSize(c);
  if (c >= NCLS - 1) { errno = ENOMEM; return nullptr; }
  char *raw = nullptr;
  if (freeList[c] && !(C.heapLayout && (rLayout.next() & 3) == 0)) { raw = (char *)freeList[c]; freeList[c] = freeList[c]->next; freeCnt[c]--; }
  else {
    if (C.heapLayout) heapTop += 16 * rLayout.below(17);
    heapTop = (heapTop + 15) & ~size_t(15);
    if (heapTop + total > heapSize) { errno = ENOMEM; return nullptr; }
    raw = heapBase + heapTop; heapTop += total;
  }
  char *user = raw + 16 + sizeof(Blk);
  user = (char *)(((uintptr_t)user + al - 1) & ~(uintptr_t)(al - 1));
  Blk *b = (Blk *)user - 1;
  ((uint64_t *)((char *)b - 16))[0] = 0xC5C5C5C5C5C5C5C5ull;
  ((uint64_t *)((char *)b - 16))[1] = (uint64_t)c;
  b->magic = MAGIC_LIVE; b->req = n; b->total = total; b->raw = raw;
  if (zero) memset(user, 0, n); else fillMem(user, n, 0);
  unsigned char *end = (unsigned char *)user + n;
  memcpy(end, redPat, RED);
  long slack = raw + total - (char *)end - RED;
  if (slack > 0) fillMem(end + RED, slack > 256 ? 256 : (size_t)slack, 0);
  (void)isNew;
  return user;
}
static void simFree(void *p)
{
  if (!p) return;
  if (!inArena(p)) return;      // pre-activation block: leak it (harmless, run is short)
  S->frees++;
  Blk *b = (Blk *)p - 1;
  if (b->magic != MAGIC_LIVE) {
    S->badFree++;
    if (S->badFree == 1 && !S->canaryNote[0])
      snprintf(S->canaryNote, sizeof S->canaryNote, "%s", b->magic == MAGIC_FREE ? "double free" : "free of an invalid pointer");
    return;
  }
  checkBlk(b);
  b->magic = MAGIC_FREE;
  size_t n = b->req; int c = (int)((uint64_t *)((char *)b - 16))[1]; char *raw = (char *)b->raw;
  fillMem(p, n, 1);
  if (c < 0 || c >= NCLS || clsSize(c) != b->total) return;
  // keep header of the freed block intact for double-free detection: free-list link is at raw,
  // which is the canary word slot of an unaligned block
  ((FreeNode *)raw)->next = freeList[c]; freeList[c] = (FreeNode *)raw; freeCnt[c]++;
}

EXPORT void *malloc(size_t n) { return simActive ? simAlloc(n, 16, false, false) : __libc_malloc(n); }
EXPORT void *calloc(size_t a, size_t b) {
  if (!simActive) return __libc_calloc(a, b);
  size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  return simAlloc(n, 16, true, false);
}
EXPORT void free(void *p) {
  if (!p) return;
  if (inArena(p)) { if (simActive) simFree(p); return; }
  if (simActive) return;
  __libc_free(p);
}
EXPORT void *realloc(void *p, size_t n) {
  if (!simActive && !inArena(p)) return __libc_realloc(p, n);
  if (!p) return simAlloc(n, 16, false, false);
  if (!inArena(p)) { // block from before activation: size unknown -> ask glibc
    size_t old = *((size_t *)p - 1) & ~size_t(7);
    void *q = simAlloc(n, 16, false, false); if (!q) return nullptr;
    size_t usable = old > 16 ? old - 8 : 0;
    memcpy(q, p, usable < n ? usable : n); return q;
  }
  Blk *b = (Blk *)p - 1;
  void *q = simAlloc(n, 16, false, false); if (!q) return nullptr;
  memcpy(q, p, b->req < n ? b->req : n); simFree(p); return q;
}
EXPORT int posix_memalign(void **out, size_t al, size_t n) {
  void *p = simActive ? simAlloc(n, al, false, false) : __libc_memalign(al, n);
  if (!p) return ENOMEM; *out = p; return 0;
}
EXPORT void *memalign(size_t al, size_t n) { return simActive ? simAlloc(n, al, false, false) : __libc_memalign(al, n); }
EXPORT void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
EXPORT void *valloc(size_t n) { return memalign(4096, n); }
EXPORT size_t malloc_usable_size(void *p) { if (!p) return 0; if (inArena(p)) return ((Blk *)p - 1)->req; return (*((size_t *)p - 1) & ~size_t(7)) - 8; }

// ------------------------------------------------------------------ clocks, entropy
static int64_t vnow = 0;
static int64_t simNow()
{
  S->timeCalls++;
  for (int i = 0; i < C.nJumps; i++) if (C.jumpAt[i] == (long)S->timeCalls) vnow += C.jumpNs[i];
  if (C.clockMode == 0) vnow += 1000 + rClock.below(2000000);
  else if (C.clockMode == 1) vnow += 0;                       // frozen clock
  else if (C.clockMode == 2) vnow += rClock.below(90ull * 1000000000ull);  // very slow machine
  else vnow -= (int64_t)rClock.below(3000000000ull);          // clock running backwards
  S->virtualNs = vnow - (int64_t)C.clockBase * 1000000000ll;
  logOp(OP_TIME, -1, 0, 0, 0);
  return vnow;
}
EXPORT time_t time(time_t *t) {
  if (!simActive) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
  time_t v = (time_t)(simNow() / 1000000000ll); if (t) *t = v; return v;
}
EXPORT int gettimeofday(struct timeval *tv, void *) noexcept {
  if (!simActive) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
  int64_t n = simNow(); tv->tv_sec = n / 1000000000ll; tv->tv_usec = (n % 1000000000ll) / 1000; return 0;
}
EXPORT int clock_gettime(clockid_t id, struct timespec *ts) noexcept {
  if (!simActive) return (int)syscall(SYS_clock_gettime, id, ts);
  int64_t n = simNow(); ts->tv_sec = n / 1000000000ll; ts->tv_nsec = n % 1000000000ll; return 0;
}
EXPORT clock_t clock(void) noexcept { if (!simActive) return 0; return (clock_t)((simNow() - (int64_t)C.clockBase * 1000000000ll) / 1000); }
EXPORT double omp_get_wtime(void) { return simActive ? simNow() * 1e-9 : 0.0; }
EXPORT double omp_get_wtick(void) { return 1e-9; }
EXPORT int nanosleep(const struct timespec *r, struct timespec *) { if (simActive) { vnow += r->tv_sec * 1000000000ll + r->tv_nsec; } return 0; }
EXPORT unsigned sleep(unsigned s) { if (simActive) vnow += (int64_t)s * 1000000000ll; return 0; }
EXPORT int usleep(useconds_t u) { if (simActive) vnow += (int64_t)u * 1000ll; return 0; }

static uint64_t entropy() { S->entropyCalls++; logOp(OP_ENTROPY, -1, 0, 0, 0); return rEntropy.next(); }
EXPORT ssize_t getrandom(void *p, size_t n, unsigned f) {
  if (!simActive) return syscall(SYS_getrandom, p, n, f);
  for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = (unsigned char)entropy(); return (ssize_t)n;
}
EXPORT int getentropy(void *p, size_t n) { return getrandom(p, n, 0) == (ssize_t)n ? 0 : -1; }
EXPORT uint32_t arc4random(void) noexcept { uint32_t v; getrandom(&v, 4, 0); return v; }
EXPORT pid_t getpid(void) noexcept { return simActive ? C.pid : (pid_t)syscall(SYS_getpid); }
// std::random_device
EXPORT unsigned _ZNSt13random_device9_M_getvalEv(void *) { return simActive ? (unsigned)entropy() : 4u; }
EXPORT void _ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void *, const std::string &) { }
EXPORT void _ZNSt13random_device7_M_finiEv(void *) { }
EXPORT double _ZNKSt13random_device13_M_getentropyEv(void *) { return 32.0; }

// ------------------------------------------------------------------ VFS
extern char *vfsArena;
char *vfsArena = nullptr;
struct OFD { int used; int file; size_t pos; int flags; FILE *fp; int orphan; };
static const int VFD0 = 5000; static const int MAXOFD = 256;
static OFD ofds[MAXOFD];

static void normPath(const char *in, char *out, size_t n)
{
  const char *p = in; const char *cwd = "/sim/";
  if (!strncmp(p, cwd, strlen(cwd))) p += strlen(cwd);
  while (p[0] == '.' && p[1] == '/') { p += 2; while (*p == '/') p++; }
  strncpy(out, p, n - 1); out[n - 1] = 0;
}
static int fileIndexOf(const char *name)
{
  for (int i = 0; i < MAXFILES; i++) if (S->files[i].used && !strcmp(S->files[i].name, name)) return i;
  return -1;
}
static int slotOf(const char *name) // also matches deleted slots so that counters persist
{
  int i = fileIndexOf(name); if (i >= 0) return i;
  for (int k = 0; k < MAXFILES; k++) if (!S->files[k].used && !strcmp(S->files[k].name, name)) return k;
  return -1;
}
static bool parentExists(const char *name)
{
  const char *sl = strrchr(name, '/'); if (!sl) return true;
  char d[200]; size_t n = sl - name; if (n >= sizeof d) return false; memcpy(d, name, n); d[n] = 0;
  int i = fileIndexOf(d); return i >= 0 && S->files[i].used == 2;
}
static int newFile(const char *name)
{
  int i = slotOf(name);
  if (i < 0) for (int k = 0; k < MAXFILES; k++) if (!S->files[k].used && !S->files[k].name[0]) { i = k; break; }
  if (i < 0) simExit(EK_SIMERR, 0, "VFS: too many files");
  VFile &f = S->files[i];
  if (strcmp(f.name, name)) { memset(&f, 0, sizeof f); strncpy(f.name, name, sizeof f.name - 1); }
  f.used = 1; f.size = 0; f.cap = 0; f.off = 0; return i;
}
static void reserve(VFile &f, size_t n)
{
  if (n <= f.cap) return;
  size_t nc = f.cap ? f.cap : 4096; while (nc < n) nc *= 2;
  if (S->vfsUsed + nc > VFS_ARENA) simExit(EK_SIMERR, 0, "VFS: arena exhausted");
  size_t no = S->vfsUsed; S->vfsUsed += nc;
  memcpy(vfsArena + no, vfsArena + f.off, f.size); f.off = no; f.cap = nc;
}
static int allocOFD() { for (int i = 0; i < MAXOFD; i++) if (!ofds[i].used) { memset(&ofds[i], 0, sizeof(OFD)); ofds[i].used = 1; return i; } return -1; }
static const char *fname(int o) { return S->files[ofds[o].file].name; }

static void crashNow(const char *why) { simExit(EK_CRASH, 0, why); }

// common pre-processing of a fault rule for non-transfer ops; returns errno or 0
static int simpleFault(int op, int file, const char *name, long a)
{
  ioTick();
  Rule *r = matchRule(op, name, 0);
  int act = r ? r->act : 0;
  logOp(op, file, a, act, r ? r->err : 0);
  if (!r) return 0;
  if (act == FA_CRASH || act == FA_CRASH_PARTIAL) crashNow("crash at file operation");
  if (act == FA_SIGINT) { deliverSigint(); return 0; }
  if (act == FA_ERR || act == FA_SHORT_ERR) return r->err ? r->err : EIO;
  return 0;
}

static int vOpen(const char *path, int flags, int *err)
{
  char name[200]; normPath(path, name, sizeof name);
  bool wr = (flags & O_ACCMODE) != O_RDONLY;
  int i = fileIndexOf(name);
  int e = simpleFault(wr ? OP_OPEN_W : OP_OPEN_R, i >= 0 ? i : slotOf(name), name, flags);
  if (e) { *err = e; return -1; }
  if (i >= 0 && S->files[i].used == 2) { *err = EISDIR; return -1; }
  if (i < 0) {
    if (!(flags & O_CREAT)) { *err = ENOENT; return -1; }
    if (!parentExists(name)) { *err = ENOENT; return -1; }
    if (name[0] == '/') { *err = EACCES; return -1; }
    i = newFile(name);
  } else if ((flags & O_CREAT) && (flags & O_EXCL)) { *err = EEXIST; return -1; }
  if (wr) S->files[i].nWriteOpens++; else S->files[i].nReadOpens++;
  if ((flags & O_TRUNC) && wr) { S->diskUsed -= (long)S->files[i].size; S->files[i].size = 0; S->files[i].nWrites++; }
  int o = allocOFD(); if (o < 0) { *err = EMFILE; return -1; }
  ofds[o].file = i; ofds[o].flags = flags; ofds[o].pos = 0;
  return o;
}
// one "system call" worth of writing; returns bytes or -1/errno
static ssize_t vWriteOnce(int o, const char *buf, size_t n, int *err)
{
  OFD &d = ofds[o]; VFile &f = S->files[d.file];
  ioTick();
  Rule *r = matchRule(OP_WRITE, f.name, 0);
  int act = r ? r->act : 0; size_t lim = n;
  if (act == FA_SIGINT) deliverSigint();
  if (act == FA_ERR) { logOp(OP_WRITE, d.file, (long)n, act, r->err); *err = r->err ? r->err : EIO; return -1; }
  if (act == FA_CRASH) { logOp(OP_WRITE, d.file, 0, act, 0); crashNow("crash before write"); }
  if (act == FA_SHORT || act == FA_SHORT_ERR || act == FA_CRASH_PARTIAL) { lim = n ? (size_t)(r->arg % (long)n) : 0; if (act == FA_SHORT && lim == 0) lim = n > 1 ? 1 : n; }
  if (S->diskCap > 0) {
    long room = S->diskCap - S->diskUsed; size_t end = ((d.flags & O_APPEND) ? f.size : d.pos) + lim;
    long grow = end > f.size ? (long)(end - f.size) : 0;
    if (grow > room) {
      S->capHits++;
      if (room <= 0) { logOp(OP_WRITE, d.file, (long)n, FA_ERR, ENOSPC); *err = ENOSPC; return -1; }
      lim -= (size_t)(grow - room);
    }
  }
  if (!f.used && !d.orphan) d.orphan = 1;
  if (d.flags & O_APPEND) d.pos = f.size;
  size_t end = d.pos + lim;
  reserve(f, end);
  if (d.pos > f.size) memset(vfsArena + f.off + f.size, 0, d.pos - f.size);
  memcpy(vfsArena + f.off + d.pos, buf, lim);
  if (end > f.size) { S->diskUsed += (long)(end - f.size); f.size = end; }
  d.pos = end; f.nWrites++;
  logOp(OP_WRITE, d.file, (long)lim, act, 0);
  if (act == FA_CRASH_PARTIAL) crashNow("crash during write (torn)");
  if (act == FA_SHORT_ERR) { *err = r->err ? r->err : ENOSPC; if (lim == 0) return -1; d.orphan |= 2; return (ssize_t)lim; }
  return (ssize_t)lim;
}
static ssize_t vReadOnce(int o, char *buf, size_t n, int *err)
{
  OFD &d = ofds[o]; VFile &f = S->files[d.file];
  ioTick();
  Rule *r = matchRule(OP_READ, f.name, 0);
  int act = r ? r->act : 0; f.nReads++;
  if (act == FA_SIGINT) deliverSigint();
  if (d.orphan & 4) { d.orphan &= ~4; logOp(OP_READ, d.file, (long)n, FA_ERR, EIO); *err = EIO; return -1; }
  if (act == FA_ERR) { logOp(OP_READ, d.file, (long)n, act, r->err); *err = r->err ? r->err : EIO; return -1; }
  if (act == FA_CRASH || act == FA_CRASH_PARTIAL) { logOp(OP_READ, d.file, 0, act, 0); crashNow("crash at read"); }
  size_t avail = d.pos < f.size ? f.size - d.pos : 0; size_t k = n < avail ? n : avail;
  if (act == FA_SHORT_ERR && k <= 1) { logOp(OP_READ, d.file, (long)n, act, r->err); *err = r->err ? r->err : EIO; return -1; }
  if (act == FA_SHORT_ERR) d.orphan |= 4;      // part of the data now, the error at the next read
  if ((act == FA_SHORT || act == FA_SHORT_ERR) && k > 1) { k = 1 + (size_t)(r->arg % (long)k); if (k > avail) k = avail; }
  memcpy(buf, vfsArena + f.off + d.pos, k); d.pos += k;
  logOp(OP_READ, d.file, (long)k, act, 0);
  return (ssize_t)k;
}
static int vClose(int o, int *err)
{
  OFD &d = ofds[o]; int fi = d.file;
  int e = simpleFault(OP_CLOSE, fi, S->files[fi].name, (d.flags & O_ACCMODE));
  d.used = 0;
  if (e) { *err = e; return -1; }
  return 0;
}
static long vSeek(int o, long off, int wh, int *err)
{
  OFD &d = ofds[o]; VFile &f = S->files[d.file];
  int e = simpleFault(OP_SEEK, d.file, f.name, off); if (e) { *err = e; return -1; }
  long np = wh == SEEK_SET ? off : wh == SEEK_CUR ? (long)d.pos + off : (long)f.size + off;
  if (np < 0) { *err = EINVAL; return -1; }
  d.pos = (size_t)np; return np;
}

// --- stdio on top of the VFS
static ssize_t ckRead(void *c, char *buf, size_t n) { int e = 0; ssize_t r = vReadOnce((int)(intptr_t)c, buf, n, &e); if (r < 0) errno = e; return r; }
static ssize_t ckWrite(void *c, const char *buf, size_t n) {
  int o = (int)(intptr_t)c; size_t done = 0; int e = 0;
  while (done < n) { ssize_t r = vWriteOnce(o, buf + done, n - done, &e);
    if (r < 0) { errno = e; return (ssize_t)done; }
    done += (size_t)r;
    if (ofds[o].orphan & 2) { ofds[o].orphan &= ~2; errno = e; return (ssize_t)done < (ssize_t)n ? (ssize_t)done : (ssize_t)0; } }
  return (ssize_t)done;
}
static int ckSeek(void *c, off64_t *p, int wh) { int e = 0; long r = vSeek((int)(intptr_t)c, (long)*p, wh, &e); if (r < 0) { errno = e; return -1; } *p = r; return 0; }
static int ckClose(void *c) { int e = 0; int r = vClose((int)(intptr_t)c, &e); if (r < 0) errno = e; return r; }

REAL(FILE *, fopen, (const char *, const char *))
static FILE *simFopen(const char *path, const char *mode)
{
  int fl; bool plus = strchr(mode, '+') != nullptr;
  switch (mode[0]) {
    case 'r': fl = plus ? O_RDWR : O_RDONLY; break;
    case 'w': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
    case 'a': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
    default: errno = EINVAL; return nullptr;
  }
  if (strchr(mode, 'x')) fl |= O_EXCL;
  int e = 0; int o = vOpen(path, fl, &e);
  if (o < 0) { errno = e; return nullptr; }
  cookie_io_functions_t io = { ckRead, ckWrite, ckSeek, ckClose };
  char m[8]; snprintf(m, sizeof m, "%c%s", mode[0], plus ? "+" : "");
  FILE *fp = fopencookie((void *)(intptr_t)o, m, io);
  if (!fp) { ofds[o].used = 0; errno = ENOMEM; return nullptr; }
  ofds[o].fp = fp;
  return fp;
}
EXPORT FILE *fopen(const char *p, const char *m) { return simActive ? simFopen(p, m) : R_fopen()(p, m); }
EXPORT FILE *fopen64(const char *p, const char *m) { return simActive ? simFopen(p, m) : R_fopen()(p, m); }
EXPORT FILE *freopen(const char *p, const char *m, FILE *f) { if (f) fclose(f); return simFopen(p, m); }
EXPORT FILE *tmpfile(void) { static int k = 0; char b[40]; snprintf(b, sizeof b, "tmpfile.%d", k++); return simFopen(b, "w+"); }
REAL(int, fileno, (FILE *))
EXPORT int fileno(FILE *fp) noexcept {
  if (simActive) for (int i = 0; i < MAXOFD; i++) if (ofds[i].used && ofds[i].fp == fp) return VFD0 + i;
  return R_fileno()(fp);
}
static inline bool isV(int fd) { return simActive && fd >= VFD0 && fd < VFD0 + MAXOFD; }
#define OF(fd) ((fd) - VFD0)
static inline int badV(int fd) { if (!ofds[OF(fd)].used) { errno = EBADF; return 1; } return 0; }

static int simOpen(const char *p, int fl) { int e = 0; int o = vOpen(p, fl, &e); if (o < 0) { errno = e; return -1; } return VFD0 + o; }
REAL(int, open, (const char *, int, ...))
EXPORT int open(const char *p, int fl, ...) { int m = 0; if (fl & O_CREAT) { va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); }
  return simActive ? simOpen(p, fl) : R_open()(p, fl, m); }
EXPORT int open64(const char *p, int fl, ...) { int m = 0; if (fl & O_CREAT) { va_list a; va_start(a, fl); m = va_arg(a, int); va_end(a); }
  return simActive ? simOpen(p, fl) : R_open()(p, fl, m); }
EXPORT int openat(int, const char *p, int fl, ...) { return simActive ? simOpen(p, fl) : -1; }
EXPORT int creat(const char *p, mode_t) { return simActive ? simOpen(p, O_WRONLY | O_CREAT | O_TRUNC) : -1; }
EXPORT int mkstemp(char *t) { static int k = 0; size_t n = strlen(t); if (n < 6) { errno = EINVAL; return -1; } snprintf(t + n - 6, 7, "s%05d", k++); return simOpen(t, O_RDWR | O_CREAT | O_EXCL); }
REAL(ssize_t, read, (int, void *, size_t))
EXPORT ssize_t read(int fd, void *b, size_t n) { if (isV(fd)) { if (badV(fd)) return -1; int e = 0; ssize_t r = vReadOnce(OF(fd), (char *)b, n, &e); if (r < 0) errno = e; return r; } return R_read()(fd, b, n); }
EXPORT ssize_t __read_chk(int fd, void *b, size_t n, size_t) { return read(fd, b, n); }
REAL(ssize_t, write, (int, const void *, size_t))
EXPORT ssize_t write(int fd, const void *b, size_t n) { if (isV(fd)) { if (badV(fd)) return -1; int e = 0; ssize_t r = vWriteOnce(OF(fd), (const char *)b, n, &e); if (r < 0) errno = e; return r; } return R_write()(fd, b, n); }
REAL(ssize_t, writev, (int, const struct iovec *, int))
EXPORT ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!isV(fd)) return R_writev()(fd, v, c);
  if (badV(fd)) return -1;
  size_t tot = 0; for (int i = 0; i < c; i++) tot += v[i].iov_len;
  char *tmp = (char *)alloca(tot < 65536 ? tot + 1 : 65536); bool big = tot >= 65536;
  if (big) { ssize_t done = 0; for (int i = 0; i < c; i++) { ssize_t r = write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return done ? done : -1; done += r; if ((size_t)r < v[i].iov_len) break; } return done; }
  size_t o = 0; for (int i = 0; i < c; i++) { memcpy(tmp + o, v[i].iov_base, v[i].iov_len); o += v[i].iov_len; }
  return write(fd, tmp, tot);
}
REAL(off_t, lseek, (int, off_t, int))
EXPORT off_t lseek(int fd, off_t off, int wh) noexcept { if (isV(fd)) { if (badV(fd)) return -1; int e = 0; long r = vSeek(OF(fd), off, wh, &e); if (r < 0) errno = e; return r; } return R_lseek()(fd, off, wh); }
EXPORT off64_t lseek64(int fd, off64_t off, int wh) noexcept { return lseek(fd, off, wh); }
REAL(int, close, (int))
EXPORT int close(int fd) { if (isV(fd)) { if (badV(fd)) return -1; int e = 0; int r = vClose(OF(fd), &e); if (r < 0) errno = e; return r; } return R_close()(fd); }
REAL(int, fsync, (int))
EXPORT int fsync(int fd) { if (isV(fd)) { int e = simpleFault(OP_FSYNC, ofds[OF(fd)].file, fname(OF(fd)), 0); if (e) { errno = e; return -1; } return 0; } return R_fsync()(fd); }
EXPORT int fdatasync(int fd) { return fsync(fd); }
REAL(int, ftruncate, (int, off_t))
EXPORT int ftruncate(int fd, off_t n) noexcept {
  if (!isV(fd)) return R_ftruncate()(fd, n);
  VFile &f = S->files[ofds[OF(fd)].file]; int e = simpleFault(OP_TRUNC, ofds[OF(fd)].file, f.name, n); if (e) { errno = e; return -1; }
  size_t o = f.size; reserve(f, (size_t)n); if ((size_t)n > o) memset(vfsArena + f.off + o, 0, n - o); f.size = (size_t)n; S->diskUsed += (long)n - (long)o; f.nWrites++; return 0; }
EXPORT int ftruncate64(int fd, off64_t n) noexcept { return ftruncate(fd, n); }
EXPORT int truncate(const char *p, off_t n) noexcept { if (!simActive) { errno = ENOSYS; return -1; } int fd = simOpen(p, O_RDWR); if (fd < 0) return -1; int r = ftruncate(fd, n); close(fd); return r; }
static void fillStat(struct stat *st, int i) {
  memset(st, 0, sizeof *st); VFile &f = S->files[i]; st->st_mode = f.used == 2 ? (S_IFDIR | 0755) : (S_IFREG | 0644);
  st->st_size = (off_t)f.size; st->st_nlink = 1; st->st_ino = i + 1; st->st_dev = 77; st->st_blksize = 4096; st->st_blocks = (f.size + 511) / 512; }
REAL(int, fstat, (int, struct stat *))
EXPORT int fstat(int fd, struct stat *st) noexcept { if (isV(fd)) { if (badV(fd)) return -1; fillStat(st, ofds[OF(fd)].file); return 0; } return R_fstat()(fd, st); }
EXPORT int fstat64(int fd, struct stat64 *st) noexcept { return fstat(fd, (struct stat *)st); }
static int simStat(const char *p, struct stat *st) {
  char name[200]; normPath(p, name, sizeof name); int i = fileIndexOf(name);
  int e = simpleFault(OP_STAT, i, name, 0); if (e) { errno = e; return -1; }
  if (!strcmp(name, ".") || !name[0] || !strcmp(name, "/sim")) { memset(st, 0, sizeof *st); st->st_mode = S_IFDIR | 0755; return 0; }
  if (i < 0) { errno = ENOENT; return -1; } fillStat(st, i); return 0; }
REAL(int, stat, (const char *, struct stat *))
EXPORT int stat(const char *p, struct stat *st) noexcept { return simActive ? simStat(p, st) : R_stat()(p, st); }
EXPORT int stat64(const char *p, struct stat64 *st) noexcept { return stat(p, (struct stat *)st); }
EXPORT int lstat(const char *p, struct stat *st) noexcept { return stat(p, st); }
EXPORT int lstat64(const char *p, struct stat64 *st) noexcept { return stat(p, (struct stat *)st); }
REAL(int, access, (const char *, int))
EXPORT int access(const char *p, int m) noexcept { if (!simActive) return R_access()(p, m); struct stat st; return simStat(p, &st); }
static int simUnlink(const char *p) {
  char name[200]; normPath(p, name, sizeof name); int i = fileIndexOf(name);
  int e = simpleFault(OP_UNLINK, i, name, 0); if (e) { errno = e; return -1; }
  if (i < 0) { errno = ENOENT; return -1; }
  S->files[i].used = 0; S->files[i].nUnlinks++; S->diskUsed -= (long)S->files[i].size;
  // keep data reachable for already open descriptors by moving the slot to an anonymous one
  for (int o = 0; o < MAXOFD; o++) if (ofds[o].used && ofds[o].file == i) {
    int k = newFile("\x01orphan"); S->files[k] = S->files[i]; snprintf(S->files[k].name, 32, "\x01orphan%d", k); S->files[k].used = 0;
    for (int q = 0; q < MAXOFD; q++) if (ofds[q].used && ofds[q].file == i) ofds[q].file = k; break; }
  return 0; }
REAL(int, unlink, (const char *))
EXPORT int unlink(const char *p) noexcept { return simActive ? simUnlink(p) : R_unlink()(p); }
EXPORT int remove(const char *p) noexcept { return simActive ? simUnlink(p) : R_unlink()(p); }
EXPORT int unlinkat(int, const char *p, int) noexcept { return simActive ? simUnlink(p) : (errno = ENOSYS, -1); }
EXPORT int rename(const char *a, const char *b) noexcept {
  if (!simActive) { errno = ENOSYS; return -1; }
  char na[200], nb[200]; normPath(a, na, sizeof na); normPath(b, nb, sizeof nb);
  int i = fileIndexOf(na); int e = simpleFault(OP_RENAME, i, nb, 0); if (e) { errno = e; return -1; }
  if (i < 0) { errno = ENOENT; return -1; }
  int j = fileIndexOf(nb); if (j == i) return 0;
  int k = j >= 0 ? j : newFile(nb);
  VFile old = S->files[k]; VFile &f = S->files[k];
  f.used = 1; f.size = S->files[i].size; f.cap = S->files[i].cap; f.off = S->files[i].off; f.nWrites = old.nWrites + 1; f.nWriteOpens = old.nWriteOpens + 1;
  S->files[i].used = 0; S->files[i].size = S->files[i].cap = 0; S->files[i].nUnlinks++; return 0; }
EXPORT int mkdir(const char *p, mode_t) noexcept { if (!simActive) { errno = ENOSYS; return -1; } char n[200]; normPath(p, n, sizeof n); if (fileIndexOf(n) >= 0) { errno = EEXIST; return -1; } int i = newFile(n); S->files[i].used = 2; return 0; }
EXPORT char *getcwd(char *b, size_t n) noexcept { if (!b) { b = (char *)malloc(64); n = 64; } snprintf(b, n, "/sim"); return b; }
EXPORT int isatty(int) noexcept { errno = ENOTTY; return 0; }
REAL(int, ioctl, (int, unsigned long, ...))
EXPORT int ioctl(int fd, unsigned long rq, ...) noexcept { va_list a; va_start(a, rq); void *arg = va_arg(a, void *); va_end(a);
  if (isV(fd)) { if (rq == FIONREAD) { OFD &d = ofds[OF(fd)]; VFile &f = S->files[d.file]; *(int *)arg = d.pos < f.size ? (int)(f.size - d.pos) : 0; return 0; } errno = ENOTTY; return -1; }
  return R_ioctl()(fd, rq, arg); }
REAL(int, poll, (struct pollfd *, nfds_t, int))
EXPORT int poll(struct pollfd *p, nfds_t n, int t) { if (simActive) { for (nfds_t i = 0; i < n; i++) p[i].revents = p[i].events & (POLLIN | POLLOUT); return (int)n; } return R_poll()(p, n, t); }
EXPORT int fcntl64(int fd, int cmd, ...) { (void)cmd; if (isV(fd)) return 0; va_list a; va_start(a, cmd); long v = va_arg(a, long); va_end(a); return (int)syscall(SYS_fcntl, fd, cmd, v); }
EXPORT int fcntl(int fd, int cmd, ...) { if (isV(fd)) return 0; va_list a; va_start(a, cmd); long v = va_arg(a, long); va_end(a); return (int)syscall(SYS_fcntl, fd, cmd, v); }
// network: a simulated machine without any
EXPORT int socket(int, int, int) noexcept { errno = EAFNOSUPPORT; return -1; }
EXPORT struct hostent *gethostbyname(const char *) { return nullptr; }

// ------------------------------------------------------------------ threads / OpenMP
static const int MAXT = 64;
struct Team;
struct SThread { int id; pthread_t th; sem_t sem; int state; void (*fn)(void *); void *data; Team *team; int tnum; int created; int prio;
  void *fftWork; };
enum { TS_IDLE, TS_RUN, TS_BLOCKED, TS_DONE };
struct WorkShare { long next, end, incr, chunk; int kind; unsigned long unext, uend, uincr, uchunk; int initDone; int left; int up; };
struct Team {
  int n; int active; SThread *thr[MAXT]; Team *parent; int parentTnum;
  int barrierCount; unsigned barrierGen; int singleGen[MAXT]; int singleDone; void *copyptr;
  WorkShare ws[8]; unsigned wsGen[MAXT]; unsigned wsAlloc; long section[MAXT];
};
static SThread pool[MAXT]; static SThread *curT = nullptr; static __thread SThread *me = nullptr;
static Team *curTeam = nullptr; static Team rootTeam; static int numThreadsVar = 0; static int simCores = 1;
static int rrQuantum = 0;

static void sigOrCrashAtStep();
static long nextEventStep = -1;
static void recomputeEvent() {
  nextEventStep = 0;
  long cand[4] = { C.sigStep, C.sigStep2, C.crashStep, C.stepLimit };
  for (int i = 0; i < 4; i++) if (cand[i] > (long)S->steps && (nextEventStep == 0 || cand[i] < nextEventStep)) nextEventStep = cand[i];
}
static void sigOrCrashAtStep()
{
  long s = (long)S->steps;
  if (C.crashStep && s == C.crashStep) { S->faultFired[FA_CRASH]++; recomputeEvent(); crashNow("crash at step"); }
  if (C.stepLimit && s >= C.stepLimit) simExit(EK_STEPLIMIT, 0, "step limit reached (no termination)");
  bool sg = (C.sigStep && s == C.sigStep) || (C.sigStep2 && s == C.sigStep2);
  recomputeEvent();
  if (sg) { S->faultFired[FA_SIGINT]++; deliverSigint(); }
}

// ---- conflict map (guides preemption)
struct Cell { uint64_t gran; uint32_t epoch; int16_t writer; uint16_t flags; uint64_t readers; };
static const int MAPB = 15; static Cell cmap[1 << MAPB]; static uint32_t epoch = 1; static uint64_t hotGran[64]; static int nHot = 0;

static SThread *pickNext(SThread *exclude, bool allowSame)
{
  Team *t = curTeam; SThread *cand[MAXT]; int n = 0;
  for (int i = 0; i < t->n; i++) if (t->thr[i]->state == TS_RUN && (allowSame || t->thr[i] != exclude)) cand[n++] = t->thr[i];
  if (!n) return nullptr;
  if (C.schedMode == 0) return cand[0];
  if (C.schedMode == 2) { // round robin
    int start = exclude ? exclude->tnum : 0;
    for (int k = 1; k <= t->n; k++) for (int j = 0; j < n; j++) if (cand[j]->tnum == (start + k) % t->n) return cand[j];
  }
  if (C.schedMode == 5) { SThread *b = cand[0]; for (int j = 1; j < n; j++) if (cand[j]->prio > b->prio) b = cand[j]; return b; }
  return cand[rSched.below(n)];
}
static void handoff(SThread *to)
{
  SThread *self = me;
  if (to == self) return;
  S->switches++; hashIn(S->schedHash, (S->parallelAccesses << 16) ^ (uint64_t)(to->tnum << 8) ^ self->tnum);
  curT = to; sem_post(&to->sem);
  while (sem_wait(&self->sem) != 0) { }
}
static void maybeSwitch(bool force)
{
  if (!curTeam || curTeam->n < 2) return;
  if (C.schedMode == 5) { if (force || rSched.below(C.schedP) == 0) me->prio = (int)rSched.below(1 << 20); SThread *n = pickNext(me, true); if (n && n != me) handoff(n); return; }
  bool sw = force;
  if (!sw) switch (C.schedMode) {
    case 1: sw = rSched.below(C.schedP) == 0; break;
    case 2: if (++rrQuantum >= C.schedP) { rrQuantum = 0; sw = true; } break;
    default: sw = false; }
  if (!sw) return;
  SThread *n = pickNext(me, C.schedMode != 2); if (n && n != me) handoff(n);
}
static void blockUntilOther() // current thread blocked/done: give the baton away
{
  SThread *n = pickNext(me, false);
  if (!n) simExit(EK_DEADLOCK, 0, "deadlock: no runnable thread");
  handoff(n);
}

static void teamAccess(uintptr_t a, int size, bool wr, void *pc)
{
  S->parallelAccesses++;
  uint64_t g = a; Cell &c = cmap[mix(g) >> (64 - MAPB)];
  bool conflict = false; int t = me->tnum;
  if (c.epoch == epoch && c.gran == g) {
    if (wr) conflict = (c.writer >= 0 && c.writer != t) || (c.readers & ~(1ull << t));
    else conflict = (c.writer >= 0 && c.writer != t);
  } else { c.gran = g; c.epoch = epoch; c.writer = -1; c.readers = 0; c.flags = 0; }
  if (wr) c.writer = t; else c.readers |= 1ull << t;
  if (conflict) {
    if (!c.flags) { c.flags = 1; S->races++; if (S->nRacePc < 16) { bool seen = false; for (int i = 0; i < S->nRacePc; i++) if (S->racePc[i] == (uint64_t)pc) seen = true; if (!seen) S->racePc[S->nRacePc++] = (uint64_t)pc; } 
      bool h = false; for (int i = 0; i < nHot; i++) if (hotGran[i] == g) h = true; if (!h && nHot < 64) hotGran[nHot++] = g; }
  }
  bool hot = conflict;
  if (!hot) for (int i = 0; i < nHot; i++) if (hotGran[i] == g) { hot = true; break; }
  if (hot && C.schedMode != 0 && C.schedMode != 3) { maybeSwitch((rSched.next() & 3) == 0); return; }
  maybeSwitch(false);
}
static inline __attribute__((always_inline)) void access(void *a, int size, bool wr, void *pc)
{
  if (__builtin_expect(!simActive, 0)) return;
  if (__builtin_expect((long)++S->accesses == C.accLimit, 0)) simExit(EK_STEPLIMIT, 1, "memory-access limit reached (no termination)");
  if (curTeam && curTeam->n > 1) teamAccess((uintptr_t)a, size, wr, pc);
}
#define PC __builtin_return_address(0)
#define TS(n) EXPORT void __tsan_read##n(void *p) { access(p, n, false, PC); } \
              EXPORT void __tsan_write##n(void *p) { access(p, n, true, PC); } \
              EXPORT void __tsan_unaligned_read##n(void *p) { access(p, n, false, PC); } \
              EXPORT void __tsan_unaligned_write##n(void *p) { access(p, n, true, PC); } \
              EXPORT void __tsan_volatile_read##n(void *p) { access(p, n, false, PC); } \
              EXPORT void __tsan_volatile_write##n(void *p) { access(p, n, true, PC); } \
              EXPORT void __tsan_unaligned_volatile_read##n(void *p) { access(p, n, false, PC); } \
              EXPORT void __tsan_unaligned_volatile_write##n(void *p) { access(p, n, true, PC); }
TS(1) TS(2) TS(4) TS(8) TS(16)
EXPORT void __tsan_read_range(void *p, size_t n) { access(p, (int)n, false, PC); }
EXPORT void __tsan_write_range(void *p, size_t n) { access(p, (int)n, true, PC); }
EXPORT void __tsan_vptr_update(void **p, void *) { access(p, 8, true, PC); }
EXPORT void __tsan_vptr_read(void **p) { access(p, 8, false, PC); }
EXPORT void __tsan_init(void) { }
EXPORT void __tsan_func_exit(void *) { }
EXPORT void __tsan_func_entry(void *) {
  if (__builtin_expect(!simActive, 0)) return;
  S->steps++;
  if (__builtin_expect((long)S->steps == nextEventStep, 0)) sigOrCrashAtStep();
}
#define AT(n, T) \
 EXPORT T __tsan_atomic##n##_load(const volatile T *a, int) { access((void *)a, n / 8, false, PC); return *a; } \
 EXPORT void __tsan_atomic##n##_store(volatile T *a, T v, int) { access((void *)a, n / 8, false, PC); *a = v; } \
 EXPORT T __tsan_atomic##n##_exchange(volatile T *a, T v, int) { access((void *)a, n / 8, false, PC); T o = *a; *a = v; return o; } \
 EXPORT T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int) { access((void *)a, n / 8, false, PC); T o = *a; *a = o + v; return o; } \
 EXPORT T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int) { access((void *)a, n / 8, false, PC); T o = *a; *a = o - v; return o; } \
 EXPORT T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int) { access((void *)a, n / 8, false, PC); T o = *a; *a = o & v; return o; } \
 EXPORT T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int) { access((void *)a, n / 8, false, PC); T o = *a; *a = o | v; return o; } \
 EXPORT T __tsan_atomic##n##_fetch_xor(volatile T *a, T v, int) { access((void *)a, n / 8, false, PC); T o = *a; *a = o ^ v; return o; } \
 EXPORT T __tsan_atomic##n##_fetch_nand(volatile T *a, T v, int) { access((void *)a, n / 8, false, PC); T o = *a; *a = ~(o & v); return o; } \
 EXPORT int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { access((void *)a, n / 8, false, PC); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
 EXPORT int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { access((void *)a, n / 8, false, PC); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
 EXPORT T __tsan_atomic##n##_compare_exchange_val(volatile T *a, T c, T v, int, int) { access((void *)a, n / 8, false, PC); T o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
EXPORT void __tsan_atomic_thread_fence(int) { }
EXPORT void __tsan_atomic_signal_fence(int) { }

static void *poolMain(void *p)
{
  SThread *t = (SThread *)p; me = t;
  for (;;) {
    while (sem_wait(&t->sem) != 0) { }
    t->fn(t->data);
    t->state = TS_DONE;
    // hand the baton to someone else, then sleep until reused
    SThread *n = nullptr; Team *tm = t->team;
    for (int i = 0; i < tm->n; i++) if (tm->thr[i]->state == TS_RUN) { n = pickNext(t, false); break; }
    if (!n) { bool blocked = false; for (int i = 0; i < tm->n; i++) if (tm->thr[i]->state == TS_BLOCKED) blocked = true;
      if (blocked || tm->thr[0]->state != TS_DONE) simExit(EK_DEADLOCK, 0, "deadlock in parallel region");
      n = tm->thr[0]; }
    S->switches++; hashIn(S->schedHash, (S->parallelAccesses << 16) ^ (uint64_t)(n->tnum << 8) ^ t->tnum ^ 0x80);
    curT = n; sem_post(&n->sem);
  }
  return nullptr;
}
static void runTeam(int n, void (*fn)(void *), void *data)
{
  if (n < 1) n = 1; if (n > MAXT) n = MAXT;
  if (curTeam && curTeam->n > 1) n = 1;   // nested parallelism is off (the OpenMP default)
  if (C.threadLimit > 0 && n > C.threadLimit) n = C.threadLimit;
  Team team; memset(&team, 0, sizeof team); team.n = n; team.parent = curTeam; team.parentTnum = me ? me->tnum : 0;
  SThread *self = me; int savedTnum = self->tnum;
  S->regions++; S->teamThreads += n; if ((uint64_t)n > S->maxTeam) S->maxTeam = n;
  if (n == 1) {
    Team *sv = curTeam; Team *svt = self->team; team.thr[0] = self; 
    // in a nested region keep the outer team for scheduling purposes
    if (sv && sv->n > 1) { fn(data); return; }
    curTeam = &team; self->team = &team; self->tnum = 0;
    fn(data);
    curTeam = sv; self->team = svt; self->tnum = savedTnum; return;
  }
  epoch++; 
  Team *sv = curTeam; Team *svt = self->team;
  team.thr[0] = self; self->tnum = 0; self->team = &team; self->state = TS_RUN; self->prio = (int)rSched.below(1 << 20);
  for (int i = 1; i < n; i++) {
    SThread &t = pool[i];
    if (!t.created) { t.created = 1; t.id = i; sem_init(&t.sem, 0, 0);
      pthread_attr_t at; pthread_attr_init(&at); 
      char *stk = (char *)mmap((void *)(0x310000000000ull + (uint64_t)i * (8ull << 20)), 4 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
      if (stk == MAP_FAILED) simExit(EK_SIMERR, 0, "thread stack mmap failed");
      fillMem(stk + (4 << 20) - (64 << 10), 64 << 10, 0); pthread_attr_setstack(&at, stk, 4 << 20);
      int sa = simActive; simActive = 0; int rc = pthread_create(&t.th, &at, poolMain, &t); simActive = sa; pthread_attr_destroy(&at);
      if (rc) simExit(EK_SIMERR, rc, "pthread_create failed"); }
    t.fn = fn; t.data = data; t.team = &team; t.tnum = i; t.state = TS_RUN; t.prio = (int)rSched.below(1 << 20); team.thr[i] = &t;
  }
  curTeam = &team; curT = self;
  // who starts?
  SThread *first = pickNext(nullptr, true); if (C.schedMode == 0) first = self;
  if (first != self) handoff(first);
  fn(data);
  self->state = TS_DONE;
  bool others = false; for (int i = 1; i < n; i++) if (team.thr[i]->state != TS_DONE) others = true;
  if (others) { SThread *nx = pickNext(self, false); if (!nx) simExit(EK_DEADLOCK, 0, "deadlock at end of parallel region"); handoff(nx); }
  for (int i = 1; i < n; i++) if (team.thr[i]->state != TS_DONE) simExit(EK_SIMERR, 0, "join error");
  epoch++;
  curTeam = sv; self->team = svt; self->tnum = savedTnum; self->state = TS_RUN; curT = self;
}
static int wantThreads(unsigned n) { int k = n ? (int)n : (numThreadsVar > 0 ? numThreadsVar : simCores); return k < 1 ? 1 : k; }

static SThread mainT;
EXPORT void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) {
  if (!simActive) { fn(data); return; } runTeam(wantThreads(n), fn, data); }
EXPORT unsigned GOMP_parallel_reductions(void (*fn)(void *), void *data, unsigned n, unsigned) { int k = wantThreads(n); runTeam(k, fn, data); return k; }
EXPORT int omp_get_num_threads(void) { return (simActive && me && me->team) ? me->team->n : 1; }
EXPORT int omp_get_thread_num(void) { return (simActive && me) ? me->tnum : 0; }
EXPORT int omp_get_max_threads(void) { return numThreadsVar > 0 ? numThreadsVar : simCores; }
EXPORT int omp_get_num_procs(void) { return simCores; }
EXPORT int omp_get_thread_limit(void) { return C.threadLimit ? C.threadLimit : 1 << 30; }
EXPORT void omp_set_num_threads(int n) { numThreadsVar = n; }
EXPORT int omp_in_parallel(void) { return curTeam && curTeam->n > 1; }
EXPORT void omp_set_dynamic(int) { }
EXPORT int omp_get_dynamic(void) { return 0; }
EXPORT void omp_set_nested(int) { }
EXPORT int omp_get_nested(void) { return 0; }
EXPORT int omp_get_level(void) { return curTeam && curTeam != &rootTeam ? 1 : 0; }
EXPORT int omp_get_active_level(void) { return omp_in_parallel(); }
EXPORT void omp_set_schedule(int, int) { }
EXPORT void omp_get_schedule(int *k, int *c) { *k = 1; *c = 0; }
static Team *T() { return (me && me->team) ? me->team : &rootTeam; }

EXPORT void GOMP_barrier(void) {
  if (!simActive) return; Team *t = T(); if (t->n < 2) return;
  unsigned gen = t->barrierGen;
  if (++t->barrierCount == t->n) {
    t->barrierCount = 0; t->barrierGen++; epoch++;
    for (int i = 0; i < t->n; i++) if (t->thr[i]->state == TS_BLOCKED) t->thr[i]->state = TS_RUN;
    maybeSwitch(true); return; }
  me->state = TS_BLOCKED;
  while (t->barrierGen == gen) blockUntilOther();
}
EXPORT bool GOMP_barrier_cancel(void) { GOMP_barrier(); return false; }
// locks: owner + wait by polling through the scheduler
struct SLock { int owner; int depth; };
static SLock critLock, atomLock; struct NamedLock { void *key; SLock l; }; static NamedLock named[64]; static int nNamed;
static void lockAcq(SLock *l, bool nest = false) {
  if (!simActive || !curTeam || curTeam->n < 2) { l->depth++; return; }
  if (nest && l->depth && l->owner == me->tnum + 1) { l->depth++; return; }
  maybeSwitch(false);
  int spins = 0;
  while (l->depth) { if (++spins > 100000) simExit(EK_DEADLOCK, 0, "lock never released"); SThread *n = pickNext(me, false); if (!n) simExit(EK_DEADLOCK, 0, "deadlock on lock"); handoff(n); }
  l->depth = 1; l->owner = me->tnum + 1; }
static void lockRel(SLock *l) { l->depth--; if (!l->depth) l->owner = 0; if (simActive) maybeSwitch(false); }
EXPORT void GOMP_critical_start(void) { lockAcq(&critLock); }
EXPORT void GOMP_critical_end(void) { lockRel(&critLock); }
static SLock *nameLock(void **k) { for (int i = 0; i < nNamed; i++) if (named[i].key == k) return &named[i].l; named[nNamed].key = k; return &named[nNamed++].l; }
EXPORT void GOMP_critical_name_start(void **k) { lockAcq(nameLock(k)); }
EXPORT void GOMP_critical_name_end(void **k) { lockRel(nameLock(k)); }
EXPORT void GOMP_atomic_start(void) { lockAcq(&atomLock); }
EXPORT void GOMP_atomic_end(void) { lockRel(&atomLock); }
EXPORT void omp_init_lock(void *l) { *(void **)l = nullptr; }
EXPORT void omp_destroy_lock(void *) { }
EXPORT void omp_set_lock(void *l) { lockAcq(nameLock((void **)l)); }
EXPORT void omp_unset_lock(void *l) { lockRel(nameLock((void **)l)); }
EXPORT int omp_test_lock(void *l) { SLock *k = nameLock((void **)l); if (k->depth) return 0; lockAcq(k); return 1; }
EXPORT void omp_init_nest_lock(void *) { }
EXPORT void omp_destroy_nest_lock(void *) { }
EXPORT void omp_set_nest_lock(void *l) { lockAcq(nameLock((void **)l), true); }
EXPORT void omp_unset_nest_lock(void *l) { lockRel(nameLock((void **)l)); }
EXPORT bool GOMP_single_start(void) { Team *t = T(); if (t->n < 2) return true; int k = ++t->singleGen[me->tnum]; if (k > t->singleDone) { t->singleDone = k; return true; } return false; }
EXPORT void *GOMP_single_copy_start(void) { if (GOMP_single_start()) return nullptr; GOMP_barrier(); void *p = T()->copyptr; GOMP_barrier(); return p; }
EXPORT void GOMP_single_copy_end(void *p) { T()->copyptr = p; GOMP_barrier(); GOMP_barrier(); }

// worksharing loops: dynamic/guided/runtime/static all hand out chunks from a shared cursor
static WorkShare *wsCur(bool start, bool *first) {
  Team *t = T(); int i = t->n < 2 ? 0 : me->tnum; if (start) t->wsGen[i]++;
  unsigned g = t->wsGen[i]; WorkShare *w = &t->ws[g % 8]; if (first) *first = false;
  if (start && g > t->wsAlloc) { t->wsAlloc = g; memset(w, 0, sizeof *w); if (first) *first = true; }
  return w; }
static bool wsNext(WorkShare *w, long *is, long *ie) {
  if (simActive) maybeSwitch(C.schedMode != 0 && C.schedMode != 3);
  long left = w->incr > 0 ? (w->end - w->next + w->incr - 1) / w->incr : (w->next - w->end - w->incr - 1) / -w->incr;
  if (left <= 0) return false; S->chunks++;
  long c = w->chunk > 0 ? w->chunk : 1; if (w->kind == 1) { long q = left / (2 * T()->n); if (q > c) c = q; } if (c > left) c = left;
  *is = w->next; w->next += c * w->incr; *ie = w->next; return true; }
static bool wsStart(int kind, long s, long e, long inc, long chunk, long *is, long *ie) {
  bool f; WorkShare *w = wsCur(true, &f); if (f) { w->next = s; w->end = e; w->incr = inc; w->chunk = chunk; w->kind = kind; } return wsNext(w, is, ie); }
#define LOOP(nm, kind) \
 EXPORT bool GOMP_loop_##nm##_start(long s, long e, long inc, long c, long *is, long *ie) { return wsStart(kind, s, e, inc, c, is, ie); } \
 EXPORT bool GOMP_loop_##nm##_next(long *is, long *ie) { return wsNext(wsCur(false, nullptr), is, ie); } \
 EXPORT bool GOMP_loop_ull_##nm##_start(bool up, unsigned long s, unsigned long e, unsigned long inc, unsigned long c, unsigned long *is, unsigned long *ie) { return wsStart(kind, (long)s, (long)e, (long)inc, (long)c, (long *)is, (long *)ie); } \
 EXPORT bool GOMP_loop_ull_##nm##_next(unsigned long *is, unsigned long *ie) { return wsNext(wsCur(false, nullptr), (long *)is, (long *)ie); }
LOOP(static, 0) LOOP(dynamic, 0) LOOP(guided, 1) LOOP(nonmonotonic_dynamic, 0) LOOP(nonmonotonic_guided, 1)
#define LOOPR(nm) \
 EXPORT bool GOMP_loop_##nm##_start(long s, long e, long inc, long *is, long *ie) { return wsStart(0, s, e, inc, 1, is, ie); } \
 EXPORT bool GOMP_loop_##nm##_next(long *is, long *ie) { return wsNext(wsCur(false, nullptr), is, ie); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
EXPORT void GOMP_loop_end(void) { GOMP_barrier(); }
EXPORT bool GOMP_loop_end_cancel(void) { GOMP_barrier(); return false; }
EXPORT void GOMP_loop_end_nowait(void) { }
struct PLoop { void (*fn)(void *); void *data; int kind; long s, e, inc, c; };
static void ploopBody(void *p) { PLoop *q = (PLoop *)p; Team *t = T(); int i = t->n < 2 ? 0 : me->tnum; t->wsGen[i]++; unsigned g = t->wsGen[i]; WorkShare *w = &t->ws[g % 8];
  if (g > t->wsAlloc) { t->wsAlloc = g; memset(w, 0, sizeof *w); w->next = q->s; w->end = q->e; w->incr = q->inc; w->chunk = q->c; w->kind = q->kind; } q->fn(q->data); }
static void ploop(void (*fn)(void *), void *d, unsigned n, int kind, long s, long e, long inc, long c) { PLoop q = { fn, d, kind, s, e, inc, c }; runTeam(wantThreads(n), ploopBody, &q); }
#define PLOOP(nm, kind) EXPORT void GOMP_parallel_loop_##nm(void (*fn)(void *), void *d, unsigned n, long s, long e, long inc, long c, unsigned) { ploop(fn, d, n, kind, s, e, inc, c); }
PLOOP(static, 0) PLOOP(dynamic, 0) PLOOP(guided, 1) PLOOP(nonmonotonic_dynamic, 0) PLOOP(nonmonotonic_guided, 1)
#define PLOOPR(nm) EXPORT void GOMP_parallel_loop_##nm(void (*fn)(void *), void *d, unsigned n, long s, long e, long inc, unsigned) { ploop(fn, d, n, 0, s, e, inc, 1); }
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)
EXPORT unsigned GOMP_sections_start(unsigned n) { bool f; WorkShare *w = wsCur(true, &f); if (f) { w->next = 1; w->end = (long)n + 1; w->incr = 1; w->chunk = 1; } long a, b; return wsNext(w, &a, &b) ? (unsigned)a : 0; }
EXPORT unsigned GOMP_sections_next(void) { long a, b; return wsNext(wsCur(false, nullptr), &a, &b) ? (unsigned)a : 0; }
EXPORT void GOMP_sections_end(void) { GOMP_barrier(); }
EXPORT void GOMP_sections_end_nowait(void) { }
EXPORT void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned c, unsigned) { ploop(fn, d, n, 0, 1, (long)c + 1, 1, 1); }
EXPORT void GOMP_task(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long sz, long al, bool, unsigned, void **, int, void *) {
  if (cpyfn) { char *b = (char *)alloca(sz + al); char *a = (char *)(((uintptr_t)b + al - 1) & ~(uintptr_t)(al - 1)); cpyfn(a, data); fn(a); } else fn(data); }
EXPORT void GOMP_taskwait(void) { }
EXPORT void GOMP_taskyield(void) { }
EXPORT void GOMP_taskgroup_start(void) { }
EXPORT void GOMP_taskgroup_end(void) { }
EXPORT void GOMP_ordered_start(void) { }
EXPORT void GOMP_ordered_end(void) { }

// FFTW's thread pool runs through its documented callback seam, job by job, under the same scheduler
struct FJob { void *(*work)(char *); char *jd; size_t el; };
static void fftBody(void *p) { FJob *j = (FJob *)p; int i = me->tnum; maybeSwitch(C.schedMode != 0); j->work(j->jd + j->el * i); }
static void fftLoop(void *(*work)(char *), char *jd, size_t el, int n, void *) {
  S->fftJobs += n;
  int sv = C.threadLimit; C.threadLimit = 0; FJob j = { work, jd, el };
  if (n > MAXT || (curTeam && curTeam->n > 1)) { for (int i = 0; i < n; i++) work(jd + el * i); }
  else runTeam(n, fftBody, &j);
  C.threadLimit = sv; }

void sim_fill_stack(char *lo, size_t n)
{
  rHeap.s = mix(C.seedHeap ^ 0x57AC4); fillMem(lo, n, 0);
}
extern "C" { extern int simCoresRequested; int simCoresRequested = 1; }
void sim_activate(char *)
{
  rSched.s = mix(C.seedSched ^ 0x5C4ED); rHeap.s = mix(C.seedHeap ^ 0x4EA9); rLayout.s = mix(C.seedHeap ^ 0x1A07); rClock.s = mix(C.seedClock ^ 0xC10C); rEntropy.s = mix(C.seedEntropy ^ 0xE47);
  if (C.schedP < 1) C.schedP = 1;
  vnow = (int64_t)C.clockBase * 1000000000ll; simCores = simCoresRequested; if (simCores < 1) simCores = 1;
  S->schedHash = S->evHash = S->stateHash = 0xcbf29ce484222325ull;
  heapBase = (char *)mmap((void *)0x200000000000ull, heapSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  for (int i = 0; i < RED; i++) redPat[i] = (unsigned char)(0xC5 ^ i);
  if (C.heapFill) { fillMem(redPat, RED, 0); redPat[3] ^= 0x5C; }
  if (heapBase == MAP_FAILED) { heapBase = nullptr; simExit(EK_SIMERR, 0, "heap mmap failed"); }
  // resolve everything that might call malloc lazily
  R_signal(); R_sigaction(); R_fopen(); R_fileno(); R_open(); R_read(); R_write(); R_writev(); R_lseek(); R_close(); R_fsync(); R_ftruncate(); R_fstat(); R_stat(); R_access(); R_unlink(); R_ioctl(); R_poll();
  memset(&mainT, 0, sizeof mainT); sem_init(&mainT.sem, 0, 0); mainT.state = TS_RUN; me = &mainT; curT = &mainT;
  memset(&rootTeam, 0, sizeof rootTeam); rootTeam.n = 1; rootTeam.thr[0] = &mainT; curTeam = nullptr; mainT.team = nullptr;
  typedef void (*setcb)(void (*)(void *(*)(char *), char *, size_t, int, void *), void *);
  setcb cb = (setcb)dlsym(RTLD_DEFAULT, "fftw_threads_set_callback"); if (cb) cb(fftLoop, nullptr);
  recomputeEvent();
  simActive = 1;
}
void sim_check_heap_at_end();
void sim_check_heap_at_end()
{
  // walk is not possible with variable gaps; scan for live block headers at 16-byte steps
  for (size_t o = 16; o + sizeof(Blk) < heapTop; o += 16) {
    Blk *b = (Blk *)(heapBase + o);
    if (b->magic == MAGIC_LIVE && b->req < heapSize && (char *)b->raw >= heapBase && (char *)b->raw <= (char *)b && b->total >= b->req + sizeof(Blk) + 16
        && ((uint64_t *)((char *)b - 16))[1] < (uint64_t)NCLS && clsSize((int)((uint64_t *)((char *)b - 16))[1]) == b->total) checkBlk(b);
  }
}
