// Fork server: one simulated execution of a program per forked child.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "simrt.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <string>
#include <vector>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <pthread.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <dlfcn.h>
#include <execinfo.h>
#include <cxxabi.h>

extern int prog_main(int argc, char **argv);
extern char *vfsArena;
extern "C" int simCoresRequested;
void sim_check_heap_at_end();
void sim_fill_stack(char *lo, size_t n);

static void *warm[4]; static int warmN = backtrace(warm, 4);   // loads the unwinder before any simulated run
static bool readN(int fd, char *p, size_t n) { while (n) { ssize_t r = ::read(fd, p, n); if (r <= 0) return false; p += r; n -= r; } return true; }
static bool writeN(int fd, const char *p, size_t n) { while (n) { ssize_t r = ::write(fd, p, n); if (r <= 0) return false; p += r; n -= r; } return true; }

static std::vector<std::string> gArgs; static std::vector<char *> gArgv;
static void atEnd() { if (simActive) { sim_check_heap_at_end(); } }
static void *runMain(void *)
{
  atexit(atEnd);
  sim_activate(nullptr);
  int rc = prog_main((int)gArgv.size() - 1, gArgv.data());
  S->mainReturned = 1;
  exit(rc);
}
static const size_t STK = size_t(64) << 20;

static int cpuGuard = 40;
static void child(const std::string &spec, size_t hdrEnd, int fo, int fe)
{
  memset(&C, 0, sizeof C); C.pid = 4242; C.clockBase = 1500000000; C.schedP = 100; C.logOps = 1;
  long disk = 0; size_t blob = hdrEnd; size_t p = 0; std::vector<std::pair<std::string, std::string>> envs;
  S->vfsUsed = 0;
  int nf = 0;
  while (p < hdrEnd) {
    size_t e = spec.find('\n', p); std::string ln = spec.substr(p, e - p); p = e + 1;
    size_t sp = ln.find(' '); std::string k = ln.substr(0, sp), v = sp == std::string::npos ? "" : ln.substr(sp + 1);
    long n = atol(v.c_str());
    if (k == "arg") gArgs.push_back(v);
    else if (k == "env") { size_t q = v.find('='); envs.push_back({ v.substr(0, q), v.substr(q + 1) }); }
    else if (k == "seedSched") C.seedSched = strtoull(v.c_str(), 0, 10);
    else if (k == "seedHeap") C.seedHeap = strtoull(v.c_str(), 0, 10);
    else if (k == "seedClock") C.seedClock = strtoull(v.c_str(), 0, 10);
    else if (k == "seedEntropy") C.seedEntropy = strtoull(v.c_str(), 0, 10);
    else if (k == "schedMode") C.schedMode = n;
    else if (k == "schedP") C.schedP = n;
    else if (k == "heapFill") C.heapFill = n;
    else if (k == "heapLayout") C.heapLayout = n;
    else if (k == "threadLimit") C.threadLimit = n;
    else if (k == "cores") simCoresRequested = n;
    else if (k == "clockBase") C.clockBase = n;
    else if (k == "clockMode") C.clockMode = n;
    else if (k == "stepLimit") C.stepLimit = n;
    else if (k == "accLimit") C.accLimit = n;
    else if (k == "ioLimit") C.ioLimit = n;
    else if (k == "sigStep") C.sigStep = n;
    else if (k == "sigStep2") C.sigStep2 = n;
    else if (k == "crashStep") C.crashStep = n;
    else if (k == "pid") C.pid = n;
    else if (k == "logOps") C.logOps = n;
    else if (k == "diskCap") disk = n;
    else if (k == "jump") { if (C.nJumps < 16) { sscanf(v.c_str(), "%ld %ld", &C.jumpAt[C.nJumps], &C.jumpNs[C.nJumps]); C.nJumps++; } }
    else if (k == "rule") {
      if (S->nRules < MAXRULES) { Rule &r = S->rules[S->nRules++]; memset(&r, 0, sizeof r);
        sscanf(v.c_str(), "%d %127s %ld %d %d %d %ld", &r.op, r.glob, &r.nth, &r.persistent, &r.act, &r.err, &r.arg); } }
    else if (k == "file") { // file <used> <ro> <size> <name>
      int used, ro, off; long sz; sscanf(v.c_str(), "%d %d %ld %n", &used, &ro, &sz, &off);
      if (nf >= MAXFILES) _exit(99);
      VFile &f = S->files[nf++]; memset(&f, 0, sizeof f); strncpy(f.name, v.c_str() + off, sizeof f.name - 1);
      f.used = used; f.ro = ro; f.size = (size_t)sz; f.cap = (f.size + 4095) & ~size_t(4095); f.off = S->vfsUsed;
      S->vfsUsed += f.cap; if (S->vfsUsed > VFS_ARENA) _exit(98);
      memcpy(vfsArena + f.off, spec.data() + blob, f.size); blob += f.size; }
    else { fprintf(stderr, "sim: unknown spec key %s\n", k.c_str()); _exit(97); }
  }
  for (int i = 0; i < MAXFILES; i++) S->diskUsed += S->files[i].used ? (long)S->files[i].size : 0;
  S->diskCap = disk > 0 ? disk + S->diskUsed : 0;   // capacity = free space granted on top of the inputs
  clearenv(); setenv("TZ", "UTC0", 1); for (auto &e : envs) setenv(e.first.c_str(), e.second.c_str(), 1);
  tzset();
  for (auto &a : gArgs) gArgv.push_back(strdup(a.c_str())); gArgv.push_back(nullptr);
  dup2(fo, 1); dup2(fe, 2); int dn = open("/dev/null", O_RDONLY); dup2(dn, 0);
  struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
  struct rlimit cpu = { (rlim_t)cpuGuard, (rlim_t)cpuGuard + 5 }; setrlimit(RLIMIT_CPU, &cpu);   // loops in uninstrumented libraries
  // fixed, seeded-garbage-filled stack for the simulated main thread
  char *stk = (char *)mmap((void *)0x300000000000ull, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (stk == MAP_FAILED) _exit(96);
  sim_fill_stack(stk + STK - (512 << 10), 512 << 10);
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, stk, STK);
  pthread_t th; if (pthread_create(&th, &at, runMain, nullptr)) _exit(95);
  pthread_join(th, nullptr); _exit(94);
}

static volatile pid_t curChild = 0; static volatile int timedOut = 0;
static void onAlarm(int) { timedOut = 1; if (curChild) kill(curChild, SIGKILL); }

int main(int argc, char **argv)
{
  int wall = argc > 1 ? atoi(argv[1]) : 120; cpuGuard = wall / 5 + 1;
  S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  vfsArena = (char *)mmap(nullptr, VFS_ARENA, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (S == MAP_FAILED || vfsArena == MAP_FAILED) return 1;
  int fo = memfd_create("out", 0), fe = memfd_create("err", 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onAlarm; sigaction(SIGALRM, &sa, nullptr);
  signal(SIGPIPE, SIG_IGN);
  for (;;) {
    uint64_t len[2]; // header length, total length
    if (!readN(0, (char *)len, sizeof len)) return 0;
    std::string spec(len[1], 0); if (!readN(0, &spec[0], len[1])) return 0;
    memset(S, 0, offsetof(Shared, log)); S->nLog = 0;
    if (ftruncate(fo, 0) || ftruncate(fe, 0)) return 1; lseek(fo, 0, SEEK_SET); lseek(fe, 0, SEEK_SET);
    timedOut = 0;
    pid_t pid = fork();
    if (pid == 0) child(spec, len[0], fo, fe);
    curChild = pid; alarm(wall);
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) { }
    alarm(0); curChild = 0;
    int kind = S->exitKind, code = S->exitCode, sig = 0;
    if (timedOut || (WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU)) { kind = 20; }
    else if (WIFSIGNALED(st)) { kind = 10; sig = WTERMSIG(st); }
    else if (!kind) { kind = EK_EXIT; code = WEXITSTATUS(st); }
    std::string h; char b[1024];
#define ST(nm) snprintf(b, sizeof b, "s %s %lld\n", #nm, (long long)S->nm); h += b;
    snprintf(b, sizeof b, "kind %d\ncode %d\nsignal %d\n", kind, code, sig); h += b;
    h += std::string("note ") + S->note + "\n"; h += std::string("canary ") + S->canaryNote + "\n";
    { std::string w; Dl_info self; dladdr((void *)&prog_main, &self);
      for (int i = 0, n = 0; i < S->nSite && n < 4; i++) {
        Dl_info d; if (!dladdr((char *)S->sitePc[i] - 1, &d) || d.dli_fbase != self.dli_fbase || !d.dli_sname) continue;
        int ok = 0; char *nm = abi::__cxa_demangle(d.dli_sname, 0, 0, &ok); std::string f = nm ? nm : d.dli_sname; free(nm);
        f = f.substr(0, f.find('(')); if (f.compare(0, 3, "std") == 0 || f.find(' ') != std::string::npos || f == "malloc" || f == "calloc" || f == "realloc" || f.find("__gnu") == 0) continue;
        w += (n++ ? "<" : "") + f; }
      h += "site " + w + "\n"; }
    ST(mainReturned) ST(steps) ST(accesses) ST(ioOps) ST(allocs) ST(bigAllocs) ST(heapBytes) ST(timeCalls) ST(entropyCalls) ST(regions) ST(switches) ST(parallelAccesses)
    ST(maxTeam) ST(chunks) ST(races) ST(schedHash) ST(evHash) ST(sigDelivered) ST(sigStep) ST(sigSetStep) ST(sigHandlerCalls) ST(accessesAtSig) ST(canaryBad) ST(badFree) ST(virtualNs) ST(fftJobs) ST(capHits) ST(nLog)
    for (int i = 0; i < FA_N; i++) { snprintf(b, sizeof b, "s fault%d %llu\n", i, (unsigned long long)S->faultFired[i]); h += b; }
    for (int i = 0; i < S->nRules; i++) { snprintf(b, sizeof b, "r %d %ld %ld\n", i, S->rules[i].count, S->rules[i].fired); h += b; }
    struct stat so, se; fstat(fo, &so); fstat(fe, &se);
    snprintf(b, sizeof b, "out %ld %ld\n", (long)so.st_size, (long)se.st_size); h += b;
    std::string blobs; blobs.resize(so.st_size + se.st_size);
    if (pread(fo, &blobs[0], so.st_size, 0) < 0 || pread(fe, &blobs[0] + so.st_size, se.st_size, 0) < 0) return 1;
    for (int i = 0; i < MAXFILES; i++) { VFile &f = S->files[i]; if (!f.name[0] || f.name[0] == 1) continue;
      bool send = f.used == 1 && (!f.ro || f.nWrites || f.nWriteOpens);
      snprintf(b, sizeof b, "f %d %d %d %d %d %d %d %ld %d %d %s\n", f.used, f.ro, f.nWriteOpens, f.nWrites, f.nUnlinks, f.nReads, f.nReadOpens, (long)f.size, send ? 1 : 0, i, f.name); h += b;
      if (send) blobs.append(vfsArena + f.off, f.size); }
    long nl = S->nLog < (uint64_t)MAXLOG ? (long)S->nLog : MAXLOG; if (!C.logOps && 0) nl = 0;
    snprintf(b, sizeof b, "log %ld %d\n", nl, (int)sizeof(OpRec)); h += b;
    blobs.append((char *)S->log, nl * sizeof(OpRec));
    uint64_t ol[2] = { h.size(), blobs.size() };
    if (!writeN(1, (char *)ol, sizeof ol) || !writeN(1, h.data(), h.size()) || !writeN(1, blobs.data(), blobs.size())) return 0;
  }
}
