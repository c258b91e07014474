// simrt: deterministic simulation runtime for the imfit programs.
// Everything nondeterministic that a simulated program can observe goes through here:
// threads (OpenMP runtime + FFTW thread pool), clocks, entropy, the file system, the
// heap, signals and process death.  One run specification => one exact execution.
#pragma once
#include <cstddef>
#include <cstdint>

enum ExitKind { EK_NONE = 0, EK_EXIT = 1, EK_CRASH = 2, EK_SIGDFL = 3, EK_STEPLIMIT = 4,
                EK_DEADLOCK = 5, EK_IOLIMIT = 6, EK_SIMERR = 7, EK_RETURNED = 8 };

enum OpKind { OP_OPEN_R = 0, OP_OPEN_W, OP_READ, OP_WRITE, OP_CLOSE, OP_UNLINK, OP_SEEK,
              OP_STAT, OP_RENAME, OP_TRUNC, OP_FSYNC, OP_ALLOC, OP_TIME, OP_ENTROPY, OP_N };

enum FaultAct { FA_NONE = 0, FA_ERR, FA_SHORT, FA_SHORT_ERR, FA_CRASH, FA_CRASH_PARTIAL,
                FA_SIGINT, FA_NULL, FA_FLIP, FA_N };

static const int MAXFILES = 160;
static const int MAXRULES = 48;
static const int MAXLOG = 60000;
static const size_t VFS_ARENA = size_t(192) << 20;

struct VFile {
  char name[200];
  int used;       // 1 = exists, 2 = directory, 0 = free slot
  int ro;         // input file supplied by the driver (writes allowed, but recorded)
  int nWriteOpens, nWrites, nUnlinks, nReads, nReadOpens;
  size_t size, cap, off;
};

struct Rule {
  int op;            // OpKind
  char glob[128];    // file-name pattern, "*" = any
  long nth;          // 1-based count of matching ops
  int persistent;
  int act;           // FaultAct
  int err;           // errno
  long arg;          // partial byte count / min alloc size / bit index
  long count, fired;
};

struct OpRec { uint8_t op; uint8_t act; int16_t file; int32_t err; int64_t a; uint64_t step; };

struct Shared {
  // results
  int exitKind; int exitCode; int mainReturned;
  char note[512];
  uint64_t steps, accesses, ioOps, allocs, bigAllocs, frees, heapBytes, timeCalls, entropyCalls;
  uint64_t regions, switches, parallelAccesses, teamThreads, maxTeam, chunks;
  uint64_t races;           // conflicting unsynchronised access pairs observed (guide only)
  uint64_t racePc[16]; int nRacePc;
  uint64_t schedHash, stateHash, evHash;
  uint64_t sigDelivered, sigStep, stepsAtEnd, accessesAtSig, sigSetStep, sigHandlerSet, sigHandlerCalls;
  uint64_t canaryBad; char canaryNote[256];
  uint64_t badFree; void *sitePc[24]; int nSite;   // call stack of the first refused allocation
  int64_t virtualNs;
  uint64_t fftJobs;
  uint64_t faultFired[FA_N];
  // VFS
  VFile files[MAXFILES];
  size_t vfsUsed;
  long diskCap, diskUsed;
  uint64_t capHits;
  // rules
  Rule rules[MAXRULES]; int nRules;
  // log
  OpRec log[MAXLOG]; uint64_t nLog;
};
extern Shared *S;

struct SimConf {
  uint64_t seedSched, seedHeap, seedClock, seedEntropy;
  int schedMode; long schedP;   // mode 0 none(serial order), 1 random, 2 round-robin, 3 run-to-completion random order, 4 race-directed, 5 priority
  int heapFill;                 // 0 zero,1 random bytes,2 NaN,3 0xAA,4 huge doubles,5 small ints
  int heapLayout;
  int threadLimit;              // 0 = none
  long clockBase; long clockMode;
  long stepLimit, accLimit, ioLimit;
  long sigStep;                 // SIGINT at func-entry step n (0 = off)
  long sigStep2;
  long crashStep;
  int pid;
  int nJumps; long jumpAt[16]; long jumpNs[16];
  int logOps;
};
extern SimConf C;
extern int simActive;
void sim_activate(char *stackMark);
void sim_finish_stats();
