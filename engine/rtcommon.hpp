// symir: shared state of the exploration (fork based) and guest memory.
#pragma once
#include "expr.hpp"
#include <semaphore.h>
#include <pthread.h>
#include <atomic>

// ------------------------------------------------------------ shared exploration state
static const int MAXID = 4096, MAXSLOT = 65536, MAXFN = 200000;
struct IdStat { char name[120]; std::atomic<uint64_t> reached, discharged, trivially, violated; };
struct Shared {
  pthread_mutex_t mu;
  int freeTokens; int stackTop; int stack_[MAXSLOT];
  sem_t sem[MAXSLOT]; int freeSlots[MAXSLOT]; int nFreeSlots;
  std::atomic<int> live, stop, stopReason;
  std::atomic<uint64_t> paths, pathsAssumeEnd, forks, instrs, queries, qsat, qunsat, qunknown, solverUs, violations, engineFails, inexact, undefBranches, concretisations, maxDepth, infeasible, samples, memErrs, distinctV;
  std::atomic<int> nIds; IdStat ids[MAXID];
  std::atomic<uint8_t> fnSeen[MAXFN];
};
extern Shared* SH;
struct Opts { double timeLimit = 600; uint64_t maxInstr = 400000000; int jobs = 8; int maxViol = 10; std::string out; uint64_t seed = 1; int nsamples = 20; uint64_t sampleEvery = 1; bool trace = false; bool forkReal = false; std::string concreteInputs; };
extern Opts opts;
void explore_init();
bool explore_fork();            // true in the child (takes the alternative), false in the parent
[[noreturn]] void path_exit();
void out_line(const std::string& s);
IdStat* id_stat(const std::string& n);
void check_stop();
std::string jesc(const std::string& s);

// ------------------------------------------------------------ guest memory
static const uint64_t ABASE = 0x100000000000ull;
static const uint64_t ASIZE = 1ull << 31;
static const uint64_t SHBASE = 0x180000000000ull;
static const uint64_t SYBASE = 0x200000000000ull;
static const uint64_t STK_BASE = ABASE + (1ull << 30) + (1ull << 29), STK_END = ABASE + ASIZE - 4096;
static const uint64_t FNBASE = 0x300000000000ull;
static inline uint8_t* shp(uint64_t a) { return (uint8_t*)(SHBASE + (a - ABASE)); }
static inline Expr** syp(uint64_t a) { return (Expr**)(SYBASE + (a - ABASE) * 8); }
static inline bool inArena(uint64_t a, uint64_t n) { return a >= ABASE && a < ABASE + ASIZE && n <= ABASE + ASIZE - a; }
void mem_init();
uint64_t mem_alloc(uint64_t n, uint64_t align, bool heap);
bool mem_free(uint64_t a); // false if invalid
uint64_t mem_size(uint64_t a, bool& ok);
