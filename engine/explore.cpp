#include "rtcommon.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <cstring>
#include <deque>
Shared* SH; Opts opts;
static int outFd = -1;

void explore_init() {
  SH = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  pthread_mutexattr_t at; pthread_mutexattr_init(&at); pthread_mutexattr_setpshared(&at, PTHREAD_PROCESS_SHARED);
  pthread_mutex_init(&SH->mu, &at);
  SH->freeTokens = opts.jobs - 1; SH->nFreeSlots = MAXSLOT;
  for (int i = 0; i < MAXSLOT; i++) SH->freeSlots[i] = MAXSLOT - 1 - i;
  SH->live = 1;
  outFd = open(opts.out.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  if (outFd < 0) { perror("out"); exit(3); }
}
void out_line(const std::string& s) { std::string t = s + "\n"; if (write(outFd, t.data(), t.size()) != (ssize_t)t.size()) perror("write"); }
std::string jesc(const std::string& s) {
  std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o;
}
IdStat* id_stat(const std::string& n) {
  pthread_mutex_lock(&SH->mu);
  int k = SH->nIds; IdStat* r = nullptr;
  for (int i = 0; i < k; i++) if (n.compare(0, 119, SH->ids[i].name) == 0) { r = &SH->ids[i]; break; }
  if (!r && k < MAXID) { r = &SH->ids[k]; strncpy(r->name, n.c_str(), 119); SH->nIds = k + 1; }
  pthread_mutex_unlock(&SH->mu);
  if (!r) r = &SH->ids[MAXID - 1];
  return r;
}
static void flush_stats() {
  SH->queries += sstats.queries; SH->qsat += sstats.sat; SH->qunsat += sstats.unsat; SH->qunknown += sstats.unknown; SH->solverUs += (uint64_t)(sstats.time * 1e6);
  sstats = SolverStats{};
}
static void release_token() {
  pthread_mutex_lock(&SH->mu);
  if (SH->stackTop > 0) { int s = SH->stack_[--SH->stackTop]; sem_post(&SH->sem[s]); }
  else SH->freeTokens++;
  pthread_mutex_unlock(&SH->mu);
}
extern void interp_flush();
[[noreturn]] void path_exit() {
  interp_flush(); flush_stats();
  release_token(); SH->live--;
  _exit(0);
}
void check_stop() { if (SH->stop) { SH->live--; flush_stats(); interp_flush(); release_token(); _exit(0); } }

static int depthNow = 0;
bool explore_fork() {
  check_stop();
  flush_stats();
  SH->forks++; depthNow++;
  uint64_t md = SH->maxDepth; if ((uint64_t)depthNow > md) SH->maxDepth = depthNow;
  int slot = -1;
  pthread_mutex_lock(&SH->mu);
  if (SH->freeTokens > 0) SH->freeTokens--;
  else {
    if (SH->nFreeSlots == 0) { pthread_mutex_unlock(&SH->mu); fprintf(stderr, "out of slots\n"); SH->stop = 1; SH->stopReason = 4; check_stop(); }
    slot = SH->freeSlots[--SH->nFreeSlots];
    sem_init(&SH->sem[slot], 1, 0);
  }
  pthread_mutex_unlock(&SH->mu);
  SH->live++;
  pid_t p = fork();
  if (p < 0) { // cannot fork: give up on the alternative
    SH->live--; SH->engineFails++; out_line("{\"t\":\"fail\",\"msg\":\"fork failed\"}");
    if (slot < 0) release_token();
    else { pthread_mutex_lock(&SH->mu); SH->freeSlots[SH->nFreeSlots++] = slot; pthread_mutex_unlock(&SH->mu); }
    return false;
  }
  if (p == 0) { return true; }
  if (slot >= 0) {
    // the child inherits the token; wait for one to come back (LIFO => depth first)
    pthread_mutex_lock(&SH->mu);
    bool got = false;
    if (SH->freeTokens > 0) { SH->freeTokens--; got = true; } else SH->stack_[SH->stackTop++] = slot;
    pthread_mutex_unlock(&SH->mu);
    if (!got) while (sem_wait(&SH->sem[slot]) != 0) {}
    pthread_mutex_lock(&SH->mu); SH->freeSlots[SH->nFreeSlots++] = slot; pthread_mutex_unlock(&SH->mu);
    check_stop();
  }
  return false;
}

// ------------------------------------------------------------ guest memory
struct Blk { uint64_t size, cls; };
static std::unordered_map<uint64_t, Blk> live_;
static std::unordered_map<uint64_t, std::deque<uint64_t>> freeq;
static uint64_t bump;
void mem_init() {
  auto m = [](uint64_t a, uint64_t n) {
    void* p = mmap((void*)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)a) { perror("mmap arena"); exit(3); }
  };
  m(ABASE, ASIZE); m(SHBASE, ASIZE); m(SYBASE, ASIZE * 8);
  bump = ABASE + 65536;
}
uint64_t mem_alloc(uint64_t n, uint64_t align, bool heap) {
  if (n > (1ull << 29)) return 0;
  uint64_t cls = ((n ? n : 1) + 15) & ~15ull; uint64_t a;
  if (heap) {
    auto& q = freeq[cls];
    if (q.size() > 64 && align <= 16) { a = q.front(); q.pop_front(); }
    else { bump = (bump + 16 + align - 1) / align * align; bump = (bump + 15) & ~15ull; a = bump; bump += cls + 16; }
    live_[a] = {n, cls};
  } else { if (align < 16) align = 16; bump = (bump + 16 + align - 1) / align * align; a = bump; bump += cls + 16; }
  if (bump >= STK_BASE) engine_fail("guest heap exhausted");
  memset(shp(a), 2, n);
  return a;
}
bool mem_free(uint64_t a) {
  auto it = live_.find(a); if (it == live_.end()) return false;
  memset(shp(a), 0, it->second.cls); freeq[it->second.cls].push_back(a); live_.erase(it); return true;
}
uint64_t mem_size(uint64_t a, bool& ok) { auto it = live_.find(a); ok = it != live_.end(); return ok ? it->second.size : 0; }
