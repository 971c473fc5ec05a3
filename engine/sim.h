// Deterministic multi-rank simulator with runtime monitors for ext_mpi_collectives.
// Every simulated MPI rank is a fiber; the library under test is loaded once per rank.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <functional>
#include <mpi.h>

#define MAXR 24

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) { s = seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull; for (int i = 0; i < 4; i++) next(); }
  uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  int below(int n) { return n <= 1 ? 0 : (int)(next() % (uint64_t)n); }
  int range(int a, int b) { return a + below(b - a + 1); }
  bool chance(int num, int den) { return below(den) < num; }
  double unit() { return (double)(next() >> 11) / 9007199254740992.0; }
};

typedef uint32_t VC[MAXR];

enum SchedKind { SK_MPI, SK_SPIN, SK_VOL, SK_ACC, SK_APP, SK_BB };

struct SimConfig {
  int n = 1;
  uint64_t seed = 1;
  int policy = 0;        // 0 random 1 pct 2 round robin 3 run-to-block 4 starve-one
  int acc_preempt = 0;   // 1/x chance of a preemption at an ordinary shared access (0 = off)
  int polls = 1;         // factor for the number of fruitless polls before a deadlock is reported
  int eager_pct = 50;    // percent of messages sent eagerly
  int net_pct = 30;      // percent chance per step that the network moves a message
  int noenv_others = 0;  // getenv returns NULL on ranks != 0
  int alloc_fail = -1;   // n-th allocation of a rank fails
  int alloc_fail_rank = -1;
  int poison = 1;        // fill fresh heap memory with a random pattern
  int race = 1;          // race detector on
  int clock_mode = 0;    // 0 noisy, 1 constant, 2 hostile
  int verbose = 0;
  int node_size = 1 << 20; // ranks per shared memory domain
  int barrier_check = 0;
};

struct SimStats {
  uint64_t steps = 0, switches = 0, vol_reads = 0, vol_writes = 0, shm_reads = 0, shm_writes = 0, ubuf_reads = 0, ubuf_writes = 0;
  uint64_t msgs = 0, bytes = 0, colls = 0, eager = 0, rendezvous = 0, race_checks = 0, mallocs = 0, frees = 0;
  uint64_t segs = 0, attaches = 0, wtimes = 0, sched_hash = 1469598103934665603ull;
};

extern SimConfig cfg;
extern SimStats st;
extern Rng net_rng;
extern int cur;              // current rank or -1
extern uint64_t g_progress;  // bumped whenever something observable changed
extern VC vclock[MAXR];

[[noreturn]] void violation(const char *kind, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void finish_case(int code, const std::string &msg);
void sched_point(SchedKind k);
void wait_until(const std::function<bool()> &cond, const char *what);
void trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void run_fibers(const std::function<void(int)> &body);
void vc_tick(int r);
void vc_merge(uint32_t *dst, const uint32_t *src);

// shared memory simulation
bool shm_is(const void *p);
void shm_reset();
int shm_live_segments(); // not removed or still attached
int shm_leaked_attaches(int rank);
void mon_range(const void *p, size_t n, bool write, bool vol, const char *what);
// user buffer arena
enum { UB_NONE = 0, UB_R = 1, UB_W = 2, UB_RW = 3 };
char *ub_alloc(int rank, size_t n, int perm);   // exact bounds, surrounded by guard bytes
void ub_perm(void *p, size_t n, int perm);
bool ub_is(const void *p);
void ub_reset();
extern int ub_check_enabled;

// simulated MPI accounting
struct MpiLive { long comms, reqs, msgs, posted; };
MpiLive mpi_live(int rank);
void mpi_reset();
void net_step();
bool net_force();
bool mpi_in_flight();
void app_mode_enter();   // calls made by the application itself
void app_mode_leave();

// heap accounting (library allocations only)
struct HeapLive { long blocks, bytes; };
HeapLive heap_live(int rank);
std::string heap_dump(int rank, int max);

// per rank library
struct Lib {
  void *h;
  char *base;
  void *sym(const char *name, bool must = true);
};
extern Lib libs[MAXR];
void load_libs(const char *path_pattern, int n);
extern std::string lib_output[MAXR];
extern std::vector<uint8_t> cov_bits;
size_t cov_count();

std::map<std::string, std::string> parse_kv(const std::string &s);
