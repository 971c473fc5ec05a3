#include "sim.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/ipc.h>
#include <sys/shm.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <unordered_map>
#include <algorithm>
#include <link.h>

#if defined(__SANITIZE_ADDRESS__)
#define ASAN 1
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#else
#define ASAN 0
#endif

SimConfig cfg;
SimStats st;
Rng net_rng(7);
static Rng sch_rng(3), heap_rng(5), clk_rng(11);
int cur = -1;
uint64_t g_progress = 1;
VC vclock[MAXR];
Lib libs[MAXR];
std::string lib_output[MAXR];
int ub_check_enabled = 1;
int result_fd = -1;
extern "C" { static int in_rt = 0; }

// ---------------------------------------------------------------- reporting
static std::vector<std::string> trace_ring;
static size_t trace_pos = 0;
void trace(const char *fmt, ...) {
  char b[400];
  va_list ap; va_start(ap, fmt);
  int k = snprintf(b, sizeof b, "[%llu r%d] ", (unsigned long long)st.steps, cur);
  vsnprintf(b + k, sizeof b - k, fmt, ap);
  va_end(ap);
  if (cfg.verbose) { fprintf(stderr, "%s\n", b); }
  if (trace_ring.size() < 60) trace_ring.push_back(b);
  else { trace_ring[trace_pos % 60] = b; }
  trace_pos++;
}
static std::string trace_tail() {
  std::string s;
  size_t n = trace_ring.size();
  for (size_t i = 0; i < n; i++) s += trace_ring[(trace_pos >= 60 ? (trace_pos + i) % 60 : i)] + "\n";
  return s;
}
void emit_result(int code, const std::string &msg);
void finish_case(int code, const std::string &msg) {
  emit_result(code, msg);
  _exit(code);
}
void violation(const char *kind, const char *fmt, ...) {
  char b[2000];
  va_list ap; va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  std::string m = std::string(kind) + ": " + b + " (rank " + std::to_string(cur) + ")";
  for (int r = 0; r < cfg.n; r++) if (!lib_output[r].empty()) { m += " | library said: " + lib_output[r].substr(lib_output[r].size() > 200 ? lib_output[r].size() - 200 : 0); break; }
  if (cfg.verbose) fprintf(stderr, "VIOLATION %s\n", m.c_str());
  else if (getenv("SIM_TRACE")) fprintf(stderr, "%s", trace_tail().c_str());
  finish_case(10, m);
}

// ---------------------------------------------------------------- fibers
extern "C" void switch_ctx(void **save, void *to);
asm(R"(
.text
.globl switch_ctx
.type switch_ctx,@function
switch_ctx:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
)");
struct Fiber {
  void *sp = nullptr;
  char *stack = nullptr;
  bool done = true;
  uint64_t sleep_stamp = 0;
  int prio = 0;
  const void *last_va = nullptr;
  uint64_t last_vv = 0;
  void *fake = nullptr;
};
static Fiber fib[MAXR];
static void *main_sp, *main_fake;
static const void *main_bottom; static size_t main_size;
static std::function<void(int)> fiber_body;
static const size_t STACK = 8u << 20;
static uint64_t slices_np = 0, np_stamp = 0, bb_np = 0;
static int pct_next_change = 0;
static int starved = 0;
static int pend_size = 0; static const void *pend_addr; static uint64_t pend_old;

static inline uint64_t peek(const void *p, int n) { uint64_t v = 0; memcpy(&v, p, n > 8 ? 8 : n); return v; }
static inline void flush_pending() {
  if (pend_size) {
    if (peek(pend_addr, pend_size) != pend_old) g_progress++;
    pend_size = 0;
  }
}
static void switch_to(int nxt) {
  int old = cur;
  if (nxt == old) return;
  st.switches++;
  st.sched_hash = (st.sched_hash ^ (uint64_t)(nxt + 1)) * 1099511628211ull;
  st.sched_hash = (st.sched_hash ^ (st.steps & 0xff)) * 1099511628211ull;
  cur = nxt;
#if ASAN
  __sanitizer_start_switch_fiber(old >= 0 ? (fib[old].done ? nullptr : &fib[old].fake) : &main_fake,
                                 nxt >= 0 ? fib[nxt].stack : main_bottom, nxt >= 0 ? STACK : main_size);
#endif
  switch_ctx(old >= 0 ? &fib[old].sp : &main_sp, nxt >= 0 ? fib[nxt].sp : main_sp);
#if ASAN
  { const void *ob; size_t os; int me = old; __sanitizer_finish_switch_fiber(me >= 0 ? fib[me].fake : main_fake, &ob, &os); }
#endif
}
static int alive_list(int *l) { int k = 0; for (int i = 0; i < cfg.n; i++) if (!fib[i].done) l[k++] = i; return k; }

static int pick(SchedKind k) {
  int l[MAXR], a[MAXR], na = 0, nl = alive_list(l);
  if (nl == 0) return -1;
  for (int i = 0; i < nl; i++) if (fib[l[i]].sleep_stamp != g_progress) a[na++] = l[i];
  bool cur_ok = cur >= 0 && !fib[cur].done;
  bool cur_awake = cur_ok && fib[cur].sleep_stamp != g_progress;
  if (na == 0) { // nobody can move on its own: round robin over everybody
    int c = cur < 0 ? 0 : cur;
    for (int i = 1; i <= cfg.n; i++) { int r = (c + i) % cfg.n; if (!fib[r].done) return r; }
  }
  switch (cfg.policy) {
  case 1: {
    if (--pct_next_change < 0) {
      pct_next_change = 50 + sch_rng.below(4000);
      int r = l[sch_rng.below(nl)];
      fib[r].prio = sch_rng.below(1000000);
    }
    int b = a[0];
    for (int i = 1; i < na; i++) if (fib[a[i]].prio > fib[b].prio) b = a[i];
    return b;
  }
  case 2: {
    if (k == SK_ACC && cur_awake && !sch_rng.chance(1, 3)) return cur;
    int c = cur < 0 ? 0 : cur;
    for (int i = 1; i <= cfg.n; i++) { int r = (c + i) % cfg.n; if (!fib[r].done && fib[r].sleep_stamp != g_progress) return r; }
    return a[0];
  }
  case 3:
    if (cur_awake && !sch_rng.chance(1, 400)) return cur;
    return a[sch_rng.below(na)];
  case 4: {
    if (sch_rng.chance(1, 3000)) starved = sch_rng.below(cfg.n);
    int o[MAXR], no = 0;
    for (int i = 0; i < na; i++) if (a[i] != starved) o[no++] = a[i];
    if (no == 0) return a[0];
    if (cur_awake && cur != starved && !sch_rng.chance(1, 6)) return cur;
    return o[sch_rng.below(no)];
  }
  default:
    if (cur_awake && k != SK_SPIN && !sch_rng.chance(1, k == SK_MPI ? 2 : 4)) return cur;
    if (sch_rng.chance(1, 16)) return l[sch_rng.below(nl)];
    return a[sch_rng.below(na)];
  }
}
void wait_diag(std::string &s);
void sched_point(SchedKind k) {
  if (cur < 0) return;
  flush_pending();
  st.steps++;
  if (k == SK_SPIN) fib[cur].sleep_stamp = g_progress;
  if (k == SK_BB) { // stores are not observed in this variant: a rank that runs long without visible progress lets the others run
    static int cnt[MAXR]; static uint64_t stamp[MAXR];
    if (stamp[cur] != g_progress) { stamp[cur] = g_progress; cnt[cur] = 0; }
    if (++cnt[cur] > 60) { fib[cur].sleep_stamp = g_progress; cnt[cur] = 0; }
  }
  if (g_progress != np_stamp) { np_stamp = g_progress; slices_np = 0; bb_np = 0; }
  else if (k == SK_SPIN || (k == SK_BB)) {
    slices_np++;
    uint64_t lim = (ASAN || k == SK_BB ? 400000ull * cfg.polls : 3000ull) * cfg.n;
    if (slices_np > lim / 4 && net_force()) slices_np = 0;
    if (slices_np > lim) {
      std::string d; wait_diag(d);
      violation("deadlock", "no rank can make progress after %llu polls%s", (unsigned long long)slices_np, d.c_str());
    }
  }
  if (st.steps > 1000000000ull) violation("livelock", "step limit exceeded without termination");
  net_step();
  // when everybody is asleep let the network move first
  bool all_asleep = true;
  for (int i = 0; i < cfg.n && all_asleep; i++) if (!fib[i].done && fib[i].sleep_stamp != g_progress) all_asleep = false;
  if (all_asleep) net_force();
  int nx = pick(k);
  if (nx >= 0 && nx != cur) switch_to(nx);
}
static const char *wait_what[MAXR];
extern size_t last_pc[MAXR];
void wait_diag(std::string &s) {
  for (int i = 0; i < cfg.n; i++) {
    s += " r" + std::to_string(i) + "=";
    s += fib[i].done ? "finished" : wait_what[i] ? wait_what[i] : "polling shared memory or test";
    if (!fib[i].done && !wait_what[i]) { char b[40]; snprintf(b, sizeof b, "@0x%zx", last_pc[i]); s += b; }
  }
}
void wait_until(const std::function<bool()> &cond, const char *what) {
  while (!cond()) {
    wait_what[cur] = what;
    sched_point(SK_SPIN);
  }
  wait_what[cur] = nullptr;
}
static void fiber_entry() {
#if ASAN
  { const void *ob; size_t os; __sanitizer_finish_switch_fiber(nullptr, &ob, &os); if (!main_bottom) { main_bottom = ob; main_size = os; } }
#endif
  int me = cur;
  fiber_body(me);
  flush_pending();
  fib[me].done = true;
  g_progress++;
  while (true) {
    int nx = pick(SK_MPI);
    switch_to(nx);
  }
}
void run_fibers(const std::function<void(int)> &body) {
  fiber_body = body;
  sch_rng = Rng(cfg.seed * 3 + 1); net_rng = Rng(cfg.seed * 5 + 2); heap_rng = Rng(cfg.seed * 7 + 3); clk_rng = Rng(cfg.seed * 9 + 4);
  starved = sch_rng.below(cfg.n);
  for (int i = 0; i < cfg.n; i++) {
    if (!fib[i].stack) {
      char *s = (char *)mmap(nullptr, STACK + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      mprotect(s + 4096, STACK, PROT_READ | PROT_WRITE);
      fib[i].stack = s + 4096;
    }
    uint64_t *sp = (uint64_t *)(fib[i].stack + STACK);
    *--sp = 0;
    *--sp = (uint64_t)&fiber_entry;
    for (int k = 0; k < 6; k++) *--sp = 0;
    fib[i].sp = sp; fib[i].done = false; fib[i].sleep_stamp = 0; fib[i].prio = sch_rng.below(1000000); fib[i].last_va = nullptr;
    for (int k = 0; k < MAXR; k++) vclock[i][k] = 0;
    vclock[i][i] = 1;
    wait_what[i] = nullptr;
  }
#if ASAN
  if (!main_bottom) { // any plausible value, replaced on the first switch
  }
#endif
  int first = sch_rng.below(cfg.n);
  switch_to(first);
  // back in main: all done
}
void vc_tick(int r) { vclock[r][r]++; }
void vc_merge(uint32_t *d, const uint32_t *s) { for (int i = 0; i < cfg.n; i++) if (s[i] > d[i]) d[i] = s[i]; }

// ---------------------------------------------------------------- library loading
static std::vector<std::pair<uintptr_t, uintptr_t>> lib_text;
std::vector<uint8_t> cov_bits;
void *Lib::sym(const char *name, bool must) {
  void *p = dlsym(h, name);
  // dlsym on a library handle also searches its dependencies; take only what the library itself defines
  if (p) { Dl_info di; if (!dladdr(p, &di) || (char *)di.dli_fbase != base) p = nullptr; }
  if (!p) p = nullptr;
  if (!p && must) { fprintf(stderr, "symbol %s not defined by the library\n", name); exit(3); }
  return p;
}
void load_libs(const char *pat, int n) {
  for (int i = 0; i < n; i++) {
    char f[1000];
    snprintf(f, sizeof f, pat, i);
    void *h = dlopen(f, RTLD_LAZY | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); exit(3); }
    struct link_map *lm; dlinfo(h, RTLD_DI_LINKMAP, &lm);
    libs[i].h = h; libs[i].base = (char *)lm->l_addr;
  }
  cov_bits.assign(4 << 20, 0);
}
size_t cov_count() { size_t k = 0; for (auto b : cov_bits) k += b; return k; }
size_t last_pc[MAXR];
extern "C" void __sanitizer_cov_trace_pc() {
  uintptr_t pc = (uintptr_t)__builtin_return_address(0);
  if (cur < 0) return;
  size_t off = pc - (uintptr_t)libs[cur].base;
  if (off < cov_bits.size()) cov_bits[off] = 1;
  last_pc[cur] = off;
  if (++bb_np > 400000000ull * cfg.polls) violation("livelock", "library code runs forever without any observable progress (pc offset 0x%zx)", off);
#if ASAN
  static int left = 50;
  if (--left <= 0) { left = 1 + sch_rng.below(160); sched_point(SK_BB); }
#endif
}

// ---------------------------------------------------------------- shared memory
static const uintptr_t SHM_BASE = 0x200000000000ull;
static const int SLOT_BITS = 30, RSLOT = 32, MAXSEG = 1024;
static const uintptr_t SHM_END = SHM_BASE + ((uintptr_t)MAXSEG << SLOT_BITS) * RSLOT;
struct SyncVar { VC rel; VC aw, ar; };
static const int CHUNK = 256;
struct ShadowChunk { uint32_t w[CHUNK]; uint8_t wr[CHUNK]; uint32_t rd[CHUNK][8]; uint8_t rrk[CHUNK][8]; };
struct Seg {
  int id = -1, fd = -1; size_t size = 0; bool removed = false, live = false; int creator = -1; bool by_app = false;
  bool att[MAXR]; char *addr[MAXR]; bool ro[MAXR];
  std::unordered_map<size_t, ShadowChunk *> sh;
  std::unordered_map<size_t, SyncVar *> sv;
};
static Seg *segs[MAXSEG];
static int seg_next = 0;
bool shm_is(const void *p) { return (uintptr_t)p >= SHM_BASE && (uintptr_t)p < SHM_END; }
static inline Seg *seg_of(const void *p, size_t &off, int &slot) {
  uintptr_t d = (uintptr_t)p - SHM_BASE;
  off = d & (((uintptr_t)1 << SLOT_BITS) - 1);
  uintptr_t k = d >> SLOT_BITS;
  slot = (int)(k % RSLOT);
  return segs[(k / RSLOT) % MAXSEG];
}
extern "C" int __wrap_shmget(key_t key, size_t size, int flg) {
  if (cur < 0) return -1;
  sched_point(SK_MPI);
  int i;
  for (int t = 0;; t++) { i = (seg_next + t) % MAXSEG; if (!segs[i] || !segs[i]->live) break; if (t > MAXSEG) violation("shm", "too many shared memory segments"); }
  seg_next = i + 1;
  if (segs[i]) { if (segs[i]->fd >= 0) close(segs[i]->fd); for (auto &c : segs[i]->sh) free(c.second); for (auto &c : segs[i]->sv) delete c.second; delete segs[i]; }
  Seg *s = segs[i] = new Seg;
  s->id = i; s->size = size; s->live = true; s->creator = cur;
  memset(s->att, 0, sizeof s->att);
  s->fd = memfd_create("seg", 0);
  if (ftruncate(s->fd, size ? size : 1) != 0) violation("shm", "cannot size segment %zu", size);
  st.segs++;
  trace("shmget size=%zu -> %d", size, i + 1000);
  if (size == 0) { errno = EINVAL; s->live = false; return -1; }
  return i + 1000;
}
static Seg *seg_by_id(int id) { int i = id - 1000; if (i < 0 || i >= MAXSEG || !segs[i] || !segs[i]->live) return nullptr; return segs[i]; }
static void seg_maybe_drop(Seg *s) {
  if (!s->removed) return;
  for (int r = 0; r < MAXR; r++) if (s->att[r]) return;
  s->live = false;
}
extern "C" void *__wrap_shmat(int id, const void *a, int flg) {
  sched_point(SK_MPI);
  Seg *s = seg_by_id(id);
  if (!s) { trace("shmat %d fails", id); violation("shm", "attach of shared memory id %d which does not exist (or is already removed)", id); }
  if (s->att[cur]) violation("shm", "segment attached twice by one rank");
  char *want = (char *)(SHM_BASE + (((uintptr_t)s->id * RSLOT + cur) << SLOT_BITS));
  size_t len = (s->size + 4095) & ~4095ull;
  void *p = mmap(want, len, (flg & SHM_RDONLY) ? PROT_READ : PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED | MAP_NORESERVE, s->fd, 0);
  if (p != want) violation("harness", "mmap of segment failed");
#if ASAN
  if (len > s->size && !(flg & SHM_RDONLY)) __asan_poison_memory_region((char *)p + s->size, len - s->size);
#endif
  s->att[cur] = true; s->addr[cur] = (char *)p; s->ro[cur] = flg & SHM_RDONLY;
  st.attaches++;
  trace("shmat %d -> %p%s", id, p, (flg & SHM_RDONLY) ? " ro" : "");
  return p;
}
extern "C" int __wrap_shmdt(const void *p) {
  sched_point(SK_MPI);
  if (!shm_is(p)) violation("shm", "detach of an address that is not a shared segment");
  size_t off; int slot; Seg *s = seg_of(p, off, slot);
  if (!s || slot != cur || off || !s->att[cur]) violation("shm", "detach of a segment that is not attached here");
  size_t len = (s->size + 4095) & ~4095ull;
#if ASAN
  __asan_unpoison_memory_region(p, len);
#endif
  munmap((void *)p, len);
  s->att[cur] = false;
  trace("shmdt %d", s->id + 1000);
  seg_maybe_drop(s);
  return 0;
}
extern "C" int __wrap_shmctl(int id, int cmd, void *b) {
  sched_point(SK_MPI);
  Seg *s = seg_by_id(id);
  // as on Linux: removing a segment again, or one that is gone, does no harm
  if (!s) { errno = EINVAL; return -1; }
  if (cmd == IPC_RMID) { s->removed = true; trace("shmctl rmid %d", id); seg_maybe_drop(s); }
  return 0;
}
int shm_live_segments() { int k = 0; for (int i = 0; i < MAXSEG; i++) if (segs[i] && segs[i]->live && !segs[i]->removed) k++; return k; }
int shm_leaked_attaches(int r) { int k = 0; for (int i = 0; i < MAXSEG; i++) if (segs[i] && segs[i]->live && segs[i]->att[r]) k++; return k; }
void shm_reset() {
  for (int i = 0; i < MAXSEG; i++) if (segs[i]) {
    for (int r = 0; r < MAXR; r++) if (segs[i]->att[r]) munmap(segs[i]->addr[r], (segs[i]->size + 4095) & ~4095ull);
    if (segs[i]->fd >= 0) close(segs[i]->fd);
    delete segs[i]; segs[i] = nullptr;
  }
}

// ---------------------------------------------------------------- race detector
static ShadowChunk *chunk(Seg *s, size_t off) {
  size_t k = off / CHUNK;
  auto it = s->sh.find(k);
  if (it != s->sh.end()) return it->second;
  ShadowChunk *c = (ShadowChunk *)calloc(1, sizeof(ShadowChunk));
  memset(c->wr, 0xff, sizeof c->wr);
  memset(c->rrk, 0xff, sizeof c->rrk);
  s->sh[k] = c;
  return c;
}
[[noreturn]] static void race(Seg *s, size_t off, bool w, int other, bool ow, const char *what) {
  violation("race", "%s of rank %d to shared segment (creator rank %d, size %zu) offset %zu is not ordered after the %s of rank %d [%s]",
            w ? "write" : "read", cur, s->creator, s->size, off, ow ? "write" : "read", other, what);
}
static void shm_plain(const void *p, size_t n, bool w, const char *what) {
  size_t off; int slot; Seg *s = seg_of(p, off, slot);
  if (!s || !s->live) violation("shm-use", "access to a shared segment that does not exist [%s]", what);
  if (slot != cur) violation("shm-use", "rank uses a shared memory address of rank %d's address space [%s]", slot, what);
  if (!s->att[cur]) violation("shm-use", "access to a detached segment [%s]", what);
  if (off + n > s->size) violation("shm-bounds", "access of %zu bytes at offset %zu of a segment with %zu bytes [%s]", n, off, s->size, what);
  if (w && s->ro[cur]) violation("shm-use", "write to a read-only attached segment [%s]", what);
  if (w) st.shm_writes++; else st.shm_reads++;
  if (!cfg.race) return;
  st.race_checks++;
  uint32_t me = vclock[cur][cur];
  for (size_t i = 0; i < n; i++) {
    size_t o = off + i;
    ShadowChunk *c = chunk(s, o);
    int k = o % CHUNK;
    if (c->wr[k] != 0xff && c->wr[k] != cur && vclock[cur][c->wr[k]] < c->w[k]) race(s, o, w, c->wr[k], true, what);
    if (w) {
      for (int j = 0; j < 8; j++) if (c->rrk[k][j] != 0xff) {
        int rr = c->rrk[k][j];
        if (rr != cur && vclock[cur][rr] < c->rd[k][j]) race(s, o, w, rr, false, what);
        c->rrk[k][j] = 0xff;
      }
      c->wr[k] = cur; c->w[k] = me;
    } else {
      int free_j = -1, j;
      for (j = 0; j < 8; j++) {
        if (c->rrk[k][j] == cur) { c->rd[k][j] = me; break; }
        if (free_j < 0 && (c->rrk[k][j] == 0xff || vclock[cur][c->rrk[k][j]] >= c->rd[k][j])) free_j = j;
      }
      if (j == 8 && free_j >= 0) { c->rrk[k][free_j] = cur; c->rd[k][free_j] = me; }
    }
    if (!s->sv.empty() && (o & 3) == 0) {
      auto it = s->sv.find(o);
      if (it != s->sv.end()) {
        for (int r = 0; r < cfg.n; r++) if (r != cur) {
          if (it->second->aw[r] > vclock[cur][r]) race(s, o, w, r, true, "plain access against a flag");
          if (w && it->second->ar[r] > vclock[cur][r]) race(s, o, w, r, false, "plain write against a flag");
        }
      }
    }
  }
}
static void shm_atomic(const void *p, size_t n, bool w, bool r) {
  size_t off; int slot; Seg *s = seg_of(p, off, slot);
  if (!s || !s->live) violation("shm-use", "flag access to a shared segment that does not exist");
  if (slot != cur) violation("shm-use", "rank uses a flag address of rank %d's address space", slot);
  if (!s->att[cur]) violation("shm-use", "flag access to a detached segment");
  if (off + n > s->size) violation("shm-bounds", "flag access at offset %zu of a segment with %zu bytes", off, s->size);
  if (w && s->ro[cur]) violation("shm-use", "flag write to a read-only attached segment");
  if (!cfg.race) return;
  for (size_t i = 0; i < n; i++) {
    size_t o = off + i;
    ShadowChunk *c = chunk(s, o);
    int k = o % CHUNK;
    if (c->wr[k] != 0xff && c->wr[k] != cur && vclock[cur][c->wr[k]] < c->w[k]) race(s, o, w, c->wr[k], true, "flag access against plain write");
    if (w) for (int j = 0; j < 8; j++) if (c->rrk[k][j] != 0xff && c->rrk[k][j] != cur && vclock[cur][c->rrk[k][j]] < c->rd[k][j]) race(s, o, w, c->rrk[k][j], false, "flag write against plain read");
  }
  SyncVar *&v = s->sv[off & ~3ull];
  if (!v) { v = new SyncVar; memset(v, 0, sizeof *v); }
  if (r) { vc_merge(vclock[cur], v->rel); v->ar[cur] = vclock[cur][cur]; }
  if (w) { vc_merge(v->rel, vclock[cur]); v->aw[cur] = vclock[cur][cur]; vc_tick(cur); }
}

// ---------------------------------------------------------------- user buffers
static const uintptr_t UB_BASE = 0x180000000000ull;
static const uintptr_t UB_RSIZE = 1ull << 32; // per rank
static const size_t UB_MAP = 96ull << 20;
static uint8_t *ub_shadow[MAXR];
static size_t ub_top[MAXR];
static bool ub_mapped[MAXR];
bool ub_is(const void *p) { return (uintptr_t)p >= UB_BASE && (uintptr_t)p < UB_BASE + UB_RSIZE * MAXR; }
char *ub_alloc(int rank, size_t n, int perm) {
#if ASAN
  char *q = (char *)malloc(n ? n : 1);
  if (!n) __asan_poison_memory_region(q, 1);
  return q;
#endif
  if (!ub_mapped[rank]) {
    void *b = mmap((void *)(UB_BASE + UB_RSIZE * rank), UB_MAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
    if (b == MAP_FAILED) { perror("mmap"); exit(3); }
    ub_shadow[rank] = (uint8_t *)mmap(nullptr, UB_MAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    ub_mapped[rank] = true; ub_top[rank] = 4096;
  }
  size_t o = (ub_top[rank] + 64 + 15) & ~15ull;
  ub_top[rank] = o + n + 64;
  if (ub_top[rank] > UB_MAP) { fprintf(stderr, "user buffer arena exhausted\n"); exit(3); }
  char *p = (char *)(UB_BASE + UB_RSIZE * rank + o);
  memset(ub_shadow[rank] + o, perm, n);
  return p;
}
void ub_perm(void *p, size_t n, int perm) {
#if ASAN
  return;
#endif
  uintptr_t d = (uintptr_t)p - UB_BASE; int r = d / UB_RSIZE;
  memset(ub_shadow[r] + d % UB_RSIZE, perm, n);
}
void ub_reset() { for (int r = 0; r < MAXR; r++) if (ub_mapped[r]) { memset(ub_shadow[r], 0, ub_top[r]); ub_top[r] = 4096; } }
static void ub_check(const void *p, size_t n, bool w, const char *what) {
  if (!ub_check_enabled) return;
  uintptr_t d = (uintptr_t)p - UB_BASE; int r = d / UB_RSIZE; size_t o = d % UB_RSIZE;
  if (r != cur) violation("buffer", "rank touches a user buffer of rank %d [%s]", r, what);
  if (w) st.ubuf_writes++; else st.ubuf_reads++;
  if (o + n > UB_MAP) violation("buffer", "access beyond the user buffers [%s]", what);
  for (size_t i = 0; i < n; i++) if (!(ub_shadow[r][o + i] & (w ? UB_W : UB_R)))
    violation("buffer", "%s of %zu bytes: byte %zu is outside the memory the call may %s (permission %d) [%s]", w ? "write" : "read", n, i, w ? "write" : "read", ub_shadow[r][o + i], what);
}
void mon_range(const void *p, size_t n, bool w, bool vol, const char *what) {
  if (cur < 0 || n == 0) return;
  if (shm_is(p)) { flush_pending(); if (vol) shm_atomic(p, n, w, !w); else shm_plain(p, n, w, what); }
  else if (ub_is(p)) ub_check(p, n, w, what);
}

// ---------------------------------------------------------------- instrumentation callbacks
static inline void acc(const void *p, size_t n, bool w) {
  if (cur < 0) return;
  if (shm_is(p)) {
    flush_pending();
    if (cfg.acc_preempt && sch_rng.below(cfg.acc_preempt) == 0) sched_point(SK_ACC);
    shm_plain(p, n, w, "load/store");
  } else if (ub_is(p)) ub_check(p, n, w, "load/store");
}
static void vacc(const void *p, size_t n, bool w) {
  if (cur < 0) return;
  if (!shm_is(p)) { if (ub_is(p)) ub_check(p, n, w, "volatile"); return; }
  Fiber &f = fib[cur];
  if (!w) {
    st.vol_reads++;
    // the address must be readable before peeking at it
    { size_t off; int slot; Seg *s = seg_of(p, off, slot); if (!s || !s->live || slot != cur || !s->att[cur] || off + n > s->size) shm_atomic(p, n, false, true); }
    bool spin = f.last_va == p && f.last_vv == peek(p, n);
    sched_point(spin ? SK_SPIN : SK_VOL);
    f.last_va = p; f.last_vv = peek(p, n);
    shm_atomic(p, n, false, true);
  } else {
    st.vol_writes++;
    sched_point(SK_VOL);
    shm_atomic(p, n, true, false);
    pend_addr = p; pend_size = n > 8 ? 8 : n; pend_old = peek(p, n);
  }
}
#if !ASAN
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void *p) { acc(p, n, false); } \
  void __tsan_write##n(void *p) { acc(p, n, true); } \
  void __tsan_unaligned_read##n(void *p) { acc(p, n, false); } \
  void __tsan_unaligned_write##n(void *p) { acc(p, n, true); } \
  void __tsan_read##n##_pc(void *p, void *) { acc(p, n, false); } \
  void __tsan_write##n##_pc(void *p, void *) { acc(p, n, true); } \
  void __tsan_volatile_read##n(void *p) { vacc(p, n, false); } \
  void __tsan_volatile_write##n(void *p) { vacc(p, n, true); } \
  void __tsan_unaligned_volatile_read##n(void *p) { vacc(p, n, false); } \
  void __tsan_unaligned_volatile_write##n(void *p) { vacc(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { acc(p, n, false); }
void __tsan_write_range(void *p, size_t n) { acc(p, n, true); }
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
void __tsan_atomic_thread_fence(int) { }
void __tsan_atomic_signal_fence(int) { }
static void atom_pre(const volatile void *p, size_t n, bool r, bool w) {
  if (cur < 0 || !shm_is((const void *)p)) return;
  const void *q = (const void *)p;
  if (r && !w) { vacc(q, n, false); return; }
  st.vol_writes++;
  sched_point(SK_VOL);
  shm_atomic(q, n, w, r);
  pend_addr = q; pend_size = n; pend_old = peek(q, n);
}
#define AT(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T *p, int) { atom_pre(p, sizeof(T), true, false); return *p; } \
  void __tsan_atomic##bits##_store(volatile T *p, T v, int) { atom_pre(p, sizeof(T), false, true); *p = v; } \
  T __tsan_atomic##bits##_exchange(volatile T *p, T v, int) { atom_pre(p, sizeof(T), true, true); T o = *p; *p = v; return o; } \
  T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int) { atom_pre(p, sizeof(T), true, true); T o = *p; *p = o + v; return o; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int) { atom_pre(p, sizeof(T), true, true); T o = *p; *p = o - v; return o; } \
  T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int) { atom_pre(p, sizeof(T), true, true); T o = *p; *p = o & v; return o; } \
  T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int) { atom_pre(p, sizeof(T), true, true); T o = *p; *p = o | v; return o; } \
  T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int) { atom_pre(p, sizeof(T), true, true); T o = *p; *p = o ^ v; return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { atom_pre(p, sizeof(T), true, true); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { atom_pre(p, sizeof(T), true, true); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int, int) { atom_pre(p, sizeof(T), true, true); T o = *p; if (o == e) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
}
#endif

// ---------------------------------------------------------------- libc wrappers used by the library
struct HB { size_t n; int rank; uint64_t seq; };
static std::unordered_map<void *, HB> heap;
static long heap_blocks[MAXR], heap_bytes[MAXR];
static uint64_t heap_seq[MAXR];
HeapLive heap_live(int r) { return HeapLive{heap_blocks[r], heap_bytes[r]}; }
std::string heap_dump(int rank, int mx) {
  std::vector<std::pair<uint64_t, size_t>> v;
  for (auto &h : heap) if (h.second.rank == rank) v.push_back({h.second.seq, h.second.n});
  std::sort(v.begin(), v.end());
  std::string s;
  for (size_t i = 0; i < v.size() && (int)i < mx; i++) s += "#" + std::to_string(v[v.size() - 1 - i].first) + ":" + std::to_string(v[v.size() - 1 - i].second) + " ";
  return s;
}
static void *h_alloc(size_t n, bool zero) {
  int r = cur < 0 ? MAXR - 1 : cur;
  heap_seq[r]++;
  if (cur >= 0 && cfg.alloc_fail >= 0 && cfg.alloc_fail_rank == cur && (int)heap_seq[r] == cfg.alloc_fail) return nullptr;
  void *p = zero ? calloc(1, n ? n : 1) : malloc(n);
  if (!p) return p;
  if (!zero && cfg.poison && !ASAN) {
    size_t m = n < 65536 ? n : 65536;
    uint64_t pat = heap_rng.next();
    for (size_t i = 0; i < m; i++) ((unsigned char *)p)[i] = (unsigned char)(pat >> (8 * (i & 7)));
  }
  heap[p] = HB{n, r, heap_seq[r]};
  heap_blocks[r]++; heap_bytes[r] += n;
  st.mallocs++;
  return p;
}
static void h_free(void *p, bool really) {
  if (!p) return;
  auto it = heap.find(p);
  if (it == heap.end()) {
    if (ASAN) { free(p); return; } // let the sanitizer speak
    violation("heap", "free of %p which is not a live allocation", p);
  }
  if (cur >= 0 && it->second.rank != cur) violation("heap", "rank frees memory of rank %d", it->second.rank);
  heap_blocks[it->second.rank]--; heap_bytes[it->second.rank] -= it->second.n;
  if (cfg.poison && !ASAN) memset(p, 0xDD, it->second.n < 65536 ? it->second.n : 65536);
  heap.erase(it);
  st.frees++;
  if (really) free(p);
}
extern "C" {
void *__wrap_malloc(size_t n) { return h_alloc(n, false); }
void *__wrap_calloc(size_t a, size_t b) { return h_alloc(a * b, true); }
void *__wrap_realloc(void *p, size_t n) {
  if (!p) return h_alloc(n, false);
  auto it = heap.find(p);
  if (it == heap.end()) violation("heap", "realloc of unknown pointer");
  void *q = h_alloc(n, false);
  memcpy(q, p, it->second.n < n ? it->second.n : n);
  h_free(p, true);
  return q;
}
void __wrap_free(void *p) { h_free(p, true); }
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)h_alloc(n, false); if (p) memcpy(p, s, n); return p; }
char *__wrap_getenv(const char *n) {
  if (cur > 0 && cfg.noenv_others) return nullptr;
  return getenv(n);
}
static void out(const char *s) { if (cur >= 0) { if (lib_output[cur].size() < 20000) lib_output[cur] += s; } if (cfg.verbose > 1) fprintf(stderr, "[lib %d] %s", cur, s); }
int __wrap_printf(const char *f, ...) { static char b[65536]; va_list ap; va_start(ap, f); int k = vsnprintf(b, sizeof b, f, ap); va_end(ap); out(b); return k; }
int __wrap_puts(const char *s) { out(s); out("\n"); return 1; }
int __wrap_putchar(int c) { char b[2] = {(char)c, 0}; out(b); return c; }
[[noreturn]] void __wrap_exit(int c) {
  if (cur < 0) exit(c);
  violation("library-exit", "the library terminated the process with exit(%d)", c);
}
[[noreturn]] void __wrap_abort() { violation("library-exit", "the library called abort()"); }
#if !ASAN
void *__wrap_memcpy(void *d, const void *s, size_t n) {
  if (cur >= 0 && n) {
    bool ds = shm_is(d), ss = shm_is(s);
    if ((ds || ss) && cfg.acc_preempt && sch_rng.below(cfg.acc_preempt) == 0) sched_point(SK_ACC);
    if (ss || ub_is(s)) mon_range(s, n, false, false, "memcpy source");
    if (ds || ub_is(d)) mon_range(d, n, true, false, "memcpy destination");
    if (d != s && (char *)d < (char *)s + n && (char *)s < (char *)d + n) violation("memory", "memcpy with overlapping ranges of %zu bytes", n);
    // a long copy is not atomic: allow a preemption in the middle
    if ((ds || ss) && n >= 16 && cfg.acc_preempt && sch_rng.below(4 * cfg.acc_preempt) == 0) {
      size_t h = n / 2;
      memcpy(d, s, h); sched_point(SK_ACC); memcpy((char *)d + h, (const char *)s + h, n - h);
      return d;
    }
  }
  return memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n) {
  if (cur >= 0 && n) { mon_range(s, n, false, false, "memmove source"); mon_range(d, n, true, false, "memmove destination"); }
  return memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n) {
  if (cur >= 0 && n) mon_range(d, n, true, false, "memset");
  return memset(d, c, n);
}
#endif
}

std::map<std::string, std::string> parse_kv(const std::string &s) {
  std::map<std::string, std::string> m;
  size_t i = 0;
  while (i < s.size()) {
    while (i < s.size() && s[i] == ' ') i++;
    size_t e = s.find(' ', i); if (e == std::string::npos) e = s.size();
    std::string t = s.substr(i, e - i); i = e;
    size_t q = t.find('=');
    if (q == std::string::npos) continue;
    m[t.substr(0, q)] = t.substr(q + 1);
  }
  return m;
}
