// Workloads and oracles.
#include "work.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <algorithm>

Api api[MAXR];
WorkStats ws;
static std::map<std::string, std::string> kv;
std::string S(const char *k, const char *d) { auto i = kv.find(k); return i == kv.end() ? d : i->second; }
int I(const char *k, int d) { auto i = kv.find(k); return i == kv.end() ? d : atoi(i->second.c_str()); }
uint64_t H(uint64_t a, uint64_t b, uint64_t c, uint64_t d) {
  uint64_t x = a * 0x9E3779B97F4A7C15ull ^ b * 0xC2B2AE3D27D4EB4Full ^ c * 0x165667B19E3779F9ull ^ (d + 1) * 0xD6E8FEB86659FD93ull;
  x ^= x >> 32; x *= 0xD6E8FEB86659FD93ull; x ^= x >> 32; x *= 0xD6E8FEB86659FD93ull; x ^= x >> 32; return x;
}
static void *fsym(Lib &l, const char *n) { void *p = l.sym(n, false); if (p) return p; std::string q = std::string("P") + n; extern void *exe_sym(const char *); return exe_sym(q.c_str()); }
#include <dlfcn.h>
void *exe_sym(const char *n) { void *p = dlsym(RTLD_DEFAULT, n); if (!p) { fprintf(stderr, "no symbol %s\n", n); exit(3); } return p; }
void bind_api(int n) {
  for (int i = 0; i < n; i++) {
#define B(f) *(void **)&api[i].f = fsym(libs[i], "MPI_" #f);
    API_LIST(B)
#undef B
  }
}
// the Fortran interface of the library (handles are passed by reference)
struct F08 {
  void (*init)(const void *, void *, int *, MPI_Datatype *, MPI_Op *, MPI_Comm *, MPI_Info *, MPI_Request *, int *);
  void (*request_free)(MPI_Request *, int *), (*start)(MPI_Request *, int *), (*wait)(MPI_Request *, MPI_Status *, int *);
  void (*allreduce)(const void *, void *, int *, MPI_Datatype *, MPI_Op *, MPI_Comm *, int *);
  void (*mpi_init)(int *), (*mpi_finalize)(int *);
  void (*comm_dup)(MPI_Comm *, MPI_Comm *, int *), (*comm_split)(MPI_Comm *, int *, int *, MPI_Comm *, int *), (*comm_free)(MPI_Comm *, int *), (*comm_create)(MPI_Comm *, MPI_Group *, MPI_Comm *, int *), (*comm_split_type)(MPI_Comm *, int *, int *, MPI_Info *, MPI_Comm *, int *);
} f08[MAXR];
extern "C" char MPIR_F08_MPI_IN_PLACE[];
static void bind_f08(int i) {
  F08 &f = f08[i]; Lib &l = libs[i]; bool old = i & 1;
  *(void **)&f.init = l.sym(old ? "mpi_allreduce_init_" : "mpi_allreduce_init_f08_", true); *(void **)&f.request_free = l.sym("mpi_request_free_f08_", true); *(void **)&f.start = l.sym("mpi_start_f08_", true);
  *(void **)&f.wait = l.sym("mpi_wait_f08_", true); *(void **)&f.allreduce = l.sym("mpi_allreduce_f08_", true); *(void **)&f.mpi_init = l.sym("mpi_init_f08_", true); *(void **)&f.mpi_finalize = l.sym("mpi_finalize_f08_", true);
  *(void **)&f.comm_dup = l.sym("mpi_comm_dup_f08_", true); *(void **)&f.comm_split = l.sym("mpi_comm_split_f08_", true); *(void **)&f.comm_free = l.sym("mpi_comm_free_f08_", true);
  *(void **)&f.comm_create = l.sym("mpi_comm_create_f08_", true); *(void **)&f.comm_split_type = l.sym("mpi_comm_split_type_f08_", true);
}
// the library writes the header of a schedule as text; with ascii=1 all passes exchange text instead of binary code
static int text_form(const char *name, char *in, char *out) {
  bool on = I("ascii", 0);
  if (on && in[0] && !strstr(in, "PARAMETER ASCII")) { size_t l = strlen(in); memcpy(in + l, " PARAMETER ASCII\n", 18); ws.text++; }
  return ((int (*)(char *, char *))libs[cur].sym(name, true))(in, out);
}
extern "C" int __wrap_ext_mpi_generate_allreduce(char *a, char *b) { return text_form("ext_mpi_generate_allreduce", a, b); }
extern "C" int __wrap_ext_mpi_generate_allreduce_recursive(char *a, char *b) { return text_form("ext_mpi_generate_allreduce_recursive", a, b); }
extern "C" int __wrap_ext_mpi_generate_rank_permutation_forward(char *a, char *b) { return text_form("ext_mpi_generate_rank_permutation_forward", a, b); }
static void progress(Rng &r) {
  if (!I("prog", 0) || r.chance(1, 2)) return;
  ((int (*)())libs[cur].sym("EXT_MPI_Progress", true))();
  ws.tests++;
}
static void app_delay(Rng &r) { for (int k = r.below(4); k > 0; k--) { sched_point(SK_APP); progress(r); } }

// ------------------------------------------------------------ data types
static const char *DT_NAME[] = {"int", "long", "float", "double", "char", "byte"};
static size_t dt_size(int d) { static const size_t s[] = {4, 8, 4, 8, 1, 1}; return s[d]; }
static MPI_Datatype dt_mpi(int d) { switch (d) { case 0: return MPI_INT; case 1: return MPI_LONG; case 2: return MPI_FLOAT; case 3: return MPI_DOUBLE; case 4: return MPI_CHAR; default: return MPI_BYTE; } }
static int dt_parse(const std::string &s) { for (int i = 0; i < 6; i++) if (s == DT_NAME[i]) return i; fprintf(stderr, "bad type %s\n", s.c_str()); exit(3); }
// a value whose sum over up to 24 ranks is exact in the type
static void put_val(char *p, int d, uint64_t h) {
  switch (d) {
  case 0: { int v = (int)(h % 80000001u) - 40000000; memcpy(p, &v, 4); break; }
  case 1: { long v = (long)(h % (1ull << 58)) - (long)(1ull << 57); memcpy(p, &v, 8); break; }
  case 2: { float v = (float)((int)(h % 500001u) - 250000); memcpy(p, &v, 4); break; }
  case 3: { double v = (double)((long)(h % (1ull << 47)) - (long)(1ull << 46)) / 16.0; memcpy(p, &v, 8); break; }
  default: *p = (char)h;
  }
}
static void add_val(char *p, const char *q, int d) {
  switch (d) {
  case 0: { int a, b; memcpy(&a, p, 4); memcpy(&b, q, 4); a += b; memcpy(p, &a, 4); break; }
  case 1: { long a, b; memcpy(&a, p, 8); memcpy(&b, q, 8); a += b; memcpy(p, &a, 8); break; }
  case 2: { float a, b; memcpy(&a, p, 4); memcpy(&b, q, 4); a += b; memcpy(p, &a, 4); break; }
  case 3: { double a, b; memcpy(&a, p, 8); memcpy(&b, q, 8); a += b; memcpy(p, &a, 8); break; }
  }
}
static std::string show(const char *p, int d) {
  char b[64];
  switch (d) {
  case 0: { int v; memcpy(&v, p, 4); snprintf(b, 64, "%d", v); break; }
  case 1: { long v; memcpy(&v, p, 8); snprintf(b, 64, "%ld", v); break; }
  case 2: { float v; memcpy(&v, p, 4); snprintf(b, 64, "%.9g", v); break; }
  case 3: { double v; memcpy(&v, p, 8); snprintf(b, 64, "%.17g", v); break; }
  default: snprintf(b, 64, "%d", *p);
  }
  return b;
}

enum Op { ALLREDUCE, REDUCE, REDSCAT, REDSCATB, ALLGATHER, ALLGATHERV, BCAST, GATHER, GATHERV, SCATTER, SCATTERV, NOPS };
static const char *OPN[] = {"allreduce", "reduce", "reduce_scatter", "reduce_scatter_block", "allgather", "allgatherv", "bcast", "gather", "gatherv", "scatter", "scatterv"};

struct ReqSpec {
  int op = 0, dt = 1, count = 1, root = 0; bool inplace = false; int cv = 0; int gap = 0; int inexact = 0;
  std::vector<std::pair<std::string, std::string>> info;
  std::vector<int> cnt, dis; // per member of the communicator
  int tot = 0, span = 0;
  std::string text;
};
static ReqSpec parse_req(const std::string &t, int csize, uint64_t salt) {
  ReqSpec r; r.text = t;
  std::vector<std::string> p; size_t i = 0;
  while (i <= t.size()) { size_t e = t.find(',', i); if (e == std::string::npos) e = t.size(); p.push_back(t.substr(i, e - i)); i = e + 1; }
  for (int k = 0; k < NOPS; k++) if (p[0] == OPN[k]) r.op = k;
  r.dt = dt_parse(p[1]); r.count = atoi(p[2].c_str());
  for (size_t k = 3; k < p.size(); k++) {
    std::string &q = p[k];
    if (q.compare(0, 5, "root=") == 0) r.root = atoi(q.c_str() + 5) % csize;
    else if (q == "inplace") r.inplace = true;
    else if (q.compare(0, 3, "cv=") == 0) r.cv = atoi(q.c_str() + 3);
    else if (q.compare(0, 8, "inexact=") == 0) r.inexact = atoi(q.c_str() + 8);
    else if (q.compare(0, 4, "gap=") == 0) r.gap = atoi(q.c_str() + 4);
    else if (q == "inexact") r.inexact = 1;
    else if (q.compare(0, 1, "@") == 0) { size_t c = q.find(':'); std::string v = q.substr(c + 1); for (auto &ch : v) if (ch == '_') ch = ' '; r.info.push_back({q.substr(1, c - 1), v}); }
  }
  Rng g(H(salt, 77, r.op, r.count));
  bool v = r.op == ALLGATHERV || r.op == GATHERV || r.op == SCATTERV || r.op == REDSCAT;
  int at = 0;
  for (int k = 0; k < csize; k++) {
    int c = r.count;
    if (v) switch (r.cv) {
      case 1: c = g.below(r.count + 1); break;                    // anything from 0
      case 2: c = k == (int)(salt % csize) ? r.count : 0; break;  // one contributor
      case 3: c = 1 + g.below(r.count); break;                    // at least one each
      case 4: c = r.count + (k == (int)(salt % csize) ? 1 : 0); break;
      default: break;
    }
    r.cnt.push_back(c);
  }
  // displacements
  std::vector<int> order; for (int k = 0; k < csize; k++) order.push_back(k);
  bool vd = r.op == ALLGATHERV || r.op == GATHERV || r.op == SCATTERV;
  if (vd && r.gap == 2) for (int k = csize - 1; k > 0; k--) std::swap(order[k], order[g.below(k + 1)]);
  r.dis.assign(csize, 0);
  for (int k : order) { if (vd && r.gap) at += g.below(4); r.dis[k] = at; at += r.cnt[k]; r.tot += r.cnt[k]; }
  if (vd && r.gap) at += g.below(3);
  r.span = at;
  return r;
}

struct ReqRun {
  ReqSpec s; MPI_Request h = MPI_REQUEST_NULL; MPI_Info info = MPI_INFO_NULL; bool active = false; int round = 0;
  char *sb = nullptr, *rb = nullptr; size_t sn = 0, rn = 0; // bytes
  std::vector<char> sref, rexp, rpre; // expected send content, expected receive content
  std::vector<long double> want, tol; std::vector<char> firstbits;
  std::vector<int> cc, dd; // arrays handed to the library
};
struct CommRun { MPI_Comm c; int size, rank; std::vector<int> members; uint64_t id; };

static void val(const ReqSpec &s, uint64_t salt, int round, int rank, size_t elem, char *p) {
  uint64_t h = H(salt, (s.inexact > 1 ? 0 : round) * 131 + 7, rank, elem);
  if (s.inexact && s.dt == 3) { double v = (double)((long)(h >> 20)) / (1 + (h & 0xfff)) * ((h & 4096) ? 1e-7 : 1e3); if (h & 8192) v = -v; memcpy(p, &v, 8); return; }
  if (s.inexact && s.dt == 2) { float v = (float)((double)(h >> 40) / (1 + (h & 0xfff)) * ((h & 4096) ? 1e-3 : 1e2)); if (h & 8192) v = -v; memcpy(p, &v, 4); return; }
  put_val(p, s.dt, h);
}
static size_t send_elems(const ReqSpec &s, const CommRun &c) {
  switch (s.op) {
  case ALLREDUCE: case REDUCE: return s.count;
  case REDSCAT: case REDSCATB: return s.tot;
  case ALLGATHER: case GATHER: case ALLGATHERV: case GATHERV: return s.cnt[c.rank];
  case BCAST: return 0;
  case SCATTER: return c.rank == s.root ? (size_t)s.count * c.size : 0;
  case SCATTERV: return c.rank == s.root ? s.span : 0;
  }
  return 0;
}
static MPI_Datatype dt_f08(int d, uint64_t h) {
  switch (d) {
  case 0: { MPI_Datatype t[] = {MPI_INTEGER, MPI_INTEGER4, MPI_INT}; return t[h % 3]; }
  case 1: { MPI_Datatype t[] = {MPI_INTEGER8, MPI_LONG}; return t[h % 2]; }
  case 2: { MPI_Datatype t[] = {MPI_REAL, MPI_REAL4, MPI_FLOAT}; return t[h % 3]; }
  default: { MPI_Datatype t[] = {MPI_DOUBLE_PRECISION, MPI_REAL8, MPI_DOUBLE}; return t[h % 3]; }
  }
}
static size_t recv_elems(const ReqSpec &s, const CommRun &c) {
  switch (s.op) {
  case ALLREDUCE: case BCAST: return s.count;
  case REDUCE: return c.rank == s.root ? s.count : 0;
  case REDSCAT: case REDSCATB: return s.inplace ? s.tot : s.cnt[c.rank];
  case ALLGATHER: return (size_t)s.count * c.size;
  case ALLGATHERV: return s.span;
  case GATHER: return c.rank == s.root ? (size_t)s.count * c.size : 0;
  case GATHERV: return c.rank == s.root ? s.span : 0;
  case SCATTER: case SCATTERV: return s.cnt[c.rank];
  }
  return 0;
}
static bool uses_inplace(const ReqSpec &s, const CommRun &c) {
  if (!s.inplace) return false;
  switch (s.op) {
  case ALLREDUCE: case REDSCAT: case REDSCATB: case ALLGATHER: case ALLGATHERV: return true;
  case REDUCE: case GATHER: case GATHERV: case SCATTER: case SCATTERV: return c.rank == s.root;
  }
  return false;
}
static bool all_ub = true;
void make_buffers(ReqRun &q, const CommRun &c, Rng &r) {
  size_t es = dt_size(q.s.dt);
  q.sn = send_elems(q.s, c) * es; q.rn = recv_elems(q.s, c) * es;
  if (uses_inplace(q.s, c) && q.s.op != SCATTER && q.s.op != SCATTERV) q.sn = 0;
  if (uses_inplace(q.s, c) && (q.s.op == SCATTER || q.s.op == SCATTERV)) q.rn = 0;
  q.sb = ub_alloc(cur, q.sn, UB_NONE); q.rb = ub_alloc(cur, q.rn, UB_NONE);
  q.sref.assign(q.sn, 0); q.rexp.assign(q.rn, 0);
}
// fill the buffers for a round and compute what must be there at completion
void fill_round(ReqRun &q, const CommRun &c, uint64_t salt, int round) {
  const ReqSpec &s = q.s; size_t es = dt_size(s.dt);
  q.round = round;
  for (size_t i = 0; i < q.rn; i++) q.rb[i] = (char)H(salt, 999 + round, cur, i);
  bool ip = uses_inplace(s, c);
  auto v = [&](int rank, size_t e, char *p) { val(s, salt, round, rank, e, p); };
  // send data
  for (size_t i = 0; i < q.sn / es; i++) v(c.rank, i, q.sb + i * es);
  if (ip) switch (s.op) {
    case ALLREDUCE: case REDUCE: for (int i = 0; i < s.count; i++) v(c.rank, i, q.rb + i * es); break;
    case REDSCAT: case REDSCATB: for (int i = 0; i < s.tot; i++) v(c.rank, i, q.rb + i * es); break;
    case ALLGATHER: case GATHER: for (int i = 0; i < s.count; i++) v(c.rank, i, q.rb + ((size_t)c.rank * s.count + i) * es); break;
    case ALLGATHERV: case GATHERV: for (int i = 0; i < s.cnt[c.rank]; i++) v(c.rank, i, q.rb + ((size_t)s.dis[c.rank] + i) * es); break;
  }
  if (s.op == BCAST && c.rank == s.root) for (int i = 0; i < s.count; i++) v(c.rank, i, q.rb + i * es);
  memcpy(q.sref.data(), q.sb, q.sn);
  // expectation
  memcpy(q.rexp.data(), q.rb, q.rn);
  char *e = q.rexp.data(); char t[8];
  auto sum = [&](size_t elem, char *dst) { v(0, elem, dst); for (int k = 1; k < c.size; k++) { v(k, elem, t); add_val(dst, t, s.dt); } };
  if (s.inexact) { // sums in extended precision and the admissible error
    q.want.clear(); q.tol.clear();
    size_t off = 0, m = s.op == ALLREDUCE || (s.op == REDUCE && c.rank == s.root) ? s.count : 0;
    if (s.op == REDSCAT || s.op == REDSCATB) { for (int k = 0; k < c.rank; k++) off += s.cnt[k]; m = s.cnt[c.rank]; }
    for (size_t i = 0; i < m; i++) {
      long double a = 0, b = 0;
      for (int k = 0; k < c.size; k++) { v(k, off + i, t); long double x; if (s.dt == 3) { double d; memcpy(&d, t, 8); x = d; } else { float f; memcpy(&f, t, 4); x = f; } a += x; b += x < 0 ? -x : x; }
      q.want.push_back(a); q.tol.push_back(b * c.size * (s.dt == 3 ? 2.3e-16L : 1.2e-7L));
    }
    return;
  }
  switch (s.op) {
  case ALLREDUCE: for (int i = 0; i < s.count; i++) sum(i, e + i * es); break;
  case REDUCE: if (c.rank == s.root) for (int i = 0; i < s.count; i++) sum(i, e + i * es); break;
  case REDSCAT: case REDSCATB: { int off = 0; for (int k = 0; k < c.rank; k++) off += s.cnt[k]; for (int i = 0; i < s.cnt[c.rank]; i++) sum(off + i, e + i * es); break; }
  case ALLGATHER: for (int k = 0; k < c.size; k++) for (int i = 0; i < s.count; i++) v(k, i, e + ((size_t)k * s.count + i) * es); break;
  case ALLGATHERV: for (int k = 0; k < c.size; k++) for (int i = 0; i < s.cnt[k]; i++) v(k, i, e + ((size_t)s.dis[k] + i) * es); break;
  case BCAST: for (int i = 0; i < s.count; i++) v(s.root, i, e + i * es); break;
  case GATHER: if (c.rank == s.root) for (int k = 0; k < c.size; k++) for (int i = 0; i < s.count; i++) v(k, i, e + ((size_t)k * s.count + i) * es); break;
  case GATHERV: if (c.rank == s.root) for (int k = 0; k < c.size; k++) for (int i = 0; i < s.cnt[k]; i++) v(k, i, e + ((size_t)s.dis[k] + i) * es); break;
  case SCATTER: if (q.rn) for (int i = 0; i < s.count; i++) v(s.root, (size_t)c.rank * s.count + i, e + i * es); break;
  case SCATTERV: if (q.rn) for (int i = 0; i < s.cnt[c.rank]; i++) v(s.root, (size_t)s.dis[c.rank] + i, e + i * es); break;
  }
}
void perms(ReqRun &q, int sp, int rp) { if (q.sn) ub_perm(q.sb, q.sn, sp); if (q.rn) ub_perm(q.rb, q.rn, rp); }
static std::vector<std::vector<std::vector<char>>> inexact_results; // [req][...]
static std::map<std::pair<int, int>, std::pair<int, std::vector<char>>> first_result; // (req,round) -> rank, bytes
void check_round(ReqRun &q, const CommRun &c, int ri, const char *how) {
  size_t es = dt_size(q.s.dt);
  if (q.sn && memcmp(q.sb, q.sref.data(), q.sn)) violation("sendbuf", "request %d (%s) round %d: the send buffer was modified", ri, q.s.text.c_str(), q.round);
  size_t ndef = q.rn; // for in place reduce_scatter only the leading part is defined
  if ((q.s.op == REDSCAT || q.s.op == REDSCATB) && q.s.inplace) ndef = q.s.cnt[c.rank] * es;
  if (q.s.inexact) {
    for (size_t i = 0; i < q.want.size(); i++) {
      long double x; if (q.s.dt == 3) { double d; memcpy(&d, q.rb + i * es, 8); x = d; } else { float f; memcpy(&f, q.rb + i * es, 4); x = f; }
      long double e = x - q.want[i]; if (e < 0) e = -e;
      if (!(e <= q.tol[i])) violation("wrong-result", "request %d (%s) round %d completed by %s: element %zu of %zu at communicator rank %d is %.17Lg, expected %.17Lg +- %.3Lg", ri, q.s.text.c_str(), q.round, how, i, q.want.size(), c.rank, x, q.want[i], q.tol[i]);
    }
    bool ident = false, repro = true;
    for (auto &x : q.s.info) { if (x.first == "ext_mpi_bit_identical" && atoi(x.second.c_str())) ident = true; if (x.first == "ext_mpi_bit_reproducible" && !atoi(x.second.c_str())) repro = false; }
    if (ident && q.s.op == ALLREDUCE) {
      auto key = std::make_pair(ri + 1000 * (int)c.id, q.round);
      auto it = first_result.find(key);
      if (it == first_result.end()) first_result[key] = {c.rank, std::vector<char>(q.rb, q.rb + q.rn)};
      else if (memcmp(it->second.second.data(), q.rb, q.rn)) violation("bit-identical", "request %d (%s) round %d: ranks %d and %d obtain different bits", ri, q.s.text.c_str(), q.round, it->second.first, c.rank);
      ws.bit_checks++;
    }
    if (repro && q.s.inexact > 1) { // the same input in every round
      if (q.firstbits.empty()) q.firstbits.assign(q.rb, q.rb + q.want.size() * es);
      else if (memcmp(q.firstbits.data(), q.rb, q.want.size() * es)) violation("bit-reproducible", "request %d (%s): rank %d obtains different bits in round %d from the same input", ri, q.s.text.c_str(), c.rank, q.round);
      ws.bit_checks++;
    }
    if (repro) for (size_t i = 0; i < q.want.size() * es; i++) ws.rhash += H((unsigned char)q.rb[i], i, c.rank + 100 * ri, q.s.inexact > 1 ? 0 : q.round);
    ws.results_checked++;
    return;
  }
  if (memcmp(q.rb, q.rexp.data(), ndef)) {
    size_t i = 0; while (q.rb[i] == q.rexp[i]) i++;
    size_t el = i / es, bad = 0; for (size_t k = 0; k < ndef / es; k++) if (memcmp(q.rb + k * es, q.rexp.data() + k * es, es)) bad++;
    violation("wrong-result", "request %d (%s) round %d completed by %s: element %zu of %zu at communicator rank %d of %d is %s, expected %s (%zu elements differ)", ri, q.s.text.c_str(), q.round, how, el, ndef / es, c.rank, c.size,
              show(q.rb + el * es, q.s.dt).c_str(), show(q.rexp.data() + el * es, q.s.dt).c_str(), bad);
  }
  ws.results_checked++;
  ws.bytes_checked += ndef;
}
static void do_init(ReqRun &q, const CommRun &c, int initperm) {
  const ReqSpec &s = q.s; Api &a = api[cur];
  MPI_Datatype t = dt_mpi(s.dt);
  if (!s.info.empty()) { PMPI_Info_create(&q.info); for (auto &x : s.info) PMPI_Info_set(q.info, x.first.c_str(), x.second.c_str()); }
  if (initperm) perms(q, UB_RW, UB_RW);
  const void *sb = q.sb; void *rb = q.rb;
  bool ip = uses_inplace(s, c);
  if (ip) { if (s.op == SCATTER || s.op == SCATTERV) rb = MPI_IN_PLACE; else sb = MPI_IN_PLACE; }
  q.cc = s.cnt; q.dd = s.dis;
  int ret = 0;
  // sig=1: arguments that are significant at the root only have no usable value on the other ranks
  bool sig = I("sig", 0) && c.rank != s.root;
  int rc = s.count; MPI_Datatype rt = t; const int *ca = q.cc.data(), *da = q.dd.data();
  if (sig && (s.op == REDUCE || s.op == GATHER || s.op == GATHERV)) rb = (void *)0;
  if (sig && (s.op == SCATTER || s.op == SCATTERV)) sb = (void *)0;
  if (sig) { rc = -77; rt = MPI_DATATYPE_NULL; ca = da = (const int *)0; }
  if (I("f08", 0) && s.op == ALLREDUCE) {
    int n = s.count; MPI_Op op = MPI_SUM; MPI_Datatype ft = dt_f08(s.dt, H(strtoull(S("dseed", "1").c_str(), nullptr, 10), 71, s.dt, s.count)); MPI_Comm cc = c.c;
    f08[cur].init(ip ? (const void *)MPIR_F08_MPI_IN_PLACE : sb, rb, &n, &ft, &op, &cc, &q.info, &q.h, &ret);
  } else switch (s.op) {
  case ALLREDUCE: ret = a.Allreduce_init(sb, rb, s.count, t, MPI_SUM, c.c, q.info, &q.h); break;
  case REDUCE: ret = a.Reduce_init(sb, rb, s.count, t, MPI_SUM, s.root, c.c, q.info, &q.h); break;
  case REDSCAT: ret = a.Reduce_scatter_init(sb, rb, q.cc.data(), t, MPI_SUM, c.c, q.info, &q.h); break;
  case REDSCATB: ret = a.Reduce_scatter_block_init(sb, rb, s.count, t, MPI_SUM, c.c, q.info, &q.h); break;
  case ALLGATHER: ret = a.Allgather_init(sb, s.count, t, rb, s.count, t, c.c, q.info, &q.h); break;
  case ALLGATHERV: ret = a.Allgatherv_init(sb, s.cnt[c.rank], t, rb, q.cc.data(), q.dd.data(), t, c.c, q.info, &q.h); break;
  case BCAST: ret = a.Bcast_init(rb, s.count, t, s.root, c.c, q.info, &q.h); break;
  case GATHER: ret = a.Gather_init(sb, s.count, t, rb, rc, rt, s.root, c.c, q.info, &q.h); break;
  case GATHERV: ret = a.Gatherv_init(sb, s.cnt[c.rank], t, rb, ca, da, rt, s.root, c.c, q.info, &q.h); break;
  case SCATTER: ret = a.Scatter_init(sb, rc, rt, rb, s.count, t, s.root, c.c, q.info, &q.h); break;
  case SCATTERV: ret = a.Scatterv_init(sb, ca, da, rt, rb, s.cnt[c.rank], t, s.root, c.c, q.info, &q.h); break;
  }
  if (ret != MPI_SUCCESS) violation("init-error", "%s returned %d", s.text.c_str(), ret);
  if (q.h == MPI_REQUEST_NULL) violation("init-error", "%s returned MPI_REQUEST_NULL", s.text.c_str());
  // argument arrays may be reused by the application once init has returned
  for (auto &x : q.cc) x = -12345; for (auto &x : q.dd) x = -54321;
  if (q.info != MPI_INFO_NULL) PMPI_Info_free(&q.info);
  perms(q, UB_NONE, UB_NONE);
}
static void do_start(ReqRun &q, const CommRun &c, uint64_t salt, int round, int ri) {
  fill_round(q, c, salt, round);
  perms(q, UB_R, UB_RW);
  trace("Start req %d round %d", ri, round);
  int ret = 0; if (I("f08", 0)) { ret = -1; f08[cur].start(&q.h, &ret); } else ret = api[cur].Start(&q.h);
  if (ret) violation("start-error", "MPI_Start returned %d", ret);
  q.active = true; ws.starts++;
}
static void completed(ReqRun &q, const CommRun &c, int ri, const char *how) {
  trace("complete req %d round %d by %s", ri, q.round, how);
  if (!q.active) violation("completion", "%s reported completion of request %d which is not active", how, ri);
  q.active = false;
  perms(q, UB_NONE, UB_NONE);
  check_round(q, c, ri, how);
  g_progress++;
}
static const char *CM[] = {"Wait", "Test", "Waitall", "Testall", "Waitany", "Testany", "Waitsome", "Testsome"};
static void poll_pause(Rng &r) { sched_point(SK_SPIN); }
// completes the requests of `set` (indices into q); any/some hand over the full array including inactive requests
static void complete_set(std::vector<ReqRun> &q, std::vector<int> set, const CommRun *cs, const std::vector<int> &cidx, int how, Rng &r, int compact) {
  Api &a = api[cur];
  ws.cmpl[how]++;
  bool st = r.chance(1, 2);
  auto C = [&](int i) -> const CommRun & { return cs[cidx[i]]; };
  switch (how) {
  case 0: for (int i : set) { MPI_Status s; int ret; if (I("f08", 0)) { ret = -1; f08[cur].wait(&q[i].h, &s, &ret); } else ret = a.Wait(&q[i].h, st ? &s : MPI_STATUS_IGNORE); if (ret) violation("completion", "MPI_Wait returned %d", ret); completed(q[i], C(i), i, "MPI_Wait"); app_delay(r); } break;
  case 1:
    if (compact) { for (int i : set) { int f = 0; while (true) { MPI_Status s; f = -7; a.Test(&q[i].h, &f, st ? &s : MPI_STATUS_IGNORE); ws.tests++; if (f) break; poll_pause(r); } completed(q[i], C(i), i, "MPI_Test"); } }
    else { // poll all of them in turn
      std::set<int> left(set.begin(), set.end());
      while (!left.empty()) { std::vector<int> l(left.begin(), left.end()); for (int i : l) { int f = -7; a.Test(&q[i].h, &f, MPI_STATUS_IGNORE); ws.tests++; if (f) { completed(q[i], C(i), i, "MPI_Test"); left.erase(i); } } if (!left.empty()) poll_pause(r); }
    }
    break;
  case 2: case 3: {
    std::vector<MPI_Request> h; for (int i : set) h.push_back(q[i].h);
    std::vector<MPI_Status> ss(h.size() + 1);
    MPI_Status *sp = st ? ss.data() : MPI_STATUSES_IGNORE;
    if (how == 2) { int ret = a.Waitall(h.size(), h.data(), sp); if (ret) violation("completion", "MPI_Waitall returned %d", ret); }
    else { int f; while (true) { f = -7; a.Testall(h.size(), h.data(), &f, sp); ws.tests++; if (f) break; poll_pause(r); } }
    for (size_t k = 0; k < set.size(); k++) { if (h[k] != q[set[k]].h) violation("completion", "a persistent request handle was changed by %s", CM[how]); completed(q[set[k]], C(set[k]), set[k], CM[how]); }
    break;
  }
  default: {
    // array with all requests of the set; completed ones stay in the array as inactive requests (compact=0),
    // are replaced by MPI_REQUEST_NULL (compact=1) or removed (compact=2)
    std::vector<MPI_Request> h; std::vector<int> map;
    for (int i : set) { h.push_back(q[i].h); map.push_back(i); }
    size_t left = set.size();
    while (left) {
      int n = h.size(), ix = -99, f = -7, outc = -7; std::vector<int> ixs(n + 1, -99); std::vector<MPI_Status> ss(n + 1); MPI_Status *sp = st ? ss.data() : MPI_STATUSES_IGNORE; MPI_Status *s1 = st ? &ss[0] : MPI_STATUS_IGNORE;
      std::vector<int> done;
      switch (how) {
      case 4: a.Waitany(n, h.data(), &ix, s1); done.push_back(ix); break;
      case 5: a.Testany(n, h.data(), &ix, &f, s1); ws.tests++; if (f) done.push_back(ix); break;
      case 6: a.Waitsome(n, h.data(), &outc, ixs.data(), sp); if (outc <= 0) violation("completion", "MPI_Waitsome returned outcount %d with %zu active requests", outc, left); for (int k = 0; k < outc; k++) done.push_back(ixs[k]); break;
      case 7: a.Testsome(n, h.data(), &outc, ixs.data(), sp); ws.tests++; if (outc < 0) violation("completion", "MPI_Testsome returned outcount %d with %zu active requests", outc, left); for (int k = 0; k < outc; k++) done.push_back(ixs[k]); break;
      }
      for (int x : done) {
        if (x < 0 || x >= n) violation("completion", "MPI_%s returned index %d with %zu active requests in an array of %d", CM[how], x, left, n);
        if (map[x] < 0 || !q[map[x]].active) violation("completion", "MPI_%s returned index %d which is not an active request", CM[how], x);
        completed(q[map[x]], C(map[x]), map[x], CM[how]); left--;
        if (compact == 1) h[x] = MPI_REQUEST_NULL, map[x] = -1;
      }
      if (compact == 2) { std::vector<MPI_Request> h2; std::vector<int> m2; for (size_t k = 0; k < map.size(); k++) if (q[map[k]].active) h2.push_back(h[k]), m2.push_back(map[k]); h = h2; map = m2; }
      if (done.empty()) poll_pause(r);
    }
    if (compact != 2 && !set.empty()) { // nothing active any more
      int n = h.size(), ix = -99, f = -7, outc = -7; std::vector<int> ixs(n + 1, -99);
      switch (how) {
      case 4: a.Waitany(n, h.data(), &ix, MPI_STATUS_IGNORE); if (ix != MPI_UNDEFINED) violation("completion", "MPI_Waitany on inactive requests returned index %d instead of MPI_UNDEFINED", ix); break;
      case 5: a.Testany(n, h.data(), &ix, &f, MPI_STATUS_IGNORE); if (!f || ix != MPI_UNDEFINED) violation("completion", "MPI_Testany on inactive requests returned flag %d index %d", f, ix); break;
      case 6: a.Waitsome(n, h.data(), &outc, ixs.data(), MPI_STATUSES_IGNORE); if (outc != MPI_UNDEFINED) violation("completion", "MPI_Waitsome on inactive requests returned outcount %d", outc); break;
      case 7: a.Testsome(n, h.data(), &outc, ixs.data(), MPI_STATUSES_IGNORE); if (outc != MPI_UNDEFINED) violation("completion", "MPI_Testsome on inactive requests returned outcount %d", outc); break;
      }
    }
  }
  }
}

// ------------------------------------------------------------ ordinary requests of the application in the same arrays
struct Foreign { int kind; MPI_Request h; int peer, tag; long buf[4]; long expect[4]; int n; bool active; }; // kind 0 Isend 1 Irecv 2 Send_init 3 Recv_init 4 null 5 never started
static void foreign_make(std::vector<Foreign> &f, int k, uint64_t salt) { // the same kinds on all ranks, every send has its receive on the next rank
  f.clear(); f.reserve(2 * k + 2);
  app_mode_enter();
  for (int i = 0; i < k; i++) {
    bool ps = H(salt, 21, i, 0) & 1, pr = H(salt, 22, i, 0) & 1, wild = H(salt, 23, cur, i) & 1;
    int n = 1 + H(salt, 24, i, 0) % 4, to = (cur + 1) % cfg.n, from = (cur + cfg.n - 1) % cfg.n, tag = 900 + i;
    f.push_back({ps ? 2 : 0, MPI_REQUEST_NULL, to, tag, {}, {}, n, false});
    f.push_back({pr ? 3 : 1, MPI_REQUEST_NULL, from, tag, {}, {}, n, false});
    Foreign &a = f[f.size() - 2], &b = f.back();
    if (ps) PMPI_Send_init(a.buf, n, MPI_LONG, to, tag, MPI_COMM_WORLD, &a.h);
    if (pr) PMPI_Recv_init(b.buf, n, MPI_LONG, wild ? MPI_ANY_SOURCE : from, tag, MPI_COMM_WORLD, &b.h);
  }
  if (H(salt, 25, cur, 0) & 1) f.push_back({4, MPI_REQUEST_NULL, 0, 0, {}, {}, 0, false});
  if (H(salt, 25, cur, 1) & 1) { f.push_back({5, MPI_REQUEST_NULL, 0, 0, {}, {}, 0, false}); Foreign &b = f.back(); PMPI_Recv_init(b.buf, 1, MPI_LONG, 0, 999, MPI_COMM_WORLD, &b.h); }
  app_mode_leave();
}
static void foreign_start(std::vector<Foreign> &f, uint64_t salt, int round, std::vector<MPI_Request *> *later) {
  app_mode_enter();
  for (auto &x : f) if (x.kind < 4) {
    int src = x.kind == 1 || x.kind == 3 ? x.peer : cur;
    for (int i = 0; i < x.n; i++) { long v = (long)H(salt, 26 + round, src * 100 + x.tag, i); if (src == cur && (x.kind == 0 || x.kind == 2)) x.buf[i] = v; else x.buf[i] = -1; x.expect[i] = v; }
    if (x.kind == 0) PMPI_Isend(x.buf, x.n, MPI_LONG, x.peer, x.tag, MPI_COMM_WORLD, &x.h);
    else if (x.kind == 1) PMPI_Irecv(x.buf, x.n, MPI_LONG, x.peer, x.tag, MPI_COMM_WORLD, &x.h);
    else if (later) later->push_back(&x.h);
    else { int ret = api[cur].Start(&x.h); if (ret) violation("start-error", "MPI_Start of a point-to-point request returned %d", ret); }
    x.active = true;
  }
  app_mode_leave();
}
static void foreign_done(Foreign &x, MPI_Request now, const char *how, const MPI_Status *st) {
  if (!x.active) violation("completion", "%s reported completion of a point-to-point request that is not active", how);
  x.active = false;
  if (x.kind < 2 && now != MPI_REQUEST_NULL) violation("completion", "%s did not set the handle of a completed point-to-point request to MPI_REQUEST_NULL", how);
  if (x.kind >= 2 && now != x.h) violation("completion", "%s changed the handle of a persistent point-to-point request", how);
  x.h = now;
  if (x.kind == 1 || x.kind == 3) {
    for (int i = 0; i < x.n; i++) if (x.buf[i] != x.expect[i]) violation("isolation", "%s: a message of the application was not delivered when its receive was reported complete", how);
    if (st) { int c; PMPI_Get_count(st, MPI_LONG, &c); if (st->MPI_SOURCE != x.peer || st->MPI_TAG != x.tag || c != x.n) violation("completion", "%s: status of a receive is source %d tag %d count %d, expected %d %d %d", how, st->MPI_SOURCE, st->MPI_TAG, c, x.peer, x.tag, x.n); }
  }
  ws.extra++; g_progress++;
}
// completes collectives and ordinary requests through common arrays
static void complete_mixed(std::vector<ReqRun> &q, const std::vector<int> &set, const CommRun *cs, const std::vector<int> &cidx, std::vector<Foreign> &fo, int how, Rng &r, int compact) {
  Api &a = api[cur];
  bool st = r.chance(2, 3);
  std::vector<MPI_Request> h; std::vector<int> map; // map: >= 0 collective, < 0 ordinary request -1-k
  for (int i : set) map.push_back(i);
  if (how >= 4) for (size_t i = 0; i < q.size(); i++) if (!q[i].active && r.chance(1, 3)) map.insert(map.begin() + r.below(map.size() + 1), i); // inactive collectives
  else if (!q[i].active && r.chance(1, 6) && how == 2) map.insert(map.begin() + r.below(map.size() + 1), i);
  for (size_t k = 0; k < fo.size(); k++) map.insert(map.begin() + r.below(map.size() + 1), -1 - (int)k); // the order of the collectives stays
  auto H_ = [&](int m) { return m >= 0 ? q[m].h : fo[-1 - m].h; };
  auto act = [&](int m) { return m >= 0 ? q[m].active : fo[-1 - m].active; };
  for (int m : map) h.push_back(H_(m));
  ws.cmpl[how]++;
  std::string nm = std::string("MPI_") + CM[how];
  auto fin = [&](int x, const MPI_Status *s) {
    int m = map[x];
    if (m >= 0) { if (h[x] != q[m].h) violation("completion", "%s changed the handle of a persistent collective", nm.c_str()); completed(q[m], cs[cidx[m]], m, nm.c_str()); }
    else foreign_done(fo[-1 - m], h[x], nm.c_str(), s);
  };
  if (how < 2) {
    if (how == 0) for (size_t x = 0; x < map.size(); x++) { bool was = act(map[x]); MPI_Status s; int ret = a.Wait(&h[x], st ? &s : MPI_STATUS_IGNORE); if (ret) violation("completion", "MPI_Wait returned %d", ret); if (was) fin(x, st ? &s : nullptr); }
    else { size_t left = 0; for (int m : map) left += act(m); while (left) { for (size_t x = 0; x < map.size(); x++) if (act(map[x])) { int f = -7; MPI_Status s; a.Test(&h[x], &f, st ? &s : MPI_STATUS_IGNORE); ws.tests++; if (f) { fin(x, st ? &s : nullptr); left--; } } if (left) poll_pause(r); } }
    return;
  }
  if (how < 4) {
    std::vector<MPI_Status> ss(h.size() + 1); MPI_Status *sp = st ? ss.data() : MPI_STATUSES_IGNORE;
    std::vector<bool> was; for (int m : map) was.push_back(act(m));
    if (how == 2) { int ret = a.Waitall(h.size(), h.data(), sp); if (ret) violation("completion", "MPI_Waitall returned %d", ret); }
    else while (true) {
      std::vector<MPI_Request> b = h; int f = -7; a.Testall(h.size(), h.data(), &f, sp); ws.tests++;
      if (f == 1) break;
      if (f) violation("completion", "MPI_Testall returned flag %d", f);
      for (size_t x = 0; x < h.size(); x++) if (b[x] != h[x]) violation("completion", "MPI_Testall changed a handle although it returned flag = false");
      poll_pause(r);
    }
    for (size_t x = 0; x < map.size(); x++) if (was[x]) fin(x, st ? &ss[x] : nullptr);
    return;
  }
  size_t left = 0; for (int m : map) left += act(m);
  while (left) {
    int n = h.size(), ix = -99, f = -7, outc = -7; std::vector<int> ixs(n + 1, -99); std::vector<MPI_Status> ss(n + 1); MPI_Status *sp = st ? ss.data() : MPI_STATUSES_IGNORE, *s1 = st ? &ss[0] : MPI_STATUS_IGNORE;
    std::vector<MPI_Request> b = h; std::vector<int> done;
    switch (how) {
    case 4: a.Waitany(n, h.data(), &ix, s1); done.push_back(ix); break;
    case 5: a.Testany(n, h.data(), &ix, &f, s1); ws.tests++; if (f) done.push_back(ix); break;
    case 6: a.Waitsome(n, h.data(), &outc, ixs.data(), sp); if (outc <= 0) violation("completion", "MPI_Waitsome returned outcount %d with %zu active requests", outc, left); for (int k = 0; k < outc; k++) done.push_back(ixs[k]); break;
    case 7: a.Testsome(n, h.data(), &outc, ixs.data(), sp); ws.tests++; if (outc < 0) violation("completion", "MPI_Testsome returned outcount %d with %zu active requests", outc, left); for (int k = 0; k < outc; k++) done.push_back(ixs[k]); break;
    }
    for (size_t k = 0; k < done.size(); k++) {
      int x = done[k];
      if (x < 0 || x >= n) violation("completion", "%s returned index %d with %zu active requests in an array of %d", nm.c_str(), x, left, n);
      if (!act(map[x])) violation("completion", "%s returned index %d which is not an active request", nm.c_str(), x);
      fin(x, st ? (how >= 6 ? &ss[k] : &ss[0]) : nullptr); left--; b[x] = h[x];
      if (compact == 1) h[x] = b[x] = MPI_REQUEST_NULL;
    }
    for (int x = 0; x < n; x++) if (b[x] != h[x]) violation("completion", "%s changed the handle of a request it did not complete", nm.c_str());
    if (done.empty()) poll_pause(r);
  }
}

// ------------------------------------------------------------ calls the library only passes on
static void pass_through(Rng &r, const CommRun &c, uint64_t salt) {
  Api &a = api[cur];
  app_mode_enter();
  for (int k = 0; k < 3; k++) {
    int d = H(salt, 31, k, 0) % 4, n = 1 + H(salt, 32, k, 0) % 5, opn = H(salt, 33, k, 0) % 3; size_t es = dt_size(d);
    MPI_Op op = opn == 0 ? MPI_SUM : opn == 1 ? MPI_MAX : MPI_MIN;
    auto v = [&](int rank, int i, char *p) { put_val(p, d, H(salt, 34 + k, rank, i)); };
    auto comb = [&](char *x, const char *y) { if (opn == 0) add_val(x, y, d); else { bool gt; switch (d) { case 0: { int p, q; memcpy(&p, x, 4); memcpy(&q, y, 4); gt = q > p; break; } case 1: { long p, q; memcpy(&p, x, 8); memcpy(&q, y, 8); gt = q > p; break; } case 2: { float p, q; memcpy(&p, x, 4); memcpy(&q, y, 4); gt = q > p; break; } default: { double p, q; memcpy(&p, x, 8); memcpy(&q, y, 8); gt = q > p; } } if (gt == (opn == 1)) memcpy(x, y, es); } };
    int tot = n * c.size; std::vector<char> sb(tot * es + 8), rb(tot * es + 8, 77), ex(tot * es + 8, 77); char t[8];
    const char *nm;
    switch (H(salt, 40, k, 0) % 3) {
    case 0: nm = "MPI_Allreduce"; for (int i = 0; i < n; i++) { v(c.rank, i, &sb[i * es]); v(0, i, &ex[i * es]); for (int q = 1; q < c.size; q++) { v(q, i, t); comb(&ex[i * es], t); } }
      if (H(salt, 41, k, 0) & 1) { memcpy(rb.data(), sb.data(), n * es); a.Allreduce(MPI_IN_PLACE, rb.data(), n, dt_mpi(d), op, c.c); } else a.Allreduce(sb.data(), rb.data(), n, dt_mpi(d), op, c.c);
      break;
    case 1: nm = "MPI_Reduce_scatter_block"; for (int i = 0; i < tot; i++) v(c.rank, i, &sb[i * es]);
      for (int i = 0; i < n; i++) { v(0, c.rank * n + i, &ex[i * es]); for (int q = 1; q < c.size; q++) { v(q, c.rank * n + i, t); comb(&ex[i * es], t); } }
      a.Reduce_scatter_block(sb.data(), rb.data(), n, dt_mpi(d), op, c.c); break;
    default: nm = "MPI_Allgather"; for (int i = 0; i < n; i++) v(c.rank, i, &sb[i * es]);
      for (int q = 0; q < c.size; q++) for (int i = 0; i < n; i++) v(q, i, &ex[(q * n + i) * es]);
      a.Allgather(sb.data(), n, dt_mpi(d), rb.data(), n, dt_mpi(d), c.c);
    }
    if (rb == ex && I("f08", 0)) { // the same through the Fortran interface
      for (int i = 0; i < n; i++) { v(c.rank, i, &sb[i * es]); v(0, i, &ex[i * es]); for (int q = 1; q < c.size; q++) { v(q, i, t); comb(&ex[i * es], t); } }
      MPI_Datatype ft = dt_f08(d, H(salt, 72, k, 0)); MPI_Comm cc = c.c; int ret = -1;
      if (H(salt, 73, k, 0) & 1) { memcpy(rb.data(), sb.data(), n * es); f08[cur].allreduce(MPIR_F08_MPI_IN_PLACE, rb.data(), &n, &ft, &op, &cc, &ret); } else f08[cur].allreduce(sb.data(), rb.data(), &n, &ft, &op, &cc, &ret);
      if (ret) violation("pass-through", "mpi_allreduce (Fortran) returned %d", ret);
      nm = "mpi_allreduce (Fortran)";
    }
    if (rb != ex) violation("pass-through", "%s called through the library gives a wrong result", nm);
    ws.extra++;
  }
  // communicator constructors
  MPI_Comm nc = MPI_COMM_NULL; int sz, rk; int kind = H(salt, 50, 0, 0) % 5, want, wrk;
  switch (kind) {
  case 0: if (I("f08", 0)) { MPI_Comm cc = c.c; int ret = -1; f08[cur].comm_dup(&cc, &nc, &ret); if (ret) violation("pass-through", "mpi_comm_dup (Fortran) returned %d", ret); } else a.Comm_dup(c.c, &nc); want = c.size; wrk = c.rank; break;
  case 1: if (I("f08", 0)) { MPI_Comm cc = c.c; int ret = -1, col = c.rank % 2, key = -c.rank; f08[cur].comm_split(&cc, &col, &key, &nc, &ret); if (ret) violation("pass-through", "mpi_comm_split (Fortran) returned %d", ret); } else a.Comm_split(c.c, c.rank % 2, -c.rank, &nc); want = (c.size + 1 - c.rank % 2) / 2; wrk = want - 1 - c.rank / 2; break;
  case 2: a.Comm_split(c.c, c.rank ? 0 : MPI_UNDEFINED, c.rank, &nc); want = c.rank ? c.size - 1 : -1; wrk = c.rank - 1; break;
  case 3: { std::vector<int> on; int me = -1; for (int i = 0; i < c.size; i++) if (c.members[i] / cfg.node_size == cur / cfg.node_size) { if (i == c.rank) me = on.size(); on.push_back(i); } // ranks of the node, backwards
    if (I("f08", 0)) { MPI_Comm cc = c.c; int ret = -1, ty = MPI_COMM_TYPE_SHARED, key = -c.rank; MPI_Info inf = MPI_INFO_NULL; f08[cur].comm_split_type(&cc, &ty, &key, &inf, &nc, &ret); if (ret) violation("pass-through", "mpi_comm_split_type (Fortran) returned %d", ret); } else a.Comm_split_type(c.c, MPI_COMM_TYPE_SHARED, -c.rank, MPI_INFO_NULL, &nc);
    want = on.size(); wrk = want - 1 - me; break; }
  default: { MPI_Group g, g2; PMPI_Comm_group(c.c, &g); std::vector<int> ids; for (int i = c.size - 1; i >= 0; i -= 2) ids.push_back(i); PMPI_Group_incl(g, ids.size(), ids.data(), &g2);
    if (I("f08", 0)) { MPI_Comm cc = c.c; int ret = -1; f08[cur].comm_create(&cc, &g2, &nc, &ret); if (ret) violation("pass-through", "mpi_comm_create (Fortran) returned %d", ret); } else a.Comm_create(c.c, g2, &nc); bool in = (c.size - 1 - c.rank) % 2 == 0; want = in ? (int)ids.size() : -1; wrk = (c.size - 1 - c.rank) / 2; PMPI_Group_free(&g); PMPI_Group_free(&g2); }
  }
  if (want < 0) { if (nc != MPI_COMM_NULL) violation("pass-through", "a communicator constructor (%d) returned a communicator to a process that is not a member", kind); }
  else { if (nc == MPI_COMM_NULL) violation("pass-through", "a communicator constructor (%d) returned MPI_COMM_NULL", kind);
    PMPI_Comm_size(nc, &sz); PMPI_Comm_rank(nc, &rk); if (sz != want || rk != wrk) violation("pass-through", "communicator constructor %d: size %d rank %d, expected %d %d", kind, sz, rk, want, wrk);
    if (I("f08", 0)) { int ret = -1; f08[cur].comm_free(&nc, &ret); if (ret) violation("pass-through", "mpi_comm_free (Fortran) returned %d", ret); } else a.Comm_free(&nc); if (nc != MPI_COMM_NULL) violation("pass-through", "MPI_Comm_free did not set the handle to MPI_COMM_NULL"); }
  ws.extra++;
  app_mode_leave();
}

// ------------------------------------------------------------ communicators
CommRun make_comm(const std::string &spec, uint64_t salt, bool via_lib) {
  CommRun c; c.c = MPI_COMM_WORLD;
  app_mode_enter();
  if (spec == "dup") api[cur].Comm_dup(MPI_COMM_WORLD, &c.c);
  else if (spec == "rev") api[cur].Comm_split(MPI_COMM_WORLD, 0, cfg.n - cur, &c.c);
  else if (spec == "shuf") api[cur].Comm_split(MPI_COMM_WORLD, 0, (int)(H(salt, 5, cur, 0) % 1000), &c.c);
  else if (spec.compare(0, 5, "split") == 0) { int k = atoi(spec.c_str() + 5); api[cur].Comm_split(MPI_COMM_WORLD, cur % k, (int)(H(salt, 6, cur, 0) % 1000), &c.c); }
  else if (spec.compare(0, 5, "block") == 0) { int k = atoi(spec.c_str() + 5); api[cur].Comm_split(MPI_COMM_WORLD, cur / k, cur, &c.c); }
  PMPI_Comm_size(c.c, &c.size); PMPI_Comm_rank(c.c, &c.rank);
  c.members.resize(c.size); PMPI_Allgather(&cur, 1, MPI_INT, c.members.data(), 1, MPI_INT, c.c);
  c.id = 0;
  if (spec.compare(0, 5, "split") == 0) c.id = cur % atoi(spec.c_str() + 5);
  if (spec.compare(0, 5, "block") == 0) c.id = cur / atoi(spec.c_str() + 5);
  app_mode_leave();
  return c;
}

// ------------------------------------------------------------ persistent collectives
static void leak_check(const char *when, const std::vector<long> &before) {}
static void app_traffic(Rng &r, uint64_t salt, int phase) {
  // a ring exchange of the application with wildcards, on MPI_COMM_WORLD
  if (cfg.n < 2) return;
  app_mode_enter();
  int v = cur * 1000 + phase, w = -1; MPI_Request a, b; MPI_Status s;
  bool wild = H(salt, 3, cur, phase) & 1;
  int from = (cur + cfg.n - 1) % cfg.n;
  PMPI_Irecv(&w, 1, MPI_INT, wild ? MPI_ANY_SOURCE : from, wild ? MPI_ANY_TAG : phase % 3, MPI_COMM_WORLD, &a);
  PMPI_Isend(&v, 1, MPI_INT, (cur + 1) % cfg.n, phase % 3, MPI_COMM_WORLD, &b);
  api[cur].Wait(&b, MPI_STATUS_IGNORE); 
  if (r.chance(1, 2)) api[cur].Wait(&a, &s); else { int f = 0; while (!f) { api[cur].Test(&a, &f, &s); } }
  app_mode_leave();
  if (w != from * 1000 + phase) violation("isolation", "application message was corrupted: got %d expected %d", w, from * 1000 + phase);
}
static std::vector<HeapLive> heap_marks[MAXR];
static void run_persistent(int me) {
  uint64_t salt = strtoull(S("dseed", S("seed", "1").c_str()).c_str(), nullptr, 10); // data; `seed` drives the schedule
  Rng r(H(cfg.seed, 1, me, 0)), common(H(salt, 2, 0, 0));
  Api &a = api[me];
  bool ftn = I("f08", 0);
  if (ftn) { bind_f08(me); int ret = -1; f08[me].mpi_init(&ret); if (ret) violation("init-error", "mpi_init returned %d", ret); } else a.Init(nullptr, nullptr);
  int ncomm = I("ncomm", 1);
  std::vector<CommRun> cs;
  for (int k = 0; k < ncomm; k++) cs.push_back(make_comm(S(("c" + std::to_string(k)).c_str(), "world"), salt + k, true));
  int nreq = I("nreq", 1), rounds = I("rounds", 2), cycles = I("cycles", 1), traffic = I("traffic", 0);
  int initperm = I("initperm", 1);
  int cm = I("cmpl", 0), compact = I("compact", 2), order = I("order", 0), testmask = I("testmask", -1);
  int mix = I("mix", 0), startall = I("startall", 0);
  for (int cyc = 0; cyc < cycles; cyc++) {
    std::vector<ReqRun> q(nreq); std::vector<int> cidx(nreq);
    std::vector<uint64_t> rs(nreq);
    for (int k = 0; k < nreq; k++) {
      cidx[k] = I(("rc" + std::to_string(k)).c_str(), 0) % ncomm;
      q[k].s = parse_req(S(("r" + std::to_string(k)).c_str(), "allreduce,long,10"), cs[cidx[k]].size, H(salt, 8, k, cs[cidx[k]].id));
      rs[k] = H(salt, 9 + cyc, k, cs[cidx[k]].id);
      make_buffers(q[k], cs[cidx[k]], r);
      app_delay(r);
      do_init(q[k], cs[cidx[k]], initperm);
    }
    std::vector<Foreign> fo_; if (mix) foreign_make(fo_, mix, salt + cyc);
    // buffers are filled right before each start; several requests may be outstanding
    for (int rd = 0; rd < rounds; rd++) {
      if (traffic) app_traffic(r, salt, rd + 10 * cyc);
      if (I("pass", 0)) { int k = H(salt, 60 + cyc, rd, 0) % ncomm; pass_through(r, cs[k], H(salt, 61 + cyc, rd, cs[k].id)); }
      std::vector<int> perm(nreq); for (int k = 0; k < nreq; k++) perm[k] = k;
      if (order) for (int k = nreq - 1; k > 0; k--) std::swap(perm[k], perm[common.below(k + 1)]);
      int batch = order == 2 ? 1 + common.below(nreq) : nreq;
      for (int b = 0; b < nreq; b += batch) {
        std::vector<int> set(perm.begin() + b, perm.begin() + std::min(nreq, b + batch));
        // some requests rest in this round
        if (I("rest", 0)) { std::vector<int> s2; for (int x : set) if (!common.chance(1, 4)) s2.push_back(x); set = s2; }
        std::vector<MPI_Request *> later;
        if (mix) foreign_start(fo_, salt + cyc, rd * 16 + b, startall ? &later : nullptr);
        if (startall) {
          std::vector<MPI_Request> hh; for (int i : set) { fill_round(q[i], cs[cidx[i]], rs[i], rd); perms(q[i], UB_R, UB_RW); hh.push_back(q[i].h); }
          std::vector<MPI_Request> h2 = hh; for (auto *x : later) hh.insert(hh.begin() + r.below(hh.size() + 1), *x);
          std::vector<MPI_Request> h3 = hh;
          int ret = a.Startall(hh.size(), hh.data()); if (ret) violation("start-error", "MPI_Startall returned %d", ret);
          if (hh != h3) violation("completion", "MPI_Startall changed a handle");
          for (int i : set) { q[i].active = true; ws.starts++; }
        } else for (int i : set) { app_delay(r); do_start(q[i], cs[cidx[i]], rs[i], rd, i); }
        std::vector<int> fin = set;
        if (order) for (int k = (int)fin.size() - 1; k > 0; k--) std::swap(fin[k], fin[common.below(k + 1)]);
        app_delay(r);
        int how = cm == 99 ? r.below(8) : cm == 98 ? r.below(2) : cm;
        if (I("firsttest", 0)) for (int i : fin) if (r.chance(1, 2)) { int f = -7; a.Test(&q[i].h, &f, MPI_STATUS_IGNORE); ws.tests++; if (f) { completed(q[i], cs[cidx[i]], i, "MPI_Test"); fin.erase(std::find(fin.begin(), fin.end(), i)); break; } }
        if (mix) complete_mixed(q, fin, cs.data(), cidx, fo_, how, r, compact);
        else complete_set(q, fin, cs.data(), cidx, how, r, cm == 98 || cm == 1 ? 1 : compact);
      }
    }
    if (mix) { app_mode_enter(); for (auto &x : fo_) if (x.kind == 2 || x.kind == 3 || x.kind == 5) { a.Request_free(&x.h); if (x.h != MPI_REQUEST_NULL) violation("free-error", "MPI_Request_free of a point-to-point request did not set it to MPI_REQUEST_NULL"); } app_mode_leave(); }
    std::vector<int> fo(nreq); for (int k = 0; k < nreq; k++) fo[k] = k;
    if (I("freeorder", 0)) for (int k = nreq - 1; k > 0; k--) std::swap(fo[k], fo[common.below(k + 1)]);
    for (int k : fo) {
      // a completed request leaves its buffers alone while it is freed
      int ret; if (I("f08", 0)) { ret = -1; f08[cur].request_free(&q[k].h, &ret); } else ret = a.Request_free(&q[k].h);
      if (ret) violation("free-error", "MPI_Request_free returned %d", ret);
      if (q[k].h != MPI_REQUEST_NULL) violation("free-error", "MPI_Request_free did not set the request to MPI_REQUEST_NULL");
      ws.frees++;
      app_delay(r);
    }
    heap_marks[me].push_back(heap_live(me));
    if (I("leak", 0)) {
      PMPI_Barrier(MPI_COMM_WORLD);
      MpiLive m = mpi_live(me);
      if (me == 0 && shm_live_segments()) violation("leak", "%d shared memory segments are left after all requests were freed", shm_live_segments());
      if (shm_leaked_attaches(me)) violation("leak", "%d shared memory segments are still attached after all requests were freed", shm_leaked_attaches(me));
      if (m.reqs) violation("leak", "%ld MPI requests are left after all requests were freed", m.reqs);
      if (m.msgs || m.posted) violation("leak", "%ld unreceived messages and %ld pending receives are left after all requests were freed", m.msgs, m.posted);
      if (cyc >= 2) { HeapLive &x = heap_marks[me][cyc], &y = heap_marks[me][cyc - 1]; if (x.blocks > y.blocks) violation("leak", "every init/free cycle leaves %ld heap blocks (%ld bytes) behind: %s", x.blocks - y.blocks, x.bytes - y.bytes, heap_dump(me, 6).c_str()); }
      PMPI_Barrier(MPI_COMM_WORLD);
    }
  }
  for (int k = 0; k < ncomm; k++) if (cs[k].c != MPI_COMM_WORLD) { app_mode_enter(); a.Comm_free(&cs[k].c); app_mode_leave(); }
  if (ftn) { int ret = -1; f08[me].mpi_finalize(&ret); if (ret) violation("init-error", "mpi_finalize returned %d", ret); } else a.Finalize();
  {
    MpiLive m = mpi_live(me);
    if (m.msgs || m.posted) violation("conservation", "%ld unreceived messages and %ld unmatched receives at finalize", m.msgs, m.posted);
    if (I("leak", 0)) {
      if (m.comms) violation("leak", "%ld communicators are left after MPI_Finalize", m.comms);
      if (m.reqs) violation("leak", "%ld requests are left after MPI_Finalize", m.reqs);
    }
    if (shm_leaked_attaches(me)) violation("leak", "%d shared memory segments are still attached after MPI_Finalize", shm_leaked_attaches(me));
  }
}

void run_case(const std::string &spec) {
  kv = parse_kv(spec);
  cfg.n = I("n", 2); cfg.seed = strtoull(S("seed", "1").c_str(), nullptr, 10);
  cfg.policy = I("pol", 0); cfg.acc_preempt = I("acc", 0); cfg.eager_pct = I("eager", 50); cfg.net_pct = I("net", 30);
  cfg.noenv_others = I("noenv", 0); cfg.clock_mode = I("clock", 0); cfg.poison = I("poison", 1); cfg.race = I("race", 1); cfg.polls = I("polls", 1);
#if defined(__SANITIZE_ADDRESS__)
  cfg.race = 0; // the accesses of the library are not recorded in this variant
#endif
  cfg.node_size = I("node", 1 << 20);
  for (auto &x : kv) if (x.first.compare(0, 4, "env.") == 0) { std::string v = x.second; for (auto &ch : v) if (ch == '_') ch = ' '; setenv(x.first.c_str() + 4, v.c_str(), 1); }
  mpi_reset();
  std::string mode = S("mode", "P");
  if (mode == "P") run_fibers(run_persistent);
  else { extern bool run_other(const std::string &); if (!run_other(mode)) { fprintf(stderr, "unknown mode\n"); exit(3); } }
  if (shm_live_segments()) violation("leak", "%d shared memory segments are left at the end", shm_live_segments());
}
