// A small MPI used by the simulator: point to point, collectives, communicators, info objects.
#include "sim.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unordered_map>
#include <algorithm>
#include <memory>

static int app_depth[MAXR];
void app_mode_enter() { app_depth[cur]++; }
void app_mode_leave() { app_depth[cur]--; }

struct CollRec;
struct CommS { int id; std::vector<int> w; std::deque<std::shared_ptr<CollRec>> recs; uint64_t base = 0; std::vector<uint64_t> seq; };
struct CommH { uint32_t magic; int owner; CommS *c; int rank; bool app; };
static const uint32_t CM = 0xC0111AAA, CDEAD = 0xDEADC011, RM = 0x4E90AAAA, RDEAD = 0xDEAD4E90;
static CommS *world_c;
static std::vector<CommS *> all_comms;
static std::vector<CommH *> comm_pool[MAXR];
static long live_comms[MAXR], live_reqs[MAXR];

struct GroupS { std::vector<int> w; };

struct Msg { int id, src, dst, tag, comm; size_t n; std::vector<char> data; const char *ref; bool eager; struct ReqS *sreq, *rreq; bool delivered; VC vc; bool app; };
enum { RQ_SEND, RQ_RECV, RQ_RECV_INIT }; // a persistent send is an RQ_SEND with persistent set
struct ReqS { uint32_t magic; int owner, kind; bool persistent, active, complete, app; char *buf; size_t n; int peer, tag; CommS *comm; size_t got; int gotsrc, gottag; Msg *m; VC vc; bool hasvc; };
static std::vector<ReqS *> req_pool[MAXR];
static std::deque<Msg *> unmatched[MAXR]; // per destination, send order
static std::deque<ReqS *> posted[MAXR];
static std::vector<Msg *> inflight;       // matched, not yet delivered
static long msg_live;

static CommS *new_comm(const std::vector<int> &w) { CommS *c = new CommS; c->id = all_comms.size(); c->w = w; c->seq.assign(w.size(), 0); all_comms.push_back(c); return c; }
static MPI_Comm new_handle(int r, CommS *c) {
  CommH *h;
  if (!comm_pool[r].empty() && net_rng.chance(1, 2)) { h = comm_pool[r].back(); comm_pool[r].pop_back(); } else h = (CommH *)calloc(1, 512);
  h->magic = CM; h->owner = r; h->c = c; h->app = app_depth[r] > 0;
  h->rank = -1;
  for (size_t i = 0; i < c->w.size(); i++) if (c->w[i] == r) h->rank = i;
  live_comms[r]++;
  return (MPI_Comm)h;
}
void mpi_reset() {
  std::vector<int> w;
  for (int i = 0; i < cfg.n; i++) w.push_back(i);
  world_c = new_comm(w);
  for (int i = 0; i < MAXR; i++) { unmatched[i].clear(); posted[i].clear(); live_comms[i] = live_reqs[i] = 0; app_depth[i] = 0; }
  inflight.clear(); msg_live = 0;
}
static CommS *C(MPI_Comm comm, int *rank, const char *f) {
  if (comm == MPI_COMM_WORLD) { *rank = cur; return world_c; }
  if (comm == MPI_COMM_NULL) violation("mpi-usage", "%s called with MPI_COMM_NULL", f);
  CommH *h = (CommH *)comm;
  if (h->magic == CDEAD) violation("mpi-usage", "%s called with a freed communicator", f);
  if (h->magic != CM) violation("mpi-usage", "%s called with an invalid communicator", f);
  if (h->owner != cur) violation("mpi-usage", "%s called with a communicator handle of another process", f);
  *rank = h->rank;
  return h->c;
}
static bool by_app() { return app_depth[cur] > 0; }

static size_t tsize(MPI_Datatype t, const char *f) {
#define T(x, s) if (t == x) return s
  T(MPI_CHAR, 1); T(MPI_BYTE, 1); T(MPI_SIGNED_CHAR, 1); T(MPI_UNSIGNED_CHAR, 1); T(MPI_SHORT, 2); T(MPI_INT, 4); T(MPI_UNSIGNED, 4); T(MPI_LONG, 8); T(MPI_UNSIGNED_LONG, 8); T(MPI_LONG_LONG, 8);
  T(MPI_FLOAT, 4); T(MPI_DOUBLE, 8); T(MPI_LONG_INT, 12); T(MPI_INTEGER, 4); T(MPI_REAL, 4); T(MPI_DOUBLE_PRECISION, 8); T(MPI_REAL4, 4); T(MPI_REAL8, 8); T(MPI_INTEGER4, 4); T(MPI_INTEGER8, 8);
  T(MPI_INT64_T, 8); T(MPI_INT32_T, 4); T(MPI_UINT64_T, 8); T(MPI_2INT, 8);
#undef T
  violation("mpi-usage", "%s called with an unsupported datatype", f);
}
static int tclass(MPI_Datatype t) { // 0 int 1 long 2 float 3 double 4 char 9 other
  if (t == MPI_INT || t == MPI_INTEGER || t == MPI_INTEGER4 || t == MPI_INT32_T) return 0;
  if (t == MPI_LONG || t == MPI_INTEGER8 || t == MPI_LONG_LONG || t == MPI_INT64_T) return 1;
  if (t == MPI_FLOAT || t == MPI_REAL || t == MPI_REAL4) return 2;
  if (t == MPI_DOUBLE || t == MPI_DOUBLE_PRECISION || t == MPI_REAL8) return 3;
  if (t == MPI_CHAR || t == MPI_SIGNED_CHAR) return 4;
  if (t == MPI_UNSIGNED_LONG || t == MPI_UINT64_T) return 5;
  return 9;
}
template <class X> static void red(X *a, const X *b, size_t n, MPI_Op op, const char *f) {
  if (op == MPI_SUM) for (size_t i = 0; i < n; i++) a[i] = (X)(a[i] + b[i]);
  else if (op == MPI_MAX) for (size_t i = 0; i < n; i++) a[i] = a[i] > b[i] ? a[i] : b[i];
  else if (op == MPI_MIN) for (size_t i = 0; i < n; i++) a[i] = a[i] < b[i] ? a[i] : b[i];
  else if (op == MPI_PROD) for (size_t i = 0; i < n; i++) a[i] = (X)(a[i] * b[i]);
  else violation("mpi-usage", "%s with unsupported operation", f);
}
static void reduce_buf(char *a, const char *b, size_t n, MPI_Datatype t, MPI_Op op, const char *f) {
  switch (tclass(t)) {
  case 0: red((int *)a, (const int *)b, n, op, f); break;
  case 1: red((long *)a, (const long *)b, n, op, f); break;
  case 2: red((float *)a, (const float *)b, n, op, f); break;
  case 3: red((double *)a, (const double *)b, n, op, f); break;
  case 4: red((signed char *)a, (const signed char *)b, n, op, f); break;
  case 5: red((unsigned long *)a, (const unsigned long *)b, n, op, f); break;
  default: violation("mpi-usage", "%s: reduction with a datatype MPI does not allow for this operation", f);
  }
}
// memory touched by MPI on behalf of the current rank
static void rd(const void *p, size_t n, const char *w) { mon_range(p, n, false, false, w); }
static void wr(void *p, size_t n, const char *w) { mon_range(p, n, true, false, w); }

// ------------------------------------------------------------ requests
static MPI_Request new_req(int kind) {
  ReqS *q;
  if (!req_pool[cur].empty() && net_rng.chance(2, 3)) { int k = net_rng.below(req_pool[cur].size()); q = req_pool[cur][k]; req_pool[cur].erase(req_pool[cur].begin() + k); }
  else q = (ReqS *)calloc(1, sizeof(ReqS) < 320 ? 320 : sizeof(ReqS));
  memset((void *)q, 0, sizeof *q);
  q->magic = RM; q->owner = cur; q->kind = kind; q->app = by_app();
  live_reqs[cur]++;
  return (MPI_Request)q;
}
static ReqS *R(MPI_Request r, const char *f) {
  ReqS *q = (ReqS *)r;
  if (q->magic == RDEAD) violation("mpi-usage", "%s called with a freed request", f);
  if (q->magic != RM) violation("mpi-usage", "%s called with an invalid request", f);
  if (q->owner != cur) violation("mpi-usage", "%s called with a request handle of another process", f);
  return q;
}
static void drop_req(ReqS *q) { q->magic = RDEAD; live_reqs[cur]--; req_pool[cur].push_back(q); }

static void deliver(Msg *m) {
  ReqS *q = m->rreq;
  if (m->n > q->n) violation("mpi-usage", "message of %zu bytes truncated: receive posted for %zu (src %d dst %d tag %d)", m->n, q->n, m->src, m->dst, m->tag);
  if (!m->app && m->n != q->n) violation("conservation", "library message of %zu bytes received into %zu bytes (src %d dst %d tag %d)", m->n, q->n, m->src, m->dst, m->tag);
  const char *src = m->eager ? m->data.data() : m->ref;
  // shared memory of another rank is readable for us: all attachments live in this process
  if (m->n) memcpy(q->buf, src, m->n);
  q->complete = true; q->got = m->n; q->gotsrc = m->src; q->gottag = m->tag;
  memcpy(q->vc, m->vc, sizeof(VC)); q->hasvc = true;
  if (m->sreq) { m->sreq->complete = true; m->sreq->m = nullptr; }
  m->delivered = true;
  q->m = nullptr;
  msg_live--;
  g_progress++;
  delete m;
}
void net_step() {
  if (inflight.empty()) return;
  if (net_rng.below(100) >= cfg.net_pct) return;
  int k = net_rng.below(inflight.size());
  Msg *m = inflight[k];
  inflight.erase(inflight.begin() + k);
  deliver(m);
}
bool net_force() {
  if (inflight.empty()) return false;
  int k = net_rng.below(inflight.size());
  Msg *m = inflight[k];
  inflight.erase(inflight.begin() + k);
  deliver(m);
  return true;
}
bool mpi_in_flight() { return msg_live > 0; }
static int msg_ids;
static bool match_ok(Msg *m, ReqS *q) { return m->comm == q->comm->id && (q->peer == MPI_ANY_SOURCE || q->comm->w[q->peer] == m->src) && (q->tag == MPI_ANY_TAG || q->tag == m->tag); }
static void try_match(int dst) {
  for (size_t i = 0; i < posted[dst].size();) {
    ReqS *q = posted[dst][i];
    bool hit = false;
    for (size_t j = 0; j < unmatched[dst].size(); j++) if (match_ok(unmatched[dst][j], q)) {
      Msg *m = unmatched[dst][j];
      unmatched[dst].erase(unmatched[dst].begin() + j);
      m->rreq = q; q->m = m;
      posted[dst].erase(posted[dst].begin() + i);
      inflight.push_back(m);
      hit = true; g_progress++;
      break;
    }
    if (!hit) i++;
  }
}
static void post_send(ReqS *q) {
  Msg *m = new Msg;
  m->id = msg_ids++; m->src = cur; m->dst = q->comm->w[q->peer]; m->tag = q->tag; m->comm = q->comm->id; m->n = q->n; m->rreq = nullptr; m->delivered = false; m->app = q->app;
  memcpy(m->vc, vclock[cur], sizeof(VC)); vc_tick(cur);
  m->eager = net_rng.below(100) < cfg.eager_pct;
  rd(q->buf, q->n, "send buffer");
  if (m->eager) { m->data.assign(q->buf, q->buf + q->n); m->ref = nullptr; m->sreq = nullptr; q->complete = true; st.eager++; }
  else { m->ref = q->buf; m->sreq = q; q->m = m; st.rendezvous++; }
  st.msgs++; st.bytes += q->n;
  msg_live++;
  unmatched[m->dst].push_back(m);
  trace("isend to %d tag %d comm %d bytes %zu %s", m->dst, m->tag, m->comm, m->n, m->eager ? "eager" : "rndv");
  g_progress++;
  try_match(m->dst);
}
static void post_recv(ReqS *q) {
  wr(q->buf, q->n, "receive buffer");
  posted[cur].push_back(q);
  trace("irecv from %d tag %d comm %d bytes %zu", q->peer, q->tag, q->comm->id, q->n);
  g_progress++;
  try_match(cur);
}
static void check_peer(CommS *c, int peer, int tag, int count, const char *f, bool recv) {
  if (count < 0) violation("mpi-usage", "%s with negative count %d", f, count);
  if (!(recv && peer == MPI_ANY_SOURCE) && (peer < 0 || peer >= (int)c->w.size())) violation("mpi-usage", "%s with invalid rank %d (size %zu)", f, peer, c->w.size());
  if (!(recv && tag == MPI_ANY_TAG) && tag < 0) violation("mpi-usage", "%s with invalid tag %d", f, tag);
}
extern "C" {
int PMPI_Isend(const void *b, int count, MPI_Datatype t, int dst, int tag, MPI_Comm comm, MPI_Request *req) {
  int rk; CommS *c = C(comm, &rk, "MPI_Isend");
  check_peer(c, dst, tag, count, "MPI_Isend", false);
  sched_point(SK_MPI);
  *req = new_req(RQ_SEND);
  ReqS *q = (ReqS *)*req;
  q->active = true; q->buf = (char *)b; q->n = count * tsize(t, "MPI_Isend"); q->peer = dst; q->tag = tag; q->comm = c;
  post_send(q);
  return MPI_SUCCESS;
}
int PMPI_Irecv(void *b, int count, MPI_Datatype t, int src, int tag, MPI_Comm comm, MPI_Request *req) {
  int rk; CommS *c = C(comm, &rk, "MPI_Irecv");
  check_peer(c, src, tag, count, "MPI_Irecv", true);
  sched_point(SK_MPI);
  *req = new_req(RQ_RECV);
  ReqS *q = (ReqS *)*req;
  q->active = true; q->buf = (char *)b; q->n = count * tsize(t, "MPI_Irecv"); q->peer = src; q->tag = tag; q->comm = c;
  post_recv(q);
  return MPI_SUCCESS;
}
int PMPI_Recv_init(void *b, int count, MPI_Datatype t, int src, int tag, MPI_Comm comm, MPI_Request *req) {
  int rk; CommS *c = C(comm, &rk, "MPI_Recv_init");
  check_peer(c, src, tag, count, "MPI_Recv_init", true);
  tsize(t, "MPI_Recv_init");
  *req = new_req(RQ_RECV_INIT);
  ReqS *q = (ReqS *)*req;
  q->persistent = true; q->buf = (char *)b; q->n = count * tsize(t, "MPI_Recv_init"); q->peer = src; q->tag = tag; q->comm = c;
  return MPI_SUCCESS;
}
int PMPI_Send_init(const void *b, int count, MPI_Datatype t, int dst, int tag, MPI_Comm comm, MPI_Request *req) {
  int rk; CommS *c = C(comm, &rk, "MPI_Send_init");
  check_peer(c, dst, tag, count, "MPI_Send_init", false);
  *req = new_req(RQ_SEND);
  ReqS *q = (ReqS *)*req;
  q->persistent = true; q->buf = (char *)b; q->n = count * tsize(t, "MPI_Send_init"); q->peer = dst; q->tag = tag; q->comm = c;
  return MPI_SUCCESS;
}
int PMPI_Start(MPI_Request *r) {
  if (*r == MPI_REQUEST_NULL) violation("mpi-usage", "MPI_Start with MPI_REQUEST_NULL");
  ReqS *q = R(*r, "MPI_Start");
  if (!q->persistent || q->active) violation("mpi-usage", "MPI_Start of a request that is not an inactive persistent one");
  q->active = true; q->complete = false;
  if (q->kind == RQ_SEND) post_send(q); else post_recv(q);
  return MPI_SUCCESS;
}
int PMPI_Startall(int n, MPI_Request *r) { for (int i = 0; i < n; i++) PMPI_Start(&r[i]); return MPI_SUCCESS; }
static void set_status(MPI_Status *s, ReqS *q) {
  if (s == MPI_STATUS_IGNORE) return;
  s->MPI_ERROR = MPI_SUCCESS; s->_cancelled = 0;
  if (q && q->kind != RQ_SEND) { s->MPI_SOURCE = q->gotsrc; s->MPI_TAG = q->gottag; s->_ucount = q->got; }
  else { s->MPI_SOURCE = q ? cur : MPI_ANY_SOURCE; s->MPI_TAG = MPI_ANY_TAG; s->_ucount = 0; }
}
static void finish_req(MPI_Request *r, MPI_Status *s) {
  ReqS *q = (ReqS *)*r;
  if (q->kind != RQ_SEND) { if (q->hasvc) vc_merge(vclock[cur], q->vc); wr(q->buf, q->got, "received data"); }
  else rd(q->buf, q->n, "sent data");
  set_status(s, q);
  if (q->persistent) { q->active = false; q->complete = false; }
  else { drop_req(q); *r = MPI_REQUEST_NULL; }
}
static bool req_done(MPI_Request r, const char *f) {
  if (r == MPI_REQUEST_NULL) return true;
  ReqS *q = R(r, f);
  return !q->active || q->complete;
}
static bool req_active(MPI_Request r, const char *f) { return r != MPI_REQUEST_NULL && R(r, f)->active; }
int PMPI_Wait(MPI_Request *r, MPI_Status *s) {
  sched_point(SK_MPI);
  if (!req_active(*r, "MPI_Wait")) { set_status(s, nullptr); return MPI_SUCCESS; }
  wait_until([&] { return req_done(*r, "MPI_Wait"); }, "MPI_Wait");
  finish_req(r, s);
  return MPI_SUCCESS;
}
int PMPI_Waitall(int n, MPI_Request *r, MPI_Status *s) {
  for (int i = 0; i < n; i++) PMPI_Wait(&r[i], s == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : &s[i]);
  return MPI_SUCCESS;
}
int PMPI_Test(MPI_Request *r, int *flag, MPI_Status *s) {
  sched_point(SK_MPI);
  if (!req_active(*r, "MPI_Test")) { *flag = 1; set_status(s, nullptr); return MPI_SUCCESS; }
  *flag = req_done(*r, "MPI_Test") && !net_rng.chance(1, 4);
  if (*flag) finish_req(r, s); else sched_point(SK_SPIN);
  return MPI_SUCCESS;
}
int PMPI_Request_get_status(MPI_Request r, int *flag, MPI_Status *s) {
  sched_point(SK_MPI);
  *flag = req_done(r, "MPI_Request_get_status");
  if (*flag && req_active(r, "MPI_Request_get_status") && net_rng.chance(1, 4)) *flag = 0;
  if (!*flag) sched_point(SK_SPIN);
  return MPI_SUCCESS;
}
int MPI_Request_get_status(MPI_Request r, int *flag, MPI_Status *s) { return PMPI_Request_get_status(r, flag, s); }
int PMPI_Testall(int n, MPI_Request *r, int *flag, MPI_Status *s) {
  sched_point(SK_MPI);
  bool all = true;
  for (int i = 0; i < n; i++) if (!req_done(r[i], "MPI_Testall")) all = false;
  if (all && n && net_rng.chance(1, 4)) all = false;
  *flag = all;
  if (all) { for (int i = 0; i < n; i++) { if (req_active(r[i], "MPI_Testall")) finish_req(&r[i], s == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : &s[i]); else if (s != MPI_STATUSES_IGNORE) set_status(&s[i], nullptr); } }
  else sched_point(SK_SPIN);
  return MPI_SUCCESS;
}
static int any_ready(int n, MPI_Request *r, bool *act) {
  *act = false;
  int k = net_rng.below(n > 0 ? n : 1);
  for (int t = 0; t < n; t++) { int i = (k + t) % n; if (req_active(r[i], "MPI_Waitany/Testany")) { *act = true; if (req_done(r[i], "")) return i; } }
  return -1;
}
int PMPI_Waitany(int n, MPI_Request *r, int *ix, MPI_Status *s) {
  sched_point(SK_MPI);
  bool act; int i = any_ready(n, r, &act);
  if (!act) { *ix = MPI_UNDEFINED; set_status(s, nullptr); return MPI_SUCCESS; }
  wait_until([&] { return (i = any_ready(n, r, &act)) >= 0; }, "MPI_Waitany");
  *ix = i; finish_req(&r[i], s);
  return MPI_SUCCESS;
}
int PMPI_Testany(int n, MPI_Request *r, int *ix, int *flag, MPI_Status *s) {
  sched_point(SK_MPI);
  bool act; int i = any_ready(n, r, &act);
  if (!act) { *flag = 1; *ix = MPI_UNDEFINED; set_status(s, nullptr); sched_point(SK_SPIN); return MPI_SUCCESS; }
  if (i < 0 || net_rng.chance(1, 4)) { *flag = 0; *ix = MPI_UNDEFINED; sched_point(SK_SPIN); return MPI_SUCCESS; }
  *flag = 1; *ix = i; finish_req(&r[i], s);
  return MPI_SUCCESS;
}
static void some(int n, MPI_Request *r, int *out, int *ix, MPI_Status *s) { // the one found and, mostly, all others that are complete
  if (net_rng.chance(1, 3)) return;
  for (int i = 0; i < n; i++) if (i != ix[0] && req_active(r[i], "MPI_Waitsome/Testsome") && req_done(r[i], "")) { finish_req(&r[i], s == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : &s[*out]); ix[(*out)++] = i; }
}
int PMPI_Waitsome(int n, MPI_Request *r, int *out, int *ix, MPI_Status *s) {
  int k; PMPI_Waitany(n, r, &k, s == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : &s[0]);
  if (k == MPI_UNDEFINED) *out = MPI_UNDEFINED; else { *out = 1; ix[0] = k; some(n, r, out, ix, s); }
  return MPI_SUCCESS;
}
int PMPI_Testsome(int n, MPI_Request *r, int *out, int *ix, MPI_Status *s) {
  int k, f; PMPI_Testany(n, r, &k, &f, s == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : &s[0]);
  if (f && k == MPI_UNDEFINED) *out = MPI_UNDEFINED; else if (f) { *out = 1; ix[0] = k; some(n, r, out, ix, s); } else *out = 0;
  return MPI_SUCCESS;
}
int PMPI_Request_free(MPI_Request *r) {
  if (*r == MPI_REQUEST_NULL) violation("mpi-usage", "MPI_Request_free with MPI_REQUEST_NULL");
  ReqS *q = R(*r, "MPI_Request_free");
  if (q->active && !q->complete) {
    if (q->kind == RQ_SEND && q->m && q->m->sreq == q) q->m->sreq = nullptr; // completes in the background
    else violation("mpi-usage", "MPI_Request_free of an active receive");
  }
  drop_req(q); *r = MPI_REQUEST_NULL;
  return MPI_SUCCESS;
}
int PMPI_Send(const void *b, int count, MPI_Datatype t, int dst, int tag, MPI_Comm comm) { MPI_Request r; PMPI_Isend(b, count, t, dst, tag, comm, &r); return PMPI_Wait(&r, MPI_STATUS_IGNORE); }
int PMPI_Recv(void *b, int count, MPI_Datatype t, int src, int tag, MPI_Comm comm, MPI_Status *s) { MPI_Request r; PMPI_Irecv(b, count, t, src, tag, comm, &r); return PMPI_Wait(&r, s); }
int PMPI_Sendrecv(const void *sb, int sc, MPI_Datatype stt, int dst, int stag, void *rb, int rc, MPI_Datatype rt, int src, int rtag, MPI_Comm comm, MPI_Status *s) {
  MPI_Request a, b; PMPI_Irecv(rb, rc, rt, src, rtag, comm, &a); PMPI_Isend(sb, sc, stt, dst, stag, comm, &b); PMPI_Wait(&b, MPI_STATUS_IGNORE); return PMPI_Wait(&a, s);
}
}

// ------------------------------------------------------------ collectives
enum CollType { K_BARRIER, K_BCAST, K_ALLREDUCE, K_REDUCE, K_ALLGATHER, K_GATHER, K_SCATTER, K_REDSCAT, K_SPLIT, K_DUP, K_CREATE, K_FINAL };
static const char *kname[] = {"Barrier", "Bcast", "Allreduce", "Reduce", "Allgather(v)", "Gather(v)", "Scatter(v)", "Reduce_scatter", "Comm_split", "Comm_dup", "Comm_create", "Finalize"};
struct CollRec {
  CollType t; int root; size_t arg; // argument every rank must agree on (bytes)
  MPI_Datatype dt; MPI_Op op;
  int arrived = 0, left = 0; int first = -1;
  std::vector<char> in; // arrived flags
  std::vector<std::vector<char>> data; std::vector<std::vector<int>> iargs; std::vector<std::vector<uint32_t>> vcs;
  std::map<int, CommS *> made; std::vector<char> result; bool have_result = false;
};
static std::shared_ptr<CollRec> enter(CommS *c, int rk, CollType t, int root, size_t arg, MPI_Datatype dt, MPI_Op op) {
  sched_point(SK_MPI);
  uint64_t s = c->seq[rk]++;
  if (s < c->base) violation("harness", "collective sequence");
  while (c->recs.size() <= s - c->base) c->recs.push_back(nullptr);
  auto &slot = c->recs[s - c->base];
  if (!slot) {
    slot = std::make_shared<CollRec>();
    slot->t = t; slot->root = root; slot->arg = arg; slot->dt = dt; slot->op = op; slot->first = cur;
    size_t n = c->w.size();
    slot->in.assign(n, 0); slot->data.resize(n); slot->iargs.resize(n); slot->vcs.resize(n);
  }
  auto rec = slot;
  if (rec->t != t) violation("collective-mismatch", "rank %d calls %s while rank %d called %s as collective number %llu on communicator %d", cur, kname[t], rec->first, kname[rec->t], (unsigned long long)s, c->id);
  if (rec->root != root) violation("collective-mismatch", "%s with root %d here and root %d on rank %d", kname[t], root, rec->root, rec->first);
  if (rec->arg != arg) violation("collective-mismatch", "%s with %zu bytes here and %zu bytes on rank %d", kname[t], arg, rec->arg, rec->first);
  if (t == K_ALLREDUCE || t == K_REDUCE || t == K_REDSCAT) if (rec->dt != dt || rec->op != op) violation("collective-mismatch", "%s with different datatype or operation than rank %d", kname[t], rec->first);
  rec->in[rk] = 1; rec->arrived++;
  rec->vcs[rk].assign(vclock[cur], vclock[cur] + MAXR);
  vc_tick(cur);
  g_progress++; st.colls++;
  trace("%s comm %d #%llu bytes %zu root %d", kname[t], c->id, (unsigned long long)s, arg, root);
  return rec;
}
static void leave(CommS *c, std::shared_ptr<CollRec> &rec) {
  rec->left++;
  while (!c->recs.empty() && c->recs.front() && c->recs.front()->left == (int)c->w.size()) { c->recs.pop_front(); c->base++; }
}
static void sync_all(CommS *c, std::shared_ptr<CollRec> &rec, const char *w) {
  int n = c->w.size();
  wait_until([&] { return rec->arrived == n; }, w);
  for (int i = 0; i < n; i++) vc_merge(vclock[cur], rec->vcs[i].data());
}
static void sync_one(CommS *c, std::shared_ptr<CollRec> &rec, int i, const char *w) {
  wait_until([&] { return rec->in[i] != 0; }, w);
  vc_merge(vclock[cur], rec->vcs[i].data());
}
static void dep(std::shared_ptr<CollRec> &rec, int rk, const void *b, size_t n) { if (n) { rd(b, n, "collective send buffer"); rec->data[rk].assign((const char *)b, (const char *)b + n); } }
static void chkc(int c, const char *f) { if (c < 0) violation("mpi-usage", "%s with negative count %d", f, c); }
extern "C" {
int PMPI_Barrier(MPI_Comm comm) { int rk; CommS *c = C(comm, &rk, "MPI_Barrier"); auto r = enter(c, rk, K_BARRIER, 0, 0, nullptr, nullptr); sync_all(c, r, "MPI_Barrier"); leave(c, r); return 0; }
int PMPI_Bcast(void *b, int count, MPI_Datatype t, int root, MPI_Comm comm) {
  int rk; CommS *c = C(comm, &rk, "MPI_Bcast"); chkc(count, "MPI_Bcast");
  if (root < 0 || root >= (int)c->w.size()) violation("mpi-usage", "MPI_Bcast with root %d in a communicator of %zu ranks", root, c->w.size());
  size_t n = count * tsize(t, "MPI_Bcast");
  auto r = enter(c, rk, K_BCAST, root, n, nullptr, nullptr);
  if (rk == root) { dep(r, rk, b, n); }
  else { sync_one(c, r, root, "MPI_Bcast"); if (n) { wr(b, n, "broadcast buffer"); memcpy(b, r->data[root].data(), n); } }
  leave(c, r); return 0;
}
static void reduce_all(std::shared_ptr<CollRec> &r, int n, size_t cnt, MPI_Datatype t, MPI_Op op, const char *f) {
  if (r->have_result) return;
  r->result = r->data[0];
  for (int i = 1; i < n; i++) reduce_buf(r->result.data(), r->data[i].data(), cnt, t, op, f);
  if (n == 1 && cnt) reduce_buf(std::vector<char>(r->result).data(), r->result.data(), 0, t, op, f);
  r->have_result = true;
}
int PMPI_Allreduce(const void *sb, void *rb, int count, MPI_Datatype t, MPI_Op op, MPI_Comm comm) {
  int rk; CommS *c = C(comm, &rk, "MPI_Allreduce"); chkc(count, "MPI_Allreduce");
  size_t n = count * tsize(t, "MPI_Allreduce");
  if (sb == MPI_IN_PLACE) sb = rb; else if (sb == rb && n) violation("mpi-usage", "MPI_Allreduce with aliased buffers");
  auto r = enter(c, rk, K_ALLREDUCE, 0, n, t, op);
  dep(r, rk, sb, n);
  sync_all(c, r, "MPI_Allreduce");
  reduce_all(r, c->w.size(), count, t, op, "MPI_Allreduce");
  if (n) { wr(rb, n, "allreduce result"); memcpy(rb, r->result.data(), n); }
  leave(c, r); return 0;
}
int PMPI_Reduce(const void *sb, void *rb, int count, MPI_Datatype t, MPI_Op op, int root, MPI_Comm comm) {
  int rk; CommS *c = C(comm, &rk, "MPI_Reduce"); chkc(count, "MPI_Reduce");
  if (root < 0 || root >= (int)c->w.size()) violation("mpi-usage", "MPI_Reduce with root %d", root);
  size_t n = count * tsize(t, "MPI_Reduce");
  if (sb == MPI_IN_PLACE) { if (rk != root) violation("mpi-usage", "MPI_Reduce: MPI_IN_PLACE at a rank that is not the root"); sb = rb; }
  else if (rk == root && sb == rb && n) violation("mpi-usage", "MPI_Reduce with aliased buffers");
  auto r = enter(c, rk, K_REDUCE, root, n, t, op);
  dep(r, rk, sb, n);
  if (rk == root) { sync_all(c, r, "MPI_Reduce"); reduce_all(r, c->w.size(), count, t, op, "MPI_Reduce"); if (n) { wr(rb, n, "reduce result"); memcpy(rb, r->result.data(), n); } }
  leave(c, r); return 0;
}
int PMPI_Allgatherv(const void *sb, int sc, MPI_Datatype stt, void *rb, const int *rc, const int *dis, MPI_Datatype rt, MPI_Comm comm) {
  int rk; CommS *c = C(comm, &rk, "MPI_Allgatherv"); chkc(sc, "MPI_Allgatherv");
  int n = c->w.size(); size_t es = tsize(rt, "MPI_Allgatherv"); size_t len = sc * tsize(stt, "MPI_Allgatherv");
  if (sb == MPI_IN_PLACE) { sb = (char *)rb + dis[rk] * es; len = rc[rk] * es; }
  auto r = enter(c, rk, K_ALLGATHER, 0, 0, nullptr, nullptr);
  dep(r, rk, sb, len);
  sync_all(c, r, "MPI_Allgatherv");
  for (int i = 0; i < n; i++) {
    if (r->data[i].size() != rc[i] * es) violation("mpi-usage", "MPI_Allgatherv: rank %d sends %zu bytes, %zu expected", i, r->data[i].size(), rc[i] * es);
    if (rc[i]) { wr((char *)rb + dis[i] * es, rc[i] * es, "allgatherv result"); memcpy((char *)rb + dis[i] * es, r->data[i].data(), rc[i] * es); }
  }
  leave(c, r); return 0;
}
int PMPI_Allgather(const void *sb, int sc, MPI_Datatype stt, void *rb, int rc, MPI_Datatype rt, MPI_Comm comm) {
  int rk; CommS *c = C(comm, &rk, "MPI_Allgather"); chkc(rc, "MPI_Allgather"); int n = c->w.size();
  std::vector<int> v(n, rc), d(n); for (int i = 0; i < n; i++) d[i] = i * rc;
  return PMPI_Allgatherv(sb, sc, stt, rb, v.data(), d.data(), rt, comm);
}
int PMPI_Gatherv(const void *sb, int sc, MPI_Datatype stt, void *rb, const int *rc, const int *dis, MPI_Datatype rt, int root, MPI_Comm comm) {
  int rk; CommS *c = C(comm, &rk, "MPI_Gatherv");
  if (root < 0 || root >= (int)c->w.size()) violation("mpi-usage", "MPI_Gatherv with root %d", root);
  int n = c->w.size(); size_t len;
  if (sb == MPI_IN_PLACE) { if (rk != root) violation("mpi-usage", "MPI_Gatherv: MPI_IN_PLACE at a rank that is not the root"); size_t es = tsize(rt, "MPI_Gatherv"); sb = (char *)rb + dis[rk] * es; len = rc[rk] * es; }
  else { chkc(sc, "MPI_Gatherv"); len = sc * tsize(stt, "MPI_Gatherv"); }
  auto r = enter(c, rk, K_GATHER, root, 0, nullptr, nullptr);
  dep(r, rk, sb, len);
  if (rk == root) {
    size_t es = tsize(rt, "MPI_Gatherv");
    sync_all(c, r, "MPI_Gatherv");
    for (int i = 0; i < n; i++) {
      if (r->data[i].size() != rc[i] * es) violation("mpi-usage", "MPI_Gatherv: rank %d sends %zu bytes, %zu expected", i, r->data[i].size(), rc[i] * es);
      if (rc[i]) { wr((char *)rb + dis[i] * es, rc[i] * es, "gatherv result"); memcpy((char *)rb + dis[i] * es, r->data[i].data(), rc[i] * es); }
    }
  }
  leave(c, r); return 0;
}
int PMPI_Gather(const void *sb, int sc, MPI_Datatype stt, void *rb, int rc, MPI_Datatype rt, int root, MPI_Comm comm) {
  int rk; CommS *c = C(comm, &rk, "MPI_Gather"); int n = c->w.size();
  std::vector<int> v(n, rc), d(n); for (int i = 0; i < n; i++) d[i] = i * rc;
  return PMPI_Gatherv(sb, sc, stt, rb, v.data(), d.data(), rt, root, comm);
}
int PMPI_Scatterv(const void *sb, const int *sc, const int *dis, MPI_Datatype stt, void *rb, int rc, MPI_Datatype rt, int root, MPI_Comm comm) {
  int rk; CommS *c = C(comm, &rk, "MPI_Scatterv");
  if (root < 0 || root >= (int)c->w.size()) violation("mpi-usage", "MPI_Scatterv with root %d", root);
  int n = c->w.size();
  auto r = enter(c, rk, K_SCATTER, root, 0, nullptr, nullptr);
  if (rk == root) {
    size_t es = tsize(stt, "MPI_Scatterv");
    std::vector<char> all; std::vector<int> offs;
    for (int i = 0; i < n; i++) { chkc(sc[i], "MPI_Scatterv"); offs.push_back(all.size()); const char *p = (const char *)sb + dis[i] * es; if (sc[i]) rd(p, sc[i] * es, "scatterv send buffer"); all.insert(all.end(), p, p + sc[i] * es); }
    offs.push_back(all.size());
    r->data[rk] = all; r->iargs[rk] = offs;
  } else sync_one(c, r, root, "MPI_Scatterv");
  size_t len = r->iargs[root][rk + 1] - r->iargs[root][rk];
  if (rb != MPI_IN_PLACE) {
    chkc(rc, "MPI_Scatterv");
    if (len > rc * tsize(rt, "MPI_Scatterv")) violation("mpi-usage", "MPI_Scatterv truncation");
    if (len) { wr(rb, len, "scatterv result"); memcpy(rb, r->data[root].data() + r->iargs[root][rk], len); }
  }
  leave(c, r); return 0;
}
int PMPI_Scatter(const void *sb, int sc, MPI_Datatype stt, void *rb, int rc, MPI_Datatype rt, int root, MPI_Comm comm) {
  int rk; CommS *c = C(comm, &rk, "MPI_Scatter"); int n = c->w.size();
  std::vector<int> v(n, sc), d(n); for (int i = 0; i < n; i++) d[i] = i * sc;
  return PMPI_Scatterv(sb, v.data(), d.data(), stt, rb, rc, rt, root, comm);
}
int PMPI_Reduce_scatter(const void *sb, void *rb, const int *rc, MPI_Datatype t, MPI_Op op, MPI_Comm comm) {
  int rk; CommS *c = C(comm, &rk, "MPI_Reduce_scatter"); int n = c->w.size(); size_t es = tsize(t, "MPI_Reduce_scatter");
  size_t tot = 0, off = 0; for (int i = 0; i < n; i++) { chkc(rc[i], "MPI_Reduce_scatter"); if (i < rk) off += rc[i]; tot += rc[i]; }
  if (sb == MPI_IN_PLACE) sb = rb;
  auto r = enter(c, rk, K_REDSCAT, 0, tot * es, t, op);
  dep(r, rk, sb, tot * es);
  sync_all(c, r, "MPI_Reduce_scatter");
  reduce_all(r, n, tot, t, op, "MPI_Reduce_scatter");
  if (rc[rk]) { wr(rb, rc[rk] * es, "reduce_scatter result"); memcpy(rb, r->result.data() + off * es, rc[rk] * es); }
  leave(c, r); return 0;
}
int PMPI_Reduce_scatter_block(const void *sb, void *rb, int rcnt, MPI_Datatype t, MPI_Op op, MPI_Comm comm) {
  int rk; CommS *c = C(comm, &rk, "MPI_Reduce_scatter_block"); std::vector<int> v(c->w.size(), rcnt);
  return PMPI_Reduce_scatter(sb, rb, v.data(), t, op, comm);
}
// ------------------------------------------------------------ communicators and environment
int PMPI_Comm_rank(MPI_Comm comm, int *r) { C(comm, r, "MPI_Comm_rank"); return 0; }
int PMPI_Comm_size(MPI_Comm comm, int *s) { int rk; *s = C(comm, &rk, "MPI_Comm_size")->w.size(); return 0; }
static int split_impl(MPI_Comm comm, int color, int key, MPI_Comm *nc, const char *f) {
  int rk; CommS *c = C(comm, &rk, f);
  if (color < 0 && color != MPI_UNDEFINED) violation("mpi-usage", "%s with negative color", f);
  auto r = enter(c, rk, K_SPLIT, 0, 0, nullptr, nullptr);
  r->iargs[rk] = {color, key};
  sync_all(c, r, f);
  if (color == MPI_UNDEFINED) { *nc = MPI_COMM_NULL; leave(c, r); return 0; }
  if (!r->made.count(color)) {
    std::vector<std::pair<std::pair<int, int>, int>> v;
    for (size_t i = 0; i < c->w.size(); i++) if (r->iargs[i][0] == color) v.push_back({{r->iargs[i][1], (int)i}, c->w[i]});
    std::sort(v.begin(), v.end());
    std::vector<int> w; for (auto &x : v) w.push_back(x.second);
    r->made[color] = new_comm(w);
  }
  *nc = new_handle(cur, r->made[color]);
  leave(c, r);
  return 0;
}
int PMPI_Comm_split(MPI_Comm comm, int color, int key, MPI_Comm *nc) { return split_impl(comm, color, key, nc, "MPI_Comm_split"); }
int PMPI_Comm_split_type(MPI_Comm comm, int type, int key, MPI_Info, MPI_Comm *nc) { return split_impl(comm, type == MPI_UNDEFINED ? MPI_UNDEFINED : cur / cfg.node_size, key, nc, "MPI_Comm_split_type"); }
int PMPI_Comm_dup(MPI_Comm comm, MPI_Comm *nc) {
  int rk; CommS *c = C(comm, &rk, "MPI_Comm_dup");
  auto r = enter(c, rk, K_DUP, 0, 0, nullptr, nullptr);
  sync_all(c, r, "MPI_Comm_dup");
  if (!r->made.count(0)) r->made[0] = new_comm(c->w);
  *nc = new_handle(cur, r->made[0]);
  leave(c, r);
  return 0;
}
int PMPI_Comm_create(MPI_Comm comm, MPI_Group g, MPI_Comm *nc) {
  int rk; CommS *c = C(comm, &rk, "MPI_Comm_create");
  auto r = enter(c, rk, K_CREATE, 0, 0, nullptr, nullptr);
  sync_all(c, r, "MPI_Comm_create");
  GroupS *gs = (GroupS *)g;
  bool in = false; for (int w : gs->w) if (w == cur) in = true;
  if (!in) { *nc = MPI_COMM_NULL; leave(c, r); return 0; }
  int k = gs->w[0];
  if (!r->made.count(k)) r->made[k] = new_comm(gs->w);
  *nc = new_handle(cur, r->made[k]);
  leave(c, r);
  return 0;
}
int PMPI_Comm_free(MPI_Comm *comm) {
  int rk; sched_point(SK_MPI);
  if (*comm == MPI_COMM_WORLD) violation("mpi-usage", "MPI_Comm_free of MPI_COMM_WORLD");
  C(*comm, &rk, "MPI_Comm_free");
  CommH *h = (CommH *)*comm;
  h->magic = CDEAD; live_comms[cur]--; comm_pool[cur].push_back(h);
  *comm = MPI_COMM_NULL;
  return 0;
}
int PMPI_Comm_group(MPI_Comm comm, MPI_Group *g) { int rk; CommS *c = C(comm, &rk, "MPI_Comm_group"); GroupS *s = new GroupS; s->w = c->w; *g = (MPI_Group)s; return 0; }
int PMPI_Group_incl(MPI_Group g, int n, const int *r, MPI_Group *ng) { GroupS *s = new GroupS; for (int i = 0; i < n; i++) s->w.push_back(((GroupS *)g)->w[r[i]]); *ng = (MPI_Group)s; return 0; }
int PMPI_Group_free(MPI_Group *g) { delete (GroupS *)*g; *g = MPI_GROUP_NULL; return 0; }
int PMPI_Type_size(MPI_Datatype t, int *s) { *s = tsize(t, "MPI_Type_size"); return 0; }
int PMPI_Init(int *, char ***) { sched_point(SK_MPI); return 0; }
int PMPI_Finalize() { auto r = enter(world_c, cur, K_FINAL, 0, 0, nullptr, nullptr); sync_all(world_c, r, "MPI_Finalize"); leave(world_c, r); return 0; }
int PMPI_Initialized(int *f) { *f = 1; return 0; }
int PMPI_Abort(MPI_Comm, int c) { violation("library-exit", "MPI_Abort(%d)", c); }
double PMPI_Wtime() {
  static double t[MAXR];
  static Rng rng(99);
  static uint64_t seeded = 0;
  if (seeded != cfg.seed) { seeded = cfg.seed; rng = Rng(cfg.seed * 11 + 5); for (int i = 0; i < MAXR; i++) t[i] = 1; }
  sched_point(SK_MPI);
  st.wtimes++;
  // a call takes long in virtual time, so that the measurement loops of the library end after few iterations
  if (cfg.clock_mode == 0) t[cur] += 0.04 + 0.1 * rng.unit();
  else if (cfg.clock_mode == 2) { double e = 1e-3; for (int k = rng.below(12); k > 0; k--) e *= 2.3; t[cur] += e; }
  else t[cur] += 0.125;
  return t[cur];
}
double PMPI_Wtick() { return 1e-9; }
typedef std::map<std::string, std::string> InfoS;
int PMPI_Info_create(MPI_Info *i) { *i = (MPI_Info) new InfoS; return 0; }
int PMPI_Info_set(MPI_Info i, const char *k, const char *v) { (*(InfoS *)i)[k] = v; return 0; }
int PMPI_Info_free(MPI_Info *i) { delete (InfoS *)*i; *i = MPI_INFO_NULL; return 0; }
int PMPI_Info_get(MPI_Info i, const char *k, int len, char *v, int *flag) {
  if (i == MPI_INFO_NULL) violation("mpi-usage", "MPI_Info_get with MPI_INFO_NULL");
  auto &m = *(InfoS *)i; auto it = m.find(k);
  if (it == m.end()) { *flag = 0; return 0; }
  *flag = 1;
  strncpy(v, it->second.c_str(), len); v[len < (int)it->second.size() ? len : it->second.size()] = 0;
  return 0;
}
int PMPI_Get_count(const MPI_Status *s, MPI_Datatype t, int *c) { *c = s->_ucount / tsize(t, "MPI_Get_count"); return 0; }
// not used by the library today
int PMPI_Issend(const void *b, int c, MPI_Datatype t, int d, int g, MPI_Comm m, MPI_Request *r) { return PMPI_Isend(b, c, t, d, g, m, r); }
int PMPI_Ssend(const void *b, int c, MPI_Datatype t, int d, int g, MPI_Comm m) { return PMPI_Send(b, c, t, d, g, m); }
int PMPI_Alltoall(const void *sb, int sc, MPI_Datatype stt, void *rb, int rc, MPI_Datatype rt, MPI_Comm comm) {
  int rk, n; PMPI_Comm_rank(comm, &rk); PMPI_Comm_size(comm, &n);
  for (int i = 0; i < n; i++) PMPI_Scatter(sb, sc, stt, (char *)rb + (size_t)i * rc * tsize(rt, "MPI_Alltoall"), rc, rt, i, comm);
  return 0;
}
int PMPI_Type_get_extent(MPI_Datatype t, MPI_Aint *lb, MPI_Aint *e) { *lb = 0; *e = tsize(t, "MPI_Type_get_extent"); return 0; }
int PMPI_Get_processor_name(char *n, int *l) { *l = sprintf(n, "node%d", cur / cfg.node_size); return 0; }
int PMPI_Finalized(int *f) { *f = 0; return 0; }
// names without the P that the library does not define itself
#define A(ret, name, decl, args) ret MPI_##name decl { return PMPI_##name args; }
A(int, Isend, (const void *b, int c, MPI_Datatype t, int d, int g, MPI_Comm m, MPI_Request *r), (b, c, t, d, g, m, r))
A(int, Irecv, (void *b, int c, MPI_Datatype t, int d, int g, MPI_Comm m, MPI_Request *r), (b, c, t, d, g, m, r))
A(int, Send, (const void *b, int c, MPI_Datatype t, int d, int g, MPI_Comm m), (b, c, t, d, g, m))
A(int, Recv, (void *b, int c, MPI_Datatype t, int d, int g, MPI_Comm m, MPI_Status *s), (b, c, t, d, g, m, s))
A(int, Sendrecv, (const void *sb, int sc, MPI_Datatype t1, int dst, int stag, void *rb, int rc, MPI_Datatype rt, int src, int rtag, MPI_Comm comm, MPI_Status *s), (sb, sc, t1, dst, stag, rb, rc, rt, src, rtag, comm, s))
A(int, Recv_init, (void *b, int c, MPI_Datatype t, int d, int g, MPI_Comm m, MPI_Request *r), (b, c, t, d, g, m, r))
A(int, Startall, (int n, MPI_Request *r), (n, r))
A(int, Barrier, (MPI_Comm c), (c))
A(int, Bcast, (void *b, int c, MPI_Datatype t, int r, MPI_Comm m), (b, c, t, r, m))
A(int, Reduce, (const void *a, void *b, int c, MPI_Datatype t, MPI_Op o, int r, MPI_Comm m), (a, b, c, t, o, r, m))
A(int, Allgatherv, (const void *a, int b, MPI_Datatype c, void *d, const int *e, const int *f, MPI_Datatype g, MPI_Comm h), (a, b, c, d, e, f, g, h))
A(int, Gather, (const void *a, int b, MPI_Datatype c, void *d, int e, MPI_Datatype f, int g, MPI_Comm h), (a, b, c, d, e, f, g, h))
A(int, Gatherv, (const void *a, int b, MPI_Datatype c, void *d, const int *e, const int *e2, MPI_Datatype f, int g, MPI_Comm h), (a, b, c, d, e, e2, f, g, h))
A(int, Scatter, (const void *a, int b, MPI_Datatype c, void *d, int e, MPI_Datatype f, int g, MPI_Comm h), (a, b, c, d, e, f, g, h))
A(int, Scatterv, (const void *a, const int *b, const int *b2, MPI_Datatype c, void *d, int e, MPI_Datatype f, int g, MPI_Comm h), (a, b, b2, c, d, e, f, g, h))
A(int, Reduce_scatter, (const void *a, void *b, const int *c, MPI_Datatype d, MPI_Op e, MPI_Comm f), (a, b, c, d, e, f))
A(int, Comm_rank, (MPI_Comm c, int *r), (c, r))
A(int, Comm_size, (MPI_Comm c, int *r), (c, r))
A(int, Type_size, (MPI_Datatype c, int *r), (c, r))
A(int, Info_get, (MPI_Info i, const char *k, int l, char *v, int *f), (i, k, l, v, f))
A(int, Initialized, (int *f), (f))
A(int, Abort, (MPI_Comm c, int e), (c, e))
A(double, Wtime, (void), ())
A(double, Wtick, (void), ())
A(int, Issend, (const void *b, int c, MPI_Datatype t, int d, int g, MPI_Comm m, MPI_Request *r), (b, c, t, d, g, m, r))
A(int, Ssend, (const void *b, int c, MPI_Datatype t, int d, int g, MPI_Comm m), (b, c, t, d, g, m))
A(int, Send_init, (const void *b, int c, MPI_Datatype t, int d, int g, MPI_Comm m, MPI_Request *r), (b, c, t, d, g, m, r))
A(int, Alltoall, (const void *a, int b, MPI_Datatype c, void *d, int e, MPI_Datatype f, MPI_Comm h), (a, b, c, d, e, f, h))
A(int, Type_get_extent, (MPI_Datatype t, MPI_Aint *l, MPI_Aint *e), (t, l, e))
A(int, Get_processor_name, (char *n, int *l), (n, l))
A(int, Finalized, (int *f), (f))
A(int, Get_count, (const MPI_Status *s, MPI_Datatype t, int *c), (s, t, c))
A(int, Info_create, (MPI_Info *i), (i))
A(int, Info_set, (MPI_Info i, const char *k, const char *v), (i, k, v))
A(int, Info_free, (MPI_Info *i), (i))
A(int, Comm_group, (MPI_Comm c, MPI_Group *g), (c, g))
A(int, Group_incl, (MPI_Group g, int n, const int *r, MPI_Group *q), (g, n, r, q))
A(int, Group_free, (MPI_Group *g), (g))
}
MpiLive mpi_live(int r) {
  MpiLive m; m.comms = live_comms[r]; m.reqs = live_reqs[r];
  m.msgs = unmatched[r].size(); m.posted = posted[r].size();
  return m;
}
