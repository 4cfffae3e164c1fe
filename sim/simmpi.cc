#include "simmpi.h"
#include <mpi.h>
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <map>
#include <memory>
#include <poll.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>

namespace {

enum Op : int {
  OP_SEND = 1, // a: dest, tag, mode(0 std,1 sync,2 buffered), reqid, blocking
  OP_RECV_POST, // src, tag, reqid
  OP_WAIT, // list of reqids ; completes when all done
  OP_WAITANY,
  OP_TEST, // list: flag if all done
  OP_PROBE,
  OP_IPROBE,
  OP_COLL, // name, root
  OP_LOG,
  OP_EXIT,
  OP_FINALIZE,
  OP_QUERY, // is the send request transferred (matched or buffered)?
};

struct Hdr {
  int op;
  int a[6];
  long n; // payload bytes
};
struct Rep {
  int a[6];
  long n;
};

bool g_child = false;
int g_fd = -1, g_rank = 0, g_size = 1;
int g_nextreq = 1;

void die(const char * m) {
  fprintf(stderr, "simmpi: %s\n", m);
  _exit(99);
}
bool wr(int fd, const void * p, size_t n) {
  const char * c = (const char *)p;
  while(n) {
    ssize_t k = ::send(fd, c, n, MSG_NOSIGNAL);
    if(k < 0) {
      if(errno == EINTR)
        continue;
      return false;
    }
    c += k;
    n -= k;
  }
  return true;
}
bool rd(int fd, void * p, size_t n) {
  char * c = (char *)p;
  while(n) {
    ssize_t k = ::read(fd, c, n);
    if(k < 0 && errno == EINTR)
      continue;
    if(k <= 0)
      return false;
    c += k;
    n -= k;
  }
  return true;
}

// ---------------------------------------------------------------- child side
struct Req {
  int kind; // 1 send 2 recv 3 done
  void * buf = nullptr;
  size_t cap = 0;
  std::vector<unsigned char> copy; // send: content at call time
  bool persistent_check = false;
};
std::map<int, Req> g_reqs;
std::map<int, MPI_Status> g_done;

struct Reply {
  Rep r;
  std::vector<unsigned char> data;
};

void check_send_buffers();

Reply rpc(int op, std::initializer_list<int> a, const void * p = nullptr, size_t n = 0) {
  if(!g_child)
    die("MPI call outside of sim_run");
  if(sim_on_call && op != OP_LOG)
    sim_on_call();
  if(op == OP_WAIT || op == OP_WAITANY || op == OP_TEST || op == OP_PROBE || op == OP_IPROBE || op == OP_COLL || op == OP_EXIT)
    check_send_buffers();
  Hdr h;
  memset(&h, 0, sizeof h);
  h.op = op;
  int i = 0;
  for(int x : a)
    h.a[i++] = x;
  h.n = n;
  if(!wr(g_fd, &h, sizeof h) || (n && !wr(g_fd, p, n)))
    _exit(98);
  Reply rep;
  if(!rd(g_fd, &rep.r, sizeof rep.r))
    _exit(98);
  rep.data.resize(rep.r.n);
  if(rep.r.n && !rd(g_fd, rep.data.data(), rep.r.n))
    _exit(98);
  return rep;
}

size_t tsize(MPI_Datatype t);

MPI_Status mkstatus(int src, int tag, long bytes) {
  MPI_Status s;
  memset(&s, 0, sizeof s);
  s.MPI_SOURCE = src;
  s.MPI_TAG = tag;
  s.MPI_ERROR = MPI_SUCCESS;
  s._ucount = bytes;
  return s;
}

} // namespace

// Datatypes: user types are small heap objects
struct SimType {
  uint64_t magic;
  size_t size;
};
static const uint64_t TMAGIC = 0x51AA77EE51AA77EEULL;
namespace {
std::vector<SimType *> g_types;
size_t tsize(MPI_Datatype t) {
  for(auto * x : g_types)
    if((void *)x == (void *)t)
      return x->size;
#define T(m, s)                                                                \
  if(t == m)                                                                   \
    return s;
  T(MPI_BYTE, 1) T(MPI_CHAR, 1) T(MPI_SIGNED_CHAR, 1) T(MPI_UNSIGNED_CHAR, 1)
  T(MPI_INT, 4) T(MPI_UNSIGNED, 4) T(MPI_FLOAT, 4) T(MPI_DOUBLE, 8)
  T(MPI_LONG, 8) T(MPI_UNSIGNED_LONG, 8) T(MPI_LONG_LONG, 8)
  T(MPI_UNSIGNED_LONG_LONG, 8) T(MPI_INT64_T, 8) T(MPI_UINT64_T, 8)
  T(MPI_INT32_T, 4) T(MPI_UINT32_T, 4) T(MPI_INT8_T, 1) T(MPI_UINT8_T, 1)
  T(MPI_INT16_T, 2) T(MPI_UINT16_T, 2) T(MPI_SHORT, 2) T(MPI_UNSIGNED_SHORT, 2)
  T(MPI_C_BOOL, 1) T(MPI_CXX_BOOL, 1) T(MPI_LONG_DOUBLE, sizeof(long double))
  T(MPI_DOUBLE_INT, 12 + 4) T(MPI_2INT, 8) T(MPI_FLOAT_INT, 8) T(MPI_PACKED, 1)
#undef T
  die("unknown MPI datatype");
  return 0;
}

template<class X>
void apply_t(MPI_Op op, X * io, const X * in, size_t n) {
  for(size_t i = 0; i < n; ++i) {
    if(op == MPI_SUM)
      io[i] = io[i] + in[i];
    else if(op == MPI_PROD)
      io[i] = io[i] * in[i];
    else if(op == MPI_MIN)
      io[i] = std::min(io[i], in[i]);
    else if(op == MPI_MAX)
      io[i] = std::max(io[i], in[i]);
    else if(op == MPI_LAND)
      io[i] = (io[i] != 0) && (in[i] != 0);
    else if(op == MPI_LOR)
      io[i] = (io[i] != 0) || (in[i] != 0);
    else
      die("unknown MPI op");
  }
}
template<class X>
bool apply_b(MPI_Op op, X * io, const X * in, size_t n) {
  if(op != MPI_BAND && op != MPI_BOR && op != MPI_BXOR)
    return false;
  for(size_t i = 0; i < n; ++i)
    io[i] = op == MPI_BAND ? (io[i] & in[i]) : op == MPI_BOR ? (io[i] | in[i]) : (io[i] ^ in[i]);
  return true;
}
template<class X>
void apply_i(MPI_Op op, void * io, const void * in, size_t n) {
  if(!apply_b<X>(op, (X *)io, (const X *)in, n))
    apply_t<X>(op, (X *)io, (const X *)in, n);
}
void apply(MPI_Op op, MPI_Datatype t, void * io, const void * in, size_t n) {
  if(t == MPI_DOUBLE)
    return apply_t<double>(op, (double *)io, (const double *)in, n);
  if(t == MPI_FLOAT)
    return apply_t<float>(op, (float *)io, (const float *)in, n);
  if(t == MPI_LONG_DOUBLE)
    return apply_t<long double>(op, (long double *)io, (const long double *)in, n);
  if(t == MPI_INT || t == MPI_INT32_T)
    return apply_i<int32_t>(op, io, in, n);
  if(t == MPI_UNSIGNED || t == MPI_UINT32_T)
    return apply_i<uint32_t>(op, io, in, n);
  if(t == MPI_LONG || t == MPI_LONG_LONG || t == MPI_INT64_T)
    return apply_i<int64_t>(op, io, in, n);
  if(t == MPI_UNSIGNED_LONG || t == MPI_UNSIGNED_LONG_LONG || t == MPI_UINT64_T)
    return apply_i<uint64_t>(op, io, in, n);
  if(t == MPI_CHAR || t == MPI_BYTE || t == MPI_INT8_T || t == MPI_SIGNED_CHAR)
    return apply_i<int8_t>(op, io, in, n);
  if(t == MPI_UINT8_T || t == MPI_UNSIGNED_CHAR || t == MPI_C_BOOL || t == MPI_CXX_BOOL)
    return apply_i<uint8_t>(op, io, in, n);
  if(t == MPI_SHORT || t == MPI_INT16_T)
    return apply_i<int16_t>(op, io, in, n);
  if(t == MPI_UNSIGNED_SHORT || t == MPI_UINT16_T)
    return apply_i<uint16_t>(op, io, in, n);
  if(t == MPI_DOUBLE_INT && (op == MPI_MINLOC || op == MPI_MAXLOC)) {
    struct DI { double d; int i; };
    DI * x = (DI *)io;
    const DI * y = (const DI *)in;
    for(size_t i = 0; i < n; ++i)
      if((op == MPI_MINLOC ? y[i].d < x[i].d : y[i].d > x[i].d) || (y[i].d == x[i].d && y[i].i < x[i].i))
        x[i] = y[i];
    return;
  }
  die("unsupported reduction type");
}

// all ranks' payloads of one collective
std::vector<std::vector<unsigned char>> coll(int code, int root, const void * p, size_t n) {
  Reply r = rpc(OP_COLL, {code, root}, p, n);
  std::vector<std::vector<unsigned char>> out(g_size);
  size_t off = 0;
  for(int i = 0; i < g_size; ++i) {
    uint64_t k;
    memcpy(&k, r.data.data() + off, 8);
    off += 8;
    out[i].assign(r.data.begin() + off, r.data.begin() + off + k);
    off += k;
  }
  return out;
}
enum { C_BARRIER = 1, C_ALLREDUCE, C_REDUCE, C_ALLGATHER, C_ALLGATHERV, C_ALLTOALL, C_ALLTOALLV, C_BCAST, C_GATHER, C_GATHERV, C_SCATTER, C_SCATTERV, C_SCAN, C_EXSCAN };
const char * coll_name(int c) {
  static const char * n[] = {"?", "barrier", "allreduce", "reduce", "allgather", "allgatherv", "alltoall", "alltoallv", "bcast", "gather", "gatherv", "scatter", "scatterv", "scan", "exscan"};
  return c >= 1 && c <= 14 ? n[c] : "?";
}

MPI_Request enc(int id) {
  return (MPI_Request)(uintptr_t)(0x100000000ULL + id);
}
int dec(MPI_Request r) {
  uintptr_t v = (uintptr_t)r;
  if(v < 0x100000000ULL || v >= 0x200000000ULL)
    return 0;
  return (int)(v - 0x100000000ULL);
}

// A send buffer may not change before the message left it.  The network copied
// the bytes when the send was posted; if the memory now differs, ask the network
// whether the message is still unmatched: then a real MPI could transmit garbage.
bool safe_read(const void * p, size_t n, std::vector<unsigned char> & out) {
  out.resize(n);
  struct iovec l = {out.data(), n}, r = {(void *)p, n};
  return process_vm_readv(getpid(), &l, 1, &r, 1, 0) == (ssize_t)n;
}
void check_send_buffers() {
  static bool busy = false;
  if(busy)
    return;
  busy = true;
  std::vector<unsigned char> now;
  for(auto & kv : g_reqs) {
    Req & q = kv.second;
    if(q.kind != 1 || q.copy.empty())
      continue;
    bool same = safe_read(q.buf, q.copy.size(), now) && now == q.copy;
    if(same)
      continue;
    Reply r = rpc(OP_QUERY, {kv.first});
    if(!r.r.a[0]) {
      const char * m = "!send buffer changed before the message was transferred";
      rpc(OP_LOG, {1}, m, strlen(m));
    }
    q.copy.clear();
  }
  busy = false;
}

// parse completion payload: sequence of {id, src, tag, bytes, data}
void absorb(const Reply & r) {
  size_t off = 0;
  while(off < r.data.size()) {
    long v[4];
    memcpy(v, r.data.data() + off, sizeof v);
    off += sizeof v;
    int id = (int)v[0];
    long nb = v[3];
    auto it = g_reqs.find(id);
    if(it != g_reqs.end() && it->second.kind == 2) {
      size_t k = (size_t)nb;
      if(k > it->second.cap) {
        rpc(OP_LOG, {1}, "!truncation: received message longer than the receive buffer", 60);
        k = it->second.cap;
      }
      if(k)
        memcpy(it->second.buf, r.data.data() + off, k);
      off += nb;
    }
    else if(it != g_reqs.end() && it->second.kind == 1) {
    }
    g_done[id] = mkstatus((int)v[1], (int)v[2], nb);
    if(it != g_reqs.end())
      it->second.kind = 3;
  }
}

int do_send(const void * buf, int count, MPI_Datatype t, int dest, int tag, int mode, MPI_Request * req) {
  if(dest == MPI_PROC_NULL) {
    if(req)
      *req = MPI_REQUEST_NULL;
    return MPI_SUCCESS;
  }
  if(dest < 0 || dest >= g_size) {
    std::string m = "!invalid destination rank " + std::to_string(dest);
    rpc(OP_LOG, {1}, m.data(), m.size());
    _exit(97);
  }
  size_t n = (size_t)count * tsize(t);
  int id = g_nextreq++;
  Req q;
  q.kind = 1;
  q.buf = (void *)buf;
  q.cap = n;
  if(n && req && mode != 2)
    q.copy.assign((const unsigned char *)buf, (const unsigned char *)buf + n);
  g_reqs[id] = q;
  rpc(OP_SEND, {dest, tag, mode, id}, buf, n);
  if(req)
    *req = enc(id);
  else {
    // blocking
    Reply r = rpc(OP_WAIT, {1}, &id, sizeof id);
    absorb(r);
    g_done.erase(id);
    g_reqs.erase(id);
  }
  return MPI_SUCCESS;
}
int post_recv(void * buf, int count, MPI_Datatype t, int src, int tag) {
  int id = g_nextreq++;
  Req q;
  q.kind = 2;
  q.buf = buf;
  q.cap = (size_t)count * tsize(t);
  g_reqs[id] = q;
  rpc(OP_RECV_POST, {src, tag, id});
  return id;
}
void wait_ids(const std::vector<int> & ids) {
  std::vector<int> need;
  for(int i : ids)
    if(i && !g_done.count(i))
      need.push_back(i);
  if(need.empty())
    return;
  Reply r = rpc(OP_WAIT, {(int)need.size()}, need.data(), need.size() * sizeof(int));
  absorb(r);
}
bool test_ids(const std::vector<int> & ids) {
  std::vector<int> need;
  for(int i : ids)
    if(i && !g_done.count(i))
      need.push_back(i);
  if(need.empty())
    return true;
  Reply r = rpc(OP_TEST, {(int)need.size()}, need.data(), need.size() * sizeof(int));
  absorb(r);
  return r.r.a[0] != 0;
}
void take(MPI_Request * rq, MPI_Status * st) {
  int id = dec(*rq);
  if(id) {
    if(st != MPI_STATUS_IGNORE)
      *st = g_done.count(id) ? g_done[id] : mkstatus(MPI_ANY_SOURCE, MPI_ANY_TAG, 0);
    g_done.erase(id);
    g_reqs.erase(id);
  }
  else if(st != MPI_STATUS_IGNORE)
    *st = mkstatus(MPI_ANY_SOURCE, MPI_ANY_TAG, 0);
  *rq = MPI_REQUEST_NULL;
}

} // namespace

extern "C" {
int MPI_Init(int *, char ***) { return MPI_SUCCESS; }
int MPI_Init_thread(int *, char ***, int, int * p) {
  if(p)
    *p = MPI_THREAD_MULTIPLE;
  return MPI_SUCCESS;
}
int MPI_Initialized(int * f) { *f = 1; return MPI_SUCCESS; }
int MPI_Finalized(int * f) { *f = 0; return MPI_SUCCESS; }
int MPI_Finalize() { rpc(OP_FINALIZE, {}); return MPI_SUCCESS; }
int MPI_Abort(MPI_Comm, int code) {
  std::string m = "!MPI_Abort(" + std::to_string(code) + ")";
  rpc(OP_LOG, {1}, m.data(), m.size());
  _exit(96);
}
int MPI_Comm_rank(MPI_Comm, int * r) { *r = g_rank; return MPI_SUCCESS; }
int MPI_Comm_size(MPI_Comm, int * s) { *s = g_size; return MPI_SUCCESS; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm * o) { *o = c; return MPI_SUCCESS; }
int MPI_Comm_free(MPI_Comm *) { return MPI_SUCCESS; }
int MPI_Get_processor_name(char * n, int * l) { strcpy(n, "sim"); *l = 3; return MPI_SUCCESS; }
double MPI_Wtime() { static double t = 0; return t += 1e-6; }
int MPI_Type_contiguous(int n, MPI_Datatype t, MPI_Datatype * o) {
  SimType * s = new SimType{TMAGIC, (size_t)n * tsize(t)};
  g_types.push_back(s);
  *o = (MPI_Datatype)s;
  return MPI_SUCCESS;
}
int MPI_Type_commit(MPI_Datatype *) { return MPI_SUCCESS; }
int MPI_Type_free(MPI_Datatype * t) { *t = MPI_DATATYPE_NULL; return MPI_SUCCESS; }
int MPI_Type_size(MPI_Datatype t, int * s) { *s = (int)tsize(t); return MPI_SUCCESS; }
int MPI_Get_count(const MPI_Status * s, MPI_Datatype t, int * c) {
  size_t z = tsize(t);
  *c = (z == 0 || s->_ucount % z) ? MPI_UNDEFINED : (int)(s->_ucount / z);
  return MPI_SUCCESS;
}
int MPI_Send(const void * b, int c, MPI_Datatype t, int d, int tag, MPI_Comm) { return do_send(b, c, t, d, tag, 0, nullptr); }
int MPI_Ssend(const void * b, int c, MPI_Datatype t, int d, int tag, MPI_Comm) { return do_send(b, c, t, d, tag, 1, nullptr); }
int MPI_Rsend(const void * b, int c, MPI_Datatype t, int d, int tag, MPI_Comm) { return do_send(b, c, t, d, tag, 0, nullptr); }
int MPI_Bsend(const void * b, int c, MPI_Datatype t, int d, int tag, MPI_Comm) { return do_send(b, c, t, d, tag, 2, nullptr); }
int MPI_Isend(const void * b, int c, MPI_Datatype t, int d, int tag, MPI_Comm, MPI_Request * r) { return do_send(b, c, t, d, tag, 0, r); }
int MPI_Issend(const void * b, int c, MPI_Datatype t, int d, int tag, MPI_Comm, MPI_Request * r) { return do_send(b, c, t, d, tag, 1, r); }
int MPI_Ibsend(const void * b, int c, MPI_Datatype t, int d, int tag, MPI_Comm, MPI_Request * r) { return do_send(b, c, t, d, tag, 2, r); }
int MPI_Irecv(void * b, int c, MPI_Datatype t, int s, int tag, MPI_Comm, MPI_Request * r) {
  if(s == MPI_PROC_NULL) { *r = MPI_REQUEST_NULL; return MPI_SUCCESS; }
  *r = enc(post_recv(b, c, t, s, tag));
  return MPI_SUCCESS;
}
int MPI_Recv(void * b, int c, MPI_Datatype t, int s, int tag, MPI_Comm, MPI_Status * st) {
  if(s == MPI_PROC_NULL) {
    if(st != MPI_STATUS_IGNORE) *st = mkstatus(MPI_PROC_NULL, MPI_ANY_TAG, 0);
    return MPI_SUCCESS;
  }
  MPI_Request r = enc(post_recv(b, c, t, s, tag));
  wait_ids({dec(r)});
  take(&r, st);
  return MPI_SUCCESS;
}
int MPI_Sendrecv(const void * sb, int sc, MPI_Datatype st, int d, int stag, void * rb, int rc, MPI_Datatype rt, int s, int rtag, MPI_Comm cm, MPI_Status * stat) {
  MPI_Request q[2] = {MPI_REQUEST_NULL, MPI_REQUEST_NULL};
  MPI_Irecv(rb, rc, rt, s, rtag, cm, &q[0]);
  do_send(sb, sc, st, d, stag, 0, &q[1]);
  wait_ids({dec(q[0]), dec(q[1])});
  take(&q[0], stat);
  take(&q[1], MPI_STATUS_IGNORE);
  return MPI_SUCCESS;
}
int MPI_Wait(MPI_Request * r, MPI_Status * s) {
  wait_ids({dec(*r)});
  take(r, s);
  return MPI_SUCCESS;
}
int MPI_Waitall(int n, MPI_Request * r, MPI_Status * s) {
  std::vector<int> ids;
  for(int i = 0; i < n; ++i) ids.push_back(dec(r[i]));
  wait_ids(ids);
  for(int i = 0; i < n; ++i) take(&r[i], s == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : &s[i]);
  return MPI_SUCCESS;
}
int MPI_Waitany(int n, MPI_Request * r, int * idx, MPI_Status * s) {
  std::vector<int> ids;
  bool any = false;
  for(int i = 0; i < n; ++i) { ids.push_back(dec(r[i])); any |= ids.back() != 0; }
  if(!any) { *idx = MPI_UNDEFINED; return MPI_SUCCESS; }
  for(int i = 0; i < n; ++i)
    if(ids[i] && g_done.count(ids[i])) { *idx = i; take(&r[i], s); return MPI_SUCCESS; }
  std::vector<int> need;
  for(int i : ids) if(i) need.push_back(i);
  Reply rp = rpc(OP_WAITANY, {(int)need.size()}, need.data(), need.size() * sizeof(int));
  absorb(rp);
  for(int i = 0; i < n; ++i)
    if(ids[i] && g_done.count(ids[i])) { *idx = i; take(&r[i], s); return MPI_SUCCESS; }
  die("waitany");
  return 0;
}
int MPI_Test(MPI_Request * r, int * flag, MPI_Status * s) {
  *flag = test_ids({dec(*r)});
  if(*flag) take(r, s);
  return MPI_SUCCESS;
}
int MPI_Testall(int n, MPI_Request * r, int * flag, MPI_Status * s) {
  std::vector<int> ids;
  for(int i = 0; i < n; ++i) ids.push_back(dec(r[i]));
  *flag = test_ids(ids);
  if(*flag)
    for(int i = 0; i < n; ++i) take(&r[i], s == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : &s[i]);
  return MPI_SUCCESS;
}
int MPI_Request_free(MPI_Request * r) { *r = MPI_REQUEST_NULL; return MPI_SUCCESS; }
int MPI_Probe(int s, int tag, MPI_Comm, MPI_Status * st) {
  Reply r = rpc(OP_PROBE, {s, tag});
  if(st != MPI_STATUS_IGNORE) *st = mkstatus(r.r.a[0], r.r.a[1], r.r.a[2]);
  return MPI_SUCCESS;
}
int MPI_Iprobe(int s, int tag, MPI_Comm, int * flag, MPI_Status * st) {
  Reply r = rpc(OP_IPROBE, {s, tag});
  *flag = r.r.a[3];
  if(*flag && st != MPI_STATUS_IGNORE) *st = mkstatus(r.r.a[0], r.r.a[1], r.r.a[2]);
  return MPI_SUCCESS;
}
int MPI_Barrier(MPI_Comm) { coll(C_BARRIER, 0, nullptr, 0); return MPI_SUCCESS; }
static void reduce_into(std::vector<std::vector<unsigned char>> & v, void * out, int c, MPI_Datatype t, MPI_Op op, int upto) {
  std::vector<unsigned char> acc = v[0];
  for(int i = 1; i < upto; ++i) apply(op, t, acc.data(), v[i].data(), c);
  if(!acc.empty()) memcpy(out, acc.data(), acc.size());
}
int MPI_Allreduce(const void * s, void * r, int c, MPI_Datatype t, MPI_Op op, MPI_Comm) {
  const void * in = s == MPI_IN_PLACE ? r : s;
  auto v = coll(C_ALLREDUCE, 0, in, c * tsize(t));
  reduce_into(v, r, c, t, op, g_size);
  return MPI_SUCCESS;
}
int MPI_Reduce(const void * s, void * r, int c, MPI_Datatype t, MPI_Op op, int root, MPI_Comm) {
  const void * in = s == MPI_IN_PLACE ? r : s;
  auto v = coll(C_REDUCE, root, in, c * tsize(t));
  if(g_rank == root) reduce_into(v, r, c, t, op, g_size);
  return MPI_SUCCESS;
}
int MPI_Scan(const void * s, void * r, int c, MPI_Datatype t, MPI_Op op, MPI_Comm) {
  const void * in = s == MPI_IN_PLACE ? r : s;
  auto v = coll(C_SCAN, 0, in, c * tsize(t));
  reduce_into(v, r, c, t, op, g_rank + 1);
  return MPI_SUCCESS;
}
int MPI_Exscan(const void * s, void * r, int c, MPI_Datatype t, MPI_Op op, MPI_Comm) {
  const void * in = s == MPI_IN_PLACE ? r : s;
  auto v = coll(C_EXSCAN, 0, in, c * tsize(t));
  if(g_rank > 0) reduce_into(v, r, c, t, op, g_rank);
  return MPI_SUCCESS;
}
int MPI_Allgather(const void * s, int sc, MPI_Datatype st, void * r, int rc, MPI_Datatype rt, MPI_Comm) {
  size_t n = rc * tsize(rt);
  const void * in = s == MPI_IN_PLACE ? (char *)r + g_rank * n : s;
  size_t m = s == MPI_IN_PLACE ? n : sc * tsize(st);
  auto v = coll(C_ALLGATHER, 0, in, m);
  for(int i = 0; i < g_size; ++i) memcpy((char *)r + i * n, v[i].data(), std::min(n, v[i].size()));
  return MPI_SUCCESS;
}
int MPI_Allgatherv(const void * s, int sc, MPI_Datatype st, void * r, const int * rc, const int * dp, MPI_Datatype rt, MPI_Comm) {
  size_t z = tsize(rt);
  const void * in = s == MPI_IN_PLACE ? (char *)r + dp[g_rank] * z : s;
  size_t m = s == MPI_IN_PLACE ? rc[g_rank] * z : sc * tsize(st);
  auto v = coll(C_ALLGATHERV, 0, in, m);
  for(int i = 0; i < g_size; ++i)
    if(v[i].size()) memmove((char *)r + dp[i] * z, v[i].data(), std::min((size_t)rc[i] * z, v[i].size()));
  return MPI_SUCCESS;
}
int MPI_Gather(const void * s, int sc, MPI_Datatype st, void * r, int rc, MPI_Datatype rt, int root, MPI_Comm) {
  const void * in = s;
  size_t m = 0;
  if(s == MPI_IN_PLACE) { m = rc * tsize(rt); in = (char *)r + g_rank * m; }
  else m = sc * tsize(st);
  auto v = coll(C_GATHER, root, in, m);
  if(g_rank == root) {
    size_t n = rc * tsize(rt);
    for(int i = 0; i < g_size; ++i) memcpy((char *)r + i * n, v[i].data(), std::min(n, v[i].size()));
  }
  return MPI_SUCCESS;
}
int MPI_Gatherv(const void * s, int sc, MPI_Datatype st, void * r, const int * rc, const int * dp, MPI_Datatype rt, int root, MPI_Comm) {
  const void * in = s;
  size_t m = 0;
  if(s == MPI_IN_PLACE) { m = rc[g_rank] * tsize(rt); in = (char *)r + dp[g_rank] * tsize(rt); }
  else m = sc * tsize(st);
  auto v = coll(C_GATHERV, root, in, m);
  if(g_rank == root)
    for(int i = 0; i < g_size; ++i)
      if(v[i].size()) memcpy((char *)r + dp[i] * tsize(rt), v[i].data(), std::min((size_t)rc[i] * tsize(rt), v[i].size()));
  return MPI_SUCCESS;
}
int MPI_Scatter(const void * s, int sc, MPI_Datatype st, void * r, int rc, MPI_Datatype rt, int root, MPI_Comm) {
  size_t n = g_rank == root ? sc * tsize(st) : 0;
  auto v = coll(C_SCATTER, root, s, n * (g_rank == root ? g_size : 0));
  size_t k = v[root].size() / g_size;
  if(r != MPI_IN_PLACE) memcpy(r, v[root].data() + k * g_rank, std::min(k, (size_t)rc * tsize(rt)));
  return MPI_SUCCESS;
}
int MPI_Scatterv(const void * s, const int * sc, const int * dp, MPI_Datatype st, void * r, int rc, MPI_Datatype rt, int root, MPI_Comm) {
  std::vector<unsigned char> pk;
  if(g_rank == root)
    for(int i = 0; i < g_size; ++i) {
      uint64_t k = sc[i] * tsize(st);
      pk.insert(pk.end(), (unsigned char *)&k, (unsigned char *)&k + 8);
      pk.insert(pk.end(), (unsigned char *)s + dp[i] * tsize(st), (unsigned char *)s + dp[i] * tsize(st) + k);
    }
  auto v = coll(C_SCATTERV, root, pk.data(), pk.size());
  size_t off = 0;
  for(int i = 0; i <= g_rank; ++i) {
    uint64_t k;
    memcpy(&k, v[root].data() + off, 8);
    off += 8;
    if(i == g_rank && r != MPI_IN_PLACE && k) memcpy(r, v[root].data() + off, std::min((size_t)k, (size_t)rc * tsize(rt)));
    off += k;
  }
  return MPI_SUCCESS;
}
int MPI_Alltoall(const void * s, int sc, MPI_Datatype st, void * r, int rc, MPI_Datatype rt, MPI_Comm) {
  size_t n = rc * tsize(rt), m = s == MPI_IN_PLACE ? n : sc * tsize(st);
  auto v = coll(C_ALLTOALL, 0, s == MPI_IN_PLACE ? r : s, m * g_size);
  for(int i = 0; i < g_size; ++i) memcpy((char *)r + i * n, v[i].data() + g_rank * m, std::min(n, m));
  return MPI_SUCCESS;
}
int MPI_Alltoallv(const void * s, const int * sc, const int * sd, MPI_Datatype st, void * r, const int * rc, const int * rdp, MPI_Datatype rt, MPI_Comm) {
  if(s == MPI_IN_PLACE) { s = r; sc = rc; sd = rdp; st = rt; }
  std::vector<unsigned char> pk;
  for(int i = 0; i < g_size; ++i) {
    uint64_t k = sc[i] * tsize(st);
    pk.insert(pk.end(), (unsigned char *)&k, (unsigned char *)&k + 8);
    if(k) pk.insert(pk.end(), (unsigned char *)s + sd[i] * tsize(st), (unsigned char *)s + sd[i] * tsize(st) + k);
  }
  auto v = coll(C_ALLTOALLV, 0, pk.data(), pk.size());
  for(int i = 0; i < g_size; ++i) {
    size_t off = 0;
    for(int j = 0; j <= g_rank; ++j) {
      uint64_t k;
      memcpy(&k, v[i].data() + off, 8);
      off += 8;
      if(j == g_rank) {
        if(k > (uint64_t)rc[i] * tsize(rt)) {
          rpc(OP_LOG, {1}, "!truncation: alltoallv receive count too small", 46);
          k = (uint64_t)rc[i] * tsize(rt);
        }
        if(k) memcpy((char *)r + rdp[i] * tsize(rt), v[i].data() + off, k);
      }
      off += k;
    }
  }
  return MPI_SUCCESS;
}
int MPI_Bcast(void * b, int c, MPI_Datatype t, int root, MPI_Comm) {
  size_t n = c * tsize(t);
  auto v = coll(C_BCAST, root, g_rank == root ? b : nullptr, g_rank == root ? n : 0);
  if(g_rank != root && n) memcpy(b, v[root].data(), std::min(n, v[root].size()));
  return MPI_SUCCESS;
}
}

void sim_log(const std::string & line) {
  if(g_child)
    rpc(OP_LOG, {0}, line.data(), line.size());
}
bool sim_active() { return g_child; }
int sim_rank() { return g_rank; }

// --------------------------------------------------------------- network side
namespace {
struct Msg {
  long id;
  int src, dst, tag, mode, reqid;
  std::vector<unsigned char> data;
};
struct Posted {
  int src, tag, reqid;
};
struct Pending {
  bool have = false;
  Hdr h;
  std::vector<unsigned char> data;
};
struct RankState {
  int fd = -1;
  pid_t pid = -1;
  bool live = true, finalized = false;
  Pending p;
  std::deque<Msg> unexpected;
  std::deque<Posted> posted;
  std::map<int, std::vector<unsigned char>> done; // reqid -> completion record
  int polls = 0;
};

struct Net {
  SimConfig cfg;
  SimResult res;
  std::vector<RankState> R;
  std::vector<std::deque<Msg>> ch; // src*N+dst
  uint64_t rng;
  long nmsg = 0;
  uint64_t rnd() {
    rng ^= rng << 13;
    rng ^= rng >> 7;
    rng ^= rng << 17;
    return rng * 0x2545F4914F6CDD1DULL >> 11;
  }
  uint64_t rnd(uint64_t n) { return n ? rnd() % n : 0; }

  void ev(const char * kind, int rank, int peer, int tag, int len, long id, const std::string & text, const std::vector<unsigned char> * d = nullptr) {
    if(!cfg.trace)
      return;
    SimEvent e;
    e.kind = kind;
    e.rank = rank;
    e.peer = peer;
    e.tag = tag;
    e.len = len;
    e.id = id;
    e.text = text;
    if(d)
      e.data = *d;
    res.events.push_back(std::move(e));
  }
  void reply(int r, std::initializer_list<int> a, const void * d = nullptr, size_t n = 0) {
    Rep rp;
    memset(&rp, 0, sizeof rp);
    int i = 0;
    for(int x : a)
      rp.a[i++] = x;
    rp.n = n;
    R[r].p.have = false;
    if(!wr(R[r].fd, &rp, sizeof rp) || (n && !wr(R[r].fd, d, n))) {
      // the rank died: noticed on the next read
    }
  }
  static bool tagok(int want, int got) { return want == MPI_ANY_TAG || want == got; }
  static bool srcok(int want, int got) { return want == MPI_ANY_SOURCE || want == got; }

  std::vector<unsigned char> rec(int id, int src, int tag, long nb, const std::vector<unsigned char> * d) {
    long v[4] = {id, src, tag, nb};
    std::vector<unsigned char> o((unsigned char *)v, (unsigned char *)v + sizeof v);
    if(d)
      o.insert(o.end(), d->begin(), d->end());
    return o;
  }
  void match(int dst, int reqid, Msg & m) {
    R[dst].done[reqid] = rec(reqid, m.src, m.tag, (long)m.data.size(), &m.data);
    if(m.mode == 1 && m.reqid)
      R[m.src].done[m.reqid] = rec(m.reqid, m.dst, m.tag, 0, nullptr);
    ev("match", dst, m.src, m.tag, (int)m.data.size(), m.id, "");
  }
  void deliver(int s, int d) {
    auto & q = ch[s * cfg.nranks + d];
    Msg m = std::move(q.front());
    q.pop_front();
    auto & po = R[d].posted;
    for(auto it = po.begin(); it != po.end(); ++it)
      if(srcok(it->src, m.src) && tagok(it->tag, m.tag)) {
        int id = it->reqid;
        po.erase(it);
        match(d, id, m);
        return;
      }
    R[d].unexpected.push_back(std::move(m));
  }
  // read the next request of rank r; returns false on death
  bool fetch(int r) {
    struct pollfd pf = {R[r].fd, POLLIN, 0};
    int k;
    do {
      k = poll(&pf, 1, cfg.compute_timeout_s * 1000);
    } while(k < 0 && errno == EINTR);
    if(k == 0) {
      res.error = "rank " + std::to_string(r) + " computes without progress (hang)";
      return false;
    }
    Pending & p = R[r].p;
    if(!rd(R[r].fd, &p.h, sizeof p.h)) {
      int st = 0;
      waitpid(R[r].pid, &st, 0);
      R[r].pid = -1;
      R[r].live = false;
      if(WIFSIGNALED(st))
        res.error = "rank " + std::to_string(r) + " died with signal " + std::to_string(WTERMSIG(st));
      else
        res.error = "rank " + std::to_string(r) + " exited early with code " + std::to_string(WEXITSTATUS(st));
      return false;
    }
    p.data.resize(p.h.n);
    if(p.h.n && !rd(R[r].fd, p.data.data(), p.h.n)) {
      res.error = "rank " + std::to_string(r) + " died mid-call";
      return false;
    }
    p.have = true;
    return true;
  }
  // immediate ops: processed as soon as fetched, deterministic in rank order
  // returns true when the op was immediate (and rank continues)
  bool immediate(int r) {
    Pending & p = R[r].p;
    switch(p.h.op) {
      case OP_LOG: {
        std::string s((char *)p.data.data(), p.data.size());
        if(p.h.a[0] == 1 && res.error.empty())
          res.error = "rank " + std::to_string(r) + ": " + s.substr(1);
        else {
          res.logs.push_back(s);
          res.log_rank.push_back(r);
          ev("log", r, -1, -1, 0, -1, s);
        }
        reply(r, {});
        return true;
      }
      case OP_FINALIZE:
        R[r].finalized = true;
        reply(r, {});
        return true;
      case OP_QUERY: {
        int id = p.h.a[0], pend = 0;
        for(int d = 0; d < cfg.nranks; ++d) {
          for(auto & m : ch[r * cfg.nranks + d]) pend |= m.reqid == id;
          for(auto & m : R[d].unexpected) pend |= m.src == r && m.reqid == id;
        }
        reply(r, {!pend});
        return true;
      }
      case OP_RECV_POST: {
        int src = p.h.a[0], tag = p.h.a[1], id = p.h.a[2];
        auto & u = R[r].unexpected;
        bool m = false;
        for(auto it = u.begin(); it != u.end(); ++it)
          if(srcok(src, it->src) && tagok(tag, it->tag)) {
            Msg mm = std::move(*it);
            u.erase(it);
            match(r, id, mm);
            m = true;
            break;
          }
        if(!m)
          R[r].posted.push_back({src, tag, id});
        reply(r, {});
        return true;
      }
      case OP_SEND: {
        Msg m;
        m.id = nmsg++;
        m.src = r;
        m.dst = p.h.a[0];
        m.tag = p.h.a[1];
        m.mode = p.h.a[2];
        m.reqid = p.h.a[3];
        if(m.mode == 0 && cfg.rendezvous)
          m.mode = 1;
        m.data = std::move(p.data);
        ev("send", r, m.dst, m.tag, (int)m.data.size(), m.id, "", &m.data);
        if(m.mode != 1)
          R[r].done[m.reqid] = rec(m.reqid, m.dst, m.tag, 0, nullptr);
        ch[r * cfg.nranks + m.dst].push_back(std::move(m));
        reply(r, {});
        return true;
      }
      default:
        return false;
    }
  }
  bool ids_done(int r, std::vector<unsigned char> & out, bool any) {
    Pending & p = R[r].p;
    int n = (int)(p.data.size() / sizeof(int));
    const int * id = (const int *)p.data.data();
    int cnt = 0;
    for(int i = 0; i < n; ++i)
      cnt += R[r].done.count(id[i]);
    if(any ? cnt == 0 : cnt < n)
      return false;
    for(int i = 0; i < n; ++i) {
      auto it = R[r].done.find(id[i]);
      if(it == R[r].done.end())
        continue;
      out.insert(out.end(), it->second.begin(), it->second.end());
      R[r].done.erase(it);
      if(any)
        break;
    }
    return true;
  }
  // try completing the blocking/polling op of rank r
  bool can(int r) {
    Pending & p = R[r].p;
    if(!p.have || !R[r].live)
      return false;
    switch(p.h.op) {
      case OP_WAIT: case OP_WAITANY: {
        int n = (int)(p.data.size() / sizeof(int));
        const int * id = (const int *)p.data.data();
        int cnt = 0;
        for(int i = 0; i < n; ++i) cnt += R[r].done.count(id[i]);
        return p.h.op == OP_WAIT ? cnt == n : cnt > 0;
      }
      case OP_TEST:
      case OP_IPROBE:
        return true;
      case OP_PROBE:
        for(auto & m : R[r].unexpected)
          if(srcok(p.h.a[0], m.src) && tagok(p.h.a[1], m.tag)) return true;
        return false;
      default:
        return false;
    }
  }
  bool productive(int r) { // completing would return something useful
    Pending & p = R[r].p;
    if(p.h.op == OP_IPROBE) {
      for(auto & m : R[r].unexpected)
        if(srcok(p.h.a[0], m.src) && tagok(p.h.a[1], m.tag)) return true;
      return false;
    }
    if(p.h.op == OP_TEST) {
      int n = (int)(p.data.size() / sizeof(int));
      const int * id = (const int *)p.data.data();
      for(int i = 0; i < n; ++i) if(!R[r].done.count(id[i])) return false;
      return true;
    }
    return true;
  }
  void complete(int r) {
    Pending & p = R[r].p;
    std::vector<unsigned char> out;
    switch(p.h.op) {
      case OP_WAIT:
        ids_done(r, out, false);
        R[r].polls = 0;
        reply(r, {1}, out.data(), out.size());
        break;
      case OP_WAITANY:
        ids_done(r, out, true);
        R[r].polls = 0;
        reply(r, {1}, out.data(), out.size());
        break;
      case OP_TEST: {
        bool f = ids_done(r, out, false);
        R[r].polls = f ? 0 : R[r].polls + 1;
        reply(r, {f}, out.data(), out.size());
        break;
      }
      case OP_PROBE:
      case OP_IPROBE: {
        for(auto & m : R[r].unexpected)
          if(srcok(p.h.a[0], m.src) && tagok(p.h.a[1], m.tag)) {
            R[r].polls = 0;
            reply(r, {m.src, m.tag, (int)m.data.size(), 1});
            return;
          }
        R[r].polls++;
        reply(r, {0, 0, 0, 0});
        break;
      }
    }
  }
  void kill_all() {
    for(auto & x : R) {
      if(x.pid > 0) {
        kill(x.pid, SIGKILL);
        int st;
        waitpid(x.pid, &st, 0);
        x.pid = -1;
      }
      if(x.fd >= 0) close(x.fd);
      x.fd = -1;
    }
  }
  void run() {
    const int N = cfg.nranks;
    const time_t t0 = time(nullptr);
    int starved = (int)rnd(N);
    long burst = 0;
    int burst_src = 0;
    for(;;) {
      // 1. bring every live rank to a blocking call
      for(int r = 0; r < N; ++r)
        while(R[r].live && !R[r].p.have) {
          if(!fetch(r)) return;
          if(!immediate(r)) break;
          if(!res.error.empty()) return;
        }
      if(++res.steps > cfg.max_steps || (res.steps % 512 == 0 && time(nullptr) - t0 > cfg.max_wall_s)) {
        res.error = "no termination within the step bound (livelock)";
        return;
      }
      int live = 0, ncoll = 0, nexit = 0, code = -1, root = -1;
      bool mism = false;
      for(int r = 0; r < N; ++r) {
        if(!R[r].live) continue;
        ++live;
        Hdr & h = R[r].p.h;
        if(h.op == OP_COLL) {
          if(ncoll && (code != h.a[0] || root != h.a[1])) mism = true;
          code = h.a[0];
          root = h.a[1];
          ++ncoll;
        }
        if(h.op == OP_EXIT) ++nexit;
      }
      if(nexit == N) {
        res.messages = nmsg;
        for(auto & q : ch) res.leftover += q.size();
        for(auto & x : R) res.leftover += x.unexpected.size() + x.posted.size();
        for(int r = 0; r < N; ++r) reply(r, {});
        res.ok = true;
        return;
      }
      if(ncoll == N) {
        if(mism) {
          std::string s = "collective mismatch:";
          for(int r = 0; r < N; ++r) s += std::string(" ") + coll_name(R[r].p.h.a[0]);
          res.error = s;
          return;
        }
        std::vector<unsigned char> out;
        for(int r = 0; r < N; ++r) {
          uint64_t k = R[r].p.data.size();
          out.insert(out.end(), (unsigned char *)&k, (unsigned char *)&k + 8);
          out.insert(out.end(), R[r].p.data.begin(), R[r].p.data.end());
        }
        ev("coll", -1, root, -1, 0, -1, coll_name(code));
        for(int r = 0; r < N; ++r) {
          R[r].polls = 0;
          reply(r, {}, out.data(), out.size());
        }
        continue;
      }
      // 2. enabled steps
      std::vector<std::pair<int, int>> dl; // deliverable channels
      for(int s = 0; s < N; ++s)
        for(int d = 0; d < N; ++d)
          if(!ch[s * N + d].empty()) dl.push_back({s, d});
      std::vector<int> en, prod, poll_;
      for(int r = 0; r < N; ++r)
        if(can(r)) {
          en.push_back(r);
          (productive(r) ? prod : poll_).push_back(r);
        }
      if(dl.empty() && en.empty()) {
        std::string s = "deadlock:";
        for(int r = 0; r < N; ++r) {
          static const char * on[] = {"?", "send", "post", "wait", "waitany", "test", "probe", "iprobe", "coll", "log", "exit", "fin"};
          s += " r" + std::to_string(r) + "=" + on[R[r].p.h.op];
          if(R[r].p.h.op == OP_COLL) s += std::string("/") + coll_name(R[r].p.h.a[0]);
        }
        res.error = s;
        return;
      }
      if(dl.empty() && prod.empty()) {
        int mn = 1 << 30;
        for(int r : poll_) mn = std::min(mn, R[r].polls);
        if(mn > 3000) {
          res.error = "livelock: ranks poll forever, nothing in flight";
          return;
        }
      }
      int maxpoll = 0;
      for(int r : poll_) maxpoll = std::max(maxpoll, R[r].polls);
      // 3. choose
      auto do_del = [&](size_t i) { deliver(dl[i].first, dl[i].second); };
      if(!dl.empty() && maxpoll > 40) { // fairness
        do_del(rnd(dl.size()));
        if(rnd(2)) for(auto & x : R) x.polls = 0;
        continue;
      }
      switch(cfg.policy) {
        case 1: // eager network
          if(!dl.empty()) do_del(rnd(dl.size()));
          else if(!prod.empty()) complete(prod[rnd(prod.size())]);
          else complete(poll_[rnd(poll_.size())]);
          break;
        case 2: // lazy network: deliver when nothing else moves
          if(!prod.empty()) complete(prod[rnd(prod.size())]);
          else if(!poll_.empty() && (dl.empty() || rnd(4))) complete(poll_[rnd(poll_.size())]);
          else do_del(rnd(dl.size()));
          break;
        case 3: { // starve one rank: its calls and its incoming messages come last
          std::vector<int> e2;
          for(int r : en) if(r != starved) e2.push_back(r);
          std::vector<size_t> d2;
          for(size_t i = 0; i < dl.size(); ++i) if(dl[i].second != starved) d2.push_back(i);
          bool onlypoll = true;
          for(int r : e2) if(productive(r)) onlypoll = false;
          if(!d2.empty() && (e2.empty() || rnd(2))) do_del(d2[rnd(d2.size())]);
          else if(!e2.empty() && !(onlypoll && maxpoll > 10)) complete(e2[rnd(e2.size())]);
          else {
            if(!dl.empty() && (en.empty() || rnd(2))) do_del(rnd(dl.size()));
            else complete(en[rnd(en.size())]);
            if(rnd(50) == 0) starved = (int)rnd(N);
            for(auto & x : R) x.polls = std::min(x.polls, 5);
            static long cnt = 0;
            (void)cnt;
          }
          break;
        }
        case 4: { // bursts from one source
          if(burst-- <= 0) { burst = 5 + rnd(60); burst_src = (int)rnd(N); }
          std::vector<size_t> d2;
          for(size_t i = 0; i < dl.size(); ++i) if(dl[i].first == burst_src) d2.push_back(i);
          if(!d2.empty()) do_del(d2[rnd(d2.size())]);
          else if(!en.empty()) complete(en[rnd(en.size())]);
          else do_del(rnd(dl.size()));
          break;
        }
        default: {
          size_t k = rnd(dl.size() + en.size());
          if(k < dl.size()) do_del(k);
          else complete(en[k - dl.size()]);
        }
      }
    }
  }
};
} // namespace

static int g_tired = 0;
bool sim_tired() { return g_tired >= 2; }

SimResult sim_run(const SimConfig & cfg, const std::function<void(int)> & body) {
  Net net;
  net.cfg = cfg;
  net.rng = cfg.seed * 0x9E3779B97F4A7C15ULL + 0x1234567ULL + (uint64_t)cfg.policy * 7919;
  if(!net.rng) net.rng = 88172645463325252ULL;
  for(int i = 0; i < 8; ++i) net.rnd();
  const int N = cfg.nranks;
  net.R.resize(N);
  net.ch.resize((size_t)N * N);
  fflush(stdout);
  fflush(stderr);
  for(int r = 0; r < N; ++r) {
    int sv[2];
    if(socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) { net.res.error = "socketpair"; return net.res; }
    int big = 1 << 20;
    setsockopt(sv[0], SOL_SOCKET, SO_SNDBUF, &big, sizeof big);
    setsockopt(sv[1], SOL_SOCKET, SO_SNDBUF, &big, sizeof big);
    pid_t pid = fork();
    if(pid < 0) { net.res.error = "!fork"; net.kill_all(); return net.res; }
    if(pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      for(int k = 0; k < r; ++k) close(net.R[k].fd);
      close(sv[0]);
      g_child = true;
      g_fd = sv[1];
      g_rank = r;
      g_size = N;
      if(cfg.quiet) {
        if(!getenv("SIM_VERBOSE")) { int nul = open("/dev/null", O_WRONLY);
        if(nul >= 0) { dup2(nul, 1); dup2(nul, 2); } }
      }
      body(r);
      fflush(stdout);
      rpc(OP_EXIT, {});
      _exit(0);
    }
    close(sv[1]);
    net.R[r].fd = sv[0];
    net.R[r].pid = pid;
  }
  const time_t begin = time(nullptr);
  net.run();
  if(!net.res.error.empty() && time(nullptr) - begin > 8) ++g_tired;
  net.kill_all();
  if(net.res.ok && !net.res.error.empty()) net.res.ok = false;
  if(!net.res.error.empty()) net.res.ok = false;
  return net.res;
}
