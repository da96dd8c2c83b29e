#include "mpi.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <signal.h>
#include <unistd.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <thread>
#include <vector>

namespace {

const size_t SLOT = 8u << 20;
const int MAXR = 32;
const size_t BOX = 64u << 10;

struct Box {
  std::atomic<int> full;
  int more;
  size_t len;
  char data[BOX];
};

struct Shared {
  std::atomic<int> count;
  std::atomic<int> gen;
  std::atomic<int> abort_code;
};

struct State {
  bool init = false, fin = false;
  int rank = 0, size = 1;
  Shared* sh = nullptr;
  char* data = nullptr;
  Box* boxes = nullptr;
  std::vector<pid_t> kids;
  double timeout = 60;
} S;

struct Hook { Hook() { } } hook;

double now() {
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}

int csize(MPI_Comm c) { return c == MPI_COMM_SELF ? 1 : S.size; }
int crank(MPI_Comm c) { return c == MPI_COMM_SELF ? 0 : S.rank; }

void barrier() {
  if (S.size == 1) return;
  int g = S.sh->gen.load();
  if (S.sh->count.fetch_add(1) + 1 == S.size) {
    S.sh->count.store(0);
    S.sh->gen.fetch_add(1);
    return;
  }
  double t0 = now();
  int spins = 0;
  while (S.sh->gen.load() == g) {
    if (S.sh->abort_code.load()) _exit(S.sh->abort_code.load());
    if (++spins > 2000) {
      std::this_thread::sleep_for(std::chrono::microseconds(50));
      if (now() - t0 > S.timeout) {
        fprintf(stderr, "MINIMPI: rank %d waited in vain in a collective\n", S.rank);
        fflush(stdout);
        S.sh->abort_code.store(86);
        _exit(86);
      }
    }
  }
}

size_t tsize(MPI_Datatype t) {
  switch (t) {
    case MPI_CHAR: case MPI_UNSIGNED_CHAR: case MPI_BYTE: case MPI_C_BOOL: case MPI_CXX_BOOL: return 1;
    case MPI_INT: case MPI_UNSIGNED: case MPI_FLOAT: return 4;
    case MPI_DOUBLE_INT: return 16;
    default: return 8;
  }
}

// Every rank contributes n bytes; out receives the contributions of all ranks,
// each with its own length.
void exchange(const void* in, size_t n, std::vector<std::vector<char>>& out) {
  out.assign(S.size, {});
  if (S.size == 1) { out[0].assign((const char*)in, (const char*)in + n); return; }
  size_t done = 0;
  const char* p = (const char*)in;
  while (true) {
    char* slot = S.data + S.rank * SLOT;
    size_t chunk = n - done;
    if (chunk > SLOT - 16) chunk = SLOT - 16;
    size_t rest = n - done - chunk;
    memcpy(slot, &chunk, 8);
    memcpy(slot + 8, &rest, 8);
    if (chunk) memcpy(slot + 16, p + done, chunk);
    barrier();
    bool more = false;
    for (int r = 0; r < S.size; r++) {
      char* s = S.data + r * SLOT;
      size_t c, left;
      memcpy(&c, s, 8);
      memcpy(&left, s + 8, 8);
      out[r].insert(out[r].end(), s + 16, s + 16 + c);
      if (left) more = true;
    }
    barrier();
    done += chunk;
    if (!more) break;
  }
}

template <class T> void red(T* a, const T* b, int n, MPI_Op op) {
  for (int i = 0; i < n; i++) switch (op) {
    case MPI_SUM: a[i] = T(a[i] + b[i]); break;
    case MPI_PROD: a[i] = T(a[i] * b[i]); break;
    case MPI_MIN: if (b[i] < a[i]) a[i] = b[i]; break;
    case MPI_MAX: if (a[i] < b[i]) a[i] = b[i]; break;
    case MPI_LAND: a[i] = T(a[i] && b[i]); break;
    case MPI_LOR: a[i] = T(a[i] || b[i]); break;
    case MPI_BAND: a[i] = T((long)a[i] & (long)b[i]); break;
    case MPI_BOR: a[i] = T((long)a[i] | (long)b[i]); break;
    default: fprintf(stderr, "MINIMPI: operation %d not provided\n", op); abort();
  }
}

void reduce_bytes(char* a, const char* b, int n, MPI_Datatype t, MPI_Op op) {
  switch (t) {
    case MPI_INT: red((int*)a, (const int*)b, n, op); break;
    case MPI_UNSIGNED: red((unsigned*)a, (const unsigned*)b, n, op); break;
    case MPI_LONG: case MPI_LONG_LONG: red((long*)a, (const long*)b, n, op); break;
    case MPI_UNSIGNED_LONG: case MPI_SIZE_T_: red((unsigned long*)a, (const unsigned long*)b, n, op); break;
    case MPI_DOUBLE: red((double*)a, (const double*)b, n, op); break;
    case MPI_FLOAT: red((float*)a, (const float*)b, n, op); break;
    case MPI_DOUBLE_INT: {
      struct DI { double v; int i; };
      DI* x = (DI*)a; const DI* y = (const DI*)b;
      for (int k = 0; k < n; k++) {
        bool better = op == MPI_MINLOC ? (y[k].v < x[k].v || (y[k].v == x[k].v && y[k].i < x[k].i))
                                       : (y[k].v > x[k].v || (y[k].v == x[k].v && y[k].i < x[k].i));
        if (better) x[k] = y[k];
      }
      break;
    }
    default: red((char*)a, b, n, op);
  }
}

}  // namespace

// The first process ends last, and badly if any of the others did.
void minimpi_collect() {
  if (S.rank != 0) return;
  int bad = 0;
  for (pid_t p : S.kids) {
    int st = 0;
    waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = WIFEXITED(st) ? WEXITSTATUS(st) : 88;
  }
  S.kids.clear();
  if (bad) { fprintf(stderr, "MINIMPI: a rank ended with status %d\n", bad); fflush(stdout); _exit(bad); }
}

int MPI_Init(int*, char***) {
  if (S.init) return 0;
  S.init = true;
  const char* e = getenv("MINIMPI_SIZE");
  S.size = e ? atoi(e) : 1;
  if (S.size < 1) S.size = 1;
  if (S.size > MAXR) { fprintf(stderr, "MINIMPI: too many ranks\n"); exit(87); }
  if (const char* t = getenv("MINIMPI_TIMEOUT")) S.timeout = atof(t);
  if (S.size > 1) {
    void* m = mmap(nullptr, 4096 + SLOT * S.size + sizeof(Box) * S.size * S.size, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) { perror("mmap"); exit(87); }
    S.sh = new (m) Shared();
    S.data = (char*)m + 4096;
    S.boxes = (Box*)(S.data + SLOT * S.size);
    fflush(stdout);
    fflush(stderr);
    for (int r = 1; r < S.size; r++) {
      pid_t p = fork();
      if (p < 0) { perror("fork"); exit(87); }
      if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); S.rank = r; S.kids.clear(); break; }
      S.kids.push_back(p);
    }
    if (S.rank == 0) atexit(minimpi_collect);
  }
  return 0;
}
int MPI_Init_thread(int* a, char*** b, int req, int* prov) { if (prov) *prov = req; return MPI_Init(a, b); }
int MPI_Initialized(int* f) { *f = S.init; return 0; }
int MPI_Finalized(int* f) { *f = S.fin; return 0; }
int MPI_Finalize() {
  if (S.fin) return 0;
  S.fin = true;
  if (S.size > 1) barrier();
  return 0;
}
int MPI_Abort(MPI_Comm, int code) {
  fflush(stdout); fflush(stderr);
  if (S.sh) S.sh->abort_code.store(code ? code : 85);
  _exit(code ? code : 85);
}
int& minimpi_pretend() { static int n = 0; return n; }
int& minimpi_pretend_rank() { static int n = 0; return n; }
int MPI_Comm_rank(MPI_Comm c, int* r) { *r = minimpi_pretend() && csize(c) == 1 ? minimpi_pretend_rank() : crank(c); return 0; }
int MPI_Comm_size(MPI_Comm c, int* s) { *s = minimpi_pretend() ? minimpi_pretend() : csize(c); return 0; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* o) { *o = c; return 0; }
int MPI_Comm_split(MPI_Comm c, int, int, MPI_Comm* o) { if (csize(c) > 1) { fprintf(stderr, "MINIMPI: MPI_Comm_split not provided\n"); abort(); } *o = c; return 0; }
int MPI_Comm_split_type(MPI_Comm c, int, int, MPI_Info, MPI_Comm* o) { *o = c; return 0; }
int MPI_Comm_free(MPI_Comm* c) { *c = MPI_COMM_NULL; return 0; }
int MPI_Barrier(MPI_Comm c) { if (csize(c) > 1) barrier(); return 0; }
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c) {
  if (csize(c) == 1) return 0;
  std::vector<std::vector<char>> all;
  exchange(b, crank(c) == root ? n * tsize(t) : 0, all);
  memcpy(b, all[root].data(), n * tsize(t));
  return 0;
}
int MPI_Allreduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  if (in == MPI_IN_PLACE) in = out;
  size_t bytes = n * tsize(t);
  if (csize(c) == 1) { if (in != out) memcpy(out, in, bytes); return 0; }
  std::vector<std::vector<char>> all;
  exchange(in, bytes, all);
  for (auto& v : all) if (v.size() != bytes) { fprintf(stderr, "MINIMPI: reduction with different lengths\n"); MPI_Abort(c, 86); }
  std::vector<char> acc = all[0];
  for (int r = 1; r < S.size; r++) reduce_bytes(acc.data(), all[r].data(), n, t, op);
  memcpy(out, acc.data(), bytes);
  return 0;
}
int MPI_Reduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) {
  std::vector<char> tmp(n * tsize(t) + 1);
  MPI_Allreduce(in == MPI_IN_PLACE ? out : in, tmp.data(), n, t, op, c);
  if (crank(c) == root) memcpy(out, tmp.data(), n * tsize(t));
  return 0;
}
static int scan(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, bool incl) {
  if (in == MPI_IN_PLACE) in = out;
  size_t bytes = n * tsize(t);
  if (csize(c) == 1) { if (incl && in != out) memcpy(out, in, bytes); return 0; }
  std::vector<std::vector<char>> all;
  exchange(in, bytes, all);
  int last = incl ? S.rank : S.rank - 1;
  if (last < 0) return 0;
  std::vector<char> acc = all[0];
  for (int r = 1; r <= last; r++) reduce_bytes(acc.data(), all[r].data(), n, t, op);
  memcpy(out, acc.data(), bytes);
  return 0;
}
int MPI_Scan(const void* i, void* o, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return scan(i, o, n, t, op, c, true); }
int MPI_Exscan(const void* i, void* o, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return scan(i, o, n, t, op, c, false); }
int MPI_Allgatherv(const void* in, int n, MPI_Datatype t, void* out, const int* cnt, const int* dsp, MPI_Datatype rt, MPI_Comm c) {
  if (csize(c) == 1) { if (in != MPI_IN_PLACE) memcpy((char*)out + dsp[0] * tsize(rt), in, n * tsize(t)); return 0; }
  const void* src = in;
  size_t len = n * tsize(t);
  if (in == MPI_IN_PLACE) { src = (char*)out + dsp[S.rank] * tsize(rt); len = cnt[S.rank] * tsize(rt); }
  std::vector<std::vector<char>> all;
  exchange(src, len, all);
  for (int r = 0; r < S.size; r++) memcpy((char*)out + dsp[r] * tsize(rt), all[r].data(), all[r].size());
  return 0;
}
int MPI_Allgather(const void* in, int n, MPI_Datatype t, void* out, int m, MPI_Datatype rt, MPI_Comm c) {
  std::vector<int> cnt(csize(c), m), d(csize(c));
  for (int r = 0; r < csize(c); r++) d[r] = r * m;
  return MPI_Allgatherv(in, n, t, out, cnt.data(), d.data(), rt, c);
}
int MPI_Gatherv(const void* in, int n, MPI_Datatype t, void* out, const int* cnt, const int* dsp, MPI_Datatype rt, int root, MPI_Comm c) {
  if (csize(c) == 1) { memcpy((char*)out + dsp[0] * tsize(rt), in, n * tsize(t)); return 0; }
  std::vector<std::vector<char>> all;
  exchange(in, n * tsize(t), all);
  if (crank(c) == root) for (int r = 0; r < S.size; r++) memcpy((char*)out + dsp[r] * tsize(rt), all[r].data(), all[r].size());
  return 0;
}
int MPI_Gather(const void* in, int n, MPI_Datatype t, void* out, int m, MPI_Datatype rt, int root, MPI_Comm c) {
  std::vector<int> cnt(csize(c), m), d(csize(c));
  for (int r = 0; r < csize(c); r++) d[r] = r * m;
  return MPI_Gatherv(in, n, t, out, cnt.data(), d.data(), rt, root, c);
}
int MPI_Scatter(const void* in, int n, MPI_Datatype t, void* out, int m, MPI_Datatype rt, int root, MPI_Comm c) {
  if (csize(c) == 1) { memcpy(out, in, n * tsize(t)); return 0; }
  std::vector<std::vector<char>> all;
  exchange(in, crank(c) == root ? n * tsize(t) * csize(c) : 0, all);
  memcpy(out, all[root].data() + S.rank * n * tsize(t), m * tsize(rt));
  return 0;
}
int MPI_Type_size(MPI_Datatype t, int* s) { *s = (int)tsize(t); return 0; }
int MPI_Get_processor_name(char* b, int* n) { strcpy(b, "minimpi"); *n = 7; return 0; }
double MPI_Wtime() { return now(); }

void minimpi_pairwise(const std::vector<int>& peers, const std::vector<std::vector<char>>& send, std::vector<std::vector<char>>& recv) {
  size_t n = peers.size();
  recv.assign(n, {});
  std::vector<size_t> sent(n, 0);
  std::vector<char> sdone(n, 0), rdone(n, 0);
  size_t left = 2 * n;
  double t0 = now();
  int spins = 0;
  while (left) {
    bool moved = false;
    for (size_t k = 0; k < n; k++) {
      Box& o = S.boxes[S.rank * S.size + peers[k]];
      if (!sdone[k] && !o.full.load()) {
        size_t c = send[k].size() - sent[k];
        if (c > BOX) c = BOX;
        if (c) memcpy(o.data, send[k].data() + sent[k], c);
        sent[k] += c;
        o.len = c;
        o.more = sent[k] < send[k].size();
        if (!o.more) { sdone[k] = 1; left--; }
        o.full.store(1);
        moved = true;
      }
      Box& i = S.boxes[peers[k] * S.size + S.rank];
      if (!rdone[k] && i.full.load()) {
        recv[k].insert(recv[k].end(), i.data, i.data + i.len);
        if (!i.more) { rdone[k] = 1; left--; }
        i.full.store(0);
        moved = true;
      }
    }
    if (moved) { spins = 0; continue; }
    if (S.sh->abort_code.load()) _exit(S.sh->abort_code.load());
    if (++spins > 2000) {
      std::this_thread::sleep_for(std::chrono::microseconds(50));
      if (now() - t0 > S.timeout) {
        fprintf(stderr, "MINIMPI: rank %d waited in vain for a neighbour\n", S.rank);
        fflush(stdout);
        S.sh->abort_code.store(86);
        _exit(86);
      }
    }
  }
}
