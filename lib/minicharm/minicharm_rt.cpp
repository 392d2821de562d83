#include "BHaH_defines.h"
#include "BHaH_function_prototypes.h"
#include "main.h"
#include "timestepping.h"
#include <algorithm>
#include <set>

namespace mc {
std::vector<Pending> queue_;
int current = -1;
uint64_t seqno = 0, delivered = 0, rng = 88172645463325252ull;
bool exit_called = false;
int N0 = 1, N1 = 1, N2 = 1;
int checkpoints = 0;
std::vector<Timestepping *> elems;
Main *the_main = nullptr;

void fail(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  fprintf(stderr, "MINICHARM: ");
  vfprintf(stderr, fmt, ap);
  fprintf(stderr, "\n");
  va_end(ap);
  fflush(NULL);
  _Exit(77);
}

// ---------------------------------------------------------------- reductions
struct Red {
  int count = 0;
  std::vector<double> v;
  CkReduction::reducerType op;
  CkCallback cb;
};
static std::map<int, Red> reds;
static std::vector<int> nextred;
void contribute(int elem, const std::vector<double> &v, CkReduction::reducerType op, const CkCallback &cb, int) {
  if (nextred.empty()) nextred.assign(nchares(), 0);
  const int k = nextred[elem]++;
  Red &r = reds[k];
  if (r.count == 0) {
    r.v = v;
    r.op = op;
    r.cb = cb;
  } else {
    if (r.v.size() != v.size() || r.op != op) fail("reduction %d: chares contribute different kinds of data", k);
    for (size_t i = 0; i < v.size(); i++)
      switch (op) {
      case CkReduction::sum_double: r.v[i] += v[i]; break;
      case CkReduction::max_double: r.v[i] = std::max(r.v[i], v[i]); break;
      case CkReduction::min_double: r.v[i] = std::min(r.v[i], v[i]); break;
      default: break;
      }
  }
  if (++r.count == nchares()) {
    CkReductionMsg *m = new CkReductionMsg();
    m->d = r.v;
    r.cb.send(m);
    reds.erase(k);
  }
}

// ---------------------------------------------------------------- scheduler
static int mode = 0;
static std::set<int> slow;
static uint64_t slow_until = 0;
static std::vector<int> prio;
static size_t pick() {
  if (mode == 0) {
    size_t b = 0;
    for (size_t i = 1; i < queue_.size(); i++)
      if (queue_[i].seq < queue_[b].seq) b = i;
    return b;
  }
  std::map<std::pair<int, int>, size_t> oldest;
  for (size_t i = 0; i < queue_.size(); i++) {
    auto key = std::make_pair(queue_[i].src, queue_[i].dst);
    auto it = oldest.find(key);
    if (it == oldest.end() || queue_[it->second].seq > queue_[i].seq) oldest[key] = i;
  }
  std::vector<size_t> cand;
  for (auto &kv : oldest) cand.push_back(kv.second);
  std::sort(cand.begin(), cand.end(), [](size_t a, size_t b) { return queue_[a].seq < queue_[b].seq; });
  if (mode == 1) return cand[rnd() % cand.size()];
  if (mode == 2) return cand.back();
  if (mode == 3 || mode == 4) {
    if (delivered >= slow_until) {
      slow.clear();
      for (int i = -2; i < nchares(); i++)
        if (rnd() % 3 == 0) slow.insert(i);
      slow_until = delivered + 20 + rnd() % 400;
    }
    std::vector<size_t> fast;
    for (size_t c : cand)
      if (!slow.count(mode == 3 ? queue_[c].dst : queue_[c].src)) fast.push_back(c);
    if (fast.empty()) fast = cand;
    return fast[rnd() % fast.size()];
  }
  // mode 5: strict priorities, reshuffled now and then; pairs (src,dst) of low priority starve
  if (prio.empty() || delivered >= slow_until) {
    prio.assign((nchares() + 2) * (nchares() + 2), 0);
    for (auto &p : prio) p = rnd() % 1000;
    slow_until = delivered + 50 + rnd() % 1000;
  }
  size_t best = cand[0];
  auto pr = [](size_t c) { return prio[(queue_[c].src + 2) * (nchares() + 2) + queue_[c].dst + 2]; };
  for (size_t c : cand)
    if (pr(c) > pr(best)) best = c;
  return best;
}
} // namespace mc

namespace PUP {
struct Buf {
  std::vector<unsigned char> b;
  size_t pos = 0;
};
er::er(int m) : impl(new Buf), mode(m) {}
er::~er() { delete (Buf *)impl; }
void er::takeFrom(const er &o) { ((Buf *)impl)->b = ((Buf *)o.impl)->b; }
size_t er::left() const { return ((Buf *)impl)->b.size() - ((Buf *)impl)->pos; }
void er::bytes(void *d, size_t n) {
  Buf &B = *(Buf *)impl;
  if (n == 0) return;
  if (mode == 1) {
    B.b.insert(B.b.end(), (unsigned char *)d, (unsigned char *)d + n);
  } else if (mode == 2) {
    if (B.pos + n > B.b.size()) mc::fail("unpacking reads past the end of what was packed");
    memcpy(d, B.b.data() + B.pos, n);
    B.pos += n;
  }
}
} // namespace PUP

// ---------------------------------------------------------------- CkIO
namespace Ck {
namespace IO {
struct F {
  std::string name, content;
  std::vector<char> have;
  size_t missing = 0, bytes = 0, offset = 0;
  bool open = true, session = false;
  CkCallback complete;
};
static std::vector<F> files;
void open(std::string name, CkCallback opened, Options) {
  F f;
  f.name = name;
  files.push_back(f);
  FileReadyMsg *m = new FileReadyMsg();
  m->file.id = (int)files.size() - 1;
  opened.send(m);
}
void startSession(File f, size_t bytes, size_t offset, CkCallback ready, CkCallback complete) {
  if (f.id < 0 || f.id >= (int)files.size() || !files[f.id].open) mc::fail("startSession on a file that is not open");
  F &x = files[f.id];
  x.session = true;
  x.bytes = bytes;
  x.offset = offset;
  x.missing = bytes;
  x.have.assign(bytes, 0);
  if (x.content.size() < offset + bytes) x.content.resize(offset + bytes, '\0');
  x.complete = complete;
  SessionReadyMsg *m = new SessionReadyMsg();
  m->session.id = f.id;
  ready.send(m);
  if (bytes == 0) complete.send(new CkReductionMsg());
}
void write(Session s, const char *data, size_t bytes, size_t offset) {
  if (s.id < 0 || s.id >= (int)files.size() || !files[s.id].session) mc::fail("write on a session that is not open");
  F &x = files[s.id];
  if (offset < x.offset || offset + bytes > x.offset + x.bytes)
    mc::fail("file %s: write of %zu bytes at %zu lies outside the session of %zu bytes", x.name.c_str(), bytes, offset, x.bytes);
  for (size_t i = 0; i < bytes; i++) {
    if (x.have[offset - x.offset + i]) mc::fail("file %s: byte %zu written twice", x.name.c_str(), offset + i);
    x.have[offset - x.offset + i] = 1;
    x.content[offset + i] = data[i];
  }
  x.missing -= bytes;
  if (x.missing == 0 && bytes > 0) {
    x.session = false;
    x.complete.send(new CkReductionMsg());
  }
}
void close(File f, CkCallback closed) {
  if (f.id < 0 || f.id >= (int)files.size() || !files[f.id].open) mc::fail("close of a file that is not open");
  F &x = files[f.id];
  x.open = false;
  FILE *o = fopen(x.name.c_str(), "wb");
  fwrite(x.content.data(), 1, x.content.size(), o);
  fclose(o);
  closed.send(new CkReductionMsg());
}
} // namespace IO
} // namespace Ck

// ---------------------------------------------------------------- checkpoint = pack everything, restart from it
struct mc_access {
#ifdef MC_CHECKPOINT
  static void restart(Timestepping *t) {
    PUP::er pk(1);
    t->pup(pk);
    void *mem = aligned_alloc(64, (sizeof(Timestepping) + 127) / 64 * 64);
    memset(mem, 0xA5, sizeof(Timestepping));
    Timestepping *f = new (mem) Timestepping((CkMigrateMessage *)nullptr);
    PUP::er un(2);
    un.takeFrom(pk);
    f->pup(un);
    if (un.left()) mc::fail("unpacking leaves %zu packed bytes unread", un.left());
    const size_t off = (char *)&t->mc_state_begin - (char *)t;
    memcpy((char *)t + off, (char *)f + off, sizeof(Timestepping) - off);
  }
#endif
  static void dump(FILE *o, Timestepping *t) {
    const griddata_struct *g = t->griddata_chare;
    const params_struct *p = &g[0].params;
    const int n[3] = {p->Nxx_plus_2NGHOSTS0, p->Nxx_plus_2NGHOSTS1, p->Nxx_plus_2NGHOSTS2};
    const int hdr[9] = {t->thisIndex.x, t->thisIndex.y, t->thisIndex.z, n[0], n[1], n[2], NUM_EVOL_GFS, NUM_AUXEVOL_GFS, NGHOSTS};
    fwrite(hdr, sizeof(int), 9, o);
    for (int d = 0; d < 3; d++) fwrite(g[0].xx[d], sizeof(REAL), n[d], o);
    const size_t tot = (size_t)n[0] * n[1] * n[2];
    fwrite(g[0].gridfuncs.y_n_gfs, sizeof(REAL), tot * NUM_EVOL_GFS, o);
    if (NUM_AUXEVOL_GFS > 0) fwrite(g[0].gridfuncs.auxevol_gfs, sizeof(REAL), tot * NUM_AUXEVOL_GFS, o);
    const double tail[2] = {(double)t->commondata.nn, (double)t->commondata.time};
    fwrite(tail, sizeof(double), 2, o);
  }
};
#ifdef MC_CHECKPOINT
void CkStartCheckpoint(const char *, const CkCallback &cb) {
  CkCallback c = cb;
  mc::post_from(-2, -1, [c] {
    mc::checkpoints++;
    for (auto *t : mc::elems) mc_access::restart(t);
    c.send(nullptr);
  });
}
#else
void CkStartCheckpoint(const char *, const CkCallback &cb) { cb.send(nullptr); }
#endif

int main(int argc, char **argv) {
  if (getenv("MC_MODE")) mc::mode = atoi(getenv("MC_MODE"));
  if (getenv("MC_SEED")) mc::rng = 0x9E3779B97F4A7C15ull * (strtoull(getenv("MC_SEED"), 0, 10) + 1) | 1;
  for (int i = 0; i < 10; i++) mc::rnd();
  CkArgMsg *am = new CkArgMsg();
  am->argc = argc;
  am->argv = argv;
  mc::current = -1;
  mc::the_main = new Main(am);
  while (!mc::queue_.empty()) {
    const size_t i = mc::pick();
    mc::Pending p = std::move(mc::queue_[i]);
    mc::queue_.erase(mc::queue_.begin() + i);
    mc::current = p.dst;
    mc::delivered++;
    p.go();
    if (mc::delivered > 20000000ull) mc::fail("no end after %llu messages", (unsigned long long)mc::delivered);
  }
  int unfinished = 0;
  for (auto *t : mc::elems)
    if (!t->mc_finished_start) unfinished++;
  if (unfinished) mc::fail("deadlock: no message is left and %d of %d chares wait for one", unfinished, mc::nchares());
  if (!mc::exit_called) mc::fail("all chares finished and the program was never told to exit");
  FILE *o = fopen("mc_state.bin", "wb");
  for (auto *t : mc::elems) mc_access::dump(o, t);
  fclose(o);
  fprintf(stderr, "MC delivered=%llu checkpoints=%d\n", (unsigned long long)mc::delivered, mc::checkpoints);
  fflush(NULL);
  _Exit(0);
}
