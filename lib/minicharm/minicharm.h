// A small single-process stand-in for the parts of Charm++ that code generated by
// nrpy.infrastructures.superB uses: chare arrays, proxies, parameter-marshalled entry
// methods, structured dagger (as C++20 coroutines), reductions, CkIO and PUP.
// Messages wait in a queue; a seeded scheduler decides which is delivered next, keeping
// messages between the same two objects in order.
#ifndef MINICHARM_H
#define MINICHARM_H
#include "minicharm_light.h"
#include <coroutine>
#include <cstddef>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

// ------------------------------------------------------------------ scheduler
struct CkArrayIndex3D {
  int x, y, z;
  CkArrayIndex3D(int a = 0, int b = 0, int c = 0) : x(a), y(b), z(c) {}
};

namespace mc {
struct Pending {
  int src, dst;
  uint64_t seq;
  std::function<void()> go;
};
extern std::vector<Pending> queue_;
extern int current; // object now executing: -1 main, >=0 chare, -2 runtime
extern uint64_t seqno, delivered;
extern uint64_t rng;
extern bool exit_called;
extern int N0, N1, N2;
inline uint64_t rnd() {
  rng ^= rng << 13;
  rng ^= rng >> 7;
  rng ^= rng << 17;
  return rng;
}
inline void post(int dst, std::function<void()> f) {
  queue_.push_back({current, dst, seqno++, std::move(f)});
}
inline void post_from(int src, int dst, std::function<void()> f) {
  queue_.push_back({src, dst, seqno++, std::move(f)});
}
inline int nchares() { return N0 * N1 * N2; }
inline int lin(int x, int y, int z) { return x + N0 * (y + N1 * z); }
void fail(const char *fmt, ...);

// ------------------------------------------------------------------ coroutines
struct Task {
  struct promise_type {
    Task get_return_object() { return {}; }
    std::suspend_never initial_suspend() noexcept { return {}; }
    std::suspend_never final_suspend() noexcept { return {}; }
    void return_void() {}
    void unhandled_exception() { std::terminate(); }
  };
};

template <class M> struct Mailbox {
  struct Waiter {
    bool has_ref;
    long ref;
    std::shared_ptr<M> *slot;
    std::coroutine_handle<> h;
  };
  std::deque<std::shared_ptr<M>> msgs;
  std::list<Waiter> waiters;
  void deliver(std::shared_ptr<M> m) {
    for (auto it = waiters.begin(); it != waiters.end(); ++it)
      if (!it->has_ref || it->ref == m->mc_ref()) {
        Waiter w = *it;
        waiters.erase(it);
        *w.slot = m;
        w.h.resume();
        return;
      }
    msgs.push_back(m);
  }
  struct Awaiter {
    Mailbox &mb;
    bool has_ref;
    long ref;
    std::shared_ptr<M> got;
    bool await_ready() {
      for (auto it = mb.msgs.begin(); it != mb.msgs.end(); ++it)
        if (!has_ref || (*it)->mc_ref() == ref) {
          got = *it;
          mb.msgs.erase(it);
          return true;
        }
      return false;
    }
    void await_suspend(std::coroutine_handle<> h) { mb.waiters.push_back({has_ref, ref, &got, h}); }
    std::shared_ptr<M> await_resume() { return got; }
  };
  Awaiter get() { return Awaiter{*this, false, 0, nullptr}; }
  Awaiter get(long r) { return Awaiter{*this, true, r, nullptr}; }
};
} // namespace mc

// ------------------------------------------------------------------ messages, callbacks
struct CkMessage {
  virtual ~CkMessage() {}
  virtual CkMessage *clone() const { return new CkMessage(*this); }
};
struct CkMigrateMessage : CkMessage {};
struct CkArgMsg : CkMessage {
  int argc = 0;
  char **argv = nullptr;
};
struct CkReductionMsg : CkMessage {
  std::vector<double> d;
  bool wiped = false;
  int getSize() const { return (int)(d.size() * sizeof(double)); }
  void *getData() { return d.data(); }
  const void *getData() const { return d.data(); }
  CkMessage *clone() const override { return new CkReductionMsg(*this); }
};
namespace CkReduction {
enum reducerType { nop, sum_double, max_double, min_double };
}
namespace Ck {
namespace IO {
struct FileReadyMsg : CkMessage {
  File file;
  CkMessage *clone() const override { return new FileReadyMsg(*this); }
};
struct SessionReadyMsg : CkMessage {
  Session session;
  CkMessage *clone() const override { return new SessionReadyMsg(*this); }
};
} // namespace IO
} // namespace Ck

namespace mc {
struct Ep { // an entry method of the chare array, reachable through a callback
  int id = -1;
};
void invoke(int ep, int elem, CkMessage *m); // generated
} // namespace mc

struct CProxy_Timestepping;
struct CProxyElement_Timestepping;
struct CkCallback {
  int ep = -1;
  int elem = -1; // -1: broadcast
  CkCallback() {}
  CkCallback(mc::Ep e, const CProxy_Timestepping &) : ep(e.id), elem(-1) {}
  inline CkCallback(mc::Ep e, const CProxyElement_Timestepping &p);
  void send(CkMessage *m = nullptr, int src = -2) const {
    if (ep < 0) { delete m; return; }
    const int e = ep;
    if (elem >= 0) {
      const int el = elem;
      mc::post_from(src, el, [e, el, m] { mc::invoke(e, el, m); });
      return;
    }
    for (int i = 0; i < mc::nchares(); i++) {
      CkMessage *c = m ? m->clone() : nullptr;
      mc::post_from(src, i, [e, i, c] { mc::invoke(e, i, c); });
    }
    delete m;
  }
};

namespace Ck {
namespace IO {
void open(std::string name, CkCallback opened, Options opts);
void startSession(File f, size_t bytes, size_t offset, CkCallback ready, CkCallback complete);
void close(File f, CkCallback closed);
} // namespace IO
} // namespace Ck

inline void CkExit(int = 0) { mc::exit_called = true; }
inline double CkWallTimer() { return 0.0; }
inline int CkMyPe() { return 0; }
inline int CkNumPes() { return 1; }
inline void CkPrintf(const char *, ...) {}
#define CkAssert(x)                                                                                                                                  \
  do {                                                                                                                                               \
    if (!(x)) mc::fail("CkAssert(%s) failed", #x);                                                                                                   \
  } while (0)
inline void CkAbort(const char *s, ...) { mc::fail("CkAbort: %s", s); }
void CkStartCheckpoint(const char *dir, const CkCallback &cb);
#define CkReductionTarget(cls, method) (CkIndex_##cls::method())

namespace mc {
void contribute(int elem, const std::vector<double> &v, CkReduction::reducerType op, const CkCallback &cb, int root = -1);
}
#endif
