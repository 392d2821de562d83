// The part of the stand-in that every generated file includes (pup.h and ckio.h).
#ifndef MINICHARM_LIGHT_H
#define MINICHARM_LIGHT_H
#include <stddef.h>
namespace PUP {
class er {
  void *impl;
  int mode;

public:
  er(int m); // 0 sizing, 1 packing, 2 unpacking
  er(const er &) = delete;
  ~er();
  bool isUnpacking() const { return mode == 2; }
  bool isPacking() const { return mode == 1; }
  bool isSizing() const { return mode == 0; }
  void bytes(void *d, size_t n);
  void takeFrom(const er &o);
  size_t left() const;
};
template <class T> inline auto mc_pup(er &p, T &t, int) -> decltype(t.pup(p), void()) { t.pup(p); }
template <class T> inline void mc_pup(er &p, T &t, long) {
  static_assert(__is_trivially_copyable(T), "PUP of a type without pup()");
  p.bytes((void *)&t, sizeof(T));
}
template <class T> inline void operator|(er &p, T &t) { mc_pup(p, t, 0); }
} // namespace PUP
using PUP::operator|;
template <class T> inline void PUParray(PUP::er &p, T *t, size_t n) {
  for (size_t i = 0; i < n; i++) p | t[i];
}
namespace Ck {
namespace IO {
struct Options {
  size_t peStripe = 0, writeStripe = 0;
  int activePEs = -1, basePE = -1, skipPEs = -1;
};
struct File {
  int id = -1;
  void pup(PUP::er &p) { p | id; }
};
struct Session {
  int id = -1;
  void pup(PUP::er &p) { p | id; }
};
void write(Session s, const char *data, size_t bytes, size_t offset);
} // namespace IO
} // namespace Ck
#endif
