// Instrumented element values: every copy (and, for ValT, every move) is a seam that may throw; use of a destroyed,
// never-constructed or bitwise-copied object is a violation; live objects are counted.
#pragma once
#include "../sim/sim.hpp"

template <bool MOVE_THROWS>
struct BasicVal {
  int         v = 0;
  const void* self;

  static inline int64_t live = 0;

  static void bad(const char* what) { sim::fail("value-lifetime", "%s of an element value that isn't alive", what); }
  void        alive(const char* what) const {
    if (self != this)
      bad(what);
  }
  void born() {
    self = this;
    ++live;
  }

  BasicVal() noexcept(!MOVE_THROWS) {
    sim::Env e;
    if (MOVE_THROWS && e.old)
      sim::seam(sim::K_COPY);
    born();
  }
  BasicVal(int x) : v(x) { born(); }
  BasicVal(const BasicVal& o) {
    sim::Env e;
    o.alive("copy");
    if (e.old) // copies the harness makes are no seams
      sim::seam(sim::K_COPY);
    v = o.v;
    born();
  }
  BasicVal(BasicVal&& o) noexcept(!MOVE_THROWS) {
    sim::Env e;
    o.alive("move");
    if (MOVE_THROWS && e.old)
      sim::seam(sim::K_COPY);
    v   = o.v;
    o.v = -77;
    born();
  }
  BasicVal& operator=(const BasicVal& o) {
    sim::Env e;
    o.alive("copy assignment");
    alive("assignment");
    if (e.old) // copies the harness makes are no seams
      sim::seam(sim::K_COPY);
    v = o.v;
    return *this;
  }
  BasicVal& operator=(BasicVal&& o) noexcept(!MOVE_THROWS) {
    sim::Env e;
    o.alive("move assignment");
    alive("assignment");
    if (MOVE_THROWS && e.old)
      sim::seam(sim::K_COPY);
    if (this != &o) {
      v   = o.v;
      o.v = -77;
    }
    return *this;
  }
  ~BasicVal() {
    alive("destruction");
    self = nullptr;
    --live;
  }
  BasicVal& operator+=(const BasicVal& o) {
    v += o.v;
    return *this;
  }
  friend bool operator==(const BasicVal& a, const BasicVal& b) { return a.v == b.v; }
  friend auto operator<=>(const BasicVal& a, const BasicVal& b) { return a.v <=> b.v; }
  explicit    operator int() const {
    alive("reading");
    return v;
  }
};
using Val  = BasicVal<false>;
using ValT = BasicVal<true>;

template <bool M>
struct std::hash<BasicVal<M>> {
  size_t operator()(const BasicVal<M>& x) const noexcept { return static_cast<size_t>(x.v) * 0x9e3779b97f4a7c15ull; }
};
