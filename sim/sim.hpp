// Deterministic simulator for graph-v3: public interface used by the harnesses.
//
// One 64-bit seed decides a run. Every choice (workload, scheduling, faults, adversarial random numbers) is
// a draw() recorded on a tape; replaying the tape replays the run exactly.
#pragma once
#include <cstddef>
#include <cstdint>
#include <exception>
#include <functional>
#include <new>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace sim {

// ---- choices -------------------------------------------------------------------------------------------------
uint32_t    draw(uint32_t n);        // uniform in [0,n); 0 is the simplest choice. n==0 gives 0
inline int  range(int lo, int hi) { return lo + static_cast<int>(draw(static_cast<uint32_t>(hi - lo + 1))); }
inline bool chance(uint32_t num, uint32_t den) { return draw(den) >= den - num; } // false is the simplest choice
template <class C>
auto& pick(C& c) {
  return c[draw(static_cast<uint32_t>(c.size()))];
}

// ---- event log -----------------------------------------------------------------------------------------------
void ev(uint64_t tag, uint64_t a = 0, uint64_t b = 0); // folded into the run's event hash
bool tracing();                                        // true while a replay writes its human-readable trace
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void probe(const char* name);                          // "this rare condition was reached" counter

// ---- verdict -------------------------------------------------------------------------------------------------
// The first violation of a run sticks. cls is a stable class name (it is kept while minimising).
void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
bool failed();

// ---- seams and faults ----------------------------------------------------------------------------------------
enum Kind : int {
  K_ALLOC,    // an allocation made by the library (operator new / nothrow new)
  K_CALLBACK, // visitor event, weight function, value function, comparator, projection, random number
  K_COPY,     // copy or move construction/assignment of an instrumented value
  K_ITER,     // advancing a caller-supplied input range
  K_COUNT
};
extern const char* const kind_name[K_COUNT];

struct SimFault {               // thrown by an injected callback/value/iterator fault
  uint64_t id;
};
struct SimBadAlloc : std::bad_alloc { // thrown by an injected allocation failure
  uint64_t    id;
  explicit SimBadAlloc(uint64_t i) : id(i) {}
  const char* what() const noexcept override { return "injected allocation failure"; }
};

// Which fault is armed for the current task: the nth (1-based) seam of a kind from now on.
void     arm(Kind k, uint64_t nth);
bool     disarm();              // true if the armed fault fired since arm()
bool     fired();               // true if the armed fault has fired
bool     fired_null();          // the armed fault was delivered as a null result of a nothrow allocation
uint64_t fault_id();
uint64_t seams(Kind k);         // seams of this kind met by the current task so far

void seam(Kind k, bool may_throw = true); // count, maybe yield, maybe throw. Called in callbacks

// Code of the library runs in SUT scope (its allocations are simulated); everything else in ENV scope.
struct Sut {
  bool old;
  Sut();
  ~Sut();
};
struct Env {
  bool old;
  Env();
  ~Env();
};
// A caller-supplied callback: ENV scope plus a seam on entry.
struct Callback : Env {
  explicit Callback(bool may_throw = true, Kind k = K_CALLBACK) { seam(k, may_throw); }
};

// ---- ledger --------------------------------------------------------------------------------------------------
int64_t task_live();            // simulated allocations made by the current task and not freed yet
int64_t total_live();           // by all tasks
bool    in_arena(const void* p);

// ---- the work clock --------------------------------------------------------------------------------------------
// Deterministic measure of what a call costs, for translation units compiled with -fsanitize-coverage=trace-pc:
// basic blocks executed in SUT scope (plus bytes allocated or moved, in 16-byte units), the peak of the simulated
// memory it holds and the depth of stack it uses.
struct Meter {
  bool      on    = false;
  uint64_t  work  = 0;
  uint64_t  limit = ~uint64_t(0); // a call that exceeds it is reported (class `cls`) and the run ends
  int64_t   live = 0, peak = 0;
  uintptr_t low = ~uintptr_t(0), top = 0;
  char      cls[48] = "work";
  void      start(const char* name, uint64_t lim);
  void      stop();
  uint64_t  depth() const { return low < top ? top - low : 0; }
};
extern Meter meter;

// ---- outcomes ------------------------------------------------------------------------------------------------
enum What { W_NONE, W_INJECTED, W_BAD_ALLOC, W_OUT_OF_RANGE, W_INVALID_ARGUMENT, W_RUNTIME, W_STD, W_OTHER };
struct Outcome {
  What        what = W_NONE;
  std::string msg;
  bool        threw() const { return what != W_NONE; }
};
extern const char* const what_name[8];
Outcome classify();             // call inside a catch (...) block

template <class F>
Outcome attempt(F&& f) {        // run library code; classify what it throws
  try {
    Sut s;
    f();
  } catch (...) {
    return classify();
  }
  return {};
}

// ---- tasks (simulated caller threads) --------------------------------------------------------------------------
void spawn(std::function<void()> body);
void run_tasks();               // interleave the spawned tasks at seams until all have finished
void yield();
int  task_id();                 // 0 outside tasks
uint64_t steps();               // seam steps of this run

// ---- scenarios -----------------------------------------------------------------------------------------------
struct Scenario {
  const char* name;
  int         weight;
  void (*fn)();
};
struct Register {
  Register(const char* name, int weight, void (*fn)());
};
#define SIM_CAT2(a, b) a##b
#define SIM_CAT(a, b) SIM_CAT2(a, b)
#define SCENARIO(NAME, WEIGHT)                                                                                         \
  static void           SIM_CAT(scenario_, __LINE__)();                                                                \
  static ::sim::Register SIM_CAT(reg_, __LINE__)(NAME, WEIGHT, &SIM_CAT(scenario_, __LINE__));                          \
  static void           SIM_CAT(scenario_, __LINE__)()

inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 32);
}

} // namespace sim
