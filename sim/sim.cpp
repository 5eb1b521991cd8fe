// Deterministic simulator for graph-v3: engine (choices, fibers, faults, ledger, search, minimisation, replay).
#include "sim.hpp"

#include <algorithm>
#include <array>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <sstream>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

namespace sim {

const char* const kind_name[K_COUNT] = {"allocation_failure", "callback_exception", "value_copy_exception",
                                        "input_range_exception"};
const char* const what_name[8]       = {"nothing",          "the injected fault",    "std::bad_alloc", "std::out_of_range",
                                        "std::invalid_argument", "std::runtime_error", "a std::exception", "an unknown exception"};

namespace {

constexpr size_t   TAPE_MAX   = 1u << 17;
constexpr size_t   HASH_MAX   = 1u << 21;
constexpr size_t   PROBES     = 128;
constexpr uint64_t STEP_CAP   = 30'000'000;
#ifndef SIM_RUN_CPU_S
#define SIM_RUN_CPU_S 12
#endif
constexpr int      RUN_CPU_S  = SIM_RUN_CPU_S;
constexpr int      LIFE_RUNS  = 400; // runs per worker process; bounds what hidden process state can carry over

struct Probe {
  char     name[56];
  uint64_t count;
};

struct Slot { // shared between a worker process and the orchestrating process
  volatile uint64_t run, first_run;
  volatile int      busy, violated;
  char              cls[160], msg[1500];
  volatile uint32_t ntape;
  uint32_t          tape[TAPE_MAX];
  uint64_t          hash;
  uint64_t          run_steps;
  // statistics
  uint64_t runs, faulted_runs, steps, switches, tasks, allocs, frees, max_steps;
  uint64_t armed[K_COUNT], fired[K_COUNT], seams[K_COUNT];
  uint64_t known, scen[64];
  uint32_t nprobe;
  Probe    probe[PROBES];
  uint64_t nhash;
  uint64_t hashes[HASH_MAX];
};

Slot* slot = nullptr; // the slot this process writes to

// ---------------------------------------------------------------- run state
struct Task {
  int                   id = 0;
  ucontext_t            ctx{};
  std::function<void()> body;
  void*                 stack = nullptr;
  bool                  done = false, started = false;
  bool                  sut      = false;
  char                  eh[16]   = {};
  int64_t               live     = 0;
  uint64_t              seams[K_COUNT] = {};
  int                   armed_kind = -1;
  uint64_t              armed_at   = 0;
  bool                  fired = false, fired_null = false;
};

constexpr int    MAX_TASKS  = 8;
constexpr size_t STACK_SIZE = 1u << 20;
Task             tasks[MAX_TASKS + 1]; // [0] is the run's main context
int              ntasks = 0;
Task*            cur    = &tasks[0];
ucontext_t       sched_ctx;
bool             in_fiber   = false;
int              no_yield   = 0;
int64_t          budget     = 0;
uint32_t         budget_max = 1;
bool             sut        = false;
uint64_t         nstep      = 0;
uint64_t         ehash      = 0;
int64_t          live_total = 0;
constexpr int64_t ENV_MAX   = 512ll << 20; // bytes the harness may hold in one run
int64_t          env_live = 0, env_base = 0;
bool             run_failed = false;
bool             run_faulted = false;
bool             g_trace    = false;
std::string*     trace_buf  = nullptr;
size_t           trace_lines = 0;

// tape
bool                   replaying = false;
std::vector<uint32_t>* in_tape   = nullptr;
size_t                 in_pos    = 0;
uint64_t               rng       = 0;

std::vector<Scenario>& scenarios() {
  static std::vector<Scenario> v;
  return v;
}

uint64_t splitmix(uint64_t& s) {
  uint64_t z = (s += 0x9e3779b97f4a7c15ull);
  z          = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z          = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

uint64_t strhash(const char* s) {
  uint64_t h = 1469598103934665603ull;
  for (; *s; ++s)
    h = (h ^ static_cast<unsigned char>(*s)) * 1099511628211ull;
  return h;
}

// ---------------------------------------------------------------- arena
constexpr uintptr_t ARENA_BASE = 0x200000000000ull;
constexpr size_t    ARENA_SIZE = 1ull << 30;
char*               arena      = nullptr;
size_t              arena_pos  = 0;
constexpr uint64_t  MAGIC_LIVE = 0x51a11ce0f00dbeefull, MAGIC_DEAD = 0xdeaddeaddeaddeadull, CANARY = 0xc0ffee11c0ffee11ull;

struct Head {
  uint64_t magic;
  uint64_t size;
  uint32_t task;
  uint32_t seq;
  uint64_t pad;
};
uint32_t alloc_seq = 0;

void arena_init() {
  void* p = mmap(reinterpret_cast<void*>(ARENA_BASE), ARENA_SIZE, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != reinterpret_cast<void*>(ARENA_BASE)) {
    std::fprintf(stderr, "sim: cannot map the arena: %s\n", std::strerror(errno));
    _exit(2);
  }
  arena = static_cast<char*>(p);
}

void count_step() {
  if (++nstep > STEP_CAP) {
    fail("no-progress", "more than %llu seam steps in one run", static_cast<unsigned long long>(STEP_CAP));
    _exit(10);
  }
}

bool fault_now(Kind k) {
  ++cur->seams[k];
  if (cur->armed_kind == k && !cur->fired && cur->seams[k] >= cur->armed_at) {
    cur->fired  = true;
    run_faulted = true;
    ++slot->fired[k];
    ev(0xFA17, static_cast<uint64_t>(k), cur->seams[k]);
    if (g_trace)
      trace("    !! injected %s (task %d, seam %llu)", kind_name[k], cur->id,
            static_cast<unsigned long long>(cur->seams[k]));
    return true;
  }
  return false;
}

void maybe_yield() {
  if (in_fiber && no_yield == 0 && --budget <= 0)
    yield();
}

void* arena_alloc(size_t n, size_t align, bool nothrow) {
  maybe_yield();
  count_step();
  if (fault_now(K_ALLOC)) {
    if (nothrow) {
      cur->fired_null = true;
      return nullptr;
    }
    throw SimBadAlloc(fault_id());
  }
  if (align < 16)
    align = 16;
  if (n > ARENA_SIZE / 4) {
    if (nothrow)
      return nullptr;
    throw std::bad_alloc();
  }
  size_t p = (arena_pos + sizeof(Head) + align - 1) / align * align;
  if (p + n + 16 > ARENA_SIZE) {
    fail("no-progress", "the run allocated more than the simulated memory");
    _exit(10);
  }
  Head* h  = reinterpret_cast<Head*>(arena + p - sizeof(Head));
  h->magic = MAGIC_LIVE;
  h->size  = n;
  h->task  = static_cast<uint32_t>(cur->id);
  h->seq   = ++alloc_seq;
  const bool metered = meter.on;
  meter.on           = false; // filling the block is the arena's work
  std::memset(arena + p, 0xA5, n);
  std::memcpy(arena + p + n, &CANARY, 8);
  arena_pos = p + n + 8;
  meter.on  = metered;
  if (meter.on) {
    // in a run that is judged, small blocks (nodes, chunks of a deque) come and go at a low constant cost
    meter.work += n <= 512 && meter.limit != ~uint64_t(0) ? n / 32 : n / 4;
    meter.live += static_cast<int64_t>(n);
    if (meter.live > meter.peak)
      meter.peak = meter.live;
  }
  ++cur->live;
  ++live_total;
  ++slot->allocs;
  return arena + p;
}

void arena_free(void* q) {
  char* p = static_cast<char*>(q);
  Head* h = reinterpret_cast<Head*>(p - sizeof(Head));
  if (h->magic != MAGIC_LIVE) {
    fail("memory", h->magic == MAGIC_DEAD ? "memory freed twice" : "an invalid pointer was freed");
    return;
  }
  if (std::memcmp(p + h->size, &CANARY, 8) != 0)
    fail("memory", "a write past the end of a %llu-byte allocation", static_cast<unsigned long long>(h->size));
  if (meter.on)
    meter.live -= static_cast<int64_t>(h->size);
  h->magic           = MAGIC_DEAD;
  const bool metered = meter.on;
  meter.on           = false;
  std::memset(p, 0xDD, h->size);
  meter.on = metered;
  --tasks[h->task].live;
  --live_total;
  ++slot->frees;
}

// ---------------------------------------------------------------- fibers
void switch_to_sched() {
  cur->sut = sut;
  std::memcpy(cur->eh, __cxxabiv1::__cxa_get_globals(), 16);
  Task* self = cur;
  swapcontext(&self->ctx, &sched_ctx);
  // resumed
  std::memcpy(__cxxabiv1::__cxa_get_globals(), cur->eh, 16);
  sut = cur->sut;
}

void fiber_main(unsigned id) {
  Task& t = tasks[id];
  try {
    t.body();
  } catch (...) {
    Outcome o = classify();
    fail("escaped", "an exception escaped from a caller task: %s %s", what_name[o.what], o.msg.c_str());
  }
  t.body = nullptr;
  t.done = true;
  swapcontext(&t.ctx, &sched_ctx);
}

void* stack_pool[MAX_TASKS + 1] = {};

void* get_stack(int id) {
  if (!stack_pool[id]) {
    char* p = static_cast<char*>(mmap(reinterpret_cast<void*>(0x210000000000ull + static_cast<uint64_t>(id) * (STACK_SIZE * 2)),
                                      STACK_SIZE + 4096, PROT_READ | PROT_WRITE,
                                      MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0));
    if (p == MAP_FAILED) {
      std::fprintf(stderr, "sim: cannot map a stack\n");
      _exit(2);
    }
    mprotect(p, 4096, PROT_NONE);
    stack_pool[id] = p + 4096;
  }
  return stack_pool[id];
}

void reset_run() {
  for (int i = 0; i <= MAX_TASKS; ++i) {
    Task& t = tasks[i];
    t.id    = i;
    t.body  = nullptr;
    t.done = t.started = t.sut = t.fired = t.fired_null = false;
    t.live       = 0;
    t.armed_kind = -1;
    t.armed_at   = 0;
    std::memset(t.seams, 0, sizeof t.seams);
    std::memset(t.eh, 0, sizeof t.eh);
  }
  ntasks = 0;
  cur    = &tasks[0];
  in_fiber    = false;
  no_yield    = 0;
  sut         = false;
  nstep       = 0;
  ehash       = 0;
  live_total  = 0;
  env_base    = env_live;
  run_failed  = false;
  run_faulted = false;
  arena_pos   = 0;
  alloc_seq   = 0;
  in_pos      = 0;
  slot->ntape    = 0;
  slot->cls[0]   = 0;
  slot->msg[0]   = 0;
  slot->violated = 0;
}

void on_hang(int) {
  ehash = 0xC9; // where the clock cut the run differs from one replay to the next
  fail("hang", "the run used more than %d s of processor time", RUN_CPU_S);
  _exit(10);
}

void set_timer(int s) {
  itimerval it{};
  it.it_value.tv_sec = s;
  setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

uint64_t       base_seed = 1;
const char*    prop_id   = "P00";
const char*    only_scenario = nullptr;

uint64_t run_seed(uint64_t i) {
  uint64_t s = base_seed * 0x9e3779b97f4a7c15ull ^ strhash(prop_id) ^ (i * 0xd1342543de82ef95ull + 0x1234567);
  splitmix(s);
  return splitmix(s);
}

void run_body() {
  auto& sc    = scenarios();
  int   total = 0;
  for (auto& s : sc)
    total += s.weight;
  int    x = static_cast<int>(draw(static_cast<uint32_t>(total)));
  size_t k = 0;
  while (x >= sc[k].weight)
    x -= sc[k++].weight;
  if (only_scenario) {
    for (size_t j = 0; j < sc.size(); ++j)
      if (std::string(sc[j].name) == only_scenario)
        k = j;
  }
  ++slot->scen[k];
  if (g_trace)
    trace("scenario %s", sc[k].name);
  ev(0x5CE0, k);
  sc[k].fn();
  if (!run_failed && live_total != 0) {
    std::string which;
    size_t      p = 0;
    int         n = 0;
    (void)p;
    (void)n;
    fail("leak", "%lld allocation(s) made by the library were never freed", static_cast<long long>(live_total));
  }
}

void one_run(uint64_t index) { // draws from the PRNG or the tape; the verdict is left in *slot
  reset_run();
  slot->run  = index;
  slot->busy = 1;
  rng        = run_seed(index);
  set_timer(RUN_CPU_S);
  try {
    run_body();
  } catch (...) {
    Outcome o = classify();
    fail("escaped", "an exception escaped from the run: %s %s", what_name[o.what], o.msg.c_str());
  }
  set_timer(0);
  sut             = false;
  slot->hash      = ehash;
  slot->run_steps = nstep;
  slot->busy      = 0;
  ++slot->runs;
  slot->steps += nstep;
  slot->tasks += static_cast<uint64_t>(ntasks);
  if (nstep > slot->max_steps)
    slot->max_steps = nstep;
  if (run_faulted)
    ++slot->faulted_runs;
  if (slot->nhash < HASH_MAX)
    slot->hashes[slot->nhash++] = ehash;
}

double now() {
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return static_cast<double>(ts.tv_sec) + 1e-9 * static_cast<double>(ts.tv_nsec);
}

Slot* map_slot() {
  void* p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) {
    std::fprintf(stderr, "sim: mmap: %s\n", std::strerror(errno));
    _exit(2);
  }
  return static_cast<Slot*>(p);
}

void quiet() {
  int fd = open("/dev/null", O_WRONLY);
  if (fd >= 0) {
    dup2(fd, 1);
    if (!getenv("SIM_STDERR"))
      dup2(fd, 2);
    close(fd);
  }
}

void child_setup(Slot* s) {
  slot = s;
  rlimit rl{0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  signal(SIGVTALRM, on_hang);
}

void describe_death(Slot* s, int status) {
  if (s->violated)
    return; // the run had already recorded its violation
  s->violated = 1;
  if (WIFSIGNALED(status)) {
    int sig = WTERMSIG(status);
    std::snprintf(s->cls, sizeof s->cls, "crash-%s", sig == SIGABRT ? "abort" : sig == SIGSEGV || sig == SIGBUS ? "segv" : strsignal(sig));
    std::snprintf(s->msg, sizeof s->msg, "the process died of signal %d (%s) during the run", sig, strsignal(sig));
  } else {
    std::snprintf(s->cls, sizeof s->cls, "crash-exit");
    std::snprintf(s->msg, sizeof s->msg, "the process exited with status %d during the run", WEXITSTATUS(status));
  }
}

struct Candidate {
  std::string           cls, msg;
  std::vector<uint32_t> tape;
  uint64_t              hash = 0, steps = 0;
};

// Runs one tape (or, if tape is null, run `index` from its seed) in a forked child.
Candidate probe_run(Slot* s, const std::vector<uint32_t>* tape, uint64_t index, uint64_t first = ~0ull, uint64_t step = 1) {
  s->busy = 1;
  s->violated = 0;
  s->cls[0] = s->msg[0] = 0;
  pid_t pid = fork();
  if (pid == 0) {
    child_setup(s);
    quiet();
    if (tape) {
      std::vector<uint32_t> t = *tape;
      in_tape                 = &t;
      replaying               = true;
      one_run(index);
    } else {
      if (first != ~0ull)
        for (uint64_t i = first; i < index; i += step)
          one_run(i);
      one_run(index);
    }
    _exit(0);
  }
  int status = 0;
  waitpid(pid, &status, 0);
  if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0))
    describe_death(s, status);
  Candidate c;
  if (s->violated) {
    c.cls = s->cls;
    c.msg = s->msg;
  }
  c.tape.assign(s->tape, s->tape + s->ntape);
  c.hash  = s->hash;
  c.steps = s->run_steps;
  return c;
}

Candidate minimise(Slot* s, Candidate best, uint64_t index, double seconds, int* tried) {
  double      end = now() + seconds;
  std::string cls = best.cls;
  auto        ok  = [&](const std::vector<uint32_t>& t) {
    if (now() > end || *tried > 4000)
      return false;
    ++*tried;
    Candidate c = probe_run(s, &t, index);
    // trailing zeros are implied
    while (!c.tape.empty() && c.tape.back() == 0)
      c.tape.pop_back();
    if (c.cls == cls && (c.tape.size() < best.tape.size() ||
                         (c.tape.size() == best.tape.size() &&
                          std::lexicographical_compare(c.tape.begin(), c.tape.end(), best.tape.begin(), best.tape.end())))) {
      best = c;
      return true;
    }
    return false;
  };
  while (!best.tape.empty() && best.tape.back() == 0)
    best.tape.pop_back();
  bool progress = true;
  while (progress && now() < end) {
    progress = false;
    for (size_t chunk = std::max<size_t>(1, best.tape.size() / 2); chunk >= 1; chunk /= 2) {
      for (size_t i = 0; i + chunk <= best.tape.size() && now() < end;) { // delete
        auto t = best.tape;
        t.erase(t.begin() + static_cast<long>(i), t.begin() + static_cast<long>(i + chunk));
        if (ok(t))
          progress = true;
        else
          i += chunk;
      }
      for (size_t i = 0; i + chunk <= best.tape.size() && now() < end; i += chunk) { // zero
        auto t   = best.tape;
        bool any = false;
        for (size_t j = i; j < i + chunk; ++j) {
          any |= t[j] != 0;
          t[j] = 0;
        }
        if (any && ok(t))
          progress = true;
      }
    }
    for (size_t i = 0; i < best.tape.size() && now() < end; ++i) { // shrink values
      while (i < best.tape.size() && best.tape[i] > 0) {
        auto t = best.tape;
        t[i] /= 2;
        if (ok(t)) {
          progress = true;
          continue;
        }
        t = best.tape;
        t[i] -= 1;
        if (ok(t)) {
          progress = true;
          continue;
        }
        break;
      }
    }
  }
  return best;
}

std::string json_str(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += static_cast<char>(c);
    } else if (c == '\n') {
      o += "\\n";
    } else if (c < 32 || c > 126) {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += static_cast<char>(c);
    }
  }
  return o + "\"";
}

// reads "key": value (number, string or [numbers]) from our own flat replay files
std::string file_text(const char* path) {
  std::ifstream     f(path);
  std::stringstream ss;
  ss << f.rdbuf();
  return ss.str();
}
std::string jget(const std::string& s, const char* key) {
  std::string k = std::string("\"") + key + "\":";
  size_t      p = s.find(k);
  if (p == std::string::npos)
    return "";
  p += k.size();
  while (p < s.size() && s[p] == ' ')
    ++p;
  if (s[p] == '"')
    return s.substr(p + 1, s.find('"', p + 1) - p - 1);
  if (s[p] == '[')
    return s.substr(p + 1, s.find(']', p) - p - 1);
  size_t e = s.find_first_of(",}\n", p);
  return s.substr(p, e - p);
}

int replay_main(const char* path) {
  std::string s   = file_text(path);
  std::string cls = jget(s, "class");
  uint64_t    run = strtoull(jget(s, "run").c_str(), nullptr, 10);
  base_seed       = strtoull(jget(s, "seed").c_str(), nullptr, 10);
  std::string           pre = jget(s, "prefix");
  std::vector<uint32_t> tape;
  {
    std::stringstream ss(jget(s, "tape"));
    std::string       x;
    while (std::getline(ss, x, ','))
      if (x.find_first_of("0123456789") != std::string::npos)
        tape.push_back(static_cast<uint32_t>(strtoul(x.c_str(), nullptr, 10)));
  }
  Slot* sl = map_slot();
  int   fds[2];
  if (pipe(fds))
    return 2;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    close(fds[0]);
    child_setup(sl);
    std::string tb;
    trace_buf = &tb;
    if (pre.empty()) {
      in_tape   = &tape;
      replaying = true;
    } else {
      unsigned long long a, b;
      sscanf(pre.c_str(), "%llu,%llu", &a, &b);
      for (uint64_t i = a; i < run; i += b)
        one_run(i);
    }
    // the trace is written as the run goes, so that it survives a crash
    setvbuf(stdout, nullptr, _IONBF, 0);
    dup2(fds[1], 1);
    g_trace = true;
    one_run(run);
    _exit(0);
  }
  close(fds[1]);
  std::string out;
  char        buf[4096];
  for (ssize_t n; (n = read(fds[0], buf, sizeof buf)) > 0;)
    out.append(buf, static_cast<size_t>(n));
  int status;
  waitpid(pid, &status, 0);
  if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0))
    describe_death(sl, status);
  std::fwrite(out.data(), 1, out.size(), stdout);
  std::printf("REPLAY property=%s class=%s hash=%016llx expected=%s\n", prop_id, sl->violated ? sl->cls : "none",
              static_cast<unsigned long long>(sl->hash), cls.c_str());
  if (sl->violated)
    std::printf("MESSAGE %s\n", sl->msg);
  return sl->violated && cls == sl->cls ? 1 : 0;
}

} // namespace

// ------------------------------------------------------------------------------------------------ interface
uint32_t draw(uint32_t n) {
  uint32_t v;
  if (replaying) {
    v = in_pos < in_tape->size() ? (*in_tape)[in_pos] : 0;
    ++in_pos;
    v = n <= 1 ? 0 : v % n;
  } else {
    uint64_t z = splitmix(rng);
    v          = n <= 1 ? 0 : static_cast<uint32_t>((z >> 32) * n >> 32);
  }
  uint32_t k = slot->ntape;
  if (k >= TAPE_MAX) {
    fail("no-progress", "the run made more than %zu choices", TAPE_MAX);
    _exit(10);
  }
  slot->tape[k] = v;
  slot->ntape   = k + 1;
  return v;
}

void ev(uint64_t tag, uint64_t a, uint64_t b) { ehash = mix(mix(mix(ehash, tag ^ static_cast<uint64_t>(cur->id) << 56), a), b); }
bool tracing() { return g_trace; }

void trace(const char* fmt, ...) {
  if (!g_trace || trace_lines > 600)
    return;
  ++trace_lines;
  char    b[900];
  va_list ap;
  va_start(ap, fmt);
  int n = std::vsnprintf(b, sizeof b - 1, fmt, ap);
  va_end(ap);
  n      = std::min<int>(n, sizeof b - 2);
  b[n++] = '\n';
  (void)!write(1, b, static_cast<size_t>(n));
}

void probe(const char* name) {
  for (uint32_t i = 0; i < slot->nprobe; ++i)
    if (!std::strcmp(slot->probe[i].name, name)) {
      ++slot->probe[i].count;
      return;
    }
  if (slot->nprobe < PROBES) {
    Probe& p = slot->probe[slot->nprobe];
    std::snprintf(p.name, sizeof p.name, "%s", name);
    p.count = 1;
    ++slot->nprobe;
  }
}

void fail(const char* cls, const char* fmt, ...) {
  if (run_failed)
    return;
  run_failed = true;
  std::snprintf(slot->cls, sizeof slot->cls, "%s", cls);
  va_list ap;
  va_start(ap, fmt);
  std::vsnprintf(slot->msg, sizeof slot->msg, fmt, ap);
  va_end(ap);
  slot->hash     = ehash;
  slot->violated = 1;
  if (g_trace)
    trace("  ** VIOLATION [%s] %s", slot->cls, slot->msg);
}
bool failed() { return run_failed; }

void arm(Kind k, uint64_t nth) {
  cur->armed_kind = k;
  cur->armed_at   = cur->seams[k] + nth;
  cur->fired = cur->fired_null = false;
  ++slot->armed[k];
}
bool disarm() {
  cur->armed_kind = -1;
  return cur->fired;
}
bool     fired() { return cur->fired; }
bool     fired_null() { return cur->fired_null; }
uint64_t fault_id() { return 0x5150000000000000ull | static_cast<uint64_t>(cur->id) << 32 | (cur->armed_at & 0xffffffff); }
uint64_t seams(Kind k) { return cur->seams[k]; }

void seam(Kind k, bool may_throw) {
  maybe_yield();
  count_step();
  ++slot->seams[k];
  if (may_throw) {
    if (fault_now(k))
      throw SimFault{fault_id()};
  }
}

Sut::Sut() : old(sut) { sut = true; }
Sut::~Sut() { sut = old; }
Env::Env() : old(sut) { sut = false; }
Env::~Env() { sut = old; }

int64_t task_live() { return cur->live; }
int64_t total_live() { return live_total; }
bool    in_arena(const void* p) {
  return arena && p >= arena && p < arena + ARENA_SIZE;
}

Outcome classify() {
  Env     env;
  Outcome o;
  try {
    throw;
  } catch (const SimFault& f) {
    o.what = f.id == fault_id() ? W_INJECTED : W_OTHER;
  } catch (const SimBadAlloc& f) {
    o.what = f.id == fault_id() ? W_INJECTED : W_BAD_ALLOC;
  } catch (const std::bad_alloc& e) {
    o.what = W_BAD_ALLOC;
    o.msg  = e.what();
  } catch (const std::out_of_range& e) {
    o.what = W_OUT_OF_RANGE;
    o.msg  = e.what();
  } catch (const std::invalid_argument& e) {
    o.what = W_INVALID_ARGUMENT;
    o.msg  = e.what();
  } catch (const std::runtime_error& e) {
    o.what = W_RUNTIME;
    o.msg  = e.what();
  } catch (const std::exception& e) {
    o.what = W_STD;
    o.msg  = e.what();
  } catch (...) {
    o.what = W_OTHER;
  }
  return o;
}

void spawn(std::function<void()> body) {
  if (ntasks >= MAX_TASKS)
    return;
  Task& t = tasks[++ntasks];
  t.id    = ntasks;
  t.body  = std::move(body);
}

void yield() {
  if (!in_fiber || no_yield)
    return;
  switch_to_sched();
}

int      task_id() { return cur->id; }
uint64_t steps() { return nstep; }

void run_tasks() {
  // the scheduling style is one of the run's choices: from run-to-completion to a switch at every seam
  static const uint32_t styles[] = {1u << 30, 1, 3, 12, 60};
  budget_max                     = styles[draw(5)];
  for (int i = 1; i <= ntasks; ++i) {
    Task& t = tasks[i];
    if (t.started)
      continue;
    getcontext(&t.ctx);
    t.ctx.uc_stack.ss_sp   = get_stack(i);
    t.ctx.uc_stack.ss_size = STACK_SIZE;
    t.ctx.uc_link          = nullptr;
    makecontext(&t.ctx, reinterpret_cast<void (*)()>(fiber_main), 1, static_cast<unsigned>(i));
    t.started = true;
  }
  Task* main_task = cur;
  bool  main_sut  = sut;
  char  main_eh[16];
  std::memcpy(main_eh, __cxxabiv1::__cxa_get_globals(), 16);
  for (;;) {
    int runnable[MAX_TASKS], n = 0;
    for (int i = 1; i <= ntasks; ++i)
      if (!tasks[i].done)
        runnable[n++] = i;
    if (!n)
      break;
    if (run_failed && n && cur == main_task)
      break; // the verdict is known; unfinished fibers are abandoned with the run
    // a very long run stops switching, so that the choices it records stay bounded
    const bool plain = n == 1 || slot->ntape > TAPE_MAX / 2;
    int        pickd = plain ? runnable[0] : runnable[draw(static_cast<uint32_t>(n))];
    budget           = 1 + (plain || budget_max >= (1u << 30) ? (1 << 30) : static_cast<int64_t>(draw(budget_max)));
    cur       = &tasks[pickd];
    in_fiber  = true;
    ++slot->switches;
    ev(0x5C4E, static_cast<uint64_t>(pickd));
    sut = false;
    std::memcpy(__cxxabiv1::__cxa_get_globals(), cur->eh, 16);
    swapcontext(&sched_ctx, &cur->ctx);
    in_fiber = false;
    cur      = main_task;
  }
  std::memcpy(__cxxabiv1::__cxa_get_globals(), main_eh, 16);
  sut = main_sut;
}

Register::Register(const char* name, int weight, void (*fn)()) { scenarios().push_back({name, weight, fn}); }

} // namespace sim

// ------------------------------------------------------------------------------------------------ allocation seam
namespace {
// What the harness itself holds (what a run has read so far) is bounded too: code under test that never ends must not
// take the machine's memory. The bound is met at the same step in every replay.
void* env_alloc(size_t n, size_t align, bool nothrow) {
  if (sim::env_live - sim::env_base + static_cast<int64_t>(n) > sim::ENV_MAX && sim::slot && sim::slot->busy) {
    sim::fail("endless", "the run read or kept more than %lld MB of results", static_cast<long long>(sim::ENV_MAX >> 20));
    _exit(10);
  }
  void* p = align <= 16 ? std::malloc(n ? n : 1) : std::aligned_alloc(align, (n + align - 1) / align * align);
  if (!p && !nothrow)
    throw std::bad_alloc();
  if (p)
    sim::env_live += static_cast<int64_t>(malloc_usable_size(p));
  return p;
}
void any_free(void* p) noexcept {
  if (!p)
    return;
  if (sim::in_arena(p))
    sim::arena_free(p);
  else {
    sim::env_live -= static_cast<int64_t>(malloc_usable_size(p));
    std::free(p);
  }
}
void* any_alloc(size_t n, size_t align, bool nothrow) {
  return sim::sut ? sim::arena_alloc(n, align, nothrow) : env_alloc(n, align, nothrow);
}
} // namespace

void* operator new(size_t n) { return any_alloc(n, 16, false); }
void* operator new[](size_t n) { return any_alloc(n, 16, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return any_alloc(n, 16, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return any_alloc(n, 16, true); }
void* operator new(size_t n, std::align_val_t a) { return any_alloc(n, static_cast<size_t>(a), false); }
void* operator new[](size_t n, std::align_val_t a) { return any_alloc(n, static_cast<size_t>(a), false); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return any_alloc(n, static_cast<size_t>(a), true); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return any_alloc(n, static_cast<size_t>(a), true); }
void  operator delete(void* p) noexcept { any_free(p); }
void  operator delete[](void* p) noexcept { any_free(p); }
void  operator delete(void* p, size_t) noexcept { any_free(p); }
void  operator delete[](void* p, size_t) noexcept { any_free(p); }
void  operator delete(void* p, const std::nothrow_t&) noexcept { any_free(p); }
void  operator delete[](void* p, const std::nothrow_t&) noexcept { any_free(p); }
void  operator delete(void* p, std::align_val_t) noexcept { any_free(p); }
void  operator delete[](void* p, std::align_val_t) noexcept { any_free(p); }
void  operator delete(void* p, size_t, std::align_val_t) noexcept { any_free(p); }
void  operator delete[](void* p, size_t, std::align_val_t) noexcept { any_free(p); }

// A task switch inside the initialisation of a function-local static would deadlock: hold switches back there.
extern "C" {
int  __real___cxa_guard_acquire(__cxxabiv1::__guard*);
void __real___cxa_guard_release(__cxxabiv1::__guard*);
void __real___cxa_guard_abort(__cxxabiv1::__guard*);
int  __wrap___cxa_guard_acquire(__cxxabiv1::__guard* g) {
  int r = __real___cxa_guard_acquire(g);
  if (r)
    ++sim::no_yield;
  return r;
}
void __wrap___cxa_guard_release(__cxxabiv1::__guard* g) {
  --sim::no_yield;
  __real___cxa_guard_release(g);
}
void __wrap___cxa_guard_abort(__cxxabiv1::__guard* g) {
  --sim::no_yield;
  __real___cxa_guard_abort(g);
}
}

// ------------------------------------------------------------------------------------------------ the work clock
namespace sim {
Meter meter;
void  Meter::start(const char* name, uint64_t lim) {
  work  = 0;
  limit = lim;
  live = peak = 0;
  low         = ~uintptr_t(0);
  top         = reinterpret_cast<uintptr_t>(__builtin_frame_address(0));
  std::snprintf(cls, sizeof cls, "%s", name);
  on = true;
}
void Meter::stop() { on = false; }
} // namespace sim
namespace sim {
namespace {
void over_limit() {
  if (meter.work > meter.limit) {
    meter.on = false;
    sut      = false;
    fail(meter.cls, "the call did more than %llu units of work", static_cast<unsigned long long>(meter.limit));
    _exit(10);
  }
}
} // namespace
// The library moved, copied, filled or compared n bytes in one call (sim/bulk.cpp).
void bulk_work(size_t n) {
  if (!meter.on || !sut)
    return;
  meter.work += n / 16;
  over_limit();
}
} // namespace sim
extern "C" void __sanitizer_cov_trace_pc() {
  using namespace sim;
  if (!meter.on || !sut)
    return;
  auto fp = reinterpret_cast<uintptr_t>(__builtin_frame_address(0));
  if (fp < meter.low)
    meter.low = fp;
  ++meter.work;
  over_limit();
}

// ------------------------------------------------------------------------------------------------ orchestration
// usage: BIN search PROPERTY SEED RUNS SECONDS WORKERS OUT_JSON REPLAY_PATH [KNOWN_FILE]
//        BIN replay PROPERTY FILE
//        BIN hash PROPERTY SEED FIRST COUNT     (prints run hashes; used to prove determinism)
//        BIN trace PROPERTY SEED RUN            (prints what one run does)
int main(int argc, char** argv) {
  using namespace sim;
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_REEXEC")) {
    int old = personality(0xffffffff);
    if (old != -1 && personality(static_cast<unsigned long>(old) | ADDR_NO_RANDOMIZE) != -1) {
      setenv("SIM_NO_REEXEC", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  if (argc < 4)
    return 2;
  prop_id       = argv[2];
  only_scenario = getenv("SIM_SCENARIO");
  arena_init();
  for (int i = 1; i <= MAX_TASKS; ++i)
    get_stack(i);
  std::sort(scenarios().begin(), scenarios().end(),
            [](const Scenario& a, const Scenario& b) { return std::strcmp(a.name, b.name) < 0; });
  std::string mode = argv[1];
  if (mode == "replay")
    return replay_main(argv[3]);
  base_seed = strtoull(argv[3], nullptr, 10);
  if (mode == "hash") {
    uint64_t first = strtoull(argv[4], nullptr, 10), n = strtoull(argv[5], nullptr, 10);
    child_setup(map_slot());
    for (uint64_t i = first; i < first + n; ++i) {
      one_run(i);
      std::printf("%llu %016llx %llu %s\n", static_cast<unsigned long long>(i), static_cast<unsigned long long>(slot->hash),
                  static_cast<unsigned long long>(slot->run_steps), slot->violated ? slot->cls : "-");
    }
    return 0;
  }
  if (mode == "trace") { // prints what one run does
    child_setup(map_slot());
    setvbuf(stdout, nullptr, _IONBF, 0);
    g_trace = true;
    one_run(strtoull(argv[4], nullptr, 10));
    std::printf("%llu choices, %llu seam steps, hash %016llx, verdict %s\n", static_cast<unsigned long long>(slot->ntape),
                static_cast<unsigned long long>(slot->run_steps), static_cast<unsigned long long>(slot->hash),
                slot->violated ? slot->cls : "held");
    return 0;
  }
  if (mode != "search" || argc < 9)
    return 2;
  const uint64_t RUNS    = strtoull(argv[4], nullptr, 10);
  const double   SECONDS = atof(argv[5]);
  const int      W       = atoi(argv[6]);
  const char*    out     = argv[7];
  const char*    rpath   = argv[8];
  std::vector<std::string> known;
  if (argc > 9) {
    std::ifstream f(argv[9]);
    for (std::string l; std::getline(f, l);)
      if (!l.empty())
        known.push_back(l);
  }
  const double t0 = now();
  std::vector<Slot*> slots(static_cast<size_t>(W));
  std::vector<pid_t> pids(static_cast<size_t>(W), 0);
  std::vector<uint64_t> next(static_cast<size_t>(W));
  for (int w = 0; w < W; ++w) {
    slots[static_cast<size_t>(w)] = map_slot();
    next[static_cast<size_t>(w)]  = static_cast<uint64_t>(w);
  }
  fflush(nullptr);
  auto start = [&](size_t w) {
    pid_t pid = fork();
    if (pid == 0) {
      child_setup(slots[w]);
      quiet();
      slot->first_run = next[w];
      uint64_t i      = next[w];
      for (int k = 0; k < LIFE_RUNS && i < RUNS; ++k, i += static_cast<uint64_t>(W)) {
        if (now() - t0 > SECONDS)
          _exit(12);
        one_run(i);
        if (slot->violated)
          _exit(10);
      }
      slot->run = i;
      _exit(i < RUNS ? 11 : 12);
    }
    pids[w] = pid;
  };
  for (size_t w = 0; w < slots.size(); ++w)
    start(w);
  int       alive = W;
  Candidate viol;
  uint64_t  viol_run = 0, viol_first = 0;
  std::map<std::string, uint64_t> known_hits;
  bool timed_out = false;
  while (alive > 0) {
    int   status;
    pid_t pid = waitpid(-1, &status, 0);
    size_t w  = 0;
    while (w < pids.size() && pids[w] != pid)
      ++w;
    if (w == pids.size())
      continue;
    Slot* s = slots[w];
    if (WIFEXITED(status) && WEXITSTATUS(status) == 11) {
      next[w] = s->run;
      start(w);
      continue;
    }
    if (WIFEXITED(status) && WEXITSTATUS(status) == 12) {
      timed_out |= s->run + static_cast<uint64_t>(W) < RUNS;
      --alive;
      pids[w] = 0;
      continue;
    }
    describe_death(s, status);
    bool is_known = std::find(known.begin(), known.end(), std::string(s->cls)) != known.end();
    if (is_known) {
      ++known_hits[s->cls];
      next[w] = s->run + static_cast<uint64_t>(W);
      if (next[w] < RUNS) {
        start(w);
        continue;
      }
      --alive;
      pids[w] = 0;
      continue;
    }
    viol.cls  = s->cls;
    viol.msg  = s->msg;
    viol.hash = s->hash;
    viol.tape.assign(s->tape, s->tape + s->ntape);
    viol_run   = s->run;
    viol_first = s->first_run;
    pids[w]    = 0;
    for (pid_t p : pids)
      if (p > 0)
        kill(p, SIGKILL);
    for (pid_t p : pids)
      if (p > 0)
        waitpid(p, nullptr, 0);
    alive = 0;
  }
  const double t_search = now() - t0;

  // statistics
  auto sum = [&](auto f) {
    uint64_t n = 0;
    for (Slot* s : slots)
      n += f(s);
    return n;
  };
  std::vector<uint64_t> hs;
  for (Slot* s : slots)
    hs.insert(hs.end(), s->hashes, s->hashes + s->nhash);
  std::sort(hs.begin(), hs.end());
  uint64_t distinct = static_cast<uint64_t>(std::unique(hs.begin(), hs.end()) - hs.begin());
  std::map<std::string, uint64_t> probes, scen;
  for (Slot* s : slots) {
    for (uint32_t i = 0; i < s->nprobe; ++i)
      probes[s->probe[i].name] += s->probe[i].count;
    for (size_t i = 0; i < scenarios().size() && i < 64; ++i)
      scen[scenarios()[i].name] += s->scen[i];
  }

  int  exit_code = 0, tried = 0;
  bool prefix = false, reproduced = true;
  std::string trace_note;
  if (!viol.cls.empty()) {
    exit_code    = 1;
    Slot*     ms = map_slot();
    Candidate a  = probe_run(ms, nullptr, viol_run);
    if (a.cls == viol.cls) {
      Candidate b = probe_run(ms, &a.tape, viol_run);
      reproduced  = b.cls == a.cls && b.hash == a.hash;
      viol        = minimise(ms, b, viol_run, 20, &tried);
      Candidate c = probe_run(ms, &viol.tape, viol_run);
      Candidate d = probe_run(ms, &viol.tape, viol_run);
      reproduced  = reproduced && c.cls == viol.cls && c.hash == d.hash && d.cls == viol.cls;
      viol.msg    = c.msg;
      viol.hash   = c.hash;
    } else { // the violation needs state carried over from earlier runs of the same process
      Candidate b = probe_run(ms, nullptr, viol_run, viol_first, static_cast<uint64_t>(W));
      Candidate c = probe_run(ms, nullptr, viol_run, viol_first, static_cast<uint64_t>(W));
      prefix      = true;
      reproduced  = b.cls == viol.cls && c.cls == b.cls && b.hash == c.hash;
      uint64_t first = viol_first; // shortest suffix of the history that still fails
      for (uint64_t f = viol_run; reproduced && f > viol_first;) {
        f -= std::min<uint64_t>(f - viol_first, static_cast<uint64_t>(W) * std::max<uint64_t>(1, (viol_run - f) / static_cast<uint64_t>(W)));
        Candidate e = probe_run(ms, nullptr, viol_run, f, static_cast<uint64_t>(W));
        if (e.cls == viol.cls) {
          first = f;
          b     = e;
          break;
        }
      }
      viol_first = first;
      viol.msg   = b.msg;
      viol.hash  = b.hash;
    }
    std::ofstream r(rpath);
    r << "{\n \"property\": " << json_str(prop_id) << ",\n \"class\": " << json_str(viol.cls)
      << ",\n \"message\": " << json_str(viol.msg) << ",\n \"seed\": " << base_seed << ",\n \"run\": " << viol_run
      << ",\n \"hash\": \"" << std::hex << viol.hash << std::dec << "\",\n";
    if (prefix)
      r << " \"prefix\": [" << viol_first << "," << W << "],\n \"tape\": []\n}\n";
    else {
      r << " \"tape\": [";
      for (size_t i = 0; i < viol.tape.size(); ++i)
        r << (i ? "," : "") << viol.tape[i];
      r << "]\n}\n";
    }
  }
  std::ofstream o(out);
  o << "{\n \"property\": " << json_str(prop_id) << ", \"seed\": " << base_seed << ",\n \"runs\": " << sum([](Slot* s) { return s->runs; })
    << ", \"requested\": " << RUNS << ", \"time_capped\": " << (timed_out ? "true" : "false")
    << ",\n \"distinct_histories\": " << distinct << ", \"faulted_runs\": " << sum([](Slot* s) { return s->faulted_runs; })
    << ",\n \"seam_steps\": " << sum([](Slot* s) { return s->steps; }) << ", \"max_steps_per_run\": "
    << [&] { uint64_t m = 0; for (Slot* s : slots) m = std::max(m, s->max_steps); return m; }()
    << ", \"task_switches\": " << sum([](Slot* s) { return s->switches; }) << ", \"caller_tasks\": " << sum([](Slot* s) { return s->tasks; })
    << ", \"simulated_allocations\": " << sum([](Slot* s) { return s->allocs; }) << ",\n \"seconds\": " << t_search << ",\n \"faults_armed\": {";
  for (int k = 0; k < K_COUNT; ++k)
    o << (k ? ", " : "") << json_str(kind_name[k]) << ": " << sum([k](Slot* s) { return s->armed[k]; });
  o << "},\n \"faults_fired\": {";
  for (int k = 0; k < K_COUNT; ++k)
    o << (k ? ", " : "") << json_str(kind_name[k]) << ": " << sum([k](Slot* s) { return s->fired[k]; });
  o << "},\n \"scenarios\": {";
  bool c = false;
  for (auto& [k, v] : scen) {
    o << (c ? ", " : "") << json_str(k) << ": " << v;
    c = true;
  }
  o << "},\n \"probes\": {";
  c = false;
  for (auto& [k, v] : probes) {
    o << (c ? ", " : "") << json_str(k) << ": " << v;
    c = true;
  }
  o << "},\n \"known\": {";
  c = false;
  for (auto& [k, v] : known_hits) {
    o << (c ? ", " : "") << json_str(k) << ": " << v;
    c = true;
  }
  o << "},\n \"violation\": " << (viol.cls.empty() ? "null" : json_str(viol.cls)) << ", \"message\": " << json_str(viol.msg)
    << ", \"reproduced\": " << (reproduced ? "true" : "false") << ", \"hash\": \"" << std::hex << viol.hash << std::dec
    << "\", \"run\": " << viol_run << ", \"minimise_candidates\": " << tried << ", \"tape_length\": " << viol.tape.size() << "\n}\n";
  return exit_code;
}
