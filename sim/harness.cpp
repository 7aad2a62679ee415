// Simulation server: reads one case per line, runs the simulated executions the
// case asks for (each in a forked child that shares an arena with this process),
// and judges the property named by the case.
#include "problem.h"
#include "pybind11/pybind11.h"

#include "etc/globals.h"
#include "etc/grid.h"
#include "solvers/iterator.h"
#include "solvers/steppers.h"
#include "solvers/utils.h"
#include "system/eig.h"
#include "system/equations.h"

#include <cassert>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <memory>
#include <sys/personality.h>
#include <cstring>
#include <cxxabi.h>
#include <execinfo.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>

using sim::Config;
using sim::Internal;
using sim::Stats;

// ------------------------------------------------------------- shared arena
static char *g_base = nullptr;
static const size_t ARENA = 6ull << 30;
struct ArenaHead {
  size_t used;
};
static ArenaHead *head() { return (ArenaHead *)g_base; }
static size_t take(size_t n) {
  n = (n + 63) & ~63ull;
  size_t o = head()->used;
  if (o + n > ARENA) {
    fprintf(stderr, "arena exhausted\n");
    _exit(97);
  }
  head()->used = o + n;
  return o;
}
static double *at(size_t off) { return (double *)(g_base + off); }
static void arena_reset() {
  size_t u = head()->used;
  if (u > (32 << 20))
    madvise(g_base + 4096, (u + 4095) / 4096 * 4096, MADV_REMOVE);
  else if (u)
    memset(g_base, 0, u);
  head()->used = 4096;
}

// ------------------------------------------------------------- one execution
enum Outcome { NONE = 0, OK, BADALLOC, INTERRUPT, EXCEPTION, TERMINATE, ASSERT, RUNAWAY, DEADLOCK, HANG, SIGNAL };
static const char *OUTCOME[] = {"none", "ok", "bad_alloc", "interrupt", "exception", "terminate", "assert", "runaway", "deadlock", "hang", "signal"};

const int MAXP = 6000, MAXS = 3000;
struct Run { // what one simulation showed of itself
  int outcome;
  char what[240];
  uint32_t nprint, ntext;
  double prints[MAXP];
  uint32_t nstate; // grids at the second report of each step
  size_t state[MAXS];
  size_t size; // doubles per grid
  int histN;
  size_t hist[256], histSize[256];
  size_t fin; // the caller's grid in the end
  int inputsChanged, guardHit;
  uint32_t faultsFired;
  uint64_t extra[8];
};
struct Exec {
  Stats st;
  int started, finished, status, outcome;
  char what[240];
  int nrun;
  size_t runs[12];
};

static Exec *g_exec = nullptr; // in the child

static Run *new_run(Exec *e) {
  size_t o = take(sizeof(Run));
  e->runs[e->nrun++] = o;
  return (Run *)(g_base + o);
}
static Run *run_of(Exec *e, int k) { return k < e->nrun ? (Run *)(g_base + e->runs[k]) : nullptr; }
static size_t save(const double *p, size_t n) {
  size_t o = take(n * 8);
  memcpy(at(o), p, n * 8);
  return o;
}

// what to do at a report
struct Fault {
  enum K { THROW, SET, SCALE, SWAPLANE, STOP } kind;
  long print;
  long idx; // index in the grid
  double val;
};
struct Recorder {
  Run *r = nullptr;
  double *u = nullptr;
  size_t n = 0;
  std::vector<Fault> faults;
  bool lanes = false;
  uint32_t cap = MAXP - 2;
};
static Recorder *g_rec[16];

namespace sim {
static void report(double v, bool text) {
  int lane = current_lane();
  Recorder *rc = lane < 16 ? g_rec[lane] : nullptr;
  if (!rc)
    return;
  bool thr = false, sw = rc->lanes;
  {
    Internal z;
    Run *r = rc->r;
    if (text) {
      r->ntext++;
      return;
    }
    long k = r->nprint;
    if (r->nprint < MAXP)
      r->prints[r->nprint++] = v;
    if ((k & 1) && r->nstate < MAXS && rc->u)
      r->state[r->nstate++] = save(rc->u, rc->n);
    for (auto &f : rc->faults)
      if (f.print == k) {
        r->faultsFired++;
        switch (f.kind) {
        case Fault::THROW: thr = true; break;
        case Fault::SET: rc->u[f.idx] = f.val; break;
        case Fault::SCALE: rc->u[f.idx] *= f.val; break;
        default: break;
        }
      }
    if (r->nprint >= rc->cap) {
      g_exec->outcome = RUNAWAY;
      _exit(92);
    }
  }
  if (sw)
    lane_switch_point();
  if (thr)
    throw pybind11::error_already_set();
}
void console_event(double v) { report(v, false); }
void console_event(const std::string &s) {
  (void)s;
  report(0, true);
}
} // namespace sim

extern "C" void __assert_fail(const char *e, const char *file, unsigned line, const char *) noexcept {
  if (g_exec) {
    g_exec->outcome = ASSERT;
    const char *b = strrchr(file, '/');
    snprintf(g_exec->what, sizeof g_exec->what, "%s:%u %.180s", b ? b + 1 : file, line, e);
    _exit(94);
  }
  abort();
}

static void backtrace_to_stderr() { // for debugging
  Internal z;
  void *b[60];
  backtrace_symbols_fd(b, backtrace(b, 60), 2);
}
static void on_segv(int) {
  backtrace_to_stderr();
  signal(SIGSEGV, SIG_DFL);
}

static void on_terminate() {
  if (getenv("SIM_STDERR"))
    backtrace_to_stderr();
  if (g_exec) {
    g_exec->outcome = TERMINATE;
    const std::type_info *t = abi::__cxa_current_exception_type();
    snprintf(g_exec->what, sizeof g_exec->what, "%s", t ? t->name() : "no exception");
    _exit(93);
  }
  abort();
}

static double g_cpuLimit = 60;

struct Totals { // for the evidence
  uint64_t execs = 0, steps = 0, switches = 0, opportunities = 0, regions = 0, allocs = 0, poisoned = 0, tracked = 0, blocked = 0;
  double simtime = 0;
  std::map<std::string, uint64_t> faults, outcomes;
  std::vector<uint64_t> scheds, states;
  uint64_t hash = 1469598103934665603ull;
  void mix(const void *p, size_t n) {
    const unsigned char *b = (const unsigned char *)p;
    uint64_t h = hash;
    size_t i = 0;
    for (; i + 8 <= n; i += 8) {
      uint64_t w;
      memcpy(&w, b + i, 8);
      h = (h ^ w) * 0x9E3779B97F4A7C15ull;
      h ^= h >> 29;
    }
    for (; i < n; i++)
      h = (h ^ b[i]) * 1099511628211ull;
    hash = h;
  }
};
static Totals g_tot;

static uint64_t hash_of(const void *p, size_t n) {
  Totals t;
  t.mix(p, n);
  return t.hash;
}

static Exec *execute(const Config &cfg, const std::function<void(Exec *)> &body) {
  size_t off = take(sizeof(Exec));
  Exec *e = (Exec *)(g_base + off);
  fflush(stdout);
  pid_t pid = fork();
  if (pid < 0) {
    fprintf(stderr, "fork failed\n");
    _exit(96);
  }
  if (!pid) {
    g_exec = e;
    struct rlimit rl = {(rlim_t)g_cpuLimit, (rlim_t)g_cpuLimit + 2};
    setrlimit(RLIMIT_CPU, &rl);
    struct rlimit nc = {0, 0};
    setrlimit(RLIMIT_CORE, &nc);
    if (!getenv("SIM_STDERR"))
      if (!freopen("/dev/null", "w", stderr)) {
      }
    else
      signal(SIGSEGV, on_segv);
    std::set_terminate(on_terminate);
    e->started = 1;
    sim::begin(cfg, &e->st);
    if (cfg.poison)
      sim::dirty_stack();
    e->outcome = NONE;
    body(e);
    {
      Internal z;
      sim::check_heap();
    }
    sim::end();
    e->finished = 1;
    if (e->outcome == NONE)
      e->outcome = OK;
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  e->status = st;
  if (!e->finished) {
    if (WIFSIGNALED(st)) {
      int s = WTERMSIG(st);
      e->outcome = s == SIGXCPU || s == SIGKILL ? HANG : SIGNAL;
      snprintf(e->what, sizeof e->what, "signal %d", s);
    } else if (WEXITSTATUS(st) == 90)
      e->outcome = DEADLOCK;
    else if (WEXITSTATUS(st) >= 95 || WEXITSTATUS(st) == 91) {
      fprintf(stderr, "simulator error %d\n", WEXITSTATUS(st));
      _exit(98);
    } else if (e->outcome == NONE)
      e->outcome = SIGNAL;
  }
  // bookkeeping
  g_tot.execs++;
  g_tot.switches += e->st.switches;
  g_tot.opportunities += e->st.opportunities;
  g_tot.regions += e->st.regions;
  g_tot.allocs += e->st.allocs;
  g_tot.poisoned += e->st.poisoned;
  g_tot.tracked += e->st.trackedAccesses;
  g_tot.blocked += e->st.blocked;
  g_tot.outcomes[OUTCOME[e->outcome]]++;
  if (e->st.failedAllocs)
    g_tot.faults["allocation failure"] += e->st.failedAllocs;
  if (e->st.poisoned)
    g_tot.faults["recycled memory content"]++;
  if (e->st.nList) {
    g_tot.scheds.push_back(hash_of(e->st.list, e->st.nList * sizeof e->st.list[0]));
    g_tot.faults["worker preemption"] += e->st.switches;
  }
  g_tot.mix(&e->outcome, sizeof e->outcome);
  g_tot.mix(e->what, sizeof e->what);
  uint64_t k[4] = {e->st.races, e->st.heapErrors, e->st.switches, e->st.allocs};
  g_tot.mix(k, sizeof k);
  g_tot.mix(e->st.list, e->st.nList * sizeof e->st.list[0]);
  for (int i = 0; i < e->nrun; i++) {
    Run *r = run_of(e, i);
    g_tot.mix(r->prints, r->nprint * 8);
    for (uint32_t q = 1; q < r->nprint; q += 2)
      g_tot.simtime += r->prints[q];
    g_tot.steps += r->nprint / 2;
    if (r->size && r->fin) {
      g_tot.mix(at(r->fin), r->size * 8);
      g_tot.states.push_back(hash_of(at(r->fin), r->size * 8));
    }
    for (int s = 0; s < r->histN; s++)
      if (r->histSize[s])
        g_tot.mix(at(r->hist[s]), r->histSize[s] * 8);
    if (r->faultsFired)
      g_tot.faults["console fault"] += r->faultsFired;
  }
  return e;
}

// ------------------------------------------------------------- grids with guards
struct Guarded {
  static const int G = 64;
  Vec all;
  long n = 0;
  Guarded(const Vec &v) : n(v.size()) {
    all.resize(n + 2 * G);
    all.setConstant(-7.25e77);
    all.segment(G, n) = v;
  }
  double *p() { return all.data() + G; }
  bool ok() const {
    for (int i = 0; i < G; i++)
      if (all(i) != -7.25e77 || all(G + n + i) != -7.25e77)
        return false;
    return true;
  }
};

static bool same_bits(const double *a, const double *b, size_t n) { return memcmp(a, b, n * 8) == 0; }

template <class T> static bool same_copies(const T &a, const T &b) {
  T x(a), y(b); // without what happens to lie between the fields
  __builtin_clear_padding(&x);
  __builtin_clear_padding(&y);
  return memcmp((void *)&x, (void *)&y, sizeof(T)) == 0;
}
template <class T> static bool same_object(const T &a, const T &b) {
  // objects whose copies differ (pointers) are not compared
  return same_copies(a, b) || !same_copies(a, a);
}
static bool same_par(const std::vector<Par> &a, const std::vector<Par> &b) {
  if (a.size() != b.size())
    return false;
  for (size_t k = 0; k < a.size(); k++)
    if (!same_object(a[k], b[k]))
      return false;
  return true;
}

// ------------------------------------------------------------- the top-level run
struct RunOpts {
  std::vector<Fault> faults;
  bool lanes = false;
  int lane = 0;
  uint32_t cap = 0;
  const double *from = nullptr; // other initial grid
  double tf = -1;
  bool quiet = false; // not recorded
};

// Runs the solver on p; called in the child, in simulation mode
static void run_iterator(const Problem &p, Run *r, const RunOpts &o) {
  std::unique_ptr<Guarded> g;
  std::unique_ptr<Recorder> rc;
  std::vector<Par> MPs;
  iVec nX, bc;
  aVec dX;
  {
    Internal z;
    Vec u0 = p.u;
    if (o.from)
      memcpy(u0.data(), o.from, u0.size() * 8);
    g.reset(new Guarded(u0));
    rc.reset(new Recorder);
    rc->r = r;
    rc->u = g->p();
    rc->n = p.u.size();
    rc->faults = o.faults;
    rc->lanes = o.lanes;
    if (o.cap)
      rc->cap = o.cap;
    r->size = p.u.size();
    MPs = p.MPs;
    nX = p.nX;
    bc = p.bc;
    dX = p.dX;
    g_rec[o.lane] = rc.get();
  }
  double tf = o.tf >= 0 ? o.tf : p.tf;
  {
    typedef Eigen::Map<Vec> M;
    try {
      M um(g->p(), p.u.size());
      std::vector<Vec> h = iterator(um, tf, nX, dX, p.cfl, bc, p.split, p.half, p.stiff, p.flux, MPs, p.ctol);
      Internal z;
      r->histN = (int)std::min<size_t>(h.size(), 256);
      for (int k = 0; k < r->histN; k++) {
        r->histSize[k] = h[k].size();
        if (h[k].size())
          r->hist[k] = save(h[k].data(), h[k].size());
      }
      r->outcome = OK;
      h.clear();
    } catch (std::bad_alloc &) {
      Internal z;
      r->outcome = BADALLOC;
    } catch (pybind11::error_already_set &) {
      Internal z;
      r->outcome = INTERRUPT;
    } catch (std::exception &x) {
      Internal z;
      r->outcome = EXCEPTION;
      snprintf(r->what, sizeof r->what, "%s", x.what());
    } catch (const char *x) {
      Internal z;
      r->outcome = EXCEPTION;
      snprintf(r->what, sizeof r->what, "%s", x);
    } catch (...) {
      Internal z;
      r->outcome = EXCEPTION;
      snprintf(r->what, sizeof r->what, "unknown exception");
    }
  }
  {
    Internal z;
    r->fin = save(g->p(), p.u.size());
    if (!g->ok())
      r->guardHit = 1;
    if (!same_par(MPs, p.MPs) || (nX.array() != p.nX.array()).any() || (bc.array() != p.bc.array()).any() ||
        (dX != p.dX).any())
      r->inputsChanged = 1;
    g_rec[o.lane] = nullptr;
    g.reset();
    rc.reset();
    std::vector<Par>().swap(MPs);
    nX.resize(0);
    bc.resize(0);
    dX.resize(0);
  }
}

static Exec *exec_iter(const Problem &p, const Config &cfg, const RunOpts &o = RunOpts()) {
  return execute(cfg, [&](Exec *e) {
    Run *r;
    {
      Internal z;
      r = new_run(e);
    }
    run_iterator(p, r, o);
    e->outcome = r->outcome;
    Internal z;
    snprintf(e->what, sizeof e->what, "%s", r->what);
  });
}

// ------------------------------------------------------------- single steps
struct StepOpts {
  int steps = 1;
  double dt = 0;
  std::vector<char> mask; // of the cells, empty for all
  bool rawmask = false;   // mask is the extended one
  long poke = -1;         // element changed before the last step
  double pokeVal = 0;
  bool pokeScale = false;
};

// Advances p.u with the parallel stepper; grids after every step are recorded
static void run_steps(const Problem &p, Run *r, const StepOpts &o) {
  std::unique_ptr<Guarded> u, ub;
  std::vector<Par> MPs;
  iVec nX, bc;
  Vec dX;
  bVec mask, maskb, maskg;
  const int MG = 64;
  int nbx = 1;
  {
    Internal z;
    u.reset(new Guarded(p.u));
    MPs = p.MPs;
    nX = p.nX;
    bc = p.bc;
    dX = p.dX.matrix();
    for (int d = 0; d < p.ndim; d++)
      nbx *= nX(d) + 2;
    mask = bVec::Ones(p.ncell);
    if (!o.mask.empty() && !o.rawmask)
      for (int i = 0; i < p.ncell; i++)
        mask(i) = o.mask[i];
    maskg = bVec::Zero(nbx + 2 * MG);
    r->size = p.u.size();
  }
  int ext = 1;
  for (int d = 0; d < p.ndim; d++)
    ext *= nX(d) + 2 * N;
  {
    Internal z;
    Vec big(ext * V);
    big.setZero();
    ub.reset(new Guarded(big));
  }
  typedef Eigen::Map<Vec> M;
  M um(u->p(), p.u.size());
  M ubm(ub->p(), ext * V);
  Eigen::Map<bVec> mb(maskg.data() + MG, nbx);
  for (int s = 0; s < o.steps; s++) {
    if (s == o.steps - 1 && o.poke >= 0) {
      if (o.pokeScale)
        u->p()[o.poke] *= o.pokeVal;
      else
        u->p()[o.poke] = o.pokeVal;
    }
    boundaries(um, ubm, nX, bc);
    extend_mask(mask, mb, nX);
    Vec ubBefore;
    bVec mBefore;
    {
      Internal z;
      if (!o.mask.empty() && o.rawmask)
        for (int i = 0; i < nbx; i++)
          mb(i) = o.mask[i];
      ubBefore = Eigen::Map<Vec>(ub->p(), ext * V);
      mBefore = maskg;
    }
    try {
      if (p.split)
        split_stepper_para(um, ubm, nX, o.dt, dX, p.half, p.flux, MPs[0], mb);
      else
        ader_stepper_para(um, ubm, nX, o.dt, dX, p.stiff, p.flux, MPs[0], mb);
      r->outcome = OK;
    } catch (std::exception &x) {
      r->outcome = EXCEPTION;
      Internal z;
      snprintf(r->what, sizeof r->what, "%s", x.what());
      break;
    }
    Internal z;
    if (r->nstate < MAXS)
      r->state[r->nstate++] = save(u->p(), p.u.size());
    if (!same_bits(ubBefore.data(), ub->p(), ext * V))
      r->inputsChanged |= 1;
    if ((mBefore.array() != maskg.array()).any())
      r->inputsChanged |= 2;
    if (!same_par(MPs, p.MPs) || (nX.array() != p.nX.array()).any() || (dX.array() != p.dX).any())
      r->inputsChanged |= 4;
    if (!u->ok() || !ub->ok())
      r->guardHit = 1;
    ubBefore.resize(0);
    mBefore.resize(0);
  }
  Internal z;
  r->fin = save(u->p(), p.u.size());
  u.reset();
  ub.reset();
  std::vector<Par>().swap(MPs);
  nX.resize(0);
  bc.resize(0);
  dX.resize(0);
  mask.resize(0);
  maskb.resize(0);
  maskg.resize(0);
}

static Exec *exec_steps(const Problem &p, const Config &cfg, const StepOpts &o) {
  Exec *e = execute(cfg, [&](Exec *e) {
    Run *r;
    {
      Internal z;
      r = new_run(e);
    }
    run_steps(p, r, o);
    e->outcome = r->outcome;
    Internal z;
    snprintf(e->what, sizeof e->what, "%s", r->what);
  });
  Run *r = run_of(e, 0);
  if (r) {
    g_tot.steps += r->nstate;
    g_tot.simtime += r->nstate * o.dt;
  }
  return e;
}

// ------------------------------------------------------------- judgement
struct Verdict {
  bool fail = false, skip = false, nontrivial = false;
  std::string reason, cls;
  Exec *guilty = nullptr;
  std::map<std::string, double> nums;
  bool bad(const std::string &c, const char *fmt, ...) {
    if (fail)
      return false;
    fail = true;
    cls = c;
    char b[600];
    va_list a;
    va_start(a, fmt);
    vsnprintf(b, sizeof b, fmt, a);
    va_end(a);
    reason = b;
    return false;
  }
  void pass_over(const std::string &why) {
    skip = true;
    reason = why;
  }
  void most(const std::string &k, double v) {
    if (!nums.count(k) || !(v <= nums[k]))
      nums[k] = v;
  }
};

static Config config(const Case &c) {
  Config f;
  auto t = c.ints("teams");
  if (!t.empty())
    f.teams = t;
  f.schedMode = (int)c.i("sched", 0);
  f.schedSeed = c.i("sseed", 1);
  f.gap = c.d("gap", 50);
  f.maxSwitches = (int)c.i("maxsw", 2000);
  for (auto &x : c.list("list")) {
    size_t k = x.find(':');
    if (k != std::string::npos)
      f.list.emplace_back(strtoull(x.c_str(), nullptr, 10), atoi(x.c_str() + k + 1));
  }
  f.poison = (int)c.i("poison", 0);
  f.poisonSeed = c.i("pseed", 1);
  f.race = c.i("race", 0);
  return f;
}

static std::string cellname(const Problem &p, long k) {
  char b[80];
  long cell = k / V;
  if (p.ndim == 2)
    snprintf(b, sizeof b, "cell (%ld,%ld) component %ld", cell / p.ny, cell % p.ny, k % V);
  else
    snprintf(b, sizeof b, "cell %ld component %ld", cell, k % V);
  return b;
}
static std::string describe(const Exec *e) {
  std::string s = OUTCOME[e->outcome];
  if (e->what[0])
    s += std::string(" (") + e->what + ")";
  return s;
}

static bool differ(Verdict &v, const Problem &p, const double *a, const double *b, size_t n, const std::string &where,
                   const std::string &cls) {
  for (size_t k = 0; k < n; k++)
    if (memcmp(a + k, b + k, 8) != 0) {
      v.bad(cls, "%s differs at %s: %.17g instead of %.17g", where.c_str(), cellname(p, k).c_str(), b[k], a[k]);
      return true;
    }
  return false;
}

// bit-for-bit comparison of two runs
static void compare_runs(Verdict &v, const Problem &p, Exec *ea, Exec *eb, int ia, int ib, const std::string &cls) {
  Run *a = run_of(ea, ia), *b = run_of(eb, ib);
  if (!a || !b) {
    if (ea->outcome != eb->outcome)
      v.bad(cls, "ends with %s instead of %s", describe(eb).c_str(), describe(ea).c_str());
    return;
  }
  if (a->outcome != b->outcome) {
    v.bad(cls, "ends with %s instead of %s", OUTCOME[b->outcome], OUTCOME[a->outcome]);
    return;
  }
  for (uint32_t s = 0; s < std::min(a->nstate, b->nstate); s++)
    if (differ(v, p, at(a->state[s]), at(b->state[s]), a->size, "grid after step " + std::to_string(s + 1), cls))
      return;
  if (a->nprint != b->nprint || !same_bits(a->prints, b->prints, a->nprint)) {
    v.bad(cls, "progress reports differ (%u and %u)", a->nprint, b->nprint);
    return;
  }
  if (a->fin && b->fin && differ(v, p, at(a->fin), at(b->fin), a->size, "final grid", cls))
    return;
  if (a->histN != b->histN) {
    v.bad(cls, "history has %d slots instead of %d", b->histN, a->histN);
    return;
  }
  for (int k = 0; k < a->histN; k++) {
    if (a->histSize[k] != b->histSize[k]) {
      v.bad(cls, "history slot %d has %zu values instead of %zu", k, b->histSize[k], a->histSize[k]);
      return;
    }
    if (a->histSize[k] &&
        differ(v, p, at(a->hist[k]), at(b->hist[k]), a->histSize[k], "history slot " + std::to_string(k), cls))
      return;
  }
}

static bool finite_all(const double *a, size_t n) {
  for (size_t k = 0; k < n; k++)
    if (!std::isfinite(a[k]))
      return false;
  return true;
}

// the memory of a run is intact
static void check_memory(Verdict &v, Exec *e, const std::string &cls = "memory") {
  if (e->st.heapErrors)
    v.bad(cls, "heap corrupted: %s", e->st.heapText);
  for (int k = 0; k < e->nrun; k++)
    if (run_of(e, k)->guardHit)
      v.bad(cls, "values outside of the grid were written");
}

#include "props.h"

// ------------------------------------------------------------- server
static std::string esc(const std::string &s) {
  std::string r;
  for (char ch : s) {
    if (ch == '"' || ch == '\\')
      r += '\\';
    if ((unsigned char)ch >= 32)
      r += ch;
  }
  return r;
}

int main(int argc, char **argv) {
  // the same addresses in every process
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_RANDOM_ADDRESSES")) {
    personality(pers | ADDR_NO_RANDOMIZE);
    if (personality(0xffffffff) & ADDR_NO_RANDOMIZE)
      execv("/proc/self/exe", argv);
  }
  g_base = (char *)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (g_base == MAP_FAILED) {
    perror("mmap");
    return 2;
  }
  head()->used = 4096;
  char *line = nullptr;
  size_t cap = 0;
  while (getline(&line, &cap, stdin) > 0) {
    std::string in(line);
    Case c = Case::parse(in);
    arena_reset();
    g_tot = Totals();
    Verdict v;
    g_cpuLimit = c.d("cpu", 30);
    try {
      judge(c, v);
    } catch (std::exception &x) {
      printf("{\"id\":\"%s\",\"verdict\":\"error\",\"reason\":\"%s\"}\n", c.s("id").c_str(), esc(x.what()).c_str());
      fflush(stdout);
      continue;
    }
    if (v.fail && g_tot.outcomes[OUTCOME[HANG]])
      v.cls = "hang"; // may be no more than a costly run
    std::string o = "{\"id\":\"" + c.s("id") + "\",\"verdict\":\"" + (v.fail ? "fail" : v.skip ? "skip" : "ok") + "\"";
    o += ",\"reason\":\"" + esc(v.reason) + "\",\"cls\":\"" + esc(v.cls) + "\"";
    char b[400];
    snprintf(b, sizeof b,
             ",\"nontrivial\":%d,\"hash\":\"%016llx\",\"execs\":%llu,\"steps\":%llu,\"simtime\":%.17g,"
             "\"switches\":%llu,\"opps\":%llu,\"regions\":%llu,\"allocs\":%llu,\"tracked\":%llu,\"blocked\":%llu",
             v.nontrivial, (unsigned long long)g_tot.hash, (unsigned long long)g_tot.execs,
             (unsigned long long)g_tot.steps, std::isfinite(g_tot.simtime) ? g_tot.simtime : 0.,
             (unsigned long long)g_tot.switches, (unsigned long long)g_tot.opportunities,
             (unsigned long long)g_tot.regions, (unsigned long long)g_tot.allocs, (unsigned long long)g_tot.tracked,
             (unsigned long long)g_tot.blocked);
    o += b;
    o += ",\"faults\":{";
    bool first = true;
    for (auto &kv : g_tot.faults) {
      o += (first ? "\"" : ",\"") + kv.first + "\":" + std::to_string(kv.second);
      first = false;
    }
    o += "},\"outcomes\":{";
    first = true;
    for (auto &kv : g_tot.outcomes) {
      o += (first ? "\"" : ",\"") + kv.first + "\":" + std::to_string(kv.second);
      first = false;
    }
    o += "},\"nums\":{";
    first = true;
    for (auto &kv : v.nums) {
      snprintf(b, sizeof b, "%s\"%s\":%.6g", first ? "" : ",", kv.first.c_str(), std::isfinite(kv.second) ? kv.second : 1e300);
      o += b;
      first = false;
    }
    o += "},\"scheds\":[";
    first = true;
    for (size_t k = 0; k < g_tot.scheds.size() && k < 64; k++) {
      snprintf(b, sizeof b, "%s\"%016llx\"", first ? "" : ",", (unsigned long long)g_tot.scheds[k]);
      o += b;
      first = false;
    }
    o += "],\"states\":[";
    first = true;
    for (size_t k = 0; k < g_tot.states.size() && k < 64; k++) {
      snprintf(b, sizeof b, "%s\"%016llx\"", first ? "" : ",", (unsigned long long)g_tot.states[k]);
      o += b;
      first = false;
    }
    o += "]";
    if (v.fail && v.guilty) {
      o += ",\"list\":\"";
      for (uint32_t k = 0; k < v.guilty->st.nList && k < 4000; k++) {
        snprintf(b, sizeof b, "%s%llu:%d", k ? "," : "", (unsigned long long)v.guilty->st.list[k].n, v.guilty->st.list[k].t);
        o += b;
      }
      o += "\"";
    }
    o += "}";
    puts(o.c_str());
    fflush(stdout);
  }
  return 0;
}
