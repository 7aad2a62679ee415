#include "rt.h"

#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>
#include <new>
#include <omp.h>

extern "C" {
void *__libc_malloc(size_t);
void __libc_free(void *);
}

namespace sim {

// ---------------------------------------------------------------- tasks
const int MAXTASK = 64; // simultaneously existing tasks that race detection tells apart

typedef uint32_t Clk;
struct VC {
  Clk c[MAXTASK] = {};
  void join(const VC &o) {
    for (int i = 0; i < MAXTASK; i++)
      if (o.c[i] > c[i])
        c[i] = o.c[i];
  }
};

enum State { RUN, BLOCKED, DONE };

struct Team {
  int n = 1, nDone = 0, arrived = 0;
  uint64_t barGen = 0;
  VC barVC;
  int level = 1;
  struct Ws { // work sharing constructs, by the order in which they are met
    bool init = false;
    long next = 0, end = 0, incr = 1, chunk = 1;
    int kind = 0, entered = 0, finished = 0;
    bool taken = false;
    void *copy = nullptr;
    bool copyReady = false;
    long ordered = 0;
  };
  std::vector<std::unique_ptr<Ws>> ws;
  std::vector<struct Task *> tasks;
};

struct Task {
  int id = 0, slot = 0, lane = 0, tnum = 0;
  State st = RUN;
  const void *waitOn = nullptr;
  Team *team = nullptr;
  size_t wsIdx = 0;
  long staticNext = 0;
  pthread_t th{};
  sem_t sem, started;
  void (*fn)(void *) = nullptr;
  void *data = nullptr;
  std::function<void()> body;
  uintptr_t lo = 0, hi = 0; // own stack, up to the frame where it entered the region
  VC vc;
};

static bool g_active = false, g_track = false;
static Config g_cfg;
static Stats *g_st = nullptr;
static std::vector<Task *> g_tasks;
static Task *g_cur = nullptr;
static int g_nextId = 0;
static int g_internal = 0;
static uint64_t g_cnt = 0, g_next = ~0ull;
static size_t g_pos = 0;
static Rng g_rng(1);
static size_t g_regions = 0;
static int g_par = 0; // nesting depth of regions with more than one worker, over all lanes
static uint64_t g_slots = 0; // used race detection slots
static VC g_slotVC;          // final clock of each slot's previous owner

static __thread Task *t_self = nullptr;

static void set_next() {
  if (g_cfg.schedMode == 1) {
    if (g_st->switches >= (uint64_t)g_cfg.maxSwitches)
      g_next = ~0ull;
    else {
      double u = g_rng.uni();
      uint64_t k = 1 + (uint64_t)(-__builtin_log(1 - u) * g_cfg.gap);
      g_next = g_cnt + k;
    }
  } else if (g_cfg.schedMode == 2) {
    while (g_pos < g_cfg.list.size() && g_cfg.list[g_pos].first <= g_cnt)
      g_pos++;
    g_next = g_pos < g_cfg.list.size() ? g_cfg.list[g_pos].first : ~0ull;
  } else
    g_next = ~0ull;
}

static void record(int id) {
  g_st->switches++;
  if (g_st->nList < 20000) {
    g_st->list[g_st->nList].n = g_cnt;
    g_st->list[g_st->nList].t = id;
    g_st->nList++;
  }
}

static void update_track();

static void hand_over(Task *to) {
  Task *me = g_cur;
  if (to == me)
    return;
  g_cur = to;
  update_track();
  sem_post(&to->sem);
  if (me->st != DONE || me->fn == nullptr) {
    while (sem_wait(&me->sem) != 0) {
    }
  }
}

// the tasks that may run now; a caller thread and its workers exclude others
static int candidates(Task **out, int lane) {
  int n = 0;
  for (Task *t : g_tasks)
    if (t->st == RUN && (lane < 0 || t->lane == lane))
      out[n++] = t;
  return n;
}

static void choose(bool forced, int lane) {
  // the current task offers to be descheduled, or cannot go on
  Task *c[256];
  int n = candidates(c, lane);
  if (n == 0 && lane >= 0) {
    lane = -1;
    n = candidates(c, -1);
  }
  if (n == 0) {
    const char m[] = "deadlock: no runnable task\n";
    if (write(2, m, sizeof m - 1)) {
    }
    _exit(90);
  }
  Task *def = c[0];
  for (int i = 0; i < n; i++)
    if (c[i] == g_cur)
      def = g_cur;
  Task *to = def;
  if (g_cfg.schedMode == 1) {
    if (g_st->switches < (uint64_t)g_cfg.maxSwitches)
      to = c[g_rng.below(n)];
  } else if (g_cfg.schedMode == 2) {
    size_t p = g_pos;
    while (p < g_cfg.list.size() && g_cfg.list[p].first < g_cnt)
      p++;
    if (p < g_cfg.list.size() && g_cfg.list[p].first == g_cnt)
      for (int i = 0; i < n; i++)
        if (c[i]->id == g_cfg.list[p].second)
          to = c[i];
  }
  if (forced)
    g_st->forced++;
  if (to != def)
    record(to->id);
  set_next();
  hand_over(to);
}

static inline bool in_sim() { return g_active && t_self && t_self == g_cur && g_internal == 0; }

static inline void opportunity() {
  if (!g_par)
    return;
  g_cnt++;
  g_st->opportunities = g_cnt;
  if (g_cnt >= g_next)
    choose(false, t_self->lane);
}

static void block_on(const void *what) {
  g_cur->st = BLOCKED;
  g_cur->waitOn = what;
  g_st->blocked++;
  g_cnt++;
  choose(true, g_cur->lane);
}

static void wake(const void *what) {
  for (Task *t : g_tasks)
    if (t->st == BLOCKED && t->waitOn == what) {
      t->st = RUN;
      t->waitOn = nullptr;
    }
}

void lane_switch_point() {
  if (!g_active)
    return;
  int lanes = 0;
  for (Task *t : g_tasks)
    if (t->st == RUN && t->lane != g_cur->lane)
      lanes++;
  if (!lanes)
    return;
  g_cnt++;
  choose(false, -1);
}

int current_lane() { return g_cur ? g_cur->lane : 0; }

static int new_slot() {
  for (int i = 0; i < MAXTASK; i++)
    if (!(g_slots >> i & 1)) {
      g_slots |= 1ull << i;
      return i;
    }
  return MAXTASK - 1;
}

static void fill_stack_below(size_t n) {
  // overwrites the unused part of the stack with the poison pattern
  volatile char *p = (volatile char *)__builtin_alloca(n);
  uint64_t w;
  switch (g_cfg.poison) {
  case 1: w = 0x7ff8dead0000beefull; break;
  case 2: w = ~0ull; break;
  case 3: w = 0x4059000000000000ull; break; // 100.
  case 4: w = 0x7e37e43c8800759cull; break; // 1e300
  case 5: w = 0xbff199999999999aull; break; // -1.1
  default: w = 0;
  }
  for (size_t i = 0; i + 8 <= n; i += 8)
    *(volatile uint64_t *)(p + (i & ~7ull)) = w;
}

__attribute__((noinline)) void dirty_stack() { fill_stack_below(256 * 1024); }

static void *thread_main(void *p) {
  Task *t = (Task *)p;
  t_self = t;
  {
    pthread_attr_t a;
    void *sp;
    size_t sz;
    g_internal++; // only the creator waits meanwhile
    pthread_getattr_np(pthread_self(), &a);
    pthread_attr_getstack(&a, &sp, &sz);
    pthread_attr_destroy(&a);
    g_internal--;
    t->lo = (uintptr_t)sp;
    t->hi = (uintptr_t)sp + sz;
  }
  if (g_cfg.poison)
    fill_stack_below(128 * 1024);
  sem_post(&t->started);
  while (sem_wait(&t->sem) != 0) {
  }
  if (t->fn)
    t->fn(t->data);
  else
    t->body();
  g_internal++;
  t->st = DONE;
  if (t->team) {
    t->team->nDone++;
    t->team->barVC.join(t->vc);
    wake(t->team);
  } else
    wake(&g_tasks);
  g_internal--;
  g_cnt++;
  {
    Task *c[256];
    int n = candidates(c, t->lane);
    if (n == 0)
      n = candidates(c, -1);
    if (n == 0) {
      const char m[] = "deadlock: no runnable task\n";
      if (write(2, m, sizeof m - 1)) {
      }
      _exit(90);
    }
    Task *to = c[0];
    if (g_cfg.schedMode == 1 && g_st->switches < (uint64_t)g_cfg.maxSwitches)
      to = c[g_rng.below(n)];
    else if (g_cfg.schedMode == 2) {
      size_t q = g_pos;
      while (q < g_cfg.list.size() && g_cfg.list[q].first < g_cnt)
        q++;
      if (q < g_cfg.list.size() && g_cfg.list[q].first == g_cnt)
        for (int i = 0; i < n; i++)
          if (c[i]->id == g_cfg.list[q].second)
            to = c[i];
    }
    g_st->forced++;
    if (to != c[0])
      record(to->id);
    set_next();
    t_self = nullptr;
    g_cur = to;
    update_track();
    sem_post(&to->sem);
  }
  return nullptr;
}

static Task *spawn(int lane) {
  Task *t = new Task;
  t->id = g_nextId++;
  t->lane = lane;
  t->slot = new_slot();
  t->vc.c[t->slot] = g_slotVC.c[t->slot] + 1;
  sem_init(&t->sem, 0, 0);
  sem_init(&t->started, 0, 0);
  g_st->tasks++;
  return t;
}

static void start(Task *t) {
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setstacksize(&a, 2 << 20);
  if (pthread_create(&t->th, &a, thread_main, t) != 0) {
    const char m[] = "simulator: cannot create thread\n";
    if (write(2, m, sizeof m - 1)) {
    }
    _exit(91);
  }
  pthread_attr_destroy(&a);
  while (sem_wait(&t->started) != 0) {
  }
}

static void retire(Task *t) {
  pthread_join(t->th, nullptr);
  g_slotVC.c[t->slot] = t->vc.c[t->slot];
  g_slots &= ~(1ull << t->slot);
  for (size_t i = 0; i < g_tasks.size(); i++)
    if (g_tasks[i] == t) {
      g_tasks.erase(g_tasks.begin() + i);
      break;
    }
  sem_destroy(&t->sem);
  sem_destroy(&t->started);
  delete t;
}

static void shadow_reset();

static void parallel(void (*fn)(void *), void *data, int n) {
  Task *me = t_self;
  g_internal++;
  Team *team = new Team;
  Team *outer = me->team;
  size_t outerWs = me->wsIdx;
  int outerNum = me->tnum;
  uintptr_t outerHi = me->hi;
  team->n = n;
  team->level = outer ? outer->level + 1 : 1;
  me->team = team;
  me->tnum = 0;
  me->wsIdx = 0;
  // frames above this one may be shared with the workers
  me->hi = (uintptr_t)__builtin_frame_address(0);
  g_st->regions++;
  if ((uint64_t)n > g_st->maxTeam)
    g_st->maxTeam = n;
  std::vector<Task *> ts;
  if (n > 1) {
    if (g_par == 0)
      shadow_reset();
    for (int i = 1; i < n; i++) {
      Task *t = spawn(me->lane);
      t->tnum = i;
      t->team = team;
      t->fn = fn;
      t->data = data;
      Clk own = t->vc.c[t->slot];
      t->vc.join(me->vc);
      t->vc.c[t->slot] = own;
      start(t);
      ts.push_back(t);
      g_tasks.push_back(t);
    }
    me->vc.c[me->slot]++;
    g_par++;
  }
  g_internal--;
  update_track();
  if (n > 1) {
    g_cnt++;
    choose(true, me->lane);
  }
  fn(data);
  g_internal++;
  if (n > 1) {
    while (team->nDone < n - 1) {
      g_internal--;
      block_on(team);
      g_internal++;
    }
    me->vc.join(team->barVC);
    me->vc.c[me->slot]++;
    for (Task *t : ts)
      retire(t);
    g_par--;
  }
  me->team = outer;
  me->wsIdx = outerWs;
  me->tnum = outerNum;
  me->hi = outerHi;
  delete team;
  g_internal--;
  update_track();
}

static int team_size(int requested) {
  // active nested regions are off, as by default in OpenMP
  if (t_self->team && t_self->team->n > 1)
    return 1;
  if (requested > 0)
    return requested;
  int n = g_cfg.teams.empty() ? 1 : g_cfg.teams[g_regions % g_cfg.teams.size()];
  g_regions++;
  return n < 1 ? 1 : n;
}

static void barrier() {
  Team *team = t_self->team;
  if (!team || team->n == 1)
    return;
  opportunity();
  g_internal++;
  team->barVC.join(t_self->vc);
  team->arrived++;
  uint64_t gen = team->barGen;
  if (team->arrived == team->n) {
    team->arrived = 0;
    team->barGen++;
    for (Task *t : g_tasks)
      if (t->team == team) {
        t->vc.join(team->barVC);
        t->vc.c[t->slot]++;
      }
    wake(&team->barGen);
    g_internal--;
    opportunity();
    return;
  }
  g_internal--;
  while (team->barGen == gen)
    block_on(&team->barGen);
}

// ------------------------------------------------------------ synchronisation
struct SyncObj {
  const void *addr;
  bool held = false;
  Task *owner = nullptr;
  int depth = 0;
  VC vc;
};
static std::vector<SyncObj *> g_sync;
static SyncObj *sync_of(const void *a) {
  for (SyncObj *s : g_sync)
    if (s->addr == a)
      return s;
  SyncObj *s = new SyncObj;
  s->addr = a;
  g_sync.push_back(s);
  return s;
}
static void lock(const void *a, bool recursive = false) {
  if (!in_sim())
    return;
  opportunity();
  g_internal++;
  SyncObj *s = sync_of(a);
  g_internal--;
  if (recursive && s->held && s->owner == t_self) {
    s->depth++;
    return;
  }
  while (s->held)
    block_on(s);
  s->held = true;
  s->depth = 1;
  s->owner = t_self;
  t_self->vc.join(s->vc);
}
static bool trylock(const void *a) {
  if (!in_sim())
    return true;
  opportunity();
  g_internal++;
  SyncObj *s = sync_of(a);
  g_internal--;
  if (s->held)
    return false;
  s->held = true;
  s->depth = 1;
  s->owner = t_self;
  t_self->vc.join(s->vc);
  return true;
}
static void unlock(const void *a) {
  if (!in_sim())
    return;
  g_internal++;
  SyncObj *s = sync_of(a);
  if (--s->depth <= 0) {
    s->held = false;
    s->owner = nullptr;
    s->vc.join(t_self->vc);
    t_self->vc.c[t_self->slot]++;
    wake(s);
  }
  g_internal--;
  opportunity();
}
static void acq_rel(const void *a) {
  g_internal++;
  SyncObj *s = sync_of(a);
  t_self->vc.join(s->vc);
  s->vc.join(t_self->vc);
  t_self->vc.c[t_self->slot]++;
  g_internal--;
}

// ------------------------------------------------------------ race detection
struct Cell { // state of 8 bytes
  uint8_t wslot[8];
  Clk wclk[8];
  uint8_t rmask[MAXTASK / 4]; // up to 16 readers
  uint8_t rslot[16];
  Clk rclk[16];
  uint8_t nr;
  uint8_t wmask;
  uintptr_t wpc, rpc;
};
struct Page {
  uintptr_t key;
  uint64_t gen;
  Cell *cells;
};
static const size_t NPAGE = 1 << 16;
static Page *g_pages = nullptr;
static uint64_t g_gen = 1;
static char *g_arena = nullptr;
static size_t g_arenaUsed = 0, g_arenaSize = 0;

static void shadow_reset() { g_gen++; }

static void update_track() {
  g_track = g_active && g_cfg.race && g_par > 0;
}

static void *raw(size_t n) {
  n = (n + 63) & ~63ull;
  if (g_arenaUsed + n > g_arenaSize) {
    g_arenaSize = 64 << 20;
    if (n > g_arenaSize)
      g_arenaSize = n;
    g_arena = (char *)__libc_malloc(g_arenaSize);
    g_arenaUsed = 0;
  }
  void *r = g_arena + g_arenaUsed;
  g_arenaUsed += n;
  return r;
}

static Cell *cell(uintptr_t granule, bool create) {
  if (!g_pages) {
    if (!create)
      return nullptr;
    g_pages = (Page *)raw(NPAGE * sizeof(Page));
    memset((void *)g_pages, 0, NPAGE * sizeof(Page));
  }
  uintptr_t key = granule >> 9;
  size_t h = (key * 0x9E3779B97F4A7C15ull) >> 48;
  for (size_t i = 0; i < NPAGE; i++, h = (h + 1) & (NPAGE - 1)) {
    Page &p = g_pages[h];
    if (p.cells && p.key == key) {
      if (p.gen != g_gen) {
        if (!create)
          return nullptr;
        memset((void *)p.cells, 0, 512 * sizeof(Cell));
        p.gen = g_gen;
      }
      return p.cells + (granule & 511);
    }
    if (!p.cells) {
      if (!create)
        return nullptr;
      p.cells = (Cell *)raw(512 * sizeof(Cell));
      memset((void *)p.cells, 0, 512 * sizeof(Cell));
      p.key = key;
      p.gen = g_gen;
      return p.cells + (granule & 511);
    }
  }
  return nullptr;
}

static void race(uintptr_t addr, const char *what, uintptr_t pc1, uintptr_t pc2) {
  if (g_st->races++ == 0)
    snprintf(g_st->raceText, sizeof g_st->raceText, "%s pc=0x%lx other=0x%lx", what,
             (unsigned long)pc1, (unsigned long)pc2);
  (void)addr;
}

static void access1(uintptr_t g, uint8_t mask, bool w, uintptr_t pc) {
  Task *me = t_self;
  Cell *c = cell(g, true);
  if (!c)
    return;
  int s = me->slot;
  Clk k = me->vc.c[s];
  // against earlier writes
  if (c->wmask & mask)
    for (int b = 0; b < 8; b++)
      if (c->wmask & mask & (1 << b)) {
        int o = c->wslot[b];
        if (o != s && me->vc.c[o] < c->wclk[b]) {
          race(g << 3, w ? "write after write" : "read after write", pc, c->wpc);
          break;
        }
      }
  if (w) {
    for (int i = 0; i < c->nr; i++)
      if ((c->rmask[i] & mask) && c->rslot[i] != s && me->vc.c[c->rslot[i]] < c->rclk[i]) {
        race(g << 3, "write after read", pc, c->rpc);
        break;
      }
    for (int b = 0; b < 8; b++)
      if (mask & (1 << b)) {
        c->wslot[b] = s;
        c->wclk[b] = k;
      }
    c->wmask |= mask;
    c->wpc = pc;
  } else {
    int i;
    for (i = 0; i < c->nr; i++)
      if (c->rslot[i] == s) {
        if (c->rclk[i] != k) {
          c->rclk[i] = k;
          c->rmask[i] = 0; // of two reads by one task, the later counts
        }
        c->rmask[i] |= mask;
        break;
      }
    if (i == c->nr && c->nr < 16) {
      c->rslot[i] = s;
      c->rclk[i] = k;
      c->rmask[i] = mask;
      c->nr++;
    }
    c->rpc = pc;
  }
}

static inline void access(uintptr_t a, size_t n, bool w, uintptr_t pc) {
  if (!g_track || !in_sim())
    return;
  Task *me = t_self;
  if (a >= me->lo && a < me->hi)
    return; // private
  static bool busy = false;
  if (busy)
    return;
  busy = true;
  g_st->trackedAccesses++;
  while (n) {
    uintptr_t g = a >> 3;
    unsigned off = a & 7, len = 8 - off < n ? 8 - off : n;
    uint8_t mask = ((1u << len) - 1) << off;
    access1(g, mask, w, pc);
    a += len;
    n -= len;
  }
  busy = false;
  opportunity();
}

static void shadow_clear(uintptr_t a, size_t n) {
  if (!g_pages || !n)
    return;
  for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; g++) {
    Cell *c = cell(g, false);
    if (c)
      memset((void *)c, 0, sizeof *c);
  }
}

// ------------------------------------------------------------ allocator
struct Hdr {
  uint64_t magic;
  size_t size;
  void *base;
  Hdr *prev, *next;
  uint64_t pad;
};
static_assert(sizeof(Hdr) == 48, "");
static const uint64_t MAGIC = 0x51a7edA110c8ull, TAIL = 0x7a117a117a117a11ull;
static Hdr g_live = {0, 0, nullptr, &g_live, &g_live, 0};
static volatile int g_hlock = 0;
static void hl() {
  while (__sync_lock_test_and_set(&g_hlock, 1)) {
  }
}
static void hu() { __sync_lock_release(&g_hlock); }

static void fill(void *p, size_t n, uint64_t idx) {
  uint64_t w;
  switch (g_cfg.poison) {
  case 0:
    return;
  case 1: w = 0x7ff8dead0000beefull; break; // NaN
  case 2: w = ~0ull; break;
  case 3: w = 0x4059000000000000ull; break; // 100.
  case 4: w = 0x7e37e43c8800759cull; break; // 1e300
  case 5: w = 0xbff199999999999aull; break; // -1.1
  default: {
    Rng r(g_cfg.poisonSeed * 1000003 + idx);
    for (size_t i = 0; i < n; i += 8) {
      double d = r.in(-1e3, 1e3);
      memcpy((char *)p + i, &d, n - i < 8 ? n - i : 8);
    }
    g_st->poisoned++;
    return;
  }
  }
  for (size_t i = 0; i < n; i += 8)
    memcpy((char *)p + i, &w, n - i < 8 ? n - i : 8);
  g_st->poisoned++;
}

static void *alloc(size_t n, size_t align, bool zero) {
  bool s = in_sim();
  if (s) {
    opportunity();
    long idx = (long)g_st->allocs++;
    if (g_cfg.failAlloc >= 0 &&
        (idx == g_cfg.failAlloc || (g_cfg.failAll && idx > g_cfg.failAlloc))) {
      g_st->failedAllocs++;
      errno = ENOMEM;
      return nullptr;
    }
  }
  if (n > (1ull << 40)) {
    errno = ENOMEM;
    return nullptr;
  }
  if (align < 16)
    align = 16;
  char *base = (char *)__libc_malloc(n + align + sizeof(Hdr) + 16);
  if (!base)
    return nullptr;
  uintptr_t u = ((uintptr_t)base + sizeof(Hdr) + align - 1) / align * align;
  Hdr *h = (Hdr *)(u - sizeof(Hdr));
  h->magic = MAGIC;
  h->size = n;
  h->base = base;
  h->pad = s;
  if (s) {
    hl();
    h->next = g_live.next;
    h->prev = &g_live;
    g_live.next->prev = h;
    g_live.next = h;
    hu();
  } else
    h->prev = h->next = nullptr;
  memcpy((char *)u + n, &TAIL, 8);
  memcpy((char *)u + n + 8, &TAIL, 8);
  if (zero)
    memset((void *)u, 0, n);
  else if (s)
    fill((void *)u, n, g_st->allocs);
  if (g_track)
    shadow_clear(u, n);
  return (void *)u;
}

static bool intact(Hdr *h) {
  if (h->magic != MAGIC)
    return false;
  uint64_t a, b;
  char *p = (char *)(h + 1) + h->size;
  memcpy(&a, p, 8);
  memcpy(&b, p + 8, 8);
  return a == TAIL && b == TAIL;
}

static void heap_error(const char *m) {
  if (g_st && g_st->heapErrors++ == 0)
    snprintf(g_st->heapText, sizeof g_st->heapText, "%s", m);
}

static void dealloc(void *p) {
  if (!p)
    return;
  Hdr *h = (Hdr *)p - 1;
  if (in_sim())
    opportunity();
  if (h->magic != MAGIC) {
    if (g_active) {
      heap_error("free of a bad or corrupted block");
      return;
    }
    abort();
  }
  if (h->pad) {
    if (!intact(h))
      heap_error("write past the end of a heap block");
    if (h->next) {
      hl();
      h->prev->next = h->next;
      h->next->prev = h->prev;
      hu();
    }
    if (g_active && g_cfg.poison && h->size < (1 << 20))
      memset(p, 0xDB, h->size);
  }
  h->magic = 0;
  __libc_free(h->base);
}

bool check_heap() {
  bool ok = true;
  hl();
  for (Hdr *h = g_live.next; h != &g_live; h = h->next)
    if (!intact(h)) {
      ok = false;
      break;
    }
  hu();
  if (!ok)
    heap_error("write past the end of a live heap block");
  return ok;
}

// ------------------------------------------------------------ control
Internal::Internal() { g_internal++; }
Internal::~Internal() { g_internal--; }
External::External() : saved(g_internal) { g_internal = 0; }
External::~External() { g_internal = saved; }

static Task *g_main = nullptr;

void begin(const Config &c, Stats *st) {
  g_cfg = c;
  g_st = st;
  g_rng = Rng(c.schedSeed);
  g_main = new Task;
  g_main->id = g_nextId++;
  g_main->slot = new_slot();
  g_main->vc.c[g_main->slot] = 1;
  sem_init(&g_main->sem, 0, 0);
  {
    pthread_attr_t a;
    void *sp;
    size_t sz;
    pthread_getattr_np(pthread_self(), &a);
    pthread_attr_getstack(&a, &sp, &sz);
    pthread_attr_destroy(&a);
    g_main->lo = (uintptr_t)sp;
    g_main->hi = (uintptr_t)sp + sz;
  }
  g_tasks.reserve(512);
  g_sync.reserve(512);
  g_tasks.push_back(g_main);
  g_cur = g_main;
  t_self = g_main;
  set_next();
  g_active = true;
}

void set_fail(long at, bool all) {
  g_cfg.failAlloc = at;
  g_cfg.failAll = all;
}

void end() { g_active = false; g_track = false; }

void run_lanes(const std::vector<std::function<void()>> &bodies) {
  // caller threads of the simulated process; the main task only waits
  g_internal++;
  std::vector<Task *> ts;
  int lane = 1;
  for (auto &b : bodies) {
    Task *t = spawn(lane++);
    t->body = b;
    t->vc.join(g_main->vc);
    start(t);
    ts.push_back(t);
    g_tasks.push_back(t);
  }
  g_internal--;
  for (;;) {
    bool all = true;
    for (Task *t : ts)
      if (t->st != DONE)
        all = false;
    if (all)
      break;
    g_cur->st = BLOCKED;
    g_cur->waitOn = &g_tasks;
    g_cnt++;
    choose(true, -1);
  }
  g_internal++;
  for (Task *t : ts)
    retire(t);
  g_internal--;
}

} // namespace sim

using namespace sim;

// ---------------------------------------------------------------- C heap
extern "C" {
void *malloc(size_t n) { return alloc(n, 16, false); }
void free(void *p) { dealloc(p); }
void *calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) {
    errno = ENOMEM;
    return nullptr;
  }
  return alloc(n, 16, true);
}
void *realloc(void *p, size_t n) {
  if (!p)
    return alloc(n, 16, false);
  if (!n) {
    dealloc(p);
    return nullptr;
  }
  void *q = alloc(n, 16, false);
  if (!q)
    return nullptr;
  size_t o = ((Hdr *)p - 1)->size;
  memcpy(q, p, o < n ? o : n);
  dealloc(p);
  return q;
}
void *memalign(size_t a, size_t n) { return alloc(n, a, false); }
void *aligned_alloc(size_t a, size_t n) { return alloc(n, a, false); }
int posix_memalign(void **p, size_t a, size_t n) {
  void *q = alloc(n, a, false);
  if (!q)
    return ENOMEM;
  *p = q;
  return 0;
}
void *valloc(size_t n) { return alloc(n, 4096, false); }
size_t malloc_usable_size(void *p) { return p ? ((Hdr *)p - 1)->size : 0; }

// ---------------------------------------------------------------- libgomp
#define W(t) (t)
static Team *T() { return t_self ? t_self->team : nullptr; }

void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) {
  if (!in_sim()) {
    fn(data);
    return;
  }
  parallel(fn, data, team_size((int)n));
}
void GOMP_barrier(void) {
  if (in_sim())
    barrier();
}
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
bool GOMP_barrier_cancel(void) {
  GOMP_barrier();
  return false;
}

static int g_crit, g_atomic;
void GOMP_critical_start(void) { lock(&g_crit); }
void GOMP_critical_end(void) { unlock(&g_crit); }
void GOMP_critical_name_start(void **p) { lock(p); }
void GOMP_critical_name_end(void **p) { unlock(p); }
void GOMP_atomic_start(void) { lock(&g_atomic); }
void GOMP_atomic_end(void) { unlock(&g_atomic); }

static Team::Ws *enter_ws() {
  Team *t = T();
  g_internal++;
  while (t->ws.size() <= t_self->wsIdx)
    t->ws.push_back(std::make_unique<Team::Ws>());
  Team::Ws *w = t->ws[t_self->wsIdx++].get();
  g_internal--;
  opportunity();
  return w;
}
static Team::Ws *current_ws() { return T()->ws[t_self->wsIdx - 1].get(); }

// outside a region a work sharing construct has a single worker
static __thread long s_next, s_end, s_incr;

static bool next_chunk(long *b, long *e) {
  if (!T() || !in_sim()) {
    if (s_next == s_end)
      return false;
    *b = s_next;
    *e = s_end;
    s_next = s_end;
    return true;
  }
  opportunity();
  Team::Ws *w = current_ws();
  long left = w->incr > 0 ? (w->end - w->next + w->incr - 1) / w->incr
                          : (w->next - w->end - w->incr - 1) / -w->incr;
  if (left <= 0)
    return false;
  long c = w->chunk < 1 ? 1 : w->chunk;
  if (w->kind == 2) { // guided
    long g = (left + T()->n - 1) / T()->n;
    if (g > c)
      c = g;
  }
  if (c > left)
    c = left;
  *b = w->next;
  *e = w->next += c * w->incr;
  return true;
}
static bool loop_start(int kind, long b, long e, long incr, long chunk, long *ib, long *ie) {
  if (!T() || !in_sim()) {
    s_next = b;
    s_end = e;
    s_incr = incr;
    if ((incr > 0 && b >= e) || (incr < 0 && b <= e)) {
      s_next = s_end;
      return false;
    }
    return next_chunk(ib, ie);
  }
  Team::Ws *w = enter_ws();
  if (!w->init) {
    w->init = true;
    w->next = b;
    w->end = e;
    w->incr = incr;
    w->chunk = chunk;
    w->kind = kind;
    if (kind == 0 && chunk <= 0) { // static, whole ranges
      long n = incr > 0 ? (e - b + incr - 1) / incr : (b - e - incr - 1) / -incr;
      w->chunk = (n + T()->n - 1) / T()->n;
    }
  }
  return next_chunk(ib, ie);
}
#define LOOPS(name, KIND_)                                                            \
  bool GOMP_loop_##name##_start(long b, long e, long i, long c, long *ib, long *ie) { \
    return loop_start(KIND_, b, e, i, c, ib, ie);                                     \
  }                                                                                  \
  bool GOMP_loop_##name##_next(long *b, long *e) { return next_chunk(b, e); }        \
  void GOMP_parallel_loop_##name(void (*fn)(void *), void *data, unsigned n, long b, \
                                 long e, long i, long c, unsigned) {                 \
    struct A {                                                                       \
      void (*fn)(void *);                                                            \
      void *data;                                                                    \
      long b, e, i, c;                                                               \
    } a{fn, data, b, e, i, c};                                                       \
    GOMP_parallel(                                                                   \
        [](void *p) {                                                                \
          A *a = (A *)p;                                                             \
          if (T() && in_sim()) {                                                     \
            Team::Ws *w = enter_ws();                                                \
            if (!w->init) {                                                          \
              w->init = true;                                                        \
              w->next = a->b;                                                        \
              w->end = a->e;                                                         \
              w->incr = a->i;                                                        \
              w->chunk = a->c;                                                       \
              w->kind = KIND_;                                                       \
            }                                                                        \
          } else {                                                                   \
            s_next = a->b;                                                           \
            s_end = a->e;                                                            \
          }                                                                          \
          a->fn(a->data);                                                            \
        },                                                                           \
        &a, n, 0);                                                                   \
  }
LOOPS(static, 0)
LOOPS(dynamic, 1)
LOOPS(guided, 2)
LOOPS(nonmonotonic_dynamic, 1)
LOOPS(nonmonotonic_guided, 2)
bool GOMP_loop_runtime_start(long b, long e, long i, long *ib, long *ie) {
  return loop_start(1, b, e, i, 1, ib, ie);
}
bool GOMP_loop_runtime_next(long *b, long *e) { return next_chunk(b, e); }
bool GOMP_loop_nonmonotonic_runtime_start(long b, long e, long i, long *ib, long *ie) {
  return loop_start(1, b, e, i, 1, ib, ie);
}
bool GOMP_loop_nonmonotonic_runtime_next(long *b, long *e) { return next_chunk(b, e); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long b, long e, long i, long *ib, long *ie) {
  return loop_start(1, b, e, i, 1, ib, ie);
}
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *b, long *e) { return next_chunk(b, e); }

typedef unsigned long long ull;
static bool ull_start(int k, bool up, ull b, ull e, ull i, ull c, ull *ib, ull *ie) {
  (void)up;
  return loop_start(k, (long)b, (long)e, (long)i, (long)c, (long *)ib, (long *)ie);
}
#define ULL(name, KIND_)                                                               \
  bool GOMP_loop_ull_##name##_start(bool up, ull b, ull e, ull i, ull c, ull *ib,     \
                                    ull *ie) {                                        \
    return ull_start(KIND_, up, b, e, i, c, ib, ie);                                   \
  }                                                                                   \
  bool GOMP_loop_ull_##name##_next(ull *b, ull *e) {                                  \
    return next_chunk((long *)b, (long *)e);                                          \
  }
ULL(static, 0)
ULL(dynamic, 1)
ULL(guided, 2)
ULL(nonmonotonic_dynamic, 1)
ULL(nonmonotonic_guided, 2)

void GOMP_loop_end_nowait(void) {}
void GOMP_loop_end(void) { GOMP_barrier(); }
bool GOMP_loop_end_cancel(void) {
  GOMP_barrier();
  return false;
}

bool GOMP_single_start(void) {
  if (!T() || !in_sim())
    return true;
  Team::Ws *w = enter_ws();
  if (w->taken)
    return false;
  return w->taken = true;
}
void *GOMP_single_copy_start(void) {
  if (!T() || !in_sim())
    return nullptr;
  Team::Ws *w = enter_ws();
  if (!w->taken) {
    w->taken = true;
    return nullptr;
  }
  while (!w->copyReady)
    block_on(w);
  acq_rel(w);
  return w->copy;
}
void GOMP_single_copy_end(void *p) {
  if (!T() || !in_sim())
    return;
  Team::Ws *w = current_ws();
  w->copy = p;
  w->copyReady = true;
  acq_rel(w);
  wake(w);
}

unsigned GOMP_sections_next(void) {
  long b, e;
  return next_chunk(&b, &e) ? (unsigned)b : 0;
}
unsigned GOMP_sections_start(unsigned n) {
  long b, e;
  return loop_start(1, 1, (long)n + 1, 1, 1, &b, &e) ? (unsigned)b : 0;
}
void GOMP_sections_end(void) { GOMP_barrier(); }
void GOMP_sections_end_nowait(void) {}
void GOMP_parallel_sections(void (*fn)(void *), void *data, unsigned n, unsigned count,
                            unsigned) {
  GOMP_parallel_loop_dynamic(fn, data, n, 1, (long)count + 1, 1, 1, 0);
}
void GOMP_ordered_start(void) {}
void GOMP_ordered_end(void) {}

void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size,
               long align, bool if_clause, unsigned, void **, int) {
  (void)if_clause;
  if (cpy) {
    char *buf = (char *)__builtin_alloca(size + align);
    char *arg = (char *)(((uintptr_t)buf + align - 1) / align * align);
    cpy(arg, data);
    fn(arg);
  } else
    fn(data);
}
void GOMP_taskwait(void) {}
void GOMP_taskyield(void) {
  if (in_sim())
    opportunity();
}
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}

int omp_get_num_threads(void) { return T() ? T()->n : 1; }
int omp_get_thread_num(void) { return T() ? t_self->tnum : 0; }
int omp_get_max_threads(void) {
  if (!t_self || (T() && T()->n > 1) || g_cfg.teams.empty())
    return 1;
  return g_cfg.teams[g_regions % g_cfg.teams.size()];
}
int omp_get_num_procs(void) { return 8; }
int omp_in_parallel(void) { return T() && T()->n > 1; }
void omp_set_num_threads(int n) { g_cfg.teams.assign(1, n); }
void omp_set_dynamic(int) {}
int omp_get_dynamic(void) { return 0; }
void omp_set_nested(int) {}
int omp_get_nested(void) { return 0; }
int omp_get_level(void) { return T() ? T()->level : 0; }
int omp_get_active_level(void) { return omp_in_parallel(); }
int omp_get_thread_limit(void) { return 256; }
int omp_get_team_size(int) { return omp_get_num_threads(); }
int omp_get_ancestor_thread_num(int) { return omp_get_thread_num(); }
int omp_get_cancellation(void) { return 0; }
static double g_wtime = 0;
double omp_get_wtime(void) { return g_wtime += 1e-3; } // simulated clock
double omp_get_wtick(void) { return 1e-3; }
void omp_init_lock(omp_lock_t *) {}
void omp_destroy_lock(omp_lock_t *) {}
void omp_set_lock(omp_lock_t *l) { lock(l); }
void omp_unset_lock(omp_lock_t *l) { unlock(l); }
int omp_test_lock(omp_lock_t *l) { return trylock(l); }
void omp_init_nest_lock(omp_nest_lock_t *) {}
void omp_destroy_nest_lock(omp_nest_lock_t *) {}
void omp_set_nest_lock(omp_nest_lock_t *l) { lock(l, true); }
void omp_unset_nest_lock(omp_nest_lock_t *l) { unlock(l); }

// std::mutex and function-local statics
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  lock(m, true);
  return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { return trylock(m) ? 0 : EBUSY; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
  unlock(m);
  return 0;
}
int __wrap___cxa_guard_acquire(uint64_t *g) {
  if (__atomic_load_n((char *)g, __ATOMIC_ACQUIRE)) {
    if (in_sim() && g_par)
      acq_rel(g);
    return 0;
  }
  if (!in_sim()) {
    return 1;
  }
  while (((char *)g)[1])
    block_on(g);
  if (((char *)g)[0]) {
    acq_rel(g);
    return 0;
  }
  ((char *)g)[1] = 1;
  return 1;
}
void __wrap___cxa_guard_release(uint64_t *g) {
  ((char *)g)[1] = 0;
  __atomic_store_n((char *)g, 1, __ATOMIC_RELEASE);
  if (in_sim()) {
    acq_rel(g);
    wake(g);
  }
}
void __wrap___cxa_guard_abort(uint64_t *g) {
  ((char *)g)[1] = 0;
  if (in_sim())
    wake(g);
}

// ---------------------------------------------------------------- tsan ABI
#define PC ((uintptr_t)__builtin_return_address(0))
#define RW(n)                                                                     \
  void __tsan_read##n(void *a) { access((uintptr_t)a, n, false, PC); }            \
  void __tsan_write##n(void *a) { access((uintptr_t)a, n, true, PC); }            \
  void __tsan_unaligned_read##n(void *a) { access((uintptr_t)a, n, false, PC); }  \
  void __tsan_unaligned_write##n(void *a) { access((uintptr_t)a, n, true, PC); }  \
  void __tsan_volatile_read##n(void *a) { access((uintptr_t)a, n, false, PC); }   \
  void __tsan_volatile_write##n(void *a) { access((uintptr_t)a, n, true, PC); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
void __tsan_read_range(void *a, size_t n) { access((uintptr_t)a, n, false, PC); }
void __tsan_write_range(void *a, size_t n) { access((uintptr_t)a, n, true, PC); }
void __tsan_vptr_update(void **a, void *) { access((uintptr_t)a, 8, true, PC); }
void __tsan_vptr_read(void **a) { access((uintptr_t)a, 8, false, PC); }

#define ATOMIC(bits, T)                                                           \
  static inline void at##bits(volatile void *a) {                                 \
    if (in_sim() && g_par) {                                                      \
      opportunity();                                                              \
      acq_rel((const void *)a);                                                   \
    }                                                                             \
  }                                                                               \
  T __tsan_atomic##bits##_load(const volatile T *a, int) {                        \
    at##bits((volatile void *)a);                                                 \
    return *a;                                                                    \
  }                                                                               \
  void __tsan_atomic##bits##_store(volatile T *a, T v, int) {                     \
    at##bits(a);                                                                  \
    *a = v;                                                                       \
  }                                                                               \
  T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) {                     \
    at##bits(a);                                                                  \
    T o = *a;                                                                     \
    *a = v;                                                                       \
    return o;                                                                     \
  }                                                                               \
  T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) {                    \
    at##bits(a);                                                                  \
    T o = *a;                                                                     \
    *a = o + v;                                                                   \
    return o;                                                                     \
  }                                                                               \
  T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) {                    \
    at##bits(a);                                                                  \
    T o = *a;                                                                     \
    *a = o - v;                                                                   \
    return o;                                                                     \
  }                                                                               \
  T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) {                    \
    at##bits(a);                                                                  \
    T o = *a;                                                                     \
    *a = o & v;                                                                   \
    return o;                                                                     \
  }                                                                               \
  T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) {                     \
    at##bits(a);                                                                  \
    T o = *a;                                                                     \
    *a = o | v;                                                                   \
    return o;                                                                     \
  }                                                                               \
  T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) {                    \
    at##bits(a);                                                                  \
    T o = *a;                                                                     \
    *a = o ^ v;                                                                   \
    return o;                                                                     \
  }                                                                               \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) { \
    at##bits(a);                                                                  \
    T o = *a;                                                                     \
    if (o == c)                                                                   \
      *a = v;                                                                     \
    return o;                                                                     \
  }                                                                               \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { \
    at##bits(a);                                                                  \
    T o = *a;                                                                     \
    if (o == *c) {                                                                \
      *a = v;                                                                     \
      return 1;                                                                   \
    }                                                                             \
    *c = o;                                                                       \
    return 0;                                                                     \
  }                                                                               \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int x, int y) { \
    return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, x, y);          \
  }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// instrumented code copies through these
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) {
  if (g_track) {
    access((uintptr_t)s, n, false, PC);
    access((uintptr_t)d, n, true, PC);
  }
  return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n) {
  if (g_track) {
    access((uintptr_t)s, n, false, PC);
    access((uintptr_t)d, n, true, PC);
  }
  return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n) {
  if (g_track)
    access((uintptr_t)d, n, true, PC);
  return __real_memset(d, c, n);
}
}
