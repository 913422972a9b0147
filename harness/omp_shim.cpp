// A small OpenMP runtime (the libgomp entry points that compiled code calls) on
// plain pthreads, so that ThreadSanitizer understands every synchronisation and
// the harness decides team sizes and schedules.
#include <pthread.h>
#include <sched.h>
#include <unistd.h>

#include <atomic>
#include <cstdint>
#include <cstdlib>
#include <map>
#include <string>
#include <vector>

#include "omp_shim.hpp"

namespace vfomp {
Config cfg;
Seen   seen;

static uint64_t mix(uint64_t x) {
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}

struct Team {
  int             n     = 1;
  int             level = 0;
  pthread_mutex_t mu    = PTHREAD_MUTEX_INITIALIZER;
  pthread_cond_t  cv    = PTHREAD_COND_INITIALIZER;
  int             arrived = 0;
  long            epoch   = 0;
  // one thread at a time, in a chosen order
  bool             serial = false;
  int              token  = -1;
  std::vector<int> state;  // 0 runnable, 1 at the barrier, 2 finished
  uint64_t         rng = 0;
  // work sharing
  std::vector<long> wcount;
  struct Loop {
    long next, end, incr, chunk;
    bool init = false;
  };
  std::map<long, Loop> loops;
  long                 singles = 0;
  std::map<long, int>  sections;
  void (*fn)(void *) = nullptr;
  void *data         = nullptr;

  void pick() {  // (mu held) hands the token to some runnable thread
    std::vector<int> c;
    for (int i = 0; i < n; ++i)
      if (state[i] == 0) c.push_back(i);
    if (c.empty()) {
      token = -1;
      return;
    }
    rng   = mix(rng);
    token = c[rng % c.size()];
    seen.order.fetch_add(mix(rng ^ (uint64_t)(token + 1)), std::memory_order_relaxed);
    pthread_cond_broadcast(&cv);
  }
  void acquire(int id) {
    pthread_mutex_lock(&mu);
    while (token != id) pthread_cond_wait(&cv, &mu);
    pthread_mutex_unlock(&mu);
  }
  void barrier(int id) {
    pthread_mutex_lock(&mu);
    const long e = epoch;
    if (serial) state[id] = 1;
    if (++arrived == n) {
      arrived = 0;
      ++epoch;
      if (serial)
        for (int i = 0; i < n; ++i)
          if (state[i] == 1) state[i] = 0;
      pthread_cond_broadcast(&cv);
    }
    if (serial) pick();
    while (epoch == e) pthread_cond_wait(&cv, &mu);
    if (serial)
      while (token != id) pthread_cond_wait(&cv, &mu);
    pthread_mutex_unlock(&mu);
  }
  void finish(int id) {
    if (!serial) return;
    pthread_mutex_lock(&mu);
    state[id] = 2;
    pick();
    pthread_mutex_unlock(&mu);
  }
};

static thread_local Team *team = nullptr;
static thread_local int   tid  = 0;
static thread_local long  works = 0;
static thread_local uint64_t delay_rng = 0;

static void delay() {
  if (!cfg.delays) return;
  delay_rng = mix(delay_rng ^ 0x55);
  switch (delay_rng % 4) {
    case 0:
      break;
    case 1:
      sched_yield();
      break;
    case 2:
      usleep((delay_rng >> 8) % (unsigned)cfg.delays);
      break;
    default: {
      volatile long k = 0;
      for (long i = (delay_rng >> 8) % 2000; i > 0; --i) k = k + i;
    }
  }
}
struct Arg {
  Team *   t;
  int      id;
  uint64_t seed;
};
static void work(const Arg &a) {
  Team *      old = team;
  const int   oid = tid;
  const long  ow  = works;
  team            = a.t;
  tid             = a.id;
  works           = 0;
  delay_rng       = a.seed;
  if (team->serial)
    team->acquire(tid);
  else
    delay();
  team->fn(team->data);
  team->finish(tid);
  team  = old;
  tid   = oid;
  works = ow;
}
static void *entry(void *p) {
  work(*(Arg *)p);
  return nullptr;
}
static std::atomic<uint64_t> regions{0};

template <class Prep>
void run(void (*fn)(void *), void *data, unsigned req, Prep prep) {
  const uint64_t k = regions.fetch_add(1, std::memory_order_relaxed);
  uint64_t       r = mix(cfg.seed ^ (k * 0x1234567));
  int            n = req ? (int)req : cfg.max_threads;
  seen.regions.fetch_add(1, std::memory_order_relaxed);
  if (team && !cfg.nested) n = 1;
  if (n > 1 && cfg.smaller == 1) n = 1 + (int)(r % (uint64_t)n);  // dynamic adjustment
  if (cfg.limit && n > cfg.limit) n = cfg.limit;
  if (n < (int)req) seen.smaller.fetch_add(1, std::memory_order_relaxed);
  if (n > 1) seen.parallel.fetch_add(1, std::memory_order_relaxed);
  Team t;
  t.n      = n;
  t.level  = team ? team->level + 1 : 1;
  t.fn     = fn;
  t.data   = data;
  t.serial = cfg.serial && !team && n > 1;
  t.state.assign(n, 0);
  t.wcount.assign(n, 0);
  t.rng = mix(r);
  prep(t);
  if (t.serial) {
    pthread_mutex_lock(&t.mu);
    t.pick();
    pthread_mutex_unlock(&t.mu);
  }
  std::vector<Arg>       args(n);
  std::vector<pthread_t> th(n);
  for (int i = 0; i < n; ++i) args[i] = Arg{&t, i, mix(r + (uint64_t)i * 77)};
  for (int i = 1; i < n; ++i)
    if (pthread_create(&th[i], nullptr, entry, &args[i])) abort();
  work(args[0]);
  for (int i = 1; i < n; ++i) pthread_join(th[i], nullptr);
}
static pthread_mutex_t big = PTHREAD_MUTEX_INITIALIZER;
static pthread_mutex_t atom = PTHREAD_MUTEX_INITIALIZER;
static std::map<void **, pthread_mutex_t *> names;
static pthread_mutex_t                      names_mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_mutex_t *                    named(void **p) {
  pthread_mutex_lock(&names_mu);
  pthread_mutex_t *&m = names[p];
  if (!m) {
    m = new pthread_mutex_t;
    pthread_mutex_init(m, nullptr);
  }
  pthread_mutex_t *r = m;
  pthread_mutex_unlock(&names_mu);
  return r;
}
static bool loop_next(Team::Loop &l, long *b, long *e) {
  if ((l.incr > 0 && l.next >= l.end) || (l.incr < 0 && l.next <= l.end)) return false;
  *b     = l.next;
  l.next = l.next + l.incr * l.chunk;
  if ((l.incr > 0 && l.next > l.end) || (l.incr < 0 && l.next < l.end)) l.next = l.end;
  *e = l.next;
  return true;
}
static Team solo;
static Team *cur() { return team ? team : &solo; }
static bool  loop_start(long b, long e, long incr, long chunk, long *ib, long *ie) {
  Team *     t = cur();
  const long w = works++;
  pthread_mutex_lock(&t->mu);
  Team::Loop &l = t->loops[w];
  if (!l.init || !team) l = Team::Loop{b, e, incr, chunk > 0 ? chunk : 1, true};
  const bool ok = loop_next(l, ib, ie);
  pthread_mutex_unlock(&t->mu);
  return ok;
}
static bool loop_more(long *ib, long *ie) {
  Team *t = cur();
  pthread_mutex_lock(&t->mu);
  const bool ok = loop_next(t->loops[works - 1], ib, ie);
  pthread_mutex_unlock(&t->mu);
  return ok;
}
}  // namespace vfomp

using namespace vfomp;
extern "C" {
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) {
  run(fn, data, n, [](Team &) {});
}
void GOMP_parallel_sections(void (*fn)(void *), void *data, unsigned n, unsigned count, unsigned) {
  run(fn, data, n, [&](Team &t) { t.sections[-1] = (int)(count << 16 | count); });
}
void GOMP_barrier() {
  if (!team || team->n == 1) return;
  seen.barriers.fetch_add(1, std::memory_order_relaxed);
  if (!team->serial) delay();
  team->barrier(tid);
  if (!team->serial) delay();
}
void GOMP_critical_start() { pthread_mutex_lock(&big); }
void GOMP_critical_end() { pthread_mutex_unlock(&big); }
void GOMP_critical_name_start(void **p) { pthread_mutex_lock(named(p)); }
void GOMP_critical_name_end(void **p) { pthread_mutex_unlock(named(p)); }
void GOMP_atomic_start() { pthread_mutex_lock(&atom); }
void GOMP_atomic_end() { pthread_mutex_unlock(&atom); }
bool GOMP_single_start() {
  if (!team) return true;
  const long w = works++;
  pthread_mutex_lock(&team->mu);
  const bool mine = team->singles <= w;
  if (mine) team->singles = w + 1;
  pthread_mutex_unlock(&team->mu);
  return mine;
}
#define VF_LOOP(kind)                                                                            \
  bool GOMP_loop_##kind##_start(long b, long e, long i, long c, long *ib, long *ie) {            \
    return loop_start(b, e, i, c, ib, ie);                                                       \
  }                                                                                              \
  bool GOMP_loop_##kind##_next(long *ib, long *ie) { return loop_more(ib, ie); }                 \
  void GOMP_parallel_loop_##kind(void (*fn)(void *), void *data, unsigned n, long b, long e, long i, long c, unsigned) { \
    run(fn, data, n, [&](Team &t) { t.loops[-1] = Team::Loop{b, e, i, c > 0 ? c : 1, true}; });   \
  }
VF_LOOP(static)
VF_LOOP(dynamic)
VF_LOOP(guided)
VF_LOOP(nonmonotonic_dynamic)
VF_LOOP(nonmonotonic_guided)
bool GOMP_loop_runtime_start(long b, long e, long i, long *ib, long *ie) { return loop_start(b, e, i, 1, ib, ie); }
bool GOMP_loop_runtime_next(long *ib, long *ie) { return loop_more(ib, ie); }
void GOMP_loop_end() { GOMP_barrier(); }
void GOMP_loop_end_nowait() {}
unsigned GOMP_sections_next() {
  Team *t = cur();
  pthread_mutex_lock(&t->mu);
  int &          left = t->sections[works - 1];
  const unsigned r    = left & 0xffff ? (unsigned)((left >> 16) - (left & 0xffff) + 1) : 0;
  if (left & 0xffff) --left;
  pthread_mutex_unlock(&t->mu);
  return r;
}
unsigned GOMP_sections_start(unsigned n) {
  Team *     t = cur();
  const long w = works++;
  pthread_mutex_lock(&t->mu);
  if (!t->sections.count(w) || !team) t->sections[w] = (int)(n << 16 | n);
  pthread_mutex_unlock(&t->mu);
  return GOMP_sections_next();
}
void GOMP_sections_end() { GOMP_barrier(); }
void GOMP_sections_end_nowait() {}

int  omp_get_thread_num() { return tid; }
int  omp_get_num_threads() { return team ? team->n : 1; }
int  omp_get_max_threads() { return cfg.max_threads; }
int  omp_get_num_procs() { return 8; }
int  omp_in_parallel() { return team && team->n > 1; }
int  omp_get_level() { return team ? team->level : 0; }
int  omp_get_active_level() { return team ? team->level : 0; }
int  omp_get_thread_limit() { return cfg.limit ? cfg.limit : 1 << 20; }
void omp_set_num_threads(int n) { cfg.max_threads = n; }
void omp_set_dynamic(int) {}
int  omp_get_dynamic() { return cfg.smaller; }
void omp_set_nested(int) {}
int  omp_get_nested() { return cfg.nested; }
void omp_set_max_active_levels(int) {}
double omp_get_wtime() { return 0; }
}
