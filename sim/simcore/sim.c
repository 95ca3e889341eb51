// simcore: deterministic in-process simulation of the operating system boundary.
//
// Linked as an object file into a harness binary, this file defines the libc entry points
// through which Rust's std, tokio, mio, crossbeam, ignore, ... reach the kernel. While a
// simulation is active:
//  * real threads exist, but exactly one runs at a time (the "baton"); every intercepted call
//    (and a fraction of heap allocations) is a schedule point at which a seeded PRNG, or a
//    recorded decision list, picks who runs next;
//  * futex / join / sleep / epoll / stdin block inside the simulator; the clock is virtual and
//    jumps to the next deadline when everybody is blocked;
//  * directory order, randomness, CPU count and the clock are functions of the seed;
//  * file operations are confined to one scratch root, logged, and subject to injected
//    faults (errno, short transfer, crash before/after).
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <execinfo.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <malloc.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#include "sim.h"

// ---------------------------------------------------------------- raw system calls
static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return ret;
}
#define raw(n, ...) RAWX(n, ##__VA_ARGS__, 0, 0, 0, 0, 0, 0)
#define RAWX(n, a, b, c, d, e, f, ...) raw6(n, (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))
static inline long ret_errno(long r) {
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

// ---------------------------------------------------------------- state
enum { FREE_, RUNNABLE, BLK_FUTEX, BLK_SLEEP, BLK_EPOLL, BLK_JOIN, BLK_CHAN, DONE_ };
typedef struct {
  int state;
  uint32_t go;          // real futex word for the baton
  const void *addr;     // futex address / channel
  uint64_t deadline;    // virtual ns, 0 = none
  int timed_out;
  int join_target;
  pthread_t handle;
  uint32_t prio;
  uint64_t stall_until; // not scheduled before this step unless alone
  int epfd;
} thr_t;

#define MAXT 128
static thr_t T[MAXT];
static int nthreads;
static volatile int active;
static __thread int my_id = -1;
static __thread int in_sim;
static __thread int bypassed;
static char bad_path[512];
static int bad_errno;
static sim_cfg_t *C;
static sim_shared_t *S;
static uint64_t rng_sched, rng_misc, rng_alloc;
static int child; // in the forked child: no randomness from outside, even before the simulation starts
void sim_child(void) { child = 1; rng_misc = 1; }
static uint64_t now_ns;     // monotonic
static int64_t wall_off;    // realtime offset
static uint64_t step, points;
static uint32_t replay_pos;
static pthread_key_t exit_key;
static int exit_key_ok;

static uint64_t splitmix(uint64_t *s) {
  uint64_t z = (*s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static uint32_t rnd(uint64_t *s, uint32_t n) { return n ? (uint32_t)(splitmix(s) % n) : 0; }
static void hash_mix(uint64_t v) {
  S->trace_hash ^= v + 0x9E3779B97F4A7C15ull + (S->trace_hash << 6) + (S->trace_hash >> 2);
  S->trace_hash *= 0xff51afd7ed558ccdull;
}

static void die(int outcome, int code) __attribute__((noreturn));
static void die(int outcome, int code) {
  S->outcome = outcome;
  S->exit_code = code;
  S->steps = step;
  S->sim_ns = now_ns - C->start_ns;
  S->threads = nthreads;
  raw(SYS_exit_group, 0);
  __builtin_unreachable();
}

static void note(const char *fmt, ...) {
  // free-form event log in shared memory
  if (!S) return;
  uint32_t n = S->log_len;
  if (n + 512 > SIM_LOG_MAX) { S->log_truncated = 1; return; }
  va_list ap;
  va_start(ap, fmt);
  int k = vsnprintf(S->log + n, 512, fmt, ap);
  va_end(ap);
  if (k > 511) k = 511;
  S->log_len = n + (uint32_t)k;
}

// ---------------------------------------------------------------- baton
static void baton_wait(int id) {
  while (__atomic_load_n(&T[id].go, __ATOMIC_ACQUIRE) == 0)
    raw(SYS_futex, &T[id].go, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  __atomic_store_n(&T[id].go, 0, __ATOMIC_RELAXED);
}
static void baton_give(int id) {
  __atomic_store_n(&T[id].go, 1, __ATOMIC_RELEASE);
  raw(SYS_futex, &T[id].go, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

static void wake_due(void) {
  for (int i = 0; i < nthreads; i++)
    if (T[i].state != RUNNABLE && T[i].state != DONE_ && T[i].deadline && T[i].deadline <= now_ns) {
      T[i].state = RUNNABLE;
      T[i].timed_out = 1;
      T[i].deadline = 0;
    }
}

// Due within a few milliseconds?
static int dozing(int i) { return T[i].state != RUNNABLE && T[i].state != DONE_ && T[i].state != FREE_ && T[i].deadline && T[i].deadline <= now_ns + 5000000; }

static int runnable_list(int *out) {
  int n = 0;
  for (int i = 0; i < nthreads; i++)
    if (T[i].state == RUNNABLE) out[n++] = i;
  return n;
}

static void record_decision(uint64_t at, int who) {
  if (S->ndec < SIM_MAXDEC) {
    S->dec[S->ndec].at = (uint32_t)at;
    S->dec[S->ndec].who = (uint32_t)who;
    S->ndec++;
  } else
    S->dec_truncated = 1;
}

// Pick who runs next. `me` is the current thread, or -1 when it can't continue.
static int choose(int me, int voluntary) {
  int list[MAXT];
  for (;;) {
    wake_due();
    int n = runnable_list(list);
    if (n == 0) {
      uint64_t best = 0;
      for (int i = 0; i < nthreads; i++)
        if (T[i].state != DONE_ && T[i].state != FREE_ && T[i].deadline && (!best || T[i].deadline < best)) best = T[i].deadline;
      if (!best) {
        note("DEADLOCK:");
        for (int i = 0; i < nthreads; i++) note(" t%d=%d", i, T[i].state);
        note("\n");
        die(SIM_DEADLOCK, 0);
      }
      now_ns = best;
      continue;
    }
    // without a decision: stay, or on a voluntary yield go round-robin
    int def = list[0];
    if (me >= 0 && !voluntary) def = me;
    else if (me >= 0)
      for (int i = n - 1; i >= 0; i--)
        if (list[i] > me) def = list[i];
    uint64_t at = points;
    int pick = def;
    // the current thread loses the processor until one that sleeps briefly is due
    if (!C->replay && C->lag_ppm && me >= 0 && rnd(&rng_sched, 1000000) < C->lag_ppm) {
      int l3[MAXT], m = 0;
      for (int i = 0; i < nthreads; i++)
        if (i != me && dozing(i)) l3[m++] = i;
      if (m) {
        pick = l3[rnd(&rng_sched, (uint32_t)m)];
        now_ns = T[pick].deadline;
        wake_due();
        S->stalls++;
        record_decision(at, pick);
        return pick;
      }
    }
    if (C->replay) {
      while (replay_pos < C->nreplay && C->replay_dec[replay_pos].at < at) replay_pos++;
      if (replay_pos < C->nreplay && C->replay_dec[replay_pos].at == at) {
        int w = (int)C->replay_dec[replay_pos].who;
        for (int i = 0; i < n; i++)
          if (list[i] == w) pick = w;
        if (pick != w && w < nthreads && dozing(w)) {
          now_ns = T[w].deadline;
          wake_due();
          pick = w;
        }
      }
    } else if (C->mode == SIM_MODE_PRIO) {
      if (me >= 0 && (voluntary || rnd(&rng_sched, 1000000) < C->switch_ppm)) T[me].prio = rnd(&rng_sched, 1u << 20);
      uint32_t bp = 0;
      int b = -1;
      for (int i = 0; i < n; i++)
        if (b < 0 || T[list[i]].prio > bp) { b = list[i]; bp = T[list[i]].prio; }
      pick = b;
      if (voluntary && pick == me && n > 1) {
        do pick = list[rnd(&rng_sched, (uint32_t)n)]; while (pick == me);
      }
    } else {
      int sw = me < 0 || voluntary || rnd(&rng_sched, 1000000) < C->switch_ppm;
      if (sw) {
        // stalled threads are skipped unless nobody else can run
        int l2[MAXT], m = 0;
        for (int i = 0; i < n; i++)
          if (T[list[i]].stall_until <= step && !(voluntary && list[i] == me)) l2[m++] = list[i];
        if (m) pick = l2[rnd(&rng_sched, (uint32_t)m)];
        else pick = list[rnd(&rng_sched, (uint32_t)n)];
        if (C->stall_ppm && rnd(&rng_sched, 1000000) < C->stall_ppm && me >= 0) {
          T[me].stall_until = step + 20 + rnd(&rng_sched, 400);
          S->stalls++;
        }
      }
    }
    if (pick != def) record_decision(at, pick);
    return pick;
  }
}

static void switch_to(int me, int next) {
  if (next == me) return;
  S->switches++;
  hash_mix(((uint64_t)next << 32) ^ points);
  in_sim = 0;
  baton_give(next);
  baton_wait(me);
}

// SIM_TRACE=<step>,<step> prints a backtrace of every schedule point in that range
static uint64_t dbg_from = ~0ull, dbg_to;
static void dbg(void) {
  if (step < dbg_from || step > dbg_to) return;
  void *b[24];
  int k = backtrace(b, 24);
  char l[400];
  int m = snprintf(l, sizeof l, "@%llu t%d", (unsigned long long)step, my_id);
  raw(SYS_write, 2, l, m);
  for (int i = 1; i < k; i++) { m = snprintf(l, sizeof l, " %p", b[i]); raw(SYS_write, 2, l, m); }
  raw(SYS_write, 2, "\n", 1);
}
static void tick(void) {
  step++;
  dbg();
  points++;
  now_ns += 1000;
  if (step > C->max_steps) {
    note("STEP LIMIT\n");
    die(SIM_STEPLIMIT, 0);
  }
}

static void crash(void) __attribute__((noreturn));
static void crash(void) {
  note("CRASH at step %llu\n", (unsigned long long)step);
  die(SIM_CRASHED, 137);
}

static inline int managed(void) { return active && my_id >= 0 && !in_sim && !bypassed; }

static void point(int voluntary) {
  int me = my_id;
  in_sim = 1;
  tick();
  int next = choose(me, voluntary);
  switch_to(me, next);
  in_sim = 0;
}

// Block the calling thread; its state/deadline are set by the caller. Returns 1 on time-out.
static int block_here(void) {
  int me = my_id;
  in_sim = 1;
  tick();
  T[me].timed_out = 0;
  int next = choose(T[me].state == RUNNABLE ? me : -1, 0);
  if (next != me) {
    S->switches++;
    hash_mix(((uint64_t)next << 32) ^ points ^ 0x5555);
    baton_give(next);
    baton_wait(me);
  }
  in_sim = 0;
  T[me].deadline = 0;
  T[me].addr = 0;
  return T[me].timed_out;
}

void sim_yield(void) { if (managed()) point(1); }
void sim_point(void) { if (managed()) point(0); }
void sim_alloc_point(void) {
  if (!managed() || !C->alloc_ppm) return;
  if (rnd(&rng_alloc, 1000000) < C->alloc_ppm) point(0);
}
uint64_t sim_now_ns(void) { return now_ns; }
void sim_advance_wall(int64_t ns) { wall_off += ns; }
uint64_t sim_rand(void) { return splitmix(&rng_misc); }
int sim_active(void) { return managed(); }
uint64_t sim_steps(void) { return step; }
void sim_log(const char *p, size_t n) { if (S) note("%.*s\n", (int)(n > 500 ? 500 : n), p); }

// Block on an arbitrary channel address until sim_wake_chan, or the virtual timeout (0 = none).
int sim_wait_chan(const void *chan, uint64_t timeout_ns) {
  if (!managed()) return 0;
  T[my_id].state = BLK_CHAN;
  T[my_id].addr = chan;
  T[my_id].deadline = timeout_ns ? now_ns + timeout_ns : 0;
  return block_here();
}
static void wake_chan(const void *chan) {
  for (int i = 0; i < nthreads; i++)
    if (T[i].state == BLK_CHAN && T[i].addr == chan) { T[i].state = RUNNABLE; T[i].deadline = 0; }
}
void sim_wake_chan(const void *chan) { wake_chan(chan); }
static void wake_epoll(void) {
  for (int i = 0; i < nthreads; i++)
    if (T[i].state == BLK_EPOLL) { T[i].state = RUNNABLE; T[i].deadline = 0; }
}

// ---------------------------------------------------------------- life cycle
static void thread_exit_hook(void *arg) {
  (void)arg;
  if (!active || my_id < 0) return;
  int me = my_id;
  in_sim = 1;
  tick();
  T[me].state = DONE_;
  for (int i = 0; i < nthreads; i++)
    if (T[i].state == BLK_JOIN && T[i].join_target == me) T[i].state = RUNNABLE;
  int next = choose(-1, 0);
  hash_mix((uint64_t)next ^ 0xdead);
  my_id = -1;
  baton_give(next);
}

void sim_begin(sim_cfg_t *cfg, sim_shared_t *shared) {
  { const char *e = getenv("SIM_TRACE"); if (e) { dbg_from = strtoull(e, 0, 10); dbg_to = strtoull(strchr(e, ',') + 1, 0, 10); void *b[2]; backtrace(b, 2); } }
  C = cfg;
  S = shared;
  mallopt(M_ARENA_MAX, 1);
  { // only one thread runs at a time: keep them all on the processor this one is on, where handing over is cheapest
    unsigned cpu = 0; unsigned long set[16] = {0};
    if (raw(SYS_getcpu, &cpu, 0, 0, 0, 0, 0) == 0 && cpu < sizeof set * 8) { set[cpu / 64] = 1ul << (cpu % 64); raw(SYS_sched_setaffinity, 0, sizeof set, set, 0, 0, 0); }
  }
  uint64_t s = cfg->seed;
  rng_sched = splitmix(&s);
  rng_misc = splitmix(&s);
  rng_alloc = splitmix(&s);
  now_ns = cfg->start_ns;
  wall_off = (int64_t)cfg->wall_ns - (int64_t)cfg->start_ns;
  step = points = 0;
  bad_errno = 0;
  bypassed = 0;
  nthreads = 1;
  memset(T, 0, sizeof T);
  T[0].state = RUNNABLE;
  T[0].prio = rnd(&rng_sched, 1u << 20);
  T[0].handle = pthread_self();
  my_id = 0;
  if (!exit_key_ok) { pthread_key_create(&exit_key, thread_exit_hook); exit_key_ok = 1; }
  active = 1;
}
// The simulated process ended by itself with this code.
void sim_finish(int code) { in_sim = 1; die(SIM_EXITED, code); }

typedef struct { void *(*fn)(void *); void *arg; int id; } start_t;
static void *trampoline(void *p) {
  start_t st = *(start_t *)p;
  free(p);
  my_id = st.id;
  in_sim = 1;
  pthread_setspecific(exit_key, (void *)1);
  baton_wait(st.id);
  in_sim = 0;
  return st.fn(st.arg);
}

typedef int (*pc_t)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
  static pc_t real;
  if (!real) real = (pc_t)dlsym(RTLD_NEXT, "pthread_create");
  if (!managed()) return real(t, a, fn, arg);
  in_sim = 1;
  if (nthreads >= MAXT) { in_sim = 0; return EAGAIN; }
  int id = nthreads++;
  T[id].state = RUNNABLE;
  T[id].go = 0;
  T[id].prio = rnd(&rng_sched, 1u << 20);
  start_t *st = malloc(sizeof *st);
  st->fn = fn;
  st->arg = arg;
  st->id = id;
  int r = real(t, a, trampoline, st);
  if (r) { T[id].state = DONE_; free(st); in_sim = 0; return r; }
  T[id].handle = *t;
  in_sim = 0;
  point(0);
  return 0;
}
typedef int (*pj_t)(pthread_t, void **);
int pthread_join(pthread_t t, void **ret) {
  static pj_t real;
  if (!real) real = (pj_t)dlsym(RTLD_NEXT, "pthread_join");
  if (!managed()) return real(t, ret);
  int id = -1;
  for (int i = 0; i < nthreads; i++)
    if (i != my_id && pthread_equal(T[i].handle, t)) id = i;
  if (id < 0) return real(t, ret);
  point(0);
  if (T[id].state != DONE_) {
    T[my_id].state = BLK_JOIN;
    T[my_id].join_target = id;
    block_here();
  }
  memset(&T[id].handle, 0xff, sizeof(pthread_t));
  in_sim = 1;
  int r = real(t, ret);
  in_sim = 0;
  return r;
}
static void on_exit_call(int code) {
  if (active && my_id >= 0) { in_sim = 1; die(SIM_EXITED, code); }
}
void exit(int code) {
  on_exit_call(code);
  static void (*real)(int);
  if (!real) real = (void (*)(int))dlsym(RTLD_NEXT, "exit");
  real(code);
  __builtin_unreachable();
}
void _exit(int code) {
  on_exit_call(code);
  for (;;) raw(SYS_exit_group, code);
}
void abort(void) {
  if (active && my_id >= 0) { in_sim = 1; die(SIM_ABORTED, 134); }
  for (;;) raw(SYS_exit_group, 134);
}

// ---------------------------------------------------------------- futex & friends
static uint64_t ts_ns(const struct timespec *ts) { return (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec; }

static long do_futex(uint32_t *addr, int op, uint32_t val, const struct timespec *ts, uint32_t val3) {
  int cmd = op & FUTEX_CMD_MASK;
  (void)val3;
  switch (cmd) {
  case FUTEX_WAIT:
  case FUTEX_WAIT_BITSET: {
    point(0);
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
    uint64_t dl = 0;
    if (ts) {
      if (cmd == FUTEX_WAIT) dl = now_ns + ts_ns(ts);
      else if (op & FUTEX_CLOCK_REALTIME) {
        int64_t x = (int64_t)ts_ns(ts) - wall_off;
        dl = x <= 0 ? 1 : (uint64_t)x;
      } else dl = ts_ns(ts);
      if (dl == 0) dl = 1;
      if (dl <= now_ns) { errno = ETIMEDOUT; return -1; }
    }
    // spurious wake-up
    if (C->spurious_ppm && rnd(&rng_misc, 1000000) < C->spurious_ppm) { S->spurious++; errno = EINTR; return -1; }
    T[my_id].state = BLK_FUTEX;
    T[my_id].addr = addr;
    T[my_id].deadline = dl;
    if (block_here()) { errno = ETIMEDOUT; return -1; }
    return 0;
  }
  case FUTEX_WAKE:
  case FUTEX_WAKE_BITSET: {
    long n = 0;
    while ((uint32_t)n < val) {
      int w[MAXT], k = 0;
      for (int i = 0; i < nthreads; i++)
        if (T[i].state == BLK_FUTEX && T[i].addr == addr) w[k++] = i;
      if (!k) break;
      int p = k > 1 ? w[rnd(&rng_misc, (uint32_t)k)] : w[0];
      T[p].state = RUNNABLE;
      T[p].deadline = 0;
      n++;
    }
    point(0);
    return n;
  }
  default:
    note("unsupported futex op %d\n", op);
    die(SIM_UNSUPPORTED, op);
  }
}

long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (managed()) {
    switch (n) {
    case SYS_futex: return do_futex((uint32_t *)a, (int)b, (uint32_t)c, (const struct timespec *)d, (uint32_t)f);
    case SYS_statx: return statx((int)a, (const char *)b, (int)c, (unsigned)d, (struct statx *)e);
    case SYS_getrandom: {
      uint8_t *p = (uint8_t *)a;
      for (long i = 0; i < b; i++) p[i] = (uint8_t)splitmix(&rng_misc);
      return b;
    }
    case SYS_copy_file_range: errno = ENOSYS; return -1;
    case SYS_gettid: return 1000 + my_id;
    default: break;
    }
  }
  return ret_errno(raw6(n, a, b, c, d, e, f));
}

ssize_t getrandom(void *buf, size_t len, unsigned flags) {
  if (!managed() && !child) return ret_errno(raw(SYS_getrandom, buf, len, flags));
  uint8_t *p = buf;
  for (size_t i = 0; i < len; i++) p[i] = (uint8_t)splitmix(&rng_misc);
  return (ssize_t)len;
}
int getentropy(void *buf, size_t len) { getrandom(buf, len, 0); return 0; }

int clock_gettime(clockid_t id, struct timespec *ts) {
  if (!active || my_id < 0) return (int)ret_errno(raw(SYS_clock_gettime, id, ts));
  uint64_t t = now_ns;
  if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) t = (uint64_t)((int64_t)t + wall_off);
  now_ns += 50;
  ts->tv_sec = (time_t)(t / 1000000000ull);
  ts->tv_nsec = (long)(t % 1000000000ull);
  return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
  struct timespec ts;
  (void)tz;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
static int do_sleep(uint64_t dl) {
  T[my_id].state = BLK_SLEEP;
  T[my_id].deadline = dl ? dl : 1;
  T[my_id].addr = 0;
  block_here();
  return 0;
}
int nanosleep(const struct timespec *rq, struct timespec *rm) {
  if (!managed()) return (int)ret_errno(raw(SYS_nanosleep, rq, rm));
  return do_sleep(now_ns + ts_ns(rq));
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec *rq, struct timespec *rm) {
  if (!managed()) return (int)-raw(SYS_clock_nanosleep, id, flags, rq, rm);
  uint64_t t = ts_ns(rq);
  if (flags & TIMER_ABSTIME) { if (id == CLOCK_REALTIME) t = (uint64_t)((int64_t)t - wall_off); } else t += now_ns;
  do_sleep(t);
  return 0;
}
int usleep(useconds_t us) {
  struct timespec ts = {us / 1000000, (long)(us % 1000000) * 1000};
  return nanosleep(&ts, 0);
}
int sched_yield(void) {
  if (!managed()) return (int)ret_errno(raw(SYS_sched_yield));
  point(1);
  return 0;
}
int sched_getaffinity(pid_t pid, size_t sz, cpu_set_t *set) {
  if (!active) { long r = raw(SYS_sched_getaffinity, pid, sz, set); if (r < 0) { errno = (int)-r; return -1; } if ((size_t)r < sz) memset((char *)set + r, 0, sz - (size_t)r); return 0; }
  memset(set, 0, sz);
  for (int i = 0; i < (int)C->cpus; i++) CPU_SET_S(i, sz, set);
  return 0;
}

// ---------------------------------------------------------------- epoll / eventfd
int epoll_wait(int epfd, struct epoll_event *ev, int n, int timeout) {
  if (!managed()) return (int)ret_errno(raw(SYS_epoll_wait, epfd, ev, n, timeout));
  uint64_t dl = timeout < 0 ? 0 : now_ns + (uint64_t)timeout * 1000000ull;
  point(0);
  for (;;) {
    long r = raw(SYS_epoll_wait, epfd, ev, n, 0);
    if (r != 0) return (int)ret_errno(r);
    if (timeout == 0 || (dl && now_ns >= dl)) return 0;
    T[my_id].state = BLK_EPOLL;
    T[my_id].epfd = epfd;
    T[my_id].deadline = dl;
    block_here();
  }
}
int poll(struct pollfd *fds, nfds_t n, int timeout) {
  if (!managed()) return (int)ret_errno(raw(SYS_poll, fds, n, timeout));
  point(0);
  return (int)ret_errno(raw(SYS_poll, fds, n, 0));
}

// ---------------------------------------------------------------- files
#define MAXFD 1024
static char *fdpath[MAXFD];   // path relative to the root, for managed files

// Returns path relative to root (static thread-local buffer), or NULL when outside.
static const char *rel_of(int dirfd, const char *path) {
  static __thread char buf[2][4200];
  static __thread int w;
  char *o = buf[w ^= 1];
  char tmp[4200];
  if (path[0] == '/') snprintf(tmp, sizeof tmp, "%s", path);
  else if (dirfd == AT_FDCWD) {
    char cwd[2048];
    long r = raw(SYS_getcwd, cwd, sizeof cwd);
    if (r <= 0) return NULL;
    snprintf(tmp, sizeof tmp, "%s/%s", cwd, path);
  } else if (dirfd >= 0 && dirfd < MAXFD && fdpath[dirfd]) snprintf(tmp, sizeof tmp, "%s/%s/%s", C->root, fdpath[dirfd], path);
  else return NULL;
  // lexical normalisation
  size_t on = 0;
  o[0] = 0;
  char *save = NULL;
  for (char *c = strtok_r(tmp, "/", &save); c; c = strtok_r(NULL, "/", &save)) {
    if (!strcmp(c, ".")) continue;
    if (!strcmp(c, "..")) {
      while (on && o[on - 1] != '/') on--;
      if (on) on--;
      o[on] = 0;
      continue;
    }
    size_t l = strlen(c);
    if (on + l + 2 > sizeof buf[0]) return NULL;
    o[on++] = '/';
    memcpy(o + on, c, l + 1);
    on += l;
  }
  size_t rl = strlen(C->root);
  if (strncmp(o, C->root, rl) != 0 || (o[rl] != 0 && o[rl] != '/')) return NULL;
  return o[rl] ? o + rl + 1 : o + rl;
}

typedef struct { int kind; long arg; } fault_t;
static const char *opname[] = {"open_r", "open_w", "read", "write", "close", "stat", "opendir", "readdir", "mutate", "stdin", "stdout", "stderr", "sync"};

// Account for an operation; returns the fault to apply, if any.
static fault_t account(int op, const char *rel) {
  fault_t ft = {0, 0};
  S->op_count[op]++;
  uint64_t n = S->fs_ops++;
  if (C->log_ops) note("%llu t%d %s %s\n", (unsigned long long)step, my_id, opname[op], rel ? rel : "-");
  if (C->crash_at && n + 1 == C->crash_at) crash();
  if (bad_errno && rel && (op == SIM_OP_OPEN_R || op == SIM_OP_READ) && !strcmp(rel, bad_path)) {
    note("FAULT %s %s kind=1 arg=%d\n", opname[op], rel, bad_errno);
    ft.kind = SIM_F_ERRNO;
    ft.arg = bad_errno;
    return ft;
  }
  for (uint32_t i = 0; i < C->nfaults; i++) {
    sim_fault_t *f = &C->faults[i];
    if (f->op != (uint32_t)op) continue;
    if (f->path[0] && (!rel || strcmp(f->path, rel) != 0)) continue;
    uint32_t k = f->seen++;
    if (k < f->nth || k >= f->nth + (f->repeat ? f->repeat : 1)) continue;
    S->fault_fired[i]++;
    note("FAULT %s %s kind=%u arg=%d\n", opname[op], rel ? rel : "-", f->kind, f->arg);
    if (f->kind == SIM_F_CRASH) crash();
    ft.kind = (int)f->kind;
    ft.arg = f->arg;
    return ft;
  }
  return ft;
}
static int is_errno(fault_t f) { if (f.kind == SIM_F_ERRNO) { errno = (int)f.arg; return 1; } return 0; }

static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
  if (!managed()) return (int)ret_errno(raw(SYS_openat, dirfd, path, flags, mode));
  const char *rel = rel_of(dirfd, path);
  point(0);
  in_sim = 1;
  int w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
  if (!rel) {
    in_sim = 0;
    if (w) { S->escapes++; note("ESCAPE open %s flags=%x\n", path, flags); errno = EROFS; } else errno = ENOENT;
    return -1;
  }
  int op = (flags & O_DIRECTORY) ? SIM_OP_OPENDIR : w ? SIM_OP_OPEN_W : SIM_OP_OPEN_R;
  fault_t f = account(op, rel);
  if (is_errno(f)) { in_sim = 0; return -1; }
  long r = raw(SYS_openat, dirfd, path, flags, mode);
  if (w && r >= 0) { S->mutations++; note("MUT open_w %s\n", rel); }
  if (r >= 0 && r < MAXFD) { free(fdpath[r]); fdpath[r] = strdup(rel); }
  in_sim = 0;
  return (int)ret_errno(r);
}
int open(const char *path, int flags, ...) {
  va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? (mode_t)va_arg(ap, int) : 0; va_end(ap);
  return do_open(AT_FDCWD, path, flags, m);
}
int open64(const char *path, int flags, ...) {
  va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? (mode_t)va_arg(ap, int) : 0; va_end(ap);
  return do_open(AT_FDCWD, path, flags, m);
}
int openat(int d, const char *path, int flags, ...) {
  va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? (mode_t)va_arg(ap, int) : 0; va_end(ap);
  return do_open(d, path, flags, m);
}
int openat64(int d, const char *path, int flags, ...) {
  va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? (mode_t)va_arg(ap, int) : 0; va_end(ap);
  return do_open(d, path, flags, m);
}
int creat64(const char *path, mode_t m) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }

int close(int fd) {
  if (!managed()) return (int)ret_errno(raw(SYS_close, fd));
  if (fd >= 0 && fd < MAXFD && fdpath[fd]) {
    point(0);
    in_sim = 1;
    account(SIM_OP_CLOSE, fdpath[fd]);
    free(fdpath[fd]);
    fdpath[fd] = NULL;
    in_sim = 0;
  }
  return (int)ret_errno(raw(SYS_close, fd));
}

static size_t limit(fault_t f, size_t n) {
  if (f.kind == SIM_F_SHORT && n > 0) { size_t k = f.arg > 0 ? (size_t)f.arg : 1; return k < n ? k : n; }
  return n;
}

// --- stdin: a byte queue fed by the case or by the editor actor
static ssize_t stdin_read(void *buf, size_t n) {
  for (;;) {
    point(0);
    in_sim = 1;
    fault_t f = {0, 0};
    uint32_t avail = S->in_len - S->in_pos;
    if (avail || S->in_closed) f = account(SIM_OP_STDIN, NULL);
    if (is_errno(f)) { in_sim = 0; return -1; }
    if (avail && n) {
      size_t k = n < avail ? n : avail;
      k = limit(f, k);
      if (C->chunk_max) { uint32_t m = 1 + rnd(&rng_misc, C->chunk_max); if (k > m) k = m; }
      memcpy(buf, S->in + S->in_pos, k);
      S->in_pos += (uint32_t)k;
      wake_chan(&S->in_pos);
      in_sim = 0;
      return (ssize_t)k;
    }
    in_sim = 0;
    if (S->in_closed || n == 0) return 0;
    T[my_id].state = BLK_CHAN;
    T[my_id].addr = &S->in_len;
    block_here();
  }
}
int sim_stdin_push(const void *p, size_t n) {
  if (S->in_len + n > SIM_IO_MAX) return -1;
  memcpy(S->in + S->in_len, p, n);
  S->in_len += (uint32_t)n;
  wake_chan(&S->in_len);
  return 0;
}
void sim_stdin_close(void) { S->in_closed = 1; wake_chan(&S->in_len); }
size_t sim_stdin_pending(void) { return S->in_len - S->in_pos; }
size_t sim_stdout_len(void) { return S->out_len; }
const char *sim_stdout_ptr(void) { return S->out; }
// wait until stdout grew beyond `have` (or timeout); returns new length
size_t sim_stdout_wait(size_t have, uint64_t timeout_ns) {
  if (S->out_len <= have) sim_wait_chan(&S->out_len, timeout_ns);
  return S->out_len;
}

void sim_stdout_take(size_t n) { S->out_taken = (uint32_t)n; wake_chan(&S->out_taken); }
void sim_stdout_close(void) { S->out_closed = 1; wake_chan(&S->out_taken); }
void sim_bad_path(const char *rel, size_t n, int err) { if (n > sizeof bad_path - 1) n = sizeof bad_path - 1; memcpy(bad_path, rel, n); bad_path[n] = 0; bad_errno = err; }
void sim_bypass(int on) { bypassed = on; }
static ssize_t std_write(int fd, const void *buf, size_t n) {
  point(0);
  if (fd == 1)
    for (;;) {
      if (S->out_closed) { errno = EPIPE; return -1; }
      if (!C->out_cap || S->out_len - S->out_taken < C->out_cap) break;
      T[my_id].state = BLK_CHAN;
      T[my_id].addr = &S->out_taken;
      block_here();
    }
  in_sim = 1;
  fault_t f = account(fd == 1 ? SIM_OP_STDOUT : SIM_OP_STDERR, NULL);
  if (is_errno(f)) { in_sim = 0; return -1; }
  n = limit(f, n);
  if (fd == 1) {
    if (C->out_chunk_max) { uint32_t m = 1 + rnd(&rng_misc, C->out_chunk_max); if (n > m) n = m; }
    if (C->out_cap && n > C->out_cap - (S->out_len - S->out_taken)) n = C->out_cap - (S->out_len - S->out_taken);
    if (S->out_len + n > SIM_IO_MAX) { note("stdout overflow\n"); die(SIM_UNSUPPORTED, 1); }
    memcpy(S->out + S->out_len, buf, n);
    S->out_len += (uint32_t)n;
    wake_chan(&S->out_len);
  } else {
    size_t k = n;
    if (S->err_len + k > SIM_ERR_MAX) k = SIM_ERR_MAX - S->err_len;
    memcpy(S->err + S->err_len, buf, k);
    S->err_len += (uint32_t)k;
  }
  in_sim = 0;
  return (ssize_t)n;
}

ssize_t read(int fd, void *buf, size_t n) {
  if (!managed()) return ret_errno(raw(SYS_read, fd, buf, n));
  if (fd == 0) return stdin_read(buf, n);
  if (fd >= 0 && fd < MAXFD && fdpath[fd]) {
    point(0);
    in_sim = 1;
    fault_t f = account(SIM_OP_READ, fdpath[fd]);
    if (is_errno(f)) { in_sim = 0; return -1; }
    n = limit(f, n);
    if (C->file_chunk_max) { uint32_t m = 1 + rnd(&rng_misc, C->file_chunk_max); if (n > m) n = m; }
    in_sim = 0;
  }
  return ret_errno(raw(SYS_read, fd, buf, n));
}
ssize_t readv(int fd, const struct iovec *iov, int c) {
  if (!managed()) return ret_errno(raw(SYS_readv, fd, iov, c));
  for (int i = 0; i < c; i++)
    if (iov[i].iov_len) return read(fd, iov[i].iov_base, iov[i].iov_len);
  return 0;
}
ssize_t pread64(int fd, void *buf, size_t n, off64_t off) { if (managed()) point(0); return ret_errno(raw(SYS_pread64, fd, buf, n, off)); }

ssize_t write(int fd, const void *buf, size_t n) {
  if (!managed()) return ret_errno(raw(SYS_write, fd, buf, n));
  if (fd == 1 || fd == 2) return std_write(fd, buf, n);
  if (fd >= 0 && fd < MAXFD && fdpath[fd]) {
    point(0);
    in_sim = 1;
    fault_t f = account(SIM_OP_WRITE, fdpath[fd]);
    if (is_errno(f)) { in_sim = 0; return -1; }
    if (f.kind == SIM_F_TORN_CRASH) {
      size_t k = (size_t)f.arg < n ? (size_t)f.arg : n;
      raw(SYS_write, fd, buf, k);
      crash();
    }
    n = limit(f, n);
    S->mutations++;
    in_sim = 0;
    return ret_errno(raw(SYS_write, fd, buf, n));
  }
  long r = raw(SYS_write, fd, buf, n); // eventfd, sockets
  in_sim = 1;
  wake_epoll();
  in_sim = 0;
  point(0);
  return ret_errno(r);
}
ssize_t writev(int fd, const struct iovec *iov, int c) {
  if (!managed()) return ret_errno(raw(SYS_writev, fd, iov, c));
  for (int i = 0; i < c; i++)
    if (iov[i].iov_len) return write(fd, iov[i].iov_base, iov[i].iov_len);
  return 0;
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t off) {
  if (!managed()) return ret_errno(raw(SYS_pwrite64, fd, buf, n, off));
  point(0);
  if (fd >= 0 && fd < MAXFD && fdpath[fd]) {
    in_sim = 1;
    fault_t f = account(SIM_OP_WRITE, fdpath[fd]);
    if (is_errno(f)) { in_sim = 0; return -1; }
    n = limit(f, n);
    S->mutations++;
    in_sim = 0;
  }
  return ret_errno(raw(SYS_pwrite64, fd, buf, n, off));
}
ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) {
  if (managed()) { errno = ENOSYS; return -1; }
  return ret_errno(raw(SYS_copy_file_range, a, b, c, d, e, f));
}
ssize_t sendfile64(int a, int b, off64_t *c, size_t d) {
  if (managed()) { errno = EINVAL; return -1; }
  return ret_errno(raw(SYS_sendfile, a, b, c, d));
}
int isatty(int fd) { if (active && fd <= 2) { errno = ENOTTY; return 0; } struct { char b[64]; } t; long r = raw(SYS_ioctl, fd, 0x5401, &t); return r == 0; }

// --- metadata
int statx(int d, const char *path, int flags, unsigned mask, struct statx *st) {
  if (!managed()) return (int)ret_errno(raw(SYS_statx, d, path, flags, mask, st));
  if (path && path[0]) {
    const char *rel = rel_of(d, path);
    point(0);
    if (!rel) {
      // ancestors of the root look like plain directories; nothing else is visible
      size_t l = strlen(path);
      while (l > 1 && path[l - 1] == '/') l--;
      if (path[0] == '/' && (l == 1 || (strncmp(C->root, path, l) == 0 && C->root[l] == '/'))) return (int)ret_errno(raw(SYS_statx, d, path, flags, mask, st));
      errno = ENOENT;
      return -1;
    }
    in_sim = 1;
    fault_t f = account(SIM_OP_STAT, rel);
    in_sim = 0;
    if (is_errno(f)) return -1;
  }
  return (int)ret_errno(raw(SYS_statx, d, path, flags, mask, st));
}
static int do_fstatat(int d, const char *path, struct stat *st, int flags) {
  if (!managed() || (flags & AT_EMPTY_PATH)) return (int)ret_errno(raw(SYS_newfstatat, d, path, st, flags));
  const char *rel = rel_of(d, path);
  point(0);
  if (!rel) { errno = ENOENT; return -1; }
  in_sim = 1;
  fault_t f = account(SIM_OP_STAT, rel);
  in_sim = 0;
  if (is_errno(f)) return -1;
  return (int)ret_errno(raw(SYS_newfstatat, d, path, st, flags));
}
int stat64(const char *p, struct stat64 *st) { return do_fstatat(AT_FDCWD, p, (struct stat *)st, 0); }
int lstat64(const char *p, struct stat64 *st) { return do_fstatat(AT_FDCWD, p, (struct stat *)st, AT_SYMLINK_NOFOLLOW); }
int fstatat64(int d, const char *p, struct stat64 *st, int fl) { return do_fstatat(d, p, (struct stat *)st, fl); }
int stat(const char *p, struct stat *st) { return do_fstatat(AT_FDCWD, p, st, 0); }
int lstat(const char *p, struct stat *st) { return do_fstatat(AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int access(const char *p, int m) {
  if (!managed()) return (int)ret_errno(raw(SYS_access, p, m));
  const char *rel = rel_of(AT_FDCWD, p);
  point(0);
  if (!rel) { errno = ENOENT; return -1; }
  in_sim = 1; fault_t f = account(SIM_OP_STAT, rel); in_sim = 0;
  if (is_errno(f)) return -1;
  return (int)ret_errno(raw(SYS_access, p, m));
}
ssize_t readlink(const char *p, char *b, size_t n) {
  if (!managed()) return ret_errno(raw(SYS_readlink, p, b, n));
  const char *rel = rel_of(AT_FDCWD, p);
  point(0);
  if (!rel) { errno = ENOENT; return -1; }
  return ret_errno(raw(SYS_readlink, p, b, n));
}

// --- mutations by name
static int mut_ok(int d, const char *p, const char *what) {
  const char *rel = rel_of(d, p);
  point(0);
  in_sim = 1;
  if (!rel) { S->escapes++; note("ESCAPE %s %s\n", what, p); errno = EROFS; in_sim = 0; return 0; }
  fault_t f = account(SIM_OP_MUTATE, rel);
  if (is_errno(f)) { in_sim = 0; return 0; }
  S->mutations++;
  note("MUT %s %s\n", what, rel);
  in_sim = 0;
  return 1;
}
int unlink(const char *p) { if (managed() && !mut_ok(AT_FDCWD, p, "unlink")) return -1; return (int)ret_errno(raw(SYS_unlink, p)); }
int unlinkat(int d, const char *p, int f) { if (managed() && !mut_ok(d, p, "unlinkat")) return -1; return (int)ret_errno(raw(SYS_unlinkat, d, p, f)); }
int rmdir(const char *p) { if (managed() && !mut_ok(AT_FDCWD, p, "rmdir")) return -1; return (int)ret_errno(raw(SYS_rmdir, p)); }
int mkdir(const char *p, mode_t m) { if (managed() && !mut_ok(AT_FDCWD, p, "mkdir")) return -1; return (int)ret_errno(raw(SYS_mkdir, p, m)); }
int rename(const char *a, const char *b) { if (managed() && (!mut_ok(AT_FDCWD, a, "rename") || !mut_ok(AT_FDCWD, b, "rename_to"))) return -1; return (int)ret_errno(raw(SYS_rename, a, b)); }
int renameat(int x, const char *a, int y, const char *b) { if (managed() && (!mut_ok(x, a, "rename") || !mut_ok(y, b, "rename_to"))) return -1; return (int)ret_errno(raw(SYS_renameat, x, a, y, b)); }
int link(const char *a, const char *b) { if (managed() && !mut_ok(AT_FDCWD, b, "link")) return -1; return (int)ret_errno(raw(SYS_link, a, b)); }
int symlink(const char *a, const char *b) { if (managed() && !mut_ok(AT_FDCWD, b, "symlink")) return -1; return (int)ret_errno(raw(SYS_symlink, a, b)); }
int chmod(const char *p, mode_t m) { if (managed() && !mut_ok(AT_FDCWD, p, "chmod")) return -1; return (int)ret_errno(raw(SYS_chmod, p, m)); }
int fchmod(int fd, mode_t m) { if (managed()) point(0); return (int)ret_errno(raw(SYS_fchmod, fd, m)); }
int truncate64(const char *p, off64_t n) { if (managed() && !mut_ok(AT_FDCWD, p, "truncate")) return -1; return (int)ret_errno(raw(SYS_truncate, p, n)); }
int ftruncate64(int fd, off64_t n) {
  if (managed() && fd >= 0 && fd < MAXFD && fdpath[fd]) {
    point(0);
    in_sim = 1;
    fault_t f = account(SIM_OP_MUTATE, fdpath[fd]);
    S->mutations++;
    in_sim = 0;
    if (is_errno(f)) return -1;
  }
  return (int)ret_errno(raw(SYS_ftruncate, fd, n));
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
static int do_sync(int fd, long nr) {
  if (managed() && fd >= 0 && fd < MAXFD && fdpath[fd]) {
    point(0);
    in_sim = 1; fault_t f = account(SIM_OP_SYNC, fdpath[fd]); in_sim = 0;
    if (is_errno(f)) return -1;
  }
  return (int)ret_errno(raw(nr, fd));
}
int fsync(int fd) { return do_sync(fd, SYS_fsync); }
int fdatasync(int fd) { return do_sync(fd, SYS_fdatasync); }

// --- directories: entries are sorted, then permuted by the seed
typedef struct { DIR *d; char *rel; struct dirent64 *e; int n, pos; } dir_t;
static dir_t dirs[256];
static dir_t *find_dir(DIR *d) { for (int i = 0; i < 256; i++) if (dirs[i].d == d) return &dirs[i]; return NULL; }
static int cmp_ent(const void *a, const void *b) { return strcmp(((const struct dirent64 *)a)->d_name, ((const struct dirent64 *)b)->d_name); }
DIR *opendir(const char *path) {
  static DIR *(*real)(const char *);
  static struct dirent64 *(*rd)(DIR *);
  if (!real) { real = (DIR * (*)(const char *)) dlsym(RTLD_NEXT, "opendir"); rd = (struct dirent64 * (*)(DIR *)) dlsym(RTLD_NEXT, "readdir64"); }
  if (!managed()) return real(path);
  const char *rel = rel_of(AT_FDCWD, path);
  point(0);
  if (!rel) { errno = ENOENT; return NULL; }
  in_sim = 1;
  fault_t f = account(SIM_OP_OPENDIR, rel);
  if (is_errno(f)) { in_sim = 0; return NULL; }
  DIR *d = real(path);
  int e = errno;
  if (d) {
    dir_t *x = find_dir(NULL);
    if (!x) die(SIM_UNSUPPORTED, 2);
    x->d = d;
    x->rel = strdup(rel);
    x->n = x->pos = 0;
    x->e = NULL;
    int cap = 0;
    struct dirent64 *en;
    while ((en = rd(d))) {
      if (x->n == cap) { cap = cap ? cap * 2 : 16; x->e = realloc(x->e, sizeof *x->e * (size_t)cap); }
      memset(&x->e[x->n], 0, sizeof *x->e);
      x->e[x->n].d_ino = en->d_ino;
      x->e[x->n].d_type = en->d_type;
      x->e[x->n].d_reclen = sizeof(struct dirent64);
      strcpy(x->e[x->n].d_name, en->d_name);
      x->n++;
    }
    qsort(x->e, (size_t)x->n, sizeof *x->e, cmp_ent);
    uint64_t r = C->dir_seed;
    for (const char *p = rel; *p; p++) r = r * 1099511628211ull + (uint8_t)*p;
    if (C->dir_seed)
      for (int i = x->n - 1; i > 0; i--) {
        int j = (int)rnd(&r, (uint32_t)i + 1);
        struct dirent64 t = x->e[i];
        x->e[i] = x->e[j];
        x->e[j] = t;
      }
  }
  in_sim = 0;
  errno = e;
  return d;
}
struct dirent64 *readdir64(DIR *d) {
  static struct dirent64 *(*real)(DIR *);
  if (!real) real = (struct dirent64 * (*)(DIR *)) dlsym(RTLD_NEXT, "readdir64");
  dir_t *x = active ? find_dir(d) : NULL;
  if (!x || !managed()) return real(d);
  point(0);
  in_sim = 1;
  fault_t f = account(SIM_OP_READDIR, x->rel);
  in_sim = 0;
  if (is_errno(f)) return NULL;
  if (x->pos >= x->n) return NULL;
  return &x->e[x->pos++];
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
int closedir(DIR *d) {
  static int (*real)(DIR *);
  if (!real) real = (int (*)(DIR *))dlsym(RTLD_NEXT, "closedir");
  dir_t *x = active && d ? find_dir(d) : NULL;
  if (x && managed()) { point(0); in_sim = 1; x->d = NULL; free(x->rel); free(x->e); in_sim = 0; }
  int was = in_sim;
  in_sim = 1;
  int r = real(d);
  in_sim = was;
  return r;
}

// Cast-iron replacement for things that would reach outside
pid_t fork_real(void) { return (pid_t)raw(SYS_fork); }
int sim_disable_aslr(void) {
  int p = personality(0xffffffff);
  if (p >= 0 && !(p & ADDR_NO_RANDOMIZE)) return personality((unsigned long)p | ADDR_NO_RANDOMIZE) >= 0 ? 1 : 0;
  return 0;
}
