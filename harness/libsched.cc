// Preloaded: runs the threads of a program one at a time and decides at every operation on a
// mutex, condition, thread, sleep, yield or clock (and at some allocations) which one goes on,
// by a seeded strategy. Time is virtual: it moves when all threads wait, and now and then earlier.
// A state in which no thread can go on, or in which one only polls while all others wait, is
// reported (exit status 77).
//   VSCHED_SEED, VSCHED_MODE (0 random, 1 priorities with VSCHED_DEPTH changes within VSCHED_K steps,
//   2 rare preemption, 3 one thread starved), VSCHED_SPURIOUS (1 in so many waits is woken without reason),
//   VSCHED_CLOCK (1 in so many looks at the wall clock finds it 6 minutes later), VSCHED_NEW (1 in so many
//   allocations is a point of decision), VSCHED_OUT (file for statistics)
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <dlfcn.h>
#include <errno.h>
#include <limits.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>

namespace {
const int MAXT = 256;
enum State { LATE, RUN, MUTEX, COND, JOIN, SLEEP, DONE };
const char * const names[] = {"not begun", "runnable", "waiting for a mutex", "waiting for a condition", "joining", "sleeping", "ended"};
struct T { State s; const void * on; long long deadline; bool timed, timedout; int turn, ready; bool waited; pthread_t id; long prio; };
T t[MAXT];
int nt = 0, cur = 0, lastrun = -1, victim = -1;
bool on = false;
thread_local int self __attribute__((tls_model("initial-exec"))) = -1;
thread_local int quiet __attribute__((tls_model("initial-exec"))) = 0;
long long vnow = 0;            // virtual nanoseconds
long long skew = 0;            // of the wall clock
long long steps = 0, switches = 0, jumps = 0, early = 0, spurious = 0, lonely = 0, news = 0, skews = 0;
uint64_t hash = 1469598103934665603ull, rs;
int mode, depth; bool late; long K, p_spur, p_clock, p_new, low = 0, maxsteps;
long change[64];
timespec base_real;

uint64_t rnd() { uint64_t z = (rs += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
bool one_in(long n) { return n > 0 && rnd() % n == 0; }
long envn(const char * k, long d) { const char * s = getenv(k); return s ? atol(s) : d; }

int (*r_lock)(pthread_mutex_t *); int (*r_trylock)(pthread_mutex_t *); int (*r_unlock)(pthread_mutex_t *);
int (*r_wait)(pthread_cond_t *, pthread_mutex_t *); int (*r_twait)(pthread_cond_t *, pthread_mutex_t *, const timespec *);
int (*r_cwait)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const timespec *);
int (*r_signal)(pthread_cond_t *); int (*r_broadcast)(pthread_cond_t *);
int (*r_create)(pthread_t *, const pthread_attr_t *, void * (*)(void *), void *); int (*r_join)(pthread_t, void **);
int (*r_once)(pthread_once_t *, void (*)());
int (*r_gacq)(void *); void (*r_grel)(void *); void (*r_gab)(void *);
void * (*r_dlv)(void *, const char *, const char *);
void * dlv(const char * n, const char * v) {
  if (!r_dlv) r_dlv = (void * (*)(void *, const char *, const char *))dlsym(RTLD_NEXT, "dlvsym");
  return r_dlv(RTLD_NEXT, n, v);
}
void resolve() {
  if (r_lock) return;
  auto d = [](const char * n) { return dlsym(RTLD_NEXT, n); };
  r_trylock = (decltype(r_trylock))d("pthread_mutex_trylock"); r_unlock = (decltype(r_unlock))d("pthread_mutex_unlock");
  r_wait = (decltype(r_wait))dlv("pthread_cond_wait", "GLIBC_2.3.2"); r_twait = (decltype(r_twait))dlv("pthread_cond_timedwait", "GLIBC_2.3.2");
  r_cwait = (decltype(r_cwait))d("pthread_cond_clockwait");
  r_signal = (decltype(r_signal))dlv("pthread_cond_signal", "GLIBC_2.3.2"); r_broadcast = (decltype(r_broadcast))dlv("pthread_cond_broadcast", "GLIBC_2.3.2");
  r_create = (decltype(r_create))d("pthread_create"); r_join = (decltype(r_join))d("pthread_join"); r_once = (decltype(r_once))d("pthread_once");
  r_gacq = (decltype(r_gacq))d("__cxa_guard_acquire"); r_grel = (decltype(r_grel))d("__cxa_guard_release"); r_gab = (decltype(r_gab))d("__cxa_guard_abort");
  r_lock = (decltype(r_lock))d("pthread_mutex_lock");
}

// not through syscall(), which is watched for futexes below
long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
  long r; register long r10 __asm__("r10") = d, r8 __asm__("r8") = e, r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
void fut(int op, int * a, int v) { raw(SYS_futex, (long)a, op | FUTEX_PRIVATE_FLAG, v); }
void give(int n) { cur = n; __atomic_store_n(&t[n].turn, 1, __ATOMIC_RELEASE); fut(FUTEX_WAKE, &t[n].turn, 1); }
void await(int me) { while (!__atomic_exchange_n(&t[me].turn, 0, __ATOMIC_ACQUIRE)) fut(FUTEX_WAIT, &t[me].turn, 0); }

void stats() {
  const char * f = getenv("VSCHED_OUT");
  if (!f) return;
  char b[400];
  int n = snprintf(b, sizeof b, "steps %lld switches %lld threads %d jumps %lld early %lld spurious %lld skews %lld hash %016llx\n", steps, switches, nt, jumps, early, spurious, skews, (unsigned long long)hash);
  int fd = open(f, O_WRONLY | O_CREAT | O_APPEND, 0644);
  if (fd >= 0) { (void)!write(fd, b, n); close(fd); }
}
void stuck(const char * what) {
  char b[4000]; int n = snprintf(b, sizeof b, "libsched: %s after %lld steps:", what, steps);
  for (int i = 0; i < nt && n < 3800; ++i) if (t[i].s != DONE) n += snprintf(b + n, sizeof b - n, " thread %d %s%s;", i, names[t[i].s], i == cur ? " (current)" : "");
  b[n++] = '\n'; (void)!write(2, b, n);
  stats();
  _exit(77);
}

void wake(State s, const void * o) { for (int i = 0; i < nt; ++i) if (t[i].s == s && t[i].on == o) t[i].s = RUN; }

// wakes the sleeper whose time comes first
bool advance() {
  int b = -1;
  for (int i = 0; i < nt; ++i) if ((t[i].s == SLEEP || (t[i].s == COND && t[i].timed)) && (b < 0 || t[i].deadline < t[b].deadline)) b = i;
  if (b < 0) return false;
  if (t[b].deadline > vnow) vnow = t[b].deadline;
  if (t[b].s == COND) t[b].timedout = true;
  t[b].s = RUN;
  return true;
}

// threads that begin by themselves; one that never does (the sanitizer's own) is waited for only once
void adopt() {
  for (int i = 0; i < nt; ++i) if (t[i].s == LATE) {
    for (int k = 0; !t[i].waited && k < 200 && !__atomic_load_n(&t[i].ready, __ATOMIC_ACQUIRE); ++k) { timespec s = {0, 100000}; raw(SYS_nanosleep, (long)&s); }
    t[i].waited = true;
    if (__atomic_load_n(&t[i].ready, __ATOMIC_ACQUIRE)) t[i].s = RUN;
  }
}

int choose(int me) {
  vnow += 200;
  if (late) adopt();
  for (int i = 0; i < nt; ++i) if ((t[i].s == SLEEP || (t[i].s == COND && t[i].timed)) && t[i].deadline <= vnow) { if (t[i].s == COND) t[i].timedout = true; t[i].s = RUN; }
  if (one_in(80)) { if (advance()) ++early; }
  if (p_spur && one_in(p_spur)) { int k = rnd() % nt; if (t[k].s == COND) { t[k].s = RUN; ++spurious; } }
  for (int tries = 0;; ++tries) {
    int e[MAXT], n = 0;
    for (int i = 0; i < nt; ++i) if (t[i].s == RUN) e[n++] = i;
    if (!n) {
      if (advance()) { ++jumps; ++lonely; if (lonely > 4000) stuck("one thread polls while all others wait"); continue; }
      bool m = false, l = false;
      if (late) { adopt(); for (int i = 0; i < nt; ++i) l = l || t[i].s == LATE || t[i].s == RUN; }
      if (l && tries < 2000) { timespec s = {0, 500000}; raw(SYS_nanosleep, (long)&s); continue; }
      for (int i = 0; i < nt; ++i) if (t[i].s == MUTEX) { t[i].s = RUN; m = true; } // held by a thread that is ending, perhaps
      if (!m || tries > 2000) { for (int i = 0; i < nt; ++i) if (m && t[i].s == RUN) t[i].s = MUTEX; stuck("no thread can go on"); }
      if (tries > 10) { timespec s = {0, 500000}; raw(SYS_nanosleep, (long)&s); }
      continue;
    }
    int k;
    bool mine = me >= 0 && t[me].s == RUN;
    switch (mode) {
      case 1: {
        for (int i = 0; i < depth; ++i) if (change[i] == steps && me >= 0) t[me].prio = --low;
        k = e[0]; for (int i = 1; i < n; ++i) if (t[e[i]].prio > t[k].prio) k = e[i];
        break;
      }
      case 2: k = mine && !one_in(12) ? me : e[rnd() % n]; break;
      case 3: {
        if (one_in(2000)) victim = rnd() % nt;
        k = e[rnd() % n];
        for (int i = 0; i < 20 && k == victim && n > 1; ++i) k = e[rnd() % n];
        break;
      }
      default: k = e[rnd() % n];
    }
    if (k != lastrun) lonely = 0;
    lastrun = k;
    return k;
  }
}

// the calling thread has set its state; returns when it is its turn again and it is runnable
void pass(int kind) {
  int me = self;
  ++steps;
  if (steps > maxsteps) stuck("too many steps");
  int k = choose(me);
  hash = (hash ^ (uint64_t)(me * 16 + kind)) * 1099511628211ull;
  hash = (hash ^ (uint64_t)k) * 1099511628211ull;
  if (k == me) return;
  ++switches;
  give(k);
  await(me);
}
// VSCHED_LATE: a new thread comes under control only with its first operation (the thread sanitizer
// lets parent and child wait for each other before)
thread_local int pending __attribute__((tls_model("initial-exec"))) = -1;
bool active() {
  if (pending >= 0 && on) {
    self = pending; pending = -1;
    __atomic_store_n(&t[self].ready, 1, __ATOMIC_RELEASE);
    await(self);
  }
  return on && self >= 0;
}
void point(int kind) { if (!quiet) pass(kind); }

struct Start { void * (*f)(void *); void * a; int id; };
void * begin(void * v) {
  Start s = *(Start *)v; delete (Start *)v;
  if (late) pending = s.id;
  else { self = s.id; await(self); }
  void * r = s.f(s.a);
  active();
  int me = self;
  t[me].s = DONE; wake(JOIN, &t[me]);
  ++steps;
  int k = choose(-1);
  self = -1;
  give(k);
  return r;
}

__attribute__((constructor)) void init() {
  resolve();
  if (!getenv("VSCHED_SEED")) return;
  rs = envn("VSCHED_SEED", 1) * 0x2545F4914F6CDD1Dull + 99; rnd(); rnd();
  mode = envn("VSCHED_MODE", 0); depth = envn("VSCHED_DEPTH", 4); K = envn("VSCHED_K", 2000); p_spur = envn("VSCHED_SPURIOUS", 0);
  p_clock = envn("VSCHED_CLOCK", 0); late = envn("VSCHED_LATE", 0); p_new = envn("VSCHED_NEW", 0); maxsteps = envn("VSCHED_MAX", 50000000);
  if (depth > 64) depth = 64;
  for (int i = 0; i < depth; ++i) change[i] = rnd() % K;
  raw(SYS_clock_gettime, CLOCK_REALTIME, (long)&base_real);
  nt = 1; t[0].s = RUN; t[0].id = pthread_self(); t[0].prio = 1 + rnd() % 1000; self = 0; lastrun = 0;
  on = true;
}
__attribute__((destructor)) void fini() { if (on) stats(); on = false; }
}

extern "C" {
// threads alive, for harnesses that want to know
int vsched_alive() { if (!on) return -1; int n = 0; for (int i = 0; i < nt; ++i) n += t[i].s != DONE; return n; }

int pthread_create(pthread_t * id, const pthread_attr_t * at, void * (*f)(void *), void * a) {
  resolve();
  if (!active() || nt >= MAXT) return r_create(id, at, f, a);
  int k = nt;
  t[k] = T(); t[k].s = late ? LATE : RUN; t[k].prio = 1 + rnd() % 1000;
  int r = r_create(id, at, begin, new Start{f, a, k});
  if (r) return r;
  t[k].id = *id; ++nt;
  if (!late) point(1);
  return 0;
}
int pthread_join(pthread_t id, void ** v) {
  resolve();
  if (active()) for (int i = 0; i < nt; ++i) if (t[i].id == id && i != self) {
    bool done = t[i].s == DONE;
    if (!done) { t[self].s = JOIN; t[self].on = &t[i]; pass(2); }
    // ids are given again: forget this one
    t[i].id = pthread_t();
    break;
  }
  return r_join(id, v);
}
int pthread_mutex_lock(pthread_mutex_t * m) {
  resolve();
  if (!active()) return r_lock(m);
  point(3);
  for (;;) {
    int r = r_trylock(m);
    if (r != EBUSY) return r;
    t[self].s = MUTEX; t[self].on = m;
    pass(4);
  }
}
int pthread_mutex_trylock(pthread_mutex_t * m) {
  resolve();
  if (active()) point(3);
  return r_trylock(m);
}
int pthread_mutex_unlock(pthread_mutex_t * m) {
  resolve();
  int r = r_unlock(m);
  if (active()) { wake(MUTEX, m); point(5); }
  return r;
}
static int wait_on(pthread_cond_t * c, pthread_mutex_t * m, long long deadline) {
  point(6);
  r_unlock(m); wake(MUTEX, m);
  T & x = t[self];
  x.s = COND; x.on = c; x.timed = deadline >= 0; x.deadline = deadline; x.timedout = false;
  pass(7);
  x.timed = false;
  for (;;) {
    int r = r_trylock(m);
    if (r != EBUSY) break;
    x.s = MUTEX; x.on = m;
    pass(4);
  }
  return x.timedout ? ETIMEDOUT : 0;
}
static long long nanos(const timespec * s) { return s->tv_sec * 1000000000ll + s->tv_nsec; }
int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m) { resolve(); return active() ? wait_on(c, m, -1) : r_wait(c, m); }
int pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const timespec * s) {
  resolve();
  return active() ? wait_on(c, m, nanos(s) - nanos(&base_real) - skew) : r_twait(c, m, s);
}
int pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t k, const timespec * s) {
  resolve();
  return active() ? wait_on(c, m, nanos(s) - (k == CLOCK_REALTIME ? nanos(&base_real) + skew : 0)) : r_cwait(c, m, k, s);
}
int pthread_cond_signal(pthread_cond_t * c) {
  resolve();
  if (!active()) return r_signal(c);
  point(8);
  int e[MAXT], n = 0;
  for (int i = 0; i < nt; ++i) if (t[i].s == COND && t[i].on == c) e[n++] = i;
  if (n) t[e[rnd() % n]].s = RUN;
  point(9);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t * c) {
  resolve();
  if (!active()) return r_broadcast(c);
  point(8);
  wake(COND, c);
  point(9);
  return 0;
}
// the thread sanitizer asks for these by version
int own_cond_broadcast(pthread_cond_t *) __attribute__((alias("pthread_cond_broadcast"), visibility("hidden")));
int own_cond_signal(pthread_cond_t *) __attribute__((alias("pthread_cond_signal"), visibility("hidden")));
int own_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const timespec *) __attribute__((alias("pthread_cond_timedwait"), visibility("hidden")));
int own_cond_wait(pthread_cond_t *, pthread_mutex_t *) __attribute__((alias("pthread_cond_wait"), visibility("hidden")));
void * dlvsym(void * h, const char * n, const char * v) noexcept {
  if (!strcmp(n, "pthread_cond_wait")) return (void *)own_cond_wait;
  if (!strcmp(n, "pthread_cond_timedwait")) return (void *)own_cond_timedwait;
  if (!strcmp(n, "pthread_cond_signal")) return (void *)own_cond_signal;
  if (!strcmp(n, "pthread_cond_broadcast")) return (void *)own_cond_broadcast;
  return dlv(n, v);
}
int pthread_once(pthread_once_t * o, void (*f)()) { resolve(); ++quiet; int r = r_once(o, f); --quiet; return r; }
int __cxa_guard_acquire(long long int * g) { resolve(); ++quiet; int r = r_gacq(g); if (!r) --quiet; return r; }
void __cxa_guard_release(long long int * g) { r_grel(g); --quiet; }
void __cxa_guard_abort(long long int * g) { r_gab(g); --quiet; }

// what else threads may wait for
#define TRY(name, type, tryname) int name(type * m) { \
  static auto f = (int (*)(type *))dlsym(RTLD_NEXT, #name); static auto g = (int (*)(type *))dlsym(RTLD_NEXT, #tryname); \
  if (!active()) return f(m); \
  point(3); \
  for (;;) { int r = g(m); if (r != EBUSY) return r; t[self].s = MUTEX; t[self].on = m; pass(4); } }
TRY(pthread_rwlock_rdlock, pthread_rwlock_t, pthread_rwlock_tryrdlock)
TRY(pthread_rwlock_wrlock, pthread_rwlock_t, pthread_rwlock_trywrlock)
int pthread_rwlock_unlock(pthread_rwlock_t * m) {
  static auto f = (int (*)(pthread_rwlock_t *))dlsym(RTLD_NEXT, "pthread_rwlock_unlock");
  int r = f(m);
  if (active()) { wake(MUTEX, m); point(5); }
  return r;
}
int sem_wait(sem_t * m) {
  static auto f = (int (*)(sem_t *))dlsym(RTLD_NEXT, "sem_wait");
  if (!active()) return f(m);
  point(3);
  for (;;) { if (!sem_trywait(m)) return 0; if (errno != EAGAIN) return -1; t[self].s = COND; t[self].timed = false; t[self].on = m; pass(4); }
}
int sem_post(sem_t * m) {
  static auto f = (int (*)(sem_t *))dlsym(RTLD_NEXT, "sem_post");
  int r = f(m);
  if (active()) { wake(COND, m); point(5); }
  return r;
}
// the futexes of std::future, std::atomic::wait and the like
long syscall(long n, ...) {
  va_list v; va_start(v, n);
  long a[6]; for (int i = 0; i < 6; ++i) a[i] = va_arg(v, long);
  va_end(v);
  if (n == SYS_futex && active()) {
    int op = a[1] & FUTEX_CMD_MASK;
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { wake(COND, (void *)a[0]); point(9); return 1; }
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      point(6);
      if (*(volatile int *)a[0] != (int)a[2]) { errno = EAGAIN; return -1; }
      T & x = t[self];
      x.s = COND; x.on = (void *)a[0]; x.timedout = false; x.timed = a[3] != 0;
      if (x.timed) x.deadline = op == FUTEX_WAIT ? vnow + nanos((timespec *)a[3]) : nanos((timespec *)a[3]) - (a[1] & FUTEX_CLOCK_REALTIME ? nanos(&base_real) + skew : 0);
      pass(7);
      x.timed = false;
      if (x.timedout) { errno = ETIMEDOUT; return -1; }
      return 0;
    }
  }
  long r = raw(n, a[0], a[1], a[2], a[3], a[4], a[5]);
  if (r < 0 && r > -4096) { errno = -r; return -1; }
  return r;
}

int sched_yield() {
  if (!active()) return raw(SYS_sched_yield);
  t[self].prio = --low;
  point(10);
  return 0;
}
static void nap(long long ns) {
  if (ns < 0) ns = 0;
  T & x = t[self];
  x.s = SLEEP; x.deadline = vnow + ns;
  pass(11);
}
int nanosleep(const timespec * a, timespec * b) {
  if (!active()) return raw(SYS_nanosleep, (long)a, (long)b) ? -1 : 0;
  nap(nanos(a));
  return 0;
}
int clock_nanosleep(clockid_t c, int fl, const timespec * a, timespec * b) {
  if (!active()) { return -raw(SYS_clock_nanosleep, c, fl, (long)a, (long)b); }
  long long n = nanos(a);
  if (fl & TIMER_ABSTIME) n -= c == CLOCK_REALTIME ? nanos(&base_real) + skew + vnow : vnow;
  nap(n);
  return 0;
}
int usleep(useconds_t u) { timespec s = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return nanosleep(&s, NULL); }
int clock_gettime(clockid_t c, timespec * s) {
  if (!on || self < 0 || (c != CLOCK_REALTIME && c != CLOCK_MONOTONIC)) return raw(SYS_clock_gettime, c, (long)s) ? -1 : 0;
  long long n = vnow;
  if (c == CLOCK_REALTIME) {
    if (one_in(p_clock)) { skew += 360ll * 1000000000; ++skews; }
    n += nanos(&base_real) + skew;
  }
  s->tv_sec = n / 1000000000; s->tv_nsec = n % 1000000000;
  return 0;
}
}

void * operator new(size_t n) {
  if (active() && p_new && !quiet && one_in(p_new)) { ++news; point(12); }
  for (;;) {
    if (void * p = malloc(n ? n : 1)) return p;
    std::new_handler h = std::get_new_handler();
    if (!h) throw std::bad_alloc();
    h();
  }
}
void operator delete(void * p) noexcept { free(p); }
void operator delete(void * p, size_t) noexcept { free(p); }
