// Preloaded into programs under test: moves the clock, shortens sleeps, disturbs schedules and
// supplies unlucky random numbers. Does nothing unless told by environment variables.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <atomic>
#include <dlfcn.h>
#include <fcntl.h>
#include <flint/flint.h>
#include <flint/gr.h>
#include <flint/nmod_poly.h>
#include <flint/fq_nmod_poly.h>
#include <pthread.h>
#include <sched.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
static long envn(const char * k, long d) { const char * s = getenv(k); return s ? atol(s) : d; }
template <class F> static F next(const char * n) { return (F)dlsym(RTLD_NEXT, n); }

// how often the time was asked for: wall clock, and steady clock of the standard library (VSHIM_LOOKS: file)
static std::atomic<long> wall_looks(0), steady_looks(0);
static bool counting() { static bool b = getenv("VSHIM_LOOKS") != NULL; return b; }
static bool from(void * ra, const char * what) {
  Dl_info i;
  return dladdr(ra, &i) && i.dli_fname && strstr(i.dli_fname, what);
}
__attribute__((destructor)) static void report_looks() {
  const char * fn = getenv("VSHIM_LOOKS");
  if (!fn || (!wall_looks && !steady_looks)) return;
  char name[4096]; snprintf(name, sizeof name, "%s.%d", fn, (int)getpid());
  if (FILE * f = fopen(name, "w")) { fprintf(f, "%ld %ld\n", wall_looks.load(), steady_looks.load()); fclose(f); }
}

// every VSHIM_CLOCK_EVERY-th look at the wall clock is VSHIM_CLOCK_STEP seconds later
extern "C" int clock_gettime(clockid_t c, struct timespec * t) {
  // by system call: looking up the libc function would allocate, and allocators ask for the time
  if (c != CLOCK_REALTIME && counting() && from(__builtin_return_address(0), "libstdc++")) ++steady_looks;
  if (c == CLOCK_REALTIME) ++wall_looks;
  if (c != CLOCK_REALTIME) return syscall(SYS_clock_gettime, c, t);
  static long every = envn("VSHIM_CLOCK_EVERY", 0), step = envn("VSHIM_CLOCK_STEP", 360);
  static std::atomic<long> calls(0);
  int r = syscall(SYS_clock_gettime, c, t);
  if (every && !r) t->tv_sec += (++calls / every) * step;
  return r;
}

// other ways to ask for it, for the program itself
extern "C" time_t time(time_t * t) {
  struct timespec s;
  if (from(__builtin_return_address(0), "/hycu-")) clock_gettime(CLOCK_REALTIME, &s);
  else syscall(SYS_clock_gettime, CLOCK_REALTIME, &s);
  if (t) *t = s.tv_sec;
  return s.tv_sec;
}
extern "C" int gettimeofday(struct timeval * t, void * z) {
  struct timespec s;
  if (from(__builtin_return_address(0), "/hycu-")) clock_gettime(CLOCK_REALTIME, &s);
  else syscall(SYS_clock_gettime, CLOCK_REALTIME, &s);
  if (t) { t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; }
  return 0;
}

// VSHIM_MEET: file shared by the processes. Each squarefree test asked for by the program is an arrival. With
// VSHIM_GROUPS (a list of "size:blocks", one for each family) arrivals are in groups, and none goes on before all of
// its group have arrived, or VSHIM_MEET_WAIT seconds have passed. Surveys with one polynomial in each block have one
// arrival for each block. VSHIM_MEET.<pid> lists the threads that arrived.
namespace {
struct meeting { std::atomic<long> arrivals, given_up; };
meeting * the_meeting() {
  static meeting * m = [] {
    const char * fn = getenv("VSHIM_MEET");
    if (!fn) return (meeting *)NULL;
    int fd = open(fn, O_RDWR | O_CREAT, 0644);
    if (fd < 0 || ftruncate(fd, 4096)) return (meeting *)NULL;
    void * v = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    return v == MAP_FAILED ? (meeting *)NULL : (meeting *)v;
  }();
  return m;
}
void arrive() {
  meeting * m = the_meeting();
  if (!m) return;
  static thread_local bool known = false;
  if (!known) {
    known = true;
    char name[4096], line[64];
    snprintf(name, sizeof name, "%s.%d", getenv("VSHIM_MEET"), (int)getpid());
    int n = snprintf(line, sizeof line, "%ld\n", (long)syscall(SYS_gettid)), fd = open(name, O_WRONLY | O_CREAT | O_APPEND, 0644);
    if (fd >= 0) { (void)!write(fd, line, n); close(fd); }
  }
  long k = m->arrivals++, base = 0, goal = 0;
  for (const char * g = getenv("VSHIM_GROUPS"); g && *g; g = strchr(g, ' ') ? strchr(g, ' ') + 1 : NULL) {
    long size = atol(g), blocks = strchr(g, ':') ? atol(strchr(g, ':') + 1) : 0;
    if (k < base + blocks) {
      long end = ((k - base) / size + 1) * size;
      goal = end <= blocks ? base + end : 0; // the rest does not make a group
      break;
    }
    base += blocks;
  }
  static long wait = envn("VSHIM_MEET_WAIT", 30);
  for (long us = 0; m->arrivals < goal && !m->given_up; us += 300) {
    if (us > wait * 1000000) m->given_up = m->arrivals.load() + 1;
    struct timespec t = {0, 300000};
    syscall(SYS_clock_nanosleep, CLOCK_MONOTONIC, 0, &t, NULL);
  }
}
}
// VSHIM_SLOW=n: one in n squarefree tests of the worker threads takes up to VSHIM_SLOW_MS milliseconds, few of them nearly so
// many: blocks take very different times
// VSHIM_FAST_RANK=r: in all MPI ranks but r every such test takes VSHIM_SLOW_MS milliseconds: rank r gets most of the blocks
static bool slow_rank() {
  static long r = envn("VSHIM_FAST_RANK", -1);
  static bool slow = r >= 0 && getenv("OMPI_COMM_WORLD_RANK") && envn("OMPI_COMM_WORLD_RANK", 0) != r;
  return slow;
}
static void dawdle() {
  static long n = envn("VSHIM_SLOW", 0), ms = envn("VSHIM_SLOW_MS", 50), seed = envn("VSHIM_SEED", 1);
  static thread_local uint64_t s = 0;
  if (slow_rank()) {
    static auto f = next<int (*)(const struct timespec *, struct timespec *)>("nanosleep");
    struct timespec t = {ms / 1000, ms % 1000 * 1000000};
    f(&t, NULL);
    return;
  }
  if (!n) return;
  if (!s) s = ((uint64_t)syscall(SYS_gettid) ^ ((uint64_t)seed << 40)) * 0x9E3779B97F4A7C15ull | 1;
  s ^= s << 13; s ^= s >> 7; s ^= s << 17;
  if ((s >> 20) % n) return;
  static auto f = next<int (*)(const struct timespec *, struct timespec *)>("nanosleep");
  double u = (s >> 40) / (double)(1 << 24);
  long us = ms * 1000 * u * u * u;
  struct timespec t = {us / 1000000, us % 1000000 * 1000};
  f(&t, NULL);
}
static bool at_work(void * ra) { // the main thread only prepares
  static bool on = the_meeting() || envn("VSHIM_SLOW", 0) || slow_rank();
  return on && syscall(SYS_gettid) != getpid() && from(ra, "/hycu-");
}
extern "C" int nmod_poly_is_squarefree(const nmod_poly_struct * p) {
  static auto f = next<int (*)(const nmod_poly_struct *)>("nmod_poly_is_squarefree");
  if (at_work(__builtin_return_address(0))) { arrive(); dawdle(); }
  return f(p);
}
extern "C" int fq_nmod_poly_is_squarefree(const fq_nmod_poly_struct * p, const fq_nmod_ctx_struct * c) {
  static auto f = next<int (*)(const fq_nmod_poly_struct *, const fq_nmod_ctx_struct *)>("fq_nmod_poly_is_squarefree");
  if (at_work(__builtin_return_address(0))) { arrive(); dawdle(); }
  return f(p, c);
}

static void shorten(const struct timespec * in, struct timespec * out) {
  static long div = envn("VSHIM_SLEEP_DIV", 1);
  long long ns = (in->tv_sec * 1000000000ll + in->tv_nsec) / (div > 0 ? div : 1);
  out->tv_sec = ns / 1000000000ll; out->tv_nsec = ns % 1000000000ll;
}
extern "C" int nanosleep(const struct timespec * a, struct timespec * b) {
  static auto f = next<int (*)(const struct timespec *, struct timespec *)>("nanosleep");
  struct timespec s; shorten(a, &s);
  return f(&s, b);
}
extern "C" int clock_nanosleep(clockid_t c, int fl, const struct timespec * a, struct timespec * b) {
  static auto f = next<int (*)(clockid_t, int, const struct timespec *, struct timespec *)>("clock_nanosleep");
  if (fl & TIMER_ABSTIME) return f(c, fl, a, b);
  struct timespec s; shorten(a, &s);
  return f(c, fl, &s, b);
}

// delays before waiting and around mutexes: VSHIM_JITTER = maximal microseconds
static void jitter(int weight) {
  static long us = envn("VSHIM_JITTER", 0), seed = envn("VSHIM_SEED", 1);
  static thread_local uint64_t s = 0;
  if (!us) return;
  if (!s) s = ((uint64_t)pthread_self() ^ ((uint64_t)seed << 40)) * 0x9E3779B97F4A7C15ull | 1;
  s ^= s << 13; s ^= s >> 7; s ^= s << 17;
  unsigned k = s % 16;
  if (k < (unsigned)weight) {
    static auto f = next<int (*)(const struct timespec *, struct timespec *)>("nanosleep");
    struct timespec t = {0, (long)((s >> 16) % (us * 1000 + 1))};
    f(&t, NULL);
  } else if (k < 10) sched_yield();
}
extern "C" int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m) {
  static auto f = (int (*)(pthread_cond_t *, pthread_mutex_t *))dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2");
  jitter(8);
  return f(c, m);
}
extern "C" int pthread_mutex_lock(pthread_mutex_t * m) {
  static auto f = next<int (*)(pthread_mutex_t *)>("pthread_mutex_lock");
  jitter(1);
  return f(m);
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t * m) {
  static auto f = next<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock");
  int r = f(m);
  jitter(1);
  return r;
}

// std::random_device: VSHIM_RD_DRAWS draws come from 0..VSHIM_RD_RANGE-1 in a fixed sequence, then real ones
namespace std { class random_device; }
extern "C" unsigned _ZNSt13random_device9_M_getvalEv(void * self) {
  static auto f = next<unsigned (*)(void *)>("_ZNSt13random_device9_M_getvalEv");
  static long draws = envn("VSHIM_RD_DRAWS", 0), range = envn("VSHIM_RD_RANGE", 1);
  static std::atomic<long> n(0);
  long k = n++;
  if (k >= draws) return f(self);
  uint64_t z = (k + 1) * 0x9E3779B97F4A7C15ull; z ^= z >> 29; z *= 0xBF58476D1CE4E5B9ull; z ^= z >> 32;
  return z % range;
}

// VSHIM_GR_DELAY: FLINT fills its method tables lazily and without synchronisation. Filling them
// slowly, here, lets two threads that do so at the same time meet. Same tables, same contents.
namespace {
typedef int (*gr_fn)(void);
struct gr_in { int index; gr_fn function; };
gr_fn gr_none; gr_in * gr_generic; long gr_us;
std::atomic<int> gr_running(0);
void gr_fill(gr_fn * m, gr_in * tab) {
  if (++gr_running > 1) { static const char w[] = "libshim: method tables initialised by two threads at once\n"; (void)!write(2, w, sizeof w - 1); }
  for (int i = 0; i < GR_METHOD_TAB_SIZE; ++i) m[i] = gr_none;
  struct timespec s = {0, gr_us * 1000};
  static auto f = next<int (*)(const struct timespec *, struct timespec *)>("nanosleep");
  f(&s, NULL);
  for (gr_in * t = gr_generic; t->function; ++t) m[t->index] = t->function;
  for (gr_in * t = tab; t->function; ++t) m[t->index] = t->function;
  --gr_running;
}
// overwrites the beginning of a function by a jump
bool redirect(const char * name, void * to) {
  unsigned char * at = (unsigned char *)dlsym(RTLD_DEFAULT, name);
  if (!at) return false;
  long ps = sysconf(_SC_PAGESIZE);
  uintptr_t lo = (uintptr_t)at / ps * ps, hi = ((uintptr_t)at + 12 + ps - 1) / ps * ps;
  if (mprotect((void *)lo, hi - lo, PROT_READ | PROT_WRITE | PROT_EXEC)) return false;
  at[0] = 0x48; at[1] = 0xb8; memcpy(at + 2, &to, 8); at[10] = 0xff; at[11] = 0xe0;
  mprotect((void *)lo, hi - lo, PROT_READ | PROT_EXEC);
  return true;
}
__attribute__((constructor)) void gr_patch() {
  gr_us = envn("VSHIM_GR_DELAY", 0);
  if (!gr_us) return;
  gr_none = (gr_fn)dlsym(RTLD_DEFAULT, "gr_not_implemented");
  gr_generic = (gr_in *)dlsym(RTLD_DEFAULT, "_gr_generic_methods");
  if (gr_none && gr_generic) redirect("gr_method_tab_init", (void *)gr_fill);
}
}

// VSHIM_FMPZ: FLINT pools the large integers behind fmpz, so that no memory checker sees their
// lives. Let them live on the heap instead, one by one. VSHIM_FMPZ_LOG: number still alive at the end.
namespace {
std::atomic<long> fmpz_live(0), fmpz_made(0);
void (*gmp_init2)(void *, unsigned long); void (*gmp_clear)(void *);
void * fmpz_new() { void * m = malloc(16); gmp_init2(m, 128); ++fmpz_live; ++fmpz_made; return m; }
void fmpz_gone(uint64_t f) { void * m = (void *)(f << 2); gmp_clear(m); free(m); --fmpz_live; }
__attribute__((constructor)) void fmpz_patch() {
  if (!envn("VSHIM_FMPZ", 0)) return;
  gmp_init2 = (void (*)(void *, unsigned long))dlsym(RTLD_DEFAULT, "__gmpz_init2");
  gmp_clear = (void (*)(void *))dlsym(RTLD_DEFAULT, "__gmpz_clear");
  if (gmp_init2 && gmp_clear) redirect("_fmpz_new_mpz", (void *)fmpz_new) && redirect("_fmpz_clear_mpz", (void *)fmpz_gone);
}
}
extern "C" long vshim_fmpz_live() { return fmpz_live; }
extern "C" long vshim_fmpz_made() { return fmpz_made; }
