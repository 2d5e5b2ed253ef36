// C10, C11: the thread pool and the standalone worker pool driven directly.
//  mode pool        ThreadPool with a recording store factory, event monitors
//  mode standalone  StandaloneWorkerPool with a recording store factory, event monitors
//  mode real        StandaloneWorkerPool with the real store and no monitors (for the race detector)
#include <atomic>
#include <chrono>
#include <dirent.h>
#include <fstream>
#include <thread>
#include <unistd.h>
#include <boost/filesystem.hpp>
#include "hc.hh"
#include "config/config_node.hh"
#include "store/file_store.hh"
#include "store/store_factory.hh"
#include "threaded/thread_pool.hh"
#include "worker_pool/standalone.hh"
using namespace hc;
using std::string; using std::to_string; using std::get; using std::tie;
namespace fs = boost::filesystem;
static vh::Stats S;
static std::atomic<long> progress(0);
static string where;

static string text(const vuu_block & b) { string s; for (auto & t : b) s += to_string(get<0>(t)) + " " + to_string(get<1>(t)) + " "; return s; }

// ---- threads of this process, by state ---------------------------------------------------------
extern "C" int vsched_alive() __attribute__((weak)); // of harness/libsched.cc: threads under its control
static bool controlled() { return vsched_alive && vsched_alive() >= 0; }
static int tasks(bool & all_sleep, int self) {
  if (controlled()) { all_sleep = false; return vsched_alive(); }
  int n = 0; all_sleep = true;
  DIR * d = opendir("/proc/self/task");
  while (dirent * e = readdir(d)) {
    if (e->d_name[0] == '.') continue;
    ++n;
    // the main thread polls by design
    if (atoi(e->d_name) == self || atoi(e->d_name) == (int)getpid()) continue;
    std::ifstream f(string("/proc/self/task/") + e->d_name + "/stat");
    string l; std::getline(f, l);
    size_t k = l.rfind(')');
    if (k != string::npos && k + 2 < l.size() && l[k + 2] != 'S') all_sleep = false;
  }
  closedir(d);
  return n;
}

static void raw_sleep(long us) { timespec t = {us / 1000000, us % 1000000 * 1000}; clock_nanosleep(CLOCK_MONOTONIC, 0, &t, NULL); }

static double mono() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

// a pool that does not move although all its threads sleep is stuck
static void watchdog(double limit) {
  std::thread([limit] {
    int self = (int)syscall(186);
    long last = -1; double since = mono(); long samples = 0, asleep = 0;
    while (true) {
      double t0 = mono();
      while (mono() - t0 < 0.1) raw_sleep(100000);
      long p = progress;
      bool sl; tasks(sl, self);
      if (p != last) { last = p; since = mono(); samples = asleep = 0; continue; }
      ++samples; if (sl) ++asleep;
      if (mono() - since > limit && samples > 50 && asleep * 100 >= samples * 97) {
        vh::violation("stuck", where + ": no event for " + to_string((int)limit) + " s with all worker threads asleep");
        S.print(); vh::done(); _exit(0);
      }
    }
  }).detach();
}

// ---- recording store ---------------------------------------------------------------------------
struct Fam { unsigned p, n; std::shared_ptr<ref::Field> F; };
struct Log {
  std::mutex m;
  std::map<string, int> flushed;               // block -> number of flushes
  std::map<string, std::multiset<string>> curves; // block -> positions registered
  std::map<std::thread::id, int> holding;      // thread -> stores in use
  int in_progress = 0, max_in_progress = 0;
  std::set<string> pending;                    // flushed, not in a snapshot
  std::map<string, int> snapshot;              // block -> number of snapshots with it
  std::set<std::thread::id> workers;
  string order;                                // order of completion: the interleaving seen
  const Fam * fam = NULL;
  int maxthreads = 0;
  std::atomic<int> slow{0};
  void reset() { flushed.clear(); curves.clear(); pending.clear(); snapshot.clear(); order.clear(); workers.clear(); max_in_progress = 0; }
};
static Log L;

struct RecStore : StoreInterface {
  std::multiset<string> pos;
  std::thread::id owner;
  bool counted = false;
  uint64_t rs;
  RecStore() { rs = (uint64_t)(uintptr_t)this; }
  void first() {
    if (counted) return;
    counted = true; owner = std::this_thread::get_id();
    std::lock_guard<std::mutex> l(L.m);
    L.workers.insert(owner);
    if (++L.holding[owner] > 1) vh::violation("two_blocks_at_once", where + ": a thread works on two blocks");
    if (++L.in_progress > L.max_in_progress) L.max_in_progress = L.in_progress;
    if (L.in_progress > L.maxthreads) vh::violation("too_many_in_progress", where + ": " + to_string(L.in_progress) + " blocks in progress with " + to_string(L.maxthreads) + " threads");
  }
  void register_curve(const Curve & c) {
    first();
    ++progress;
    auto e = c.rhs_coeff_exponents();
    pos.insert(vh::join(e));
    if (std::this_thread::get_id() != owner) vh::violation("store_of_another_thread", where);
    const Fam * f = L.fam;
    if (c.prime() != f->p) vh::violation("wrong_configuration", where + ": curve over F_" + to_string(c.prime()) + " while F_" + to_string(f->p) + " is configured");
    auto & pts = c.number_of_points();
    bool ok = pts.size() == f->n;
    for (unsigned k = 1; k <= f->n; ++k) ok = ok && pts.count(k);
    if (!ok) vh::violation("not_counted", where + ": registered curve has " + to_string(pts.size()) + " counts instead of " + to_string(f->n));
    int s = L.slow;
    if (s) { rs = rs * 6364136223846793005ull + 1442695040888963407ull; if ((rs >> 33) % 8 == 0) raw_sleep((rs >> 40) % s); else if ((rs >> 33) % 8 == 1) sched_yield(); }
  }
  void flush_to_static_store(const vuu_block & b) {
    first();
    ++progress;
    if (L.slow && (rs >> 20) % 3 == 0) raw_sleep((rs >> 30) % L.slow);
    std::lock_guard<std::mutex> l(L.m);
    auto t = text(b);
    ++L.flushed[t];
    if (L.flushed[t] > 1) vh::violation("flushed_twice", where + ": block " + t);
    L.curves[t] = pos;
    L.pending.insert(t);
    L.order += to_string(std::hash<string>()(t) % 997) + ",";
    --L.holding[owner]; --L.in_progress; counted = false;
  }
  std::tuple<string, string> flush_static_store() {
    std::lock_guard<std::mutex> l(L.m);
    string rec;
    for (auto & b : L.pending) { rec += b + "\n"; ++L.snapshot[b]; }
    L.pending.clear();
    return std::make_tuple(rec, string("1,1,1,1;0:") + to_string(L.snapshot.size()) + "\n");
  }
  void extract(std::istream &) {}
  void extract(std::istream &&) {}
  void insert(std::ostream &) const {}
  void insert(std::ostream &&) const {}
};
struct RecFactory : StoreFactoryInterface {
  std::shared_ptr<StoreInterface> create() const { return std::make_shared<RecStore>(); }
};

// ---- workload ----------------------------------------------------------------------------------
static std::vector<vuu_block> make_blocks(const Fam & f, int n, vh::Rng & R) {
  std::set<vuu_block> out;
  for (int tries = 0; (int)out.size() < n && tries < 50 * n + 100; ++tries) {
    vuu_block b;
    int vol = 1;
    unsigned deg = R.chance(1, 4) ? 4 : 3;
    for (unsigned i = 0; i <= deg; ++i) {
      unsigned top = i == deg ? f.p - 1 : f.p; // the leading coefficient is not zero
      unsigned lo = R.below(top), w = vol < 12 && R.chance(1, 3) ? 1 + R.below(std::min(top - lo, 4u)) : 1;
      vol *= w;
      b.push_back(std::make_tuple(lo, lo + w));
    }
    out.insert(b);
  }
  std::vector<vuu_block> v(out.begin(), out.end());
  R.shuffle(v);
  return v;
}
static std::map<unsigned, std::shared_ptr<Base>> bases;
static std::multiset<string> expected_curves(const Fam & f, const vuu_block & b) {
  auto & base = bases[f.p];
  if (!base) base = std::make_shared<Base>(f.p, 1);
  std::multiset<string> out;
  std::vector<unsigned> e;
  for (auto & t : b) e.push_back(get<0>(t));
  for (;;) {
    if (ref::squarefree(*base->F, base->small_poly(e))) out.insert(vh::join(e));
    size_t i = 0;
    while (i < e.size() && ++e[i] == get<1>(b[i])) { e[i] = get<0>(b[i]); ++i; }
    if (i == e.size()) break;
  }
  return out;
}
static void check_blocks(const Fam & f, const std::vector<vuu_block> & blocks, const string & who) {
  std::lock_guard<std::mutex> l(L.m);
  for (auto & b : blocks) {
    auto t = text(b);
    S.eval();
    if (L.flushed[t] != 1) vh::violation("processed_once", who + ": block " + t + " was processed " + to_string(L.flushed[t]) + " times");
    if (L.curves[t] != expected_curves(f, b)) vh::violation("curves_of_block", who + ": block " + t + ": " + to_string(L.curves[t].size()) + " curves registered, " + to_string(expected_curves(f, b).size()) + " expected");
  }
  size_t n = 0; for (auto & kv : L.flushed) n += kv.second;
  if (n != blocks.size()) vh::violation("processed_once", who + ": " + to_string(n) + " blocks processed, " + to_string(blocks.size()) + " assigned");
  S.add("blocks", blocks.size());
  S.distinct(L.order);
  if (L.max_in_progress > 1) S.add("rounds_with_parallel_work");
  S.m["max_in_progress"] = std::max<long long>(S.m["max_in_progress"], L.max_in_progress);
}

static ConfigNode config_of(const Fam & f, const string & dir) {
  ConfigNode c;
  c.prime = f.p; c.prime_exponent = 1; c.genus = 1; c.with_marked_point = false; c.count_exponent = f.n; c.package_size = 1;
  c.result_path = fs::path(dir);
  return c;
}
static const unsigned PR[] = {3, 5, 7, 11, 13, 101};
static Fam random_fam(vh::Rng & R) { unsigned p = PR[R.below(6)]; return {p, p < 50 ? (unsigned)R.range(1, 2) : 1, nullptr}; }

static void wait_tasks(int baseline, const string & who) {
  bool x; double t0 = mono();
  while (tasks(x, 0) > baseline) { raw_sleep(2000); if (mono() - t0 > 20) { vh::violation("threads_left", who + ": threads are left after shutdown"); return; } }
}

static void pool_round(int n, int nblocks, vh::Rng & R) {
  bool x; int baseline = tasks(x, 0);
  string who = "ThreadPool n=" + to_string(n) + " blocks=" + to_string(nblocks);
  where = who;
  L.slow = R.chance(1, 2) ? R.range(1, 3000) : 0;
  auto pool = std::make_shared<ThreadPool>(std::make_shared<RecFactory>());
  pool->spark_threads(n, 0);
  int threads = n < 0 ? (int)std::thread::hardware_concurrency() : n;
  L.maxthreads = threads;
  int configs = R.range(0, 3);
  long idle = 0;
  for (int k = 0; k < configs; ++k) {
    Fam f = random_fam(R);
    { std::lock_guard<std::mutex> l(L.m); L.reset(); L.fam = &f; }
    pool->update_config(config_of(f, "/nonexistent"));
    auto blocks = make_blocks(f, R.chance(1, 6) ? 0 : nblocks, R);
    size_t next = 0; std::multiset<string> finished; std::multiset<string> assigned;
    while (finished.size() < blocks.size() || next < blocks.size()) {
      if (R.chance(2, 3)) {
        auto r = pool->flush_ready_threads();
        idle += get<0>(r);
        if (get<1>(r)) vh::violation("opencl_thread", who);
        if (idle > threads) { vh::violation("too_many_idle", who + ": " + to_string(idle) + " idle threads of " + to_string(threads)); break; }
      }
      while (idle > 0 && next < blocks.size() && R.chance(4, 5)) {
        ++progress; --idle; assigned.insert(text(blocks[next]));
        pool->assign(blocks[next++], false);
        { std::lock_guard<std::mutex> l(L.m); long open = next; for (auto & kv : L.flushed) open -= kv.second; if (open > threads) vh::violation("too_many_in_progress", who); }
      }
      if (R.chance(2, 3)) for (auto & b : pool->flush_finished_blocks()) {
        ++progress;
        auto t = text(b);
        finished.insert(t);
        if (!assigned.count(t)) vh::violation("finished_unassigned", who + ": block " + t);
        if (finished.count(t) > 1) vh::violation("finished_twice", who + ": block " + t);
        std::lock_guard<std::mutex> l(L.m);
        if (L.flushed[t] < 1) vh::violation("finished_before_flushed", who + ": block " + t + " is reported before its results are accumulated");
      }
      if (R.chance(1, 3)) raw_sleep(R.below(500));
    }
    // nothing may come after
    for (int i = 0; i < 2; ++i) { for (auto & b : pool->flush_finished_blocks()) vh::violation("finished_twice", who + ": late " + text(b)); raw_sleep(R.below(300)); }
    idle += get<0>(pool->flush_ready_threads());
    if (idle != threads) vh::violation("threads_lost", who + ": " + to_string(idle) + " of " + to_string(threads) + " threads are ready after all blocks");
    check_blocks(f, blocks, who);
    S.add("configurations");
  }
  where += " shutdown";
  if (R.chance(1, 3)) raw_sleep(R.below(2000));
  pool->shutdown_threads();
  ++progress;
  pool.reset();
  wait_tasks(baseline, who);
  S.add("pools"); S.eval();
}

static void standalone_round(int n, int nblocks, const string & dir, vh::Rng & R) {
  bool x; int baseline = tasks(x, 0);
  string who = "StandaloneWorkerPool n=" + to_string(n) + " blocks=" + to_string(nblocks);
  where = who;
  L.slow = R.chance(1, 2) ? R.range(1, 3000) : 0;
  int threads = n < 0 ? (int)std::thread::hardware_concurrency() : n;
  L.maxthreads = threads;
  int configs = R.range(0, 3);
  std::vector<Fam> fams; for (int k = 0; k < configs; ++k) fams.push_back(random_fam(R));
  std::vector<vuu_block> last; 
  Fam * cur = NULL;
  string ldir;
  auto check_saved = [&] { // everything flushed is in exactly one file
    if (!cur) return;
    check_blocks(*cur, last, who);
    std::multiset<string> want, got;
    for (auto & b : last) want.insert(text(b));
    for (fs::directory_iterator it(ldir), e; it != e; ++it)
      if (it->path().extension() == ".hycu_record") { std::ifstream f(it->path().native()); for (string l; std::getline(f, l);) got.insert(l); S.add("files"); }
    S.eval();
    if (got != want) vh::violation("blocks_saved", who + ": files list " + to_string(got.size()) + " blocks, " + to_string(want.size()) + " were assigned");
    fs::remove_all(ldir);
  };
  {
    StandaloneWorkerPool pool(std::make_shared<RecFactory>(), n, 0);
    for (int k = 0; k < configs; ++k) {
      string d = dir + "/c" + to_string(k);
      fs::create_directories(d);
      if (cur) pool.wait_for_assigned_blocks(), pool.save_global_stores_to_file(), check_saved();
      fs::create_directories(ldir.empty() ? d : ldir); // the pool saves once more when it is reconfigured
      { std::lock_guard<std::mutex> l(L.m); L.reset(); L.fam = &fams[k]; }
      string old = ldir;
      pool.update_config(config_of(fams[k], d));
      ++progress;
      if (!old.empty()) fs::remove_all(old);
      cur = &fams[k]; ldir = d;
      last = make_blocks(fams[k], R.chance(1, 6) ? 0 : nblocks, R);
      size_t done = 0;
      for (auto & b : last) {
        pool.assign(b); ++done; ++progress;
        { std::lock_guard<std::mutex> l(L.m); long open = done; for (auto & kv : L.flushed) open -= kv.second; if (open > threads) vh::violation("too_many_in_progress", who + ": " + to_string(open) + " blocks open"); }
        if (R.chance(1, 20)) pool.save_global_stores_to_file();
        if (R.chance(1, 30)) pool.wait_for_assigned_blocks();
        if (R.chance(1, 10)) pool.flush_finished_blocks();
        if (R.chance(1, 10)) raw_sleep(R.below(800));
      }
      S.add("configurations");
    }
    where += " destruction";
  }
  ++progress;
  check_saved();
  wait_tasks(baseline, who);
  S.add("pools"); S.eval();
}

static void real_round(int n, int nblocks, const string & dir, vh::Rng & R) {
  where = "real n=" + to_string(n);
  std::vector<string> dirs;
  {
    StandaloneWorkerPool pool(StoreType::EC, n, 0);
    for (int k = R.range(1, 3); k--;) {
      Fam f = random_fam(R);
      string d = dir + "/r" + to_string(k);
      fs::create_directories(d); dirs.push_back(d);
      pool.update_config(config_of(f, d));
      for (auto & b : make_blocks(f, nblocks, R)) {
        pool.assign(b);
        if (R.chance(1, 8)) pool.save_global_stores_to_file();
        if (R.chance(1, 30)) pool.wait_for_assigned_blocks();
        S.add("blocks");
      }
      ++progress; S.eval();
    }
  }
  for (auto & d : dirs) fs::remove_all(d);
  S.add("pools"); S.distinct(to_string(R.next()));
}

int main(int argc, char ** argv) {
  vh::Args A(argc, argv);
  vh::Rng R(A.num("seed", 1) * 6151 + 3);
  string mode = A.str("mode", "pool"), dir = A.str("dir", "/tmp/none");
  int n = A.num("threads", 4), nb = A.num("blocks", 30);
  if (!controlled()) watchdog(A.num("limit", 25)); // the scheduler notices by itself
  for (int i = 0; i < A.num("rounds", 20); ++i) {
    int b = R.chance(1, 8) ? R.range(0, 3) : R.range(0, nb);
    if (mode == "pool") pool_round(n, b, R);
    else if (mode == "standalone") standalone_round(n, b, dir, R);
    else real_round(n, b, dir, R);
    ++progress;
  }
  vh::sample(where + " order of completion " + L.order.substr(0, 120));
  S.print();
  vh::done();
  if (controlled()) return 0;
  _exit(0); // the watchdog still runs
}
