// C24: all threads of a pool are at work at once. Blocks come in groups of as many as there are threads, and the
// store handed to the pool lets no block of a group go on before all of the group have begun: a pool that leaves a
// thread without work does not get past that. mode pool | standalone; wait = seconds (0: for ever).
#include <chrono>
#include <condition_variable>
#include <fstream>
#include <mutex>
#include <thread>
#include <unistd.h>
#include <boost/filesystem.hpp>
#include "hc.hh"
#include "config/config_node.hh"
#include "store/store_factory.hh"
#include "threaded/thread_pool.hh"
#include "worker_pool/standalone.hh"
using namespace hc;
using std::string; using std::to_string; using std::get;
namespace fs = boost::filesystem;
static vh::Stats S;
static string where;
static string text(const vuu_block & b) { string s; for (auto & t : b) s += to_string(get<0>(t)) + " " + to_string(get<1>(t)) + " "; return s; }

struct Meet {
  std::mutex m; std::condition_variable cv;
  int begun = 0, working = 0, most = 0; // blocks begun in this configuration, being worked at
  int handed = 0, group = 1;            // blocks handed out; size of the groups
  bool given_up = false;
  long wait = 30;
  std::set<std::thread::id> who;
  void reset(int n) { std::lock_guard<std::mutex> l(m); begun = working = most = 0; group = n; who.clear(); }
  void begin() {
    std::unique_lock<std::mutex> l(m);
    int goal = (begun / group + 1) * group; // blocks come in whole groups
    who.insert(std::this_thread::get_id());
    most = std::max(most, ++working);
    ++begun;
    if (begun >= goal) cv.notify_all();
    auto here = [&] { return begun >= goal || given_up; };
    if (wait == 0) { cv.wait(l, here); return; }
    if (!cv.wait_for(l, std::chrono::seconds(wait), here)) {
      given_up = true;
      vh::violation("thread_without_work", where + ": only " + to_string(working) + " of " + to_string(group) + " threads are at work for " + to_string(wait) +
                    " s, after " + to_string(begun) + " blocks were begun, while blocks wait for a thread");
      cv.notify_all();
    }
  }
  void end() { std::lock_guard<std::mutex> l(m); --working; }
};
static Meet M;

struct MeetStore : StoreInterface {
  bool begun = false;
  void first() { if (!begun) { begun = true; M.begin(); } }
  void register_curve(const Curve &) { first(); }
  void flush_to_static_store(const vuu_block & b) { first(); begun = false; M.end(); }
  std::tuple<string, string> flush_static_store() { return std::make_tuple(string(), string()); }
  void extract(std::istream &) {}
  void extract(std::istream &&) {}
  void insert(std::ostream &) const {}
  void insert(std::ostream &&) const {}
};
struct MeetFactory : StoreFactoryInterface {
  std::shared_ptr<StoreInterface> create() const { return std::make_shared<MeetStore>(); }
};

static const unsigned PR[] = {3, 5, 7, 11, 13};
static ConfigNode config_of(unsigned p, unsigned n, const string & dir) {
  ConfigNode c;
  c.prime = p; c.prime_exponent = 1; c.genus = 1; c.with_marked_point = false; c.count_exponent = n; c.package_size = 1;
  c.result_path = fs::path(dir);
  return c;
}
static std::vector<vuu_block> make_blocks(unsigned p, int n, vh::Rng & R) {
  std::set<vuu_block> out;
  while ((int)out.size() < n) {
    vuu_block b;
    for (unsigned i = 0; i <= 4; ++i) { unsigned lo = R.below(i == 4 ? p - 1 : p); b.push_back(std::make_tuple(lo, lo + 1)); }
    out.insert(b);
  }
  std::vector<vuu_block> v(out.begin(), out.end());
  R.shuffle(v);
  return v;
}
static int groups_of(unsigned p, int n, vh::Rng & R) { // so that there are blocks enough
  int room = p == 3 ? 100 : p == 5 ? 1500 : 4000;
  return R.range(0, std::max(1, std::min(6, room / n)));
}
static void judge(int n, int groups) {
  std::lock_guard<std::mutex> l(M.m);
  S.eval(); S.add("groups", groups);
  if (M.given_up) return;
  if (groups && (int)M.who.size() != n) vh::violation("threads_at_work", where + ": " + to_string(M.who.size()) + " threads worked instead of " + to_string(n));
  if (M.begun != groups * n) vh::violation("blocks_begun", where + ": " + to_string(M.begun) + " blocks were begun of " + to_string(groups * n));
}

static void standalone(int n, const string & dir, vh::Rng & R) {
  int threads = n < 0 ? (int)std::thread::hardware_concurrency() : n;
  std::vector<string> dirs;
  {
    StandaloneWorkerPool pool(std::make_shared<MeetFactory>(), n, R.pick(std::vector<int>{0, 1, 8, 30}));
    for (int k = 0, configs = R.range(1, 4); k < configs && !M.given_up; ++k) {
      unsigned p = PR[R.below(5)];
      string d = dir + "/c" + to_string(k);
      fs::create_directories(d); dirs.push_back(d);
      where = "StandaloneWorkerPool of " + to_string(n) + " threads, configuration " + to_string(k + 1);
      pool.update_config(config_of(p, R.range(1, 2), d));
      M.reset(threads);
      int groups = groups_of(p, threads, R);
      if (threads > 100 && p == 3) groups = 0;
      auto blocks = make_blocks(p, groups * threads, R);
      for (int i = 0; i < (int)blocks.size(); ++i) {
        pool.assign(blocks[i]);
        // within a group only what does not wait for blocks to end
        if (R.chance(1, 8)) pool.flush_finished_blocks();
        if (R.chance(1, 12)) pool.save_global_stores_to_file();
        if ((i + 1) % threads == 0 && R.chance(1, 4)) pool.wait_for_assigned_blocks();
      }
      pool.wait_for_assigned_blocks();
      judge(threads, groups);
      S.add("configurations");
    }
  }
  for (auto & d : dirs) fs::remove_all(d);
}
static void raw(int n, vh::Rng & R) {
  int threads = n < 0 ? (int)std::thread::hardware_concurrency() : n;
  auto pool = std::make_shared<ThreadPool>(std::make_shared<MeetFactory>());
  pool->spark_threads(n, R.pick(std::vector<int>{0, 1, 8, 30}));
  long idle = 0;
  for (int k = 0, configs = R.range(1, 4); k < configs && !M.given_up; ++k) {
    unsigned p = PR[R.below(5)];
    where = "ThreadPool of " + to_string(n) + " threads, configuration " + to_string(k + 1);
    pool->update_config(config_of(p, 1, "/nonexistent"));
    M.reset(threads);
    int groups = groups_of(p, threads, R);
    if (threads > 100 && p == 3) groups = 0;
    auto blocks = make_blocks(p, groups * threads, R);
    size_t done = 0, next = 0;
    while (done < blocks.size()) {
      idle += get<0>(pool->flush_ready_threads());
      while (idle > 0 && next < blocks.size()) { --idle; pool->assign(blocks[next++], false); }
      done += pool->flush_finished_blocks().size();
      if (done < blocks.size()) std::this_thread::sleep_for(std::chrono::milliseconds(5));
    }
    judge(threads, groups);
    S.add("configurations");
  }
  pool->shutdown_threads();
}

int main(int argc, char ** argv) {
  vh::Args A(argc, argv);
  vh::Rng R(A.num("seed", 1) * 6151 + 24);
  string mode = A.str("mode", "standalone"), dir = A.str("dir", "/tmp/none");
  M.wait = A.num("wait", 30);
  int n = A.num("threads", 4);
  for (int i = 0; i < A.num("rounds", 10) && !M.given_up; ++i) {
    if (mode == "pool") raw(n, R); else standalone(n, dir, R);
    S.distinct(mode + to_string(n) + "/" + to_string(R.next()));
    S.add("pools");
  }
  vh::sample(where + ": up to " + to_string(M.most) + " at work at once");
  S.print();
  vh::done();
}
