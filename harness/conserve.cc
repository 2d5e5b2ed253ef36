// C07: registration, flushing and snapshots of the result store against a model; and under
// concurrency, with delays injected at mutex operations.
#include <algorithm>
#include <atomic>
#include <thread>
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include "hc.hh"
#include "store/store_factory.hh"
using namespace hc;
using std::string; using std::to_string; using std::shared_ptr; using std::tie; using std::get;
typedef unsigned __int128 u128;
typedef std::map<string, u128> Model;
static vh::Stats S;

// ---- delays at mutex operations (inactive in sanitizer builds) ---------------------------------
static std::atomic<int> jitter(0);
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define NO_INTERPOSE
#endif
#endif
#ifndef NO_INTERPOSE
static thread_local uint64_t js = 0;
static void maybe_delay() {
  if (!jitter.load(std::memory_order_relaxed)) return;
  if (!js) js = (uint64_t)pthread_self() * 0x9E3779B97F4A7C15ull | 1;
  js ^= js << 13; js ^= js >> 7; js ^= js << 17;
  unsigned k = js % 8;
  if (k < 3) sched_yield();
  else if (k == 3) { timespec t = {0, (long)(js >> 20) % 200000}; nanosleep(&t, NULL); }
}
extern "C" int pthread_mutex_lock(pthread_mutex_t * m) {
  static int (*f)(pthread_mutex_t *) = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_lock");
  maybe_delay();
  return f(m);
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t * m) {
  static int (*f)(pthread_mutex_t *) = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
  int r = f(m);
  maybe_delay();
  return r;
}
#endif

static string dec(u128 v) { if (!v) return "0"; string s; while (v) { s += char('0' + (int)(v % 10)); v /= 10; } std::reverse(s.begin(), s.end()); return s; }

struct Item { shared_ptr<Curve> c; string key, twist; u128 m; };

static string keytext(const std::vector<unsigned> & ram, const std::vector<int> & hw) { return vh::join(ram) + ";" + vh::join(hw); }

static std::vector<Item> pool(uint32_t p, unsigned r, unsigned n, int count, vh::Rng & R) {
  Base b(p, r);
  std::vector<shared_ptr<ReductionTable>> tables;
  for (unsigned k = 1; k <= n; ++k) tables.push_back(std::make_shared<ReductionTable>(p, r * k));
  std::vector<Item> out;
  for (int i = 0; i < count; ++i) {
    // degrees 3.. with few or many coefficients, so that multiplicities of every kind occur
    auto f = random_squarefree(b, R.range(3, 8), R);
    if (f.empty()) continue;
    Item it;
    it.c = std::make_shared<Curve>(b.table, f);
    if (!it.c->has_squarefree_rhs()) { vh::error("not squarefree: " + show(b, f)); exit(0); }
    for (auto t : tables) it.c->count(t);
    auto ram = it.c->ramification_type();
    std::vector<int> hw = it.c->hasse_weil_offsets(it.c->max_prime_exponent()), tw;
    if (hw.size() != n) { vh::error("offsets"); exit(0); }
    for (size_t k = 0; k < hw.size(); ++k) tw.push_back(k % 2 ? hw[k] : -hw[k]);
    it.key = keytext(ram, hw); it.twist = keytext(ram, tw);
    std::vector<unsigned> sup;
    for (unsigned k = 0; k < f.size(); ++k) if (f[k] != b.q - 1) sup.push_back(k);
    fmpz_t m; fmpz_init(m);
    CurveIterator::multiplicity(m, p, b.q, sup);
    char * s = fmpz_get_str(NULL, 10, m); it.m = 0;
    for (char * c = s; *c; ++c) it.m = it.m * 10 + (*c - '0');
    flint_free(s); fmpz_clear(m);
    if (it.key == it.twist) S.add("self_twisted_curves");
    out.push_back(it);
  }
  return out;
}

static void add(Model & m, const Item & i) { m[i.key] += i.m; m[i.twist] += i.m; }
static void add(Model & m, const Model & o) { for (auto & kv : o) m[kv.first] += kv.second; }
static string text(const Model & m) { string s; for (auto & kv : m) s += kv.first + ":" + dec(kv.second) + " "; return s; }

static bool parse(const string & s, Model & m, string & why) {
  std::istringstream in(s);
  for (string l; std::getline(in, l);) {
    size_t c = l.find(':');
    if (c == string::npos || c + 1 >= l.size()) { why = "line \"" + l + "\""; return false; }
    u128 v = 0;
    for (size_t i = c + 1; i < l.size(); ++i) { if (!isdigit(l[i])) { why = "count in \"" + l + "\""; return false; } v = v * 10 + (l[i] - '0'); }
    if (m.count(l.substr(0, c))) { why = "two lines for " + l.substr(0, c); return false; }
    m[l.substr(0, c)] = v;
  }
  return true;
}
static string block_text(const vuu_block & b) { string s; for (auto & t : b) s += to_string(get<0>(t)) + " " + to_string(get<1>(t)) + " "; return s; }
static bool parse_record(const string & s, std::multiset<string> & out) {
  std::istringstream in(s);
  for (string l; std::getline(in, l);) out.insert(l);
  return true;
}

static void expect(const string & label, const string & got, const Model & want) {
  Model m; string why;
  S.eval();
  if (!parse(got, m, why)) { vh::violation(label + ":format", why); return; }
  if (m != want) vh::violation(label, "store has " + text(m) + " expected " + text(want));
}

static vuu_block random_block(vh::Rng & R, unsigned id) {
  vuu_block b;
  unsigned n = R.chance(1, 20) ? R.range(7, 40) : R.range(0, 6);
  unsigned wide = R.chance(1, 4) ? 1u << R.range(4, 29) : 9;     // blocks of few positions, and of very many
  for (unsigned i = 0; i < n; ++i) { unsigned l = R.below(wide < 50 ? 50 : wide); b.push_back(std::make_tuple(l, l + 1 + (unsigned)R.below(wide))); }
  auto own = std::make_tuple(id, id + 1 + (wide > 9 ? (unsigned)R.below(wide) : 0));
  if (R.chance(1, 2)) b.push_back(own); else b.insert(b.begin() + R.below(b.size() + 1), own);
  return b;
}

static void model_mode(uint32_t p, unsigned r, unsigned n, int rounds, vh::Rng & R) {
  auto items = pool(p, r, n, 60, R);
  auto fac = create_store_factory(StoreType::EC);
  unsigned id = 0;
  string who = "q=" + to_string(p) + "^" + to_string(r);
  fac->create()->flush_static_store();
  for (int round = 0; round < rounds; ++round) {
    unsigned k = R.range(1, 4);
    std::vector<shared_ptr<StoreInterface>> st; std::vector<Model> local(k);
    for (unsigned i = 0; i < k; ++i) st.push_back(fac->create());
    Model pending; std::multiset<string> blocks;
    int ops = round % 100 == 50 ? 5000 : R.range(5, 60);    // now and then very much before a snapshot
    int rare = ops > 60 ? 400 : 1;
    string trace;
    for (int o = 0; o <= ops; ++o) {
      unsigned i = R.below(k);
      int what = o == ops ? 9 : R.below(10);
      if (what == 9 && o != ops && !R.chance(1, rare)) what = R.below(9);
      if (rare > 1 && what == 6 && R.chance(1, 2)) what = 8;
      if (what < 6) { // register, sometimes the same curve in a row
        auto & it = R.pick(items);
        for (int t = R.chance(1, 5) ? 3 : 1; t--;) { st[i]->register_curve(*it.c); add(local[i], it); S.add("registered"); }
        if (R.chance(1, 4)) { std::stringstream ss; st[i]->insert(ss); expect("registration", ss.str(), local[i]); }
      } else if (what < 9) {
        auto b = random_block(R, id++);
        st[i]->flush_to_static_store(b);
        add(pending, local[i]); local[i].clear(); blocks.insert(block_text(b));
        S.add("flushes");
        std::stringstream ss; st[i]->insert(ss); expect("flushed_store_is_empty", ss.str(), Model());
      } else {
        string rec, sto;
        tie(rec, sto) = (R.chance(1, 2) ? st[i] : fac->create())->flush_static_store();
        S.add("snapshots");
        std::multiset<string> got; parse_record(rec, got);
        if (got != blocks) vh::violation("snapshot_record", who + ": snapshot lists " + to_string(got.size()) + " blocks (" + rec + "), expected " + to_string(blocks.size()));
        expect("snapshot_content", sto, pending);
        S.distinct(who + rec + sto);
        pending.clear(); blocks.clear();
      }
    }
  }
  // a store of one's own: merging what is read into it
  vh::sample(who + " n=" + to_string(n) + " e.g. " + items[0].key + " / twist " + items[0].twist + " multiplicity " + dec(items[0].m));
}

static void conc_mode(uint32_t p, unsigned r, unsigned n, int threads, int blocks_per, int inject, vh::Rng & R) {
  auto items = pool(p, r, n, 40, R);
  auto fac = create_store_factory(StoreType::EC);
  fac->create()->flush_static_store();
  std::vector<std::map<string, Model>> contributed(threads);
  std::vector<std::pair<string, string>> snaps[2];
  std::atomic<int> running(threads), go(0);
  uint64_t seed = R.next();
  jitter = inject;
  std::vector<std::thread> ts;
  for (int t = 0; t < threads; ++t) ts.emplace_back([&, t] {
    vh::Rng Q(seed + 977 * t);
    while (!go) sched_yield();
    for (int k = 0; k < blocks_per; ++k) {
      auto b = random_block(Q, t * 100000 + k);
      auto st = fac->create();
      Model m;
      for (int c = Q.range(0, 12); c--;) { auto & it = Q.pick(items); st->register_curve(*it.c); add(m, it); }
      st->flush_to_static_store(b);
      contributed[t][block_text(b)] = m;
      if (Q.chance(1, 4)) sched_yield();
    }
    --running;
  });
  for (int t = 0; t < 2; ++t) ts.emplace_back([&, t] {
    vh::Rng Q(seed * 3 + t);
    while (!go) sched_yield();
    while (running.load() > 0) {
      string a, b; tie(a, b) = fac->create()->flush_static_store();
      snaps[t].emplace_back(a, b);
      for (int i = Q.below(8); i--;) sched_yield();
    }
  });
  go = 1;
  for (auto & t : ts) t.join();
  jitter = 0;
  { string a, b; tie(a, b) = fac->create()->flush_static_store(); snaps[0].emplace_back(a, b); }
  { string a, b; tie(a, b) = fac->create()->flush_static_store(); if (!a.empty() || !b.empty()) vh::violation("snapshot_not_cleared", a + b); }
  std::map<string, Model> all;
  for (auto & c : contributed) all.insert(c.begin(), c.end());
  std::map<string, int> seen;
  string order;
  for (auto & v : snaps) for (auto & s : v) {
    std::multiset<string> rec; parse_record(s.first, rec);
    Model want;
    for (auto & b : rec) {
      if (!all.count(b)) { vh::violation("unknown_block", "snapshot lists \"" + b + "\""); continue; }
      ++seen[b]; add(want, all[b]);
    }
    expect("concurrent_snapshot_content", s.second, want);
    S.add("concurrent_snapshots"); if (!rec.empty()) { S.add("concurrent_snapshots_with_blocks"); order += to_string(rec.size()) + ","; }
  }
  for (auto & kv : all) if (seen[kv.first] != 1) vh::violation("block_in_one_snapshot", "block \"" + kv.first + "\" appears in " + to_string(seen[kv.first]) + " snapshots");
  S.add("concurrent_flushes", all.size());
  S.distinct(order); // distribution of blocks over snapshots: which interleaving was seen
}

int main(int argc, char ** argv) {
  vh::Args A(argc, argv);
  uint32_t p = A.num("p", 5); unsigned r = A.num("r", 1), n = A.num("n", 2);
  vh::Rng R(A.num("seed", 1) * 7919 + p * 31 + r);
  if (A.str("mode") == "conc")
    for (int i = 0; i < A.num("rounds", 20); ++i) conc_mode(p, r, n, A.num("threads", 4), A.num("blocks", 60), A.num("inject", 1), R);
  else model_mode(p, r, n, A.num("rounds", 200), R);
  S.print();
  vh::done();
  return 0;
}
