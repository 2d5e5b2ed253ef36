// C21: counts on an OpenCL device against counts on the CPU and against brute force.
#include <thread>
#include <atomic>
#include "hc.hh"
#include "single_curve_fp.hh"
using namespace std;
using namespace hc;
static vh::Stats S;
static mutex SM;

static vector<unsigned> any_poly(const Base & b, vh::Rng & R, int mindeg, int maxdeg) {
  unsigned deg = R.range(mindeg, maxdeg);
  if (R.chance(2, 3)) { auto f = random_squarefree(b, deg, R); if (!f.empty()) return f; }
  return random_poly(b, deg, R);
}

static void compare(const Base & b, const vector<unsigned> & f, unsigned k, const Curve & dev, const Curve & cpu, const string & when) {
  auto a = dev.number_of_points().find(k), c = cpu.number_of_points().find(k);
  { lock_guard<mutex> l(SM); S.eval(); S.distinct(show(b, f) + "/" + to_string(k)); S.add("degree_" + to_string(f.size() - 1)); S.add("exponent_" + to_string(k)); }
  if (a == dev.number_of_points().end() || c == cpu.number_of_points().end()) { vh::violation("missing", when + ": no count for exponent " + to_string(k) + " of " + show(b, f)); return; }
  if (a->second != c->second)
    vh::violation("count", when + ": over exponent " + to_string(k) + " of " + show(b, f) + " the device counts " + to_string(get<0>(a->second)) + "," + to_string(get<1>(a->second)) +
      " and the CPU " + to_string(get<0>(c->second)) + "," + to_string(get<1>(c->second)));
}

int main(int argc, char ** argv) {
  vh::Args A(argc, argv);
  vh::Rng R(A.num("seed", 1) * 2221 + 21);
  vector<cl::Device> devs = OpenCLInterface::devices();
  if (devs.empty()) { vh::error("no OpenCL device"); return 0; }
  S.m["devices"] = devs.size();
  uint64_t limit = A.num("limit", 3000);
  int curves = A.num("curves", 30), rounds = A.num("rounds", 4), threads = A.num("threads", 1);
  int maxdeg = A.num("maxdeg", 9);
  struct Q { unsigned p, r; };
  vector<Q> Qs;
  if (A.num("p")) Qs = {{(unsigned)A.num("p"), (unsigned)A.num("r", 1)}};
  else Qs = {{3, 1}, {5, 1}, {7, 1}, {3, 2}, {11, 1}, {5, 2}, {3, 3}, {13, 1}, {31, 1}, {7, 2}, {127, 1}, {509, 1}, {1021, 1}, {2053, 1}};
  map<pair<unsigned, unsigned>, shared_ptr<Base>> bases;
  map<pair<unsigned, unsigned>, shared_ptr<ReductionTable>> cpu;
  for (auto & q : Qs) if (ref::ipow(q.p, q.r) <= limit) {
    bases[{q.p, q.r}] = make_shared<Base>(q.p, q.r);
    for (unsigned n = 1; ref::ipow(q.p, q.r * n) <= limit; ++n)
      if (!cpu.count({q.p, q.r * n})) cpu[{q.p, q.r * n}] = make_shared<ReductionTable>(q.p, q.r * n);
  }
  vector<pair<unsigned, unsigned>> keys; for (auto & x : bases) keys.push_back(x.first);
  vector<pair<unsigned, unsigned>> fields; for (auto & x : cpu) fields.push_back(x.first);

  // each thread has an interface of its own, as the threads of a pool do, and on it many tables at once
  auto go = [&](uint64_t seed) {
    vh::Rng R(seed);
    for (int round = 0; round < rounds; ++round) {
      auto ocl = R.chance(1, 3) ? make_shared<OpenCLInterface>() : make_shared<OpenCLInterface>(devs[R.below(devs.size())]);
      map<pair<unsigned, unsigned>, shared_ptr<ReductionTable>> T;
      vector<shared_ptr<Curve>> alive;
      for (int i = 0; i < curves; ++i) {
        auto key = R.pick(keys);
        auto & b = *bases[key];
        auto f = any_poly(b, R, 1, maxdeg);
        auto dev = make_shared<Curve>(b.table, f); Curve host(b.table, f);
        vector<unsigned> ks;
        for (unsigned n = 1; cpu.count({b.p, b.r * n}); ++n) ks.push_back(b.r * n);
        R.shuffle(ks);
        if (ks.size() > 3) ks.resize(3);
        for (unsigned k : ks) {
          auto & t = T[{b.p, k}];
          if (!t || R.chance(1, 12)) { // a table of its own, or the same one all the time
            if (R.chance(1, 2)) t = make_shared<ReductionTable>(b.p, k, ocl);
            else { auto o = ocl; t = make_shared<ReductionTable>(b.p, k, move(o)); }
            lock_guard<mutex> l(SM); S.add("device_tables");
          }
          if (R.chance(1, 2)) dev->count(*t); else dev->count(t);
          if (R.chance(1, 4)) { dev->count(*t); lock_guard<mutex> l(SM); S.add("recounts"); }
          auto & h = cpu[{b.p, k}];
          { lock_guard<mutex> l(SM); }
          host.count(*h);
          compare(b, f, k, *dev, host, "round " + to_string(round) + " curve " + to_string(i));
        }
        alive.push_back(dev);
        if (R.chance(1, 8)) alive.clear();
      }
      lock_guard<mutex> l(SM); S.add("interfaces");
    }
  };
  if (threads == 1) go(A.num("seed", 1) * 77);
  else {
    vector<thread> ts;
    // FLINT's tables of methods are filled by the Bases above
    for (int t = 0; t < threads; ++t) ts.emplace_back(go, A.num("seed", 1) * 1000 + t);
    for (auto & t : ts) t.join();
    S.add("threads", threads);
  }
  // brute force in independent arithmetic, for a few
  auto ocl = make_shared<OpenCLInterface>();
  for (int i = 0; i < (int)A.num("brute", 10); ++i) {
    auto key = R.pick(keys);
    auto & b = *bases[key];
    auto f = random_squarefree(b, R.range(1, 8), R);
    if (f.empty()) continue;
    unsigned n = 1; while (cpu.count({b.p, b.r * (n + 1)}) && R.chance(1, 2)) ++n;
    ReductionTable t(b.p, b.r * n, ocl);
    Curve c(b.table, f); c.count(t);
    auto G = ref::field(b.p, b.r * n); auto emb = b.embed(*G);
    ref::poly g; for (unsigned x : f) g.push_back(emb[x]); ref::trim(g);
    auto w = ref::points(*G, g);
    auto got = c.number_of_points().at(b.r * n);
    S.eval(); S.add("brute_force");
    if (get<0>(got) != w.first || get<1>(got) != w.second)
      vh::violation("brute", show(b, f) + " over exponent " + to_string(b.r * n) + ": device " + to_string(get<0>(got)) + "," + to_string(get<1>(got)) + ", points " + to_string(w.first) + "," + to_string(w.second));
  }
  S.print();
  vh::done();
}
