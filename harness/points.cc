// C01: point counts by tables against brute force in independent arithmetic.
#include "hc.hh"
using namespace std;
using namespace hc;

struct Ext { unsigned n; shared_ptr<ReductionTable> t; shared_ptr<ref::Field> G; vector<el> emb; };

static thread_local vh::Stats S;

static pair<uint64_t, uint64_t> oracle(const Base & b, const Ext & e, const vector<unsigned> & f) {
  ref::poly g;
  for (unsigned c : f) g.push_back(e.emb[c]);
  ref::trim(g);
  return ref::points(*e.G, g);
}

static void compare(const Base & b, Curve & c, const vector<unsigned> & f, const Ext & e,
                    map<unsigned, pair<uint64_t, uint64_t>> & want, const char * when) {
  if (!want.count(e.n * b.r)) want[e.n * b.r] = oracle(b, e, f);
  for (auto & w : want) {
    auto it = c.number_of_points().find(w.first);
    S.eval();
    if (it == c.number_of_points().end()) {
      vh::violation("missing", string(when) + ": no count for exponent " + to_string(w.first) + " of " + show(b, f));
      continue;
    }
    if (get<0>(it->second) != w.second.first || get<1>(it->second) != w.second.second)
      vh::violation("count", string(when) + ": over exponent " + to_string(w.first) + " of " + show(b, f) + " reported " +
        to_string(get<0>(it->second)) + "," + to_string(get<1>(it->second)) + " but there are " +
        to_string(w.second.first) + " unramified and " + to_string(w.second.second) + " ramified points");
  }
  if (c.number_of_points().size() != want.size())
    vh::violation("extra", string(when) + ": counts for extensions that nobody asked for, of " + show(b, f));
}

static void check(const vh::Args & A) {
  uint32_t p = A.num("p"); unsigned r = A.num("r", 1), maxn = A.num("maxn", 1);
  int curves = A.num("curves", 100), maxdeg = A.num("maxdeg", 8), mindeg = A.num("mindeg", 3);
  bool all = A.num("all", 0);
  vh::Rng R(A.num("seed", 1) * 1000003 + p * 131 + r * 17 + maxn);

  Base b(p, r);
  vector<Ext> ext;
  for (unsigned n = 1; n <= maxn; ++n) {
    if (A.num("onlymax") && n != maxn) continue;
    Ext e; e.n = n;
    e.t = make_shared<ReductionTable>(p, n * r);
    e.G = ref::field(p, n * r);
    e.emb = b.embed(*e.G);
    if (e.emb.size() != b.q) {
      vh::violation("field", "the powers of the generator of q=" + to_string(p) + "^" + to_string(r) + " are those of no element of the field");
      return;
    }
    ext.push_back(e);
  }
  auto classify = [&](const vector<unsigned> & f, unsigned deg) {
    S.add("degree_" + to_string(deg));
    S.add(f[0] == b.q - 1 ? "through_origin" : (f[0] % 2 ? "nonsquare_at_origin" : "square_at_origin"));
    if (deg % 2) S.add("ramified_at_infinity"); else S.add(f[deg] % 2 ? "no_points_at_infinity" : "two_points_at_infinity");
    S.distinct(show(b, f));
  };

  if (all) {
    // every squarefree polynomial
    for (unsigned deg = mindeg; deg <= (unsigned)maxdeg; ++deg) {
      vector<unsigned> f(deg + 1, 0);
      for (;;) {
        if (f[deg] != b.q - 1 && ref::squarefree(*b.F, b.small_poly(f))) {
          Curve c(b.table, f);
          map<unsigned, pair<uint64_t, uint64_t>> want;
          for (auto & e : ext) { c.count(*e.t); compare(b, c, f, e, want, "exhaustive"); }
          classify(f, deg);
        }
        unsigned i = 0;
        while (i <= deg && ++f[i] == b.q) f[i++] = 0;
        if (i > deg) break;
      }
    }
  }
  // random curves, several alive at a time and sharing tables, counted in random order, and again
  int left = curves;
  while (left > 0) {
    int k = min(left, R.range(1, 4)); left -= k;
    vector<vector<unsigned>> fs; vector<shared_ptr<Curve>> cs; vector<map<unsigned, pair<uint64_t, uint64_t>>> want(k);
    vector<pair<int, int>> jobs;
    for (int i = 0; i < k; ++i) {
      unsigned deg = R.range(mindeg, maxdeg);
      auto f = random_squarefree(b, deg, R);
      if (f.empty()) continue;
      auto g = f;
      for (int z = R.below(3); z > 0; --z) g.push_back(b.q - 1); // leading zeros do not matter
      fs.push_back(f); cs.push_back(make_shared<Curve>(b.table, g));
      classify(f, deg);
      for (size_t j = 0; j < ext.size(); ++j) {
        jobs.push_back({(int)fs.size() - 1, (int)j});
        if (R.chance(1, 3)) jobs.push_back({(int)fs.size() - 1, (int)j});
      }
    }
    R.shuffle(jobs);
    for (auto & j : jobs) {
      auto & e = ext[j.second];
      auto & c = *cs[j.first];
      bool again = want[j.first].count(e.n * b.r);
      if (again) S.add("recounts");
      if (R.chance(1, 2)) c.count(*e.t); else c.count(e.t);
      compare(b, c, fs[j.first], e, want[j.first], again ? "counted again" : "counted");
    }
    // a table of its own gives the same
    if (ref::ipow(b.q, maxn) < 5000 && R.chance(1, 10) && !fs.empty()) {
      Curve c(b.table, fs[0]);
      map<unsigned, pair<uint64_t, uint64_t>> w;
      for (auto & e : ext) { ReductionTable t(p, e.n * r); c.count(t); compare(b, c, fs[0], e, w, "own table"); S.add("own_table"); }
    }
    if (!fs.empty()) vh::sample(show(b, fs[0]) + " n=1.." + to_string(maxn));
  }
  S.print();
}

int main(int argc, char ** argv) { return vh::run_all(argc, argv, check); }
