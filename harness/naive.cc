// C02: the table-based, naive nmod and naive Zech implementations agree.
#include "hc.hh"
using namespace std;
using namespace hc;

static string show_pts(const map<unsigned, tuple<unsigned, unsigned>> & m) {
  string s;
  for (auto & kv : m) s += to_string(kv.first) + ":" + to_string(get<0>(kv.second)) + "," + to_string(get<1>(kv.second)) + " ";
  return s;
}

static void check(const vh::Args & A) {
  uint32_t p = A.num("p"); unsigned r = A.num("r", 1), maxn = A.num("maxn", 1);
  int curves = A.num("curves", 50), maxdeg = A.num("maxdeg", 8);
  vh::Rng R(A.num("seed", 1) * 7919 + p * 31 + maxn + 1000 * (r - 1));
  vh::Stats S;
  Base b(p, r);
  if (A.num("huge")) { // without tables, which take long here
    for (int it = 0; it < curves; ++it) {
      auto f = random_squarefree(b, R.range(3, maxdeg), R);
      if (f.empty()) continue;
      Curve m(b.table, f), z(b.table, f);
      m.count_naive_nmod(maxn * r); z.count_naive_zech(maxn * r);
      S.eval();
      if (m.number_of_points() != z.number_of_points()) vh::violation("counts", show(b, f) + ": naive nmod " + show_pts(m.number_of_points()) + "but naive zech " + show_pts(z.number_of_points()));
      S.add("extensions_compared"); S.distinct(show(b, f) + to_string(maxn));
    }
    return S.print();
  }
  vector<shared_ptr<ReductionTable>> tabs(maxn + 1);
  for (unsigned n = 1; n <= maxn; ++n) if (n == maxn || !A.num("onlymax")) tabs[n] = make_shared<ReductionTable>(p, n * r);

  for (int it = 0; it < curves; ++it) {
    unsigned deg = R.range(3, maxdeg);
    auto f = random_squarefree(b, deg, R);
    if (f.empty()) continue;
    // a random, non-empty set of extensions in random order
    vector<unsigned> ns;
    for (unsigned n = 1; n <= maxn; ++n) if (tabs[n] && R.chance(3, 4)) ns.push_back(n);
    if (ns.empty()) ns.push_back(A.num("onlymax") ? maxn : R.range(1, maxn));
    Curve a(b.table, f), m(b.table, f), z(b.table, f), mix(b.table, f);
    R.shuffle(ns); for (unsigned n : ns) a.count(*tabs[n]);
    R.shuffle(ns); for (unsigned n : ns) m.count_naive_nmod(n * r);
    R.shuffle(ns); for (unsigned n : ns) z.count_naive_zech(n * r);
    R.shuffle(ns);
    for (unsigned n : ns) switch (R.below(3)) {
      case 0: mix.count(*tabs[n]); break;
      case 1: mix.count_naive_nmod(n * r); break;
      default: mix.count_naive_zech(n * r);
    }
    // counting again, with any implementation, changes nothing
    for (unsigned n : ns) { if (R.chance(1, 2)) mix.count(*tabs[n]); if (R.chance(1, 4)) mix.count_naive_zech(n * r); if (R.chance(1, 4)) mix.count_naive_nmod(n * r); }
    Curve * cs[] = {&a, &m, &z, &mix};
    const char * names[] = {"tables", "naive nmod", "naive zech", "mixed"};
    for (int i = 1; i < 4; ++i) {
      S.eval();
      if (a.number_of_points() != cs[i]->number_of_points())
        vh::violation("counts", show(b, f) + ": tables " + show_pts(a.number_of_points()) + "but " + names[i] + " " + show_pts(cs[i]->number_of_points()));
      if (a.hasse_weil_offsets() != cs[i]->hasse_weil_offsets()) vh::violation("offsets", show(b, f) + ": tables and " + names[i]);
      if (a.ramification_type() != cs[i]->ramification_type()) vh::violation("ramification", show(b, f) + ": tables " + vh::join(a.ramification_type()) + " and " + names[i] + " " + vh::join(cs[i]->ramification_type()));
      if (a.max_prime_exponent() != cs[i]->max_prime_exponent()) vh::violation("maxexp", show(b, f) + ": tables and " + names[i]);
    }
    if (a.number_of_points().size() != ns.size()) vh::violation("missing", show(b, f) + ": not every extension was counted: " + show_pts(a.number_of_points()));
    S.add("extensions_compared", ns.size()); S.add("degree_" + to_string(deg));
    S.distinct(show(b, f) + vh::join(ns));
    vh::sample(show(b, f) + " " + show_pts(a.number_of_points()));
  }
  S.print();
}

int main(int argc, char ** argv) { return vh::run_all(argc, argv, check); }
