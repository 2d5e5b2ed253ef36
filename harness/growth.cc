// C20: heap in use over repeated identical work of one component. Each piece of work is repeated,
// first to fill caches, then in equal rounds; what a round leaves behind is what it did not release.
#include <dlfcn.h>
#include <fstream>
#include <malloc.h>
#include <thread>
#include <functional>
#include <boost/filesystem.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include "hc.hh"
#include "single_curve_fp.hh"
#include "config/config_node.hh"
#include "store/file_store.hh"
#include "store/store_factory.hh"
#include "threaded/thread_pool.hh"
#include "worker_pool/standalone.hh"
using namespace hc;
using std::string; using std::vector; using std::to_string; using std::make_shared; using std::shared_ptr; using std::get; using std::stringstream;
namespace fs = boost::filesystem;
static vh::Stats S;
typedef Store<HyCu::CurveData::ExplicitRamificationHasseWeil, HyCu::StoreData::Count> ECStore;

static long inuse() { struct mallinfo2 m = mallinfo2(); return (long)(m.uordblks + m.hblkhd); }
static long bigs() { static auto f = (long (*)())dlsym(RTLD_DEFAULT, "vshim_fmpz_live"); return f ? f() : 0; }

// n: repetitions per round
static void work(const string & name, int n, const std::function<void(int)> & f, long floor = 16) {
  vh::at(name);
  for (int i = 0; i < n; ++i) f(i);
  const int rounds = 6;
  long at[rounds + 1], big[rounds + 1];
  for (int k = 0; k <= rounds; ++k) {
    at[k] = inuse(); big[k] = bigs();
    if (k < rounds) for (int i = 0; i < n; ++i) f(i);
  }
  S.eval(rounds); S.add("repetitions", (long)n * (rounds + 1)); S.distinct(name); S.add("works");
  // a leak leaves at least 16 bytes in some repetitions of every round
  if (at[rounds] != at[1]) S.add("works_not_flat");
  int grew = 0;
  for (int k = 1; k < rounds; ++k) if (at[k + 1] - at[k] >= std::max(floor, n / 2L)) ++grew;
  double per = (at[rounds] - at[1]) / (double)((rounds - 1) * n);
  if (grew == rounds - 1)
    vh::violation("growth:" + name, name + ": " + to_string(per) + " bytes stay allocated per repetition, over " + to_string(n * (rounds - 1)) + " repetitions");
  if (big[rounds] - big[1] >= (rounds - 1) * std::max(1, n / 4))
    vh::violation("bigs:" + name, name + ": " + to_string(big[rounds] - big[1]) + " large integers stay alive after " + to_string(n * (rounds - 1)) + " repetitions");
  vh::sample(name + ": " + to_string(at[rounds] - at[1]) + " bytes more after " + to_string(n * (rounds - 1)) + " repetitions");
}

int main(int argc, char ** argv) {
  vh::Args A(argc, argv);
  vh::Rng R(A.num("seed", 1) * 3571 + 20);
  int X = A.num("x", 1);
  string dir = A.str("dir"), part = A.str("part", "curves");
  mallopt(M_MMAP_THRESHOLD, 1 << 28);
  std::locale::classic();

  struct Q { unsigned p, r, n; };
  if (part == "tables") {
    for (Q q : vector<Q>{{3, 1, 4}, {5, 1, 3}, {3, 2, 2}, {7, 2, 1}, {5, 3, 1}, {13, 1, 2}, {251, 1, 1}}) {
      string w = " " + to_string(q.p) + "^" + to_string(q.r);
      work("elements" + w, 40 * X, [&](int) { FqElementTable t(q.p, q.r); });
      work("elements shared" + w, 40 * X, [&](int) { auto t = make_shared<FqElementTable>(q.p, q.r); auto u = t; t->power_coset_representatives(2); });
      work("reduction" + w, 20 * X, [&](int) { ReductionTable t(q.p, q.r * q.n); });
      FqElementTable t(q.p, q.r);
      for (unsigned g = 1; g <= (q.p == 3 && q.r == 1 ? 3u : 1u); ++g) if (ref::ipow(q.p, q.r) < 60)
        work("enumeration" + w + " genus " + to_string(g), 5 * X, [&](int i) { CurveIterator it(t, g, i % 2, 200); int k = 0; for (; !it.is_end() && k < 400; it.step(), ++k) { auto b = it.as_block(); BlockIterator e(b); e.step(); it.as_position(); } });
    }
  } else if (part == "curves") {
    for (Q q : vector<Q>{{3, 1, 3}, {5, 1, 2}, {3, 2, 2}, {7, 2, 1}, {5, 3, 1}, {13, 1, 2}, {65521, 1, 1}}) {
      Base b(q.p, q.r);
      string w = " " + to_string(q.p) + "^" + to_string(q.r);
      vector<shared_ptr<ReductionTable>> T;
      for (unsigned k = 1; k <= q.n; ++k) T.push_back(make_shared<ReductionTable>(q.p, q.r * k));
      bool large = q.p > 10000;
      vector<vector<unsigned>> F, G; // squarefree, any
      for (int i = 0; i < 12; ++i) { F.push_back(random_squarefree(b, 3 + i % 6, R)); G.push_back(random_poly(b, 3 + i % 6, R)); }
      // not squarefree
      for (int i = 0; i < 4; ++i) { auto f = random_poly(b, 4 + i, R); f[0] = f[1] = b.q - 1; G.push_back(f); }
      auto any = [&](int i) { return G[i % G.size()]; };
      auto sf = [&](int i) { return F[i % F.size()]; };
      int n = large ? 32 : 160 * X;
      work("construct" + w, n, [&](int i) { Curve c(b.table, any(i)); Curve d(c); d.genus(); d.rhs_support(); d.rhs_coeff_exponents(); });
      work("squarefree" + w, n, [&](int i) { Curve c(b.table, any(i)); c.has_squarefree_rhs(); });
      work("print" + w, n, [&](int i) { Curve c(b.table, any(i)); stringstream s; s << c; });
      work("ramification by factors" + w, n, [&](int i) { Curve c(b.table, sf(i)); c.ramification_type(); });
      work("convert" + w, n, [&](int i) { Curve c(b.table, any(i)); for (auto & t : T) c.convert_poly_coeff_exponents(*t); });
      if (q.r == 1)
        work("nmod polynomial" + w, n, [&](int i) { Curve c(b.table, any(i)); auto f = c.rhs_nmod_polynomial(); nmod_poly_clear(&f); });
      work("polynomial, counted" + w, n, [&](int i) { Curve c(b.table, any(i)); for (auto & t : T) c.count(*t); });
      n = large ? 5 : 60 * X;
      work("count" + w, n, [&](int i) { Curve c(b.table, sf(i)); for (auto & t : T) c.count(t); for (auto & t : T) c.count(*t); c.number_of_points(q.r * q.n); c.hasse_weil_offsets(); c.hasse_weil_offsets(q.r * q.n); c.max_prime_exponent(); });
      work("ramification by counts" + w, n, [&](int i) { Curve c(b.table, sf(i)); for (auto & t : T) { c.count(t); c.ramification_type(); } });
      if (q.r == 1 && !large) {
        work("naive nmod" + w, n / 4, [&](int i) { Curve c(b.table, sf(i)); for (unsigned k = 1; k <= q.n; ++k) c.count_naive_nmod(k); c.count_naive_nmod(1); });
        work("naive zech" + w, n / 4, [&](int i) { Curve c(b.table, sf(i)); for (unsigned k = 1; k <= q.n; ++k) c.count_naive_zech(k); c.count_naive_zech(1); });
        for (auto im : {SingleCurveCountImplementationCPU, SingleCurveCountImplementationNaiveNMod, SingleCurveCountImplementationNaiveZech})
          work("single " + to_string((int)im) + w, n / 4, [&](int i) { vector<unsigned> co; for (int k = 0; k < 5; ++k) co.push_back(1 + (i * 7 + k * k) % (q.p - 1)); auto c = single_curve_fp(q.p, co, im); c->ramification_type(); });
      }
      work("data" + w, n, [&](int i) {
        Curve c(b.table, sf(i)); for (auto & t : T) c.count(t);
        HyCu::CurveData::ExplicitRamificationHasseWeil d(c); auto v = d.as_value(); auto u = d.twist().as_value(); stringstream s; s << v << u;
        HyCu::StoreData::Count k(c); HyCu::StoreData::Count::ValueType x(k), y; y = x; y += k; y += x; s << y; auto z = k.twist(); (void)(z == k);
      });
      work("register" + w, n / 2, [&](int i) {
        ECStore s; for (int j = 0; j < 4; ++j) { Curve c(b.table, sf(i + j)); for (auto & t : T) c.count(t); s.register_curve(c); s.register_curve(c); }
        s.flush_to_static_store({std::make_tuple((unsigned)i, (unsigned)i + 1)});
        if (i % 3 == 0) s.flush_static_store();
        if (i == n / 2 - 1) s.flush_static_store();
      });
    }
    for (unsigned p : {3u, 5u, 13u, 65521u})
      work("multiplicity " + to_string(p), 200 * X, [&](int i) { fmpz_t m; fmpz_init(m); CurveIterator::multiplicity(m, p, i % 3 ? p : p * p, {0, 1u + i % 5, 6, 7u + i % 3}); fmpz_clear(m); });
  } else { // stores, files, configurations
    auto big = [&](int i) { string s(1 + i * 37 % 300, '7'); s[0] = '1' + i % 9; return s; };
    auto results = [&](int i) { string t; for (int k = 0; k < 6; ++k) t += "1," + to_string(1 + (i + k) % 4) + ";" + to_string(k - 3) + ",0:" + big(i + k) + "\n"; return t; };
    work("value", 200 * X, [&](int i) { HyCu::StoreData::Count::ValueType a(big(i)), b(big(i + 1)), c(a), d; d = a; d = b; d += a; c = d; stringstream s; s << c << d; (void)(c == d); a = a; });
    work("extract", 60 * X, [&](int i) { ECStore s; stringstream a(results(i)), b(results(i + 1)), o; s.extract(a); s.extract(b); s.insert(o); });
    work("extract from moved stream", 60 * X, [&](int i) { ECStore s; s.extract(stringstream(results(i))); s.extract(stringstream(results(i))); });
    work("copy store", 60 * X, [&](int i) { ECStore s; stringstream a(results(i)); s.extract(a); ECStore t(s); ECStore u; u = t; stringstream o; u.insert(o); });
    work("flush", 60 * X, [&](int i) { ECStore s; stringstream a(results(i)); s.extract(a); s.flush_to_static_store({std::make_tuple(1u, 2u + i)}); ECStore t; stringstream b(results(i)); t.extract(b); t.flush_to_static_store({std::make_tuple(1u, 2u + i)}); s.flush_static_store(); });
    work("records", 60 * X, [&](int i) { std::set<vuu_block> r; stringstream s; for (int k = 0; k < 9; ++k) s << i << " " << i + k << " 0 5 \n"; FileStore::extract(s, r); stringstream o; FileStore::insert(o, r); });
    ConfigNode cn; cn.prime = 3; cn.prime_exponent = 1; cn.genus = 1; cn.with_marked_point = false; cn.count_exponent = 1; cn.package_size = 9; cn.result_path = dir + "/w0";
    fs::create_directories(cn.result_path);
    work("configuration", 60 * X, [&](int i) { YAML::Node n = YAML::convert<ConfigNode>::encode(cn); ConfigNode d; YAML::convert<ConfigNode>::decode(n, d); stringstream s; s << d; stringstream a; { boost::archive::text_oarchive o(a); const ConfigNode & c = d; o << c; } { boost::archive::text_iarchive in(a); ConfigNode e; in >> e; } });
    work("refused configuration", 60 * X, [&](int i) { YAML::Node n = YAML::Load("{Prime: 3, Genus: x}"); ConfigNode d; try { YAML::convert<ConfigNode>::decode(n, d); } catch (YAML::Exception &) {} });
    work("file store", 12 * X, [&](int i) {
      fs::path p = dir + "/fs"; fs::create_directories(p); ConfigNode c(cn); c.result_path = p;
      for (int k = 0; k < 3; ++k) { FileStore f(c); f.save(std::make_tuple(string("0 1 2 3 \n") + to_string(k) + " 9 \n", results(k))); f.contains({std::make_tuple(0u, 1u), std::make_tuple(2u, 3u)}); }
      FileStore g(c); fs::remove_all(p);
    });
    work("refused record", 30 * X, [&](int i) {
      fs::path p = dir + "/fr"; fs::create_directories(p / "1.hycu_record"); ConfigNode c(cn); c.result_path = p;
      std::ofstream((p / "2.hycu_record").native()) << "x y\n1 2 3\n\n";
      FileStore f(c); fs::remove_all(p);
    });
    // many families through one pool
    {
      
      auto pool = make_shared<StandaloneWorkerPool>(StoreType::EC, (int)A.num("threads", 2));
      int k = 0;
      for (Q q : vector<Q>{{3, 1, 2}, {5, 1, 1}, {3, 2, 1}}) {
        ConfigNode c(cn); c.prime = q.p; c.prime_exponent = q.r; c.count_exponent = q.n; c.package_size = q.p == 3 && q.r == 1 ? 9 : 300; c.with_marked_point = true;
        work("families through a pool " + to_string(q.p) + "^" + to_string(q.r), 4 * X, [&](int i) {
          ConfigNode d(c); d.result_path = fs::path(dir) / "fam"; fs::create_directories(d.result_path);
          pool->update_config(d);
          FqElementTable t(d.prime, d.prime_exponent);
          CurveIterator it(t, d.genus, d.with_marked_point, d.package_size);
          for (; !it.is_end(); it.step()) pool->assign(it.as_block());
          pool->wait_for_assigned_blocks(); pool->save_global_stores_to_file();
          ConfigNode none(c); none.result_path = fs::path(dir) / "none such"; pool->update_config(none);
          fs::remove_all(d.result_path); ++k;
        }, 512);
        work("reconfiguration " + to_string(q.p) + "^" + to_string(q.r), 8 * X, [&](int i) { ConfigNode d(c); d.result_path = fs::path(dir) / "none such"; pool->update_config(d); }, 512);
      }
    }
    // one family twice is recorded: nothing is computed, nothing kept
    {
      auto pool = make_shared<StandaloneWorkerPool>(StoreType::EC, 2);
      ConfigNode d(cn); d.result_path = fs::path(dir) / "again"; fs::create_directories(d.result_path);
      std::ofstream rec((d.result_path / "7.hycu_record").native());
      FqElementTable t(3, 1);
      for (CurveIterator it(t, 1, false, 9); !it.is_end(); it.step()) { auto b = it.as_block(); FileStore::insert(rec, std::set<vuu_block>{b}); }
      rec.close(); std::ofstream((d.result_path / "7.hycu_store").native());
      std::set<string> seen;
      work("recorded family", 10 * X, [&](int i) { // every run saves an empty record; it is taken away
        pool->update_config(d);
        CurveIterator it(t, 1, false, 9);
        for (; !it.is_end(); it.step()) pool->assign(it.as_block());
        pool->wait_for_assigned_blocks();
        for (fs::directory_iterator e(d.result_path), z; e != z; ++e) if (e->path().stem() != "7") seen.insert(e->path().native());
        for (auto & f : seen) fs::remove(f);
        seen.clear();
      }, 512);
      pool.reset();
    }
  }
  S.print();
  vh::done();
}
