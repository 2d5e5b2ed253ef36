// C06: the enumeration of curves with multiplicities, against orbits computed from scratch.
#include <algorithm>
#include "hc.hh"
using namespace std;
using namespace hc;
typedef unsigned __int128 u128;

static thread_local vh::Stats S;
static string dec(u128 v) { if (!v) return "0"; string s; while (v) { s += char('0' + (int)(v % 10)); v /= 10; } reverse(s.begin(), s.end()); return s; }
static u128 mult(const Base & b, const vector<unsigned> & f) {
  vector<unsigned> sup;
  for (unsigned i = 0; i < f.size(); ++i) if (f[i] != b.q - 1) sup.push_back(i);
  fmpz_t m; fmpz_init(m);
  CurveIterator::multiplicity(m, b.p, b.q, sup);
  char * s = fmpz_get_str(NULL, 10, m);
  u128 v = 0;
  for (char * c = s; *c; ++c) { if (*c < '0' || *c > '9') { v = ~(u128)0; break; } v = v * 10 + (*c - '0'); }
  flint_free(s); fmpz_clear(m);
  return v;
}

// The packages of an enumeration too long to be listed one by one, so that one can ask how often a right-hand side is in it.
struct Packages {
  struct Node { vector<tuple<unsigned, unsigned, unsigned>> next; };
  map<unsigned, vector<Node>> trees;
  void add(const vector<tuple<unsigned, unsigned>> & b) {
    auto & T = trees[b.size()];
    if (T.empty()) T.resize(1);
    unsigned at = 0;
    for (size_t i = b.size(); i-- > 0;) {
      unsigned l = get<0>(b[i]), u = get<1>(b[i]), to = 0;
      auto & nx = T[at].next;
      if (i) for (size_t j = nx.size(); j-- > 0 && !to;) if (get<0>(nx[j]) == l && get<1>(nx[j]) == u) to = get<2>(nx[j]);
      if (!to) {
        to = T.size();
        nx.push_back(make_tuple(l, u, to));
        T.emplace_back();
      }
      at = to;
    }
  }
  uint64_t count(const vector<unsigned> & f) const {
    auto t = trees.find(f.size());
    return t == trees.end() ? 0 : at(t->second, 0, f, f.size());
  }
  uint64_t at(const vector<Node> & T, unsigned n, const vector<unsigned> & f, size_t i) const {
    if (!i) return 1;
    uint64_t s = 0;
    for (auto & x : T[n].next) if (get<0>(x) <= f[i - 1] && f[i - 1] < get<1>(x)) s += at(T, get<2>(x), f, i - 1);
    return s;
  }
};

// whole classes of sparse and other polynomials, with every distance between the first exponents
static void check_classes(const vh::Args & A, Base & b, unsigned g, bool marked, const string & who, vh::Rng & R) {
  auto & F = *b.F;
  uint64_t q = b.q;
  Packages P;
  unsigned pk = R.chance(1, 2) ? 0xffffffffu : 0xffffffffu - R.below(1u << 20);
  CurveIterator it(*b.table, g, marked, pk);
  uint64_t n = 0;
  for (; !it.is_end(); it.step()) {
    P.add(it.as_block());
    if (++n > 3000000) { vh::violation("endless", who + ": more than " + to_string(n) + " packages"); return; }
  }
  S.add("large_packages", n);
  vector<unsigned> ex(q);
  for (unsigned i = 0; i < q; ++i) ex[b.small[i]] = i;
  auto one = [&](const vector<unsigned> & e) {
    auto f = b.small_poly(e);
    if (!ref::squarefree(F, f)) return false;
    size_t d = f.size() - 1;
    // c f(aX + s), as far as monic: each of them has q - 1 multiples
    set<vector<el>> monic;
    for (el s = 0; s < q; ++s) {
      auto h = f;
      for (size_t i = 0; i <= d; ++i) for (size_t j = d; j-- > i;) h[j] = F.add(h[j], F.mul(s, h[j + 1]));
      for (el a = 1; a < q; ++a) {
        auto k = h;
        el m = 1;
        for (auto & c : k) { c = F.mul(c, m); m = F.mul(m, a); }
        el inv = F.inv(k[d]);
        for (auto & c : k) c = F.mul(c, inv);
        monic.insert(k);
      }
    }
    u128 w = 0, size = (u128)monic.size() * (q - 1);
    vector<unsigned> x(d + 1);
    for (auto & h : monic) for (el c = 1; c < q; ++c) {
      for (size_t i = 0; i <= d; ++i) x[i] = ex[F.mul(h[i], c)];
      if (uint64_t k = P.count(x)) w += 2 * k * mult(b, x);
    }
    S.eval(); S.add("orbits"); S.add("polynomials", (uint64_t)size); S.distinct(who + " orbit of " + vh::join(*monic.begin()));
    if (w != size) vh::violation("orbit", who + ": the class of exponents " + vh::join(e) + " has " + dec(size) + " members, but weight " + dec(w));
    return true;
  };
  unsigned z = q - 1;
  uint64_t per = A.num("per", 1);
  for (unsigned d = 2 * g + 1; d <= 2 * g + (marked ? 1 : 2); ++d) {
    for (int i = d - 1; i >= 0; --i) for (int j = i - 1; j >= -1; --j) {
      uint64_t done = 0;
      for (int t = 0; t < 40 && done < per; ++t) {
        vector<unsigned> e(d + 1, z);
        e[d] = R.below(q - 1); e[i] = R.below(q - 1);
        if (j >= 0) e[j] = R.below(q - 1);
        for (int k = 0; k < j; ++k) if (t % 4 == 3 || (k < 2 && t % 2)) e[k] = R.below(q);
        if (one(e)) ++done;
      }
      S.add("pairs_of_exponents");
    }
    vector<unsigned> e(d + 1, z);
    e[d] = 0; e[0] = R.below(q - 1);
    one(e);
    for (uint64_t t = 0; t < 2 * per; ++t) {
      e = random_squarefree(b, d, R);
      if (!e.empty()) one(e);
    }
  }
  vh::sample(who + " classes: " + to_string(n) + " packages of at most " + to_string(pk));
}

static void check(const vh::Args & A) {
  uint32_t p = A.num("p"); unsigned r = A.num("r", 1), g = A.num("g", 1);
  bool marked = A.num("marked", 0);
  string mode = A.str("mode", "orbits");
  vh::Rng R(A.num("seed", 1) * 271 + p + 7 * r + 13 * g);
  Base b(p, r);
  auto & F = *b.F;
  uint64_t q = b.q;
  string who = "q=" + to_string(p) + "^" + to_string(r) + " g=" + to_string(g) + (marked ? " marked" : "");
  unsigned lo = 2 * g + 1, hi = marked ? 2 * g + 1 : 2 * g + 2;

  if (mode == "classes") { check_classes(A, b, g, marked, who, R); S.print(); return; }

  // the enumeration with packages of size one
  vector<vector<unsigned>> reps;
  auto key = [&](const vector<unsigned> & f) { // by exponents
    u128 k = f.size();
    for (unsigned e : f) k = k * q + e;
    return k;
  };
  vector<u128> keys;
  {
    CurveIterator it(*b.table, g, marked, 1);
    while (!it.is_end()) {
      auto f = it.as_position();
      S.eval();
      bool ok = f.size() >= lo + 1 && f.size() <= hi + 1 && f.back() < q - 1;
      for (unsigned e : f) if (e >= q) ok = false;
      if (!ok) { vh::violation("shape", who + ": enumerates " + vh::join(f)); return; }
      keys.push_back(key(f));
      reps.push_back(f);
      if (reps.size() > 60000000) { vh::violation("endless", who + ": enumeration does not end"); return; }
      it.step();
    }
    for (int i = 0; i < 3; ++i) { it.step(); if (!it.is_end()) vh::violation("past_end", who); }
  }
  sort(keys.begin(), keys.end());
  if (adjacent_find(keys.begin(), keys.end()) != keys.end()) vh::violation("twice", who + ": a right-hand side is enumerated twice");
  S.add("right_hand_sides", reps.size());

  // other package sizes give the same set
  vector<unsigned> pkgs = {2, 3, (unsigned)q - 1, (unsigned)q, (unsigned)q + 1, (unsigned)min<uint64_t>(q * q, 1u << 30), 1u << 30, (unsigned)R.range(4, 3000)};
  if (reps.size() > 1000000) pkgs = {(unsigned)q, (unsigned)min<uint64_t>(q * q, 1u << 30)};
  if (reps.size() < 8000000) for (unsigned pk : pkgs) {
    CurveIterator it(*b.table, g, marked, pk);
    vector<u128> ks;
    bool bad = false;
    while (!it.is_end() && !bad) {
      auto bl = it.as_block();
      uint64_t n = 1;
      for (auto & t : bl) n *= get<1>(t) - get<0>(t);
      if (n == 0 || n > pk) { vh::violation("package_size", who + " package " + to_string(pk)); break; }
      bool sub = R.chance(1, 50);
      if (sub) {
        auto e = it.as_block_enumerator();
        for (; !e.is_end() && ks.size() <= 2 * keys.size() + 10; e.step()) ks.push_back(key(e.as_position()));
      } else {
        vector<unsigned> f;
        for (auto & t : bl) f.push_back(get<0>(t));
        for (;;) {
          ks.push_back(key(f));
          size_t i = 0;
          while (i < f.size() && ++f[i] == get<1>(bl[i])) { f[i] = get<0>(bl[i]); ++i; }
          if (i == f.size()) break;
        }
      }
      if (ks.size() > 2 * keys.size() + 10) bad = true;
      S.eval(); S.add("packages");
      it.step();
    }
    sort(ks.begin(), ks.end());
    if (ks != keys) vh::violation("package_independence", who + ": packages of size " + to_string(pk) + " cover " + to_string(ks.size()) + " right-hand sides, not the " + to_string(keys.size()));
  }

  // mass: every squarefree polynomial of each degree, once
  map<unsigned, u128> mass;
  bool sqf_all = mode == "mass" || mode == "sample";
  if (sqf_all) {
    for (auto & f : reps) if (ref::squarefree(F, b.small_poly(f))) { mass[f.size() - 1] += 2 * mult(b, f); S.add("squarefree"); }
    for (unsigned d = lo; d <= hi; ++d) {
      u128 want = (u128)(q - 1) * ((u128)ref::ipow(q, d) - ref::ipow(q, d - 1));
      if (mass[d] != want) vh::violation("mass", who + ": degree " + to_string(d) + " accounts for " + dec(mass[d]) + " instead of " + dec(want) + " polynomials");
      S.distinct(who + " mass " + to_string(d));
    }
  }

  map<el, unsigned> expo;
  for (unsigned i = 0; i < q; ++i) expo[b.small[i]] = i;
  el gen = F.ex[1];
  auto shift = [&](ref::poly f, el s) { // f(x + s)
    for (size_t i = 0; i < f.size(); ++i) for (size_t j = f.size() - 1; j-- > i;) f[j] = F.add(f[j], F.mul(s, f[j + 1]));
    return f;
  };
  auto dilate = [&](ref::poly f, el a) { el m = 1; for (auto & c : f) { c = F.mul(c, m); m = F.mul(m, a); } return f; };
  auto scale = [&](ref::poly f, el a) { for (auto & c : f) c = F.mul(c, a); return f; };

  if (mode == "orbits") for (unsigned d = lo; d <= hi; ++d) {
    // union-find over all polynomials of degree d
    uint64_t N = ref::ipow(q, d + 1), qd = ref::ipow(q, d);
    vector<uint32_t> par(N);
    for (uint64_t i = 0; i < N; ++i) par[i] = i;
    auto find = [&](uint32_t x) { while (par[x] != x) { par[x] = par[par[x]]; x = par[x]; } return x; };
    auto idx = [&](const ref::poly & f) { uint64_t k = 0; for (size_t i = f.size(); i-- > 0;) k = k * q + f[i]; return k; };
    ref::poly f(d + 1);
    for (uint64_t k = qd; k < N; ++k) {
      uint64_t x = k;
      for (auto & c : f) { c = x % q; x /= q; }
      for (auto & h : {shift(f, 1), dilate(f, gen), scale(f, gen)}) {
        uint32_t a = find(k), c = find(idx(h));
        if (a != c) par[max(a, c)] = min(a, c);
      }
    }
    map<uint32_t, uint64_t> size; map<uint32_t, u128> weight; map<uint32_t, vector<unsigned>> who_rep;
    for (uint64_t k = qd; k < N; ++k) ++size[find(k)];
    for (auto & e : reps) if (e.size() == d + 1) {
      uint32_t o = find(idx(b.small_poly(e)));
      weight[o] += 2 * mult(b, e);
      who_rep[o] = e;
    }
    for (auto & s : size) {
      uint64_t x = s.first;
      for (auto & c : f) { c = x % q; x /= q; }
      if (!ref::squarefree(F, f)) continue;
      S.eval(); S.add("orbits"); S.add("polynomials", s.second);
      S.distinct(who + " orbit of " + vh::join(f));
      if (weight[s.first] != s.second) {
        vector<unsigned> e;
        for (el c : f) e.push_back(expo[c]);
        vh::violation("orbit", who + ": the class of exponents " + vh::join(e) + " has " + to_string(s.second) + " members, but weight " + dec(weight[s.first]));
      }
    }
  }
  if (mode == "sample") {
    // full orbits of random squarefree polynomials
    for (int t = 0; t < A.num("samples", 20); ++t) {
      unsigned d = R.range(lo, hi);
      auto e = random_squarefree(b, d, R);
      if (e.empty()) continue;
      auto f = b.small_poly(e);
      set<vector<el>> orb;
      vector<vector<el>> todo = {f};
      orb.insert(f);
      while (!todo.empty()) {
        auto h = todo.back(); todo.pop_back();
        for (auto & n : {shift(h, 1), dilate(h, gen), scale(h, gen)}) if (orb.insert(n).second) todo.push_back(n);
        if (orb.size() > 3000000) break;
      }
      if (orb.size() > 3000000) continue;
      u128 w = 0;
      for (auto & h : orb) {
        vector<unsigned> x;
        for (el c : h) x.push_back(expo[c]);
        if (binary_search(keys.begin(), keys.end(), key(x))) w += 2 * mult(b, x);
      }
      S.eval(); S.add("orbits"); S.add("polynomials", orb.size()); S.distinct(who + " orbit of " + vh::join(*orb.begin()));
      if (w != orb.size()) vh::violation("orbit", who + ": the class of exponents " + vh::join(e) + " has " + to_string(orb.size()) + " members, but weight " + dec(w));
    }
  }
  vh::sample(who + " " + mode + ": " + to_string(reps.size()) + " right-hand sides, e.g. " + (reps.empty() ? "" : vh::join(reps[R.below(reps.size())])));
  S.print();
}

int main(int argc, char ** argv) { return vh::run_all(argc, argv, check); }
