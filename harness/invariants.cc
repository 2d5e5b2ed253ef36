// C03: ramification type, genus, support, squarefreeness and offsets, for every set of counted extensions.
#include "hc.hh"
using namespace std;
using namespace hc;

static void check(const vh::Args & A) {
  uint32_t p = A.num("p"); unsigned r = A.num("r", 1), maxn = A.num("maxn", 1);
  int curves = A.num("curves", 100), maxdeg = A.num("maxdeg", 8);
  fq_nmod_ctx_t any_ctx; // for clearing only
  { fmpz_t P; fmpz_init_set_ui(P, p); fq_nmod_ctx_init(any_ctx, P, r, "a"); fmpz_clear(P); }
  vh::Rng R(A.num("seed", 1) * 104729 + p * 37 + r * 5 + maxn);
  vh::Stats S;
  Base b(p, r);
  vector<shared_ptr<ReductionTable>> tabs(maxn + 1);
  for (unsigned n = 1; n <= maxn; ++n) tabs[n] = make_shared<ReductionTable>(p, n * r);
  vector<shared_ptr<ref::Field>> G(maxn + 1);
  vector<vector<el>> emb(maxn + 1);
  for (unsigned n = 1; n <= maxn; ++n) { G[n] = ref::field(p, n * r); emb[n] = b.embed(*G[n]); }
  if (b.small.size() != b.q) { vh::violation("field", "no field"); return; }

  // products of random polynomials, for rich factorizations and for squares
  auto mulp = [&](const ref::poly & x, const ref::poly & y) {
    ref::poly c(x.size() + y.size() - 1, 0);
    for (size_t i = 0; i < x.size(); ++i) for (size_t j = 0; j < y.size(); ++j) c[i + j] = b.F->add(c[i + j], b.F->mul(x[i], y[j]));
    return c;
  };
  map<el, unsigned> expo;
  for (unsigned i = 0; i < b.q; ++i) expo[b.small[i]] = i;

  for (int it = 0; it < curves; ++it) {
    unsigned deg = R.range(3, maxdeg);
    ref::poly f;
    int kind = R.below(4);
    if (kind == 0) f = b.small_poly(random_poly(b, deg, R));
    else if (kind == 1) { // product of small factors
      f = {(el)b.small[R.below(b.q - 1)]};
      while (f.size() < deg + 1) {
        unsigned d = R.range(1, min<int>(3, deg + 1 - f.size()));
        f = mulp(f, b.small_poly(random_poly(b, d, R)));
      }
    } else if (kind == 2 && deg >= 3) { // with a square factor
      auto s = b.small_poly(random_poly(b, R.range(1, deg / 2), R));
      f = mulp(s, s);
      if (f.size() < deg + 1) f = mulp(f, b.small_poly(random_poly(b, deg + 1 - f.size(), R)));
    } else { // polynomial in x^p, or shifted by little
      f.assign(deg + 1, 0);
      for (unsigned i = 0; i <= deg; ++i) if (i % p == 0) f[i] = R.below(b.q);
      f[deg] = b.small[R.below(b.q - 1)];
      if (R.chance(1, 2)) f[R.below(deg)] = R.below(b.q);
    }
    ref::trim(f);
    if (f.size() < 4) continue;
    deg = f.size() - 1;
    vector<unsigned> ex;
    for (el c : f) ex.push_back(expo[c]);
    auto exz = ex;
    for (int z = R.below(3); z > 0; --z) exz.push_back(b.q - 1);

    bool sf = ref::squarefree(*b.F, f);
    Curve c0(b.table, exz);
    S.eval();
    S.add(sf ? "squarefree" : "not_squarefree");
    S.distinct(show(b, ex));
    if (c0.has_squarefree_rhs() != sf) vh::violation("squarefree", show(b, ex) + (sf ? " is" : " is not") + " squarefree");
    if (c0.degree() != deg) vh::violation("degree", show(b, ex) + ": degree " + to_string(c0.degree()));
    if (c0.genus() != (deg - 1) / 2) vh::violation("genus", show(b, ex) + ": genus " + to_string(c0.genus()));
    if (c0.prime() != p || c0.prime_exponent() != r || c0.prime_power() != b.q) vh::violation("base", show(b, ex));
    if (c0.rhs_coeff_exponents() != ex) vh::violation("coefficients", show(b, ex) + ": " + vh::join(c0.rhs_coeff_exponents()));
    vector<unsigned> sup;
    for (unsigned i = 0; i <= deg; ++i) if (f[i]) sup.push_back(i);
    if (c0.rhs_support() != sup) vh::violation("support", show(b, ex) + ": " + vh::join(c0.rhs_support()));
    { // the polynomial itself
      auto P = c0.rhs_polynomial();
      bool ok = P.length == (slong)deg + 1;
      for (unsigned i = 0; ok && i <= deg; ++i)
        ok = digits(P.coeffs + i, p, r) == digits(b.table->at(ex[i]), p, r);
      if (!ok) vh::violation("polynomial", show(b, ex));
      fq_nmod_poly_clear(&P, any_ctx);
      if (r == 1) {
        auto N = c0.rhs_nmod_polynomial();
        ok = nmod_poly_length(&N) == (slong)deg + 1;
        for (unsigned i = 0; ok && i <= deg; ++i) ok = nmod_poly_get_coeff_ui(&N, i) == f[i];
        if (!ok) vh::violation("nmod_polynomial", show(b, ex));
        nmod_poly_clear(&N);
      }
    }
    if (!sf) continue;
    auto ram = ref::ramification(*b.F, f);
    map<unsigned, uint64_t> pts;
    // every subset of extensions when there are few, some otherwise
    vector<unsigned> masks;
    if (maxn <= 3) for (unsigned m = 0; m < (1u << maxn); ++m) masks.push_back(m);
    else { masks = {0u, (1u << maxn) - 1}; for (unsigned n = 1; n < maxn; ++n) masks.push_back((1u << n) - 1); for (int i = 0; i < 3; ++i) masks.push_back(R.below(1u << maxn)); }
    map<unsigned, tuple<unsigned, unsigned>> known;
    for (unsigned m : masks) {
      Curve c(b.table, ex);
      vector<unsigned> ns;
      for (unsigned n = 1; n <= maxn; ++n) if (m >> (n - 1) & 1) ns.push_back(n);
      R.shuffle(ns);
      for (unsigned n : ns) {
        c.count(*tabs[n]);
        if (R.chance(1, 4) && c.ramification_type() != ram) vh::violation("ramification", show(b, ex) + " in between: " + vh::join(c.ramification_type()));
        if (!pts.count(n)) { ref::poly g; for (unsigned e : ex) g.push_back(emb[n][e]); auto u = ref::points(*G[n], g); pts[n] = u.first + u.second; }
      }
      S.eval(); S.add("ramification_types_checked");
      if (c.ramification_type() != ram)
        vh::violation("ramification", show(b, ex) + " with extensions " + vh::join(ns) + " counted: " + vh::join(c.ramification_type()) + " instead of " + vh::join(ram));
      unsigned mx = 0;
      while (m >> mx & 1) ++mx;
      if (c.max_prime_exponent() != mx * r) vh::violation("max_exponent", show(b, ex) + " with extensions " + vh::join(ns) + ": " + to_string(c.max_prime_exponent()));
      auto off = c.hasse_weil_offsets();
      if (off.size() != ns.size()) vh::violation("offsets", show(b, ex) + ": offsets for other extensions than counted");
      for (unsigned n : ns) {
        int64_t want = (int64_t)ref::ipow(b.q, n) + 1 - (int64_t)pts[n];
        if (!off.count(n * r) || off[n * r] != want)
          vh::violation("offsets", show(b, ex) + " n=" + to_string(n) + ": " + to_string(off[n * r]) + " instead of " + to_string(want));
        if (!c.has_counted(n * r)) vh::violation("has_counted", show(b, ex));
        S.add("offsets_checked");
      }
      auto ov = c.hasse_weil_offsets(mx * r);
      auto nv = c.number_of_points(mx * r);
      if (ov.size() != mx || nv.size() != mx) vh::violation("vectors", show(b, ex) + ": wrong length");
      else for (unsigned n = 1; n <= mx; ++n)
        if (ov[n - 1] != (int64_t)ref::ipow(b.q, n) + 1 - (int64_t)pts[n] || get<0>(nv[n - 1]) + get<1>(nv[n - 1]) != pts[n])
          vh::violation("vectors", show(b, ex) + ": offsets or counts in the wrong place");
    }
    vh::sample(show(b, ex) + " ramification " + vh::join(ram));
  }
  fq_nmod_ctx_clear(any_ctx);
  S.print();
}

int main(int argc, char ** argv) { return vh::run_all(argc, argv, check); }
