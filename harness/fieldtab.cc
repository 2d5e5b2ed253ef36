// C04: field element tables are discrete logarithm tables; cosets; conversion to larger fields.
#include "hc.hh"
#include <set>
using namespace std;
using namespace hc;

static bool is_primitive_ok(const FqElementTable & T, uint32_t p, unsigned r, uint64_t q, vh::Stats & S, const string & who, vector<uint64_t> & v) {
  v.resize(q);
  vector<char> seen(q, 0);
  bool ok = true;
  for (uint64_t i = 0; i < q; ++i) {
    v[i] = digits(T.at(i), p, r);
    if (digits(T[i], p, r) != v[i]) { vh::violation("access", who + ": at and [] differ at " + to_string(i)); ok = false; }
    if (r == 1 && T.at_nmod(i) != v[i]) { vh::violation("access", who + ": at_nmod differs at " + to_string(i)); ok = false; }
    if (v[i] >= q || seen[v[i]]) { vh::violation("bijection", who + ": index " + to_string(i) + " repeats an element or is out of range"); ok = false; break; }
    seen[v[i]] = 1; S.eval();
  }
  if (!ok) return false;
  if (v[q - 1] != 0) { vh::violation("zero", who + ": the zero index is not zero"); return false; }
  if (v[0] != 1) { vh::violation("one", who + ": index 0 is not one"); return false; }
  // consecutive powers of one element: a linear recurrence of order r with independent start, i.e.
  // multiplication by x in F_p[x]/(m)
  vector<uint64_t> pw;
  for (unsigned i = 0; i <= r; ++i) pw.push_back(v[i % (q - 1)]);
  auto c = recurrence(pw, p, r);
  if (c.empty()) { vh::violation("powers", who + ": 1, g, ..., g^(r-1) are dependent"); return false; }
  for (uint64_t i = 0; i + 1 < q; ++i) {
    uint64_t want = 0, m = 1;
    for (unsigned d = 0; d < r; ++d, m *= p) {
      uint64_t s = 0;
      for (unsigned j = 0; j < r; ++j) s = (s + (uint64_t)c[j] * (v[(i + j) % (q - 1)] / m % p)) % p;
      want += s * m;
    }
    if (want != v[(i + r) % (q - 1)]) { vh::violation("powers", who + ": index " + to_string(i + r) + " is not the next power"); return false; }
  }
  return true;
}

static void check_all(const vh::Args & A) {
  uint32_t p = A.num("p"); unsigned r = A.num("r", 1), maxn = A.num("maxn", 1);
  vh::Rng R(A.num("seed", 1) * 65537 + p * 41 + r);
  vh::Stats S;
  uint64_t q = ref::ipow(p, r);
  string who = "q=" + to_string(p) + "^" + to_string(r);
  auto T = make_shared<FqElementTable>(p, r);
  vector<uint64_t> v;
  if (!is_primitive_ok(*T, p, r, q, S, who, v)) { S.print(); return; }
  S.distinct(who);
  S.add("fields"); S.add("elements", q);
  if (T->zero_index() != q - 1) vh::violation("zero_index", who + ": " + to_string(T->zero_index()));
  if (T->is_prime_field() != (r == 1)) vh::violation("is_prime_field", who);
  if (T->block_non_zero() != make_tuple(0u, (unsigned)(q - 1))) vh::violation("block_non_zero", who);
  if (T->block_complete() != make_tuple(0u, (unsigned)q)) vh::violation("block_complete", who);
  for (int i = 0; i < 50; ++i) { unsigned x = R.below(4 * q); if (T->reduce_index(x) != x % (q - 1)) vh::violation("reduce_index", who); }
  // representatives of n-th power cosets: every nonzero element is an n-th power times exactly one
  set<unsigned> ns = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12};
  for (int i = 0; i < 6; ++i) ns.insert(1 + R.below(3 * q));
  for (unsigned n : ns) {
    auto reps = T->power_coset_representatives(n);
    vector<char> hit(q - 1, 0);
    // index set of n-th powers
    vector<char> ispow(q - 1, 0);
    uint64_t cnt = 0;
    for (uint64_t i = 0; i + 1 < q; ++i) { uint64_t k = (unsigned __int128)i * n % (q - 1); if (!ispow[k]) { ispow[k] = 1; ++cnt; } }
    bool ok = reps.size() * cnt == q - 1;
    for (unsigned e : reps) {
      if (e >= q - 1) { ok = false; break; }
      for (uint64_t k = 0; k < q - 1; ++k) if (ispow[k]) { uint64_t x = (e + k) % (q - 1); if (hit[x]) ok = false; hit[x] = 1; }
      if (!ok || reps.size() > 4096) break;
    }
    if (reps.size() <= 4096) for (char h : hit) if (!h) { ok = false; break; }
    if (!ok) vh::violation("cosets", who + ": representatives of " + to_string(n) + "-th power cosets: " + to_string(reps.size()) + " of them");
    S.add("coset_systems"); S.eval();
  }
  // conversion to larger fields
  Base b(p, r);
  for (unsigned n = 1; n <= maxn; ++n) {
    string w2 = who + " n=" + to_string(n);
    auto B = make_shared<FqElementTable>(p, r * n);
    uint64_t Q = ref::ipow(p, r * n);
    vector<uint64_t> V;
    if (!is_primitive_ok(*B, p, r * n, Q, S, "q=" + to_string(p) + "^" + to_string(r * n), V)) break;
    ReductionTable rt(p, r * n);
    // all elements, several per polynomial
    vector<unsigned> conv(q, 0);
    for (uint64_t i = 0; i < q; i += 6) {
      vector<unsigned> f;
      for (uint64_t j = i; j < i + 6 && j < q; ++j) f.push_back(j);
      f.push_back(0); // nonzero leading coefficient
      Curve c(T, f);
      auto g = c.convert_poly_coeff_exponents(rt);
      if (g.size() != f.size()) { vh::violation("conversion", w2 + ": length changes"); break; }
      for (size_t j = 0; j + 1 < f.size(); ++j) conv[f[j]] = g[j];
      S.eval();
    }
    bool ok = conv[q - 1] == Q - 1;
    if (!ok) vh::violation("conversion", w2 + ": zero is converted to exponent " + to_string(conv[q - 1]));
    for (uint64_t i = 0; ok && i + 1 < q; ++i) ok = conv[i] < Q - 1;
    if (!ok) { vh::violation("conversion", w2 + ": exponent out of range"); continue; }
    // a homomorphism: values add up as in the small field, and multiply
    auto addv = [&](uint64_t x, uint64_t y) { uint64_t o = 0, m = 1; while (x | y) { o += (x % p + y % p) % p * m; m *= p; x /= p; y /= p; } return o; };
    vector<unsigned> idx(q);
    for (uint64_t i = 0; i < q; ++i) idx[v[i]] = i;
    auto check = [&](uint64_t i, uint64_t j) {
      S.eval(); S.add("conversions_checked");
      uint64_t s = idx[addv(v[i], v[j])];
      if (addv(V[conv[i]], V[conv[j]]) != V[conv[s]]) { vh::violation("conversion", w2 + ": sum of exponents " + to_string(i) + " and " + to_string(j)); return false; }
      if (i + 1 < q && j + 1 < q && ((uint64_t)conv[i] + conv[j]) % (Q - 1) != conv[(i + j) % (q - 1)]) { vh::violation("conversion", w2 + ": product"); return false; }
      return true;
    };
    if (q <= 130) { for (uint64_t i = 0; ok && i < q; ++i) for (uint64_t j = 0; ok && j < q; ++j) ok = check(i, j); }
    else { for (uint64_t i = 0; ok && i < q; ++i) ok = check(i, 0) && check(i, R.below(q)); }
    if (ok && V[conv[0]] != 1) vh::violation("conversion", w2 + ": one is not converted to one");
    if (r == 1) for (uint64_t i = 0; i < q; ++i) if (V[conv[i]] != v[i]) { vh::violation("conversion", w2 + ": value of exponent " + to_string(i) + " changes"); break; }
    S.distinct(w2);
  }
  vh::sample(who + " generator " + to_string(v[1 % q]) + " extensions up to " + to_string(maxn));
  S.print();
}

int main(int argc, char ** argv) { return vh::run_all(argc, argv, check_all); }
