// Connects the code under test (public interface only) with the reference arithmetic.
#ifndef HC_HH
#define HC_HH
#include <memory>
#include <sstream>
#include "curve.hh"
#include "curve_iterator.hh"
#include "fq_element_table.hh"
#include "reduction_table.hh"
#include "ref_field.hh"
#include "vh.hh"

namespace hc {

using ref::el;

// vector of F_p-coefficients of a field element of the program, as a base-p integer
inline uint64_t digits(const fq_nmod_struct * a, uint32_t p, unsigned r) {
  uint64_t v = 0;
  for (int i = (int)r - 1; i >= 0; --i) v = v * p + nmod_poly_get_coeff_ui(a, i);
  return v;
}

// monic minimal polynomial over F_p of the sequence a_0, a_1, ... (powers of one element):
// smallest linear recurrence of degree <= r, by Gaussian elimination. Empty if there is none.
inline std::vector<uint32_t> recurrence(const std::vector<uint64_t> & pw, uint32_t p, unsigned r) {
  // find c with pw[r] = sum c_j pw[j]
  std::vector<std::vector<uint64_t>> M(r, std::vector<uint64_t>(r + 1));
  for (unsigned j = 0; j <= r; ++j) {
    uint64_t v = pw[j];
    for (unsigned i = 0; i < r; ++i) { M[i][j] = v % p; v /= p; }
  }
  for (unsigned c = 0; c < r; ++c) {
    unsigned piv = c;
    while (piv < r && !M[piv][c]) ++piv;
    if (piv == r) return {};
    std::swap(M[piv], M[c]);
    uint64_t iv = ref::powmod(M[c][c], p - 2, p);
    for (unsigned k = c; k <= r; ++k) M[c][k] = M[c][k] * iv % p;
    for (unsigned i = 0; i < r; ++i) if (i != c && M[i][c]) {
      uint64_t m = M[i][c];
      for (unsigned k = c; k <= r; ++k) M[i][k] = (M[i][k] + (p - m) * M[c][k]) % p;
    }
  }
  std::vector<uint32_t> c(r);
  for (unsigned i = 0; i < r; ++i) c[i] = M[i][r];
  return c;
}

struct Base {
  uint32_t p; unsigned r; uint64_t q;
  std::shared_ptr<FqElementTable> table;
  std::vector<uint32_t> rec;   // recurrence of the generator
  std::vector<el> small;       // exponent -> element of ref::field(p, r); index q-1 is zero
  std::shared_ptr<ref::Field> F;

  Base(uint32_t p, unsigned r) : p(p), r(r), q(ref::ipow(p, r)) {
    table = std::make_shared<FqElementTable>(p, r);
    F = ref::field(p, r);
    if (r == 1) {
      for (uint64_t i = 0; i + 1 < q; ++i) small.push_back(table->at_nmod(i));
      small.push_back(0);
    } else {
      std::vector<uint64_t> pw;
      for (unsigned i = 0; i <= r; ++i) pw.push_back(digits(table->at(i % (q - 1)), p, r));
      rec = recurrence(pw, p, r);
      small = embed(*F);
    }
  }
  // image of the powers of the program's generator in F (of degree a multiple of r), by a root of
  // its minimal polynomial; index q-1 is zero. Empty if there is no root.
  std::vector<el> embed(const ref::Field & G) const {
    std::vector<el> out;
    if (r == 1) return small;
    if (rec.empty()) return out;
    uint64_t step = G.N / (q - 1);
    for (uint64_t k = 1; k < q - 1; ++k) {
      el e = G.ex[k * step];
      // rec(e) == e^r ?
      el s = 0, pw = 1;
      for (unsigned j = 0; j < r; ++j) { s = G.add(s, G.mul(rec[j], pw)); pw = G.mul(pw, e); }
      if (s == pw) {
        el a = 1;
        for (uint64_t i = 0; i + 1 < q; ++i) { out.push_back(a); a = G.mul(a, e); }
        out.push_back(0);
        return out;
      }
    }
    return out;
  }
  ref::poly small_poly(const std::vector<unsigned> & ex) const {
    ref::poly f;
    for (unsigned e : ex) f.push_back(small[e]);
    ref::trim(f);
    return f;
  }
};

inline std::string show(const Base & b, const std::vector<unsigned> & ex) {
  return "q=" + std::to_string(b.p) + "^" + std::to_string(b.r) + " exponents=" + vh::join(ex);
}

// exponents of a random polynomial of the given degree, of several shapes
inline std::vector<unsigned> random_poly(const Base & b, unsigned degree, vh::Rng & R) {
  unsigned z = b.q - 1;
  std::vector<unsigned> f(degree + 1);
  int shape = R.below(6);
  for (unsigned i = 0; i <= degree; ++i) {
    f[i] = R.below(b.q);
    if (shape == 1 && R.chance(2, 3)) f[i] = z;            // sparse
    if (shape == 2) f[i] = R.chance(1, 2) ? 0 : z;         // zeros and ones
    if (shape == 3 && (degree - i) % 2) f[i] = z;          // even or odd function
    if (shape == 4 && R.chance(1, 2)) f[i] = z - 1;        // largest exponent
  }
  if (shape == 5 || R.chance(1, 6)) f[0] = R.chance(1, 2) ? z : 0;
  f[degree] = R.chance(1, 3) ? 0 : R.below(z);
  return f;
}

// as above, squarefree
inline std::vector<unsigned> random_squarefree(const Base & b, unsigned degree, vh::Rng & R) {
  for (int t = 0; t < 2000; ++t) {
    auto f = random_poly(b, degree, R);
    if (ref::squarefree(*b.F, b.small_poly(f))) return f;
  }
  return {};
}

}
#endif
