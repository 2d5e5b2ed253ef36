// Independent reference arithmetic: finite fields, polynomials over them, and points of
// hyperelliptic curves. Shares no code and no data with the program under test (no FLINT).
// Elements of F_{p^n} are integers in base p, coefficients of 1, x, x^2, ... modulo a primitive
// polynomial found by search, so that x generates the multiplicative group.
#ifndef REF_FIELD_HH
#define REF_FIELD_HH
#include <cstdint>
#include <cstdlib>
#include <memory>
#include <utility>
#include <vector>
#include <map>
#include <mutex>
#include <stdexcept>

namespace ref {

typedef uint32_t el;

inline uint64_t ipow(uint64_t b, unsigned e) { uint64_t r = 1; while (e--) r *= b; return r; }
inline uint64_t powmod(uint64_t b, uint64_t e, uint64_t m) {
  unsigned __int128 r = 1, x = b % m;
  while (e) { if (e & 1) r = r * x % m; x = x * x % m; e >>= 1; }
  return (uint64_t)r;
}

struct Field {
  uint32_t p; unsigned n; uint64_t Q; uint32_t N; // N = Q-1
  std::vector<el> ex;        // ex[i] = x^i
  std::vector<uint32_t> lg;  // lg[e], lg[0] undefined
  el top;                    // p^(n-1)

  Field(uint32_t p, unsigned n) : p(p), n(n), Q(ipow(p, n)), N(Q - 1), top(ipow(p, n - 1)) {
    ex.resize(N); lg.assign(Q, 0);
    if (n == 1) {
      for (uint32_t g = 1; g < p; ++g) if (try_prime(g)) return;
      throw std::runtime_error("no generator");
    }
    // monic polynomials x^n - (c_{n-1} x^{n-1} + ... + c_0), red = sum c_i p^i
    uint64_t st = 88172645463325252ull;
    for (;;) {
      st ^= st << 13; st ^= st >> 7; st ^= st << 17;
      el red = st % Q;
      if (red % p == 0) continue;
      if (try_ext(red)) return;
    }
  }
  bool try_prime(uint32_t g) {
    uint64_t a = 1;
    for (uint32_t i = 0; i < N; ++i) {
      if (i && a == 1) return false;
      ex[i] = a; lg[a] = i; a = a * g % p;
    }
    return a == 1;
  }
  bool try_ext(el red) {
    std::vector<el> mult(p); // digit * red
    mult[0] = 0;
    for (uint32_t d = 1; d < p; ++d) mult[d] = add(mult[d - 1], red);
    el a = 1;
    for (uint32_t i = 0; i < N; ++i) {
      if (i && a == 1) return false;
      ex[i] = a; lg[a] = i;
      el hi = a / top, lo = a % top;
      a = add(lo * p, mult[hi]);
    }
    return a == 1;
  }
  inline el add(el a, el b) const {
    if (n == 1) { uint32_t s = a + b; return s >= p ? s - p : s; }
    el r = 0, m = 1;
    while (a | b) {
      uint32_t s = a % p + b % p; if (s >= p) s -= p;
      r += s * m; m *= p; a /= p; b /= p;
    }
    return r;
  }
  inline el neg(el a) const {
    el r = 0, m = 1;
    while (a) { uint32_t d = a % p; r += (d ? p - d : 0) * m; m *= p; a /= p; }
    return r;
  }
  inline el sub(el a, el b) const { return add(a, neg(b)); }
  inline el mul(el a, el b) const {
    if (!a || !b) return 0;
    uint64_t s = (uint64_t)lg[a] + lg[b]; if (s >= N) s -= N;
    return ex[s];
  }
  inline el inv(el a) const { uint32_t l = lg[a]; return ex[l ? N - l : 0]; }
  inline el pow(el a, uint64_t e) const {
    if (!e) return 1; if (!a) return 0;
    return ex[(unsigned __int128)lg[a] * e % N];
  }
  inline bool is_square(el a) const { return a == 0 || lg[a] % 2 == 0; }
};

inline std::shared_ptr<Field> field(uint32_t p, unsigned n) {
  static std::map<std::pair<uint32_t, unsigned>, std::shared_ptr<Field>> cache;
  static std::mutex m;
  std::lock_guard<std::mutex> l(m);
  auto & f = cache[{p, n}];
  if (!f) f = std::make_shared<Field>(p, n);
  return f;
}

typedef std::vector<el> poly; // lowest coefficient first, no trailing zeros

inline void trim(poly & f) { while (!f.empty() && !f.back()) f.pop_back(); }

inline poly rem(const Field & F, poly a, const poly & b) {
  trim(a);
  el li = F.inv(b.back());
  while (a.size() >= b.size()) {
    el c = F.mul(a.back(), li);
    size_t s = a.size() - b.size();
    if (c) for (size_t i = 0; i < b.size(); ++i) a[s + i] = F.sub(a[s + i], F.mul(c, b[i]));
    a.pop_back(); trim(a);
  }
  return a;
}
inline poly quo(const Field & F, poly a, const poly & b) {
  trim(a);
  poly q(a.size() >= b.size() ? a.size() - b.size() + 1 : 0, 0);
  el li = F.inv(b.back());
  while (a.size() >= b.size()) {
    el c = F.mul(a.back(), li);
    size_t s = a.size() - b.size();
    q[s] = c;
    for (size_t i = 0; i < b.size(); ++i) a[s + i] = F.sub(a[s + i], F.mul(c, b[i]));
    a.pop_back(); trim(a);
  }
  return q;
}
inline poly gcd(const Field & F, poly a, poly b) {
  trim(a); trim(b);
  while (!b.empty()) { poly r = rem(F, a, b); a = b; b = r; }
  return a;
}
inline poly mulmod(const Field & F, const poly & a, const poly & b, const poly & f) {
  if (a.empty() || b.empty()) return {};
  poly c(a.size() + b.size() - 1, 0);
  for (size_t i = 0; i < a.size(); ++i) if (a[i]) for (size_t j = 0; j < b.size(); ++j)
    c[i + j] = F.add(c[i + j], F.mul(a[i], b[j]));
  return rem(F, c, f);
}
inline poly deriv(const Field & F, const poly & f) {
  poly d;
  for (size_t i = 1; i < f.size(); ++i) {
    el s = 0; // i * f_i, characteristic p
    for (size_t k = 0; k < i % F.p; ++k) s = F.add(s, f[i]);
    d.push_back(s);
  }
  trim(d); return d;
}
inline bool squarefree(const Field & F, const poly & f) { return gcd(F, f, deriv(F, f)).size() == 1; }

// degrees of the irreducible factors of a squarefree f, sorted
inline std::vector<unsigned> factor_degrees(const Field & F, poly f) {
  std::vector<unsigned> out;
  poly x = {0, 1}, h = rem(F, x, f);
  for (unsigned k = 1; f.size() > 1; ++k) {
    if (2 * k > f.size() - 1) { out.push_back(f.size() - 1); break; }
    // h = h^Q mod f
    poly base = h, r = {1}; uint64_t e = F.Q;
    while (e) { if (e & 1) r = mulmod(F, r, base, f); base = mulmod(F, base, base, f); e >>= 1; }
    h = r;
    poly d = h; if (d.size() < 2) d.resize(2, 0);
    d[1] = F.sub(d[1], 1); trim(d);
    poly g = d.empty() ? f : gcd(F, f, d);
    unsigned m = (g.size() - 1) / k;
    for (unsigned i = 0; i < m; ++i) out.push_back(k);
    if (g.size() > 1) { f = quo(F, f, g); if (f.size() > 1) h = rem(F, h, f); }
  }
  return out;
}

// ramification type as the program defines it
inline std::vector<unsigned> ramification(const Field & F, const poly & f) {
  auto d = factor_degrees(F, f);
  if ((f.size() - 1) % 2) d.insert(d.begin(), 1);
  return d;
}

// points of the smooth model of Y^2 = f(X) over F (f squarefree of degree >= 1)
inline std::pair<uint64_t, uint64_t> points(const Field & F, const poly & f) {
  uint64_t u = 0, r = 0;
  auto see = [&](el v) { if (!v) ++r; else if (F.lg[v] % 2 == 0) u += 2; };
  see(f[0]);
  size_t d = f.size() - 1;
  if (d % 2) ++r; else if (F.lg[f[d]] % 2 == 0) u += 2;
  bool prime_coeffs = true;
  for (el c : f) if (c >= F.p) prime_coeffs = false;
  for (uint32_t l = 0; l < F.N; ++l) {
    el v = f[d];
    for (size_t i = d; i-- > 0;) {
      if (v) { uint64_t s = (uint64_t)F.lg[v] + l; if (s >= F.N) s -= F.N; v = F.ex[s]; }
      el c = f[i];
      if (c) {
        if (prime_coeffs) { uint32_t lo = v % F.p; v = v - lo + (lo + c) % F.p; }
        else v = F.add(v, c);
      }
    }
    see(v);
  }
  return {u, r};
}

}
#endif
