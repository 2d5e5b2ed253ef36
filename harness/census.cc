// Reference census: number of squarefree polynomials of degree d over F_{p^r}, by ramification type
// and Hasse-Weil offsets for n = 1..N. Independent of the program under test. census P R D N
#include <cstdio>
#include <cmath>
#include <map>
#include <string>
#include "ref_field.hh"
using namespace ref;
int main(int argc, char ** argv) {
  uint32_t p = atoi(argv[1]); unsigned r = atoi(argv[2]), d = atoi(argv[3]), N = atoi(argv[4]);
  auto F = field(p, r);
  uint64_t q = F->Q;
  std::vector<std::shared_ptr<Field>> G; std::vector<std::vector<el>> emb;
  for (unsigned n = 1; n <= N; ++n) {
    auto K = field(p, r * n); G.push_back(K);
    // embedding: a root in K of the minimal polynomial of the generator of F
    std::vector<el> e(q, 0);
    if (r == 1) for (uint64_t i = 0; i < q; ++i) e[i] = i;
    else {
      // minimal polynomial of x in F: x^r = -(...) read off from ex[r]
      el red = F->ex[r]; std::vector<uint32_t> c(r);
      for (unsigned i = 0; i < r; ++i) { c[i] = red % p; red /= p; }
      uint64_t step = K->N / (q - 1);
      for (uint64_t k = 1; k < q - 1; ++k) {
        el z = K->ex[k * step], s = 0, pw = 1;
        for (unsigned j = 0; j < r; ++j) { s = K->add(s, K->mul(c[j], pw)); pw = K->mul(pw, z); }
        if (s == pw) { el a = 1; for (uint64_t i = 0; i + 1 < q; ++i) { e[F->ex[i]] = a; a = K->mul(a, z); } break; }
      }
    }
    emb.push_back(e);
  }
  bool shift = d % p != 0;  // X -> X + b makes the next coefficient zero, q polynomials each
  std::map<std::string, unsigned __int128> out;
  el ns = F->ex[1];
  unsigned free = shift ? d - 1 : d;
  uint64_t total = ipow(q, free);
  for (int lead = 0; lead < 2; ++lead) for (uint64_t k = 0; k < total; ++k) {
    poly f(d + 1, 0); uint64_t t = k;
    for (unsigned i = 0; i < free; ++i) { f[i] = t % q; t /= q; }
    f[d] = lead ? ns : 1;
    if (!squarefree(*F, f)) continue;
    std::string key;
    for (unsigned x : ramification(*F, f)) key += (key.empty() ? "" : ",") + std::to_string(x);
    key += ";";
    for (unsigned n = 1; n <= N; ++n) {
      poly h; for (el c : f) h.push_back(emb[n - 1][c]);
      auto pt = points(*G[n - 1], h);
      long long off = (long long)G[n - 1]->Q + 1 - (long long)(pt.first + pt.second);
      key += (n > 1 ? "," : "") + std::to_string(off);
    }
    out[key] += (unsigned __int128)((q - 1) / 2) * (shift ? q : 1);
  }
  for (auto & kv : out) { char b[64]; int i = 63; b[i] = 0; auto v = kv.second; while (v) { b[--i] = '0' + (int)(v % 10); v /= 10; } printf("%s:%s\n", kv.first.c_str(), b + i); }
}
