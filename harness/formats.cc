// C08: result and record formats against a model with GMP integers.
#include <gmp.h>
#include "hc.hh"
#include "store/file_store.hh"
#include "store/store_factory.hh"
using namespace hc;
using std::string; using std::to_string; using std::get;
static vh::Stats S;

struct Big {
  mpz_t v;
  Big() { mpz_init(v); }
  Big(const Big & o) { mpz_init_set(v, o.v); }
  Big & operator=(const Big & o) { mpz_set(v, o.v); return *this; }
  ~Big() { mpz_clear(v); }
  string str() const { char * c = mpz_get_str(NULL, 10, v); string s(c); free(c); return s; }
};

static void random_count(Big & b, vh::Rng & R, int maxdigits) {
  static const char * edges[] = {"0", "1", "9", "10", "2147483647", "2147483648", "4294967295", "4294967296", "4611686018427387903", "4611686018427387904", "4611686018427387905",
    "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211456", "99999999999999999999999999999999999999", "100000000000000000000"};
  if (R.chance(1, 3)) { mpz_set_str(b.v, edges[R.below(sizeof edges / sizeof *edges)], 10); return; }
  int d = R.chance(1, 20) ? R.range(1, maxdigits) : R.range(1, 60);
  string s(1, '1' + R.below(9));
  while ((int)s.size() < d) s += '0' + R.below(10);
  mpz_set_str(b.v, s.c_str(), 10);
}

typedef std::pair<std::vector<unsigned>, std::vector<int>> Key;
typedef std::map<Key, Big> Model;

static string line(const Key & k, const Big & b) { return vh::join(k.first) + ";" + vh::join(k.second) + ":" + b.str() + "\n"; }

static Key random_key(vh::Rng & R) {
  Key k;
  int n = R.chance(1, 60) ? 0 : R.chance(1, 1500) ? R.range(40, 30000) : R.chance(1, 10) ? R.range(1, 40) : R.range(1, 8);
  for (int i = 0; i < n; ++i) k.first.push_back(R.chance(1, 8) ? R.below(1u << 31) : R.range(1, 12));
  n = R.chance(1, 60) ? 0 : R.chance(1, 1500) ? R.range(40, 30000) : R.chance(1, 10) ? R.range(1, 20) : R.range(1, 4);
  for (int i = 0; i < n; ++i) {
    int w = R.below(8);
    k.second.push_back(w == 0 ? 0 : w == 1 ? -2147483647 - 1 : w == 2 ? 2147483647 : w < 6 ? R.range(-9, 9) : R.range(-70000, 70000));
  }
  return k;
}

// reads the program's text with a parser of our own
static bool parse(const string & s, Model & m, string & why) {
  std::istringstream in(s);
  for (string l; std::getline(in, l);) {
    size_t c = l.find(':'), sc = l.find(';');
    if (c == string::npos || sc == string::npos || sc > c) { why = "line \"" + l.substr(0, 200) + "\""; return false; }
    Key k;
    auto nums = [&](const string & t, auto & out) {
      std::istringstream i2(t);
      for (string w; std::getline(i2, w, ',');) {
        if (w.empty() || w.find_first_not_of("-0123456789") != string::npos) return false;
        out.push_back(atoll(w.c_str()));
      }
      return t.empty() || t.back() != ',';
    };
    if (!nums(l.substr(0, sc), k.first) || !nums(l.substr(sc + 1, c - sc - 1), k.second)) { why = "line \"" + l.substr(0, 200) + "\""; return false; }
    Big b;
    if (mpz_set_str(b.v, l.c_str() + c + 1, 10)) { why = "count in \"" + l.substr(0, 200) + "\""; return false; }
    if (m.count(k)) { why = "two lines for " + l.substr(0, c); return false; }
    m[k] = b;
  }
  return true;
}
static void expect(const string & label, const string & got, const Model & want) {
  S.eval();
  Model m; string why;
  if (!parse(got, m, why)) { vh::violation(label + ":format", why); return; }
  for (auto & kv : want) {
    auto it = m.find(kv.first);
    if (it == m.end()) { vh::violation(label + ":lost", line(kv.first, kv.second).substr(0, 300)); return; }
    if (mpz_cmp(it->second.v, kv.second.v)) { vh::violation(label + ":count", line(kv.first, kv.second).substr(0, 300) + " read back as " + it->second.str().substr(0, 200)); return; }
  }
  if (m.size() != want.size()) vh::violation(label + ":extra", to_string(m.size()) + " lines instead of " + to_string(want.size()));
}

static void results(vh::Rng & R, int maxdigits, int size) {
  auto fac = create_store_factory(StoreType::EC);
  auto st = fac->create();
  Model m;
  int files = R.range(1, 4);
  std::vector<Key> keys;
  for (int f = 0; f < files; ++f) {
    string text;
    int lines = R.chance(1, 8) ? 0 : R.range(1, size);
    for (int i = 0; i < lines; ++i) {
      Key k = !keys.empty() && R.chance(1, 3) ? R.pick(keys) : random_key(R);
      // neighbours: prefixes and near-equal keys
      if (!keys.empty() && R.chance(1, 6)) { k = R.pick(keys); if (R.chance(1, 2) && k.second.size() > 1) k.second.pop_back(); else if (k.second.size()) k.second.back() = R.range(-9, 9); }
      keys.push_back(k);
      Big b; random_count(b, R, maxdigits);
      text += line(k, b);
      auto it = m.find(k);
      if (it == m.end()) m[k] = b; else mpz_add(it->second.v, it->second.v, b.v);
      S.add("lines");
    }
    if (R.chance(1, 2)) { std::stringstream ss(text); st->extract(ss); } else st->extract(std::stringstream(text));
    if (R.chance(1, 3)) { std::stringstream ss; st->insert(ss); expect("read", ss.str(), m); }
  }
  std::stringstream out; st->insert(out);
  expect("read", out.str(), m);
  S.distinct(out.str());
  if (m.size() < 3) vh::sample(out.str().substr(0, 200));
  // and once more through what was written
  auto st2 = fac->create();
  { std::stringstream ss(out.str()); st2->extract(ss); }
  std::stringstream out2; st2->insert(out2);
  expect("written_and_read", out2.str(), m);
  if (R.chance(1, 2)) { // reading it again doubles
    std::stringstream ss(out.str()); st2->extract(ss);
    for (auto & kv : m) mpz_mul_2exp(kv.second.v, kv.second.v, 1);
    std::stringstream out3; st2->insert(out3);
    expect("read_twice", out3.str(), m);
  }
}

typedef std::set<std::vector<std::pair<unsigned, unsigned>>> Rec;
static Rec conv(const std::set<vuu_block> & r) {
  Rec o;
  for (auto & b : r) { std::vector<std::pair<unsigned, unsigned>> v; for (auto & t : b) v.emplace_back(get<0>(t), get<1>(t)); o.insert(v); }
  return o;
}
static vuu_block random_block(vh::Rng & R) {
  vuu_block b;
  int n = R.chance(1, 3000) ? R.range(14, 9000) : R.range(1, 14);
  for (int i = 0; i < n; ++i) {
    unsigned l = R.chance(1, 6) ? R.below((1u << 30) - 1) : R.chance(1, 2) ? R.below(4) : R.below(2000);
    b.push_back(std::make_tuple(l, l + 1 + (unsigned)(R.chance(1, 5) ? R.below(100000) : R.below(3))));
  }
  return b;
}
static void records(vh::Rng & R, int size) {
  std::set<vuu_block> rec;
  int n = R.chance(1, 6) ? 0 : R.range(1, 2 * size);
  vuu_block last;
  for (int i = 0; i < n; ++i) {
    auto b = random_block(R);
    if (!last.empty() && R.chance(1, 4)) { b = last; b.back() = std::make_tuple(R.below(50), 50 + R.below(9)); }
    if (!last.empty() && R.chance(1, 8)) { b = last; b.pop_back(); if (b.empty()) b = last; }
    rec.insert(b); last = b;
  }
  std::stringstream out; FileStore::insert(out, rec);
  // our own reader
  Rec got;
  std::istringstream in(out.str());
  for (string l; std::getline(in, l);) {
    std::istringstream i2(l); std::vector<std::pair<unsigned, unsigned>> v; unsigned long a, c;
    while (i2 >> a >> c) v.emplace_back(a, c);
    got.insert(v);
  }
  S.eval();
  if (got != conv(rec)) vh::violation("record_written", "text " + out.str().substr(0, 400));
  std::set<vuu_block> back;
  { std::stringstream ss(out.str()); FileStore::extract(ss, back); }
  if (conv(back) != conv(rec)) vh::violation("record_round_trip", to_string(rec.size()) + " blocks became " + to_string(back.size()) + ": " + out.str().substr(0, 400));
  // several streams: union
  std::set<vuu_block> more, uni = rec;
  for (int i = R.below(9); i--;) more.insert(random_block(R));
  uni.insert(more.begin(), more.end());
  std::stringstream out2; FileStore::insert(out2, more);
  FileStore::extract(std::stringstream(out2.str()), back);
  if (conv(back) != conv(uni)) vh::violation("record_union", to_string(uni.size()) + " blocks expected, " + to_string(back.size()) + " read");
  // single blocks
  for (auto & b : more) {
    std::stringstream s1; FileStore::insert(s1, b); vuu_block c;
    FileStore::extract(s1, c);
    if (c != b) vh::violation("block_round_trip", s1.str());
    S.eval();
  }
  S.add("record_blocks", uni.size());
  S.distinct(out.str());
}

static void values(vh::Rng & R, int maxdigits) { // counts are values: copies do not share state
  typedef HyCu::StoreData::Count::ValueType V;
  auto str = [](const V & v) { std::stringstream s; s << v; return s.str(); };
  Big a, b, c; random_count(a, R, maxdigits); random_count(b, R, maxdigits);
  mpz_add(c.v, a.v, b.v);
  V x(a.str()), y(b.str()), z(x), w;
  if (str(x) != a.str() || str(z) != a.str() || str(w) != "0") vh::violation("count_text", a.str().substr(0, 200) + " printed as " + str(x).substr(0, 200));
  z += y;
  if (str(z) != c.str()) vh::violation("count_sum", a.str() + "+" + b.str() + "=" + str(z));
  if (str(x) != a.str()) vh::violation("count_copy_shares_state", a.str());
  w = z; z += y;
  if (str(w) != c.str()) vh::violation("count_assignment_shares_state", c.str());
  { std::map<int, V> m; m[1] = w; m[2] = m[1]; m[2] += y; if (str(m[1]) != c.str()) vh::violation("count_map_shares_state", c.str()); }
  if (str(w) != c.str()) vh::violation("count_lifetime", c.str());
  if (!(V(a.str()) == x)) vh::violation("count_equality", a.str());
  if ((V(a.str()) == y) != !mpz_cmp(a.v, b.v) || (V(b.str()) == y) != true) vh::violation("count_equality", a.str() + " and " + b.str());
  S.eval(7);
}

// the keys of a store are equal exactly when their numbers are, and are ordered
static void keys(vh::Rng & R) {
  typedef HyCu::CurveData::ExplicitRamificationHasseWeil::ValueType K;
  std::vector<Key> v;
  for (int i = 0; i < 6; ++i) {
    Key k = random_key(R);
    if (i && R.chance(1, 2)) { // one that differs little
      k = v[R.below(v.size())];
      auto & a = k.first; auto & b = k.second;
      switch (R.below(6)) {
        case 0: if (!a.empty()) a[R.below(a.size())] += 1; break;
        case 1: if (!b.empty()) { auto & x = b[R.below(b.size())]; x = x == 2147483647 ? x - 1 : x + 1; } break;
        case 2: if (!b.empty()) b.pop_back(); break;
        case 3: a.push_back(1); break;
        case 4: if (!b.empty()) { auto & x = b[R.below(b.size())]; if (x != -2147483647 - 1) x = -x; } break;
      }
    }
    v.push_back(k);
  }
  auto text = [](const Key & k) { return vh::join(k.first) + ";" + vh::join(k.second); };
  std::less<K> less;
  for (auto & a : v) for (auto & b : v) {
    K x(text(a)), y(text(b));
    bool same = a == b;
    if ((x == y) != same) vh::violation("key_equality", text(a).substr(0, 300) + " and " + text(b).substr(0, 300));
    if (int(less(x, y)) + int(less(y, x)) != !same) vh::violation("key_order", text(a).substr(0, 300) + " and " + text(b).substr(0, 300));
    for (auto & c : v) if (less(x, y) && less(y, K(text(c))) && !less(x, K(text(c)))) vh::violation("key_order", "not transitive: " + text(a).substr(0, 300));
    S.eval(2);
  }
}

// what curves contribute is equal exactly when it is the same number
static void contributions(vh::Rng & R) {
  typedef HyCu::StoreData::Count C;
  static const std::vector<std::pair<uint32_t, unsigned>> Q = {{3, 1}, {5, 1}, {7, 1}, {3, 2}, {13, 1}, {5, 2}, {65537, 1}};
  static std::map<int, std::shared_ptr<FqElementTable>> T;
  std::vector<std::pair<std::string, std::shared_ptr<C>>> v;
  for (int i = 0; i < 8; ++i) {
    int k = R.below(Q.size());
    auto & t = T[k];
    if (!t) t = std::make_shared<FqElementTable>(Q[k].first, Q[k].second);
    uint64_t q = 1; for (unsigned e = 0; e < Q[k].second; ++e) q *= Q[k].first;
    std::vector<unsigned> f;
    int d = R.range(3, 8);
    for (int j = 0; j < d; ++j) f.push_back(R.chance(1, 2) ? q - 1 : R.below(q - 1));
    f.push_back(R.below(q - 1));
    Curve c(t, f);
    auto x = std::make_shared<C>(c);
    std::stringstream s; s << C::ValueType(*x);
    v.emplace_back(s.str(), x);
  }
  for (auto & a : v) for (auto & b : v) {
    if ((*a.second == *b.second) != (a.first == b.first)) vh::violation("contribution_equality", a.first + " and " + b.first);
    S.eval();
  }
}

int main(int argc, char ** argv) {
  vh::Args A(argc, argv);
  vh::Rng R(A.num("seed", 1) * 104729 + 5);
  int maxd = A.num("digits", 3000), size = A.num("size", 30);
  for (int i = 0; i < A.num("rounds", 400); ++i) { results(R, maxd, size); records(R, size); values(R, maxd); keys(R); if (i % 4 == 0) contributions(R); }
  S.print();
  vh::done();
  return 0;
}
