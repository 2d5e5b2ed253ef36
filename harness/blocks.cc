// C05: block iteration against a plain product model.
#include <algorithm>
#include <memory>
#include <sstream>
#include "block_iterator.hh"
#include "vh.hh"
using namespace std;

typedef vector<unsigned> pos;
typedef vector<tuple<unsigned, unsigned>> bounds;
struct Spec {
  size_t len = 0; unsigned pkg = 1;
  map<size_t, tuple<unsigned, unsigned>> blocks;
  map<size_t, vector<unsigned>> sets;
  map<size_t, tuple<size_t, map<unsigned, vector<unsigned>>>> dep;
};
static string show(const Spec & s) {
  ostringstream o; o << "package " << s.pkg << " {";
  for (auto & b : s.blocks) o << " " << b.first << ":[" << get<0>(b.second) << "," << get<1>(b.second) << ")";
  for (auto & b : s.sets) o << " " << b.first << ":{" << vh::join(b.second) << "}";
  for (auto & b : s.dep) { o << " " << b.first << ":on " << get<0>(b.second) << "("; for (auto & m : get<1>(b.second)) o << m.first << "->{" << vh::join(m.second) << "}"; o << ")"; }
  o << " }"; return o.str();
}
static string show(const bounds & b) { string s; for (auto & t : b) s += "[" + to_string(get<0>(t)) + "," + to_string(get<1>(t)) + ")"; return s; }

// all positions of the specification, sorted
static vector<pos> product(const Spec & s) {
  vector<pair<pos, pos>> cur = {{pos(s.len, 0), pos(s.len, 0)}}; // value, key
  for (auto & b : s.blocks) {
    vector<pair<pos, pos>> n;
    for (auto & c : cur) for (unsigned v = get<0>(b.second); v < get<1>(b.second); ++v) { n.push_back(c); n.back().first[b.first] = v; n.back().second[b.first] = v; }
    cur.swap(n);
  }
  for (auto & b : s.sets) {
    vector<pair<pos, pos>> n;
    for (auto & c : cur) for (unsigned i = 0; i < b.second.size(); ++i) { n.push_back(c); n.back().first[b.first] = b.second[i]; n.back().second[b.first] = i; }
    cur.swap(n);
  }
  for (auto & b : s.dep) {
    vector<pair<pos, pos>> n;
    for (auto & c : cur) for (unsigned v : get<1>(b.second).at(c.second[get<0>(b.second)])) { n.push_back(c); n.back().first[b.first] = v; }
    cur.swap(n);
  }
  vector<pos> out;
  for (auto & c : cur) out.push_back(c.first);
  sort(out.begin(), out.end());
  return out;
}
static vector<pos> product(const bounds & b) {
  Spec s; s.len = b.size();
  for (size_t i = 0; i < b.size(); ++i) s.blocks[i] = b[i];
  return product(s);
}
static vh::Stats S;

static void after_end(BlockIterator & it, const string & who) {
  auto before = it.as_position();
  for (int i = 0; i < 3; ++i) it.step();
  if (!it.is_end() || it.as_position() != before) vh::violation("past_end", who + ": stepping past the end changes the iterator");
}
// positions in visiting order; gives up beyond the limit
static vector<pos> walk(BlockIterator it, size_t limit, const string & who) {
  vector<pos> out;
  while (!it.is_end()) {
    out.push_back(it.as_position());
    if (it.as_position() != out.back()) vh::violation("stable", who + ": reading the position changes it");
    if (out.size() > limit) { vh::violation("endless", who + ": more than " + to_string(limit) + " steps"); return out; }
    it.step(); S.eval();
  }
  after_end(it, who);
  return out;
}
static void same(vector<pos> got, const vector<pos> & want, const char * key, const string & who) {
  sort(got.begin(), got.end());
  if (got == want) return;
  if (adjacent_find(got.begin(), got.end()) != got.end()) vh::violation(string(key) + "_twice", who + ": a position is visited twice");
  vector<pos> d;
  set_difference(want.begin(), want.end(), got.begin(), got.end(), back_inserter(d));
  if (!d.empty()) vh::violation(string(key) + "_missed", who + ": " + to_string(d.size()) + " positions are missed, e.g. " + vh::join(d[0]));
  d.clear();
  set_difference(got.begin(), got.end(), want.begin(), want.end(), back_inserter(d));
  if (!d.empty()) vh::violation(string(key) + "_foreign", who + ": visits " + vh::join(d[0]));
}

static void check(const Spec & s) {
  string who = show(s);
  auto want = product(s);
  unsigned __int128 vol = 1;
  size_t limit = want.size() + 8;
  S.distinct(who); S.add("specifications"); S.add("positions", want.size());
  if (s.pkg == 1) {
    BlockIterator it = s.blocks.empty() || true ? BlockIterator(s.len, s.blocks, s.sets, s.dep) : BlockIterator(s.len, s.blocks, 1, s.sets, s.dep);
    if (it.length() != s.len) vh::violation("length", who);
    same(walk(it, limit, who), want, "step", who);
    // a copy taken half way continues from there, and the original does too
    BlockIterator a(s.len, s.blocks, s.sets, s.dep);
    vector<pos> seen; size_t half = want.size() / 2;
    for (size_t i = 0; i < half && !a.is_end(); ++i) { seen.push_back(a.as_position()); a.step(); }
    BlockIterator bcopy = a;
    auto ra = walk(a, limit, who), rb = walk(bcopy, limit, who);
    if (ra != rb) vh::violation("copy", who + ": a copy visits other positions");
    seen.insert(seen.end(), ra.begin(), ra.end());
    same(seen, want, "copy", who);
    if (s.sets.empty() && s.dep.empty()) {
      bounds b;
      for (auto & x : s.blocks) b.push_back(x.second);
      same(walk(BlockIterator(b), limit, who), want, "bounds", who);
    }
  }
  // packages
  BlockIterator it(s.len, s.blocks, s.pkg, s.sets, s.dep);
  vector<pos> all, all2;
  size_t n = 0;
  while (!it.is_end()) {
    auto b = it.as_block();
    auto e = it.as_block_enumerator();
    if (b.size() != s.len) { vh::violation("block_length", who); return; }
    size_t size = 1;
    for (auto & t : b) size *= get<1>(t) > get<0>(t) ? get<1>(t) - get<0>(t) : 0;
    if (size == 0 || size > s.pkg) { vh::violation("package_size", who + ": package " + show(b)); if (size > limit) return; }
    auto pb = product(b);
    auto we = walk(e, pb.size() + limit, who);
    same(we, pb, "enumerator", who + ": package " + show(b));
    auto wb = walk(BlockIterator(b), pb.size() + limit, who);
    same(wb, pb, "package_bounds", who + ": package " + show(b));
    auto p0 = it.as_position();
    for (size_t i = 0; i < b.size(); ++i) if (get<0>(b[i]) != p0[i]) { vh::violation("package_corner", who); break; }
    all.insert(all.end(), pb.begin(), pb.end());
    if (++n > limit) { vh::violation("endless_packages", who); return; }
    it.step(); S.eval(); S.add("packages");
  }
  after_end(it, who);
  same(all, want, "package", who);
}

// few, huge ranges: packages must tile the box
static void check_large(vh::Rng & R) {
  Spec s; s.len = R.range(1, 3);
  unsigned __int128 vol = 1;
  for (size_t i = 0; i < s.len; ++i) {
    unsigned size = R.chance(1, 2) ? 1 + R.below(1u << 30) : 1 + R.below(60), lo = R.chance(1, 2) ? 0 : R.below(1000);
    if (lo + size > (1u << 30)) lo = 0;
    s.blocks[i] = make_tuple(lo, lo + size); vol *= size;
  }
  s.pkg = (unsigned)min<unsigned __int128>(1 + (unsigned)(vol / (1 + R.below(300)) > 0x3fffffff ? 0x3fffffff - R.below(1000) : (uint64_t)(vol / (1 + R.below(300)))), 0x40000000);
  if (vol / s.pkg > 3000) return;
  string who = show(s);
  BlockIterator it(s.len, s.blocks, s.pkg, s.sets, s.dep);
  vector<bounds> bs; unsigned __int128 sum = 0;
  while (!it.is_end()) {
    auto b = it.as_block();
    unsigned __int128 v = 1;
    for (size_t i = 0; i < s.len; ++i) {
      if (get<0>(b[i]) < get<0>(s.blocks[i]) || get<1>(b[i]) > get<1>(s.blocks[i]) || get<0>(b[i]) >= get<1>(b[i])) { vh::violation("large_outside", who + ": " + show(b)); return; }
      v *= get<1>(b[i]) - get<0>(b[i]);
    }
    if (v > s.pkg) { vh::violation("large_package_size", who + ": " + show(b)); return; }
    sum += v; bs.push_back(b); S.eval();
    if (bs.size() > 500000) { vh::violation("large_endless", who); return; }
    it.step();
  }
  after_end(it, who);
  if (sum != vol) vh::violation("large_cover", who + ": packages do not add up to the box");
  if (bs.size() <= 2000) for (size_t i = 0; i < bs.size(); ++i) for (size_t j = 0; j < i; ++j) {
    bool meet = true;
    for (size_t k = 0; k < s.len; ++k) if (get<1>(bs[i][k]) <= get<0>(bs[j][k]) || get<1>(bs[j][k]) <= get<0>(bs[i][k])) meet = false;
    if (meet) { vh::violation("large_overlap", who + ": " + show(bs[i]) + " and " + show(bs[j])); return; }
  }
  S.add("large_boxes"); S.distinct(who);
}

int main(int argc, char ** argv) {
  vh::Args A(argc, argv);
  vh::Rng R(A.num("seed", 1) * 31337 + A.num("shard"));
  int n = A.num("specs", 1000), maxpos = A.num("maxpos", 3000);
  if (A.num("shard") == 0) {
    // exhaustive: up to three ranges of sizes 1..5, all package sizes
    for (unsigned a = 1; a <= 5; ++a) for (unsigned b = 0; b <= 5; ++b) for (unsigned c = 0; c <= 4; ++c) {
      if (!b && c) continue;
      Spec s; s.blocks[0] = make_tuple(a, 2 * a); s.len = 1;
      if (b) { s.blocks[1] = make_tuple(0u, b); s.len = 2; }
      if (c) { s.blocks[2] = make_tuple(7u, 7 + c); s.len = 3; }
      for (s.pkg = 1; s.pkg <= a * max(b, 1u) * max(c, 1u) + 2; ++s.pkg) check(s);
    }
    // no position at all
    BlockIterator e(0, {});
    if (!e.is_end()) vh::violation("empty", "an iterator of length 0 has a position");
    after_end(e, "length 0");
    S.add("empty_iterators");
  }
  for (int i = 0; i < n; ++i) {
    // a sixth of the specifications is long, and a sixth has long ranges and sets
    int shape = R.below(6);
    bool deep = shape == 0, wide = shape == 1;
    Spec s; s.len = deep ? R.range(8, 18) : R.range(1, wide ? 3 : 7);
    auto few = [&](int k) { return deep && !R.chance(1, 4) ? R.range(1, 2) : R.range(1, wide && R.chance(1, 2) ? 700 : k); };
    unsigned vals = wide ? 100000 : 30;
    s.pkg = R.chance(1, 4) ? 1 : R.chance(1, 2) ? R.range(1, 20) : R.chance(1, 2) ? R.range(1, 400) : 1000000;
    double vol = 1;
    vector<size_t> parents;
    for (size_t j = 0; j < s.len && vol <= maxpos; ++j) {
      int kind = R.below(10);
      if (kind < 5) {
        unsigned lo = R.chance(1, 3) ? 0 : R.below(50), size = R.chance(1, 4) ? 1 : few(9);
        s.blocks[j] = make_tuple(lo, lo + size); vol *= size;
        if (s.pkg == 1) parents.push_back(j);
      } else if (kind < 8 || parents.empty()) {
        vector<unsigned> v; unsigned k = R.chance(1, 3) ? 1 : few(5);
        while (v.size() < k) { unsigned x = R.below(vals); if (find(v.begin(), v.end(), x) == v.end()) v.push_back(x); }
        s.sets[j] = v; vol *= k; parents.push_back(j);
      } else {
        size_t par = R.pick(parents);
        map<unsigned, vector<unsigned>> m;
        vector<unsigned> keys;
        if (s.sets.count(par)) for (unsigned k = 0; k < s.sets[par].size(); ++k) keys.push_back(k);
        else for (unsigned k = get<0>(s.blocks[par]); k < get<1>(s.blocks[par]); ++k) keys.push_back(k);
        unsigned mx = 0;
        for (unsigned k : keys) {
          vector<unsigned> v; unsigned c = few(4); mx = max(mx, c);
          while (v.size() < c) { unsigned x = R.below(vals); if (find(v.begin(), v.end(), x) == v.end()) v.push_back(x); }
          m[k] = v;
        }
        s.dep[j] = make_tuple(par, m); vol *= mx;
        S.add("dependent_sets");
      }
    }
    // a dependent set may also precede what it depends on
    if (vol > maxpos) { --i; continue; }
    if (R.chance(1, 2) && s.len > 1) { // relabel positions
      vector<size_t> perm; for (size_t j = 0; j < s.len; ++j) perm.push_back(j);
      R.shuffle(perm);
      Spec t; t.len = s.len; t.pkg = s.pkg;
      for (auto & b : s.blocks) t.blocks[perm[b.first]] = b.second;
      for (auto & b : s.sets) t.sets[perm[b.first]] = b.second;
      for (auto & b : s.dep) t.dep[perm[b.first]] = make_tuple(perm[get<0>(b.second)], get<1>(b.second));
      s = t;
    }
    if (deep) S.add("long_specifications");
    if (wide) S.add("wide_specifications");
    check(s);
    vh::sample(show(s).substr(0, 300));
  }
  for (int i = 0; i < n / 4; ++i) check_large(R);
  S.print();
  vh::done();
}
