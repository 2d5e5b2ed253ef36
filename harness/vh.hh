// Shared by the harnesses: seeded generator, JSON-line reporting, command line.
#ifndef VH_HH
#define VH_HH
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <atomic>
#include <map>
#include <thread>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace vh {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int lo, int hi) { return lo + (int)below(hi - lo + 1); } // inclusive
  bool chance(int num, int den) { return (int)below(den) < num; }
  template <class T> const T & pick(const std::vector<T> & v) { return v[below(v.size())]; }
  template <class T> void shuffle(std::vector<T> & v) {
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]);
  }
};

inline std::string esc(const std::string & s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

inline std::mutex & out_mutex() { static std::mutex m; return m; }
inline int & violations() { static int n = 0; return n; }

inline void line(const std::string & s) {
  std::lock_guard<std::mutex> l(out_mutex());
  fputs(s.c_str(), stdout); fputc('\n', stdout); fflush(stdout);
}
inline void violation(const std::string & key, const std::string & detail) {
  {
    std::lock_guard<std::mutex> l(out_mutex());
    static std::set<std::string> seen;
    ++violations();
    if (!seen.insert(key).second || seen.size() > 40) return;
  }
  line("{\"ev\":\"violation\",\"key\":\"" + esc(key) + "\",\"detail\":\"" + esc(detail) + "\"}");
}
inline void sample(const std::string & s) {
  static std::atomic<int> n(0);
  if (n++ < 4) line("{\"ev\":\"sample\",\"s\":\"" + esc(s) + "\"}");
}
inline void at(const std::string & s) { line("{\"ev\":\"at\",\"s\":\"" + esc(s) + "\"}"); }
inline void error(const std::string & s) { line("{\"ev\":\"error\",\"s\":\"" + esc(s) + "\"}"); }

struct Stats {
  std::map<std::string, long long> m;
  std::unordered_set<uint64_t> seen;
  void add(const std::string & k, long long n = 1) { m[k] += n; }
  void eval(long long n = 1) { m["evaluations"] += n; }
  void distinct(const std::string & s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    seen.insert(h);
  }
  void print() {
    std::ostringstream o;
    o << "{\"ev\":\"stat\"";
    if (!seen.empty()) m["distinct_nontrivial"] += seen.size();
    for (auto & kv : m) o << ",\"" << esc(kv.first) << "\":" << kv.second;
    o << "}";
    line(o.str());
    m.clear(); seen.clear();
  }
};

inline void done() { line("{\"ev\":\"done\"}"); }

struct Args {
  std::map<std::string, std::string> m;
  Args(int argc, char ** argv) {
    for (int i = 1; i + 1 < argc; i += 2) m[argv[i]] = argv[i + 1];
  }
  long long num(const std::string & k, long long d = 0) const {
    auto it = m.find(k); return it == m.end() ? d : atoll(it->second.c_str());
  }
  std::string str(const std::string & k, const std::string & d = "") const {
    auto it = m.find(k); return it == m.end() ? d : it->second;
  }
};

// runs f with the arguments, or, given "several" as p:r:maxn/p:r:maxn/..., with these fields in turn
// in one process, "passes" times over; "threads" of them at a time
template <class F> int run_all(int argc, char ** argv, F f) {
  Args A(argc, argv);
  std::vector<Args> todo;
  std::string l = A.str("several");
  if (l.empty()) todo.push_back(A);
  for (long long k = 0; k < A.num("passes", 1); ++k)
    for (size_t i = 0; i < l.size();) {
      size_t j = l.find('/', i); if (j == std::string::npos) j = l.size();
      unsigned p, r, n;
      if (sscanf(l.substr(i, j - i).c_str(), "%u:%u:%u", &p, &r, &n) != 3) { error("several"); return 1; }
      Args B = A;
      B.m["p"] = std::to_string(p); B.m["r"] = std::to_string(r); B.m["maxn"] = std::to_string(n);
      B.m["seed"] = std::to_string(A.num("seed", 1) + 1000 * k);
      todo.push_back(B);
      i = j + 1;
    }
  std::atomic<size_t> next(0);
  auto work = [&] { for (size_t i; (i = next++) < todo.size();) f(todo[i]); };
  if (A.num("threads", 1) <= 1) work();
  else {
    std::vector<std::thread> t;
    for (long long i = 0; i < A.num("threads"); ++i) t.emplace_back(work);
    for (auto & x : t) x.join();
  }
  done();
  return 0;
}

template <class T> std::string join(const std::vector<T> & v, const char * sep = ",") {
  std::ostringstream o;
  for (size_t i = 0; i < v.size(); ++i) { if (i) o << sep; o << v[i]; }
  return o.str();
}

}
#endif
