// C17: configurations through file, text and message form, against the values written.
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/serialization/string.hpp>
#include <fstream>
#include <sstream>
#include "hc.hh"
#include "config/config_node.hh"
using std::string; using std::to_string;
static vh::Stats S;

struct V { unsigned p, r, g, n, pk; bool m, has_n, has_m; string path; };

static string show(const V & v) {
  return to_string(v.p) + "^" + to_string(v.r) + " genus " + to_string(v.g) + (v.m ? " marked" : "") + " count " + to_string(v.n) + " package " + to_string(v.pk) + " path " + v.path;
}
static void judge(const string & form, const V & v, const ConfigNode & c) {
  S.eval();
  string w;
  auto say = [&](const char * k, const string & got, const string & want) { if (w.empty()) w = string(k) + " is " + got + " instead of " + want; };
  if (c.prime != v.p) say("prime", to_string(c.prime), to_string(v.p));
  if (c.prime_exponent != v.r) say("prime exponent", to_string(c.prime_exponent), to_string(v.r));
  if (c.genus != v.g) say("genus", to_string(c.genus), to_string(v.g));
  if (c.with_marked_point != v.m) say("with_marked_point", to_string(c.with_marked_point), to_string(v.m));
  if (c.count_exponent != v.n) say("count exponent", to_string(c.count_exponent), to_string(v.n));
  if (c.package_size != v.pk) say("package size", to_string(c.package_size), to_string(v.pk));
  if (c.result_path.generic_string() != v.path) say("result path", c.result_path.generic_string(), v.path);
  if (!w.empty()) vh::violation(form, form + ": " + w + " (" + show(v) + ")");
}

int main(int argc, char ** argv) {
  vh::Args A(argc, argv);
  if (A.str("mode", "forms") == "blocks") { // what the enumeration gives for explicit values
    FqElementTable t(A.num("p"), A.num("r"));
    for (CurveIterator it(t, A.num("g"), A.num("marked"), A.num("package")); !it.is_end(); it.step()) {
      string l;
      for (auto & b : it.as_block()) l += to_string(std::get<0>(b)) + " " + to_string(std::get<1>(b)) + " ";
      puts(l.c_str());
    }
    return 0;
  }
  vh::Rng R(A.num("seed", 1) * 8191 + 17);
  int n = A.num("n", 1000);
  static const std::vector<unsigned> primes = {3, 5, 7, 11, 13, 17, 31, 101, 257, 65521, 65537, 110017, 1000003, 536870909};
  static const std::vector<string> words = {"a", "q7g2", "x y", "results", "deep", "1", "007", "true", "no", "3.5", "-x", "\xc3\xa4\xc3\xb6", "a.b", "~", "c#d", "k:v", "[l", "{m", "*s", "&t", "!u", "%v", "@w", "'q", "null", "-"};
  for (int i = 0; i < n; ++i) {
    V v;
    auto num = [&](unsigned hi) { return R.chance(1, 2) ? (unsigned)R.range(1, 12) : R.chance(1, 6) ? (unsigned)R.range(2147483600, 2147483647) : 1 + (unsigned)R.below(hi); };
    v.p = R.pick(primes); v.r = num(1000); v.g = num(100000); v.pk = num(2147483647u);
    v.has_n = R.chance(1, 2); v.n = v.has_n ? (R.chance(1, 4) ? v.g : num(100000)) : v.g;
    v.has_m = R.chance(2, 3); v.m = v.has_m && R.chance(1, 2);
    int parts = R.chance(1, 2) ? 1 : R.range(1, 5);
    for (int k = 0; k < parts; ++k) v.path += (k ? "/" : "") + R.pick(words);
    // file form: keys in any order, in several styles
    std::vector<std::pair<string, string>> kv;
    auto quote = [&](const string & s, int st) {
      if (st == 0) { string o = "'"; for (char c : s) { o += c; if (c == '\'') o += c; } return o + "'"; }
      return "\"" + s + "\"";
    };
    auto scal = [&](unsigned x) { int st = R.below(8); return st == 0 ? quote(to_string(x), 0) : st == 1 ? quote(to_string(x), 1) : to_string(x); };
    kv.push_back({"Prime", scal(v.p)}); kv.push_back({"PrimeExponent", scal(v.r)}); kv.push_back({"Genus", scal(v.g)});
    if (v.has_n) kv.push_back({"CountExponent", scal(v.n)});
    if (v.has_m) kv.push_back({"WithMarkedPoint", v.m ? R.pick(std::vector<string>{"true", "True", "TRUE", "yes", "on"}) : R.pick(std::vector<string>{"false", "False", "no", "off"})});
    kv.push_back({"ResultPath", quote(v.path, R.below(2))}); kv.push_back({"PackageSize", scal(v.pk)});
    R.shuffle(kv);
    string block, flow = "{", ind;
    bool comments = R.chance(1, 4);
    string list = "StoreType: EC\nModuli:\n";
    for (size_t k = 0; k < kv.size(); ++k) {
      block += (comments ? "# a remark: 1\n" : "") + kv[k].first + ":" + string(R.range(1, 4), ' ') + kv[k].second + (comments ? "  # Genus: 9" : "") + "\n";
      flow += (k ? ", " : "") + kv[k].first + ": " + kv[k].second;
      list += (k ? "    " : "  - ") + kv[k].first + ": " + kv[k].second + "\n";
    }
    flow += "}\n";
    try {
      judge("file", v, YAML::Load(block).as<ConfigNode>());
      judge("file", v, YAML::Load(flow).as<ConfigNode>());
      auto l = YAML::Load(list)["Moduli"];
      int m = 0;
      for (const auto & node : l) { judge("file", v, node.as<ConfigNode>()); ++m; }
      if (m != 1) vh::error("list");
    } catch (std::exception & e) {
      vh::violation("file_refused", string("a complete configuration is refused: ") + e.what() + "\n" + block);
      continue;
    }
    ConfigNode c = YAML::Load(block).as<ConfigNode>();
    // text form
    try {
      YAML::Node node; node = c;
      YAML::Emitter em; em << node;
      judge("text", v, YAML::Load(em.c_str()).as<ConfigNode>());
      judge("text", v, node.as<ConfigNode>());
    } catch (std::exception & e) { vh::violation("text_refused", string("the text of a configuration is refused: ") + e.what() + ": " + show(v)); }
    // message form, several in a row; the receiver's variable was used before
    try {
      std::stringstream ts, bs;
      ConfigNode d = c; d.prime = 3; d.genus = v.g + 1; d.result_path = "other"; d.with_marked_point = !c.with_marked_point; d.package_size = 1; d.count_exponent = v.n + 1; d.prime_exponent = v.r + 1;
      {
        boost::archive::text_oarchive to(ts); boost::archive::binary_oarchive bo(bs);
        const ConfigNode & cc = c;
        to << cc; to << d; to << cc;
        bo << cc; bo << d; bo << cc;
      }
      ConfigNode x = d, y = d;
      { boost::archive::text_iarchive ti(ts); ti >> x; judge("message", v, x); ti >> x; ti >> x; judge("message", v, x); }
      { boost::archive::binary_iarchive bi(bs); bi >> y; judge("message", v, y); bi >> y; bi >> y; judge("message", v, y); }
      judge("message_source", v, c);
    } catch (std::exception & e) { vh::violation("message_refused", string("the message of a configuration is refused: ") + e.what() + ": " + show(v)); }
    // a copy, and the output path put in front of it
    {
      ConfigNode k = c;
      k.prepend_output_path("/root/of results");
      V w = v; w.path = "/root/of results/" + v.path;
      judge("output_path", w, k);
    }
    // every required key left out
    for (const char * key : {"Prime", "PrimeExponent", "Genus", "ResultPath", "PackageSize"}) {
      string t;
      for (auto & e : kv) if (e.first != key) t += e.first + ": " + e.second + "\n";
      bool ok = false;
      try { YAML::Load(t).as<ConfigNode>(); ok = true; } catch (std::exception &) {}
      S.eval();
      if (ok) vh::violation(string("accepted_without_") + key, string("a configuration without ") + key + " is accepted:\n" + t);
    }
    // numbers that are none, or negative
    for (const char * key : {"Prime", "PrimeExponent", "Genus", "CountExponent", "PackageSize"})
      for (const char * bad : {"-1", "-2147483648", "seven", "", "1.5", "[1]", "{a: 1}", "7 8"}) {
        string t; bool has = false;
        for (auto & e : kv) { bool h = e.first == key; has |= h; t += e.first + ": " + (h ? bad : e.second.c_str()) + "\n"; }
        if (!has) continue;
        bool ok = false;
        try { YAML::Load(t).as<ConfigNode>(); ok = true; } catch (std::exception &) {}
        S.eval();
        if (ok) vh::violation(string("accepted_") + key, string("a configuration with ") + key + ": " + bad + " is accepted");
      }
    S.distinct(block);
    if (i < 3) vh::sample(show(v));
  }
  S.print();
  vh::line("{\"ev\":\"done\"}");
  return 0;
}
