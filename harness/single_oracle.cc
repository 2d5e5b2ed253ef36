// Oracle for hycu-single in independent arithmetic. Each input line: p g c0 c1 ... (reduced, trimmed).
// Each output line: squarefree, then u and r of the extensions 1..g, then the ramification type.
#include <iostream>
#include <sstream>
#include <string>
#include <algorithm>
#include "ref_field.hh"
using namespace std;
int main() {
  string l;
  while (getline(cin, l)) {
    istringstream s(l);
    uint32_t p; unsigned g, c; ref::poly f;
    s >> p >> g;
    while (s >> c) f.push_back(c);
    auto F = ref::field(p, 1);
    bool sf = ref::squarefree(*F, f);
    cout << sf;
    if (sf) {
      for (unsigned n = 1; n <= g; ++n) {
        auto G = n == 1 ? F : ref::field(p, n);
        ref::poly h;
        for (auto x : f) h.push_back(x); // elements of the prime field are the integers below p
        auto r = ref::points(*G, h);
        cout << ' ' << r.first << ' ' << r.second;
      }
      auto ram = ref::ramification(*F, f);
      sort(ram.begin(), ram.end());
      for (auto d : ram) cout << ' ' << d;
    }
    cout << '\n' << flush;
  }
}
