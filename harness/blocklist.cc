// The blocks of configurations, as the programs hand them out: input lines p r g marked package,
// for each its blocks in the format of records, and a line "end".
#include <iostream>
#include <sstream>
#include <string>
#include "curve_iterator.hh"
#include "fq_element_table.hh"
using namespace std;
int main() {
  unsigned p, r, g, m, pk;
  while (cin >> p >> r >> g >> m >> pk) {
    FqElementTable table(p, r);
    for (CurveIterator it(table, g, m, pk); !it.is_end(); it.step()) {
      for (auto & t : it.as_block()) cout << get<0>(t) << " " << get<1>(t) << " ";
      cout << "\n";
    }
    cout << "end" << endl;
  }
  return 0;
}
