// Helpers for the demonstrations: making and using a small table.
#include <casacore/tables/Tables/ArrColDesc.h>
#include <casacore/tables/Tables/ArrayColumn.h>
#include <casacore/tables/Tables/ScaColDesc.h>
#include <casacore/tables/Tables/ScalarColumn.h>
#include <casacore/tables/Tables/SetupNewTab.h>
#include <casacore/tables/Tables/Table.h>
#include <casacore/tables/Tables/TableDesc.h>

#include <cmath>
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <limits>
#include <random>
#include <sstream>
#include <string>
#include <vector>

#include "dyscostman.h"

using namespace casacore;
typedef std::complex<float> cf;
using dyscostman::DyscoStMan;
using dyscostman::Normalization;

struct Shape {
  int ant = 4, chan = 4, pol = 2, blocks = 4;
  bool autos = false, reversed = false;
  std::vector<std::pair<int, int>> baselines() const {
    std::vector<std::pair<int, int>> b;
    for (int i = 0; i != ant; ++i)
      for (int j = i + (autos ? 0 : 1); j < ant; ++j)
        b.push_back(reversed ? std::make_pair(j, i) : std::make_pair(i, j));
    return b;
  }
  int rowsPerBlock() const { return baselines().size(); }
  int rows() const { return rowsPerBlock() * blocks; }
};

inline TableDesc keyDesc() {
  TableDesc td;
  td.addColumn(ScalarColumnDesc<int>("ANTENNA1"));
  td.addColumn(ScalarColumnDesc<int>("ANTENNA2"));
  td.addColumn(ScalarColumnDesc<int>("FIELD_ID"));
  td.addColumn(ScalarColumnDesc<int>("DATA_DESC_ID"));
  td.addColumn(ScalarColumnDesc<double>("TIME"));
  return td;
}

inline void fillKeys(Table &t, const Shape &s, size_t from = 0) {
  ScalarColumn<int> a1(t, "ANTENNA1"), a2(t, "ANTENNA2"), f(t, "FIELD_ID"), dd(t, "DATA_DESC_ID");
  ScalarColumn<double> time(t, "TIME");
  const auto b = s.baselines();
  for (size_t r = from; r != t.nrow(); ++r) {
    a1.put(r, b[r % b.size()].first);
    a2.put(r, b[r % b.size()].second);
    f.put(r, 0);
    dd.put(r, 0);
    time.put(r, 10.0 + double(r / b.size()));
  }
}

// A table with DATA (and WEIGHT_SPECTRUM) stored by dm
inline Table makeTable(const std::string &path, const Shape &s, DataManager &dm, bool weights = false,
                       bool data2 = false) {
  TableDesc td = keyDesc();
  const IPosition shape(2, s.pol, s.chan);
  ArrayColumnDesc<Complex> d("DATA", shape);
  d.setOptions(ColumnDesc::Direct | ColumnDesc::FixedShape);
  td.addColumn(d);
  if (weights) {
    ArrayColumnDesc<float> w("WEIGHT_SPECTRUM", shape);
    w.setOptions(ColumnDesc::Direct | ColumnDesc::FixedShape);
    td.addColumn(w);
  }
  if (data2) {
    ArrayColumnDesc<Complex> d2("DATA2", shape);
    d2.setOptions(ColumnDesc::Direct | ColumnDesc::FixedShape);
    td.addColumn(d2);
  }
  SetupNewTable setup(path, td, Table::New);
  setup.bindColumn("DATA", dm);
  if (weights) setup.bindColumn("WEIGHT_SPECTRUM", dm);
  if (data2) setup.bindColumn("DATA2", dm);
  Table t(setup, s.rows());
  fillKeys(t, s);
  return t;
}

inline cf noise(size_t row, size_t i, unsigned seed = 1) {
  std::mt19937 g(seed * 7919u + unsigned(row) * 104729u + unsigned(i) * 31u);
  std::normal_distribution<float> n(0.0, 1.0);
  const float a = n(g);
  return cf(a, n(g));
}

inline Array<Complex> row(const Shape &s, size_t r, unsigned seed = 1, float scale = 1.0) {
  Array<Complex> a(IPosition(2, s.pol, s.chan));
  size_t i = 0;
  for (auto &v : a) v = noise(r, i++, seed) * scale;
  return a;
}

inline double maxDiff(const Array<Complex> &a, const Array<Complex> &b) {
  double m = 0.0;
  auto j = b.begin();
  for (auto i = a.begin(); i != a.end(); ++i, ++j) {
    const double d = std::abs(std::complex<double>(*i) - std::complex<double>(*j));
    if (!(d <= m)) m = std::isnan(d) ? 1e30 : d;
  }
  return m;
}

inline std::string slurp(const std::string &p) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}

// The file that holds the data of the (first) Dysco manager
inline std::string dyscoFile(const std::string &table) { return table + "/table.f0"; }

#define CHECK(c, ...)                        \
  do {                                       \
    if (!(c)) {                              \
      std::printf("FAILED: " __VA_ARGS__);   \
      std::printf("\n");                     \
      std::fflush(stdout);                   \
      std::_Exit(1);                         \
    }                                        \
  } while (0)
