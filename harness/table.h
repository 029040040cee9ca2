// Table-level helpers: builds measurement-set like tables whose columns are
// stored by the real DyscoStMan, through the casacore table API only.
#ifndef VT_TABLE_H
#define VT_TABLE_H

#include <casacore/casa/Containers/Record.h>
#include <casacore/casa/IO/AipsIO.h>
#include <casacore/tables/DataMan/DataManager.h>
#include <casacore/tables/DataMan/StandardStMan.h>
#include <casacore/tables/Tables/ArrColDesc.h>
#include <casacore/tables/Tables/ArrayColumn.h>
#include <casacore/tables/Tables/ScaColDesc.h>
#include <casacore/tables/Tables/ScalarColumn.h>
#include <casacore/tables/Tables/SetupNewTab.h>
#include <casacore/tables/Tables/Table.h>
#include <casacore/tables/Tables/TableDesc.h>

#include <complex>
#include <memory>

#include "common.h"
#include "dyscostman.h"

namespace vt {

typedef std::complex<float> cf;

enum Dist { kGaussian = 0, kUniform = 1, kStudentT = 2, kTrunc = 3 };
enum Norm { kAF = 0, kRF = 1, kRow = 2 };
static const char *kDistNames[] = {"Gaussian", "Uniform", "StudentT", "TruncatedGaussian"};
static const char *kNormNames[] = {"AF", "RF", "Row"};

struct ColCfg {
  std::string name;
  bool isWeight = false;
  int manager = 0;  // which manager instance it is bound to
};

struct Cfg {
  int nAnt = 3;
  bool autos = false;
  int nChan = 2, nPol = 2;
  int nBlocks = 3;
  int dataBits = 8, weightBits = 12;
  int dist = kTrunc, norm = kAF;
  double nu = 5.0, trunc = 2.5;
  bool staticSeed = false;
  bool viaSpec = false;  // construct manager from a spec record
  std::vector<ColCfg> cols;
  int rowOrder = 0;  // 0 baseline order, 1 shuffled baselines, 2 swapped ant
  uint64_t orderSeed = 0;
  int splitBy = 0;  // what separates blocks: 0 TIME, 1 FIELD_ID, 2 DATA_DESC_ID, 3 mix
  std::string prefix = "dm";
  int antBase = 0, antStride = 1;  // antenna numbers
  int nDrop = 0, nDup = 0;  // baselines that are missing, or are there twice

  std::vector<std::pair<int, int>> baselines() const {
    std::vector<std::pair<int, int>> b;
    for (int i = 0; i != nAnt; ++i)
      for (int j = autos ? i : i + 1; j < nAnt; ++j) b.emplace_back(i, j);
    if (nDrop || nDup) {
      Rng r(orderSeed + 1);
      for (int k = 0; k != dropped(); ++k) b.erase(b.begin() + r.below(b.size()));
      for (int k = 0; k != nDup; ++k) b.insert(b.begin() + r.below(b.size() + 1), b[r.below(b.size())]);
    }
    if (rowOrder) {
      Rng r(orderSeed);
      r.shuffle(b);
      if (rowOrder == 2)
        for (auto &p : b)
          if (r.chance(0.5)) std::swap(p.first, p.second);
    }
    for (auto &p : b) p = {antBase + p.first * antStride, antBase + p.second * antStride};
    return b;
  }
  int nPairs() const { return autos ? nAnt * (nAnt + 1) / 2 : nAnt * (nAnt - 1) / 2; }
  int dropped() const { return std::min(nDrop, nPairs() - 1); }
  size_t rowsPerBlock() const { return nPairs() - dropped() + nDup; }
  size_t nRows() const { return rowsPerBlock() * nBlocks; }
  size_t vis() const { return size_t(nChan) * nPol; }
  std::string str() const {
    std::string c;
    if (antStride != 1) c += strf("[antennas %d+%d*n]", antBase, antStride);
    if (nDrop || nDup) c += strf("[baselines -%d+%d]", nDrop, nDup);
    if (prefix != "dm") c += strf("[name of %zu]", prefix.size() + 1);
    for (auto &x : cols) c += x.name + ":" + std::to_string(x.manager) + ",";
    return strf(
        "ant=%d autos=%d ch=%d pol=%d blocks=%d bits=%d wbits=%d dist=%s norm=%s nu=%g "
        "trunc=%g static=%d spec=%d order=%d split=%d cols=%s",
        nAnt, autos, nChan, nPol, nBlocks, dataBits, weightBits, kDistNames[dist],
        kNormNames[norm], nu, trunc, staticSeed, viaSpec, rowOrder, splitBy, c.c_str());
  }
};

// Not every set has every baseline once.
inline void someBaselines(Rng &r, Cfg &c) {
  if (r.chance(0.15)) c.nDrop = r.range(1, std::max(1, c.nPairs() - 1));
  if (r.chance(0.1)) c.nDup = r.range(1, 3);
  // the last antenna is always there
  for (;; --c.nDrop) {
    bool last = c.nDrop == 0;
    for (auto &b : c.baselines()) last = last || std::max(b.first, b.second) == c.antBase + (c.nAnt - 1) * c.antStride;
    if (last) break;
  }
}

inline casacore::Record makeSpec(const Cfg &c) {
  casacore::Record s;
  s.define("dataBitCount", c.dataBits);
  s.define("weightBitCount", c.weightBits);
  s.define("distribution", kDistNames[c.dist]);
  s.define("normalization", kNormNames[c.norm]);
  s.define("studentTNu", c.nu);
  s.define("distributionTruncation", c.trunc);
  return s;
}

inline void applySettings(dyscostman::DyscoStMan &dm, const Cfg &c) {
  switch (c.dist) {
    case kGaussian:
      dm.SetGaussianDistribution();
      break;
    case kUniform:
      dm.SetUniformDistribution();
      break;
    case kStudentT:
      dm.SetStudentsTDistribution(c.nu);
      break;
    case kTrunc:
      dm.SetTruncatedGaussianDistribution(c.trunc);
      break;
  }
  dm.SetNormalization(c.norm == kAF   ? dyscostman::Normalization::kAF
                      : c.norm == kRF ? dyscostman::Normalization::kRF
                                      : dyscostman::Normalization::kRow);
  dm.SetStaticSeed(c.staticSeed);
}

inline std::unique_ptr<casacore::DataManager> makeManager(const Cfg &c, const std::string &name) {
  if (c.viaSpec && !c.staticSeed) {
    casacore::DataManagerCtor ctor = casacore::DataManager::getCtor("DyscoStMan");
    return std::unique_ptr<casacore::DataManager>(ctor(name, makeSpec(c)));
  }
  std::unique_ptr<dyscostman::DyscoStMan> dm(
      new dyscostman::DyscoStMan(c.dataBits, c.weightBits, name));
  applySettings(*dm, c);
  return dm;
}

inline std::string dmName(const Cfg &c, int manager) { return c.prefix + std::to_string(manager); }

// The index columns for `row`
struct RowKey {
  int ant1, ant2, field, ddid;
  double time;
};
inline RowKey rowKey(const Cfg &c, const std::vector<std::pair<int, int>> &bl, size_t row) {
  const size_t block = row / bl.size();
  RowKey k;
  k.ant1 = bl[row % bl.size()].first;
  k.ant2 = bl[row % bl.size()].second;
  k.field = 0;
  k.ddid = 0;
  k.time = 10.0;
  int split = c.splitBy;
  if (split == 3) {
    // time, field and ddid change in turn
    k.time += double((block + 2) / 3);
    k.field = (block + 1) / 3;
    k.ddid = block / 3;
  } else if (split == 1)
    k.field = block;
  else if (split == 2)
    k.ddid = block;
  else
    k.time += block;
  return k;
}

inline casacore::TableDesc makeDesc(const Cfg &c) {
  using namespace casacore;
  TableDesc td;
  IPosition shape(2, c.nPol, c.nChan);
  // The index columns are first: a copy of the table writes columns in order,
  // and the index columns have to be known when the data are written.
  td.addColumn(ScalarColumnDesc<int>("ANTENNA1"));
  td.addColumn(ScalarColumnDesc<int>("ANTENNA2"));
  td.addColumn(ScalarColumnDesc<int>("FIELD_ID"));
  td.addColumn(ScalarColumnDesc<int>("DATA_DESC_ID"));
  td.addColumn(ScalarColumnDesc<double>("TIME"));
  for (const ColCfg &col : c.cols) {
    if (col.isWeight) {
      ArrayColumnDesc<float> d(col.name, "", "DyscoStMan", "", shape);
      d.setOptions(ColumnDesc::Direct | ColumnDesc::FixedShape);
      td.addColumn(d);
    } else {
      ArrayColumnDesc<Complex> d(col.name, "", "DyscoStMan", "", shape);
      d.setOptions(ColumnDesc::Direct | ColumnDesc::FixedShape);
      td.addColumn(d);
    }
  }
  return td;
}

inline void fillKeys(casacore::Table &t, const Cfg &c, size_t from, size_t to) {
  using namespace casacore;
  ScalarColumn<int> a1(t, "ANTENNA1"), a2(t, "ANTENNA2"), f(t, "FIELD_ID"), dd(t, "DATA_DESC_ID");
  ScalarColumn<double> tm(t, "TIME");
  auto bl = c.baselines();
  for (size_t i = from; i != to; ++i) {
    RowKey k = rowKey(c, bl, i);
    a1.put(i, k.ant1);
    a2.put(i, k.ant2);
    f.put(i, k.field);
    dd.put(i, k.ddid);
    tm.put(i, k.time);
  }
}

inline casacore::Table createTable(const std::string &path, const Cfg &c, size_t nRows) {
  using namespace casacore;
  register_dyscostman();
  SetupNewTable setup(path, makeDesc(c), Table::New);
  std::map<int, std::unique_ptr<DataManager>> dms;
  for (const ColCfg &col : c.cols) {
    if (!dms.count(col.manager)) dms[col.manager] = makeManager(c, dmName(c, col.manager));
    setup.bindColumn(col.name, *dms[col.manager]);
  }
  Table t(setup);
  if (nRows) {
    t.addRow(nRows);
    fillKeys(t, c, 0, nRows);
  }
  return t;
}

// Every third access uses an array that is not contiguous in memory
inline bool nextStrided() {
  static unsigned n = 0;
  return ++n % 3 == 0;
}
template <typename T>
inline casacore::Array<T> stridedArray(int nPol, int nChan) {
  casacore::Array<T> big(casacore::IPosition(2, 2 * nPol + 1, nChan + 2));
  big = T(-99.0f);
  return big(casacore::Slicer(casacore::IPosition(2, 1, 1), casacore::IPosition(2, nPol, nChan),
                              casacore::IPosition(2, 2, 1)));
}

template <typename T>
inline std::vector<T> getRow(casacore::Table &t, const std::string &col, size_t row) {
  casacore::ArrayColumn<T> ac(t, col);
  casacore::Array<T> a;
  const casacore::IPosition s = ac.shape(row);
  if (nextStrided() && s.size() == 2) {
    a.reference(stridedArray<T>(s[0], s[1]));
    ac.get(row, a);
  } else
    a.reference(ac(row));
  std::vector<T> v(a.nelements());
  size_t i = 0;
  for (auto it = a.begin(); it != a.end(); ++it) v[i++] = *it;
  return v;
}
template <typename T>
inline void putRow(casacore::Table &t, const Cfg &c, const std::string &col, size_t row,
                   const std::vector<T> &v) {
  casacore::ArrayColumn<T> ac(t, col);
  casacore::Array<T> a;
  if (nextStrided())
    a.reference(stridedArray<T>(c.nPol, c.nChan));
  else
    a.resize(casacore::IPosition(2, c.nPol, c.nChan));
  size_t i = 0;
  for (auto it = a.begin(); it != a.end(); ++it) *it = v[i++];
  ac.put(row, a);
}

}  // namespace vt
#endif
