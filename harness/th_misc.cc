// Accuracy, settings, rejected requests, dithering, damaged files and the
// file format.
#include <sys/wait.h>

#include <fstream>
#include <functional>

#include "model.h"
#include "acc_table.h"

namespace vt {
namespace {
typedef casacore::Complex Complex;
using casacore::Table;

double comp(const cf &v, int im) { return im ? v.imag() : v.real(); }

void spit(const std::string &path, const std::vector<uint8_t> &b) {
  FILE *f = std::fopen(path.c_str(), "wb");
  if (!f) throw std::runtime_error("can not write " + path);
  if (!b.empty() && std::fwrite(b.data(), 1, b.size(), f) != b.size())
    throw std::runtime_error("can not write " + path);
  std::fclose(f);
}

std::vector<cf> gaussRow(Rng &r, const Cfg &c, double scale = 1) {
  std::vector<cf> v(c.vis());
  for (auto &x : v) x = cf(float(r.gauss() * scale), float(r.gauss() * scale));
  return v;
}

// All cells of all Dysco columns
typedef std::map<std::string, std::vector<std::vector<uint32_t>>> Cells;
template <typename T>
std::vector<uint32_t> bits(const std::vector<T> &v) {
  std::vector<uint32_t> b(v.size() * sizeof(T) / 4);
  if (!b.empty()) std::memcpy(b.data(), v.data(), b.size() * 4);
  return b;
}
std::vector<uint32_t> cell(Table &t, const ColCfg &col, size_t row) {
  return col.isWeight ? bits(getRow<float>(t, col.name, row))
                      : bits(getRow<Complex>(t, col.name, row));
}
Cells allCells(Table &t, const Cfg &c) {
  Cells m;
  for (auto &col : c.cols)
    for (size_t row = 0; row != t.nrow(); ++row) m[col.name].push_back(cell(t, col, row));
  return m;
}

}  // namespace

// ---------------------------------------------------------------------------
// Accuracy for noise-like data, relative to the noise (C01)
void modeAcc(uint64_t index, Rng &r) {
  Cfg c;
  const size_t nCombos = 8 * 4 * 3 * 3;
  const size_t combo = (index * 37) % nCombos;
  const int iBits = combo % 8, regime = (combo / 96) % 3;
  c.dataBits = kWidths[iBits];
  c.dist = (combo / 8) % 4;
  c.norm = (combo / 32) % 3;
  c.nu = 5;
  c.trunc = 2.5;
  c.nAnt = 12;
  c.autos = false;
  c.nChan = 24;
  c.nPol = 2;
  c.nBlocks = 3;
  c.rowOrder = r.below(3);
  c.orderSeed = r.next();
  c.cols = {{"DATA", false, 0}};
  static const char *kRegimes[] = {"equal", "antennaGains", "channelGains"};
  gRep.begin(index, std::string(kRegimes[regime]) + " " + c.str());
  const auto bl = c.baselines();
  std::vector<double> ag(c.nAnt, 1.0), cg(c.nChan, 1.0);
  // The same gains in every case, in another order: the limits are tight
  std::vector<double> &gains = regime == 1 ? ag : cg;
  if (regime != 0) {
    for (size_t i = 0; i != gains.size(); ++i)
      gains[i] = std::pow(10.0, -1.5 + 3.0 * double(i) / double(gains.size() - 1));
    r.shuffle(gains);
  }
  const double scale = std::pow(10.0, r.uniform(-4, 4));
  const std::string path = gArgs.dir + "/acc.tab";
  rmTree(path);
  std::vector<std::vector<cf>> in;
  auto gain = [&](size_t row, size_t i) {
    const auto b = bl[row % bl.size()];
    return scale * ag[b.first] * ag[b.second] * cg[i / c.nPol];
  };
  {
    Table t = createTable(path, c, c.nRows());
    for (size_t row = 0; row != c.nRows(); ++row) {
      std::vector<cf> v = gaussRow(r, c);
      for (size_t i = 0; i != v.size(); ++i) v[i] *= float(gain(row, i));
      putRow<Complex>(t, c, "DATA", row, v);
      in.push_back(v);
    }
  }
  Table t(path);
  double se = 0, sxy = 0, sxx = 0, sm = 0, sxe = 0, largest = 0;
  size_t n = 0;
  for (size_t row = 0; row != c.nRows(); ++row) {
    const std::vector<cf> v = getRow<Complex>(t, "DATA", row);
    for (size_t i = 0; i != v.size(); ++i)
      for (int im = 0; im != 2; ++im) {
        const double x = comp(in[row][i], im) / gain(row, i), y = comp(v[i], im) / gain(row, i);
        se += (y - x) * (y - x);
        sxy += x * y;
        sxx += x * x;
        sm += y - x;
        sxe += x * x * (y - x) * (y - x);
        largest = std::max(largest, std::fabs(x));
        ++n;
      }
  }
  const double rms = std::sqrt(se / n), slope = sxy / sxx, mean = sm / n;
  const double limit = kAccTable[c.norm][c.dist][regime][iBits];
  if (getenv("VT_ACC")) printf("ACC %d %d %d %d %.6g\n", c.norm, c.dist, regime, iBits, rms);
  VT_CHECK(rms <= limit, "C01:rms", "the rms error is %g of the noise, expected at most %g", rms,
           limit);
  // Dithering makes the quantization unbiased: errors do not correlate with the
  // value (with row normalization, weak channels have rare but large errors).
  // The last steps of a distribution are large, and seldom needed: one such error
  // more than expected is a matter of chance (Bernstein's inequality).
  const bool loose = c.norm == kRow && regime == 2;
  const std::vector<double> &lv = cachedLevels(c.dist, c.dataBits, c.nu, c.trunc);
  const double rare = 2 * largest * (lv.back() - lv[lv.size() - 2]) / lv.back();
  const double meanTol = 8 * rms / std::sqrt(double(n)) + 10 * rare / double(n) + 1e-6,
               slopeTol = 8 * std::sqrt(sxe) / sxx + 10 * rare * largest / sxx + 1e-5;
  VT_CHECK(loose || std::fabs(mean) <= meanTol, "C01:mean",
           "the mean error is %g of the noise, expected at most %g (%zu values)", mean, meanTol, n);
  VT_CHECK(loose || std::fabs(slope - 1) <= slopeTol, "C01:slope",
           "the values are scaled by %.9g, expected 1 +- %g", slope, slopeTol);
  gRep.stat("samples", n);
  gRep.stat(kRegimes[regime], 1);
  if (index % 30 == 0)
    gRep.sample(strf("%s: rms error %.4g (limit %.4g), mean %.3g, slope-1 %.3g", c.str().c_str(),
                     rms, limit, mean, slope - 1));
  rmTree(path);
  gRep.end();
}

// ---------------------------------------------------------------------------
// Settings survive everything (C10)
namespace {
std::string distOf(const std::string &s) { return s == "StudentsT" ? "StudentT" : s; }

void checkSpec(const casacore::Record &s, const Cfg &c, const char *when) {
  const char *k = "C10:spec";
  VT_CHECK(s.isDefined("dataBitCount") && s.asInt("dataBitCount") == c.dataBits, k,
           "%s: dataBitCount %d, expected %d", when, s.asInt("dataBitCount"), c.dataBits);
  VT_CHECK(s.asInt("weightBitCount") == c.weightBits, k, "%s: weightBitCount %d, expected %d", when,
           s.asInt("weightBitCount"), c.weightBits);
  VT_CHECK(distOf(s.asString("distribution")) == kDistNames[c.dist], k,
           "%s: distribution %s, expected %s", when, s.asString("distribution").c_str(),
           kDistNames[c.dist]);
  VT_CHECK(s.asString("normalization") == kNormNames[c.norm], k,
           "%s: normalization %s, expected %s", when, s.asString("normalization").c_str(),
           kNormNames[c.norm]);
  if (c.dist == kStudentT)
    VT_CHECK(s.asDouble("studentTNu") == c.nu, k, "%s: nu %.17g, expected %.17g", when,
             s.asDouble("studentTNu"), c.nu);
  if (c.dist == kTrunc)
    VT_CHECK(s.asDouble("distributionTruncation") == c.trunc, k,
             "%s: truncation %.17g, expected %.17g", when, s.asDouble("distributionTruncation"),
             c.trunc);
}

// The specification of the manager of every column in a table
void checkTableSpec(Table &t, const std::vector<Cfg> &cfgs, const char *when) {
  casacore::Record info = t.dataManagerInfo();
  for (const Cfg &c : cfgs)
    for (const ColCfg &col : c.cols) {
      bool found = false;
      for (size_t i = 0; i != info.nfields(); ++i) {
        casacore::Record rec = info.subRecord(casacore::RecordFieldId(int(i)));
        const casacore::Vector<casacore::String> cs = rec.asArrayString("COLUMNS");
        for (size_t k = 0; k != cs.nelements(); ++k)
          if (std::string(cs(k)) == col.name) {
            found = true;
            VT_CHECK(rec.asString("TYPE") == "DyscoStMan", "C10:type", "%s: column %s is stored by %s",
                     when, col.name.c_str(), rec.asString("TYPE").c_str());
            VT_CHECK(rec.asString("NAME") == dmName(c, col.manager), "C10:name",
                     "%s: the manager of %s is called %s", when, col.name.c_str(),
                     rec.asString("NAME").c_str());
            checkSpec(rec.subRecord("SPEC"), c, when);
          }
      }
      VT_CHECK(found, "C10:found", "%s: no manager for column %s", when, col.name.c_str());
    }
}

void randomSettings(Rng &r, Cfg &c) {
  c.dataBits = kWidths[r.below(8)];
  c.weightBits = kWidths[r.below(8)];
  c.dist = r.below(4);
  c.norm = r.below(3);
  c.nu = r.pick(std::vector<double>{0.6, 0.75, 1.0, 1.25, 3.0, 4.5, 17.0, 1e17});
  c.trunc = r.pick(std::vector<double>{0.75, 1.0, 1.5, 2.1, 3.0, 4.5});
  if (c.dist == kStudentT && c.dataBits > 10 && !r.chance(0.2)) c.dataBits = 10;  // slow
  c.viaSpec = r.chance(0.5);
}

// One table with the managers of several configurations
Table createMulti(const std::string &path, const std::vector<Cfg> &cfgs, size_t nRows) {
  using namespace casacore;
  Cfg all = cfgs[0];
  for (size_t i = 1; i != cfgs.size(); ++i)
    all.cols.insert(all.cols.end(), cfgs[i].cols.begin(), cfgs[i].cols.end());
  SetupNewTable setup(path, makeDesc(all), Table::New);
  for (const Cfg &c : cfgs) {
    std::unique_ptr<DataManager> dm = makeManager(c, dmName(c, c.cols[0].manager));
    for (const ColCfg &col : c.cols) setup.bindColumn(col.name, *dm);
  }
  Table t(setup);
  t.addRow(nRows);
  fillKeys(t, all, 0, nRows);
  return t;
}

// The values of a block agree with the settings: the file is interpreted by
// the independent decoder with the settings that were requested.
void checkStored(const std::string &path, const Cfg &c, const std::vector<std::vector<cf>> &in,
                 Table &t, size_t nBlocks, const char *when) {
  const std::string file = dyscoFile(path, dmName(c, c.cols[0].manager));
  RefFile f;
  f.load(file);
  VT_CHECK(f.h.dataBits == c.dataBits && f.h.weightBits == c.weightBits &&
               f.h.distribution == c.dist && f.h.normalization == c.norm &&
               (c.dist != kStudentT || f.h.nu == c.nu) && (c.dist != kTrunc || f.h.trunc == c.trunc),
           "C10:header", "%s: the file has settings %d %d %d %d %g %g", when, f.h.dataBits,
           f.h.weightBits, f.h.distribution, f.h.normalization, f.h.nu, f.h.trunc);
  Cfg cc = c;
  for (auto &col : cc.cols) col.manager = 0;
  std::vector<RefLayout> ls = layouts(cc, 0, f);
  for (auto &l : ls) {
    l.bits = l.isWeight ? c.weightBits : c.dataBits;
    l.norm = c.norm;
  }
  const std::vector<double> &lv = cachedLevels(c.dist, c.dataBits, c.nu, c.trunc);
  const auto bl = c.baselines();
  size_t k = 0;
  while (c.cols[k].isWeight) ++k;
  for (size_t b = 0; b != nBlocks; ++b) {
    RefBlock rb = refBlock(f, ls, k, b);
    for (size_t row = 0; row != bl.size(); ++row) {
      const std::vector<cf> got = getRow<Complex>(t, c.cols[k].name, b * bl.size() + row);
      for (size_t i = 0; i != c.vis(); ++i)
        for (int im = 0; im != 2; ++im) {
          const double F = rb.factor(row, i / c.nPol, i % c.nPol, bl[row].first, bl[row].second);
          const uint32_t s = rb.symbol(row, i / c.nPol, i % c.nPol, im);
          const double e = s < lv.size() ? lv[s] * F : NAN, o = comp(got[i], im),
                       v = comp(in[b * bl.size() + row][i], im);
          VT_CHECK(std::fabs(e - o) <= 2e-5 * std::fabs(e) + 1e-7 * std::fabs(F) * lv.back(),
                   "C10:decode", "%s: block %zu row %zu: the file holds %g, read %g", when, b, row,
                   e, o);
          double lo, hi;
          const double x = v / F;
          Stepper::bracket(lv, x, 1e-4 * std::fabs(x) + 1e-6 * lv.back(), lo, hi);
          VT_CHECK(e / F >= lo - 2e-5 * lv.back() && e / F <= hi + 2e-5 * lv.back(), "C10:step",
                   "%s: block %zu row %zu: wrote %g, stored %g: not within one step [%g, %g]", when,
                   b, row, x, e / F, lo, hi);
        }
    }
  }
}
}  // namespace

void modeSettings(uint64_t index, Rng &r) {
  static const char *kKinds[] = {"spec", "clone", "reopen", "copy", "append", "two",
                                 "update", "seed"};
  const int kind = index % 8;
  Cfg c;
  c.nAnt = r.range(2, 5);
  c.nChan = r.range(1, 4);
  c.nPol = r.pick(std::vector<int>{1, 2, 4});
  c.nBlocks = r.range(2, 3);
  c.cols = {{"DATA", false, 0}, {"WEIGHT_SPECTRUM", true, 0}};
  if (r.chance(0.3)) c.cols = {{"DATA", false, 0}};
  randomSettings(r, c);
  randomName(r, c);
  const std::string path = gArgs.dir + "/set.tab", path2 = gArgs.dir + "/set2.tab";
  rmTree(path);
  rmTree(path2);
  gRep.begin(index, std::string(kKinds[kind]) + " " + c.str());
  gRep.stat(kKinds[kind], 1);
  auto fill = [&](Table &t, const Cfg &cc, size_t from, size_t to,
                  std::vector<std::vector<cf>> &in) {
    in.resize(to);
    for (size_t row = from; row != to; ++row) {
      in[row] = gaussRow(r, cc);
      for (const ColCfg &col : cc.cols) {
        if (col.isWeight)
          putRow<float>(t, cc, col.name, row, std::vector<float>(cc.vis(), float(r.uniform())));
        else
          putRow<Complex>(t, cc, col.name, row, in[row]);
      }
    }
  };
  std::vector<std::vector<cf>> in;
  switch (kind) {
    case 0: {
      const casacore::DataManagerCtor ctor = casacore::DataManager::getCtor("DyscoStMan");
      std::unique_ptr<casacore::DataManager> dm = makeManager(c, "one");
      for (int i = 0; i != 3; ++i) {
        const casacore::Record s = dm->dataManagerSpec();
        checkSpec(s, c, "specification");
        VT_CHECK(dm->dataManagerType() == "DyscoStMan", "C10:type", "type %s",
                 dm->dataManagerType().c_str());
        dm.reset(ctor(i % 2 ? "two" : "three", s));
        VT_CHECK(dm->dataManagerName() == (i % 2 ? "two" : "three"), "C10:name", "name %s",
                 dm->dataManagerName().c_str());
      }
      // Optional parameter
      casacore::Record s = makeSpec(c);
      if (c.dist != kStudentT) {
        s.removeField("studentTNu");
        dm.reset(ctor("part", s));
        checkSpec(dm->dataManagerSpec(), c, "partial specification");
      }
    } break;
    case 1: {
      std::unique_ptr<casacore::DataManager> dm = makeManager(c, "orig");
      std::unique_ptr<casacore::DataManager> cl(dm->clone());
      VT_CHECK(cl->dataManagerName() == "orig", "C10:name", "the clone is called %s",
               cl->dataManagerName().c_str());
      dm.reset();
      checkSpec(cl->dataManagerSpec(), c, "clone");
      std::unique_ptr<casacore::DataManager> cl2(cl->clone());
      checkSpec(cl2->dataManagerSpec(), c, "clone of a clone");
    } break;
    case 2: {
      {
        Table t = createTable(path, c, c.nRows());
        checkTableSpec(t, {c}, "new table");
        fill(t, c, 0, c.nRows(), in);
        checkTableSpec(t, {c}, "written table");
      }
      for (int i = 0; i != 2; ++i) {
        Table t(path, i ? Table::Update : Table::Old);
        checkTableSpec(t, {c}, "reopened table");
        checkStored(path, c, in, t, c.nBlocks, "reopened");
      }
    } break;
    case 3: {
      {
        Table t = createTable(path, c, c.nRows());
        fill(t, c, 0, c.nRows(), in);
      }
      const bool valueCopy = r.chance(0.7);
      {
        Table t(path);
        t.deepCopy(path2, Table::New, valueCopy);
      }
      Table t(path2);
      checkTableSpec(t, {c}, "copy");
      RefFile f;
      f.load(dyscoFile(path2, dmName(c, 0)));
      VT_CHECK(f.h.dataBits == c.dataBits && f.h.weightBits == c.weightBits &&
                   f.h.distribution == c.dist && f.h.normalization == c.norm &&
                   (c.dist != kStudentT || f.h.nu == c.nu) &&
                   (c.dist != kTrunc || f.h.trunc == c.trunc),
               "C10:header", "the copy has settings %d %d %d %d %g %g", f.h.dataBits,
               f.h.weightBits, f.h.distribution, f.h.normalization, f.h.nu, f.h.trunc);
    } break;
    case 4: {
      {
        Table t = createTable(path, c, c.nRows());
        fill(t, c, 0, c.nRows(), in);
      }
      const std::string file = dyscoFile(path, dmName(c, 0));
      RefFile before;
      before.load(file);
      Cfg cc = c;
      cc.nBlocks += 2;
      {
        Table t(path, Table::Update);
        t.addRow(cc.nRows() - c.nRows());
        fillKeys(t, cc, c.nRows(), cc.nRows());
        fill(t, cc, c.nRows(), cc.nRows(), in);
      }
      RefFile after;
      after.load(file);
      VT_CHECK(before.h.headerSize == after.h.headerSize &&
                   std::equal(before.bytes.begin(), before.bytes.begin() + before.h.headerSize,
                              after.bytes.begin()),
               "C10:headerChanged", "appending changed the header");
      Table t(path);
      checkTableSpec(t, {c}, "appended");
      checkStored(path, c, in, t, cc.nBlocks, "appended");
    } break;
    case 7: {  // a static seed is a setting as well
      std::vector<uint8_t> files[2];
      c.viaSpec = false;
      c.staticSeed = true;
      const uint64_t state = r.next();
      for (int i = 0; i != 2; ++i) {
        Rng rr(state);
        rmTree(path);
        {
          Table t = createTable(path, c, c.nRows());
          std::swap(r, rr);
          fill(t, c, 0, c.nRows(), in);
          std::swap(r, rr);
        }
        RefFile f;
        f.load(dyscoFile(path, dmName(c, 0)));
        files[i] = f.bytes;
      }
      VT_CHECK(files[0] == files[1], "C10:staticSeed",
               "a static seed was set, but the same data were stored differently");
    } break;
    case 6: {  // blocks are replaced in a later session
      {
        Table t = createTable(path, c, c.nRows());
        fill(t, c, 0, c.nRows(), in);
      }
      {
        Table t(path, Table::Update);
        const size_t rpb = c.rowsPerBlock(), b = r.below(c.nBlocks);
        std::vector<std::vector<cf>> now(in);
        fill(t, c, b * rpb, (b + 1) * rpb, now);
        for (size_t row = b * rpb; row != (b + 1) * rpb; ++row) in[row] = now[row];
      }
      Table t(path);
      checkTableSpec(t, {c}, "updated");
      checkStored(path, c, in, t, c.nBlocks, "updated");
    } break;
    case 5: {  // managers with different settings in one table
      std::vector<Cfg> cfgs(3, c);
      std::vector<std::vector<std::vector<cf>>> ins(3);
      static const char *kNames[] = {"DATA", "MODEL_DATA", "CORRECTED_DATA"};
      for (int i = 0; i != 3; ++i) {
        randomSettings(r, cfgs[i]);
        cfgs[i].cols = {{kNames[i], false, i}};
        if (i == 1) cfgs[i].cols.push_back({"WEIGHT_SPECTRUM", true, i});
      }
      {
        Table t = createMulti(path, cfgs, c.nRows());
        for (int i = 0; i != 3; ++i) fill(t, cfgs[i], 0, c.nRows(), ins[i]);
      }
      Table t(path);
      checkTableSpec(t, cfgs, "three managers");
      for (int i = 0; i != 3; ++i) checkStored(path, cfgs[i], ins[i], t, c.nBlocks, "three managers");
    } break;
  }
  if (index % 35 < 7) gRep.sample(std::string(kKinds[kind]) + " " + c.str());
  rmTree(path);
  rmTree(path2);
  gRep.end();
}

// ---------------------------------------------------------------------------
// What is not supported is refused, and leaves the data alone (C22)
namespace {
const char *kRejects[] = {"bits",        "specBits",    "specMissing", "specDist",     "specNorm",
                          "noSpec",      "doubleData",  "intData",     "complexWeight", "floatData",
                          "scalar",      "indirect",    "addColumn",   "wrongShape",   "removeRow",
                          "readOnlyPut", "antenna",     "newManagerBits", "noSpecManager",
                          "antennaUpdate", "parameter"};
}
void modeReject(uint64_t index, Rng &r) {
  using namespace casacore;
  const int kind = index % 21;
  Cfg c = accurateCfg(r);
  c.nBlocks = r.range(2, 4);
  if (kind == 16 || kind == 19) {
    c.norm = kAF;
    c.cols = {{"DATA", false, 0}};
    if (r.chance(0.5)) c.cols.push_back({"WEIGHT_SPECTRUM", true, 0});
  }
  const std::string path = gArgs.dir + "/rej.tab";
  rmTree(path);
  gRep.begin(index, std::string(kRejects[kind]) + " " + c.str());
  gRep.stat(kRejects[kind], 1);
  auto refused = [&](const std::function<void()> &f, const char *what) {
    bool ok = false;
    std::string text = "no exception";
    try {
      f();
    } catch (std::exception &e) {
      ok = true;
      text = e.what();
    }
    VT_CHECK(ok, "C22:accepted", "%s was not refused", what);
    return ok;
  };
  const int badBits[] = {1, 5, 7, 9, 11, 13, 14, 15, 17, 24, 32, 0};
  auto makeWith = [&](const std::string &p, const TableDesc &td, DataManager &dm,
                      const std::vector<std::string> &cols) {
    SetupNewTable setup(p, td, Table::New);
    for (auto &n : cols) setup.bindColumn(n, dm);
    Table t(setup);
    t.addRow(4);
  };
  auto descWith = [&](auto add) {
    Cfg k = c;
    k.cols.clear();
    TableDesc td = makeDesc(k);
    add(td);
    return td;
  };
  const IPosition shape(2, c.nPol, c.nChan);
  const int direct = ColumnDesc::Direct | ColumnDesc::FixedShape;
  switch (kind) {
    case 0: {
      Cfg k = c;
      k.viaSpec = false;
      const int b = badBits[r.below(12)];
      if (r.chance(0.5))
        k.dataBits = b;
      else
        k.weightBits = b;
      refused([&] { createTable(path, k, 4); }, "an unsupported bit rate");
    } break;
    case 1: {
      Record s = makeSpec(c);
      s.define(r.chance(0.5) ? "dataBitCount" : "weightBitCount", badBits[r.below(12)]);
      refused(
          [&] {
            std::unique_ptr<DataManager> dm(DataManager::getCtor("DyscoStMan")("x", s));
            makeWith(path, descWith([&](TableDesc &td) {
                       td.addColumn(ArrayColumnDesc<Complex>("DATA", "", "DyscoStMan", "", shape, direct));
                     }),
                     *dm, {"DATA"});
          },
          "a specification with an unsupported bit rate");
    } break;
    case 2: {
      Record s = makeSpec(c);
      const std::vector<std::string> f = {"weightBitCount", "distribution", "normalization",
                                          "distributionTruncation"};
      const std::string k = r.pick(f);
      s.removeField(k);
      refused([&] { std::unique_ptr<DataManager> dm(DataManager::getCtor("DyscoStMan")("x", s)); },
              ("a specification without " + k).c_str());
    } break;
    case 3:
    case 4: {
      Record s = makeSpec(c);
      const std::vector<std::string> bad = {"", "gaussian", "Gauss", "AFF", "none", "uniform",
                                            "truncated"};
      s.define(kind == 3 ? "distribution" : "normalization", r.pick(bad));
      refused([&] { std::unique_ptr<DataManager> dm(DataManager::getCtor("DyscoStMan")("x", s)); },
              "an unknown name in a specification");
    } break;
    case 20: {
      // A distribution without a parameter that it needs
      const bool student = r.chance(0.5);
      double bad = r.pick(std::vector<double>{0.0, -1.0, -2.5, double(NAN)});
      // So few degrees of freedom that the quantities can not be represented
      if (student && r.chance(0.3)) bad = r.pick(std::vector<double>{1e-300, 1e-12, 0.001, 0.008});
      refused(
          [&] {
            std::unique_ptr<DataManager> dm;
            if (r.chance(0.5)) {
              Record s = makeSpec(c);
              s.define("distribution", student ? "StudentsT" : "TruncatedGaussian");
              if (!student)
                s.define("distributionTruncation", bad);
              else if (r.chance(0.5) && s.isDefined("studentTNu"))
                s.removeField("studentTNu");
              else
                s.define("studentTNu", bad);
              dm.reset(DataManager::getCtor("DyscoStMan")("x", s));
            } else {
              auto d = std::make_unique<dyscostman::DyscoStMan>(c.dataBits, c.weightBits, "x");
              if (student)
                d->SetStudentsTDistribution(bad);
              else
                d->SetTruncatedGaussianDistribution(bad);
              dm = std::move(d);
            }
            makeWith(path, descWith([&](TableDesc &td) {
                       td.addColumn(ArrayColumnDesc<Complex>("DATA", "", "DyscoStMan", "", shape, direct));
                     }),
                     *dm, {"DATA"});
          },
          student ? "a Student t distribution without positive degrees of freedom"
                  : "a Gaussian that is truncated to nothing");
    } break;
    case 5: {
      refused(
          [&] {
            std::unique_ptr<DataManager> dm(DataManager::getCtor("DyscoStMan")("x", Record()));
            makeWith(path, descWith([&](TableDesc &td) {
                       td.addColumn(ArrayColumnDesc<Complex>("DATA", "", "DyscoStMan", "", shape, direct));
                     }),
                     *dm, {"DATA"});
          },
          "a manager without settings");
    } break;
    case 6:
    case 7:
    case 8:
    case 9:
    case 10:
    case 11: {
      std::unique_ptr<DataManager> dm = makeManager(c, "x");
      std::string name = "DATA";
      TableDesc td = descWith([&](TableDesc &d) {
        if (kind == 6)
          d.addColumn(ArrayColumnDesc<DComplex>(name, "", "DyscoStMan", "", shape, direct));
        else if (kind == 7)
          d.addColumn(ArrayColumnDesc<int>(name, "", "DyscoStMan", "", shape, direct));
        else if (kind == 8) {
          name = "WEIGHT_SPECTRUM";
          d.addColumn(ArrayColumnDesc<Complex>(name, "", "DyscoStMan", "", shape, direct));
        } else if (kind == 9) {
          if (r.chance(0.5)) {
            name = "WEIGHT_SPECTRUM";
            d.addColumn(ArrayColumnDesc<double>(name, "", "DyscoStMan", "", shape, direct));
          } else
            d.addColumn(ArrayColumnDesc<double>(name, "", "DyscoStMan", "", shape, direct));
        } else if (kind == 10)
          d.addColumn(ScalarColumnDesc<Complex>(name));
        else
          d.addColumn(ArrayColumnDesc<Complex>(name, "", "DyscoStMan", "", 2));
      });
      refused([&] { makeWith(path, td, *dm, {name}); }, "a column that can not be stored");
    } break;
    default: {
      // These are requests to a table with data
      Model m(c);
      Cells before;
      const bool inSession = r.chance(0.4) && kind != 15;
      {
        Table t = createTable(path, c, c.nRows());
        if (kind == 12 && r.chance(0.4)) {
          // A column is requested as soon as the layout is fixed, that is when the
          // first row of the second block was written: maybe nothing is stored yet
          const size_t begun = c.rowsPerBlock() + 1;
          for (size_t row = 0; row != begun; ++row) m.write(t, r, 0, row);
          const std::string mgr = dmName(c, c.cols[0].manager);
          const ArrayColumnDesc<Complex> extra("EXTRA", "", "DyscoStMan", mgr, shape, direct);
          refused([&] { t.addColumn(extra, mgr, true); }, "a column for a manager of which the layout is fixed");
          for (size_t row = begun; row != m.nRows; ++row) m.write(t, r, 0, row);
          for (size_t col = 1; col != c.cols.size(); ++col)
            for (size_t row = 0; row != m.nRows; ++row) m.write(t, r, col, row);
          for (size_t col = 0; col != c.cols.size(); ++col)
            for (size_t row = 0; row != m.nRows; ++row)
              m.check(t, col, row, "written after a refused request");
          gRep.stat("addColumnEarly", 1);
        } else
        for (size_t col = 0; col != c.cols.size(); ++col)
          for (size_t row = 0; row != m.nRows; ++row) m.write(t, r, col, row);
        if (!inSession) {
          t = Table();
          t = Table(path, kind == 15 ? Table::Old : Table::Update);
        }
        before = allCells(t, c);
        auto unchanged = [&](Table &u, const char *when) {
          VT_CHECK(u.nrow() == c.nRows(), "C22:rows", "%s: %zu rows, expected %zu", when,
                   size_t(u.nrow()), c.nRows());
          const Cells now = allCells(u, c);
          for (auto &p : before)
            for (size_t row = 0; row != p.second.size(); ++row)
              VT_CHECK(now.at(p.first).at(row) == p.second[row], "C22:damaged",
                       "%s: %s of row %zu changed after a refused request", when, p.first.c_str(),
                       row);
        };
        const ColCfg &col = c.cols[r.below(c.cols.size())];
        const size_t row = r.below(m.nRows);
        bool reopenOnly = false;
        switch (kind) {
          case 12: {
            refused(
                [&] {
                  const std::string mgr = dmName(c, c.cols[0].manager);
                  t.addColumn(ArrayColumnDesc<Complex>("EXTRA", "", "DyscoStMan", mgr, shape, direct),
                              mgr, true);
                },
                "a column for a manager that has data");
            reopenOnly = true;
          } break;
          case 13: {
            const IPosition s2(2, c.nPol + r.range(0, 1), c.nChan + 1);
            refused(
                [&] {
                  if (col.isWeight)
                    ArrayColumn<float>(t, col.name).put(row, Array<float>(s2, 1.0f));
                  else
                    ArrayColumn<Complex>(t, col.name).put(row, Array<Complex>(s2, Complex(1, 1)));
                },
                "a value with the wrong shape");
          } break;
          case 14: {
            if (m.nRows < 2) break;
            refused([&] { t.removeRow(r.below(m.nRows - 1)); }, "removing a row in the middle");
            reopenOnly = true;
          } break;
          case 15: {
            refused(
                [&] {
                  if (col.isWeight)
                    ArrayColumn<float>(t, col.name).put(row, Array<float>(shape, 1.0f));
                  else
                    ArrayColumn<Complex>(t, col.name).put(row, Array<Complex>(shape, Complex(1, 1)));
                },
                "writing to a table that was opened for reading");
          } break;
          case 16: {  // a later block with another antenna
            t.addRow(1);
            const size_t n = c.nRows();
            Cfg cc = c;
            cc.nBlocks++;
            fillKeys(t, cc, n, n + 1);
            ScalarColumn<int>(t, r.chance(0.5) ? "ANTENNA1" : "ANTENNA2")
                .put(n, r.chance(0.3) ? -1 - int(r.below(3))
                                      : c.nAnt + int(r.below(3) ? 0 : r.below(1000)));
            refused([&] { ArrayColumn<Complex>(t, "DATA").put(n, Array<Complex>(shape, Complex(1, 1))); },
                    "an antenna that can not be stored");
            t.removeRow(n);
          } break;
          case 19: {  // an existing row with another antenna
            const std::string an = r.chance(0.5) ? "ANTENNA1" : "ANTENNA2";
            ScalarColumn<int> ac(t, an);
            const int old = ac(row);
            ac.put(row, r.chance(0.3)   ? -1 - int(r.below(2))
                        : r.chance(0.5) ? c.nAnt + int(r.below(2))
                                        : int(r.below(100000)) + c.nAnt);
            if (r.chance(0.6)) {
              // Reading any row is refused as well or has the right result
              for (int k = 0; k != 3; ++k) {
                const size_t other = r.below(m.nRows);
                try {
                  VT_CHECK(cell(t, c.cols[0], other) == before.at("DATA")[other], "C22:damaged",
                           "row %zu reads differently after the antenna of row %zu was changed", other,
                           row);
                  gRep.stat("antennaReads", 1);
                } catch (AipsError &) {
                  gRep.stat("antennaRefusals", 1);
                }
              }
            }
            refused([&] { ArrayColumn<Complex>(t, "DATA").put(row, Array<Complex>(shape, Complex(1, 1))); },
                    "an antenna that can not be stored");
            ac.put(row, old);
          } break;
          case 17:
          case 18: {
            Cfg k = c;
            k.viaSpec = false;
            k.dataBits = badBits[r.below(11)];
            refused(
                [&] {
                  std::unique_ptr<DataManager> dm;
                  if (kind == 17)
                    dm = makeManager(k, "extra");
                  else
                    dm.reset(DataManager::getCtor("DyscoStMan")("extra", Record()));
                  t.addColumn(ArrayColumnDesc<Complex>("EXTRA", "", "DyscoStMan", "extra", shape, direct),
                              *dm);
                },
                "a new manager that can not be used");
            reopenOnly = true;
          } break;
        }
        if (!reopenOnly) {
          unchanged(t, "afterwards");
          if (kind != 15) {
            m.write(t, r, 0, row);
            m.check(t, 0, row, "written after a refused request");
            before.clear();
          }
        }
      }
      Table t(path);
      VT_CHECK(t.nrow() == c.nRows(), "C22:rows", "%zu rows, expected %zu", size_t(t.nrow()),
               c.nRows());
      VT_CHECK(!t.tableDesc().isColumn("EXTRA") || kind == 17 || kind == 18 || kind == 12,
               "C22:column", "the refused column exists");
      for (auto &p : before) {
        const ColCfg *cp = nullptr;
        for (auto &k : c.cols)
          if (k.name == p.first) cp = &k;
        for (size_t row = 0; row != p.second.size(); ++row) {
          // In the session the pending block is not quantized yet
          if (inSession) {
            m.key = "C22:damaged";
            m.check(t, cp - &c.cols[0], row, "reopened after a refused request");
          } else
            VT_CHECK(cell(t, *cp, row) == p.second[row], "C22:damaged",
                     "reopened: %s of row %zu changed after a refused request", p.first.c_str(), row);
        }
      }
      if (before.empty()) {
        m.key = "C22:damaged";
        m.checkAll(t, "reopened after a refused request");
      }
    }
  }
  if (index % 60 < 20) gRep.sample(std::string(kRejects[kind]) + " " + c.str());
  rmTree(path);
  gRep.end();
}

// ---------------------------------------------------------------------------
// The rounding of the stored values is random, unbiased and independent (C04)
namespace {
struct ZTest {
  double s = 0, n = 0;
  void add(double x) {
    s += x;
    n += 1;
  }
  double z() const { return n > 0 ? s / std::sqrt(n) : 0; }
};
}  // namespace

void modeDither(uint64_t index, Rng &r) {
  Cfg c;
  c.dataBits = kWidths[index % 5];
  c.dist = (index / 5) % 4;
  c.norm = (index / 20) % 3;
  c.nu = 5;
  c.trunc = 2.5;
  c.nAnt = 8;
  c.nChan = 16;
  c.nPol = r.pick(std::vector<int>{1, 2, 4});
  c.nBlocks = 12;
  c.splitBy = r.below(4);
  c.rowOrder = r.below(3);
  c.orderSeed = r.next();
  c.cols = {{"DATA", false, 0}, {"MODEL_DATA", false, 0}};
  if (r.chance(0.5)) c.cols[1].manager = 1;
  const int dataKind = r.below(3);
  gRep.begin(index, c.str() + strf(" data=%d", dataKind));
  perturb(r);
  const size_t rpb = c.rowsPerBlock(), perRow = c.vis() * 2, perBlock = perRow * rpb;
  const auto bl = c.baselines();
  const std::vector<double> &lv = cachedLevels(c.dist, c.dataBits, c.nu, c.trunc);
  // Both columns and all runs have the same input, so that equal dithering
  // leads to equal residuals.
  std::vector<std::vector<cf>> in(c.nRows());
  for (size_t row = 0; row != c.nRows(); ++row) {
    in[row].resize(c.vis());
    for (auto &v : in[row]) {
      if (dataKind == 0)
        v = cf(float(r.gauss()), float(r.gauss()));
      else
        v = cf(float(r.uniform(-1, 1)), float(r.uniform(-1, 1)));
    }
    if (dataKind == 2 && row >= rpb) in[row] = in[row % rpb];  // all blocks are the same
  }
  const size_t nSeries = 4;  // 2 runs x 2 columns
  std::vector<std::vector<float>> e(nSeries);
  for (int run = 0; run != 2; ++run) {
    const std::string path = gArgs.dir + "/dither.tab";
    rmTree(path);
    {
      Table t = createTable(path, c, c.nRows());
      for (size_t row = 0; row != c.nRows(); ++row)
        for (auto &col : c.cols) putRow<Complex>(t, c, col.name, row, in[row]);
    }
    for (int k = 0; k != 2; ++k) {
      std::vector<float> &res = e[run * 2 + k];
      res.assign(perBlock * c.nBlocks, NAN);
      RefFile f;
      f.load(dyscoFile(path, dmName(c, c.cols[k].manager)));
      const std::vector<RefLayout> ls = layouts(c, c.cols[k].manager, f);
      const size_t colIdx = ls.size() == 2 ? k : 0;
      for (int b = 0; b != c.nBlocks; ++b) {
        const RefBlock rb = refBlock(f, ls, colIdx, b);
        for (size_t row = 0; row != rpb; ++row)
          for (size_t i = 0; i != c.vis(); ++i)
            for (int im = 0; im != 2; ++im) {
              const double F = rb.factor(row, i / c.nPol, i % c.nPol, bl[row].first, bl[row].second);
              const double x = comp(in[b * rpb + row][i], im) / F;
              const size_t hi = std::lower_bound(lv.begin(), lv.end(), x) - lv.begin();
              if (hi == 0 || hi == lv.size()) continue;
              const double p = (x - lv[hi - 1]) / (lv[hi] - lv[hi - 1]);
              if (!(p >= 0.1 && p <= 0.9)) continue;
              const uint32_t s = rb.symbol(row, i / c.nPol, i % c.nPol, im);
              if (s != hi && s != hi - 1) {
                gRep.fail("C04:neighbour", "%g was stored as %g", x, s < lv.size() ? lv[s] : NAN);
                continue;
              }
              res[b * perBlock + row * perRow + i * 2 + im] =
                  float(((s == hi ? 1.0 : 0.0) - p) / std::sqrt(p * (1 - p)));
            }
      }
    }
    rmTree(path);
  }
  calm();
  const double kMax = 7;
  auto report = [&](const ZTest &z, const char *key, const std::string &what) {
    // (the residuals are skew, which matters when they are few)
    VT_CHECK(std::fabs(z.z()) <= kMax + 100 / std::sqrt(z.n + 100), key, "%s: %g standard deviations from what is expected (%g values)",
             what.c_str(), z.z(), z.n);
    gRep.stat("tests", 1);
    gRep.stat("residuals", z.n);
  };
  auto product = [&](const std::vector<float> &a, size_t fa, const std::vector<float> &b, size_t fb,
                     size_t n) {
    ZTest z;
    for (size_t i = 0; i != n; ++i) {
      const double p = double(a[fa + i]) * b[fb + i];
      if (!std::isnan(p)) z.add(p);
    }
    return z;
  };
  ZTest nothing;
  for (size_t s = 0; s != nSeries; ++s) {
    ZTest z, parity;
    for (size_t i = 0; i != e[s].size(); ++i)
      if (!std::isnan(e[s][i])) {
        z.add(e[s][i]);
        parity.add(i % 2 ? e[s][i] : -e[s][i]);
      }
    nothing.n += z.n;
    report(z, "C04:mean", strf("mean of series %zu", s));
    report(parity, "C04:mean", strf("real against imaginary of series %zu", s));
    // Value-dependent bias: the residuals against the value
    ZTest corr;
    double sxx = 0, sx = 0;
    for (size_t i = 0; i != e[s].size(); ++i)
      if (!std::isnan(e[s][i])) {
        const size_t row = i / perRow, k = (i % perRow) / 2;
        const double x = comp(in[row][k], i % 2);
        corr.s += x * e[s][i];
        sxx += x * x;
        sx += 1;
      }
    corr.n = sx;
    if (sxx > 0) {
      corr.s *= std::sqrt(sx / sxx);
      report(corr, "C04:slope", strf("residuals against values of series %zu", s));
    }
    // within the series
    std::vector<size_t> lags = {1, 2, 3, 4, size_t(2) * c.nPol, perRow, perRow * 2, size_t(c.nPol) * 4};
    std::sort(lags.begin(), lags.end());
    lags.erase(std::unique(lags.begin(), lags.end()), lags.end());
    for (size_t lag : lags)
      report(product(e[s], 0, e[s], lag, e[s].size() - lag), "C04:lag",
             strf("series %zu, lag %zu", s, lag));
    // re and im of the same sample
    ZTest reim;
    for (size_t i = 0; i + 1 < e[s].size(); i += 2) {
      const double p = double(e[s][i]) * e[s][i + 1];
      if (!std::isnan(p)) reim.add(p);
    }
    report(reim, "C04:reim", strf("real with imaginary of series %zu", s));
    for (int a = 0; a != c.nBlocks; ++a)
      for (int b = 0; b != a; ++b)
        report(product(e[s], a * perBlock, e[s], b * perBlock, perBlock), "C04:blocks",
               strf("series %zu, block %d with block %d", s, a, b));
    for (size_t s2 = 0; s2 != s; ++s2)
      for (int a = 0; a != c.nBlocks; ++a)
        for (int b = 0; b != c.nBlocks; ++b)
          report(product(e[s], a * perBlock, e[s2], b * perBlock, perBlock), "C04:runs",
                 strf("series %zu block %d with series %zu block %d", s, a, s2, b));
  }
  VT_CHECK(nothing.n > 1000, "ANY:inconclusive", "only %g residuals", nothing.n);
  if (index % 8 == 0) gRep.sample(c.str() + strf(": %g residuals", nothing.n));
  gRep.end();
}

// ---------------------------------------------------------------------------
// Files that are damaged (C19)
namespace {
const char *kDamages[] = {"truncate", "truncate", "truncateHeader", "truncateBlock", "payload",
                          "payload",  "version",  "columns",        "missing",       "empty",
                          "appended", "bits",     "distribution",   "normalization", "parameter",
                          "nameLength", "anyHeader", "anyHeader"};
}
void modeDamage(uint64_t index, Rng &r) {
  const int kind = index % 18;
  Cfg c = accurateCfg(r);
  c.dataBits = kWidths[r.below(8)];
  c.dist = kind == 14 ? (r.chance(0.5) ? kStudentT : kTrunc) : int(r.below(4));
  if (c.dist == kStudentT) c.dataBits = std::min(c.dataBits, 8);  // slow to open
  c.nBlocks = r.range(2, 5);
  const std::string path = gArgs.dir + "/dam.tab";
  rmTree(path);
  gRep.begin(index, std::string(kDamages[kind]) + " " + c.str());
  gRep.stat(kDamages[kind], 1);
  const size_t rpb = c.rowsPerBlock();
  Model m(c);
  {
    Table t = createTable(path, c, c.nRows());
    for (size_t col = 0; col != c.cols.size(); ++col)
      for (size_t row = 0; row != m.nRows; ++row) m.write(t, r, col, row, 0.05);
  }
  const int mgr = c.cols[r.below(c.cols.size())].manager;
  const std::string file = dyscoFile(path, dmName(c, mgr));
  RefFile f;
  f.load(file);
  const std::vector<RefLayout> ls = layouts(c, mgr, f);
  std::vector<size_t> colOf;
  for (size_t k = 0; k != c.cols.size(); ++k)
    if (c.cols[k].manager == mgr) colOf.push_back(k);
  Cells before;
  {
    Table t(path);
    before = allCells(t, c);
  }
  const std::vector<uint8_t> good = f.bytes;
  const size_t hs = f.h.headerSize, bs = f.h.blockSize;
  const int rounds = 8;
  for (int round = 0; round != rounds; ++round) {
    std::vector<uint8_t> bad = good;
    size_t cut = good.size(), flipped = 0;
    bool mustRefuse = false, anything = false;
    // Only some managers use the settings for data
    bool needsSettings = false;
    switch (kind) {
      case 0:
      case 1:
        cut = hs + r.below(good.size() - hs);
        break;
      case 2:
        // (the space after the last column header is not used)
        cut = r.below(f.h.columnHeaderOffset + 12 * f.h.columnCount);
        mustRefuse = true;
        break;
      case 3: {  // at, just before and just after the end of a (column in a) block
        cut = hs + bs * r.below(c.nBlocks);
        for (size_t k = r.below(ls.size() + 1); k != 0; --k) cut += ls[k - 1].bytes();
        cut = std::min(good.size(), cut + size_t(r.below(3)));
        if (cut > hs) --cut;
      } break;
      case 4:
      case 5:
        flipped = hs + r.below(good.size() - hs);
        break;
      case 6: {
        const size_t at = 16 + f.h.name.size() + 12;
        uint16_t v[2] = {1, 0};
        do {
          v[0] = r.chance(0.3) ? 1 : r.below(4);
          v[1] = r.chance(0.3) ? 0 : r.below(600);
        } while (v[0] == 1 && v[1] == 0);
        std::memcpy(&bad[at], v, 4);
        mustRefuse = true;
      } break;
      case 7: {
        const uint32_t n = uint32_t(r.chance(0.5) ? ls.size() + 1 : r.chance(0.5) ? ls.size() - 1 : 77);
        std::memcpy(&bad[8], &n, 4);
        mustRefuse = true;
      } break;
      case 8:
        unlink(file.c_str());
        mustRefuse = true;
        break;
      case 9:
        bad.clear();
        mustRefuse = true;
        break;
      case 10:  // bytes after the last block
        for (size_t k = 1 + r.below(bs + 3); k != 0; --k) bad.push_back(uint8_t(r.next()));
        break;
      case 11: {
        const size_t at = 16 + f.h.name.size() + 16 + r.below(2);
        const int wrong[] = {0, 1, 5, 7, 9, 11, 13, 14, 15, 17, 32, 255};
        bad[at] = uint8_t(wrong[r.below(12)]);
        mustRefuse = true;
      } break;
      case 12:
      case 13:  // there are four distributions and three normalizations
        bad[16 + f.h.name.size() + kind + 6] =
            uint8_t(r.chance(0.5) ? (kind == 12 ? 4 : 3) : r.range(4, 255));
        mustRefuse = needsSettings = true;
        break;
      case 14: {
        const double v = r.pick(std::vector<double>{0.0, -1.0, double(NAN), -1e-300, -double(INFINITY)});
        std::memcpy(&bad[16 + f.h.name.size() + 20 + (c.dist == kStudentT ? 0 : 8)], &v, 8);
        mustRefuse = needsSettings = true;
      } break;
      case 15: {
        uint32_t n = uint32_t(f.h.name.size());
        while (n == f.h.name.size()) n = uint32_t(r.below(r.chance(0.5) ? 100 : 1000000));
        std::memcpy(&bad[12], &n, 4);
        mustRefuse = true;
      } break;
      case 16:
      case 17: {
        // Whatever is in the header, it is refused or gives some values. (Numbers of rows and
        // antennas of many millions are not used: these only take time.)
        anything = true;
        const size_t rows = 16 + f.h.name.size();
        for (size_t k = 1 + r.below(3); k != 0; --k) {
          const size_t at = r.below(hs);
          if (at >= 14 && at < 16) continue;
          if (at >= rows && at < rows + 8 && (at - rows) % 4 >= 2) continue;
          bad[at] = r.chance(0.3) ? uint8_t(bad[at] + 1) : uint8_t(r.next());
        }
      } break;
    }
    if (kind == 4 || kind == 5) {
      const size_t n = 1 + r.below(4);
      for (size_t k = 0; k != n && flipped + k < bad.size(); ++k)
        if ((flipped + k - hs) / bs == (flipped - hs) / bs) bad[flipped + k] ^= uint8_t(1 + r.below(255));
    }
    bad.resize(std::min(bad.size(), cut));
    if (kind != 8) spit(file, bad);
    const auto snap = snapshot(path);
    bool threwAtOpen = true;
    std::string text;
    size_t same = 0, zero = 0, refusedCells = 0;
    try {
      Table t(path);
      // a missing or damaged file may also be noticed when a value is read
      for (size_t k : colOf) cell(t, c.cols[k], 0);
      threwAtOpen = false;
    } catch (std::exception &e) {
      text = e.what();
    }
    if (needsSettings) {
      mustRefuse = false;
      for (size_t k : colOf) mustRefuse = mustRefuse || !c.cols[k].isWeight;
      anything = !mustRefuse;
    }
    if (anything) {
      size_t refused = 0;
      try {
        Table t(path);
        for (size_t k = 0; k != c.cols.size(); ++k)
          for (int i = 0; i != 6; ++i) {
            const size_t row = r.below(m.nRows);
            std::vector<uint32_t> now;
            bool threw = false;
            try {
              now = cell(t, c.cols[k], row);
            } catch (std::exception &) {
              threw = true;
              ++refused;
            }
            if (c.cols[k].manager != mgr)
              VT_CHECK(!threw && now == before[c.cols[k].name][row], "C19:lost",
                       "%s of row %zu is in another manager, but %s", c.cols[k].name.c_str(), row,
                       threw ? "can not be read" : "another value was read");
          }
      } catch (std::exception &e) {
        ++refused;
      }
      gRep.stat("headersRefused", refused != 0);
    } else if (mustRefuse) {
      VT_CHECK(threwAtOpen, "C19:accepted", "%s: the file was accepted", kDamages[kind]);
    } else {
      // What is complete is readable
      bool opened = false;
      try {
        Table t(path);
        opened = true;
        for (size_t k = 0; k != c.cols.size(); ++k) {
          const bool other = c.cols[k].manager != mgr;
          size_t off = 0, width = 0;
          for (size_t j = 0; j != colOf.size(); ++j) {
            if (colOf[j] == k) {
              width = ls[j].bytes();
              break;
            }
            off += ls[j].bytes();
          }
          std::vector<size_t> rows(m.nRows);
          for (size_t i = 0; i != rows.size(); ++i) rows[i] = i;
          if (r.chance(0.5)) r.shuffle(rows);
          for (size_t row : rows) {
            const size_t b = row / rpb, from = hs + bs * b + off, to = from + width;
            const bool hit = !other && ((kind == 4 || kind == 5) && [&] {
              for (size_t x = from; x != to; ++x)
                if (bad[x] != good[x]) return true;
              return false;
            }());
            const bool lost = !other && to > bad.size();
            std::vector<uint32_t> now;
            bool threw = false;
            try {
              now = cell(t, c.cols[k], row);
            } catch (std::exception &) {
              threw = true;
            }
            const std::vector<uint32_t> &was = before[c.cols[k].name][row];
            ++gRep.checks;
            if (hit) continue;
            if (lost) {
              bool ok = threw;
              if (!threw) {
                bool z = true;
                for (uint32_t x : now) z = z && (x == 0 || x == 0x80000000u);
                ok = z || now == was;
                if (z) ++zero;
              } else
                ++refusedCells;
              if (!ok)
                gRep.fail("C19:invented", "%s at %zu of %zu: %s of row %zu (block %zu) is lost, but "
                          "values were read that were never written",
                          kDamages[kind], bad.size(), good.size(), c.cols[k].name.c_str(), row, b);
            } else {
              if (threw || now != was)
                gRep.fail("C19:lost", "%s (%zu of %zu bytes, change at %zu): %s of row %zu (block "
                          "%zu) is still in the file, but %s",
                          kDamages[kind], bad.size(), good.size(), flipped,
                          c.cols[k].name.c_str(), row, b,
                          threw ? "can not be read" : "another value was read");
              else
                ++same;
            }
          }
        }
      } catch (std::exception &e) {
        text = e.what();
      }
      VT_CHECK(opened, "C19:unreadable", "%s (%zu of %zu bytes): the table can not be opened: %s",
               kDamages[kind], bad.size(), good.size(), text.c_str());
    }
    const auto after = snapshot(path);
    for (auto &p : snap)
      if (p.first.compare(0, 7, "table.f") == 0)
        VT_CHECK(after.count(p.first) && after.at(p.first) == p.second, "C19:written",
                 "%s was changed by reading", p.first.c_str());
    gRep.stat("cellsIdentical", same);
    gRep.stat("cellsZero", zero);
    gRep.stat("cellsRefused", refusedCells);
    gRep.stat("damagedFiles", 1);
    spit(file, good);
  }
  {  // the undamaged file is still good
    Table t(path);
    VT_CHECK(allCells(t, c) == before, "C19:restored", "the restored file reads differently");
  }
  if (index % 36 < 18) gRep.sample(std::string(kDamages[kind]) + " " + c.str());
  rmTree(path);
  gRep.end();
}

// ---------------------------------------------------------------------------
// Files that were written by the released version, and files that were
// written according to the format description by another program (C09)
namespace {
struct BitWriter {
  std::vector<uint8_t> &out;
  uint32_t n = 0;
  explicit BitWriter(std::vector<uint8_t> &o) : out(o) {}
  void put(uint32_t v, int bits) {
    for (int k = 0; k != bits; ++k, ++n) {
      if (n % 8 == 0) out.push_back(0);
      out.back() |= uint8_t(((v >> k) & 1) << (n % 8));
    }
  }
};
template <typename T>
void append(std::vector<uint8_t> &o, T v) {
  const uint8_t *p = reinterpret_cast<const uint8_t *>(&v);
  o.insert(o.end(), p, p + sizeof(T));
}

std::vector<uint8_t> refHeader(const Cfg &c, int manager, const std::vector<RefLayout> &ls,
                               size_t pad, size_t colPad, bool empty) {
  std::vector<uint8_t> o;
  const std::string name = dmName(c, manager);
  const uint32_t colOff = uint32_t(16 + name.size() + 12 + 4 + 4 + 16);
  const uint32_t colSize = uint32_t(12 + colPad);
  uint32_t bs = 0;
  for (auto &l : ls) bs += uint32_t(l.bytes());
  append<uint32_t>(o, uint32_t(colOff + colSize * ls.size() + pad));
  append<uint32_t>(o, colOff);
  append<uint32_t>(o, uint32_t(ls.size()));
  append<uint32_t>(o, uint32_t(name.size()));
  o.insert(o.end(), name.begin(), name.end());
  append<uint32_t>(o, empty ? 0 : uint32_t(ls[0].nRow));
  append<uint32_t>(o, empty ? 0 : uint32_t(ls[0].nAnt));
  append<uint32_t>(o, empty ? 0 : bs);
  append<uint16_t>(o, 1);
  append<uint16_t>(o, 0);
  o.push_back(uint8_t(c.dataBits));
  o.push_back(uint8_t(c.weightBits));
  o.push_back(uint8_t(c.dist));
  o.push_back(uint8_t(c.norm));
  append<double>(o, c.nu);
  append<double>(o, c.trunc);
  for (auto &l : ls) {
    append<uint32_t>(o, colSize);
    append<uint32_t>(o, uint32_t(l.bytes()));
    append<uint32_t>(o, uint32_t(l.nAnt));
    o.resize(o.size() + colPad, 0xcd);
  }
  o.resize(o.size() + pad, 0xab);
  return o;
}

std::string cfgLine(const Cfg &c) {
  std::string s = strf("%d %d %d %d %d %d %d %d %d %.17g %.17g %d %llu %d %zu", c.nAnt, c.autos,
                       c.nChan, c.nPol, c.nBlocks, c.dataBits, c.weightBits, c.dist, c.norm, c.nu,
                       c.trunc, c.rowOrder, (unsigned long long)c.orderSeed, c.splitBy,
                       c.cols.size());
  for (auto &k : c.cols) s += strf(" %s %d %d", k.name.c_str(), k.isWeight, k.manager);
  return s;
}
Cfg parseCfg(std::istream &is) {
  Cfg c;
  size_t n;
  is >> c.nAnt >> c.autos >> c.nChan >> c.nPol >> c.nBlocks >> c.dataBits >> c.weightBits >> c.dist >>
      c.norm >> c.nu >> c.trunc >> c.rowOrder >> c.orderSeed >> c.splitBy >> n;
  for (size_t i = 0; is && i != n; ++i) {
    ColCfg k;
    is >> k.name >> k.isWeight >> k.manager;
    c.cols.push_back(k);
  }
  if (!is) throw std::runtime_error("golden configuration is damaged");
  return c;
}
// The ordering of the rows of a golden file may not depend on this program
const char *kGoldenFiles[] = {"0", "1"};

Cfg goldenCfg(uint64_t i, Rng &r) {
  Cfg c;
  c.dataBits = kWidths[i % 8];
  c.weightBits = kWidths[(i * 3 + 2) % 8];
  c.dist = (i / 2 + i / 8) % 4;
  c.norm = (i + i / 8) % 3;
  c.nAnt = r.range(2, 5);
  c.autos = i % 4 == 1;
  c.nChan = r.range(1, 7);
  c.nPol = i % 3 == 0 ? 4 : i % 3 == 1 ? 2 : 1;
  c.nBlocks = r.range(2, 4);
  c.nu = 1.0 + i % 5;
  c.trunc = 1.5 + 0.5 * (i % 4);
  c.splitBy = r.below(4);
  switch (i % 4) {
    case 0:
      c.cols = {{"DATA", false, 0}};
      break;
    case 1:
      c.cols = {{"DATA", false, 0}, {"WEIGHT_SPECTRUM", true, 0}};
      break;
    case 2:
      c.cols = {{"WEIGHT_SPECTRUM", true, 0}, {"DATA", false, 0}, {"MODEL_DATA", false, 0}};
      break;
    default:
      c.cols = {{"DATA", false, 0}, {"WEIGHT_SPECTRUM", true, 1}, {"CORRECTED_DATA", false, 1}};
  }
  return c;
}
}  // namespace

void modeGolden(uint64_t index, Rng &r) {
  const std::string path = gArgs.dir + "/gold.tab";
  rmTree(path);
  const uint64_t nGolden = 48;
  if (gArgs.prop == "GENERATE") {
    // Made with the released version, see DESIGN.md
    Cfg c = goldenCfg(index, r);
    gRep.begin(index, c.str());
    {
      Table t = createTable(path, c, c.nRows());
      for (auto &col : c.cols) {
        for (int b = 0; b != c.nBlocks; ++b) {
          DataSpec d;
          d.regime = index % 6;
          d.nanMode = b == 1 ? int(index % 6) : 0;
          d.zeroMode = b == 0 ? int(index % 4) : 0;
          BlockData bd = genBlock(r, c, d);
          BlockWeights bw = genWeights(r, c, int(r.below(6)), 1.0);
          for (size_t row = 0; row != c.rowsPerBlock(); ++row)
            if (col.isWeight)
              putRow<float>(t, c, col.name, b * c.rowsPerBlock() + row, bw[row]);
            else
              putRow<Complex>(t, c, col.name, b * c.rowsPerBlock() + row, bd[row]);
        }
      }
    }
    const std::string base = gArgs.extra + strf("/%02d", int(index));
    std::ofstream(base + ".cfg") << cfgLine(c) << "\n";
    for (int m = 0; m != 2; ++m)
      if (!managerCols(c, m).empty())
        spit(base + "." + kGoldenFiles[m], RefFile::slurp(dyscoFile(path, dmName(c, m))));
    std::vector<uint8_t> exp;
    Table t(path);
    const Cells cells = allCells(t, c);
    for (auto &col : c.cols)
      for (auto &row : cells.at(col.name))
        for (uint32_t x : row) append(exp, x);
    spit(base + ".expect", exp);
    rmTree(path);
    gRep.end();
    return;
  }
  if (index < nGolden) {
    const std::string base = gArgs.extra + strf("/%02d", int(index));
    std::ifstream cf(base + ".cfg");
    Cfg c = parseCfg(cf);
    gRep.begin(index, "golden " + c.str());
    { Table t = createTable(path, c, c.nRows()); }
    // The files of the released version replace the empty ones
    std::map<int, std::vector<uint8_t>> files;
    for (int m = 0; m != 2; ++m)
      if (!managerCols(c, m).empty()) {
        const std::string f = dyscoFile(path, dmName(c, m));
        files[m] = RefFile::slurp(base + "." + kGoldenFiles[m]);
        spit(f, files[m]);
      }
    const std::vector<uint8_t> exp = RefFile::slurp(base + ".expect");
    size_t pos = 0;
    Table t(path, r.chance(0.5) ? Table::Old : Table::Update);
    for (auto &col : c.cols)
      for (size_t row = 0; row != c.nRows(); ++row) {
        const std::vector<uint32_t> now = cell(t, col, row);
        double peak = 0;
        for (size_t i = 0; i != now.size(); ++i) {
          float e;
          std::memcpy(&e, &exp.at(pos + i * 4 + 3) - 3, 4);
          if (std::isfinite(e)) peak = std::max(peak, std::fabs(double(e)));
        }
        for (size_t i = 0; i != now.size(); ++i, pos += 4) {
          float e, g;
          std::memcpy(&e, &exp[pos], 4);
          std::memcpy(&g, &now[i], 4);
          const bool ok = std::isnan(e) ? std::isnan(g)
                                        : std::fabs(double(e) - g) <= 1e-5 * std::fabs(e) + 1e-7 * peak;
          VT_CHECK(ok, "C09:golden",
                   "%s row %zu value %zu: the released version reads %.9g, this one %.9g",
                   col.name.c_str(), row, i, e, g);
        }
      }
    VT_CHECK(pos == exp.size(), "C09:golden", "%zu of %zu bytes", pos, exp.size());
    gRep.stat("goldenFiles", files.size());
    gRep.stat("values", pos / 4);
  } else {
    // A file by another writer
    Cfg c = goldenCfg(index, r);
    c.dataBits = kWidths[r.below(8)];
    c.weightBits = kWidths[r.below(8)];
    c.dist = r.below(4);
    c.norm = r.below(3);
    c.rowOrder = r.below(3);
    c.orderSeed = r.next();
    c.nu = r.pick(std::vector<double>{1, 2, 5.5});
    gRep.begin(index, "other writer " + c.str());
    { Table t = createTable(path, c, c.nRows()); }
    const auto bl = c.baselines();
    const size_t rpb = bl.size();
    std::map<std::string, std::vector<std::vector<double>>> expect;
    for (int m = 0; m != 2; ++m) {
      std::vector<RefLayout> ls;
      std::vector<std::string> names = managerCols(c, m);
      if (names.empty()) continue;
      RefFile dummy;
      dummy.h.dataBits = uint8_t(c.dataBits);
      dummy.h.weightBits = uint8_t(c.weightBits);
      dummy.h.normalization = uint8_t(c.norm);
      dummy.h.rowsPerBlock = uint32_t(rpb);
      dummy.h.antennaCount = uint32_t(c.nAnt);
      ls = layouts(c, m, dummy);
      std::vector<uint8_t> o = refHeader(c, m, ls, r.chance(0.3) ? r.below(40) : 0,
                                         r.chance(0.3) ? r.below(9) : 0, false);
      for (int b = 0; b != c.nBlocks; ++b)
        for (size_t k = 0; k != ls.size(); ++k) {
          RefBlock rb;
          rb.lay = ls[k];
          rb.meta.resize(ls[k].metaCount());
          for (auto &x : rb.meta) x = float(std::pow(10.0, r.uniform(-5, 5)));
          rb.sym.resize(ls[k].symbolCount());
          const uint32_t nSym = 1u << ls[k].bits;
          for (auto &s : rb.sym) s = r.chance(0.05) ? nSym - 1 : r.below(nSym);
          for (float x : rb.meta) append(o, x);
          BitWriter bw(o);
          for (uint32_t s : rb.sym) bw.put(s, ls[k].bits);
          const std::vector<double> *lv =
              ls[k].isWeight ? nullptr : &cachedLevels(c.dist, c.dataBits, c.nu, c.trunc);
          for (size_t row = 0; row != rpb; ++row) {
            std::vector<double> e;
            for (size_t i = 0; i != c.vis(); ++i) {
              if (ls[k].isWeight) {
                e.push_back(rb.weight(row, i / c.nPol));
                continue;
              }
              for (int im = 0; im != 2; ++im) {
                const uint32_t s = rb.symbol(row, i / c.nPol, i % c.nPol, im);
                e.push_back(s < lv->size() ? (*lv)[s] * rb.factor(row, i / c.nPol, i % c.nPol,
                                                                 bl[row].first, bl[row].second)
                                           : NAN);
              }
            }
            expect[names[k]].push_back(e);
          }
        }
      spit(dyscoFile(path, dmName(c, m)), o);
    }
    Table t(path, r.chance(0.5) ? Table::Old : Table::Update);
    for (auto &col : c.cols)
      for (size_t row = 0; row != c.nRows(); ++row) {
        const std::vector<uint32_t> now = cell(t, col, row);
        const std::vector<double> &e = expect[col.name][row];
        for (size_t i = 0; i != e.size(); ++i) {
          float g = 0;
          if (i < now.size()) std::memcpy(&g, &now[i], 4);
          const bool ok = now.size() == e.size() &&
                          (std::isnan(e[i]) ? std::isnan(g)
                                            : std::fabs(e[i] - g) <= 2e-5 * std::fabs(e[i]) + 1e-30);
          VT_CHECK(ok, "C09:synthetic", "%s row %zu value %zu: the file holds %.9g, read %.9g",
                   col.name.c_str(), row, i, e[i], g);
        }
      }
    gRep.stat("syntheticFiles", 1);
  }
  if (index % 24 == 0) gRep.sample(gRep.sig);
  rmTree(path);
  gRep.end();
}

}  // namespace vt
