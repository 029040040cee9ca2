// Reference model of a table with Dysco columns: the last value that was
// written to every cell, and how far the stored value may be away from it.
#ifndef VT_MODEL_H
#define VT_MODEL_H

#include "th.h"
#include <cstdio>

namespace vt {

struct Model {
  typedef casacore::Complex Complex;
  Cfg c;
  struct Col {
    std::vector<std::vector<cf>> data;      // per row; empty: never written
    std::vector<std::vector<float>> wdata;  // idem, minimum over polarizations
    std::vector<int> passes;                // per block: times through the codec
    std::vector<double> peak;               // per block: largest value ever
    size_t lastBlock = size_t(-1);
    bool touched = false;
    bool alive = true;
  };
  std::vector<Col> cols;
  std::vector<std::pair<int, int>> bl;
  size_t nRows = 0;
  std::string key = "C13:value";
  // Several properties promise that a cell holds what was written to it. A
  // workload reports a wrong value for the property that it is run for.
  void useKey(const std::string &standard) {
    key = standard;
    for (const char *p : {"C01", "C12", "C13", "C14", "C16"})
      if (gArgs.prop == p) key = gArgs.prop + ":value";
  }
  std::string weightKey() const { return gArgs.prop == "C08" ? "C08:value" : key; }
  std::string finiteKey() const { return gArgs.prop == "C02" ? "C02:value" : key; }
  double unitTol = 0;  // error of one pass relative to full scale

  explicit Model(const Cfg &cfg) : c(cfg), cols(cfg.cols.size()), bl(cfg.baselines()) {
    setRows(cfg.nRows());
    // Largest distance between two levels
    const std::vector<double> &lv = cachedLevels(c.dist, c.dataBits, c.nu, c.trunc);
    for (size_t i = 1; i < lv.size(); ++i) unitTol = std::max(unitTol, lv[i] - lv[i - 1]);
    unitTol /= lv.back();
  }
  size_t rpb() const { return bl.size(); }
  void setRows(size_t n) {
    nRows = n;
    for (Col &k : cols) {
      k.data.resize(n);
      k.wdata.resize(n);
      k.passes.resize(n / rpb() + 2, 0);
      k.peak.resize(n / rpb() + 2, 0.0);
    }
  }

  std::vector<cf> genData(Rng &r, double nanChance, double scale) const {
    std::vector<cf> v(c.vis());
    const float nan = std::numeric_limits<float>::quiet_NaN();
    for (auto &x : v) {
      x = cf(float(r.uniform(-1, 1) * scale), float(r.uniform(-1, 1) * scale));
      if (nanChance > 0 && r.chance(nanChance)) x = cf(nan, nan);
    }
    return v;
  }
  std::vector<float> genWeight(Rng &r) const {
    std::vector<float> v(c.vis());
    for (size_t i = 0; i < v.size(); i += c.nPol) {
      const float w = r.chance(0.1) ? 0.0f : float(r.uniform());
      for (int p = 0; p != c.nPol; ++p) v[i + p] = w;
    }
    return v;
  }

  bool trace = getenv("VT_TRACE") != nullptr;
  void note(size_t col, size_t row, double peak) {
    Col &k = cols[col];
    const size_t b = row / rpb();
    if (trace) printf("put %s row %zu block %zu\n", c.cols[col].name.c_str(), row, b);
    if (k.lastBlock != b) {
      ++k.passes[b];
      k.lastBlock = b;
    }
    k.touched = true;
    k.peak[b] = std::max(k.peak[b], peak);
  }
  void set(size_t col, size_t row, const std::vector<cf> &v) {
    double p = 0;
    for (auto &x : v)
      if (finite(x)) p = std::max(p, double(std::max(std::fabs(x.real()), std::fabs(x.imag()))));
    note(col, row, p);
    cols[col].data[row] = v;
  }
  void set(size_t col, size_t row, const std::vector<float> &v) {
    std::vector<float> m(v);
    double p = 0;
    for (size_t i = 0; i < v.size(); i += c.nPol) {
      float x = v[i];
      for (int k = 1; k < c.nPol; ++k) x = std::min(x, v[i + k]);
      for (int k = 0; k < c.nPol; ++k) m[i + k] = x;
      p = std::max(p, double(x));
    }
    note(col, row, p);
    cols[col].wdata[row] = m;
  }
  // Writes a new value to a cell of the table and of the model
  void write(casacore::Table &t, Rng &r, size_t col, size_t row, double nanChance = 0,
             double scale = 1) {
    if (c.cols[col].isWeight) {
      std::vector<float> v = genWeight(r);
      putRow<float>(t, c, c.cols[col].name, row, v);
      set(col, row, v);
    } else {
      std::vector<cf> v = genData(r, nanChance, scale);
      putRow<Complex>(t, c, c.cols[col].name, row, v);
      set(col, row, v);
    }
  }
  double tolerance(size_t col, size_t row) const {
    const Col &k = cols[col];
    const size_t b = row / rpb();
    const double n = k.passes[b] + 2.0;
    if (c.cols[col].isWeight)
      return n * k.peak[b] * 1.01 / double((1u << c.weightBits) - 1) + 1e-6 * k.peak[b];
    // AF: the factors are products of fitted factors
    const double full = c.norm != kAF ? 1.02 : c.nDrop || c.nDup ? 30.0 : 3.0;
    return n * (unitTol * full + 2e-5) * k.peak[b];
  }
  bool written(size_t col, size_t row) const {
    return c.cols[col].isWeight ? !cols[col].wdata[row].empty() : !cols[col].data[row].empty();
  }
  void compare(size_t col, size_t row, const std::vector<cf> &got, const char *when) const {
    if (trace) printf("%s %s row %zu\n", when, c.cols[col].name.c_str(), row);
    const bool loose = c.norm == kAF && !isCross(bl[row % rpb()]);
    const std::vector<cf> &e = cols[col].data[row];
    ++gRep.checks;
    if (got.size() != c.vis()) {
      gRep.fail(key, "%s: column %s row %zu: %zu values", when, c.cols[col].name.c_str(), row,
                got.size());
      return;
    }
    const double tol = tolerance(col, row);
    for (size_t i = 0; i != got.size(); ++i) {
      const cf x = e.empty() ? cf(0, 0) : e[i];
      bool ok;
      if (!finite(x))
        ok = std::isnan(got[i].real()) && std::isnan(got[i].imag());
      else if (e.empty())
        ok = got[i] == cf(0, 0);
      else if (loose)
        ok = true;
      else
        ok = std::fabs(got[i].real() - x.real()) <= tol && std::fabs(got[i].imag() - x.imag()) <= tol;
      if (!ok) {
        gRep.fail(finite(x) == finite(got[i]) ? key : finiteKey(),
                  "%s: column %s row %zu (block %zu) sample %zu: read (%g,%g), %s (%g,%g), "
                  "tolerance %g",
                  when, c.cols[col].name.c_str(), row, row / rpb(), i, got[i].real(),
                  got[i].imag(), e.empty() ? "never written:" : "last written", x.real(), x.imag(),
                  tol);
        return;
      }
    }
  }
  void compare(size_t col, size_t row, const std::vector<float> &got, const char *when) const {
    const std::vector<float> &e = cols[col].wdata[row];
    ++gRep.checks;
    const double tol = tolerance(col, row);
    for (size_t i = 0; i != c.vis(); ++i) {
      const float x = e.empty() ? 0.0f : e[i];
      const bool ok = got.size() == c.vis() && (e.empty() ? got[i] == 0.0f : std::fabs(got[i] - x) <= tol);
      if (!ok) {
        gRep.fail(weightKey(), "%s: column %s row %zu (block %zu) weight %zu: read %g, %s %g, tolerance %g",
                  when, c.cols[col].name.c_str(), row, row / rpb(), i,
                  i < got.size() ? got[i] : NAN, e.empty() ? "never written:" : "last written", x,
                  tol);
        return;
      }
    }
  }
  void check(casacore::Table &t, size_t col, size_t row, const char *when) const {
    if (c.cols[col].isWeight)
      compare(col, row, getRow<float>(t, c.cols[col].name, row), when);
    else
      compare(col, row, getRow<Complex>(t, c.cols[col].name, row), when);
  }
  void checkAll(casacore::Table &t, const char *when, size_t fromRow = 0) const {
    for (size_t col = 0; col != cols.size(); ++col)
      if (cols[col].alive)
        for (size_t row = fromRow; row != nRows; ++row) check(t, col, row, when);
  }
};

// A configuration whose quantization is accurate enough to recognize which
// version of a cell is read.
inline Cfg accurateCfg(Rng &r) {
  Cfg c;
  c.nAnt = r.range(2, 5);
  c.autos = r.chance(0.3);
  c.nChan = r.range(1, 5);
  c.nPol = r.pick(std::vector<int>{1, 2, 4});
  c.dataBits = 16;
  c.weightBits = r.pick(std::vector<int>{12, 16});
  c.dist = r.pick(std::vector<int>{kUniform, kTrunc});
  c.trunc = r.pick(std::vector<double>{1.5, 2.0});
  c.norm = r.below(3);
  c.rowOrder = r.below(3);
  c.orderSeed = r.next();
  c.splitBy = r.below(4);
  c.viaSpec = r.chance(0.3);
  switch (r.below(6)) {
    case 0:
      c.cols = {{"DATA", false, 0}};
      break;
    case 1:
      c.cols = {{"DATA", false, 0}, {"WEIGHT_SPECTRUM", true, 0}};
      break;
    case 2:
      c.cols = {{"WEIGHT_SPECTRUM", true, 0}, {"DATA", false, 0}, {"MODEL_DATA", false, 0}};
      break;
    case 3:
      c.cols = {{"DATA", false, 0}, {"WEIGHT_SPECTRUM", true, 1}, {"MODEL_DATA", false, 1}};
      break;
    case 4:
      c.cols = {{"WEIGHT_SPECTRUM", true, 0}};
      break;
    default:
      c.cols = {{"DATA", false, 0}, {"MODEL_DATA", false, 1}};
  }
  someBaselines(r, c);
  return c;
}

}  // namespace vt
#endif
