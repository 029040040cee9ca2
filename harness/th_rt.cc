// Write - close - reopen - read round trips through the casacore table API.
#include "th.h"

namespace vt {

namespace {
typedef casacore::Complex Complex;

struct Stored {
  std::vector<BlockData> data;        // per block, for data columns
  std::vector<BlockWeights> weights;  // per block, for weight columns
};

struct Focus {
  bool nan = false, zero = false, weight = false;
};

Cfg makeCfg(uint64_t index, Rng &r, const std::string &prop) {
  Cfg c;
  c.dataBits = kWidths[index % 8];
  c.dist = (index / 8) % 4;
  c.norm = (index / 32) % 3;
  c.weightBits = kWidths[r.below(8)];
  if (prop == "C08") c.weightBits = kWidths[index % 8];
  c.nAnt = r.range(2, 7);
  c.autos = r.chance(0.4);
  c.nChan = r.range(1, 12);
  c.nPol = int(r.pick(std::vector<int>{1, 2, 2, 4, 4, 3}));
  if (r.chance(0.06)) {  // larger
    c.nAnt = r.range(10, 16);
    c.nChan = r.range(16, 40);
  }
  c.nBlocks = r.range(2, 6);
  c.nu = r.pick(std::vector<double>{0.7, 1.0, 2.0, 3.5, 5.0, 15.0});
  c.trunc = r.pick(std::vector<double>{1.0, 1.5, 2.0, 2.5, 3.0, 4.0});
  c.staticSeed = r.chance(0.1);
  c.viaSpec = r.chance(0.4);
  c.rowOrder = r.below(3);
  c.orderSeed = r.next();
  c.splitBy = r.below(4);
  const int kind = prop == "C08" ? int(r.range(1, 4)) : int(r.below(6));
  switch (kind) {
    case 0:
      c.cols = {{"DATA", false, 0}};
      break;
    case 1:
      c.cols = {{"DATA", false, 0}, {"WEIGHT_SPECTRUM", true, 0}};
      break;
    case 2:
      c.cols = {{"WEIGHT_SPECTRUM", true, 0}, {"DATA", false, 0}, {"MODEL_DATA", false, 0}};
      break;
    case 3:
      c.cols = {{"DATA", false, 0}, {"WEIGHT_SPECTRUM", true, 1}, {"CORRECTED_DATA", false, 1}};
      break;
    case 4:
      c.cols = {{"WEIGHT_SPECTRUM", true, 0}};
      if (prop != "C08") c.cols.push_back({"OTHER", false, 0});
      break;
    default:
      c.cols = {{"DATA", false, 0}};
  }
  randomName(r, c);
  someBaselines(r, c);
  return c;
}

DataSpec makeData(Rng &r, const std::string &prop) {
  DataSpec d;
  d.regime = r.below(kNRegimes);
  d.scale = r.chance(0.7) ? 1.0 : std::pow(10.0, r.uniform(-9, 9));
  if (r.chance(0.12)) d.scale = std::pow(10.0, r.uniform(-34, 29));
  if (prop == "C02") {
    d.nanMode = 1 + r.below(kNNanModes - 1);
    d.zeroMode = r.chance(0.3) ? r.below(kNZeroModes) : 0;
  } else if (prop == "C07") {
    d.nanMode = r.chance(0.2) ? 1 + r.below(7) : 0;
    d.zeroMode = r.chance(0.2) ? r.below(kNZeroModes) : 0;
  } else {
    d.nanMode = r.chance(0.3) ? r.below(kNNanModes) : 0;
    d.zeroMode = r.chance(0.3) ? r.below(kNZeroModes) : 0;
  }
  return d;
}

double comp(const cf &v, int im) { return im ? v.imag() : v.real(); }

void checkHeader(const Cfg &c, int manager, const RefFile &f, const std::vector<RefLayout> &ls) {
  const RefHeader &h = f.h;
  VT_CHECK(h.major == 1 && h.minor == 0, "C09:version", "file version is %d.%d", h.major, h.minor);
  VT_CHECK(h.name == dmName(c, manager), "C09:name", "name is %s", h.name.c_str());
  VT_CHECK(h.columnCount == ls.size(), "C09:columns", "column count %u, expected %zu",
           h.columnCount, ls.size());
  VT_CHECK(h.rowsPerBlock == c.rowsPerBlock(), "C09:rowsPerBlock", "rowsPerBlock %u, expected %zu",
           h.rowsPerBlock, c.rowsPerBlock());
  // Scale factors are per time block: they can not be right when the rows are
  // not divided into time blocks.
  VT_CHECK(h.rowsPerBlock == c.rowsPerBlock(), "C07:blocks",
           "time blocks have %zu rows, the file has blocks of %u", c.rowsPerBlock(),
           h.rowsPerBlock);
  VT_CHECK(h.antennaCount == uint32_t(c.nAnt), "C09:antennaCount", "antennaCount %u, expected %d",
           h.antennaCount, c.nAnt);
  size_t bs = 0;
  for (size_t i = 0; i != ls.size(); ++i) {
    bs += ls[i].bytes();
    if (i < h.cols.size()) {
      VT_CHECK(h.cols[i].size == 12, "C09:colHeaderSize", "column header size %u", h.cols[i].size);
      VT_CHECK(h.cols[i].blockSize == ls[i].bytes(), "C09:colBlockSize",
               "column %zu: block size %u, expected %zu", i, h.cols[i].blockSize, ls[i].bytes());
      VT_CHECK(h.cols[i].antennaCount == uint32_t(c.nAnt), "C09:colAntennae",
               "column %zu: antenna count %u", i, h.cols[i].antennaCount);
    }
  }
  VT_CHECK(h.blockSize == bs, "C09:blockSize", "block size %u, expected %zu", h.blockSize, bs);
  VT_CHECK(f.bytes.size() == h.headerSize + bs * c.nBlocks, "C09:fileSize",
           "file size %zu, expected %zu (header %u + %d blocks of %zu)", f.bytes.size(),
           h.headerSize + bs * c.nBlocks, h.headerSize, c.nBlocks, bs);
  VT_CHECK(h.dataBits == c.dataBits, "C10:dataBits", "data bits %d, expected %d", h.dataBits,
           c.dataBits);
  VT_CHECK(h.weightBits == c.weightBits, "C10:weightBits", "weight bits %d, expected %d",
           h.weightBits, c.weightBits);
  VT_CHECK(h.distribution == c.dist, "C10:distribution", "distribution %d, expected %d",
           h.distribution, c.dist);
  VT_CHECK(h.normalization == c.norm, "C10:normalization", "normalization %d, expected %d",
           h.normalization, c.norm);
  if (c.dist == kStudentT)
    VT_CHECK(h.nu == c.nu, "C10:nu", "nu %g, expected %g", h.nu, c.nu);
  if (c.dist == kTrunc)
    VT_CHECK(h.trunc == c.trunc, "C10:trunc", "truncation %g, expected %g", h.trunc, c.trunc);
}

// What was stored for one block of a data column, against what was written.
void checkBlock(const Cfg &c, const DataSpec &ds, const RefBlock &rb, const BlockData &in,
                const BlockData &out, size_t block, const char *col) {
  const std::vector<double> &lv = cachedLevels(c.dist, c.dataBits, c.nu, c.trunc);
  const double maxLevel = lv.back();
  const uint32_t nanSym = uint32_t(lv.size());
  auto bl = c.baselines();
  const bool mixed = ds.nanMode == 7 || ds.nanMode == 8;
  std::vector<double> reachRowPol(bl.size() * c.nPol, -1), reachChPol(c.vis(), -1),
      reachRow(bl.size(), -1);
  for (size_t row = 0; row != bl.size(); ++row) {
    const bool skip = c.norm == kAF && !isCross(bl[row]);
    std::vector<double> rowPolMax(c.nPol, 0.0);
    double rowMax = 0;
    for (int ch = 0; ch != c.nChan; ++ch)
      for (int p = 0; p != c.nPol; ++p)
        for (int im = 0; im != 2; ++im) {
          const double v = comp(in[row][ch * c.nPol + p], im);
          if (std::isfinite(v)) {
            rowPolMax[p] = std::max(rowPolMax[p], std::fabs(v));
            rowMax = std::max(rowMax, std::fabs(v));
          }
        }
    for (int ch = 0; ch != c.nChan; ++ch)
      for (int p = 0; p != c.nPol; ++p) {
        const cf vin = in[row][ch * c.nPol + p], vout = out[row][ch * c.nPol + p];
        const double F = rb.factor(row, ch, p, bl[row].first, bl[row].second);
        const bool fin = finite(vin);
        for (int im = 0; im != 2; ++im) {
          const double v = comp(vin, im), o = comp(vout, im);
          const uint32_t s = rb.symbol(row, ch, p, im);
          // -- the reader against the independent decoder (format)
          if (s == nanSym) {
            VT_CHECK(std::isnan(o), "C09:decodeNaN",
                     "%s block %zu row %zu ch %d pol %d im %d: symbol is reserved, read %g", col,
                     block, row, ch, p, im, o);
          } else {
            const double e = lv[s] * F;
            if (std::isfinite(e)) {
              const double tol = 2e-5 * std::fabs(e) + 1e-7 * std::fabs(F) * maxLevel + 1e-37;
              VT_CHECK(std::fabs(e - o) <= tol, "C09:decode",
                       "%s block %zu row %zu ch %d pol %d im %d: the file holds %.9g (symbol %u), "
                       "read %.9g",
                       col, block, row, ch, p, im, e, s, o);
            }
          }
          // -- non-finite values
          if (!std::isfinite(v)) {
            VT_CHECK(std::isnan(o), "C02:lostNaN",
                     "%s block %zu row %zu ch %d pol %d im %d: wrote %g, read %g", col, block, row,
                     ch, p, im, v, o);
            continue;
          }
          // AF normalization does not preserve auto-correlations
          if (!fin || skip) continue;
          VT_CHECK(std::isfinite(o), "C02:madeNaN",
                   "%s block %zu row %zu ch %d pol %d im %d: wrote %g, read %g", col, block, row,
                   ch, p, im, v, o);
          // -- fidelity
          if (v == 0.0) {
            VT_CHECK(o == 0.0, "C01:zero",
                     "%s block %zu row %zu ch %d pol %d im %d: wrote 0, read %g", col, block, row,
                     ch, p, im, o);
          } else if (!(F > 0.0) || !std::isfinite(F)) {
            VT_CHECK(false, "C01:scale",
                     "%s block %zu row %zu ch %d pol %d: wrote %g but its scale is %g, read %g",
                     col, block, row, ch, p, v, F, o);
          } else {
            const double x = v / F, y = o / F;
            double lo, hi;
            const double slack = 1e-4 * std::fabs(x) + 1e-6 * maxLevel;
            Stepper::bracket(lv, x, slack, lo, hi);
            const double tol = 2e-5 * maxLevel;
            const bool ok = y >= lo - tol && y <= hi + tol && std::fabs(x) <= maxLevel * 1.001;
            VT_CHECK(ok, "C01:step",
                     "%s block %zu row %zu ch %d pol %d im %d: wrote %.9g, read %.9g; scaled "
                     "%.9g -> %.9g is not within one step [%.9g, %.9g]",
                     col, block, row, ch, p, im, v, o, x, y, lo, hi);
            if (mixed) {
            } else if (c.norm == kRF)
              VT_CHECK(F * maxLevel <= rowPolMax[p] * (1 + 2e-4), "C01:coarse",
                       "%s block %zu row %zu ch %d pol %d: full scale %g exceeds the row maximum "
                       "%g",
                       col, block, row, ch, p, F * maxLevel, rowPolMax[p]);
            else if (c.norm == kRow)
              VT_CHECK(F * maxLevel <= rowMax * (1 + 2e-4), "C01:coarse",
                       "%s block %zu row %zu: full scale %g exceeds the row maximum %g", col, block,
                       row, F * maxLevel, rowMax);
          }
          // -- utilisation of the range
          if (v != 0.0 && F > 0.0 && std::isfinite(F)) {
            const double t = std::fabs(v) / F / maxLevel;
            VT_CHECK(t <= 1 + 1e-3, "C07:clipped",
                     "%s block %zu row %zu ch %d pol %d im %d: %g is outside of the range (%g)",
                     col, block, row, ch, p, im, v, F * maxLevel);
            auto up = [&](double &m) { m = std::max(m, t); };
            up(reachRowPol[row * c.nPol + p]);
            up(reachChPol[ch * c.nPol + p]);
            up(reachRow[row]);
          }
        }
      }
  }
  if (mixed) return;
  auto reach = [&](double t, const char *what, size_t i) {
    if (t >= 0)
      VT_CHECK(t >= 1 - 1e-3, "C07:unused", "%s block %zu: the %s %zu only uses %g of the range",
               col, block, what, i, t);
  };
  if (c.norm == kRow)
    for (size_t i = 0; i != reachRow.size(); ++i) reach(reachRow[i], "row", i);
  else
    for (size_t i = 0; i != reachChPol.size(); ++i) reach(reachChPol[i], "channel/pol", i);
  if (c.norm == kRF)
    for (size_t i = 0; i != reachRowPol.size(); ++i) reach(reachRowPol[i], "row/pol", i);
}

void checkWeightBlock(const Cfg &c, const RefBlock &rb, const BlockWeights &in,
                      const BlockWeights &out, size_t block) {
  double maxW = 0;
  const size_t nRow = in.size();
  std::vector<double> mins(nRow * c.nChan);
  for (size_t row = 0; row != nRow; ++row)
    for (int ch = 0; ch != c.nChan; ++ch) {
      double m = in[row][ch * c.nPol];
      for (int p = 1; p != c.nPol; ++p) m = std::min(m, double(in[row][ch * c.nPol + p]));
      mins[row * c.nChan + ch] = m;
      maxW = std::max(maxW, m);
    }
  const double step = maxW / double((1u << c.weightBits) - 1);
  std::vector<std::pair<double, double>> sorted;
  for (size_t row = 0; row != nRow; ++row)
    for (int ch = 0; ch != c.nChan; ++ch) {
      const double m = mins[row * c.nChan + ch], o = out[row][ch * c.nPol];
      for (int p = 1; p != c.nPol; ++p)
        VT_CHECK(out[row][ch * c.nPol + p] == float(o), "C08:pol",
                 "block %zu row %zu ch %d: pol %d has weight %g, pol 0 has %g", block, row, ch, p,
                 out[row][ch * c.nPol + p], o);
      VT_CHECK(std::isfinite(o) && o >= 0, "C08:negative", "block %zu row %zu ch %d: weight %g",
               block, row, ch, o);
      VT_CHECK(std::fabs(o - m) <= step * 0.5 * (1 + 1e-3) + 2e-6 * maxW + 3e-45, "C08:bound",
               "block %zu row %zu ch %d: wrote %.9g (minimum over pols), read %.9g, step %.9g",
               block, row, ch, m, o, step);
      if (m == 0) VT_CHECK(o == 0, "C08:zero", "block %zu row %zu ch %d: 0 became %g", block, row, ch, o);
      if (m == maxW)
        VT_CHECK(std::fabs(o - m) <= 2e-6 * maxW + 3e-45, "C08:max", "block %zu: the maximum %g became %g",
                 block, m, o);
      const double e = rb.weight(row, ch);
      VT_CHECK(std::fabs(o - e) <= 2e-6 * std::max(maxW, std::fabs(e)) + 3e-45,
               "C09:decodeWeight",
               "block %zu row %zu ch %d: the file holds %.9g, read %.9g", block, row, ch, e, o);
      sorted.emplace_back(m, o);
    }
  std::sort(sorted.begin(), sorted.end());
  for (size_t i = 1; i < sorted.size(); ++i)
    VT_CHECK(sorted[i].second >= sorted[i - 1].second, "C08:order",
             "block %zu: weights %g <= %g became %g > %g", block, sorted[i - 1].first,
             sorted[i].first, sorted[i - 1].second, sorted[i].second);
}

}  // namespace

void modeRt(uint64_t index, Rng &r) {
  const std::string prop = gArgs.prop;
  Cfg c = makeCfg(index, r, prop);
  DataSpec ds = makeData(r, prop);
  const int wKind = r.below(6);
  const double wScale = weightScale(r, 6);
  gRep.begin(index, c.str() + " " + ds.str() + strf(" wkind=%d", wKind));
  const std::string path = gArgs.dir + "/rt.tab";
  rmTree(path);
  std::map<std::string, Stored> stored;
  for (const ColCfg &col : c.cols)
    for (int b = 0; b != c.nBlocks; ++b) {
      if (col.isWeight)
        stored[col.name].weights.push_back(
            genWeights(r, c, b == 0 ? wKind : int(r.below(6)), wScale));
      else {
        DataSpec d2 = ds;
        if (b && r.chance(0.3)) d2.regime = r.below(kNRegimes);
        stored[col.name].data.push_back(genBlock(r, c, d2));
      }
    }
  const size_t rpb = c.rowsPerBlock();
  {
    casacore::Table t = createTable(path, c, c.nRows());
    // Columns are interleaved in different ways
    const int inter = r.below(3);
    auto put = [&](const ColCfg &col, size_t row) {
      if (col.isWeight)
        putRow<float>(t, c, col.name, row, stored[col.name].weights[row / rpb][row % rpb]);
      else
        putRow<Complex>(t, c, col.name, row, stored[col.name].data[row / rpb][row % rpb]);
    };
    if (inter == 0)
      for (size_t row = 0; row != c.nRows(); ++row)
        for (auto &col : c.cols) put(col, row);
    else if (inter == 1)
      for (auto &col : c.cols)
        for (size_t row = 0; row != c.nRows(); ++row) put(col, row);
    else
      for (size_t b = 0; b != size_t(c.nBlocks); ++b)
        for (auto &col : c.cols)
          for (size_t row = b * rpb; row != (b + 1) * rpb; ++row) put(col, row);
  }
  // Read it back
  std::map<std::string, std::vector<BlockData>> outData;
  std::map<std::string, std::vector<BlockWeights>> outWeights;
  {
    casacore::Table t(path);
    VT_CHECK(t.nrow() == c.nRows(), "C01:rows", "table has %zu rows, expected %zu",
             size_t(t.nrow()), c.nRows());
    std::vector<size_t> rows(c.nRows());
    for (size_t i = 0; i != rows.size(); ++i) rows[i] = i;
    if (r.chance(0.5)) r.shuffle(rows);
    for (auto &col : c.cols) {
      outData[col.name].assign(c.nBlocks, BlockData(rpb));
      outWeights[col.name].assign(c.nBlocks, BlockWeights(rpb));
      for (size_t row : rows) {
        if (col.isWeight)
          outWeights[col.name][row / rpb][row % rpb] = getRow<float>(t, col.name, row);
        else
          outData[col.name][row / rpb][row % rpb] = getRow<Complex>(t, col.name, row);
      }
    }
  }
  for (int m = 0; m != 2; ++m) {
    const std::vector<std::string> names = managerCols(c, m);
    if (names.empty()) continue;
    const std::string file = dyscoFile(path, dmName(c, m));
    if (file.empty()) {
      gRep.fail("C09:noFile", "no Dysco file for manager %d", m);
      continue;
    }
    RefFile f;
    try {
      f.load(file);
    } catch (std::exception &e) {
      gRep.fail("C09:header", "%s", e.what());
      continue;
    }
    // The settings are also known from the configuration. If the header
    // does not agree with it (reported), interpret the file by its layout.
    std::vector<RefLayout> ls = layouts(c, m, f);
    for (auto &l : ls) {
      l.bits = l.isWeight ? c.weightBits : c.dataBits;
      l.norm = c.norm;
      l.nRow = rpb;
      l.nAnt = c.nAnt;
    }
    checkHeader(c, m, f, ls);
    f.h.blockSize = 0;
    for (auto &l : ls) f.h.blockSize += l.bytes();
    size_t k = 0;
    for (const ColCfg &col : c.cols) {
      if (col.manager != m) continue;
      for (int b = 0; b != c.nBlocks; ++b) {
        RefBlock rb = refBlock(f, ls, k, b);
        if (col.isWeight)
          checkWeightBlock(c, rb, stored[col.name].weights[b], outWeights[col.name][b], b);
        else
          checkBlock(c, ds, rb, stored[col.name].data[b], outData[col.name][b], b,
                     col.name.c_str());
        gRep.stat("blocks", 1);
      }
      ++k;
    }
  }
  gRep.stat("rows", c.nRows() * c.cols.size());
  gRep.stat("samples", c.nRows() * c.vis() * c.cols.size());
  if (index % 40 == 0) gRep.sample(c.str() + " " + ds.str());
  rmTree(path);
  gRep.end();
}

}  // namespace vt
