// Generation of configurations and visibility data.
#ifndef VT_GEN_H
#define VT_GEN_H

#include <limits>

#include "table.h"

namespace vt {

static const int kWidths[8] = {2, 3, 4, 6, 8, 10, 12, 16};

struct DataSpec {
  int regime = 0;  // see below
  double scale = 1.0;
  int nanMode = 0;
  int zeroMode = 0;
  std::string str() const {
    return strf("regime=%d scale=%g nan=%d zero=%d", regime, scale, nanMode, zeroMode);
  }
};
enum { kNRegimes = 8, kNNanModes = 9, kNZeroModes = 6 };

typedef std::vector<std::vector<cf>> BlockData;  // [row][ch*nPol+p]

inline BlockData genBlock(Rng &r, const Cfg &c, const DataSpec &d) {
  auto bl = c.baselines();
  const size_t vis = c.vis();
  std::vector<double> ag(c.nAnt, 1.0), cg(c.nChan, 1.0), pg(c.nPol, 1.0);
  if (d.regime == 1 || d.regime == 5)
    for (auto &g : ag) g = std::pow(10.0, r.uniform(-1.2, 1.2));
  if (d.regime == 7) {
    // One antenna is much weaker than the others. With AF normalization antennas that are
    // estimated to be 1e5 times weaker are dropped: the strength is kept away from that by more
    // than its estimate can be off.
    const bool many = c.nChan * (c.nAnt - 1) >= 30 && d.nanMode == 0 && d.zeroMode != 5;
    ag[r.below(c.nAnt)] = std::pow(10.0, -r.uniform(0.0, many ? 4.5 : 3.0));
  }
  if (d.regime == 2 || d.regime == 5)
    for (auto &g : cg) g = std::pow(10.0, r.uniform(-2, 2));
  if (d.regime == 5)
    for (auto &g : pg) g = std::pow(10.0, r.uniform(-2, 2));
  const cf base(float(r.uniform(0.1, 1) * (r.chance(0.5) ? 1 : -1)), 0);
  BlockData out(bl.size(), std::vector<cf>(vis));
  for (size_t row = 0; row != bl.size(); ++row) {
    const int a1 = bl[row].first, a2 = bl[row].second;
    for (int ch = 0; ch != c.nChan; ++ch)
      for (int p = 0; p != c.nPol; ++p) {
        double re = r.gauss(), im = r.gauss();
        switch (d.regime) {
          case 3:  // strong signal
            re = 5 + 0.1 * re;
            im = -3 + 0.1 * im;
            break;
          case 4:  // interference: few very strong samples
            if (r.chance(0.03)) {
              re *= 300;
              im *= 300;
            }
            break;
          case 6:  // a constant, real-valued signal
            re = base.real();
            im = 0;
            break;
        }
        double g = d.scale * ag[a1] * ag[a2] * cg[ch] * pg[p];
        if (a1 == a2) {
          re = std::fabs(re) * 8 + 2;
          im = 0;
        }
        out[row][ch * c.nPol + p] = cf(float(re * g), float(im * g));
      }
  }
  // zeros
  auto zeroRow = [&](size_t row) { std::fill(out[row].begin(), out[row].end(), cf(0, 0)); };
  switch (d.zeroMode) {
    case 1:
      zeroRow(r.below(bl.size()));
      break;
    case 2: {
      const int ch = r.below(c.nChan);
      for (auto &row : out)
        for (int p = 0; p != c.nPol; ++p) row[ch * c.nPol + p] = cf(0, 0);
    } break;
    case 3: {
      const int p = r.below(c.nPol);
      for (auto &row : out)
        for (int ch = 0; ch != c.nChan; ++ch) row[ch * c.nPol + p] = cf(0, 0);
    } break;
    case 4:
      for (size_t row = 0; row != out.size(); ++row) zeroRow(row);
      break;
    case 5:
      for (auto &row : out)
        for (auto &v : row)
          if (r.chance(0.3)) v = cf(0, 0);
      break;
  }
  // non-finite values
  const float nan = std::numeric_limits<float>::quiet_NaN();
  const float inf = std::numeric_limits<float>::infinity();
  const cf bad(nan, nan);
  switch (d.nanMode) {
    case 1:
      for (auto &row : out)
        for (auto &v : row)
          if (r.chance(0.1)) v = bad;
      break;
    case 2: {
      auto &row = out[r.below(out.size())];
      std::fill(row.begin(), row.end(), bad);
    } break;
    case 3: {
      const int ch = r.below(c.nChan);
      for (auto &row : out)
        for (int p = 0; p != c.nPol; ++p) row[ch * c.nPol + p] = bad;
    } break;
    case 4: {
      const int a = r.below(c.nAnt);
      for (size_t row = 0; row != out.size(); ++row)
        if (bl[row].first == a || bl[row].second == a)
          std::fill(out[row].begin(), out[row].end(), bad);
    } break;
    case 5:
      for (auto &row : out) std::fill(row.begin(), row.end(), bad);
      break;
    case 6:
      for (auto &row : out)
        for (auto &v : row)
          if (r.chance(0.85)) v = bad;
      break;
    case 7:  // mixture of all kinds of non-finite values
      for (auto &row : out)
        for (auto &v : row)
          if (r.chance(0.15)) {
            const float x[4] = {nan, inf, -inf, nan};
            v = cf(x[r.below(4)], x[r.below(4)]);
          }
      break;
    case 8:  // only one of the components is not finite
      for (auto &row : out)
        for (auto &v : row)
          if (r.chance(0.1)) {
            const float x[3] = {nan, inf, -inf};
            if (r.chance(0.5))
              v = cf(x[r.below(3)], v.imag());
            else
              v = cf(v.real(), x[r.below(3)]);
          }
      break;
  }
  return out;
}

typedef std::vector<std::vector<float>> BlockWeights;

// Names of managers: mostly short, sometimes long
inline void randomName(Rng &r, Cfg &c) {
  if (!r.chance(0.12)) return;
  static const int kLengths[] = {0, 60, 127, 128, 254, 255, 256, 300, 1000, 5000};
  c.prefix = std::string(size_t(kLengths[r.below(10)] + int(r.below(4))), char('a' + r.below(26)));
}

// The size of weights: ordinary, and to the limits of single precision
inline double weightScale(Rng &r, double decades) {
  const double u = r.uniform(0, 1);
  if (u < 0.1) return std::pow(10.0, r.uniform(-37, -30));
  if (u < 0.2) return std::pow(10.0, r.uniform(30, 36));
  return std::pow(10.0, r.uniform(-decades, decades));
}

inline BlockWeights genWeights(Rng &r, const Cfg &c, int kind, double scale) {
  BlockWeights out(c.rowsPerBlock(), std::vector<float>(c.vis()));
  for (auto &row : out)
    for (auto &w : row) {
      double v = 0;
      switch (kind) {
        case 0:
          v = r.uniform();
          break;
        case 1:
          v = 1.0;
          break;
        case 2:
          v = 0.0;
          break;
        case 3:
          v = r.chance(0.5) ? 0.0 : std::pow(10.0, r.uniform(-6, 2));
          break;
        case 4:
          v = double(r.below(16));
          break;
        default:
          v = 3.0 + 0.01 * r.uniform();
      }
      w = float(v * scale);
    }
  return out;
}

inline bool finite(const cf &v) { return std::isfinite(v.real()) && std::isfinite(v.imag()); }

}  // namespace vt
#endif
