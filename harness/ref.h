// Independent implementation of the Dysco file format 1.0 (header, bit stream,
// quantization levels, scale factors). Shares no code with /repo.
#ifndef VT_REF_H
#define VT_REF_H

#include <boost/math/distributions/normal.hpp>
#include <boost/math/distributions/students_t.hpp>

#include <algorithm>
#include <stdexcept>

#include "common.h"

namespace vt {

// Levels of the quantizer: 2^bits-1 values.
inline std::vector<double> refLevels(int dist, int bits, double nu, double trunc,
                                     double rms = 1.0) {
  const size_t n = (size_t(1) << bits) - 1;
  std::vector<double> lv(n);
  boost::math::normal_distribution<long double> nd(0.0L, 1.0L);
  const double c = (dist == 3) ? double(boost::math::cdf(nd, (long double)(-trunc))) : 0.0;
  for (size_t i = 0; i != n; ++i) {
    const long double q = (i + 0.5L) / n;
    if (i == n / 2) {
      lv[i] = 0.0;
    } else
      switch (dist) {
        case 0:
          lv[i] = double(std::sqrt(3.0L) * boost::math::quantile(nd, q));
          break;
        case 1:
          lv[i] = double(std::sqrt(3.0L) * (2.0L * q - 1.0L));
          break;
        case 2: {
          boost::math::students_t_distribution<double> td(nu);
          // use the lower tail for both sides: accurate and symmetric
          const double t = q < 0.5L ? double(q) : double(1.0L - q);
          const double v = boost::math::quantile(td, t);
          lv[i] = q < 0.5L ? v : -v;
          break;
        }
        default:
          lv[i] = double(boost::math::quantile(nd, q * (1.0L - 2.0L * c) + c));
      }
    lv[i] *= rms;
  }
  return lv;
}

inline const std::vector<double> &cachedLevels(int dist, int bits, double nu, double trunc) {
  static std::map<std::string, std::vector<double>> cache;
  const std::string key = strf("%d %d %.17g %.17g", dist, bits, dist == 2 ? nu : 0.0,
                               dist == 3 ? trunc : 0.0);
  auto it = cache.find(key);
  if (it == cache.end()) it = cache.emplace(key, refLevels(dist, bits, nu, trunc)).first;
  return it->second;
}

struct Stepper {
  // Largest level <= x (or the first) and smallest level >= x (or the last)
  static void bracket(const std::vector<double> &lv, double x, double slack, double &lo,
                      double &hi) {
    size_t i = std::upper_bound(lv.begin(), lv.end(), x - slack) - lv.begin();
    lo = lv[i == 0 ? 0 : i - 1];
    size_t j = std::lower_bound(lv.begin(), lv.end(), x + slack) - lv.begin();
    hi = lv[j == lv.size() ? lv.size() - 1 : j];
  }
};

struct RefHeader {
  uint32_t headerSize = 0, columnHeaderOffset = 0, columnCount = 0;
  std::string name;
  uint32_t rowsPerBlock = 0, antennaCount = 0, blockSize = 0;
  uint16_t major = 0, minor = 0;
  uint8_t dataBits = 0, weightBits = 0, distribution = 0, normalization = 0;
  double nu = 0, trunc = 0;
  struct Col {
    uint32_t size = 0, blockSize = 0, antennaCount = 0;
  };
  std::vector<Col> cols;
};

struct RefFile {
  std::vector<uint8_t> bytes;
  RefHeader h;
  size_t nBlocks = 0;

  static std::vector<uint8_t> slurp(const std::string &path) {
    std::vector<uint8_t> b;
    FILE *f = std::fopen(path.c_str(), "rb");
    if (!f) throw std::runtime_error("can not open " + path);
    uint8_t buf[65536];
    size_t n;
    while ((n = std::fread(buf, 1, sizeof buf, f)) > 0) b.insert(b.end(), buf, buf + n);
    std::fclose(f);
    return b;
  }
  template <typename T>
  T rd(size_t &pos) const {
    if (pos + sizeof(T) > bytes.size()) throw std::runtime_error("header is truncated");
    T v;
    std::memcpy(&v, &bytes[pos], sizeof(T));
    pos += sizeof(T);
    return v;
  }
  void parse() {
    size_t p = 0;
    h = RefHeader();
    h.headerSize = rd<uint32_t>(p);
    h.columnHeaderOffset = rd<uint32_t>(p);
    h.columnCount = rd<uint32_t>(p);
    const uint32_t len = rd<uint32_t>(p);
    if (p + len > bytes.size()) throw std::runtime_error("name is truncated");
    h.name.assign(bytes.begin() + p, bytes.begin() + p + len);
    p += len;
    h.rowsPerBlock = rd<uint32_t>(p);
    h.antennaCount = rd<uint32_t>(p);
    h.blockSize = rd<uint32_t>(p);
    h.major = rd<uint16_t>(p);
    h.minor = rd<uint16_t>(p);
    h.dataBits = rd<uint8_t>(p);
    h.weightBits = rd<uint8_t>(p);
    h.distribution = rd<uint8_t>(p);
    h.normalization = rd<uint8_t>(p);
    h.nu = rd<double>(p);
    h.trunc = rd<double>(p);
    if (p != h.columnHeaderOffset)
      throw std::runtime_error(strf("column header offset is %u, expected %zu",
                                    h.columnHeaderOffset, p));
    for (uint32_t i = 0; i != h.columnCount; ++i) {
      RefHeader::Col c;
      c.size = rd<uint32_t>(p);
      c.blockSize = rd<uint32_t>(p);
      c.antennaCount = rd<uint32_t>(p);
      h.cols.push_back(c);
    }
    // The header may be padded: the first block starts at headerSize
    if (p > h.headerSize)
      throw std::runtime_error(strf("header size is %u, but needs %zu", h.headerSize, p));
    nBlocks = h.blockSize == 0 || bytes.size() <= h.headerSize
                  ? 0
                  : (bytes.size() - h.headerSize + h.blockSize - 1) / h.blockSize;
  }
  void load(const std::string &path) {
    bytes = slurp(path);
    parse();
  }
};

// Layout of one column inside a block
struct RefLayout {
  bool isWeight = false;
  int nPol = 0, nChan = 0, bits = 0, norm = 0;
  size_t nRow = 0, nAnt = 0;
  size_t metaCount() const {
    if (isWeight) return 1;
    const size_t vis = size_t(nPol) * nChan;
    switch (norm) {
      case 0:
        return nPol * (nChan + nAnt);
      case 1:
        return vis + nPol * nRow;
      default:
        return nRow;
    }
  }
  size_t symbolsPerRow() const { return isWeight ? nChan : size_t(nChan) * nPol * 2; }
  size_t symbolCount() const { return symbolsPerRow() * nRow; }
  size_t bytes() const { return metaCount() * 4 + (symbolCount() * bits + 7) / 8; }
};

struct RefBlock {
  RefLayout lay;
  std::vector<float> meta;
  std::vector<uint32_t> sym;
  bool complete = true;  // false when the file ended before the end of this column
  void load(const RefFile &f, const RefLayout &l, size_t offset) {
    lay = l;
    std::vector<uint8_t> buf(l.bytes(), 0);
    complete = offset + buf.size() <= f.bytes.size();
    if (offset < f.bytes.size())
      std::memcpy(buf.data(), &f.bytes[offset], std::min(buf.size(), f.bytes.size() - offset));
    meta.resize(l.metaCount());
    std::memcpy(meta.data(), buf.data(), meta.size() * 4);
    const uint8_t *p = buf.data() + meta.size() * 4;
    sym.resize(l.symbolCount());
    size_t bit = 0;
    for (auto &s : sym) {
      uint32_t v = 0;
      for (int k = 0; k != l.bits; ++k, ++bit) v |= uint32_t((p[bit / 8] >> (bit % 8)) & 1) << k;
      s = v;
    }
  }
  // Scale factor of (row, channel, pol) for antennas a1,a2
  double factor(size_t row, size_t ch, size_t p, size_t a1, size_t a2) const {
    const size_t vis = size_t(lay.nPol) * lay.nChan;
    switch (lay.norm) {
      case 0:
        return double(meta[ch * lay.nPol + p]) * double(meta[vis + p * lay.nAnt + a1]) *
               double(meta[vis + p * lay.nAnt + a2]);
      case 1:
        return double(meta[ch * lay.nPol + p]) * double(meta[vis + row * lay.nPol + p]);
      default:
        return double(meta[row]);
    }
  }
  uint32_t symbol(size_t row, size_t ch, size_t p, int im) const {
    return sym[row * lay.symbolsPerRow() + (ch * lay.nPol + p) * 2 + im];
  }
  double weight(size_t row, size_t ch) const {
    return double(sym[row * lay.nChan + ch]) * (double(meta[0]) / double((1u << lay.bits) - 1));
  }
};

}  // namespace vt
#endif
