// Monitors of the codec classes: quantizer, dithering, dictionaries, bit
// packing, block encoders and the containers they are built on. Only the
// interface that the repository's own tests use is used here.
#include "gen.h"
#include "ref.h"
#include "th.h"

#include <algorithm>
#include <list>
#include <random>
#include <sstream>

#include "aftimeblockencoder.h"
#include "bytepacker.h"
#include "rftimeblockencoder.h"
#include "rowtimeblockencoder.h"
#include "stochasticencoder.h"
#include "weightblockencoder.h"
#include "weightencoder.h"

namespace vt {
Args gArgs;
Report gRep;
namespace {

typedef dyscostman::StochasticEncoder<float> Enc;
using dyscostman::BytePacker;
using dyscostman::Dictionary;

struct EncCfg {
  int dist = 0, bits = 8;
  double nu = 5, trunc = 2.5, rms = 1.0;
  std::string str() const {
    return strf("dist=%s bits=%d nu=%g trunc=%g rms=%g", kDistNames[dist], bits, nu, trunc, rms);
  }
};

Enc makeEnc(const EncCfg &c) {
  const size_t n = size_t(1) << c.bits;
  switch (c.dist) {
    case kGaussian:
      return Enc(n, float(c.rms), true);
    case kUniform:
      return Enc(n, float(c.rms), false);
    case kStudentT:
      return Enc::StudentTEncoder(n, c.nu, c.rms);
    default:
      return Enc::TruncatedGausEncoder(n, c.trunc, c.rms);
  }
}

std::shared_ptr<Enc> cachedEnc(const EncCfg &c) {
  static std::map<std::string, std::shared_ptr<Enc>> cache;
  auto &e = cache[c.str()];
  if (!e) e = std::make_shared<Enc>(makeEnc(c));
  if (cache.size() > 60) {
    auto keep = e;
    cache.clear();
    return keep;
  }
  return e;
}

EncCfg pickEnc(uint64_t index, Rng &r) {
  EncCfg c;
  c.bits = kWidths[index % 8];
  c.dist = (index / 8) % 4;
  c.nu = r.pick(std::vector<double>{0.6, 0.75, 1.0, 1.5, 2.0, 3.0, 5.0, 10.0, 30.0});
  c.trunc = r.pick(std::vector<double>{0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 4.0, 5.0});
  if (r.chance(0.3)) c.nu = std::floor(r.uniform(1.0, 40.0) * 8) / 8;
  if (r.chance(0.04)) c.nu = r.pick(std::vector<double>{0.3, 0.56, 0.65, 0.7, 0.8, 0.95, 1e3, 1e12, 1e16, 3e20});
  if (r.chance(0.3)) c.trunc = std::floor(r.uniform(0.3, 5.5) * 16) / 16;
  return c;
}

const float kInf = std::numeric_limits<float>::infinity();
const float kNaN = std::numeric_limits<float>::quiet_NaN();
const float kMax = std::numeric_limits<float>::max();

// A value that is interesting for an encoder
float anyValue(Rng &r, const Enc &e) {
  const size_t n = e.QuantizationCount() - 1;
  const size_t k = r.below(n);
  float v;
  switch (r.below(9)) {
    case 0:
      v = e.Decode(k);
      break;
    case 1:
      v = e.RightBoundary(k);
      break;
    case 2:
      v = float(r.uniform(-1.2, 1.2) * e.MaxQuantity());
      break;
    case 3:
      v = float(r.gauss() * e.MaxQuantity() * 0.3);
      break;
    case 4:
      v = float(std::pow(10.0, r.uniform(-44, 38)) * (r.chance(0.5) ? 1 : -1));
      break;
    case 5: {
      const float sp[] = {0.0f, -0.0f, kMax, -kMax, 1e-45f, -1e-45f, 1.17549435e-38f};
      v = sp[r.below(7)];
    } break;
    case 6:
      v = k + 1 < n ? float((double(e.Decode(k)) + double(e.Decode(k + 1))) / 2) : e.Decode(k);
      break;
    case 7:
      v = r.chance(0.5) ? e.MaxQuantity() : e.MinQuantity();
      break;
    default:
      v = float(double(e.Decode(k)) * (1 + r.gauss() * 0.01));
  }
  if (r.chance(0.3)) v = std::nextafterf(v, r.chance(0.5) ? kInf : -kInf);
  if (!std::isfinite(v)) v = kMax;
  return v;
}

// ---------------------------------------------------------------- C03
void modeQuant(uint64_t index, Rng &r) {
  EncCfg c = pickEnc(index, r);
  c.rms = r.chance(0.7) ? 1.0 : std::pow(10.0, r.uniform(-3, 3));
  gRep.begin(index, c.str());
  auto ep = cachedEnc(c);
  const Enc &e = *ep;
  const unsigned n = unsigned(e.QuantizationCount() - 1);
  VT_CHECK(n == (1u << c.bits) - 1, "C03:count", "%u quantities for %d bits", n, c.bits);
  std::vector<float> lv(n);
  for (unsigned s = 0; s != n; ++s) lv[s] = e.Decode(s);
  // Every level is coded as itself (all levels up to 12 bits, a sample of 16 bits)
  const unsigned step = n > 4096 ? 1 + r.below(16) : 1;
  const unsigned mask31 = 0x7fffffffu;
  for (unsigned s = 0; s < n; s += step) {
    VT_CHECK(e.Encode(lv[s]) == s, "C03:idempotent", "level %u (%.9g) is encoded as %u", s, lv[s],
             e.Encode(lv[s]));
    const unsigned ds[4] = {0, mask31, unsigned(r.next()) & mask31, 1u << 30};
    for (unsigned d : ds)
      VT_CHECK(e.EncodeWithDithering(lv[s], d) == s, "C03:ditherExact",
               "level %u (%.9g) with dither %u is encoded as %u", s, lv[s], d,
               e.EncodeWithDithering(lv[s], d));
    if (s + 1 < n) {
      const float b = e.RightBoundary(s);
      VT_CHECK(lv[s] < b && b < lv[s + 1], "C03:boundary",
               "the boundary %.9g is not between levels %u (%.9g) and %.9g", b, s, lv[s],
               lv[s + 1]);
      VT_CHECK(e.Encode(std::nextafterf(b, -kInf)) == s, "C03:leftOfBoundary",
               "left of boundary %u (%.9g) is encoded as %u", s, b,
               e.Encode(std::nextafterf(b, -kInf)));
      VT_CHECK(e.Encode(std::nextafterf(b, kInf)) == s + 1, "C03:rightOfBoundary",
               "right of boundary %u (%.9g) is encoded as %u", s, b,
               e.Encode(std::nextafterf(b, kInf)));
    }
  }
  // Random values
  std::vector<float> vs;
  const size_t count = 3000;
  for (size_t i = 0; i != count; ++i) vs.push_back(anyValue(r, e));
  std::sort(vs.begin(), vs.end());
  const unsigned dFix = unsigned(r.next()) & mask31;
  unsigned prev = 0, prevD = 0;
  for (float v : vs) {
    const unsigned s = e.Encode(v);
    VT_CHECK(s < n, "C03:range", "%.9g is encoded as %u", v, s);
    if (s >= n) continue;
    VT_CHECK(s >= prev, "C03:monotone", "%.9g is encoded as %u, a lower value as %u", v, s, prev);
    prev = s;
    if (v >= lv[n - 1])
      VT_CHECK(s == n - 1, "C03:clip", "%.9g > max is encoded as %u", v, s);
    if (v <= lv[0]) VT_CHECK(s == 0, "C03:clip", "%.9g < min is encoded as %u", v, s);
    // the bracketing levels
    const unsigned hi = unsigned(std::lower_bound(lv.begin(), lv.end(), v) - lv.begin());
    const unsigned up = hi == n ? n - 1 : hi;
    const unsigned lo = hi == n ? n - 1 : (lv[hi] == v ? hi : (hi == 0 ? 0 : hi - 1));
    VT_CHECK(s == lo || s == up, "C03:neighbour", "%.9g is encoded as %u (%.9g), not as %u or %u",
             v, s, lv[s], lo, up);
    const unsigned ds[5] = {0, mask31, unsigned(r.next()) & mask31, unsigned(r.next()) & mask31,
                            dFix};
    for (int k = 0; k != 5; ++k) {
      const unsigned sd = e.EncodeWithDithering(v, ds[k]);
      VT_CHECK(sd == lo || sd == up, "C03:ditherNeighbour",
               "%.9g with dither %u is encoded as %u, not as %u or %u", v, ds[k], sd, lo, up);
      if (k == 4) {
        VT_CHECK(sd >= prevD, "C03:ditherMonotone",
                 "%.9g with dither %u is encoded as %u, a lower value as %u", v, dFix, sd, prevD);
        prevD = sd;
      }
    }
  }
  for (float v : {kNaN, kInf, -kInf, -kNaN}) {
    VT_CHECK(e.Encode(v) == n, "C03:nonFinite", "%g is encoded as %u", v, e.Encode(v));
    for (unsigned d : {0u, mask31, unsigned(r.next()) & mask31})
      VT_CHECK(e.EncodeWithDithering(v, d) == n, "C03:ditherNonFinite",
               "%g with dither %u is encoded as %u", v, d, e.EncodeWithDithering(v, d));
  }
  VT_CHECK(std::isnan(e.Decode(n)), "C03:reserved", "the reserved symbol is decoded as %g",
           e.Decode(n));
  // The encoder can be copied and moved around (values are held by value)
  {
    Enc copy(e);
    Enc other = makeEnc(EncCfg());
    other = copy;
    for (int k = 0; k != 200; ++k) {
      const float v = vs[r.below(vs.size())];
      VT_CHECK(copy.Encode(v) == e.Encode(v) && other.Encode(v) == e.Encode(v) &&
                   other.EncodeWithDithering(v, dFix) == e.EncodeWithDithering(v, dFix),
               "C03:copy", "a copy of the encoder encodes %.9g differently", v);
    }
    VT_CHECK(std::isnan(copy.Decode(n)) && std::isnan(other.Decode(n)), "C03:copyReserved",
             "a copy of the encoder decodes the reserved symbol as %g, %g", copy.Decode(n),
             other.Decode(n));
    VT_CHECK(other.QuantizationCount() == e.QuantizationCount() &&
                 other.MaxQuantity() == e.MaxQuantity() && other.MinQuantity() == e.MinQuantity(),
             "C03:copy", "a copy of the encoder has other limits");
  }
  gRep.stat("values", vs.size() * 6 + n / step * 7);
  if (index % 40 == 0) gRep.sample(c.str());
  gRep.end();
}

// ---------------------------------------------------------------- C04
void modeThresh(uint64_t index, Rng &r) {
  EncCfg c = pickEnc(index, r);
  gRep.begin(index, c.str());
  auto ep = cachedEnc(c);
  const Enc &e = *ep;
  const unsigned n = unsigned(e.QuantizationCount() - 1);
  auto dist = Enc::GetDitherDistribution();
  const unsigned dMin = dist.min(), dMax = dist.max();
  const double total = double(dMax) - double(dMin) + 1;
  VT_CHECK(total >= 1e6, "C04:resolution", "only %g dither values", total);
  std::mt19937 rnd(unsigned(r.next()));
  double worst = 0;
  for (int t = 0; t != 400; ++t) {
    const unsigned k = unsigned(r.below(n - 1));
    const float l = e.Decode(k), h = e.Decode(k + 1);
    double f = r.uniform();
    if (r.chance(0.2)) f = std::pow(10.0, r.uniform(-6, -1));
    if (r.chance(0.2)) f = 1 - std::pow(10.0, r.uniform(-6, -1));
    const float v = float(double(l) + f * (double(h) - double(l)));
    if (!(v > l && v < h)) continue;
    const double want = (double(v) - double(l)) / (double(h) - double(l));
    auto up = [&](unsigned d) { return e.EncodeWithDithering(v, d) == k + 1; };
    const bool a = up(dMin), b = up(dMax);
    double frac;
    uint64_t sw = 0;  // first dither value with the outcome of the highest
    if (a == b) {
      frac = a ? 1.0 : 0.0;
      sw = a ? uint64_t(dMax) + 1 : dMin;
    } else {
      uint64_t lo = dMin, hi = dMax;  // up(lo)==a, up(hi)==b
      while (hi - lo > 1) {
        const uint64_t m = (lo + hi) / 2;
        if (up(unsigned(m)) == a)
          lo = m;
        else
          hi = m;
      }
      sw = hi;
      const double cnt = double(hi) - double(dMin);  // dithers with outcome a
      frac = a ? cnt / total : 1.0 - cnt / total;
    }
    // the outcome is a threshold on the dither value
    for (int q = 0; q != 24; ++q) {
      const unsigned d = dist(rnd);
      const bool ex = a == b ? a : (d < sw ? a : b);
      VT_CHECK(up(d) == ex, "C04:threshold",
               "%.9g between %.9g and %.9g: dither %u does not agree with the threshold %llu", v, l,
               h, d, (unsigned long long)sw);
    }
    worst = std::max(worst, std::fabs(frac - want));
    VT_CHECK(std::fabs(frac - want) <= 1e-6, "C04:bias",
             "%.9g lies at %.9g of the step from %.9g to %.9g, but is rounded up for a fraction "
             "%.9g of the dither values",
             v, want, l, h, frac);
    gRep.stat("thresholds", 1);
  }
  // The dither values are uniform
  std::vector<int> hist(16, 0);
  const int N = 16000;
  for (int i = 0; i != N; ++i) {
    const double u = (double(dist(rnd)) - dMin) / total;
    hist[std::min(15, int(u * 16))]++;
  }
  double chi = 0;
  for (int h : hist) chi += (h - N / 16.0) * (h - N / 16.0) / (N / 16.0);
  VT_CHECK(chi < 100, "C04:uniform", "the dither values are not uniform: chi2=%g for 15 dof", chi);
  if (index % 32 == 0) gRep.sample(c.str() + strf(" largest deviation %.3g", worst));
  gRep.end();
}

// ---------------------------------------------------------------- C05
void modeDict(uint64_t index, Rng &r) {
  EncCfg c = pickEnc(index, r);
  if (index >= 32) {
    c.nu = std::floor(r.uniform(1.0, 60.0) * 16) / 16;
    if (r.chance(0.3)) c.nu = std::floor(r.uniform(0.25, 1.0) * 64) / 64;
    if (r.chance(0.1)) c.nu = std::exp(r.uniform(4.0, 50.0));
    c.trunc = std::floor(r.uniform(0.25, 5.8) * 64) / 64;
  }
  c.rms = r.chance(0.6) ? 1.0 : std::pow(10.0, r.uniform(-4, 4));
  gRep.begin(index, c.str());
  const Enc e = makeEnc(c);
  const size_t n = (size_t(1) << c.bits) - 1;
  VT_CHECK(e.QuantizationCount() == n + 1, "C05:count", "%zu quantities", e.QuantizationCount());
  const std::vector<double> ref = refLevels(c.dist, c.bits, c.nu, c.trunc, c.rms);
  std::vector<float> lv(n);
  for (size_t i = 0; i != n; ++i) lv[i] = e.Decode(unsigned(i));
  double worst = 0;
  for (size_t i = 0; i != n; ++i) {
    VT_CHECK(std::isfinite(lv[i]), "C05:finite", "level %zu is %g", i, lv[i]);
    if (i) VT_CHECK(lv[i] > lv[i - 1], "C05:increasing", "level %zu (%.9g) <= level %zu (%.9g)", i,
                    lv[i], i - 1, lv[i - 1]);
    VT_CHECK(std::fabs(double(lv[i]) + double(lv[n - 1 - i])) <=
                 1e-6 * std::fabs(lv[i]) + 1e-9 * c.rms,
             "C05:symmetric", "level %zu is %.9g, level %zu is %.9g", i, lv[i], n - 1 - i,
             lv[n - 1 - i]);
    const double tol = 1e-6 * std::fabs(ref[i]) + 2e-9 * c.rms;
    worst = std::max(worst, std::fabs(lv[i] - ref[i]) / tol);
    VT_CHECK(std::fabs(lv[i] - ref[i]) <= tol, "C05:reference",
             "level %zu is %.9g, the quantile of the distribution is %.9g", i, lv[i], ref[i]);
  }
  VT_CHECK(e.MaxQuantity() == lv[n - 1] && e.MinQuantity() == lv[0], "C05:limits",
           "limits %.9g, %.9g", e.MinQuantity(), e.MaxQuantity());
  VT_CHECK(lv[n / 2] == 0, "C05:zero", "the centre level is %.9g", lv[n / 2]);
  // A second encoder has the same levels
  const Enc e2 = makeEnc(c);
  for (size_t i = 0; i < n; i += 1 + r.below(7))
    VT_CHECK(e2.Decode(unsigned(i)) == lv[i], "C05:deterministic", "level %zu is %.9g or %.9g", i,
             lv[i], e2.Decode(unsigned(i)));
  VT_CHECK(std::isnan(e.Decode(unsigned(n))), "C05:reserved", "reserved symbol is %g",
           e.Decode(unsigned(n)));
  gRep.stat("levels", n);
  if (index % 17 == 0) gRep.sample(c.str() + strf(" worst deviation/tolerance %.3g", worst));
  gRep.end();
}

// ---------------------------------------------------------------- C06
void modePack(uint64_t index, Rng &r) {
  const int bits = kWidths[index % 8];
  gRep.begin(index, strf("bits=%d case=%llu", bits, (unsigned long long)(index / 8)));
  auto one = [&](size_t n, int pattern) {
    std::vector<unsigned> in(n);
    const unsigned mask = (1u << bits) - 1;
    for (size_t i = 0; i != n; ++i) switch (pattern) {
        case 0:
          in[i] = unsigned(r.next()) & mask;
          break;
        case 1:
          in[i] = mask;
          break;
        case 2:
          in[i] = 0;
          break;
        case 3:
          in[i] = unsigned(i) & mask;
          break;
        default:
          in[i] = 0;
      }
    if (pattern == 4 && n) in[r.below(n)] = 1u << r.below(bits);
    const std::vector<unsigned> inCopy = in;
    const size_t size = BytePacker::bufferSize(n, bits);
    VT_CHECK(size == (n * bits + 7) / 8, "C06:size", "%zu symbols of %d bits: %zu bytes", n, bits,
             size);
    // buffers of exactly the right size, so that ASan sees overruns; in the
    // plain build, the guard bytes behind the buffer are checked.
    const size_t guard = gArgs.tier == 2 ? 0 : 16;
    const unsigned char fill = r.chance(0.5) ? 0xff : 0x00;
    std::unique_ptr<unsigned char[]> exact(new unsigned char[size ? size : 1]);
    std::vector<unsigned char> packed(size + guard, fill);
    std::memset(exact.get(), fill, size);
    BytePacker::pack(bits, packed.data(), in.data(), n);
    BytePacker::pack(bits, exact.get(), in.data(), n);
    VT_CHECK(std::memcmp(exact.get(), packed.data(), size) == 0, "C06:deterministic",
             "%zu symbols of %d bits are packed in two ways", n, bits);
    for (size_t i = size; i != packed.size(); ++i)
      VT_CHECK(packed[i] == fill, "C06:overrun", "%zu symbols of %d bits: byte %zu past the end",
               n, bits, i - size);
    VT_CHECK(in == inCopy, "C06:inputChanged", "packing changes its input");
    // reference: least significant bit first
    std::vector<unsigned char> ref(size, 0);
    size_t bit = 0;
    for (unsigned v : in)
      for (int k = 0; k != bits; ++k, ++bit)
        if ((v >> k) & 1) ref[bit / 8] |= 1u << (bit % 8);
    // padding bits in the last byte are unspecified
    for (size_t i = 0; i != size; ++i) {
      unsigned m = 0xff;
      if (i + 1 == size && (n * bits) % 8) m = (1u << ((n * bits) % 8)) - 1;
      VT_CHECK((packed[i] & m) == (ref[i] & m), "C06:layout",
               "%zu symbols of %d bits, pattern %d: byte %zu is %02x, expected %02x", n, bits,
               pattern, i, packed[i], ref[i]);
    }
    std::unique_ptr<unsigned[]> outExact(new unsigned[n ? n : 1]);
    std::vector<unsigned> out(n + 4, 0xdeadbeef);
    BytePacker::unpack(bits, out.data(), packed.data(), n);
    BytePacker::unpack(bits, outExact.get(), exact.get(), n);
    for (size_t i = 0; i != n; ++i) {
      VT_CHECK(out[i] == in[i] && outExact[i] == in[i], "C06:roundTrip",
               "%zu symbols of %d bits, pattern %d: symbol %zu is %u, expected %u", n, bits,
               pattern, i, out[i], in[i]);
    }
    for (size_t i = n; i != out.size(); ++i)
      VT_CHECK(out[i] == 0xdeadbeef, "C06:unpackOverrun",
               "%zu symbols of %d bits: symbol %zu past the end", n, bits, i - n);
    // unpacking the reference bytes
    if (size) {
      std::vector<unsigned> out2(n, 0xdeadbeef);
      BytePacker::unpack(bits, out2.data(), ref.data(), n);
      VT_CHECK(out2 == in, "C06:unpackLayout", "%zu symbols of %d bits are not read LSB first", n,
               bits);
      // the unused bits of the last byte do not matter
      if ((n * bits) % 8) {
        std::vector<unsigned char> noisy = ref;
        noisy.back() |= 0xff & ~((1u << ((n * bits) % 8)) - 1);
        BytePacker::unpack(bits, out2.data(), noisy.data(), n);
        VT_CHECK(out2 == in, "C06:unusedBits",
                 "%zu symbols of %d bits: the unused bits of the last byte are part of a symbol", n, bits);
      }
    }
    gRep.stat("symbols", n);
  };
  if (index < 8) {
    for (size_t n = 0; n <= 130; ++n)
      for (int p = 0; p != 5; ++p) one(n, p);
  } else {
    for (int k = 0; k != 40; ++k) {
      const size_t n = r.chance(0.5) ? r.below(300) : r.below(5000);
      one(n, r.chance(0.6) ? 0 : int(r.below(5)));
    }
    if (r.chance(0.1)) one(100000 + r.below(1000), 0);
    if (r.chance(0.03)) one(262144 + r.below(300000), 0);
  }
  gRep.end();
}

// ---------------------------------------------------------------- C23
void modeLb(uint64_t index, Rng &r) {
  size_t n;
  if (index < 200)
    n = index + 1;
  else if (r.chance(0.5))
    n = (size_t(1) << kWidths[r.below(8)]) - 1 - r.below(2);
  else
    n = 1 + r.below(9000);
  gRep.begin(index, strf("size=%zu", n));
  std::multiset<float> values;
  const int kind = r.below(4);
  const bool dups = r.chance(0.35);
  while (values.size() < n) {
    double v;
    switch (kind) {
      case 0:
        v = r.gauss();
        break;
      case 1:
        v = double(r.range(-int64_t(n), int64_t(n)));
        break;
      case 2:
        v = std::pow(10.0, r.uniform(-30, 30)) * (r.chance(0.5) ? 1 : -1);
        break;
      default:
        v = 1.0 + double(values.size()) * 1.2e-7;
    }
    if (dups && !values.empty() && r.chance(0.4)) {
      // Equal values; often of the smallest or the largest
      const double u = r.uniform(0, 1);
      v = u < 0.3 ? *values.begin() : u < 0.6 ? *values.rbegin() : v;
      const size_t k = std::min<size_t>(n - values.size(), 1 + r.below(4));
      for (size_t i = 0; i != k; ++i) values.insert(float(v));
    } else if (dups || values.count(float(v)) == 0)
      values.insert(float(v));
  }
  if (r.chance(0.3)) {
    const size_t k = dups ? 1 + r.below(std::min<size_t>(n, 3)) : 1;
    for (size_t i = 0; i != k; ++i) values.erase(std::prev(values.end()));
    for (size_t i = 0; i != k; ++i) values.insert(kMax);
  }
  Dictionary d(n);
  std::copy(values.begin(), values.end(), d.begin());
  const Dictionary &cd = d;
  VT_CHECK(cd.size() == n && size_t(cd.end() - cd.begin()) == n, "C23:size", "size %zu", cd.size());
  std::vector<float> qs;
  const size_t step = n > 600 ? n / 300 : 1;
  for (size_t i = 0; i < n; i += step) {
    const float v = cd.begin()[i];
    qs.push_back(v);
    qs.push_back(std::nextafterf(v, kInf));
    qs.push_back(std::nextafterf(v, -kInf));
    if (i + 1 < n) qs.push_back(float((double(v) + cd.begin()[i + 1]) / 2));
  }
  for (float v : {kMax, -kMax, kInf, -kInf, 0.0f, -0.0f, 1e-45f, cd.begin()[0], cd.begin()[n - 1]})
    qs.push_back(v);
  for (int i = 0; i != 200; ++i) qs.push_back(float(r.gauss() * 3));
  for (float q : qs) {
    const float *want = std::lower_bound(cd.begin(), cd.end(), q);
    auto chk = [&](const float *got, const char *which) {
      VT_CHECK(got == want, "C23:differs", "%s(%.9g) in %zu values is element %td, expected %td",
               which, q, n, got - cd.begin(), want - cd.begin());
    };
    chk(cd.lower_bound_branchless(q), "lower_bound_branchless");
    chk(cd.lower_bound_one_minimum(q), "lower_bound_one_minimum");
    chk(cd.lower_bound_slow(q), "lower_bound_slow");
    if (n >= 2) {
      chk(cd.lower_bound(q), "lower_bound");
      chk(cd.lower_bound_branchless_two_minimum(q), "lower_bound_branchless_two_minimum");
      chk(cd.lower_bound_two_minimum(q), "lower_bound_two_minimum");
    }
    if (want != cd.end())
      VT_CHECK(cd.symbol(want) == unsigned(want - cd.begin()) &&
                   cd.value(cd.symbol(want)) == *want && cd.value(want) == *want,
               "C23:symbol", "symbol of element %td is %u", want - cd.begin(), cd.symbol(want));
  }
  VT_CHECK(cd.largest_symbol() == n - 1 && cd.largest_value() == cd.begin()[n - 1] &&
               cd.smallest_value() == cd.begin()[0],
           "C23:limits", "largest symbol %u", cd.largest_symbol());
  gRep.stat("queries", qs.size() * (n >= 2 ? 6 : 3));
  if (index % 100 == 0) gRep.sample(strf("size=%zu kind=%d", n, kind));
  gRep.end();
}

// ---------------------------------------------------------------- C21
// Counts what is allocated, and checks that it is given back the same way
struct AllocLog {
  std::map<void *, size_t> live;
  uint64_t errors = 0, count = 0;
};
AllocLog gAlloc;

template <typename T>
struct TrackAlloc {
  typedef T value_type;
  typedef T *pointer;
  typedef const T *const_pointer;
  typedef T &reference;
  typedef const T &const_reference;
  typedef size_t size_type;
  typedef ptrdiff_t difference_type;
  TrackAlloc() = default;
  template <typename U>
  TrackAlloc(const TrackAlloc<U> &) {}
  T *allocate(size_t n) {
    T *p = static_cast<T *>(::operator new(n * sizeof(T) + 1));
    std::memset(static_cast<void *>(p), 0xa5, n * sizeof(T));
    gAlloc.live[p] = n;
    ++gAlloc.count;
    return p;
  }
  void deallocate(T *p, size_t n) {
    auto it = gAlloc.live.find(p);
    if (it == gAlloc.live.end() || it->second != n)
      ++gAlloc.errors;
    else
      gAlloc.live.erase(it);
    ::operator delete(p);
  }
  size_t max_size() const { return size_t(-1) / sizeof(T); }
  bool operator==(const TrackAlloc &) const { return true; }
  bool operator!=(const TrackAlloc &) const { return false; }
};

struct Pod {
  int a;
  double b;
  bool operator==(const Pod &o) const { return a == o.a && b == o.b; }
  bool operator!=(const Pod &o) const { return !(*this == o); }
  bool operator<(const Pod &o) const { return a < o.a; }
};

template <typename T>
T rndVal(Rng &r);
template <>
int rndVal<int>(Rng &r) { return int(r.range(-3, 60)); }
template <>
unsigned char rndVal<unsigned char>(Rng &r) { return (unsigned char)(r.below(256)); }
template <>
double rndVal<double>(Rng &r) { return std::floor(r.gauss() * 4); }
template <>
std::complex<float> rndVal<std::complex<float>>(Rng &r) {
  return std::complex<float>(float(r.gauss()), float(r.gauss()));
}
template <>
Pod rndVal<Pod>(Rng &r) { return Pod{int(r.below(100)), r.gauss()}; }

// The comparisons are defined for ordered types only
template <typename U, typename V, typename T>
void compareOrder(const U &a, const U &b, const V &ra, const V &rb, T *) {
  VT_CHECK((a < b) == (ra < rb), "C21:less", "a<b is %d", a < b);
  VT_CHECK((a <= b) == (ra <= rb), "C21:lessEqual", "a<=b is %d", a <= b);
  VT_CHECK((a > b) == (ra > rb), "C21:greater", "a>b is %d", a > b);
  VT_CHECK((a >= b) == (ra >= rb), "C21:greaterEqual", "a>=b is %d", a >= b);
}
template <typename U, typename V>
void compareOrder(const U &, const U &, const V &, const V &, std::complex<float> *) {}
template <typename U, typename V>
void compareOrder(const U &, const U &, const V &, const V &, Pod *) {}

template <typename T, typename A>
void uvecCase(Rng &r, const char *tname) {
  typedef aocommon::UVector<T, A> U;
  typedef std::vector<T> V;
  const size_t liveBefore = gAlloc.live.size();
  {
    const int N = 4;
    std::vector<U> u(N);
    std::vector<V> v(N);
    std::string trace;
    auto log = [&](const std::string &s) {
      trace += s + ";";
      if (trace.size() > 500) trace.erase(0, trace.size() - 500);
    };
    auto vals = [&](size_t n) {
      V x;
      for (size_t i = 0; i != n; ++i) x.push_back(rndVal<T>(r));
      return x;
    };
    auto rndN = [&]() -> size_t {
      return r.chance(0.8) ? r.below(9) : r.below(200);
    };
    for (int step = 0; step != 160; ++step) {
      const int i = r.below(N), j = r.below(N);
      U &a = u[i];
      V &ra = v[i];
      const size_t size = ra.size();
      const size_t pos = r.below(size + 1);
      const T val = rndVal<T>(r);
      const size_t n = rndN();
      ptrdiff_t ret = -1, rret = -1;
      const int op = r.below(46);
      log(strf("%d:op%d(%d,%zu,%zu)", i, op, j, pos, n));
      switch (op) {
        case 0: {
          const V x = vals(n);
          a.assign(x.begin(), x.end());
          ra.assign(x.begin(), x.end());
        } break;
        case 1:
          a.assign(n, val);
          ra.assign(n, val);
          break;
        case 2:
          a.assign({val, rndVal<T>(r), val});
          ra.assign(a.begin(), a.end());
          VT_CHECK(a.size() == 3 && a[0] == val && a[2] == val, "C21:assignList", "%s", tname);
          break;
        case 3:
        case 4:
        case 5:
          a.push_back(val);
          ra.push_back(val);
          break;
        case 6: {
          T tmp = val;
          a.push_back(std::move(tmp));
          ra.push_back(val);
        } break;
        case 7:
          if (size) {
            a.pop_back();
            ra.pop_back();
          }
          break;
        case 8:
        case 9:
          { auto it_ = a.insert(a.begin() + pos, val); ret = it_ - a.begin(); }
          { auto it_ = ra.insert(ra.begin() + pos, val); rret = it_ - ra.begin(); }
          break;
        case 10:
        case 11:
          { auto it_ = a.insert(a.begin() + pos, n, val); ret = it_ - a.begin(); }
          { auto it_ = ra.insert(ra.begin() + pos, n, val); rret = it_ - ra.begin(); }
          break;
        case 12:
        case 13: {
          const V x = vals(n);
          { auto it_ = a.insert(a.begin() + pos, x.begin(), x.end()); ret = it_ - a.begin(); }
          { auto it_ = ra.insert(ra.begin() + pos, x.begin(), x.end()); rret = it_ - ra.begin(); }
        } break;
        case 14: {
          T t1 = val;
          { auto it_ = a.insert(a.begin() + pos, std::move(t1)); ret = it_ - a.begin(); }
          { auto it_ = ra.insert(ra.begin() + pos, val); rret = it_ - ra.begin(); }
        } break;
        case 15: {
          const T v2 = rndVal<T>(r);
          { auto it_ = a.insert(a.begin() + pos, {val, v2}); ret = it_ - a.begin(); }
          { auto it_ = ra.insert(ra.begin() + pos, {val, v2}); rret = it_ - ra.begin(); }
        } break;
        case 16:
        case 17:
          if (pos < size) {
            { auto it_ = a.erase(a.begin() + pos); ret = it_ - a.begin(); }
            { auto it_ = ra.erase(ra.begin() + pos); rret = it_ - ra.begin(); }
          }
          break;
        case 18:
        case 19: {
          const size_t last = pos + r.below(size - pos + 1);
          { auto it_ = a.erase(a.begin() + pos, a.begin() + last); ret = it_ - a.begin(); }
          { auto it_ = ra.erase(ra.begin() + pos, ra.begin() + last); rret = it_ - ra.begin(); }
        } break;
        case 20:
          std::swap(ra, v[j]);
          if (i != j) a.swap(u[j]);
          else { a.swap(a); }
          break;
        case 21:
          if (r.chance(0.3)) {
            a.clear();
            ra.clear();
          }
          break;
        case 22:
          { auto it_ = a.emplace(a.begin() + pos, val); ret = it_ - a.begin(); }
          { auto it_ = ra.emplace(ra.begin() + pos, val); rret = it_ - ra.begin(); }
          break;
        case 23: {
          T &x = a.emplace_back(val);
          ra.emplace_back(val);
          VT_CHECK(&x == &a.back(), "C21:emplaceBack", "emplace_back returns a reference to another element");
        } break;
        case 24:
        case 25: {
          // new elements are uninitialized
          a.resize(n);
          for (size_t k = size; k < n; ++k) a[k] = val;
          ra.resize(n, val);
        } break;
        case 26:
          a.resize(n, val);
          ra.resize(n, val);
          break;
        case 27:
          a.reserve(n);
          VT_CHECK(a.capacity() >= n, "C21:reserve", "capacity %zu after reserve(%zu)",
                   a.capacity(), n);
          ra.reserve(n);
          break;
        case 28:
          a.shrink_to_fit();
          VT_CHECK(a.capacity() == a.size(), "C21:shrink", "capacity %zu, size %zu", a.capacity(),
                   a.size());
          break;
        case 29:
        case 30:
          if (i != j || r.chance(0.3)) {
            a = u[j];
            ra = V(v[j]);
          }
          break;
        case 31:
          if (i != j) {
            a = std::move(u[j]);
            ra = v[j];
            v[j].clear();
            u[j].clear();  // moved from: make it well defined
          }
          break;
        case 32: {
          U c(u[j]);
          VT_CHECK(c == u[j], "C21:copyCtor", "the copy differs");
          a = c;
          ra = V(v[j]);
        } break;
        case 33:
          if (i != j) {
            U c(std::move(u[j]));
            a = std::move(c);
            ra = v[j];
            v[j].clear();
            u[j].clear();
          }
          break;
        case 34: {
          U c(n, val);
          a.swap(c);
          ra = V(n, val);
        } break;
        case 35: {
          const V x = vals(n);
          U c(x.begin(), x.end());
          a = std::move(c);
          ra = x;
        } break;
        case 36: {
          U c{val, val, rndVal<T>(r)};
          ra.assign(c.begin(), c.end());
          VT_CHECK(c.size() == 3 && c[0] == val && c[1] == val, "C21:listCtor", "%s", tname);
          swap(a, c);
        } break;
        case 37: {
          // insert_uninitialized
          auto it = a.insert_uninitialized(a.begin() + pos, n);
          ret = it - a.begin();
          rret = pos;
          VT_CHECK(a.size() == size + n, "C21:insertUninit", "size %zu", a.size());
          if (a.size() == size + n)
            for (size_t k = 0; k != n; ++k) a[pos + k] = val;
          ra.insert(ra.begin() + pos, n, val);
        } break;
        case 38:
          a.push_back_uninitialized(n);
          VT_CHECK(a.size() == size + n, "C21:pushUninit", "size %zu", a.size());
          if (a.size() == size + n)
            for (size_t k = size; k != size + n; ++k) a[k] = val;
          ra.insert(ra.end(), n, val);
          break;
        case 39: {
          const V x = vals(n);
          a.push_back(x.begin(), x.end());
          ra.insert(ra.end(), x.begin(), x.end());
        } break;
        case 40:
          a.push_back(n, val);
          ra.insert(ra.end(), n, val);
          break;
        case 41:
          a.push_back({val, val});
          ra.insert(ra.end(), {val, val});
          break;
        case 42: {
          const V x = vals(n);
          std::list<T> l(x.begin(), x.end());
          { auto it_ = a.insert(a.begin() + pos, l.begin(), l.end()); ret = it_ - a.begin(); }
          { auto it_ = ra.insert(ra.begin() + pos, l.begin(), l.end()); rret = it_ - ra.begin(); }
        } break;
        case 43: {
          const V x = vals(n);
          std::list<T> l(x.begin(), x.end());
          a.push_back(l.begin(), l.end());
          ra.insert(ra.end(), l.begin(), l.end());
        } break;
        case 44: {
          bool threw = false;
          try {
            a.at(size + r.below(3)) = val;
          } catch (std::out_of_range &) {
            threw = true;
          }
          VT_CHECK(threw, "C21:at", "at() past the end does not throw");
          if (size) {
            a.at(size - 1) = val;
            ra[size - 1] = val;
          }
        } break;
        case 45: {
          const V x = vals(n);
          std::list<T> l(x.begin(), x.end());
          a.assign(l.begin(), l.end());
          ra = x;
        } break;
      }
      VT_CHECK(ret == rret, "C21:iterator", "%s op %d returns position %td, std::vector %td [%s]",
               tname, op, ret, rret, trace.c_str());
      for (int k = 0; k != N; ++k) {
        const U &cu = u[k];
        const bool same = cu.size() == v[k].size() && std::equal(cu.begin(), cu.end(), v[k].begin());
        VT_CHECK(same, "C21:content", "%s: vector %d differs from std::vector (size %zu, %zu) [%s]",
                 tname, k, cu.size(), v[k].size(), trace.c_str());
        VT_CHECK(cu.capacity() >= cu.size() && cu.empty() == (cu.size() == 0), "C21:capacity",
                 "capacity %zu, size %zu", cu.capacity(), cu.size());
        if (!same) return;
      }
      if (!ra.empty()) {
        const U &ca = a;
        VT_CHECK(ca.front() == ra.front() && ca.back() == ra.back() && a.front() == ra.front() &&
                     a.back() == ra.back() && ca.data() == &ca[0] &&
                     std::equal(ca.rbegin(), ca.rend(), ra.rbegin()) &&
                     std::equal(ca.crbegin(), ca.crend(), ra.rbegin()) &&
                     std::equal(ca.cbegin(), ca.cend(), ra.begin()) &&
                     std::equal(a.rbegin(), a.rend(), ra.rbegin()) &&
                     ca.at(ra.size() / 2) == ra[ra.size() / 2],
                 "C21:access", "%s [%s]", tname, trace.c_str());
      }
      if (r.chance(0.2)) {
        // make vectors with a common prefix, for the comparisons
        U b(a);
        V rb(ra);
        if (!rb.empty() && r.chance(0.6)) {
          const size_t k = r.below(rb.size());
          b[k] = rndVal<T>(r);
          rb[k] = b[k];
        }
        if (r.chance(0.4) && !rb.empty()) {
          b.pop_back();
          rb.pop_back();
        } else if (r.chance(0.3)) {
          b.push_back(val);
          rb.push_back(val);
        }
        VT_CHECK((a == b) == (ra == rb), "C21:equal", "a==b is %d", a == b);
        VT_CHECK((a != b) == (ra != rb), "C21:notEqual", "a!=b is %d", a != b);
        compareOrder(a, b, ra, rb, static_cast<T *>(nullptr));
        compareOrder(b, a, rb, ra, static_cast<T *>(nullptr));
      }
    }
  }
  VT_CHECK(gAlloc.live.size() == liveBefore, "C21:leak", "%s: %zu allocations are not released",
           tname, gAlloc.live.size() - liveBefore);
  VT_CHECK(gAlloc.errors == 0, "C21:dealloc", "%s: %llu wrong deallocations", tname,
           (unsigned long long)gAlloc.errors);
  gAlloc.errors = 0;
  gAlloc.live.clear();
  gRep.stat("operations", 160);
}

void modeUvec(uint64_t index, Rng &r) {
  const int kind = index % 8;
  gRep.begin(index, strf("type=%d case=%llu", kind, (unsigned long long)index));
  switch (kind) {
    case 0:
      uvecCase<int, TrackAlloc<int>>(r, "int");
      break;
    case 1:
      uvecCase<double, TrackAlloc<double>>(r, "double");
      break;
    case 2:
      uvecCase<unsigned char, TrackAlloc<unsigned char>>(r, "unsigned char");
      break;
    case 3:
      uvecCase<std::complex<float>, TrackAlloc<std::complex<float>>>(r, "complex");
      break;
    case 4:
      uvecCase<Pod, TrackAlloc<Pod>>(r, "struct");
      break;
    case 5:
      uvecCase<int, std::allocator<int>>(r, "int (std::allocator)");
      break;
    case 6:
      uvecCase<std::complex<float>, std::allocator<std::complex<float>>>(r, "complex (std)");
      break;
    default:
      uvecCase<double, std::allocator<double>>(r, "double (std::allocator)");
  }
  gRep.stat("allocations", gAlloc.count);
  gAlloc.count = 0;
  gRep.end();
}

// ---------------------------------------------------------------- C24, C07
std::unique_ptr<TimeBlockEncoder> makeBlockEnc(int norm, int nPol, int nChan) {
  switch (norm) {
    case kAF:
      return std::unique_ptr<TimeBlockEncoder>(new AFTimeBlockEncoder(nPol, nChan, true));
    case kRF:
      return std::unique_ptr<TimeBlockEncoder>(new RFTimeBlockEncoder(nPol, nChan));
    default:
      return std::unique_ptr<TimeBlockEncoder>(new RowTimeBlockEncoder(nPol, nChan));
  }
}

typedef TimeBlockBuffer<std::complex<float>> FBuf;

struct Encoded {
  std::vector<float> meta;
  std::vector<unsigned> sym;
  bool operator==(const Encoded &o) const {
    return sym == o.sym && meta.size() == o.meta.size() &&
           std::memcmp(meta.data(), o.meta.data(), meta.size() * 4) == 0;
  }
};

void fillBuf(FBuf &b, const Cfg &c, const BlockData &d) {
  auto bl = c.baselines();
  for (size_t row = 0; row != d.size(); ++row)
    b.SetData(row, bl[row].first, bl[row].second, d[row].data());
}

Encoded encodeWith(TimeBlockEncoder &enc, const Enc &q, const Cfg &c, const BlockData &d,
                   bool dither, unsigned seed, int fillKind) {
  FBuf b(c.nPol, c.nChan);
  fillBuf(b, c, d);
  Encoded out;
  float f;
  const uint32_t pat = fillKind ? 0xffffffffu : 0x3f9d70a4u;
  std::memcpy(&f, &pat, 4);
  // exactly the size that the encoder announces
  out.meta.assign(enc.MetaDataCount(d.size(), c.nPol, c.nChan, c.nAnt), f);
  out.sym.assign(enc.SymbolCount(d.size()), fillKind ? 0xdeadbeefu : 0xfeedfaceu);
  out.meta.shrink_to_fit();
  out.sym.shrink_to_fit();
  if (dither) {
    std::mt19937 rnd(seed);
    enc.EncodeWithDithering(q, b, out.meta.data(), out.sym.data(), c.nAnt, rnd);
  } else
    enc.EncodeWithoutDithering(q, b, out.meta.data(), out.sym.data(), c.nAnt);
  // The input is not changed
  auto bl = c.baselines();
  bool same = b.NRows() == d.size();
  for (size_t row = 0; same && row != d.size(); ++row)
    same = b[row].antenna1 == size_t(bl[row].first) && b[row].antenna2 == size_t(bl[row].second) &&
           b[row].visibilities.size() == d[row].size() &&
           std::memcmp(b[row].visibilities.data(), d[row].data(), d[row].size() * 8) == 0;
  VT_CHECK(same, "C24:inputChanged", "encoding changes the data that is encoded");
  return out;
}

BlockData decodeWith(TimeBlockEncoder &dec, const Enc &q, const Cfg &c, const Encoded &e,
                     const std::vector<size_t> &order) {
  auto bl = c.baselines();
  FBuf b(c.nPol, c.nChan);
  b.resize(bl.size());
  dec.InitializeDecode(e.meta.data(), bl.size(), c.nAnt);
  for (size_t row : order)
    dec.Decode(q, b, e.sym.data(), row, bl[row].first, bl[row].second);
  BlockData out(bl.size());
  for (size_t row = 0; row != bl.size(); ++row) {
    out[row] = b[row].visibilities;
    VT_CHECK(b[row].antenna1 == size_t(bl[row].first) && b[row].antenna2 == size_t(bl[row].second),
             "C24:antennas", "row %zu is decoded for antennas %zu, %zu", row, b[row].antenna1,
             b[row].antenna2);
  }
  return out;
}

bool sameBits(const BlockData &a, const BlockData &b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i != a.size(); ++i) {
    if (a[i].size() != b[i].size()) return false;
    for (size_t j = 0; j != a[i].size(); ++j)
      for (int im = 0; im != 2; ++im) {
        const float x = im ? a[i][j].imag() : a[i][j].real();
        const float y = im ? b[i][j].imag() : b[i][j].real();
        if (!(x == y || (std::isnan(x) && std::isnan(y)))) return false;
      }
  }
  return true;
}

DataSpec anyData(Rng &r, bool finiteOnly) {
  DataSpec d;
  d.regime = r.below(kNRegimes);
  d.scale = std::pow(10.0, r.uniform(-6, 6));
  d.nanMode = finiteOnly || r.chance(0.5) ? 0 : int(r.below(kNNanModes));
  d.zeroMode = r.chance(0.6) ? 0 : int(r.below(kNZeroModes));
  return d;
}

void modeBlock(uint64_t index, Rng &r) {
  Cfg c;
  EncCfg ec = pickEnc(index, r);
  c.norm = (index / 32) % 3;
  c.nAnt = r.range(2, 7);
  c.autos = c.norm == kAF ? r.chance(0.2) : r.chance(0.4);
  c.nChan = r.range(1, 12);
  c.nPol = int(r.range(1, 4));
  if (r.chance(0.05)) {
    c.nAnt = r.range(10, 14);
    c.nChan = r.range(16, 48);
  }
  c.rowOrder = r.below(3);
  c.orderSeed = r.next();
  someBaselines(r, c);
  c.dataBits = ec.bits;
  c.dist = ec.dist;
  c.nu = ec.nu;
  c.trunc = ec.trunc;
  const DataSpec ds = anyData(r, false);
  gRep.begin(index, c.str() + " " + ds.str());
  auto ep = cachedEnc(ec);
  const Enc &q = *ep;
  const unsigned n = unsigned(q.QuantizationCount() - 1);
  auto bl = c.baselines();
  const BlockData d = genBlock(r, c, ds);
  auto fresh = makeBlockEnc(c.norm, c.nPol, c.nChan);
  const size_t nRow = d.size();
  const size_t metaExp = c.norm == kAF   ? c.nPol * (c.nChan + c.nAnt)
                         : c.norm == kRF ? c.nPol * (c.nChan + nRow)
                                         : nRow;
  VT_CHECK(fresh->MetaDataCount(nRow, c.nPol, c.nChan, c.nAnt) == metaExp, "C24:metaCount",
           "%zu scale factors, expected %zu", fresh->MetaDataCount(nRow, c.nPol, c.nChan, c.nAnt),
           metaExp);
  VT_CHECK(fresh->SymbolCount(nRow) == nRow * c.vis() * 2 &&
               fresh->SymbolCount(nRow, c.nPol, c.nChan) == nRow * c.vis() * 2 &&
               fresh->SymbolsPerRow() == c.vis() * 2,
           "C24:symbolCount", "%zu symbols for %zu rows", fresh->SymbolCount(nRow), nRow);
  // 1. a fresh encoder
  const unsigned seed = unsigned(r.next());
  const Encoded e0 = encodeWith(*fresh, q, c, d, false, 0, 0);
  auto fresh2 = makeBlockEnc(c.norm, c.nPol, c.nChan);
  const Encoded e0d = encodeWith(*fresh2, q, c, d, true, seed, 0);
  for (const Encoded *e : {&e0, &e0d})
    for (size_t i = 0; i != e->sym.size(); ++i) {
      VT_CHECK(e->sym[i] <= n, "C24:symbolRange", "symbol %zu is %u", i, e->sym[i]);
    }
  VT_CHECK(e0.meta.size() == e0d.meta.size() &&
               std::memcmp(e0.meta.data(), e0d.meta.data(), e0.meta.size() * 4) == 0,
           "C24:ditherMeta", "the scale factors depend on the dithering");
  // Row/RF: scale factors can not be negative or infinite
  // 2. an encoder with a history gives the same
  {
    auto used = makeBlockEnc(c.norm, c.nPol, c.nChan);
    const int rounds = r.range(1, 4);
    std::string hist;
    for (int k = 0; k != rounds; ++k) {
      Cfg c2 = c;
      c2.nAnt = r.range(2, 9);
      c2.rowOrder = r.below(3);
      c2.orderSeed = r.next();
      const DataSpec ds2 = anyData(r, false);
      const BlockData d2 = genBlock(r, c2, ds2);
      const bool dith = r.chance(0.5);
      const Encoded e2 = encodeWith(*used, q, c2, d2, dith, unsigned(r.next()), k & 1);
      if (r.chance(0.5)) {
        std::vector<size_t> order(c2.baselines().size());
        for (size_t i = 0; i != order.size(); ++i) order[i] = i;
        decodeWith(*used, q, c2, e2, order);
      }
      hist += strf("[ant=%d %s dither=%d]", c2.nAnt, ds2.str().c_str(), dith);
    }
    const Encoded e1 = encodeWith(*used, q, c, d, false, 0, 1);
    VT_CHECK(e1 == e0, "C24:reused", "the result depends on what was encoded before: %s",
             hist.c_str());
    const Encoded e1d = encodeWith(*used, q, c, d, true, seed, 1);
    VT_CHECK(e1d == e0d, "C24:reusedDither",
             "the dithered result depends on what was encoded before: %s", hist.c_str());
    // 3. decoding
    std::vector<size_t> order(nRow), shuffled;
    for (size_t i = 0; i != nRow; ++i) order[i] = i;
    shuffled = order;
    for (size_t i = 0; i != nRow / 2; ++i) shuffled.push_back(r.below(nRow));
    r.shuffle(shuffled);
    auto dec = makeBlockEnc(c.norm, c.nPol, c.nChan);
    const BlockData out = decodeWith(*dec, q, c, e0d, order);
    VT_CHECK(sameBits(out, decodeWith(*used, q, c, e0d, shuffled)), "C24:decodeOrder",
             "the decoded values depend on the order of reading or on the history");
    // A decoder that is used in between for encoding
    decodeWith(*used, q, c, e0, shuffled);
    VT_CHECK(sameBits(out, decodeWith(*used, q, c, e0d, shuffled)), "C24:decodeReused",
             "the decoded values depend on what was decoded before");
    // 4. decoded values against the levels and scale factors
    RefBlock rb;
    rb.lay.nPol = c.nPol;
    rb.lay.nChan = c.nChan;
    rb.lay.norm = c.norm;
    rb.lay.nRow = nRow;
    rb.lay.nAnt = c.nAnt;
    rb.meta = e0d.meta;
    for (size_t row = 0; row != nRow; ++row)
      for (int ch = 0; ch != c.nChan; ++ch)
        for (int p = 0; p != c.nPol; ++p)
          for (int im = 0; im != 2; ++im) {
            const size_t k = ch * c.nPol + p;
            const unsigned s = e0d.sym[(row * c.vis() + k) * 2 + im];
            const double F = rb.factor(row, ch, p, bl[row].first, bl[row].second);
            const float o = im ? out[row][k].imag() : out[row][k].real();
            const cf vin = d[row][k];
            const float v = im ? vin.imag() : vin.real();
            if (!std::isfinite(v))
              VT_CHECK(s == n && std::isnan(o), "C24:nonFinite", "%g has symbol %u", v, s);
            if (s > n) continue;
            const double ex = double(q.Decode(s)) * F;
            if (s != n && std::isfinite(ex) && std::fabs(ex) < 1e38)
              VT_CHECK(std::fabs(o - ex) <= 1e-5 * std::fabs(ex) + 1e-37, "C24:decode",
                       "symbol %u with factor %g is decoded as %g, expected %g", s, F, o, ex);
            // -- range
            if (!finite(vin) || (c.norm == kAF && bl[row].first == bl[row].second)) continue;
            if (v != 0)
              VT_CHECK(F > 0 && std::fabs(v) <= F * q.MaxQuantity() * (1 + 1e-3), "C07:clipped",
                       "row %zu ch %d pol %d: %g is outside of the range %g", row, ch, p, v,
                       F * q.MaxQuantity());
          }
  }
  // 5. scaling by a power of two scales everything
  double least = 1e300, largest = 0;
  for (const auto &row : d)
    for (const cf &v : row)
      for (const double x : {std::fabs(double(v.real())), std::fabs(double(v.imag()))})
        if (std::isfinite(x) && x != 0) {
          least = std::min(least, x);
          largest = std::max(largest, x);
        }
  // The scaled values have to be normal numbers
  const int kLow = largest == 0 ? -20 : std::max(-230, int(std::ceil(std::log2(1e-36 / least)))),
            kHigh = largest == 0 ? 20 : std::min(230, int(std::floor(std::log2(1e36 / largest))));
  if (least > 1e-36 && largest < 1e36 && kLow < kHigh) {
    const int which = r.below(4);
    const int k2 = which == 0   ? kLow
                   : which == 1 ? kHigh
                   : which == 2 ? std::max(kLow, std::min(kHigh, int(r.range(-20, 20))))
                                : int(r.range(kLow, kHigh));
    BlockData ds2 = d;
    for (auto &row : ds2)
      for (auto &v : row) v = cf(std::ldexp(v.real(), k2), std::ldexp(v.imag(), k2));
    auto enc = makeBlockEnc(c.norm, c.nPol, c.nChan);
    const Encoded e = encodeWith(*enc, q, c, ds2, false, 0, 0);
    // The finite part of a sample that is otherwise not finite has no promise
    size_t changed = 0;
    for (size_t row = 0; row != nRow; ++row)
      for (size_t k = 0; k != c.vis(); ++k)
        for (int im = 0; im != 2; ++im) {
          const size_t s = (row * c.vis() + k) * 2 + im;
          const float v = im ? d[row][k].imag() : d[row][k].real();
          if (finite(d[row][k]) || !std::isfinite(v)) changed += e.sym[s] != e0.sym[s];
        }
    VT_CHECK(changed == 0, "C07:scale", "scaling the data by 2^%d changes %zu symbols", k2, changed);
    // The product of the factors scales along
    RefBlock ra, rb;
    ra.lay.nPol = c.nPol;
    ra.lay.nChan = c.nChan;
    ra.lay.norm = c.norm;
    ra.lay.nRow = nRow;
    ra.lay.nAnt = c.nAnt;
    rb.lay = ra.lay;
    ra.meta = e0.meta;
    rb.meta = e.meta;
    for (size_t row = 0; row != nRow; ++row)
      for (int ch = 0; ch != c.nChan; ++ch)
        for (int p = 0; p != c.nPol; ++p) {
          const double fa = ra.factor(row, ch, p, bl[row].first, bl[row].second);
          const double fb = rb.factor(row, ch, p, bl[row].first, bl[row].second);
          bool any = false;
          if (!finite(d[row][ch * c.nPol + p])) continue;
          for (int im = 0; im != 2; ++im) {
            const unsigned s = e.sym[(row * c.vis() + ch * c.nPol + p) * 2 + im];
            if (s < n && q.Decode(s) != 0.0f) any = true;
          }
          if (any && std::isfinite(fa) && std::fabs(fa) > 1e-30 && std::fabs(fb) > 1e-30)
            VT_CHECK(std::fabs(std::ldexp(fa, k2) - fb) <= 1e-5 * std::fabs(fb), "C07:scaleFactor",
                     "scaling the data by 2^%d changes the factor %g to %g", k2, fa, fb);
        }
    gRep.stat("scaled", 1);
  }
  gRep.stat("blocks", 1);
  if (index % 60 == 0) gRep.sample(c.str() + " " + ds.str());
  gRep.end();
}

// ---------------------------------------------------------------- C08
void modeWeight(uint64_t index, Rng &r) {
  Cfg c;
  c.weightBits = kWidths[index % 8];
  c.nAnt = r.range(2, 8);
  c.nChan = r.range(1, 20);
  c.nPol = int(r.range(1, 4));
  const int kind = r.below(6);
  const double scale = weightScale(r, 12);
  gRep.begin(index, strf("wbits=%d ant=%d ch=%d pol=%d kind=%d scale=%g", c.weightBits, c.nAnt,
                         c.nChan, c.nPol, kind, scale));
  const BlockWeights w = genWeights(r, c, kind, scale);
  const size_t nRow = w.size();
  WeightBlockEncoder enc(c.nPol, c.nChan, size_t(1) << c.weightBits);
  TimeBlockBuffer<float> b(c.nPol, c.nChan);
  for (size_t row = 0; row != nRow; ++row) b.SetData(row, 0, 1, w[row].data());
  std::vector<float> meta(enc.MetaDataFloatCount(), -7.0f);
  std::vector<unsigned> sym(enc.SymbolCount(nRow), 0xdeadbeef);
  VT_CHECK(meta.size() == 1 && sym.size() == nRow * c.nChan, "C08:count", "%zu factors, %zu symbols",
           meta.size(), sym.size());
  enc.Encode(b, meta.data(), sym.data());
  const unsigned top = (1u << c.weightBits) - 1;
  TimeBlockBuffer<float> out(c.nPol, c.nChan);
  out.resize(nRow);
  WeightBlockEncoder dec(c.nPol, c.nChan, size_t(1) << c.weightBits);
  dec.InitializeDecode(meta.data());
  std::vector<size_t> order(nRow);
  for (size_t i = 0; i != nRow; ++i) order[i] = i;
  r.shuffle(order);
  for (size_t row : order) dec.Decode(out, sym.data(), row);
  double maxW = 0;
  std::vector<double> mins;
  for (size_t row = 0; row != nRow; ++row)
    for (int ch = 0; ch != c.nChan; ++ch) {
      double m = w[row][ch * c.nPol];
      for (int p = 1; p != c.nPol; ++p) m = std::min(m, double(w[row][ch * c.nPol + p]));
      mins.push_back(m);
      maxW = std::max(maxW, m);
    }
  const double step = maxW / top;
  for (size_t row = 0; row != nRow; ++row)
    for (int ch = 0; ch != c.nChan; ++ch) {
      const size_t k = row * c.nChan + ch;
      VT_CHECK(sym[k] <= top, "C08:symbol", "row %zu ch %d: symbol %u does not fit", row, ch, sym[k]);
      const float o = out[row].visibilities[ch * c.nPol];
      for (int p = 1; p != c.nPol; ++p)
        VT_CHECK(out[row].visibilities[ch * c.nPol + p] == o, "C08:pol",
                 "row %zu ch %d: pol %d differs", row, ch, p);
      const double m = mins[k];
      VT_CHECK(std::isfinite(o) && o >= 0 &&
                   std::fabs(o - m) <= step * 0.5 * (1 + 1e-3) + 2e-6 * maxW + 3e-45,
               "C08:bound", "row %zu ch %d: wrote %.9g, read %.9g, step %.9g", row, ch, m, o, step);
      if (m == 0) VT_CHECK(o == 0, "C08:zero", "0 became %g", o);
      if (m == maxW) VT_CHECK(std::fabs(o - m) <= 2e-6 * maxW + 3e-45, "C08:max", "%g became %g", m, o);
    }
  // The encoder is stateless
  std::vector<float> meta2(1, 3.0f);
  std::vector<unsigned> sym2(sym.size(), 0);
  dec.Encode(b, meta2.data(), sym2.data());
  VT_CHECK(meta2[0] == meta[0] && sym2 == sym, "C08:stateless", "a used encoder gives other symbols");
  // The vector encoder of weights
  const auto vectorEncoder = [&](auto zero) {
    typedef decltype(zero) T;
    const dyscostman::WeightEncoder<T> we(1u << c.weightBits);
    const std::vector<T> in(mins.begin(), mins.end());
    std::vector<unsigned> s(in.size(), 0xdeadbeef);
    std::vector<T> back(in.size(), T(-1));
    T factor = -1;
    we.Encode(factor, s, in);
    we.Decode(back, factor, s);
    VT_CHECK(s.size() == in.size() && back.size() == in.size(), "C08:count", "%zu symbols", s.size());
    for (size_t k = 0; k != in.size(); ++k) {
      VT_CHECK(s[k] <= top, "C08:symbol", "WeightEncoder: weight %zu: symbol %u does not fit", k, s[k]);
      VT_CHECK(std::isfinite(back[k]) && back[k] >= 0 &&
                   std::fabs(back[k] - mins[k]) <= step * 0.5 * (1 + 1e-2) + 2e-6 * maxW + 3e-45,
               "C08:bound", "WeightEncoder: %zu: encoded %.9g, decoded %.9g, step %.9g", k, mins[k],
               double(back[k]), step);
      if (mins[k] == 0) VT_CHECK(back[k] == 0, "C08:zero", "WeightEncoder: 0 became %g", double(back[k]));
      if (k && mins[k] >= mins[k - 1])
        VT_CHECK(s[k] >= s[k - 1], "C08:order", "WeightEncoder: order of %zu changed", k);
    }
  };
  vectorEncoder(float(0));
  vectorEncoder(double(0));
  gRep.stat("weights", sym.size());
  if (index % 60 == 0) gRep.sample(gRep.sig);
  gRep.end();
}

struct Mode {
  const char *name;
  void (*fn)(uint64_t, Rng &);
};
const Mode kModes[] = {{"quant", modeQuant}, {"thresh", modeThresh}, {"dict", modeDict},
                       {"pack", modePack},   {"lb", modeLb},         {"uvec", modeUvec},
                       {"block", modeBlock}, {"weight", modeWeight}};
}  // namespace
}  // namespace vt

using namespace vt;

int main(int argc, char **argv) {
  if (argc < 2) return 2;
  gArgs.mode = argv[1];
  for (int i = 2; i + 1 < argc; i += 2) {
    const std::string k = argv[i], v = argv[i + 1];
    if (k == "--prop")
      gArgs.prop = v;
    else if (k == "--seed")
      gArgs.seed = std::strtoull(v.c_str(), nullptr, 10);
    else if (k == "--from")
      gArgs.from = std::strtoull(v.c_str(), nullptr, 10);
    else if (k == "--to")
      gArgs.to = std::strtoull(v.c_str(), nullptr, 10);
    else if (k == "--tier")
      gArgs.tier = std::atoi(v.c_str());
    else if (k == "--dir")
      gArgs.dir = v;
    else if (k == "--out")
      gArgs.out = v;
    else if (k == "--extra")
      gArgs.extra = v;
    else
      return 2;
  }
  if (!gArgs.out.empty()) {
    gRep.out = std::fopen(gArgs.out.c_str(), "w");
    if (!gRep.out) return 2;
  }
  for (const Mode &m : kModes)
    if (gArgs.mode == m.name) {
      for (uint64_t i = gArgs.from; i < gArgs.to; ++i) {
        Rng r(caseSeed(gArgs.seed, i));
        try {
          m.fn(i, r);
        } catch (std::exception &e) {
          gRep.fail("ANY:exception", "unexpected exception: %s", e.what());
          gRep.end();
        }
      }
      gRep.finish();
      return 0;
    }
  return 2;
}
