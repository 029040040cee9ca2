HDR = '#include "demo.h"\n#include <sys/wait.h>\n#include <unistd.h>\n'
# a demo that writes a table with one manager and checks the accuracy
ACC = HDR + r'''
int main(int, char **argv) {
  const std::string p = std::string(argv[1]) + "/t.tab";
  Shape s;
  %(shape)s
  DyscoStMan dm(%(bits)d, 12, "D");
  %(settings)s
  {
    Table t = makeTable(p, s, dm);
    ArrayColumn<Complex> c(t, "DATA");
    for (int r = 0; r != s.rows(); ++r) { Array<Complex> a = row(s, r); %(change)s c.put(r, a); }
  }
  Table t(p);
  ArrayColumn<Complex> c(t, "DATA");
  for (int r = 0; r != s.rows(); ++r) {
    const Array<Complex> a = row(s, r), b = c(r);
    for (int ch = 0; ch != s.chan; ++ch) for (int q = 0; q != s.pol; ++q) {
      if (%(skip)s) continue;
      const cf x = a(IPosition(2, q, ch)), y = b(IPosition(2, q, ch));
      CHECK(std::abs(x - y) < %(tol)s, "row %%d ch %%d pol %%d: (%%g,%%g) became (%%g,%%g)", r, ch, q, x.real(), x.imag(), y.real(), y.imag());
    }
  }
}
'''
def acc(shape="", bits=12, settings="", change="", skip="false", tol="0.1"):
    return ACC % dict(shape=shape, bits=bits, settings=settings, change=change, skip=skip, tol=tol)

add("c01-baseline-order", [("aftimeblockencoder.cc", "      if (a1 > a2) std::swap(a1, a2);\n", "")],
 dict(property="C01", needs="AF normalization and baselines of which the first antenna has the higher number, in part of the rows", what_it_breaks="these baselines do not count when the antenna factors are determined, and data become inaccurate or zero"),
 acc(shape="s.reversed = true; s.ant = 6;", bits=8, tol="0.3"))

add("c01-max-antenna", [("timeblockbuffer.h", "          std::max(maxAntennaIndex, std::max(row.antenna1, row.antenna2));", "          std::max(maxAntennaIndex, row.antenna2);  // antenna1 <= antenna2")],
 dict(property="C01", needs="AF normalization and baselines of which the first antenna has the higher number, such that the highest antenna is never the second one", what_it_breaks="data of the highest antenna can not be written"),
 acc(shape="s.reversed = true; s.ant = 6;", bits=8, tol="0.3"))

add("c02-inf-channel", [("rftimeblockencoder.cc", "      if (std::isfinite(local_max) && local_max > largest_component)\n", "      if (local_max > largest_component)\n")],
 dict(property="C02", needs="RF normalization and an infinite (not NaN) visibility", what_it_breaks="all samples of the channel of an infinite sample become NaN or zero"),
 acc(settings="dm.SetNormalization(Normalization::kRF);", change="if (r == 7) a(IPosition(2, 1, 2)) = cf(INFINITY, INFINITY);", skip="r == 7 && ch == 2 && q == 1"))

add("c02-half-finite", [("timeblockencoder.h", "    return std::isfinite(val.real()) && std::isfinite(val.imag());", "    return std::isfinite(val.real());")],
 dict(property="C02", needs="AF normalization and a visibility of which only the imaginary part is infinite or NaN", what_it_breaks="the finite samples of the same channel and antennas are lost"),
 acc(change="if (r == 7) a(IPosition(2, 1, 2)) = cf(1.0, INFINITY);", skip="r == 7 && ch == 2 && q == 1", tol="0.3"))

add("c03-truncated-top", [("stochasticencoder.cc", "    *decItem = gsl_cdf_gaussian_Pinv(cdfVal, rms);\n    ++decItem;\n  }\n  *encItem = std::numeric_limits<ValueType>::max();", "    *decItem = gsl_cdf_gaussian_Pinv(cdfVal, rms);\n    ++decItem;\n  }\n  // The right boundary of the last level\n  *encItem = truncationValue * rms;")],
 dict(property="C03", needs="a finite value beyond the truncation, quantized to the nearest level with a truncated Gaussian", what_it_breaks="the value gets the reserved symbol and is decoded as NaN"),
 r'''
#include "stochasticencoder.h"
#include <cstdio>
#include <cmath>
using namespace dyscostman;
int main() {
  for (int bits : {2, 4, 8, 12}) {
    StochasticEncoder<float> q = StochasticEncoder<float>::TruncatedGausEncoder(1 << bits, 2.5, 1.0);
    for (float v : {-1e10f, -3.0f, 0.1f, 2.49f, 2.51f, 100.0f, 3e38f})
      if (!std::isfinite(q.Decode(q.Encode(v)))) { std::printf("FAILED: %g becomes NaN\n", v); return 1; }
  }
}
''', build='build_codec demo.cc "$T/demo"')

add("c04-time-seed", [("dyscodatacolumn.h", "        _rnd(std::random_device{}()),", "        _rnd(static_cast<unsigned>(std::time(nullptr))),"), ("dyscodatacolumn.h", '#include "stochasticencoder.h"\n', '#include "stochasticencoder.h"\n#include <ctime>\n')],
 dict(property="C04", needs="two columns or tables that are created in the same second", what_it_breaks="the dithering of the columns is the same, so their errors are correlated"),
 HDR + r'''
int main(int, char **argv) {
  std::string f[2];
  for (int tries = 0; tries != 3; ++tries) {
  int same = 0;
  for (int i = 0; i != 2; ++i) {
    const std::string p = std::string(argv[1]) + "/t" + std::to_string(tries * 2 + i) + ".tab";
    Shape s;
    s.blocks = 1; s.ant = 8;
    {
      DyscoStMan dm(4, 12, "D");
      Table t = makeTable(p, s, dm);
      ArrayColumn<Complex> c(t, "DATA");
      for (int r = 0; r != s.rows(); ++r) c.put(r, row(s, r));
    }
    f[i] = slurp(dyscoFile(p));
  }
  CHECK(f[0] != f[1], "two tables have the same dithering");
  }
}
''')

add("c04-rf-one-dither", [("rftimeblockencoder.cc", """        symbolBufferPtr[i * 2] = gausEncoder.EncodeWithDithering(
            row.visibilities[i].real(), _ditherDist(*rnd));
        symbolBufferPtr[i * 2 + 1] = gausEncoder.EncodeWithDithering(
            row.visibilities[i].imag(), _ditherDist(*rnd));""", """        // Drawing random numbers is expensive: use one per visibility
        const unsigned dither = _ditherDist(*rnd);
        symbolBufferPtr[i * 2] = gausEncoder.EncodeWithDithering(
            row.visibilities[i].real(), dither);
        symbolBufferPtr[i * 2 + 1] = gausEncoder.EncodeWithDithering(
            row.visibilities[i].imag(), dither);""")],
 dict(property="C04", needs="RF normalization; every error on its own is still unbiased, only the real and imaginary errors together show it", what_it_breaks="the errors of the real and imaginary component of a visibility are correlated"),
 HDR + r'''
int main(int, char **argv) {
  const std::string p = std::string(argv[1]) + "/t.tab";
  Shape s;
  s.ant = 10; s.chan = 32; s.blocks = 6;
  {
    DyscoStMan dm(3, 12, "D");
    dm.SetNormalization(Normalization::kRF);
    Table t = makeTable(p, s, dm);
    ArrayColumn<Complex> c(t, "DATA");
    for (int r = 0; r != s.rows(); ++r) { Array<Complex> a = row(s, r); for (auto &v : a) v = cf(v.real(), v.real()); c.put(r, a); }
  }
  Table t(p);
  ArrayColumn<Complex> c(t, "DATA");
  double xy = 0, xx = 0, yy = 0;
  for (int r = 0; r != s.rows(); ++r) {
    const Array<Complex> a = row(s, r), b = c(r);
    auto j = b.begin();
    for (auto i = a.begin(); i != a.end(); ++i, ++j) {
      const double x = j->real() - i->real(), y = j->imag() - i->real();
      xy += x * y; xx += x * x; yy += y * y;
    }
  }
  const double corr = xy / std::sqrt(xx * yy);
  std::printf("correlation %g\n", corr);
  CHECK(std::fabs(corr) < 0.1, "correlated");
}
''')

add("c05-float-quantile", [("stochasticencoder.cc", "    double val = ((num_t)i + num_t(0.5)) / (num_t)(quantCount - 1);\n    double cdfVal = val * factor + cdfValueAtTrunc;", "    const ValueType val = ((num_t)i + num_t(0.5)) / (num_t)(quantCount - 1);\n    double cdfVal = val * factor + cdfValueAtTrunc;")],
 dict(property="C05", needs="a truncated Gaussian with many levels (12 or 16 bits)", what_it_breaks="the levels are rounded: not symmetric any more and different from those of the files that exist"),
 r'''
#include "stochasticencoder.h"
#include <cstdio>
#include <cmath>
using namespace dyscostman;
int main() {
  StochasticEncoder<float> q = StochasticEncoder<float>::TruncatedGausEncoder(1 << 16, 2.5, 1.0);
  const unsigned n = (1 << 16) - 1;
  int bad = 0;
  for (unsigned i = 0; i != n; ++i)
    if (std::fabs(q.Decode(i) + q.Decode(n - 1 - i)) > 1e-7) ++bad;
  std::printf("%d of %u levels are not symmetric\n", bad, n);
  return bad > 20 ? 1 : 0;
}
''', build='build_codec demo.cc "$T/demo"')

add("c07-negative-imag", [("aftimeblockencoder.cc", """            double local_max = std::max(std::max(ptr->real(), ptr->imag()),
                                       -std::min(ptr->real(), ptr->imag()));
            if (std::isfinite(local_max) && local_max > largest_component)""", """            double local_max = std::max(std::fabs(ptr->real()), ptr->imag());
            if (std::isfinite(local_max) && local_max > largest_component)""")],
 dict(property="C07", needs="AF normalization and a channel of which the largest component is a negative imaginary one, while no antenna limits the factor", what_it_breaks="the channel is scaled beyond the range, and its largest values are clipped"),
 acc(shape="s.ant = 3; s.chan = 3; s.blocks = 6; s.pol = 1;", bits=12, change="for (auto &v : a) v = cf(v.real() * 0.2f, -std::fabs(v.imag()));", tol="1e9").replace("const Array<Complex> a = row(s, r), b = c(r);", "Array<Complex> a = row(s, r); for (auto &v : a) v = cf(v.real() * 0.2f, -std::fabs(v.imag())); const Array<Complex> b = c(r);").replace("1e9", "0.05"))

add("c07-ddid-blocks", [("threadeddyscocolumn.cc", "    } else if (time != _lastWrittenTime || fieldId != _lastWrittenField ||\n               dataDescId != _lastWrittenDataDescId) {", "    } else if (time != _lastWrittenTime || fieldId != _lastWrittenField) {")],
 dict(property="C07", needs="a table in which the second time block differs from the first only by DATA_DESC_ID", what_it_breaks="two bands form one block and are scaled together"),
 HDR + r'''
int main(int, char **argv) {
  const std::string p = std::string(argv[1]) + "/t.tab";
  Shape s;
  s.blocks = 8;
  DyscoStMan dm(8, 12, "D");
  {
    Table t = makeTable(p, s, dm);
    ScalarColumn<double> time(t, "TIME");
    ScalarColumn<int> dd(t, "DATA_DESC_ID");
    for (int r = 0; r != s.rows(); ++r) { time.put(r, 10.0 + r / s.rowsPerBlock() / 2); dd.put(r, r / s.rowsPerBlock() % 2); }
    ArrayColumn<Complex> c(t, "DATA");
    for (int r = 0; r != s.rows(); ++r) c.put(r, row(s, r, 1, r / s.rowsPerBlock() % 2 ? 1000.0 : 1.0));
  }
  Table t(p);
  ArrayColumn<Complex> c(t, "DATA");
  for (int r = 0; r != s.rows(); ++r) {
    const float g = r / s.rowsPerBlock() % 2 ? 1000.0 : 1.0;
    const double d = maxDiff(c(r), row(s, r, 1, g)) / g;
    CHECK(d < 0.5, "row %d: error %g", r, d);
  }
}
''')

add("c08-zero-polarization", [("weightblockencoder.h", """        for (size_t p = 1; p != _nPolarizations; ++p)
          if (visPtr[p] < weight) weight = visPtr[p];

        *symbolBuffer""", """        for (size_t p = 1; p != _nPolarizations; ++p)
          if (visPtr[p] < weight && visPtr[p] > 0.0) weight = visPtr[p];

        *symbolBuffer""")],
 dict(property="C08", needs="a weight that is zero in one polarization (not the first) and positive in others", what_it_breaks="the weight becomes positive, or larger than the range"),
 HDR + r'''
int main(int, char **argv) {
  const std::string p = std::string(argv[1]) + "/t.tab";
  Shape s;
  DyscoStMan dm(8, 12, "D");
  {
    Table t = makeTable(p, s, dm, true);
    ArrayColumn<Complex> c(t, "DATA");
    ArrayColumn<float> w(t, "WEIGHT_SPECTRUM");
    for (int r = 0; r != s.rows(); ++r) {
      c.put(r, row(s, r));
      Array<float> a(IPosition(2, s.pol, s.chan), 1.0f);
      if (r == 3) a(IPosition(2, 1, 2)) = 0.0f;
      w.put(r, a);
    }
  }
  Table t(p);
  ArrayColumn<float> w(t, "WEIGHT_SPECTRUM");
  CHECK(w(3)(IPosition(2, 0, 2)) == 0.0f && w(3)(IPosition(2, 1, 2)) == 0.0f, "a zero weight became %g", w(3)(IPosition(2, 1, 2)));
}
''')

add("c08-tiny-weights", [("weightblockencoder.h", "        *symbolBuffer = roundf(double(weight) * scaleValue);", "        *symbolBuffer = roundf(weight * float(scaleValue));")],
 dict(property="C08", needs="a block of which all weights are tiny (below 1e-34)", what_it_breaks="the scale overflows single precision, and the weights are lost"),
 HDR + r'''
int main(int, char **argv) {
  const std::string p = std::string(argv[1]) + "/t.tab";
  Shape s;
  DyscoStMan dm(8, 16, "D");
  {
    Table t = makeTable(p, s, dm, true);
    ArrayColumn<Complex> c(t, "DATA");
    ArrayColumn<float> w(t, "WEIGHT_SPECTRUM");
    for (int r = 0; r != s.rows(); ++r) {
      c.put(r, row(s, r));
      w.put(r, Array<float>(IPosition(2, s.pol, s.chan), r % 2 ? 1e-36f : 5e-37f));
    }
  }
  Table t(p);
  ArrayColumn<float> w(t, "WEIGHT_SPECTRUM");
  for (int r = 0; r != s.rows(); ++r) {
    const float v = w(r)(IPosition(2, 0, 0)), e = r % 2 ? 1e-36f : 5e-37f;
    CHECK(std::fabs(v - e) < 1e-40, "weight %g became %g", e, v);
  }
}
''')

add("c10-level-cache", [("dyscodatacolumn.cc", "#include \"rowtimeblockencoder.h\"\n", "#include \"rowtimeblockencoder.h\"\n\n#include <map>\n"), ("dyscodatacolumn.cc", """    case TruncatedGaussianDistribution:
      _gausEncoder.reset(new StochasticEncoder<float>(
          StochasticEncoder<float>::TruncatedGausEncoder(
              1 << getBitsPerSymbol(), distributionTruncation, 1.0)));
      break;
""", """    case TruncatedGaussianDistribution: {
      // Calculating the levels is slow, so keep them
      static std::map<unsigned, StochasticEncoder<float>> levels;
      std::map<unsigned, StochasticEncoder<float>>::iterator item =
          levels.find(getBitsPerSymbol());
      if (item == levels.end())
        item = levels
                   .emplace(getBitsPerSymbol(),
                            StochasticEncoder<float>::TruncatedGausEncoder(
                                1 << getBitsPerSymbol(), distributionTruncation,
                                1.0))
                   .first;
      _gausEncoder.reset(new StochasticEncoder<float>(item->second));
    } break;
""")],
 dict(property="C10", needs="two managers with the same bit rate but different truncations in one process", what_it_breaks="the second manager uses the levels of the first: its files can not be interpreted by another process"),
 HDR + r'''
int main(int argc, char **argv) {
  const std::string p = std::string(argv[1]) + "/a.tab", q = std::string(argv[1]) + "/b.tab";
  Shape s;
  if (argc == 2) {  // write two tables with different truncations
    DyscoStMan a(10, 12, "D"), b(10, 12, "D");
    a.SetTruncatedGaussianDistribution(1.5);
    b.SetTruncatedGaussianDistribution(3.5);
    for (int i = 0; i != 2; ++i) {
      Table t = makeTable(i ? q : p, s, i ? b : a);
      ArrayColumn<Complex> c(t, "DATA");
      for (int r = 0; r != s.rows(); ++r) c.put(r, row(s, r));
    }
  } else {
    Table t(q);
    ArrayColumn<Complex> c(t, "DATA");
    for (int r = 0; r != s.rows(); ++r) CHECK(maxDiff(c(r), row(s, r)) < 0.5, "row %d is wrong: %g", r, maxDiff(c(r), row(s, r)));
  }
}
''', run="bash -c '\"$T/demo\" \"$T\" && \"$T/demo\" \"$T\" read'")

add("c11-nblocks-lock", [("dyscostman.h", "    std::lock_guard<std::mutex> lock(_mutex);\n    return _nBlocksInFile;", "    return _nBlocksInFile;")],
 dict(property="C11", needs="the number of blocks is asked while a background thread stores a block", what_it_breaks="data race on the number of blocks"),
 HDR + r'''
int main(int, char **argv) {
  Shape s;
  s.blocks = 30; s.chan = 16;
  for (int i = 0; i != 6; ++i) {
    const std::string p = std::string(argv[1]) + "/t" + std::to_string(i) + ".tab";
    DyscoStMan dm(8, 12, "D");
    Table t = makeTable(p, s, dm);
    ArrayColumn<Complex> c(t, "DATA");
    for (int r = 0; r != s.rows(); ++r) { c.put(r, row(s, r)); if (r > 40 && r % 5 == 0) c(r - 30); }
  }
}
''', build='build_demo demo.cc "$T/demo" "-fsanitize=thread -g"', run='env TSAN_OPTIONS=halt_on_error=1:exitcode=66 "$T/demo" "$T"')

add("c11-late-flag", [("threadeddyscocolumn.cc", "      item.isBeingWritten = true;\n\n      lock.unlock();", "      lock.unlock();\n      item.isBeingWritten = true;\n")],
 dict(property="C11", needs="two background threads look for work at the same time", what_it_breaks="two threads may take the same block: race, and the block is freed twice"),
 HDR + r'''
int main(int, char **argv) {
  Shape s;
  s.blocks = 40; s.chan = 16;
  for (int i = 0; i != 6; ++i) {
    const std::string p = std::string(argv[1]) + "/t" + std::to_string(i) + ".tab";
    DyscoStMan dm(8, 12, "D");
    Table t = makeTable(p, s, dm);
    ArrayColumn<Complex> c(t, "DATA");
    for (int r = 0; r != s.rows(); ++r) c.put(r, row(s, r));
  }
}
''', build='build_demo demo.cc "$T/demo" "-fsanitize=thread -g"', run='env TSAN_OPTIONS=halt_on_error=1:exitcode=66 "$T/demo" "$T"')

add("c12-notify-one", [("threadeddyscocolumn.cc", "      cache.erase(i);\n      parent->_cacheChangedCondition.notify_all();", "      cache.erase(i);\n      parent->_cacheChangedCondition.notify_one();")],
 dict(property="C12", needs="a background thread is idle while the writing thread waits for a block to be stored (a particular schedule)", what_it_breaks="the notification goes to the idle thread, and writing or closing waits forever"),
 HDR + r'''
int main(int, char **argv) {
  Shape s;
  s.blocks = 30; s.chan = 4;
  for (int i = 0; i != 60; ++i) {
    const std::string p = std::string(argv[1]) + "/t.tab";
    DyscoStMan dm(8, 12, "D");
    {
      Table t = makeTable(p, s, dm);
      ArrayColumn<Complex> c(t, "DATA");
      for (int r = 0; r != s.rows(); ++r) c.put(r, row(s, r));
    }
    Table t(p);
    t.markForDelete();
  }
}
''', run='timeout 60 "$T/demo" "$T"')

add("c15-search-overread", [("dictionary.h", """    while (step != 0) {
      const size_t idx = std::min(step, n - 1);
      const value_t* probe = it + idx;

      // Branchless: compiler should emit cmov
      if (probe < base + n && *probe < val) it = probe;

      step >>= 1;
    }

    // Final correction: ensure we return first >= val
    return (it < base + n && *it < val) ? it + 1 : it;
  }

  /**
   * Branchless version""", """    while (step != 0) {
      const size_t idx = std::min(step, n - 1);
      const value_t* probe = it + idx;

      // Branchless: compiler should emit cmov
      if (probe <= base + n && *probe < val) it = probe;

      step >>= 1;
    }

    // Final correction: ensure we return first >= val
    return (it < base + n && *it < val) ? it + 1 : it;
  }

  /**
   * Branchless version""")],
 dict(property="C15", needs="a search for a value above all levels", what_it_breaks="one element beyond the dictionary is read"),
 r'''
#include <algorithm>
#include "dictionary.h"
#include <cstdio>
using namespace dyscostman;
int main() {
  for (size_t n = 2; n != 40; ++n) {
    Dictionary d(n);
    for (size_t i = 0; i != n; ++i) d.begin()[i] = i;
    if (d.lower_bound(1e9f) != d.end()) return 1;
  }
}
''', build='build_codec demo.cc "$T/demo" "-fsanitize=address"')

add("c10-long-name", [("header.h", "           storageManagerName.size() + 2 * 2 +  // 2 x uint16", "           static_cast<uint8_t>(storageManagerName.size()) + 2 * 2 +  // 2 x uint16")],
 dict(property="C10", needs="a storage manager with a name of more than 255 characters", what_it_breaks="the data overwrite the header, and the table can not be opened"),
 HDR + r'''
int main(int, char **argv) {
  const std::string p = std::string(argv[1]) + "/t.tab";
  Shape s;
  {
    DyscoStMan dm(12, 12, std::string(300, 'n'));
    Table t = makeTable(p, s, dm);
    ArrayColumn<Complex> c(t, "DATA");
    for (int r = 0; r != s.rows(); ++r) c.put(r, row(s, r));
  }
  Table t(p);
  ArrayColumn<Complex> c(t, "DATA");
  for (int r = 0; r != s.rows(); ++r) CHECK(maxDiff(c(r), row(s, r)) < 0.1, "row %d", r);
}
''')

TOOL = r'''
#include <casacore/tables/DataMan/StandardStMan.h>
// A measurement-set like table with standard storage; rows of zero FLAG except as given
inline void makeMs(const std::string &path, const Shape &s, bool weights, int flaggedRow) {
  TableDesc td = keyDesc();
  const IPosition shape(2, s.pol, s.chan);
  td.addColumn(ArrayColumnDesc<Complex>("DATA", shape));
  td.addColumn(ArrayColumnDesc<bool>("FLAG", shape));
  if (weights) td.addColumn(ArrayColumnDesc<float>("WEIGHT_SPECTRUM", shape));
  SetupNewTable setup(path, td, Table::New);
  Table t(setup, s.rows());
  fillKeys(t, s);
  ArrayColumn<Complex> c(t, "DATA");
  ArrayColumn<bool> f(t, "FLAG");
  for (int r = 0; r != s.rows(); ++r) {
    c.put(r, row(s, r));
    f.put(r, Array<bool>(shape, r == flaggedRow));
    if (weights) ArrayColumn<float>(t, "WEIGHT_SPECTRUM").put(r, Array<float>(shape, 1.0f + r));
  }
}
'''
add("c17-distribution", [("dscompress.cc", "        dataManager.SetGaussianDistribution();\n        break;", "        dataManager.SetGaussianDistribution();\n        [[fallthrough]];")],
 dict(property="C17", needs="dscompress with -gaussian", what_it_breaks="the uniform distribution is used instead of the requested Gaussian one"),
 HDR + TOOL + r'''
int main(int, char **argv) {
  const std::string p = std::string(argv[1]) + "/t.ms";
  Shape s;
  makeMs(p, s, false, -1);
  CHECK(system((std::string(argv[1]) + "/dscompress -gaussian " + p).c_str()) == 0, "dscompress failed");
  Table t(p);
  Record i = t.dataManagerInfo();
  bool ok = false;
  for (size_t k = 0; k != i.nfields(); ++k) {
    Record r = i.subRecord(RecordFieldId(int(k)));
    if (r.asString("TYPE") == "DyscoStMan") ok = r.subRecord("SPEC").asString("distribution") == "Gaussian";
  }
  CHECK(ok, "not the requested distribution");
}
''', build='build_demo demo.cc "$T/demo"\nbuild_tool dscompress "$T/dscompress"')

add("c18-weight-only", [("decompress.cc", '  if (isWeightReplaced) modifier.MoveColumnData<float>("WEIGHT_SPECTRUM");', '  if (isDataReplaced && isWeightReplaced)\n    modifier.MoveColumnData<float>("WEIGHT_SPECTRUM");')],
 dict(property="C18", needs="a set of which only the weights are compressed", what_it_breaks="the weights are lost"),
 HDR + TOOL + r'''
int main(int, char **argv) {
  const std::string p = std::string(argv[1]) + "/t.ms";
  Shape s;
  makeMs(p, s, true, -1);
  CHECK(system((std::string(argv[1]) + "/dscompress -column WEIGHT_SPECTRUM " + p).c_str()) == 0, "dscompress failed");
  CHECK(system((std::string(argv[1]) + "/decompress " + p).c_str()) == 0, "decompress failed");
  Table t(p);
  ArrayColumn<float> w(t, "WEIGHT_SPECTRUM");
  for (int r = 0; r != s.rows(); ++r) CHECK(std::fabs(w(r)(IPosition(2, 0, 0)) - (1.0f + r)) < 0.1, "row %d", r);
}
''', build='build_demo demo.cc "$T/demo"\nbuild_tool dscompress "$T/dscompress"\nbuild_tool decompress "$T/decompress"')

add("c18-flagged-rows", [("stmanmodifier.h", "      oldColumn.get(row, values);\n      newColumn.put(row, values);", "      oldColumn.get(row, values);\n      // Nothing to store for rows that have no valid values\n      bool isValid = false;\n      for (const T &v : values) isValid = isValid || std::isfinite(std::abs(v));\n      if (isValid) newColumn.put(row, values);")],
 dict(property="C18", needs="a row of which all samples are flagged (NaN)", what_it_breaks="the NaNs of that row become zeros: flagged data look valid"),
 HDR + TOOL + r'''
int main(int, char **argv) {
  const std::string p = std::string(argv[1]) + "/t.ms";
  Shape s;
  makeMs(p, s, true, 8);
  CHECK(system((std::string(argv[1]) + "/dscompress " + p).c_str()) == 0, "dscompress failed");
  CHECK(system((std::string(argv[1]) + "/decompress " + p).c_str()) == 0, "decompress failed");
  Table t(p);
  ArrayColumn<Complex> c(t, "DATA");
  CHECK(std::isnan(c(8)(IPosition(2, 0, 0)).real()), "a flagged sample became %g", c(8)(IPosition(2, 0, 0)).real());
}
''', build='build_demo demo.cc "$T/demo"\nbuild_tool dscompress "$T/dscompress"\nbuild_tool decompress "$T/decompress"')

add("c19-version", [("dyscostman.cc", "  if (header.versionMajor != 1 || header.versionMinor != 0) {", "  if (header.versionMajor > VERSION_MAJOR || header.versionMinor > VERSION_MINOR) {")],
 dict(property="C19", needs="a file with version 0.0 (e.g. a header of which this part was zeroed)", what_it_breaks="a file of an unknown version is read as if it were version 1.0"),
 HDR + r'''
int main(int, char **argv) {
  const std::string p = std::string(argv[1]) + "/t.tab";
  Shape s;
  {
    DyscoStMan dm(12, 12, "D");
    Table t = makeTable(p, s, dm);
    ArrayColumn<Complex> c(t, "DATA");
    for (int r = 0; r != s.rows(); ++r) c.put(r, row(s, r));
  }
  { std::fstream f(dyscoFile(p), std::ios::in | std::ios::out | std::ios::binary); f.seekp(7 * 4 + 1); f.write("\0\0\0\0", 4); }
  try { Table t(p); } catch (std::exception &e) { return 0; }
  CHECK(false, "a file with version 0.0 was accepted");
}
''')

add("c20-seek", [("dyscostman.cc", "                         unsigned char *data", "")] if False else [("dyscostman.cc", "  if (_fStream->fail())\n    throw DyscoStManError(\"I/O error: error while writing file '\" + fileName() +\n                          \"'\");\n}\n\n}  // namespace", "  if (_fStream->bad())\n    throw DyscoStManError(\"I/O error: error while writing file '\" + fileName() +\n                          \"'\");\n}\n\n}  // namespace")],
 dict(property="C20", needs="positioning in the file fails when a block is stored", what_it_breaks="the block is not written, and nothing is reported"),
 HDR + r'''
#include <dlfcn.h>
#include <unistd.h>
static bool fault = false; static int hits = 0;
static off_t seek_(int fd, off_t o, int w) {
  static off_t (*real)(int, off_t, int) = (off_t(*)(int, off_t, int))dlsym(RTLD_NEXT, "lseek");
  if (fault && o > 0) { char b[300] = {}, l[64]; snprintf(l, 64, "/proc/self/fd/%d", fd); readlink(l, b, 299); if (strstr(b, "table.f0")) { ++hits; errno = EIO; return -1; } }
  return real(fd, o, w);
}
off_t lseek_a(int fd, off_t o, int w) __asm__("lseek");
off_t lseek_a(int fd, off_t o, int w) { return seek_(fd, o, w); }
off_t lseek_b(int fd, off_t o, int w) __asm__("lseek64");
off_t lseek_b(int fd, off_t o, int w) { return seek_(fd, o, w); }
int main(int, char **argv) {
  const std::string p = std::string(argv[1]) + "/t.tab";
  Shape s;
  if (fork() == 0) {
    { DyscoStMan dm(12, 12, "D"); Table t = makeTable(p, s, dm); ArrayColumn<Complex> c(t, "DATA");
      for (int r = 0; r != s.rows(); ++r) { c.put(r, row(s, r)); if (r == s.rowsPerBlock() * 2) fault = true; } }
    _exit(hits ? 0 : 3);
  }
  int st = 0; wait(&st);
  std::printf("status %d\n", st);
  if (st != 0) return 0;  // reported
  CHECK(false, "the data were not stored but no error was reported");
}
''', build='build_demo demo.cc "$T/demo" -rdynamic')

add("c22-remove-row", [("dyscostman.cc", "  if (rowNr != _nRow - 1)", "  if (rowNr >= _nRow)")],
 dict(property="C22", needs="removing a row in the middle of the table", what_it_breaks="the other rows are combined with the wrong data without an error"),
 HDR + r'''
int main(int, char **argv) {
  const std::string p = std::string(argv[1]) + "/t.tab";
  Shape s;
  DyscoStMan dm(12, 12, "D");
  Table t = makeTable(p, s, dm);
  ArrayColumn<Complex> c(t, "DATA");
  for (int r = 0; r != s.rows(); ++r) c.put(r, row(s, r));
  try { t.removeRow(3); } catch (std::exception &e) { return 0; }
  CHECK(false, "removing a row in the middle was accepted");
}
''')

add("c23-fast-path", [("dictionary.h", "    return lower_bound_branchless_two_minimum(val);", "    // Values that are scaled to the maximum are common\n    if (val == largest_value()) return end() - 1;\n    return lower_bound_branchless_two_minimum(val);")],
 dict(property="C23", needs="a dictionary of which the largest value is present more than once", what_it_breaks="the last instead of the first position of that value is returned"),
 r'''
#include <algorithm>
#include "dictionary.h"
#include <cstdio>
using namespace dyscostman;
int main() {
  Dictionary d(7);
  for (size_t i = 0; i != 7; ++i) d.begin()[i] = std::min<size_t>(i, 4);
  if (d.lower_bound(4.0f) - d.begin() != 4) { std::printf("FAILED: %d\n", int(d.lower_bound(4.0f) - d.begin())); return 1; }
}
''', build='build_codec demo.cc "$T/demo"')
