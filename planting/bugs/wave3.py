HDR = '#include "demo.h"\n#include <sys/wait.h>\n#include <unistd.h>\n'
# a demo that writes a table with one manager and checks the accuracy
ACC = HDR + r'''
int main(int, char **argv) {
  const std::string p = std::string(argv[1]) + "/t.tab";
  Shape s;
  %(shape)s
  DyscoStMan dm(%(bits)d, 12, "D");
  %(settings)s
  {
    Table t = makeTable(p, s, dm);
    ArrayColumn<Complex> c(t, "DATA");
    for (int r = 0; r != s.rows(); ++r) { Array<Complex> a = row(s, r); %(change)s c.put(r, a); }
  }
  Table t(p);
  ArrayColumn<Complex> c(t, "DATA");
  for (int r = 0; r != s.rows(); ++r) {
    const Array<Complex> a = row(s, r), b = c(r);
    for (int ch = 0; ch != s.chan; ++ch) for (int q = 0; q != s.pol; ++q) {
      if (%(skip)s) continue;
      const cf x = a(IPosition(2, q, ch)), y = b(IPosition(2, q, ch));
      CHECK(std::abs(x - y) < %(tol)s, "row %%d ch %%d pol %%d: (%%g,%%g) became (%%g,%%g)", r, ch, q, x.real(), x.imag(), y.real(), y.imag());
    }
  }
}
'''
def acc(shape="", bits=12, settings="", change="", skip="false", tol="0.1"):
    return ACC % dict(shape=shape, bits=bits, settings=settings, change=change, skip=skip, tol=tol)


TOOL = r'''
#include <casacore/tables/DataMan/StandardStMan.h>
// A measurement-set like table with standard storage; rows of zero FLAG except as given
inline void makeMs(const std::string &path, const Shape &s, bool weights, int flaggedRow) {
  TableDesc td = keyDesc();
  const IPosition shape(2, s.pol, s.chan);
  td.addColumn(ArrayColumnDesc<Complex>("DATA", shape));
  td.addColumn(ArrayColumnDesc<bool>("FLAG", shape));
  if (weights) td.addColumn(ArrayColumnDesc<float>("WEIGHT_SPECTRUM", shape));
  SetupNewTable setup(path, td, Table::New);
  Table t(setup, s.rows());
  fillKeys(t, s);
  ArrayColumn<Complex> c(t, "DATA");
  ArrayColumn<bool> f(t, "FLAG");
  for (int r = 0; r != s.rows(); ++r) {
    c.put(r, row(s, r));
    f.put(r, Array<bool>(shape, r == flaggedRow));
    if (weights) ArrayColumn<float>(t, "WEIGHT_SPECTRUM").put(r, Array<float>(shape, 1.0f + r));
  }
}
'''

CODEC = r'''
#include "aftimeblockencoder.h"
#include "rftimeblockencoder.h"
#include "rowtimeblockencoder.h"
#include "bytepacker.h"
#include "weightblockencoder.h"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <random>
using namespace dyscostman;
typedef TimeBlockBuffer<std::complex<float>> Buf;
'''
CB = 'build_codec demo.cc "$T/demo"'
TB = 'build_demo demo.cc "$T/demo"\nbuild_tool dscompress "$T/dscompress"\nbuild_tool decompress "$T/decompress"'

add("c01-antenna-cutoff", [("aftimeblockencoder.cc", "      if (_rmsPerAntenna[i] < maxVal * 1e-5) _rmsPerAntenna[i] = 0.0;", "      if (_rmsPerAntenna[i] < maxVal * 1e-4) _rmsPerAntenna[i] = 0.0;")],
 dict(property="C01", needs="AF normalization and an antenna with a much smaller gain than the others", what_it_breaks="the data of that antenna are lost"),
 HDR + r'''
int main(int, char **argv) {
  const std::string p = std::string(argv[1]) + "/t.tab";
  Shape s; s.ant = 6;
  const auto bl = s.baselines();
  auto gain = [&](int r) { const auto b = bl[r % bl.size()]; return (b.first == 2 || b.second == 2) ? 2e-5f : 1.0f; };
  DyscoStMan dm(12, 12, "D");
  {
    Table t = makeTable(p, s, dm);
    ArrayColumn<Complex> c(t, "DATA");
    for (int r = 0; r != s.rows(); ++r) c.put(r, row(s, r, 1, gain(r)));
  }
  Table t(p);
  ArrayColumn<Complex> c(t, "DATA");
  for (int r = 0; r != s.rows(); ++r) CHECK(maxDiff(c(r), row(s, r, 1, gain(r))) < 0.2 * gain(r), "row %d has error %g", r, maxDiff(c(r), row(s, r, 1, gain(r))));
}
''')

add("c03-inf-clipped", [("stochasticencoder.h", "  symbol_t Encode(ValueType value) const {\n    if (std::isfinite(value))\n", "  symbol_t Encode(ValueType value) const {\n    if (!std::isnan(value))\n")],
 dict(property="C03", needs="an infinite (not NaN) value, quantized to the nearest level", what_it_breaks="infinite values become finite data"),
 CODEC + r"""
int main() {
  StochasticEncoder<float> q(256, 1.0, true);
  for (float v : {INFINITY, -INFINITY}) {
    const float d = q.Decode(q.Encode(v));
    if (!std::isnan(d)) { std::printf("FAILED: %g became %g\n", v, d); return 1; }
  }
}
""", build=CB)

add("c05-early-stop", [("stochasticencoder.cc", "      if (notConverging > 10) return x;", "      return x;")],
 dict(property="C05", needs="a level for which the bisection does not approach the quantile in every step", what_it_breaks="levels of the Gaussian distribution are not at their quantiles, nor in order"),
 CODEC + r'''
int main() {
  for (int bits : {2, 3, 4, 6, 8, 10, 12, 16}) {
    StochasticEncoder<float> q(1 << bits, 1.0, true);
    const int n = (1 << bits) - 1;
    for (int i = 0; i != n; ++i) {
      const double c = 0.5 * std::erfc(-double(q.Decode(i)) / std::sqrt(3.0) / M_SQRT2);
      if (std::fabs(c - (i + 0.5) / n) > 1e-6) { std::printf("FAILED: bits %d level %d: %g instead of %g\n", bits, i, c, (i + 0.5) / n); return 1; }
    }
  }
}
''', build=CB)

add("c05-coarse-quantiles", [("stochasticencoder.h", "  static num_t invCumulative(num_t c, num_t err = num_t(1e-13));", "  static num_t invCumulative(num_t c, num_t err = num_t(1e-7));")],
 dict(property="C05", needs="Gaussian distribution with 16 bits", what_it_breaks="levels change by up to several percent of a step: files that were written before are read with other values"),
 CODEC + r'''
int main() {
  StochasticEncoder<float> q(1 << 16, 1.0, true);
  const int n = (1 << 16) - 1;
  for (int i = 0; i != n; ++i) {
    const double c = 0.5 * std::erfc(-double(q.Decode(i)) / std::sqrt(3.0) / M_SQRT2);
    if (std::fabs(c - (i + 0.5) / n) > 5e-7 / 16 + 3e-7 * std::fabs(q.Decode(i))*std::exp(-std::pow(q.Decode(i)/std::sqrt(3.0), 2)/2)) { std::printf("FAILED: level %d: %.10g instead of %.10g\n", i, c, (i + 0.5) / n); return 1; }
  }
}
''', build=CB)

PACK = CODEC + r'''
int main() {
  for (unsigned bits : {2, 3, 4, 6, 8, 10, 12, 16})
    for (size_t n = 1; n != 40; ++n) for (int rep = 0; rep != 20; ++rep) {
      std::mt19937 g(n * 31 + rep);
      std::vector<unsigned> s(n), r(n + 1, 0xABCDABCD);
      for (auto &v : s) v = rep == 0 ? (1u << bits) - 1 : g() & ((1u << bits) - 1);
      const size_t size = BytePacker::bufferSize(n, bits);
      std::vector<uint16_t> buf(size / 2 + 4, 0x5A5A);
      unsigned char *b = (unsigned char *)buf.data();
      BytePacker::pack(bits, b, s.data(), n);
      if (b[size] != 0x5A) { std::printf("FAILED: pack%u of %zu symbols writes past the end\n", bits, n); return 1; }
      memset(b + size, 0x5A, 4);
      BytePacker::unpack(bits, r.data(), b, n);
      if (!std::equal(s.begin(), s.end(), r.begin()) || r[n] != 0xABCDABCD) { std::printf("FAILED: unpack%u of %zu symbols\n", bits, n); return 1; }
    }
}
'''
add("c06-unpack12-tail", [("bytepacker.h", "  if (limit * 2 != symbolCount) {\n    *symbolBuffer = *packedBuffer;  // bits 1-8 into 1-8\n    ++packedBuffer;\n    *symbolBuffer |= ((*packedBuffer) & 0x0F) << 8;  // bits 1-4 into 9-12", "  if (limit * 2 != symbolCount) {\n    *symbolBuffer = *packedBuffer;  // bits 1-8 into 1-8\n    ++packedBuffer;\n    *symbolBuffer |= (*packedBuffer) << 8;  // bits 1-4 into 9-12")],
 dict(property="C06", needs="12 bits, an odd number of symbols, and packed data of another writer that does not zero the unused bits", what_it_breaks="the last symbol gets bits that do not belong to it"),
 CODEC + r'''
int main() {
  unsigned s[3] = {1, 2, 0xABC}, r[3];
  unsigned char b[6] = {};
  BytePacker::pack(12, b, s, 3);
  b[4] |= 0xF0;
  BytePacker::unpack(12, r, b, 3);
  if (r[2] != 0xABC) { std::printf("FAILED: %x\n", r[2]); return 1; }
}
''', build=CB)

add("c08-first-polarization", [("weightblockencoder.h", "        if (weight > maxValue) maxValue = weight;", "        if (*visPtr > maxValue) maxValue = *visPtr;")],
 dict(property="C08", needs="polarizations with different weights", what_it_breaks="the largest weight does not keep its value and weights are stored with a coarser step"),
 CODEC + r'''
int main() {
  WeightBlockEncoder e(2, 1, 16);
  TimeBlockBuffer<float> b(2, 1);
  const float w[2][2] = {{100.0f, 1.0f}, {0.5f, 0.5f}};
  b.SetData(0, 0, 1, w[0]);
  b.SetData(1, 0, 2, w[1]);
  float meta; unsigned sym[2];
  e.Encode(b, &meta, sym);
  TimeBlockBuffer<float> o(2, 1); o.resize(2);
  e.InitializeDecode(&meta); e.Decode(o, sym, 0); e.Decode(o, sym, 1);
  float v[2]; o.GetData(0, v);
  if (std::fabs(v[0] - 1.0) > 0.04) { std::printf("FAILED: %g\n", v[0]); return 1; }
}
''', build=CB)

add("c10-spec-float", [("dyscostman.cc", '  spec.define("distributionTruncation", _distributionTruncation);', '  spec.define("distributionTruncation", float(_distributionTruncation));')],
 dict(property="C10", needs="a truncation that is not exactly representable in single precision, and a copy of the table", what_it_breaks="the copy is made with other settings than the original"),
 HDR + r'''
int main(int, char **argv) {
  const std::string p = std::string(argv[1]) + "/t.tab";
  Shape s;
  DyscoStMan dm(8, 12, "D");
  dm.SetTruncatedGaussianDistribution(2.3);
  Table t = makeTable(p, s, dm);
  ArrayColumn<Complex> c(t, "DATA");
  for (int r = 0; r != s.rows(); ++r) c.put(r, row(s, r));
  Record i = t.dataManagerInfo();
  for (size_t k = 0; k != i.nfields(); ++k) {
    Record r = i.subRecord(RecordFieldId(int(k)));
    if (r.asString("TYPE") == "DyscoStMan") CHECK(r.subRecord("SPEC").asDouble("distributionTruncation") == 2.3, "truncation %.12g", r.subRecord("SPEC").asDouble("distributionTruncation"));
  }
}
''')

add("c11-if-being-written", [("threadeddyscocolumn.cc", "  while (i != _cache.end() && i->second->isBeingWritten) ++i;", "  if (i != _cache.end() && i->second->isBeingWritten) ++i;")],
 dict(property="C11", needs="three blocks that are stored at the same time", what_it_breaks="two threads store and delete the same block"),
 HDR + r'''
int main(int, char **argv) {
  Shape s; s.ant = 8; s.chan = 64; s.pol = 4; s.blocks = 60;
  std::vector<Array<Complex>> rows;
  for (int r = 0; r != s.rowsPerBlock(); ++r) rows.push_back(row(s, r));
  for (int rep = 0; rep != 5; ++rep) {
    const std::string p = std::string(argv[1]) + "/t" + std::to_string(rep) + ".tab";
    {
      DyscoStMan dm(12, 12, "D");
      Table t = makeTable(p, s, dm);
      ArrayColumn<Complex> c(t, "DATA");
      for (int r = 0; r != s.rows(); ++r) c.put(r, rows[r % s.rowsPerBlock()]);
    }
    Table t(p);
    ArrayColumn<Complex> c(t, "DATA");
    for (int r = 0; r != s.rows(); ++r) CHECK(maxDiff(c(r), rows[r % s.rowsPerBlock()]) < 0.2, "row %d", r);
  }
}
''', build='build_demo demo.cc "$T/demo" -fsanitize=address')

add("c13-far-blocks", [("dyscostman.h", "    return _blockSize * blockIndex + _headerSize;", "    return _blockSize * uint32_t(blockIndex) + _headerSize;")],
 dict(property="C13", needs="a file of more than 4 GB", what_it_breaks="blocks beyond 4 GB overwrite the first blocks"),
 HDR + r'''
int main(int, char **argv) {
  const std::string p = std::string(argv[1]) + "/t.tab";
  Shape s; s.ant = 2; s.chan = 65536; s.pol = 4;  // about 0.8 MB per block
  s.blocks = 6000;
  const Array<Complex> a = row(s, 1), b = row(s, 2);
  {
    DyscoStMan dm(12, 12, "D");
    Table t = makeTable(p, s, dm);
    ArrayColumn<Complex> c(t, "DATA");
    c.put(0, a);
    c.put(1, a);
    c.put(s.rows() - 1, b);  // sparse file
  }
  Table t(p);
  ArrayColumn<Complex> c(t, "DATA");
  CHECK(maxDiff(c(0), a) < 0.2, "row 0");
  CHECK(maxDiff(c(s.rows() - 1), b) < 0.2, "last row: %g", maxDiff(c(s.rows() - 1), b));
}
''')

add("c15-odd-block", [("threadeddyscocolumn.cc", "  const size_t nSymbols = symbolCount(nRowsInBlock, nPolarizations, nChannels);\n  const size_t binarySize = BytePacker::bufferSize(nSymbols, _bitsPerSymbol);\n  return", "  const size_t nSymbols = symbolCount(nRowsInBlock, nPolarizations, nChannels);\n  const size_t binarySize = nSymbols * _bitsPerSymbol / 8;\n  return")],
 dict(property="C15", needs="a number of bits in a block that is not a multiple of eight", what_it_breaks="the last byte is written beyond the buffer, and over the next column"),
 HDR + r'''
int main(int, char **argv) {
  const std::string p = std::string(argv[1]) + "/t.tab";
  Shape s; s.ant = 3; s.chan = 3; s.pol = 1;
  {
    DyscoStMan dm(3, 3, "D");
    Table t = makeTable(p, s, dm);
    ArrayColumn<Complex> c(t, "DATA");
    for (int r = 0; r != s.rows(); ++r) c.put(r, row(s, r));
  }
  Table t(p);
  ArrayColumn<Complex> c(t, "DATA");
  c(0);
}
''', build='build_demo demo.cc "$T/demo" -fsanitize=address')

add("c16-add-rows", [("dyscostman.cc", "void DyscoStMan::addRow(casacore::uInt nrrow) { _nRow += nrrow; }", "void DyscoStMan::addRow(casacore::uInt nrrow) {\n  if (nrrow > _nRow) _nRow = nrrow;\n}")],
 dict(property="C16", needs="rows that are added in several steps", what_it_breaks="rows that were added later are read as zero after their block was stored, and can not be removed"),
 HDR + r'''
int main(int, char **argv) {
  const std::string p = std::string(argv[1]) + "/t.tab";
  Shape s;
  DyscoStMan dm(12, 12, "D");
  {
    Table t = makeTable(p, s, dm);
    ArrayColumn<Complex> c(t, "DATA");
    for (int r = 0; r != s.rows(); ++r) c.put(r, row(s, r));
    t.addRow(s.rowsPerBlock());
    fillKeys(t, s);
    for (size_t r = s.rows(); r != t.nrow(); ++r) c.put(r, row(s, r));
    c(0);
    for (size_t r = 0; r != t.nrow(); ++r) CHECK(maxDiff(c(r), row(s, r)) < 0.2, "row %zu", r);
  }
}
''')

add("c17-truncation-float", [("dscompress.cc", "  double distributionTruncation = 2.5;", "  float distributionTruncation = 2.5;")],
 dict(property="C17", needs="-truncgaus with a value that is not representable in single precision", what_it_breaks="another truncation than the requested one is used"),
 HDR + TOOL + r'''
int main(int, char **argv) {
  const std::string p = std::string(argv[1]) + "/t.ms";
  Shape s;
  makeMs(p, s, false, -1);
  CHECK(system((std::string(argv[1]) + "/dscompress -truncgaus 2.3 " + p).c_str()) == 0, "dscompress failed");
  Table t(p);
  Record i = t.dataManagerInfo();
  bool ok = false;
  for (size_t k = 0; k != i.nfields(); ++k) {
    Record r = i.subRecord(RecordFieldId(int(k)));
    if (r.asString("TYPE") == "DyscoStMan") ok = r.subRecord("SPEC").asDouble("distributionTruncation") == 2.3;
  }
  CHECK(ok, "not the requested truncation");
}
''', build=TB)

add("c17-flag-nan", [("dscompress.cc", "        if (isChanged) dataCol.put(row, dataArr);", "        // Replacing the values is only needed when not all are flagged\n        if (isChanged && !casacore::allEQ(flagArr, true))\n          dataCol.put(row, dataArr);")],
 dict(property="C17", needs="a row of which all samples are flagged", what_it_breaks="flagged samples of that row keep their values, and influence the scale of the block"),
 HDR + TOOL + r'''
int main(int, char **argv) {
  const std::string p = std::string(argv[1]) + "/t.ms";
  Shape s;
  makeMs(p, s, false, 8);
  CHECK(system((std::string(argv[1]) + "/dscompress " + p).c_str()) == 0, "dscompress failed");
  Table t(p);
  ArrayColumn<Complex> c(t, "DATA");
  CHECK(std::isnan(c(8)(IPosition(2, 0, 0)).real()), "a flagged sample is %g", c(8)(IPosition(2, 0, 0)).real());
}
''', build=TB)

add("c18-trailing-slashes", [("stmanmodifier.h", "    while (*tempName.rbegin() == '/') tempName.resize(tempName.size() - 1);", "    if (*tempName.rbegin() == '/') tempName.resize(tempName.size() - 1);")],
 dict(property="C18", needs="a path with more than one trailing slash", what_it_breaks="the set is lost or decompressing fails"),
 HDR + TOOL + r'''
int main(int, char **argv) {
  const std::string p = std::string(argv[1]) + "/t.ms";
  Shape s;
  makeMs(p, s, true, -1);
  CHECK(system((std::string(argv[1]) + "/dscompress " + p).c_str()) == 0, "dscompress failed");
  CHECK(system((std::string(argv[1]) + "/decompress " + p + "//").c_str()) == 0, "decompress failed");
  try {
    Table t(p);
    ArrayColumn<Complex> c(t, "DATA");
    CHECK(maxDiff(c(3), row(s, 3)) < 0.3, "row 3");
    CHECK(c.columnDesc().dataManagerType() != "DyscoStMan", "still compressed");
  } catch (std::exception &e) { CHECK(false, "%s", e.what()); }
}
''', build=TB)

add("c19-column-count", [("dyscostman.cc", "  if (columnCount != _columns.size()) {", "  if (columnCount < _columns.size()) {")],
 dict(property="C19", needs="a file with more columns than the table", what_it_breaks="a file that does not belong to the table is accepted"),
 HDR + r'''
int main(int, char **argv) {
  const std::string a = std::string(argv[1]) + "/a.tab", b = std::string(argv[1]) + "/b.tab";
  Shape s;
  for (int i = 0; i != 2; ++i) {
    DyscoStMan dm(12, 12, "D");
    Table t = makeTable(i ? b : a, s, dm, false, i == 1);
    ArrayColumn<Complex> c(t, "DATA");
    for (int r = 0; r != s.rows(); ++r) c.put(r, row(s, r));
    if (i) { ArrayColumn<Complex> d(t, "DATA2"); for (int r = 0; r != s.rows(); ++r) d.put(r, row(s, r)); }
  }
  const std::string x = slurp(dyscoFile(b));
  { std::ofstream f(dyscoFile(a), std::ios::binary); f.write(x.data(), x.size()); }
  try { Table t(a); } catch (std::exception &e) { return 0; }
  CHECK(false, "a file with two columns was accepted for a table with one");
}
''')

add("c21-insert-fill", [("uvector.h", "    std::uninitialized_fill_n<Tp*, size_t>(const_cast<iterator>(position), n, val);\n    return const_cast<iterator>(position);\n  }\n\n  /** @brief Insert elements at a given position and initialize them from a\n   * range.", "    std::uninitialized_fill<Tp*>(const_cast<iterator>(position), std::min(const_cast<iterator>(position) + n, _endOfStorage - 1), val);\n    return const_cast<iterator>(position);\n  }\n\n  /** @brief Insert elements at a given position and initialize them from a\n   * range.")],
 dict(property="C21", needs="elements are inserted at the end such that the capacity is used up", what_it_breaks="the last inserted element is not initialized"),
 r'''
#include <algorithm>
#include <numeric>
#include "uvector.h"
#include <cstdio>
int main() {
  aocommon::UVector<int> v;
  v.reserve(8);
  v.assign(5u, 1);
  v.data()[7] = 3;
  int seven = 7;
  const int &x = seven;
  v.insert(v.cend(), size_t(3), x);
  if (v.size() != 8 || v[7] != 7) { std::printf("FAILED: %d\n", v[7]); return 1; }
}
''', build=CB)

add("c21-shrink", [("uvector.h", "    } else if (curSize < capacity()) {\n      pointer newStorage = allocate(curSize);\n      std::move(_begin, _begin + curSize, newStorage);\n      deallocate();\n      _begin = newStorage;", "    } else if (curSize < capacity()) {\n      pointer newStorage = allocate(curSize);\n      std::move(_begin, _begin + curSize, newStorage);\n      _begin = newStorage;")],
 dict(property="C21", needs="shrink_to_fit() on a vector with spare capacity", what_it_breaks="memory leaks"),
 r'''
#include <algorithm>
#include "uvector.h"
#include <cstdio>
#include <cstdlib>
static int live = 0;
template <typename T> struct A { typedef T value_type; A() {} template <typename U> A(const A<U> &) {}
  T *allocate(size_t n) { ++live; return (T *)malloc(n * sizeof(T)); } void deallocate(T *p, size_t) { --live; free(p); }
  bool operator==(const A &) const { return true; } bool operator!=(const A &) const { return false; } };
int main() {
  { aocommon::UVector<int, A<int>> v; v.reserve(20); v.push_back(1); v.shrink_to_fit(); }
  if (live) { std::printf("FAILED: %d allocations are leaked\n", live); return 1; }
}
''', build=CB)

add("c22-unknown-normalization", [("dyscostman.cc", '    else\n      throw DyscoStManError("Unsupported normalization specified");', '    else\n      _normalization = Normalization::kAF;  // default')],
 dict(property="C22", needs="a specification with an unknown normalization", what_it_breaks="the request is accepted and another normalization is used"),
 HDR + r'''
int main(int, char **argv) {
  Record spec;
  spec.define("dataBitCount", 8u); spec.define("weightBitCount", 12u);
  spec.define("distribution", "Gaussian"); spec.define("normalization", "Rf");
  spec.define("distributionTruncation", 0.0);
  try { DataManager *d = DyscoStMan::makeObject("DyscoStMan", spec); delete d; } catch (std::exception &e) { return 0; }
  CHECK(false, "an unknown normalization was accepted");
}
''')

add("c25-leak", [("threadeddyscocolumn.cc", "      delete &item;\n      cache.erase(i);", "      item.isBeingWritten = false;\n      cache.erase(i);")],
 dict(property="C25", needs="nothing special, but only memory use shows it", what_it_breaks="every block that was stored stays in memory"),
 HDR + r'''
static long rss() { std::ifstream f("/proc/self/statm"); long a, b; f >> a >> b; return b * 4096; }
int main(int, char **argv) {
  const std::string p = std::string(argv[1]) + "/t.tab";
  Shape s; s.ant = 12; s.chan = 100; s.pol = 4; s.blocks = 300;
  DyscoStMan dm(4, 12, "D");
  Table t = makeTable(p, s, dm);
  ArrayColumn<Complex> c(t, "DATA");
  Array<Complex> a = row(s, 1);
  const long first = rss();
  for (int r = 0; r != s.rows(); ++r) c.put(r, a);
  const double blocks = double(rss() - first) / (s.rowsPerBlock() * s.chan * s.pol * 8.0);
  CHECK(blocks < 150, "%g blocks in memory", blocks);
}
''')

add("c07-zero-row", [("rowtimeblockencoder.cc", "    const double factor = (maxVal == 0.0) ? 1.0 : maxLevel / maxVal;", "    const double factor = (maxVal < 1e-12) ? 1.0 : maxLevel / maxVal;")],
 dict(property="C07", needs="Row normalization and data with very small units", what_it_breaks="the data are not scaled to the range: they become zero or noise"),
 CODEC + r'''
int main() {
  StochasticEncoder<float> q(256, 1.0, true);
  unsigned s[2][8]; float meta[1];
  for (int k = 0; k != 2; ++k) {
    RowTimeBlockEncoder e(1, 4);
    Buf b(1, 4);
    std::complex<float> v[4] = {{1, 2}, {-0.5, 0.25}, {0.125, -1}, {3, 1}};
    for (auto &x : v) x *= k ? std::ldexp(1.0f, -45) : 1.0f;
    b.SetData(0, 0, 1, v);
    e.EncodeWithoutDithering(q, b, meta, s[k], 2);
  }
  if (memcmp(s[0], s[1], sizeof s[0])) { std::printf("FAILED: symbols depend on the unit\n"); return 1; }
}
''', build=CB)

add("c06-pack10-large", [("bytepacker.h", "inline void BytePacker::pack10(unsigned char *dest,\n                               const unsigned int *symbolBuffer,\n                               size_t symbolCount) {\n  const size_t limit = symbolCount / 4;\n", "inline void BytePacker::pack10(unsigned char *dest,\n                               const unsigned int *symbolBuffer,\n                               size_t symbolCount) {\n  const size_t limit = uint16_t(symbolCount / 4);\n")],
 dict(property="C06", needs="10 bits and more than 262143 symbols", what_it_breaks="most of the symbols of a large block are not packed"),
 CODEC + r"""
int main() {
  const size_t n = 300000;
  std::vector<unsigned> s(n), r(n);
  std::mt19937 g(1);
  for (auto &v : s) v = g() & 1023;
  std::vector<unsigned char> b(BytePacker::bufferSize(n, 10));
  BytePacker::pack(10, b.data(), s.data(), n);
  BytePacker::unpack(10, r.data(), b.data(), n);
  if (r != s) { std::printf("FAILED\n"); return 1; }
}
""", build=CB)
