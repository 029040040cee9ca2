HDR = '#include "demo.h"\n#include <sys/wait.h>\n#include <unistd.h>\n'
import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "wave3.py")).read().split("CB = 'build_codec")[0])
CB = 'build_codec demo.cc "$T/demo"'
TB = 'build_demo demo.cc "$T/demo"\nbuild_tool dscompress "$T/dscompress"\nbuild_tool decompress "$T/decompress"'

add("c02-row-inf", [("rowtimeblockencoder.cc", "      if (std::isfinite(m)) maxVal = std::max(maxVal, m);", "      if (!std::isnan(m)) maxVal = std::max(maxVal, m);")],
 dict(property="C02", needs="Row normalization and an infinite (not NaN) visibility", what_it_breaks="the other samples of the row are lost"),
 acc(settings="dm.SetNormalization(Normalization::kRow);", change="if (r == 8) a(IPosition(2, 1, 2)) = Complex(INFINITY, -INFINITY);", skip="r == 8 && ch == 2 && q == 1", tol="0.05"))

add("c04-few-seeds", [("dyscodatacolumn.cc", "    newThreadData->rnd.seed(_rnd());", "    newThreadData->rnd.seed(_rnd() & 0xff);")],
 dict(property="C04", needs="comparing many threads, columns or runs", what_it_breaks="threads, columns and runs use the same sequence of random choices with a probability of 1/256 each"),
 HDR + r'''
#include <set>
int main(int, char **argv) {
  Shape s; s.blocks = 1;
  std::set<std::string> seen;
  int equal = 0;
  for (int n = 0; n != 120; ++n) {
    const std::string p = std::string(argv[1]) + "/t" + std::to_string(n) + ".tab";
    {
      DyscoStMan dm(8, 12, "D");
      Table t = makeTable(p, s, dm);
      ArrayColumn<Complex> c(t, "DATA");
      for (int r = 0; r != s.rows(); ++r) c.put(r, row(s, r));
    }
    equal += !seen.insert(slurp(dyscoFile(p))).second;
  }
  CHECK(equal == 0, "%d of 120 runs stored exactly the same", equal);
}
''')

add("c05-nu-int", [("stochasticencoder.h", "  static StochasticEncoder StudentTEncoder(size_t quantCount, double nu,", "  static StochasticEncoder StudentTEncoder(size_t quantCount, unsigned nu,")],
 dict(property="C05", needs="a Student t distribution with degrees of freedom that are not a whole number", what_it_breaks="levels are those of another distribution"),
 CODEC + r'''
#include <gsl/gsl_cdf.h>
int main() {
  StochasticEncoder<float> q = StochasticEncoder<float>::StudentTEncoder(256, 2.5, 1.0);
  for (int i = 0; i != 255; ++i) {
    const double c = gsl_cdf_tdist_P(q.Decode(i), 2.5);
    if (std::fabs(c - (i + 0.5) / 255) > 1e-5) { std::printf("FAILED: level %d: %g\n", i, c); return 1; }
  }
}
''', build=CB)

add("c07-rf-joint", [("rftimeblockencoder.cc", "    for (size_t polIndex = 0; polIndex != _nPol; ++polIndex) {\n      double max_val = 0.0;\n", "    double max_val = 0.0;\n    for (size_t polIndex = 0; polIndex != _nPol; ++polIndex) {\n")],
 dict(property="C07", needs="RF normalization and rows in which the first polarization is much stronger than the others, by factors that differ between rows", what_it_breaks="the row factors of the other polarizations are too large, so that those are stored with a coarse step"),
 HDR + r'''
int main(int, char **argv) {
  const std::string p = std::string(argv[1]) + "/t.tab";
  Shape s;
  DyscoStMan dm(8, 12, "D");
  dm.SetNormalization(Normalization::kRF);
  auto make = [&](int r) { Array<Complex> a = row(s, r); for (int ch = 0; ch != s.chan; ++ch) a(IPosition(2, 0, ch)) *= (r % 2) ? 1000.0f : 1.0f; return a; };
  {
    Table t = makeTable(p, s, dm);
    ArrayColumn<Complex> c(t, "DATA");
    for (int r = 0; r != s.rows(); ++r) c.put(r, make(r));
  }
  Table t(p);
  ArrayColumn<Complex> c(t, "DATA");
  for (int r = 0; r != s.rows(); ++r) {
    const Array<Complex> a = make(r), b = c(r);
    for (int ch = 0; ch != s.chan; ++ch) CHECK(std::abs(a(IPosition(2, 1, ch)) - b(IPosition(2, 1, ch))) < 0.3, "row %d", r);
  }
}
''')

add("c08-autos", [("weightblockencoder.h", "    float maxValue = 0.0;\n    for (const TimeBlockBuffer<float>::DataRow &row : buffer.GetVector()) {\n", "    float maxValue = 0.0;\n    for (const TimeBlockBuffer<float>::DataRow &row : buffer.GetVector()) {\n      if (row.antenna1 == row.antenna2) continue;\n")],
 dict(property="C08", needs="auto-correlations with weights that are larger than those of the cross-correlations", what_it_breaks="the largest weights are stored wrongly"),
 HDR + r'''
int main(int, char **argv) {
  const std::string p = std::string(argv[1]) + "/t.tab";
  Shape s; s.autos = true;
  const auto bl = s.baselines();
  DyscoStMan dm(8, 12, "D");
  {
    Table t = makeTable(p, s, dm, true);
    ArrayColumn<float> w(t, "WEIGHT_SPECTRUM");
    for (int r = 0; r != s.rows(); ++r) { const auto b = bl[r % bl.size()]; w.put(r, Array<float>(IPosition(2, s.pol, s.chan), b.first == b.second ? 3.0f : 1.0f)); }
  }
  Table t(p);
  ArrayColumn<float> w(t, "WEIGHT_SPECTRUM");
  for (int r = 0; r != s.rows(); ++r) { const auto b = bl[r % bl.size()]; const float v = w(r)(IPosition(2, 0, 0)); CHECK(std::fabs(v - (b.first == b.second ? 3.0 : 1.0)) < 0.01, "row %d: %g", r, v); }
}
''')

add("c09-meta-order", [("aftimeblockencoder.cc", "      metaBuffer[metaIndex + a] = _rmsPerAntenna[a];", "      metaBuffer[visPerRow + a * _nPol + p] = _rmsPerAntenna[a];"),
  ("aftimeblockencoder.cc", "    size_t metaIndex = visPerRow + antennaCount * p;\n", ""),
  ("aftimeblockencoder.cc", "  size_t metaIndex = visPerRow + antennaCount * polIndex;\n  metaBuffer[metaIndex + antennaIndex] /= factor;", "  metaBuffer[visPerRow + antennaIndex * _nPol + polIndex] /= factor;"),
  ("aftimeblockencoder.cc", "      _rmsPerAntenna[a * _nPol + p] = metaBuffer[a + p * nAntennae];", "      _rmsPerAntenna[a * _nPol + p] = metaBuffer[a * _nPol + p];")],
 dict(property="C09", needs="AF normalization with several polarizations, and a file of another version", what_it_breaks="the scale factors of the antennas are stored in another order than in the format; encoding and decoding agree with each other"),
 CODEC + r'''
int main() {
  // antenna 2 is weak in polarization 1 only
  AFTimeBlockEncoder e(2, 1, true);
  StochasticEncoder<float> q(4096, 1.0, false);
  Buf b(2, 1);
  int r = 0;
  for (int i = 0; i != 4; ++i) for (int j = i + 1; j != 4; ++j) {
    const float g = (i == 2 || j == 2) ? 0.01f : 1.0f;
    const std::complex<float> v[2] = {{1.0f, 0.5f}, {g, 0.5f * g}};
    b.SetData(r++, i, j, v);
  }
  std::vector<float> meta(e.MetaDataCount(r, 2, 1, 4));
  std::vector<unsigned> s(e.SymbolCount(r));
  e.EncodeWithoutDithering(q, b, meta.data(), s.data(), 4);
  // channel factors (2), then the antennas of polarization 0, then those of 1
  const float *m = meta.data() + 2;
  for (int a = 0; a != 4; ++a) if (std::fabs(m[a] / m[0] - 1.0) > 0.2) { std::printf("FAILED: polarization 0, antenna %d: %g\n", a, m[a]); return 1; }
  if (m[4 + 2] > 0.1 * m[4]) { std::printf("FAILED: polarization 1: %g %g\n", m[4], m[6]); return 1; }
}
''', build=CB)

add("c11-static-scratch", [("rowtimeblockencoder.cc", "  std::vector<DBufferRow> data;\n", "  static std::vector<DBufferRow> data;\n")],
 dict(property="C11", needs="two blocks that are encoded at the same time with Row normalization", what_it_breaks="threads share a buffer"),
 HDR + r'''
int main(int, char **argv) {
  Shape s; s.ant = 6; s.chan = 32; s.pol = 4; s.blocks = 60;
  const std::string p = std::string(argv[1]) + "/t.tab";
  DyscoStMan dm(12, 12, "D");
  dm.SetNormalization(Normalization::kRow);
  std::vector<Array<Complex>> rows;
  for (int r = 0; r != s.rows(); ++r) rows.push_back(row(s, r));
  {
    Table t = makeTable(p, s, dm);
    ArrayColumn<Complex> c(t, "DATA");
    for (int r = 0; r != s.rows(); ++r) c.put(r, rows[r]);
  }
  Table t(p);
  ArrayColumn<Complex> c(t, "DATA");
  for (int r = 0; r != s.rows(); ++r) CHECK(maxDiff(c(r), rows[r]) < 0.1, "row %d: %g", r, maxDiff(c(r), rows[r]));
}
''', build='build_demo demo.cc "$T/demo" -fsanitize=thread', run='setarch "$(uname -m)" -R true 2>/dev/null && W="setarch $(uname -m) -R" || W=; TSAN_OPTIONS="halt_on_error=1 suppressions=/dev/null" $W "$T/demo" "$T"')

add("c11-seek-before-lock", [("dyscostman.cc", "                                     const unsigned char *data, size_t size) {\n  std::lock_guard<std::mutex> lock(_mutex);\n", "                                     const unsigned char *data, size_t size) {\n  std::unique_lock<std::mutex> lock(_mutex);\n"),
  ("dyscostman.cc", "  size_t fileOffset = getFileOffset(blockIndex);\n  _fStream->seekp(", "  size_t fileOffset = getFileOffset(blockIndex);\n  lock.unlock();\n  _fStream->seekp("),
  ("dyscostman.cc", "  _fStream->write(reinterpret_cast<const char *>(data), size);\n", "  lock.lock();\n  _fStream->write(reinterpret_cast<const char *>(data), size);\n")],
 dict(property="C11", needs="two blocks that are written to the file at the same time", what_it_breaks="a block is written at the position of another block"),
 HDR + r'''
int main(int, char **argv) {
  Shape s; s.ant = 3; s.chan = 2; s.pol = 1; s.blocks = 3000;
  for (int rep = 0; rep != 10; ++rep) {
    const std::string p = std::string(argv[1]) + "/t" + std::to_string(rep) + ".tab";
    DyscoStMan dm(8, 12, "D");
    dm.SetNormalization(Normalization::kRow);
    std::vector<Array<Complex>> rows;
    for (int r = 0; r != s.rows(); ++r) rows.push_back(row(s, r));
    {
      Table t = makeTable(p, s, dm);
      ArrayColumn<Complex> c(t, "DATA");
      for (int r = 0; r != s.rows(); ++r) c.put(r, rows[r]);
    }
    Table t(p);
    ArrayColumn<Complex> c(t, "DATA");
    for (int r = 0; r != s.rows(); ++r) CHECK(maxDiff(c(r), rows[r]) < 0.5, "row %d: %g", r, maxDiff(c(r), rows[r]));
  }
}
''')

add("c13-erase-early", [("threadeddyscocolumn.cc", "      size_t blockIndex = i->first;\n      CacheItem &item = *i->second;\n      item.isBeingWritten = true;\n\n", "      size_t blockIndex = i->first;\n      CacheItem &item = *i->second;\n      item.isBeingWritten = true;\n      cache.erase(i);\n      parent->_cacheChangedCondition.notify_all();\n\n"),
  ("threadeddyscocolumn.cc", "      delete &item;\n      cache.erase(i);\n      parent->_cacheChangedCondition.notify_all();\n", "      delete &item;\n")],
 dict(property="C13", needs="a block is read or written again while it is being stored", what_it_breaks="older values are read; an older version of a block can overwrite a newer one"),
 HDR + r'''
int main(int, char **argv) {
  Shape s; s.ant = 10; s.chan = 256; s.pol = 4; s.blocks = 6;
  const std::string p = std::string(argv[1]) + "/t.tab";
  DyscoStMan dm(12, 12, "D");
  Table t = makeTable(p, s, dm);
  ArrayColumn<Complex> c(t, "DATA");
  const Array<Complex> a = row(s, 1), b = row(s, 2);
  auto fill = [&](int block, const Array<Complex> &v) { for (int r = 0; r != s.rowsPerBlock(); ++r) c.put(block * s.rowsPerBlock() + r, v); };
  for (int k = 0; k != s.blocks; ++k) fill(k, a);
  for (int rep = 0; rep != 20; ++rep) {
    const Array<Complex> &v = rep % 2 ? a : b;
    fill(0, v);
    c.put(s.rowsPerBlock(), a);  // the first block is stored
    usleep(1000 * (rep % 5));
    CHECK(maxDiff(c(0), v) < 0.2, "an old version was read");
    CHECK(maxDiff(c(0), v) < 0.2, "an old version was read again");
  }
}
''')

add("c14-pad4", [("threadeddyscocolumn.cc", "  writeCompressedData(blockIndex, packedSymbolBuffer,\n                      metaDataSize + binarySize);", "  // Write a multiple of four bytes\n  writeCompressedData(blockIndex, packedSymbolBuffer,\n                      (metaDataSize + binarySize + 3) / 4 * 4);"),
  ("threadeddyscocolumn.cc", "  aocommon::UVector<unsigned char> packedSymbolBuffer(parent->_blockSize);", "  aocommon::UVector<unsigned char> packedSymbolBuffer(parent->_blockSize + 4);")],
 dict(property="C14", needs="a number of bytes per block that is not a multiple of four, and several columns or blocks of which the first is written last", what_it_breaks="the first bytes of the next column or block are overwritten"),
 HDR + r'''
int main(int, char **argv) {
  const std::string p = std::string(argv[1]) + "/t.tab";
  Shape s; s.ant = 3; s.chan = 3; s.pol = 1;
  DyscoStMan dm(4, 12, "D");
  {
    Table t = makeTable(p, s, dm, false, true);
    ArrayColumn<Complex> c(t, "DATA"), d(t, "DATA2");
    for (int r = 0; r != s.rows(); ++r) { c.put(r, row(s, r)); d.put(r, row(s, r, 2)); }
  }
  auto all = [&] {
    Table t(p);
    ArrayColumn<Complex> d(t, "DATA2");
    std::vector<Array<Complex>> v;
    for (int r = 0; r != s.rows(); ++r) v.push_back(d(r));
    return v;
  };
  const auto was = all();
  {
    Table t(p, Table::Update);
    ArrayColumn<Complex> c(t, "DATA");
    for (int r = 0; r != s.rows(); ++r) c.put(r, row(s, r, 3));
  }
  const auto is = all();
  for (int r = 0; r != s.rows(); ++r) CHECK(maxDiff(was[r], is[r]) == 0, "row %d of DATA2 changed", r);
}
''')

add("c17-skip-zero", [("stmanmodifier.h", "      oldColumn.get(row, values);\n      newColumn.put(row, values);\n", "      oldColumn.get(row, values);\n      // Values that are not written are zero already\n      if (row == 0 || !casacore::allEQ(values, T()))\n        newColumn.put(row, values);\n")],
 dict(property="C17", needs="an antenna without data (zeros) in the first time block, and AF normalization", what_it_breaks="the set can not be compressed, or the antenna count is wrong"),
 HDR + TOOL + r'''
int main(int, char **argv) {
  const std::string p = std::string(argv[1]) + "/t.ms";
  Shape s;
  const auto bl = s.baselines();
  makeMs(p, s, false, -1);
  {
    Table t(p, Table::Update);
    ArrayColumn<Complex> c(t, "DATA");
    for (int r = 0; r != s.rowsPerBlock(); ++r) if (bl[r].second == s.ant - 1) c.put(r, Array<Complex>(IPosition(2, s.pol, s.chan), Complex(0, 0)));
  }
  CHECK(system((std::string(argv[1]) + "/dscompress " + p).c_str()) == 0, "dscompress failed");
  Table t(p);
  ArrayColumn<Complex> c(t, "DATA");
  for (int r = s.rowsPerBlock(); r != s.rows(); ++r) CHECK(maxDiff(c(r), row(s, r)) < 0.3, "row %d", r);
}
''', build=TB)

add("c20-swallow", [("threadeddyscocolumn.cc", "      parent->encodeAndWrite(blockIndex, item, &packedSymbolBuffer[0],\n                             &unpackedSymbolBuffer[0], threadUserData.get());\n", "      try {\n        parent->encodeAndWrite(blockIndex, item, &packedSymbolBuffer[0],\n                               &unpackedSymbolBuffer[0], threadUserData.get());\n      } catch (std::exception &e) {\n        std::cerr << e.what() << '\\n';\n      }\n")],
 dict(property="C20", needs="a full disk while blocks are stored by the background threads", what_it_breaks="the error is only printed; data are lost although everything seems to succeed"),
 HDR + r'''
#include <sys/resource.h>
#include <csignal>
int main(int, char **argv) {
  const std::string p = std::string(argv[1]) + "/t.tab";
  Shape s; s.ant = 8; s.chan = 64; s.pol = 4; s.blocks = 40;
  const pid_t child = fork();
  if (child == 0) {
    DyscoStMan dm(12, 12, "D");
    try {
      Table t = makeTable(p, s, dm);
      ArrayColumn<Complex> c(t, "DATA");
      signal(SIGXFSZ, SIG_IGN);
      struct rlimit l = {300000, 300000};
      setrlimit(RLIMIT_FSIZE, &l);
      for (int r = 0; r != s.rows(); ++r) c.put(r, row(s, r % 28));
    } catch (std::exception &) { _exit(2); }
    _exit(0);
  }
  int status;
  waitpid(child, &status, 0);
  if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
    Table t(p);
    ArrayColumn<Complex> c(t, "DATA");
    for (int r = 0; r != s.rows(); ++r) CHECK(maxDiff(c(r), row(s, r % 28)) < 0.3, "success was reported, but row %d was lost", r);
  }
}
''')

add("c21-assign-capacity", [("uvector.h", "  void assign(size_t n, const Tp& val) {\n", "  void assign(size_t n, const Tp& val) {\n    if (n == size()) {\n      std::fill(_begin + (n ? 1 : 0), _end, val);\n      if (n) *_begin = *(_end - 1);\n      return;\n    }\n")],
 dict(property="C21", needs="assigning to a vector of exactly one element", what_it_breaks="the element keeps its value"),
 r'''
#include "uvector.h"
#include <cstdio>
int main() {
  aocommon::UVector<int> v(1, 5);
  v.assign(size_t(1), 7);
  if (v[0] != 7) { std::printf("FAILED: %d\n", v[0]); return 1; }
}
''', build=CB)

add("c22-double-weight", [("dyscostman.cc", "    if (dataType == casacore::TpFloat)\n", "    if (dataType == casacore::TpFloat || dataType == casacore::TpDouble)\n")],
 dict(property="C22", needs="a WEIGHT_SPECTRUM column of doubles", what_it_breaks="a column that can not be read or written is created"),
 HDR + r'''
int main(int, char **argv) {
  const std::string p = std::string(argv[1]) + "/t.tab";
  Shape s;
  TableDesc td = keyDesc();
  ArrayColumnDesc<double> d("WEIGHT_SPECTRUM", IPosition(2, s.pol, s.chan));
  d.setOptions(ColumnDesc::Direct | ColumnDesc::FixedShape);
  td.addColumn(d);
  bool refused = false;
  try {
    DyscoStMan dm(8, 12, "D");
    SetupNewTable setup(p, td, Table::New);
    setup.bindColumn("WEIGHT_SPECTRUM", dm);
    Table t(setup, s.rows());
  } catch (std::exception &) { refused = true; }
  CHECK(refused, "the column was created");
}
''')

add("c24-decode-cache", [("rftimeblockencoder.cc", "  _channelFactors.assign(metaBuffer, metaBuffer + _nPol * _nChannels);\n", "  if (_channelFactors.empty() || float(_channelFactors[0]) != metaBuffer[0])\n    _channelFactors.assign(metaBuffer, metaBuffer + _nPol * _nChannels);\n")],
 dict(property="C24", needs="RF normalization and two blocks with the same factor for the first channel but not for the others, e.g. because the first channel is flagged", what_it_breaks="the second block is decoded with the factors of the first"),
 CODEC + r'''
int main() {
  RFTimeBlockEncoder e(1, 3);
  StochasticEncoder<float> q(4096, 1.0, false);
  for (int block = 0; block != 2; ++block) {
    Buf b(1, 3);
    for (int r = 0; r != 3; ++r) {
      const std::complex<float> v[3] = {{NAN, NAN}, {1.0f, 0.2f * r}, {block ? 0.01f * r : 1.0f, 0.0f}};
      b.SetData(r, 0, r + 1, v);
    }
    std::vector<float> meta(e.MetaDataCount(3, 1, 3, 4));
    std::vector<unsigned> s(e.SymbolCount(3));
    e.EncodeWithoutDithering(q, b, meta.data(), s.data(), 4);
    Buf o(1, 3); o.resize(3);
    e.InitializeDecode(meta.data(), 3, 4);
    for (int r = 0; r != 3; ++r) {
      e.Decode(q, o, s.data(), r, 0, r + 1);
      std::complex<float> v[3];
      o.GetData(r, v);
      const float x = block ? 0.01f * r : 1.0f;
      if (std::fabs(v[2].real() - x) > 0.001) { std::printf("FAILED: block %d row %d: %g instead of %g\n", block, r, v[2].real(), x); return 1; }
    }
  }
}
''', build=CB)
