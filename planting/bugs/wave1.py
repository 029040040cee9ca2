HDR = '#include "demo.h"\n'

# C13: rewriting the first row of a stored block loses the other rows
add("c13-first-row-rewrite", [("threadeddyscocolumn.cc", "      waitUntilStored(blockIndex);\n      loadBlock(blockIndex);\n    }\n    _timeBlockBuffer->SetData(blockRow, ant1, ant2, dataPtr);",
"""      waitUntilStored(blockIndex);
      if (blockRow == 0 && rowNr + nRowsInBlock() <= getNTableRows()) {
        // The block is written from its start
        _timeBlockBuffer->ResetData();
        _currentBlock = blockIndex;
      } else {
        loadBlock(blockIndex);
      }
    }
    _timeBlockBuffer->SetData(blockRow, ant1, ant2, dataPtr);""")],
 dict(property="C13", needs="a block that was stored before is entered by writing its first row, and not all of its rows are rewritten", what_it_breaks="the other rows of that block are read as zero afterwards"),
 HDR + r'''
int main(int, char **argv) {
  const std::string p = std::string(argv[1]) + "/t.tab";
  Shape s;
  {
    DyscoStMan dm(12, 12, "D");
    Table t = makeTable(p, s, dm);
    ArrayColumn<Complex> c(t, "DATA");
    for (int r = 0; r != s.rows(); ++r) c.put(r, row(s, r));
  }
  {
    Table t(p, Table::Update);
    ArrayColumn<Complex> c(t, "DATA");
    c.put(s.rowsPerBlock(), row(s, 1000));
  }
  Table t(p);
  ArrayColumn<Complex> c(t, "DATA");
  for (int r = 0; r != s.rows(); ++r)
    CHECK(maxDiff(c(r), row(s, r == s.rowsPerBlock() ? 1000 : r)) < 0.1, "row %d has changed", r);
}
''')

# C14: reading marks a block as changed
add("c14-read-rewrites", [("threadeddyscocolumn.cc", "  _currentBlock = blockIndex;\n  _isCurrentBlockChanged = false;\n}",
"  _currentBlock = blockIndex;\n  // A block of which not all rows exist is completed with zeros when it is stored\n  _isCurrentBlockChanged = blockIndex < nBlocksInFile() && _timeBlockBuffer->NRows() < nRowsInBlock();\n}")],
 dict(property="C14", needs="a table whose last block is incomplete is read in a session that writes another block", what_it_breaks="the last block is encoded and stored again although it was not written"),
 HDR + r'''
int main(int, char **argv) {
  const std::string p = std::string(argv[1]) + "/t.tab";
  Shape s;
  {
    DyscoStMan dm(4, 12, "D");
    Table t = makeTable(p, s, dm);
    t.removeRow(s.rows() - 1);
    ArrayColumn<Complex> c(t, "DATA");
    for (int r = 0; r != s.rows() - 1; ++r) c.put(r, row(s, r));
  }
  const std::string before = slurp(dyscoFile(p));
  {
    Table t(p, Table::Update);
    ArrayColumn<Complex> c(t, "DATA");
    c(s.rows() - 3);
    c.put(0, row(s, 1000));
  }
  const std::string after = slurp(dyscoFile(p));
  CHECK(before.size() == after.size(), "size");
  const size_t block = (before.size() - 100) / s.blocks;
  CHECK(before.substr(before.size() - block / 2) == after.substr(after.size() - block / 2), "the last block has changed");
}
''')

# C12: a spurious wake-up (or one of another event) makes closing lose blocks
add("c12-if-cache-empty", [("threadeddyscocolumn.cc", "    while (!_cache.empty()) _cacheChangedCondition.wait(lock);\n", "    if (!_cache.empty()) _cacheChangedCondition.wait(lock);\n")],
 dict(property="C12", needs="more than one block waits to be stored when the table is closed (e.g. with a static seed, as that uses a single thread)", what_it_breaks="blocks that are still waiting when the first of them was stored are lost"),
 HDR + r'''
int main(int, char **argv) {
  Shape s;
  s.ant = 12; s.chan = 64; s.pol = 4; s.blocks = 24;
  cpu_set_t set; CPU_ZERO(&set); CPU_SET(0, &set); sched_setaffinity(0, sizeof set, &set);
  for (int rep = 0; rep != 10; ++rep) {
    const std::string p = std::string(argv[1]) + "/t" + std::to_string(rep) + ".tab";
    std::vector<Array<Complex>> rows;
    for (int r = 0; r != s.rowsPerBlock(); ++r) rows.push_back(row(s, r));
    {
      DyscoStMan dm(12, 12, "D");
      dm.SetStaticSeed(true);  // one thread
      Table t = makeTable(p, s, dm);
      ArrayColumn<Complex> c(t, "DATA");
      for (int r = 0; r != s.rows(); ++r) c.put(r, rows[r % s.rowsPerBlock()]);
    }
    Table t(p);
    ArrayColumn<Complex> c(t, "DATA");
    for (int r = 0; r != s.rows(); ++r)
      CHECK(maxDiff(c(r), rows[r % s.rowsPerBlock()]) < 0.2, "row %d is lost", r);
  }
}
''')

# C25
add("c25-cache-limit", [("threadeddyscocolumn.cc", "  while (_cache.size() >= maxCacheSize() || cacheItemPtr != _cache.end()) {", "  while (_cache.size() >= maxCacheSize() * nRowsInBlock() || cacheItemPtr != _cache.end()) {")],
 dict(property="C25", needs="storing is slower than writing for many blocks", what_it_breaks="the number of blocks held in memory grows with the number of rows of a block instead of being limited by the number of threads"),
 HDR + r'''
#include <malloc.h>
#include <sys/resource.h>
static long rss() { std::ifstream f("/proc/self/statm"); long a, b; f >> a >> b; return b * 4096; }
int main(int, char **argv) {
  const std::string p = std::string(argv[1]) + "/t.tab";
  Shape s;
  s.ant = 12; s.chan = 100; s.pol = 4; s.blocks = 500;
  cpu_set_t set; CPU_ZERO(&set); CPU_SET(0, &set); sched_setaffinity(0, sizeof set, &set);
  long most = 0, first = 0;
  DyscoStMan dm(4, 12, "D");
  Table t = makeTable(p, s, dm);
  ArrayColumn<Complex> c(t, "DATA");
  Array<Complex> a = row(s, 1);
  first = rss();
  for (int r = 0; r != s.rows(); ++r) { c.put(r, a); if (r % s.rowsPerBlock() == 0) most = std::max(most, rss()); }
  const double blocks = double(most - first) / (s.rowsPerBlock() * s.chan * s.pol * 8.0);
  std::printf("%g blocks\n", blocks);
  CHECK(blocks < 100, "%g blocks in memory", blocks);
}
''')

# C24/C07: the state of the previous block is the start of the next
add("c24-rms-state", [("aftimeblockencoder.cc", "    symbol_t *symbolBuffer, size_t antennaCount, std::mt19937 *rnd) {\n  if (_rmsPerAntenna.size() < antennaCount) _rmsPerAntenna.resize(antennaCount);\n", "    symbol_t *symbolBuffer, size_t antennaCount, std::mt19937 *rnd) {\n  if (_rmsPerAntenna.size() < antennaCount) _rmsPerAntenna.resize(antennaCount, 1.0);\n"),
 ("aftimeblockencoder.cc", "  for (size_t i = 0; i != antennaCount; ++i) _rmsPerAntenna[i] = 1.0;\n", "  // Start from the solution of the previous block, if there is one\n  for (size_t i = 0; i != antennaCount; ++i) {\n    if (!(_rmsPerAntenna[i] > 0.0)) _rmsPerAntenna[i] = 1.0;\n  }\n")],
 dict(property="C24", needs="one encoder encodes several different blocks with AF normalization", what_it_breaks="the scale factors of a block depend on the block that was encoded before by the same thread"),
 r'''
#include "aftimeblockencoder.h"
#include "stochasticencoder.h"
#include <cstdio>
#include <cstring>
#include <random>
using namespace dyscostman;
typedef TimeBlockBuffer<std::complex<float>> Buf;
static Buf make(int seed, float gain) {
  std::mt19937 g(seed); std::normal_distribution<float> n;
  Buf b(2, 8);
  int r = 0;
  for (int i = 0; i != 5; ++i) for (int j = i + 1; j != 5; ++j) {
    std::complex<float> v[16];
    for (auto &x : v) x = std::complex<float>(n(g), n(g)) * (i == 1 ? gain : 1.0f);
    b.SetData(r++, i, j, v);
  }
  return b;
}
int main() {
  StochasticEncoder<float> q = StochasticEncoder<float>::TruncatedGausEncoder(256, 2.5, 1.0);
  Buf one = make(1, 1.0), two = make(2, 50.0);
  AFTimeBlockEncoder used(2, 8, true), fresh(2, 8, true);
  std::vector<float> ma(26), mb(26);
  std::vector<unsigned> sa(320), sb(320);
  used.EncodeWithoutDithering(q, two, ma.data(), sa.data(), 5);
  used.EncodeWithoutDithering(q, one, ma.data(), sa.data(), 5);
  fresh.EncodeWithoutDithering(q, one, mb.data(), sb.data(), 5);
  if (std::memcmp(ma.data(), mb.data(), 26 * 4) != 0) { std::printf("FAILED: scale factors depend on the previous block\n"); return 1; }
}
''', build='build_codec demo.cc "$T/demo"')

# C09: header fields swapped, consistently
add("c09-header-order", [("header.h", "    SerializeToDouble(stream, studentTNu);\n    SerializeToDouble(stream, distributionTruncation);", "    SerializeToDouble(stream, distributionTruncation);\n    SerializeToDouble(stream, studentTNu);"),
 ("header.h", "    studentTNu = UnserializeDouble(stream);\n    distributionTruncation = UnserializeDouble(stream);", "    distributionTruncation = UnserializeDouble(stream);\n    studentTNu = UnserializeDouble(stream);")],
 dict(property="C09", needs="a file written by another version or reader (writing and reading are changed consistently)", what_it_breaks="the truncation and degrees of freedom are at each other's place in the header"),
 HDR + r'''
int main(int, char **argv) {
  const std::string p = std::string(argv[1]) + "/t.tab";
  Shape s;
  {
    DyscoStMan dm(4, 12, "D");
    dm.SetTruncatedGaussianDistribution(1.75);
    Table t = makeTable(p, s, dm);
    ArrayColumn<Complex> c(t, "DATA");
    for (int r = 0; r != s.rows(); ++r) c.put(r, row(s, r));
  }
  const std::string f = slurp(dyscoFile(p));
  double v;
  std::memcpy(&v, f.data() + 7 * 4 + 1 + 2 * 2 + 4 + 8, 8);
  CHECK(v == 1.75, "the header does not hold the truncation at its place: %g", v);
}
''')

# C10: copy constructor
add("c10-copy-nu", [("dyscostman.cc", "      _studentTNu(source._studentTNu),\n      _distributionTruncation(source._distributionTruncation),\n      _staticSeed(source._staticSeed) {}", "      _studentTNu(source._studentTNu),\n      _distributionTruncation(source._distribution == TruncatedGaussianDistribution ? source._distributionTruncation : 0.0),\n      _staticSeed(source._staticSeed && source._distribution != StudentsTDistribution) {}")],
 dict(property="C10", needs="a manager that is copied (SetupNewTable copies it) with a Student t distribution and a static seed", what_it_breaks="the static seed is lost for that distribution: two runs give different files"),
 HDR + r'''
int main(int, char **argv) {
  std::string f[2];
  for (int i = 0; i != 2; ++i) {
    const std::string p = std::string(argv[1]) + "/t" + std::to_string(i) + ".tab";
    Shape s;
    {
      DyscoStMan dm(4, 12, "D");
      dm.SetStudentsTDistribution(4.0);
      dm.SetStaticSeed(true);
      Table t = makeTable(p, s, dm);
      ArrayColumn<Complex> c(t, "DATA");
      for (int r = 0; r != s.rows(); ++r) c.put(r, row(s, r));
    }
    f[i] = slurp(dyscoFile(p));
  }
  CHECK(f[0] == f[1], "static seed not used");
}
''')

