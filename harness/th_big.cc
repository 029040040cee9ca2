// Sizes that do not fit in small integers: far offsets, many channels,
// antennas, rows, blocks or columns.
#include "model.h"

namespace vt {
namespace {
using casacore::Table;
const char *kBig[] = {"farBlocks",  "manyChannels",    "manyAntennas", "manyRows",
                      "manyBlocks", "antennaNumbers", "manyColumns"};
}  // namespace

void modeBig(uint64_t index, Rng &r) {
  const int kind = index % 7;
  Cfg c = accurateCfg(r);
  c.autos = false;
  if (c.rowOrder == 1) c.rowOrder = 0;
  c.cols = {{"DATA", false, 0}};
  if (r.chance(0.5))
    c.cols.push_back({"WEIGHT_SPECTRUM", true, int(r.below(2))});
  else if (r.chance(0.5))
    c.cols.insert(c.cols.begin(), {"WEIGHT_SPECTRUM", true, 0});
  c.nBlocks = 3;
  double farEnd = 0;
  switch (kind) {
    case 0:
      c.nAnt = r.range(2, 4);
      c.nPol = 4;
      c.nChan = r.range(4000, 6000);
      c.splitBy = 0;
      farEnd = r.pick(std::vector<double>{4.6e9, 4.6e9, 9e9});
      c.nBlocks = int(farEnd / (double(c.rowsPerBlock()) * c.vis() * 4)) + 3;
      break;
    case 1:
      c.nAnt = r.range(2, 3);
      c.nChan = r.range(3000, 20000);
      break;
    case 2:
      c.nAnt = r.range(257, 280);
      c.nChan = r.range(1, 2);
      c.nPol = r.range(1, 2);
      c.nBlocks = 2;
      c.norm = r.chance(0.6) ? kAF : int(r.below(3));
      break;
    case 3:
      c.nAnt = r.range(363, 366);
      c.nChan = 1;
      c.nPol = 1;
      c.nBlocks = 2;
      c.norm = r.chance(0.5) ? kRF : kRow;
      break;
    case 4:
      c.nAnt = r.range(2, 3);
      c.nBlocks = r.range(3000, 6000);
      c.nChan = r.range(1, 2);
      break;
    case 5:
      c.antStride = r.range(20, 100);
      c.antBase = r.range(0, 300);
      break;
    case 6: {
      const int n = r.range(6, 12), mgrs = r.range(1, 5);
      c.cols.clear();
      for (int i = 0; i != n; ++i) c.cols.push_back({strf("COLUMN_%d", i), false, int(r.below(mgrs))});
      if (r.chance(0.5)) c.cols[r.below(n)] = {"WEIGHT_SPECTRUM", true, int(r.below(mgrs))};
    } break;
  }
  gRep.begin(index, std::string(kBig[kind]) + " " + c.str());
  gRep.stat(kBig[kind], 1);
  const std::string path = gArgs.dir + "/big.tab";
  rmTree(path);
  Model m(c);
  m.useKey("C13:value");
  const size_t rpb = m.rpb(), nBlocks = c.nBlocks;
  std::vector<size_t> blocks;  // blocks that are written
  std::vector<size_t> extra;   // blocks that are only looked at
  if (kind == 0) {
    blocks = {0, 1, nBlocks - 1};
    const double blockBytes = farEnd / (nBlocks - 3);
    auto near = [&](double offset) {
      const size_t b = size_t(std::max(0.0, offset / blockBytes));
      for (size_t k = b; k != b + 2; ++k)
        if (k < nBlocks) blocks.push_back(k);
    };
    near(2147483648.0);
    near(4294967296.0);
    for (int i = 0; i != 2; ++i) blocks.push_back(r.below(nBlocks));
    for (size_t b : blocks)
      for (double d : {2147483648.0, 4294967296.0}) {
        const double o = b * blockBytes - d;
        if (o > 0 && o / blockBytes < nBlocks) extra.push_back(size_t(o / blockBytes));
      }
    for (int i = 0; i != 2; ++i) extra.push_back(r.below(nBlocks));
  } else
    for (size_t b = 0; b != nBlocks; ++b) blocks.push_back(b);
  auto checkSome = [&](Table &t, const char *when) {
    if (kind == 0 || kind == 4) {
      std::vector<size_t> bs = blocks;
      bs.insert(bs.end(), extra.begin(), extra.end());
      r.shuffle(bs);
      if (bs.size() > 3000) bs.resize(3000);
      for (size_t b : bs)
        for (size_t col = 0; col != c.cols.size(); ++col) {
          m.check(t, col, b * rpb + r.below(rpb), when);
          gRep.stat("bigReads", 1);
        }
    } else
      m.checkAll(t, when);
  };
  {
    Table t = createTable(path, c, c.nRows());
    for (size_t i = 0; i != blocks.size(); ++i)
      for (size_t col = 0; col != c.cols.size(); ++col)
        for (size_t k = 0; k != rpb; ++k)
          // the far blocks are not always complete
          if (kind != 0 || i < 2 || k == 0 || r.chance(0.7)) m.write(t, r, col, blocks[i] * rpb + k, 0.01);
    if (kind != 2 && kind != 3) checkSome(t, "in session");
  }
  {
    Table t(path, r.chance(0.5) ? Table::Update : Table::Old);
    checkSome(t, "reopened");
    if (t.isWritable() && kind != 2 && kind != 3) {
      for (auto &k : m.cols) k.lastBlock = size_t(-1);
      for (int i = 0; i != 3; ++i) {
        const size_t b = blocks[r.below(blocks.size())];
        m.write(t, r, r.below(c.cols.size()), b * rpb + r.below(rpb));
      }
      t = Table();
      t = Table(path);
      checkSome(t, "after an update");
    }
  }
  if (index < 14) gRep.sample(std::string(kBig[kind]) + " " + c.str());
  rmTree(path);
  gRep.end();
}

}  // namespace vt
