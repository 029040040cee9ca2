// Concurrency workloads: many small blocks, several columns with their own
// writer threads on one file, reads of blocks that are still queued, repeated
// rewriting of the same block, under a perturbed schedule.
#include <malloc.h>

#include "inject.h"
#include "th.h"

namespace vt {
namespace {
typedef casacore::Complex Complex;

struct W {
  Cfg c;
  std::vector<std::vector<uint64_t>> version;  // [col][block], 0 = never written
  uint64_t salt;

  std::vector<cf> dataRow(size_t col, size_t block, size_t row, uint64_t ver) const {
    Rng q(caseSeed(salt, ((col * 1000 + block) * 1000 + row) * 100000 + ver));
    std::vector<cf> v(c.vis());
    for (auto &x : v) x = cf(float(q.uniform(-1, 1)), float(q.uniform(-1, 1)));
    return v;
  }
  std::vector<float> weightRow(size_t col, size_t block, size_t row, uint64_t ver) const {
    Rng q(caseSeed(salt, ((col * 1000 + block) * 1000 + row) * 100000 + ver));
    std::vector<float> v(c.vis());
    for (size_t i = 0; i != v.size(); i += c.nPol) {
      const float w = float(q.uniform());
      for (int p = 0; p != c.nPol; ++p) v[i + p] = w;
    }
    return v;
  }
  void writeRow(casacore::Table &t, size_t col, size_t block, size_t row, uint64_t ver) {
    const ColCfg &cc = c.cols[col];
    const size_t tr = block * c.rowsPerBlock() + row;
    if (cc.isWeight)
      putRow<float>(t, c, cc.name, tr, weightRow(col, block, row, ver));
    else
      putRow<Complex>(t, c, cc.name, tr, dataRow(col, block, row, ver));
  }
  void writeBlock(casacore::Table &t, size_t col, size_t block, uint64_t ver) {
    for (size_t row = 0; row != c.rowsPerBlock(); ++row) writeRow(t, col, block, row, ver);
    version[col][block] = ver;
  }
  // Root of the mean squared difference, relative to the data
  double distance(casacore::Table &t, size_t col, size_t block, size_t row, uint64_t ver) {
    const ColCfg &cc = c.cols[col];
    const size_t tr = block * c.rowsPerBlock() + row;
    double s = 0, n = 0;
    if (cc.isWeight) {
      std::vector<float> e(c.vis(), 0.0f), g = getRow<float>(t, cc.name, tr);
      if (ver) e = weightRow(col, block, row, ver);
      for (size_t i = 0; i != e.size(); ++i) {
        s += (e[i] - g[i]) * (e[i] - g[i]);
        n += 0.33;
      }
    } else {
      std::vector<cf> e(c.vis(), cf(0, 0)), g = getRow<Complex>(t, cc.name, tr);
      if (ver) e = dataRow(col, block, row, ver);
      for (size_t i = 0; i != e.size(); ++i) {
        s += std::norm(e[i] - g[i]);
        n += 0.66;
      }
    }
    return std::sqrt(s / n);
  }
  void check(casacore::Table &t, size_t col, size_t block, const char *when) {
    // A rewritten row makes the other rows of its block go through the codec
    // again; blocks are always rewritten as a whole here.
    const double tol = 0.12;
    for (size_t row = 0; row != c.rowsPerBlock(); ++row) {
      const double d = distance(t, col, block, row, version[col][block]);
      ++gRep.checks;
      if (!(d <= tol))
        gRep.fail(gArgs.prop == "C13" || gArgs.prop == "C14" ? gArgs.prop + ":wrong" : "C12:wrong",
                  "%s: column %s block %zu row %zu: differs from what was written last (version "
                  "%llu): relative rms difference %g",
                  when, c.cols[col].name.c_str(), block, row,
                  (unsigned long long)version[col][block], d);
    }
    gRep.stat("blocksChecked", 1);
  }
};

Cfg smallCfg(Rng &r) {
  Cfg c;
  c.nAnt = r.range(2, 4);
  c.autos = false;
  c.nChan = r.range(2, 6);
  c.nPol = r.pick(std::vector<int>{1, 2, 4});
  c.dataBits = r.pick(std::vector<int>{8, 10, 12});
  c.weightBits = r.pick(std::vector<int>{8, 12, 16});
  c.dist = r.pick(std::vector<int>{kUniform, kTrunc});
  c.norm = r.below(3);
  c.trunc = 2.0;
  switch (r.below(5)) {
    case 0:
      c.cols = {{"DATA", false, 0}};
      break;
    case 1:
      c.cols = {{"DATA", false, 0}, {"WEIGHT_SPECTRUM", true, 0}};
      break;
    case 2:
      c.cols = {{"DATA", false, 0}, {"MODEL_DATA", false, 0}, {"WEIGHT_SPECTRUM", true, 0}};
      break;
    case 3:
      c.cols = {{"DATA", false, 0}, {"WEIGHT_SPECTRUM", true, 1}, {"MODEL_DATA", false, 1}};
      break;
    default:
      c.cols = {{"WEIGHT_SPECTRUM", true, 0}};
  }
  return c;
}

}  // namespace

void modeThr(uint64_t index, Rng &r) {
  W w;
  Cfg &c = w.c;
  c = smallCfg(r);
  c.nBlocks = r.range(6, 40);
  w.salt = r.next();
  w.version.assign(c.cols.size(), std::vector<uint64_t>(c.nBlocks, 0));
  perturb(r);
  const int pattern = index % 4;
  gRep.begin(index, c.str() + strf(" pattern=%d threads=%u delay=%u/%u spurious=%u", pattern,
                                   gInject.threads.load(), gInject.delayPermille.load(),
                                   gInject.maxDelayUs.load(), gInject.spuriousPermille.load()));
  const uint64_t l0 = gInject.locks, w0 = gInject.waits, s0 = gInject.spurious,
                 d0 = gInject.delays;
  const std::string path = gArgs.dir + "/thr.tab";
  rmTree(path);
  gInject.resetIo();
  gInject.setSuffix("/thr.tab/table.f0");
  gInject.watchIo = true;
  {
    casacore::Table t = createTable(path, c, c.nRows());
    uint64_t ver = 1;
    // The first two blocks of every manager fix the block size
    for (size_t col = 0; col != c.cols.size(); ++col)
      for (size_t b = 0; b != 2; ++b) w.writeBlock(t, col, b, ver++);
    switch (pattern) {
      case 0:  // plain sequential writing, columns interleaved per row
        for (size_t b = 2; b != size_t(c.nBlocks); ++b, ++ver)
          for (size_t row = 0; row != c.rowsPerBlock(); ++row)
            for (size_t col = 0; col != c.cols.size(); ++col) {
              w.writeRow(t, col, b, row, ver);
              w.version[col][b] = ver;
            }
        break;
      case 1:  // sequential, with reads of blocks that were just queued
        for (size_t b = 2; b != size_t(c.nBlocks); ++b)
          for (size_t col = 0; col != c.cols.size(); ++col) {
            w.writeBlock(t, col, b, ver++);
            if (r.chance(0.5)) w.check(t, col, b - r.below(std::min<size_t>(b + 1, 4)), "read");
          }
        break;
      case 2: {  // few blocks that are written again and again
        const size_t nHot = r.range(2, 4);
        for (int i = 0; i != 50; ++i) {
          const size_t col = r.below(c.cols.size()), b = r.below(std::min<size_t>(nHot, c.nBlocks));
          w.writeBlock(t, col, b, ver++);
          if (r.chance(0.3)) {
            const size_t col2 = r.below(c.cols.size());
            w.check(t, col2, r.below(c.nBlocks), "rewrite");
          }
        }
      } break;
      default: {  // blocks in random order (leaves gaps in the file for a while)
        std::vector<size_t> order;
        for (size_t b = 2; b != size_t(c.nBlocks); ++b) order.push_back(b);
        r.shuffle(order);
        for (size_t b : order) {
          for (size_t col = 0; col != c.cols.size(); ++col)
            if (r.chance(0.9)) w.writeBlock(t, col, b, ver++);
          if (r.chance(0.3)) w.check(t, r.below(c.cols.size()), r.below(c.nBlocks), "random");
        }
      }
    }
  }  // closing waits for the writer threads
  {
    casacore::Table t(path);
    for (size_t col = 0; col != c.cols.size(); ++col)
      for (size_t b = 0; b != size_t(c.nBlocks); ++b) w.check(t, col, b, "reopened");
  }
  gInject.watchIo = false;
  gRep.stat("lockOperations", double(gInject.locks - l0));
  gRep.stat("conditionWaits", double(gInject.waits - w0));
  gRep.stat("spuriousWakeups", double(gInject.spurious - s0));
  gRep.stat("injectedDelays", double(gInject.delays - d0));
  gRep.sig = strf("%llx", (unsigned long long)gInject.orderHash.load());
  if (gInject.nWrites == 0) gRep.sig = gRep.curCase + c.str();
  if (index % 10 == 0) gRep.sample(c.str() + strf(" pattern=%d", pattern));
  calm();
  rmTree(path);
  gRep.end();
}

// With a static seed the stored file is a function of the written data only.
void modeStatic(uint64_t index, Rng &r) {
  W w;
  Cfg &c = w.c;
  c = smallCfg(r);
  c.staticSeed = true;
  c.dataBits = kWidths[r.below(8)];
  c.dist = r.below(4);
  c.nu = 4;
  c.autos = r.chance(0.3);
  c.nBlocks = r.range(3, 16);
  w.salt = r.next();
  // The blocks after the first two can be written in any order, and again
  std::vector<std::pair<size_t, uint64_t>> visits;
  for (size_t b = 0; b != size_t(c.nBlocks); ++b) visits.push_back({b, 1});
  const bool anyOrder = r.chance(0.6);
  if (anyOrder) {
    for (size_t n = r.below(c.nBlocks); n; --n)
      visits.push_back({r.below(c.nBlocks), 2 + n});
    for (size_t i = visits.size() - 1; i > 2; --i)
      std::swap(visits[i], visits[2 + r.below(i - 1)]);
  }
  const bool reads = anyOrder && r.chance(0.5);
  // After a visit a cell of any block might be read, which might not have been
  // written yet. Visits after the first two might write only some rows.
  std::vector<int> readAfter;
  std::vector<uint64_t> rowMask;
  for (size_t i = 0; i != visits.size(); ++i) {
    readAfter.push_back(reads && r.chance(0.3) ? int(r.below(c.nBlocks)) : -1);
    rowMask.push_back(i > 1 && anyOrder && r.chance(0.3) ? r.next() : ~uint64_t(0));
  }
  auto writes = [&](size_t i, size_t row) { return (rowMask[i] >> (row % 64)) & 1; };
  gRep.begin(index, c.str() + strf(" visits=%zu%s%s", visits.size(), anyOrder ? " any order" : "",
                                   reads ? " with reads" : ""));
  std::map<std::string, std::vector<uint8_t>> first;
  const int runs = 4;
  for (int run = 0; run != runs; ++run) {
    w.version.assign(c.cols.size(), std::vector<uint64_t>(c.nBlocks, 0));
    if (run)
      perturb(r);
    else
      calm();
    // Uninitialized memory differs between the runs
    const int fill[] = {0x00, 0xa5, 0x5a, 0xff};
    mallopt(M_PERTURB, fill[run % 4]);
    const std::string path = gArgs.dir + "/static.tab";
    rmTree(path);
    {
      casacore::Table t = createTable(path, c, c.nRows());
      auto read = [&](size_t col, size_t i) {
        if (readAfter[i] >= 0) w.distance(t, col, readAfter[i], 0, 1);
      };
      if (run % 2 == 0)
        for (size_t i = 0; i != visits.size(); ++i) {
          for (size_t row = 0; row != c.rowsPerBlock(); ++row)
            for (size_t col = 0; writes(i, row) && col != c.cols.size(); ++col)
              w.writeRow(t, col, visits[i].first, row, visits[i].second);
          for (size_t col = 0; col != c.cols.size(); ++col) read(col, i);
        }
      else
        for (size_t col = 0; col != c.cols.size(); ++col)
          for (size_t i = 0; i != visits.size(); ++i) {
            for (size_t row = 0; row != c.rowsPerBlock(); ++row)
              if (writes(i, row)) w.writeRow(t, col, visits[i].first, row, visits[i].second);
            read(col, i);
          }
    }
    for (int m = 0; m != 2; ++m) {
      if (managerCols(c, m).empty()) continue;
      const std::string f = dyscoFile(path, dmName(c, m));
      std::vector<uint8_t> bytes = RefFile::slurp(f);
      const std::string key = dmName(c, m);
      if (run == 0)
        first[key] = bytes;
      else {
        size_t at = 0;
        while (at < bytes.size() && at < first[key].size() && bytes[at] == first[key][at]) ++at;
        VT_CHECK(bytes == first[key], "C12:static",
                 "run %d (threads=%u) stored a different file for the same data: sizes %zu/%zu, "
                 "first difference at byte %zu",
                 run, gInject.threads.load(), first[key].size(), bytes.size(), at);
      }
      gRep.stat("filesCompared", 1);
    }
    rmTree(path);
  }
  mallopt(M_PERTURB, 0);
  calm();
  if (index % 10 == 0) gRep.sample(c.str());
  gRep.end();
}

// The writer may not buffer an unlimited number of blocks when storing them is
// slower than producing them.
void modeMem(uint64_t index, Rng &r) {
  W w;
  Cfg &c = w.c;
  c = smallCfg(r);
  c.cols = index % 2 ? std::vector<ColCfg>{{"DATA", false, 0}}
                     : std::vector<ColCfg>{{"DATA", false, 0}, {"WEIGHT_SPECTRUM", true, 0}};
  c.nAnt = 8;
  c.nChan = 64;
  c.nPol = 4;
  c.nBlocks = 120;
  c.norm = r.below(3);
  c.dataBits = 8;
  const unsigned threads = unsigned(r.pick(std::vector<int>{1, 2, 4}));
  gRep.begin(index, c.str() + strf(" threads=%u", threads));
  calm();
  gInject.threads = threads;
  w.salt = r.next();
  w.version.assign(c.cols.size(), std::vector<uint64_t>(c.nBlocks, 0));
  const std::string path = gArgs.dir + "/mem.tab";
  rmTree(path);
  gInject.resetIo();
  gInject.setSuffix("/mem.tab/table.f0");
  gInject.watchIo = true;
  const double blockBytes = double(c.rowsPerBlock()) * c.vis() * 8;
  double peak = 0;
  {
    casacore::Table t = createTable(path, c, c.nRows());
    std::vector<cf> row = w.dataRow(0, 0, 0, 1);
    std::vector<float> wrow = w.weightRow(0, 0, 0, 1);
    auto put = [&](size_t tr) {
      for (auto &col : c.cols) {
        if (col.isWeight)
          putRow<float>(t, c, col.name, tr, wrow);
        else
          putRow<Complex>(t, c, col.name, tr, row);
      }
    };
    size_t tr = 0;
    for (; tr != 3 * c.rowsPerBlock(); ++tr) put(tr);
    gInject.writeDelayUs = 8000;
    const int64_t base = gLiveBytes.load();
    gPeakBytes = base;
    for (; tr != c.nRows(); ++tr) put(tr);
    peak = double(gPeakBytes.load() - base) / blockBytes;
    gInject.writeDelayUs = 0;
  }
  gInject.watchIo = false;
  // queue (1.2 x threads + 1) + a double precision copy in every thread + slack
  const double bound = (threads * 12 / 10 + 1 + 4.0 * threads + 4) * (c.cols.size() > 1 ? 2 : 1);
  VT_CHECK(peak <= bound, "C25:unbounded",
           "while storing was slow, %d blocks were written and the heap grew by %.1f blocks "
           "(bound %.1f)",
           c.nBlocks, peak, bound);
  VT_CHECK(gInject.nWrites.load() > 10, "ANY:inconclusive", "only %llu writes were observed",
           (unsigned long long)gInject.nWrites.load());
  gRep.stat("peakBlocks", peak);
  gRep.stat("boundBlocks", bound);
  gRep.sample(strf("threads=%u columns=%zu peak=%.2f blocks bound=%.1f writes=%llu", threads,
                   c.cols.size(), peak, bound, (unsigned long long)gInject.nWrites.load()));
  calm();
  rmTree(path);
  gRep.end();
}

}  // namespace vt
