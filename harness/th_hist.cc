// Histories of reads and writes against a model of the table, and the
// isolation of what is stored for different blocks, columns and managers.
#include <casacore/tables/Tables/RowNumbers.h>

#include "model.h"

namespace vt {
namespace {
typedef casacore::Complex Complex;

// Writes (part of) the first block and then the first row of the second, which
// is how a writer has to start.
void startUp(Model &m, casacore::Table &t, Rng &r, size_t col, double nanChance) {
  const size_t rpb = m.rpb();
  std::vector<size_t> order(rpb);
  for (size_t i = 0; i != rpb; ++i) order[i] = i;
  if (r.chance(0.5)) r.shuffle(order);
  // The highest antenna has to be known after the first block
  int maxAnt = 0;
  size_t maxRow = 0;
  for (size_t i = 0; i != rpb; ++i)
    if (std::max(m.bl[i].first, m.bl[i].second) >= maxAnt) {
      maxAnt = std::max(m.bl[i].first, m.bl[i].second);
      maxRow = i;
    }
  const bool sparse = r.chance(0.3);
  for (size_t row : order) {
    if (sparse && row != maxRow && r.chance(0.5)) continue;
    m.write(t, r, col, row, nanChance);
    if (r.chance(0.2)) m.check(t, col, order[r.below(rpb)], "first block");
    if (r.chance(0.1)) m.write(t, r, col, row, nanChance);
  }
  m.write(t, r, col, rpb, nanChance);
}

}  // namespace

void modeHist(uint64_t index, Rng &r) {
  Cfg c = accurateCfg(r);
  c.nBlocks = r.range(2, 7);
  Model m(c);
  m.useKey("C13:value");
  const double nanChance = r.chance(0.3) ? 0.1 : 0.0;
  const int nOps = gArgs.tier ? 160 : 70;
  gRep.begin(index, c.str() + strf(" nan=%g", nanChance));
  if (r.chance(0.5)) perturb(r);
  const std::string path = gArgs.dir + "/hist.tab";
  rmTree(path);
  const size_t nr = c.nRows();
  std::map<std::string, double> counts;
  {
    std::unique_ptr<casacore::Table> t(new casacore::Table(createTable(path, c, nr)));
    // Reads before anything was written
    for (size_t col = 0; col != m.cols.size(); ++col) m.check(*t, col, r.below(nr), "empty");
    // Every manager is started by one of its columns; the others can write
    // wherever they like after that
    std::vector<int> mgrs;
    for (auto &col : c.cols)
      if (std::find(mgrs.begin(), mgrs.end(), col.manager) == mgrs.end()) mgrs.push_back(col.manager);
    for (int mg : mgrs) {
      std::vector<size_t> of;
      for (size_t i = 0; i != c.cols.size(); ++i)
        if (c.cols[i].manager == mg) of.push_back(i);
      if (of.size() > 1 && r.chance(0.5)) {
        // Another column also starts to write in the first block
        const size_t other = of.back();
        m.write(*t, r, other, r.below(m.rpb()), nanChance);
        startUp(m, *t, r, of[0], nanChance);
      } else
        startUp(m, *t, r, of[r.below(of.size())], nanChance);
    }
    bool writable = true;
    size_t focusCol = 0, focusBlock = 0;
    for (int op = 0; op != nOps; ++op) {
      if (r.chance(0.15)) {
        focusCol = r.below(m.cols.size());
        focusBlock = r.below(c.nBlocks);
      }
      const size_t col = r.chance(0.6) ? focusCol : r.below(m.cols.size());
      const size_t block = r.chance(0.6) ? focusBlock : r.below(c.nBlocks);
      const size_t row = block * m.rpb() + r.below(m.rpb());
      const bool isW = c.cols[col].isWeight;
      const std::string &name = c.cols[col].name;
      int what = r.below(20);
      if (!writable && what < 9) what = 9 + r.below(8);
      if (what < 6) {
        const double scale =
            c.norm == kAF || isW ? 1.0 : (r.chance(0.2) ? std::pow(10.0, r.uniform(-1, 1)) : 1.0);
        m.write(*t, r, col, row, nanChance, scale);
        ++counts["puts"];
      } else if (what < 8) {  // a whole block
        for (size_t i = 0; i != m.rpb(); ++i) m.write(*t, r, col, block * m.rpb() + i, nanChance);
        ++counts["blockPuts"];
      } else if (what == 8) {  // putColumnRange
        const size_t n = std::min<size_t>(nr - row, 1 + r.below(2 * m.rpb()));
        if (!isW) {
          casacore::Array<Complex> a(casacore::IPosition(3, c.nPol, c.nChan, n));
          auto it = a.cbegin();
          for (size_t i = 0; i != n; ++i) {
            std::vector<cf> v = m.genData(r, nanChance, 1);
            for (auto &x : v) *it++ = x;
            m.set(col, row + i, v);
          }
          casacore::ArrayColumn<Complex> ac(*t, name);
          ac.putColumnRange(casacore::Slicer(casacore::IPosition(1, row), casacore::IPosition(1, n)),
                            a);
          ++counts["rangePuts"];
        }
      } else if (what < 14) {
        m.check(*t, col, row, "random read");
        ++counts["gets"];
      } else if (what == 14) {  // read back all of the block
        for (size_t i = 0; i != m.rpb(); ++i)
          m.check(*t, col, block * m.rpb() + i, "block read");
        ++counts["blockGets"];
      } else if (what == 15 && !isW) {  // a slice
        casacore::ArrayColumn<Complex> ac(*t, name);
        const int ch = r.below(c.nChan), p = r.below(c.nPol);
        casacore::Array<Complex> a = ac.getSlice(
            row, casacore::Slicer(casacore::IPosition(2, p, ch), casacore::IPosition(2, 1, 1)));
        // compare through the model: substitute the sample in the full row
        std::vector<cf> full = getRow<Complex>(*t, name, row);
        full[ch * c.nPol + p] = *a.cbegin();
        m.compare(col, row, full, "slice");
        ++counts["slices"];
      } else if (what == 16) {  // a range of rows through the column interface
        const size_t n = std::min<size_t>(nr - row, 1 + r.below(2 * m.rpb()));
        casacore::Slicer s(casacore::IPosition(1, row), casacore::IPosition(1, n));
        if (isW) {
          casacore::Array<float> a = casacore::ArrayColumn<float>(*t, name).getColumnRange(s);
          auto it = a.cbegin();
          for (size_t i = 0; i != n; ++i) {
            std::vector<float> v(c.vis());
            for (auto &x : v) x = *it++;
            m.compare(col, row + i, v, "getColumnRange");
          }
        } else {
          casacore::Array<Complex> a = casacore::ArrayColumn<Complex>(*t, name).getColumnRange(s);
          auto it = a.cbegin();
          for (size_t i = 0; i != n; ++i) {
            std::vector<cf> v(c.vis());
            for (auto &x : v) x = *it++;
            m.compare(col, row + i, v, "getColumnRange");
          }
        }
        ++counts["rangeGets"];
      } else if (what == 17) {  // through a selection in another row order
        casacore::Vector<casacore::uInt> rows(1 + r.below(5));
        for (auto &x : rows) x = r.below(nr);
        casacore::Table sub = (*t)(casacore::RowNumbers(rows));
        for (size_t i = 0; i != rows.size(); ++i) {
          if (isW)
            m.compare(col, rows[i], getRow<float>(sub, name, i), "selection");
          else
            m.compare(col, rows[i], getRow<Complex>(sub, name, i), "selection");
        }
        ++counts["selections"];
      } else if (what == 18 && writable && !isW) {  // write a single sample
        casacore::ArrayColumn<Complex> ac(*t, name);
        const int ch = r.below(c.nChan), p = r.below(c.nPol);
        const cf x = m.genData(r, nanChance, 1)[0];
        casacore::Array<Complex> a(casacore::IPosition(2, 1, 1));
        a = x;
        ac.putSlice(row, casacore::Slicer(casacore::IPosition(2, p, ch), casacore::IPosition(2, 1, 1)),
                    a);
        std::vector<cf> full = m.cols[col].data[row];
        if (full.empty()) full.resize(c.vis());
        full[ch * c.nPol + p] = x;
        // The other samples were read and are written again
        m.set(col, row, full);
        ++m.cols[col].passes[row / m.rpb()];
        ++counts["slicePuts"];
      } else if (what == 18) {
        t->flush();
        ++counts["flushes"];
      } else {
        // Close, and open again
        t.reset();
        for (Model::Col &k : m.cols) k.lastBlock = size_t(-1);
        const int how = r.below(3);
        t.reset(new casacore::Table(path, how == 0 ? casacore::Table::Old : casacore::Table::Update));
        writable = how != 0;
        if (how == 0 && r.chance(0.5)) {
          t->reopenRW();
          writable = true;
        }
        ++counts["reopens"];
      }
    }
    m.checkAll(*t, "end of history");
  }
  {
    casacore::Table t(path);
    m.checkAll(t, "reopened");
  }
  calm();
  for (auto &k : counts) gRep.stat(k.first, k.second);
  if (index % 40 == 0) {
    std::string s = c.str();
    for (auto &k : counts) s += strf(" %s=%g", k.first.c_str(), k.second);
    gRep.sample(s);
  }
  rmTree(path);
  gRep.end();
}

// Which bytes are changed by writing to one cell?
void modeIso(uint64_t index, Rng &r) {
  Cfg c = accurateCfg(r);
  c.dataBits = kWidths[r.below(8)];
  c.weightBits = kWidths[r.below(8)];
  c.dist = r.below(4);
  c.nu = 4;
  if (r.chance(0.7) && c.cols.size() < 2)
    c.cols = {{"DATA", false, 0}, {"WEIGHT_SPECTRUM", true, 0}, {"MODEL_DATA", false, 1}};
  c.nBlocks = r.range(3, 7);
  Model m(c);
  gRep.begin(index, c.str());
  const std::string path = gArgs.dir + "/iso.tab";
  rmTree(path);
  const size_t rpb = m.rpb();
  // The last block is incomplete or the last blocks are left out in some cases
  const size_t nr = c.nRows() - (r.chance(0.5) ? r.below(rpb) : 0);
  const size_t filled = r.chance(0.5) ? size_t(c.nBlocks) : 2 + r.below(c.nBlocks - 1);
  const double nanChance = r.chance(0.3) ? 0.1 : 0;
  {
    casacore::Table t = createTable(path, c, nr);
    for (size_t col = 0; col != c.cols.size(); ++col)
      for (size_t row = 0; row != std::min(filled * rpb, nr); ++row) m.write(t, r, col, row, nanChance);
  }
  auto before = snapshot(path);
  uint64_t changedBytes = 0, sessions = 0;
  for (int step = 0; step != 8; ++step) {
    const int kind = step < 2 ? step : int(r.below(4));
    const char *what = "";
    // The cell ranges that may change: (manager, column in manager, block)
    std::set<std::pair<size_t, size_t>> touched;  // col, block
    {
      const bool rw = kind != 0;
      casacore::Table t(path, rw ? casacore::Table::Update : casacore::Table::Old);
      if (kind <= 1) {
        what = kind ? "reading (opened for writing)" : "reading";
        for (int i = 0; i != 30; ++i) {
          const size_t col = r.below(c.cols.size()), row = r.below(nr);
          if (c.cols[col].isWeight)
            getRow<float>(t, c.cols[col].name, row);
          else
            getRow<Complex>(t, c.cols[col].name, row);
          ++gRep.checks;
        }
        if (kind && r.chance(0.5)) t.flush();
      } else {
        what = "writing";
        const int n = kind == 2 ? 1 : r.range(2, 6);
        const size_t col = r.below(c.cols.size());
        for (int i = 0; i != n; ++i) {
          const size_t cc = kind == 2 ? col : r.below(c.cols.size());
          // reads of other blocks in between
          if (r.chance(0.5)) {
            const size_t rc = r.below(c.cols.size());
            const size_t rr = r.chance(0.3) ? nr - 1 - r.below(std::min<size_t>(nr, 3)) : r.below(nr);
            if (c.cols[rc].isWeight)
              getRow<float>(t, c.cols[rc].name, rr);
            else
              getRow<Complex>(t, c.cols[rc].name, rr);
          }
          const size_t row = r.below(nr);
          m.write(t, r, cc, row, nanChance, std::pow(10.0, r.uniform(-3, 3)));
          touched.insert({cc, row / rpb});
        }
      }
    }
    ++sessions;
    auto after = snapshot(path);
    for (int mg = 0; mg != 2; ++mg) {
      const std::vector<std::string> names = managerCols(c, mg);
      if (names.empty()) continue;
      const std::string file = dyscoFile(path, dmName(c, mg));
      const std::string base = file.substr(file.rfind('/') + 1);
      std::vector<uint8_t> a = before[base], b = after[base];
      RefFile f;
      f.bytes = a;
      f.parse();
      std::vector<RefLayout> ls = layouts(c, mg, f);
      // The allowed ranges of this file
      std::vector<std::pair<size_t, size_t>> allowed;
      size_t end = a.size();
      for (auto &tb : touched) {
        if (c.cols[tb.first].manager != mg) continue;
        size_t off = f.h.headerSize + size_t(f.h.blockSize) * tb.second, k = 0;
        for (size_t i = 0; i != tb.first; ++i)
          if (c.cols[i].manager == mg) off += ls[k++].bytes();
        allowed.emplace_back(off, off + ls[k].bytes());
        end = std::max(end, off + ls[k].bytes());
      }
      VT_CHECK(b.size() <= end, "C14:size", "%s changed the size of %s from %zu to %zu (limit %zu)",
               what, base.c_str(), a.size(), b.size(), end);
      VT_CHECK(b.size() >= a.size(), "C14:shrunk", "%s changed the size of %s from %zu to %zu",
               what, base.c_str(), a.size(), b.size());
      a.resize(b.size(), 0);  // a gap reads as zeros
      for (size_t i = 0; i != b.size(); ++i)
        if (a[i] != b[i]) {
          bool ok = false;
          for (auto &x : allowed) ok = ok || (i >= x.first && i < x.second);
          if (ok)
            ++changedBytes;
          else {
            const size_t blk = i < f.h.headerSize ? 0 : (i - f.h.headerSize) / f.h.blockSize;
            gRep.fail("C14:changed",
                      "%s changed byte %zu of %s (%s, block %zu, offset %zu in block), which "
                      "belongs to something else",
                      what, i, base.c_str(), i < f.h.headerSize ? "header" : "data", blk,
                      i < f.h.headerSize ? i : (i - f.h.headerSize) % f.h.blockSize);
            break;
          }
        }
      gRep.stat("filesCompared", 1);
      gRep.stat("bytesCompared", double(b.size()));
    }
    before = after;
  }
  gRep.stat("bytesChanged", double(changedBytes));
  gRep.stat("sessions", double(sessions));
  gRep.nontrivial = changedBytes != 0;
  if (index % 30 == 0) gRep.sample(c.str() + strf(" changedBytes=%llu", (unsigned long long)changedBytes));
  rmTree(path);
  gRep.end();
}

}  // namespace vt
