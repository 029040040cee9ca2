// Rows and columns that come and go, copies, and tables without data.
#include <sys/wait.h>

#include "model.h"

namespace vt {
namespace {
typedef casacore::Complex Complex;
using casacore::Table;

void fillAll(Model &m, Table &t, Rng &r, double nanChance = 0) {
  for (size_t col = 0; col != m.cols.size(); ++col)
    if (m.cols[col].alive)
      for (size_t row = 0; row != m.nRows; ++row) m.write(t, r, col, row, nanChance);
}

template <typename T>
casacore::ArrayColumnDesc<T> colDesc(const Cfg &c, const std::string &name,
                                     const std::string &mgr) {
  casacore::ArrayColumnDesc<T> d(name, "", "DyscoStMan", mgr,
                                 casacore::IPosition(2, c.nPol, c.nChan));
  d.setOptions(casacore::ColumnDesc::Direct | casacore::ColumnDesc::FixedShape);
  return d;
}

void addDyscoColumn(Table &t, const Cfg &c, const ColCfg &col, bool newManager) {
  const std::string mgr = dmName(c, col.manager);
  if (newManager) {
    auto dm = makeManager(c, mgr);
    if (col.isWeight)
      t.addColumn(colDesc<float>(c, col.name, mgr), *dm);
    else
      t.addColumn(colDesc<Complex>(c, col.name, mgr), *dm);
  } else {
    if (col.isWeight)
      t.addColumn(colDesc<float>(c, col.name, mgr), mgr, true);
    else
      t.addColumn(colDesc<Complex>(c, col.name, mgr), mgr, true);
  }
}

// All rows of the tables are equal in the non-Dysco columns
void checkKeys(Table &t, const Model &m, const char *when) {
  casacore::ScalarColumn<int> a1(t, "ANTENNA1"), a2(t, "ANTENNA2");
  casacore::ScalarColumn<double> tm(t, "TIME");
  for (size_t row = 0; row != m.nRows; ++row) {
    RowKey k = rowKey(m.c, m.bl, row);
    VT_CHECK(a1(row) == k.ant1 && a2(row) == k.ant2 && tm(row) == k.time, "C16:keys",
             "%s: the index columns of row %zu changed", when, row);
  }
}

const char *kKinds[] = {"stream",  "empty",  "addColumn", "removeColumn", "removeRow",
                        "copy",    "rename", "twoTables", "delete",       "removeEarly",
                        "partial", "growLater", "single"};

}  // namespace

void modeLife(uint64_t index, Rng &r) {
  const int kind = index % 13;
  Cfg c = accurateCfg(r);
  c.nBlocks = r.range(2, 6);
  const std::string path = gArgs.dir + "/life.tab", path2 = gArgs.dir + "/life2.tab";
  rmTree(path);
  rmTree(path2);
  if (kind == 3 || kind == 9) {
    switch (r.below(4)) {
      case 0:
        c.cols = {{"DATA", false, 0}, {"WEIGHT_SPECTRUM", true, 0}};
        break;
      case 1:
        c.cols = {{"WEIGHT_SPECTRUM", true, 0}, {"DATA", false, 0}, {"MODEL_DATA", false, 0}};
        break;
      case 2:
        c.cols = {{"DATA", false, 0}, {"MODEL_DATA", false, 0}, {"WEIGHT_SPECTRUM", true, 1}};
        break;
      default:
        c.cols = {{"MODEL_DATA", false, 0}, {"DATA", false, 0}, {"CORRECTED_DATA", false, 0}};
    }
  }
  Model m(c);
  m.useKey("C16:value");
  const size_t rpb = m.rpb();
  gRep.begin(index, std::string(kKinds[kind]) + " " + c.str());
  gRep.stat(kKinds[kind], 1);
  switch (kind) {
    case 0: {  // rows are added while writing
      const bool perRow = r.chance(0.5);
      m.setRows(0);
      {
        Table t = createTable(path, c, 0);
        size_t n = 0;
        const size_t total = c.nRows();
        std::vector<size_t> done(c.cols.size(), 0);
        while (n != total) {
          const size_t add =
              perRow ? 1 : std::min<size_t>(total - n, r.chance(0.5) ? rpb : 1 + r.below(2 * rpb));
          t.addRow(add);
          fillKeys(t, c, n, n + add);
          n += add;
          m.setRows(n);
          for (size_t col = 0; col != c.cols.size(); ++col) {
            // some columns lag behind
            if (n != total && r.chance(0.2)) continue;
            for (; done[col] != n; ++done[col]) m.write(t, r, col, done[col]);
          }
          if (r.chance(0.3)) {
            const size_t col = r.below(c.cols.size());
            if (n) m.check(t, col, r.below(n), "while adding rows");
          }
        }
      }
      Table t(path);
      VT_CHECK(t.nrow() == c.nRows(), "C16:rows", "%zu rows, expected %zu", size_t(t.nrow()),
               c.nRows());
      m.checkAll(t, "streamed");
      checkKeys(t, m, "streamed");
    } break;
    case 1: {  // nothing is written at first
      const size_t n0 = r.chance(0.5) ? 0 : c.nRows();
      { Table t = createTable(path, c, n0); }
      m.setRows(n0);
      for (int i = r.range(0, 2); i >= 0; --i) {
        Table t(path, r.chance(0.5) ? Table::Old : Table::Update);
        VT_CHECK(t.nrow() == n0, "C16:rows", "%zu rows, expected %zu", size_t(t.nrow()), n0);
        m.checkAll(t, "empty table");
      }
      {
        Table t(path, Table::Update);
        if (n0 == 0) {
          t.addRow(c.nRows());
          fillKeys(t, c, 0, c.nRows());
          m.setRows(c.nRows());
        }
        fillAll(m, t, r);
      }
      Table t(path);
      m.checkAll(t, "written after reopening");
    } break;
    case 2: {  // columns are added to a table without Dysco data
      Cfg c0 = c;
      const size_t keep = r.chance(0.5) ? 0 : 1;
      c0.cols.resize(keep);
      {
        Table t = createTable(path, c0, c.nRows());
        if (r.chance(0.5)) {
          t = Table();
          t = Table(path, Table::Update);
        }
        std::set<int> have;
        for (size_t i = 0; i != keep; ++i) have.insert(c.cols[i].manager);
        for (size_t i = keep; i != c.cols.size(); ++i) {
          addDyscoColumn(t, c, c.cols[i], !have.count(c.cols[i].manager));
          have.insert(c.cols[i].manager);
          if (r.chance(0.3)) m.check(t, i, r.below(m.nRows), "added column");
          if (r.chance(0.3)) {
            t = Table();
            t = Table(path, Table::Update);
          }
        }
        fillAll(m, t, r);
      }
      Table t(path);
      m.checkAll(t, "columns added");
      if (r.chance(0.5)) break;
      // A further manager can be added to a table with data
      t = Table(path, Table::Update);
      Cfg c2 = c;
      c2.cols.push_back({"EXTRA_DATA", false, 7});
      addDyscoColumn(t, c2, c2.cols.back(), true);
      Model m2(c2);
      m2.key = m.key;
      for (size_t i = 0; i != m.cols.size(); ++i) m2.cols[i] = m.cols[i];
      for (size_t row = 0; row != m2.nRows; ++row) m2.write(t, r, m.cols.size(), row);
      t = Table();
      t = Table(path);
      m2.checkAll(t, "manager added");
    } break;
    case 3:    // columns are removed from a table with data
    case 9: {  // ... before data was written
      const bool early = kind == 9;
      const bool reopenFirst = r.chance(0.5);
      {
        Table t = createTable(path, c, c.nRows());
        if (!early) {
          fillAll(m, t, r, r.chance(0.3) ? 0.1 : 0);
          // sometimes leave the last blocks of a column unwritten
        }
        if (reopenFirst) {
          t = Table();
          t = Table(path, Table::Update);
        }
        const size_t nRemove = 1 + (r.chance(0.3) && c.cols.size() > 2 ? 1 : 0);
        for (size_t k = 0; k != nRemove; ++k) {
          size_t col;
          do {
            col = r.below(c.cols.size());
          } while (!m.cols[col].alive);
          t.removeColumn(c.cols[col].name);
          m.cols[col].alive = false;
          if (r.chance(0.5)) m.checkAll(t, "column removed");
        }
        if (early) fillAll(m, t, r);
        // Still writable?
        if (!early)
          for (int i = 0; i != 6; ++i) {
            const size_t col = r.below(c.cols.size());
            if (m.cols[col].alive) m.write(t, r, col, r.below(m.nRows));
          }
      }
      Table t(path);
      m.checkAll(t, "column removed, reopened");
      checkKeys(t, m, "column removed");
    } break;
    case 4: {  // rows at the end are removed
      {
        Table t = createTable(path, c, c.nRows());
        fillAll(m, t, r);
        if (r.chance(0.5)) {
          t = Table();
          t = Table(path, Table::Update);
        }
        const size_t nDel = 1 + r.below(c.nRows() - 1);
        for (size_t i = 0; i != nDel; ++i) t.removeRow(t.nrow() - 1);
        m.setRows(c.nRows() - nDel);
        VT_CHECK(t.nrow() == m.nRows, "C16:rows", "%zu rows, expected %zu", size_t(t.nrow()),
                 m.nRows);
        m.checkAll(t, "rows removed");
        if (m.nRows) m.write(t, r, r.below(c.cols.size()), r.below(m.nRows));
      }
      {
        Table t(path);
        m.checkAll(t, "rows removed, reopened");
      }
      // and added again, and written
      Table t(path, Table::Update);
      const size_t old = m.nRows;
      t.addRow(c.nRows() - old);
      fillKeys(t, c, old, c.nRows());
      m.setRows(c.nRows());
      for (size_t col = 0; col != c.cols.size(); ++col)
        for (size_t row = old; row != m.nRows; ++row) m.write(t, r, col, row);
      t = Table();
      t = Table(path);
      m.checkAll(t, "rows added again");
    } break;
    case 5: {  // copies
      {
        Table t = createTable(path, c, c.nRows());
        fillAll(m, t, r, r.chance(0.3) ? 0.1 : 0);
      }
      {
        Table t(path);
        t.deepCopy(path2, Table::New, r.chance(0.6));
      }
      for (auto &k : m.cols)
        for (auto &p : k.passes) ++p;
      {
        Table t(path2);
        VT_CHECK(t.nrow() == m.nRows, "C16:rows", "the copy has %zu rows, expected %zu",
                 size_t(t.nrow()), m.nRows);
        m.checkAll(t, "copy");
        checkKeys(t, m, "copy");
        for (auto &col : c.cols)
          VT_CHECK(t.tableDesc()[col.name].dataManagerType() == "DyscoStMan", "C16:copyType",
                   "column %s of the copy is stored by %s", col.name.c_str(),
                   t.tableDesc()[col.name].dataManagerType().c_str());
      }
      Table t(path);
      m.checkAll(t, "original of the copy");
    } break;
    case 6: {
      {
        Table t = createTable(path, c, c.nRows());
        fillAll(m, t, r);
        if (r.chance(0.5)) {
          t = Table();
          t = Table(path, Table::Update);
          // casacore's own managers have to be open before a table is renamed
          checkKeys(t, m, "before renaming");
        }
        t.rename(path2, Table::New);
        m.checkAll(t, "renamed");
        for (int i = 0; i != 5; ++i) m.write(t, r, r.below(c.cols.size()), r.below(m.nRows));
      }
      VT_CHECK(!Table::isReadable(path), "C16:renamed", "the table exists under its old name");
      Table t(path2);
      m.checkAll(t, "renamed, reopened");
    } break;
    case 7: {  // two tables at the same time
      Cfg cB = accurateCfg(r);
      cB.nBlocks = r.range(2, 5);
      Model mB(cB);
      mB.key = m.key;
      {
        Table a = createTable(path, c, c.nRows()), b = createTable(path2, cB, cB.nRows());
        std::vector<std::pair<size_t, size_t>> wa, wb;
        for (size_t col = 0; col != c.cols.size(); ++col)
          for (size_t row = 0; row != m.nRows; ++row) wa.emplace_back(col, row);
        for (size_t col = 0; col != cB.cols.size(); ++col)
          for (size_t row = 0; row != mB.nRows; ++row) wb.emplace_back(col, row);
        size_t i = 0, j = 0;
        while (i != wa.size() || j != wb.size()) {
          if (j == wb.size() || (i != wa.size() && r.chance(0.5))) {
            m.write(a, r, wa[i].first, wa[i].second);
            ++i;
          } else {
            mB.write(b, r, wb[j].first, wb[j].second);
            ++j;
          }
        }
        if (r.chance(0.5)) {
          m.checkAll(a, "first of two tables");
          mB.checkAll(b, "second of two tables");
        }
      }
      Table a(path), b(path2);
      m.checkAll(a, "first of two tables");
      mB.checkAll(b, "second of two tables");
    } break;
    case 8: {  // deleting the table, or the last column, removes the file
      {
        Table t = createTable(path, c, c.nRows());
        fillAll(m, t, r);
        if (r.chance(0.5)) {
          t.markForDelete();
          m.nRows = 0;
        } else {
          for (auto &col : c.cols) t.removeColumn(col.name);
          for (auto &k : m.cols) k.alive = false;
        }
      }
      if (m.nRows == 0)
        VT_CHECK(listDir(path).empty(), "C16:delete", "files are left of a deleted table");
      else {
        VT_CHECK(dyscoFile(path, dmName(c, 0)).empty(), "C16:delete",
                 "the file of a manager without columns is left");
        Table t(path);
        checkKeys(t, m, "all columns removed");
      }
    } break;
    case 10: {  // the last time block is incomplete, or missing for a column
      const size_t n = c.nRows() - 1 - r.below(rpb);
      m.setRows(n);
      std::vector<size_t> stop(c.cols.size());
      const bool some = n > rpb;
      if (!some) {  // not enough for two blocks
        gRep.nontrivial = false;
        break;
      }
      {
        Table t = createTable(path, c, n);
        for (size_t col = 0; col != c.cols.size(); ++col) {
          // the first column of each manager is complete
          bool first = true;
          for (size_t k = 0; k != col; ++k) first = first && c.cols[k].manager != c.cols[col].manager;
          stop[col] = first ? n : r.below(n + 1);
          for (size_t row = 0; row != stop[col]; ++row) m.write(t, r, col, row);
        }
        m.checkAll(t, "incomplete");
      }
      {
        Table t(path, r.chance(0.5) ? Table::Update : Table::Old);
        m.checkAll(t, "incomplete, reopened");
      }
      Table t(path, Table::Update);
      t.addRow(c.nRows() - n);
      fillKeys(t, c, n, c.nRows());
      m.setRows(c.nRows());
      for (size_t col = 0; col != c.cols.size(); ++col)
        for (size_t row = stop[col]; row != m.nRows; ++row) m.write(t, r, col, row);
      t = Table();
      t = Table(path);
      m.checkAll(t, "completed");
    } break;
    case 11: {  // the table grows over several sessions
      const size_t total = c.nRows() * 2;
      Cfg cc = c;
      cc.nBlocks *= 2;
      size_t n = c.nRows();
      {
        Table t = createTable(path, c, n);
        fillAll(m, t, r);
      }
      while (n != total) {
        Table t(path, Table::Update);
        const size_t add = std::min<size_t>(total - n, 1 + r.below(2 * rpb));
        t.addRow(add);
        fillKeys(t, cc, n, n + add);
        m.setRows(n + add);
        for (size_t col = 0; col != c.cols.size(); ++col)
          for (size_t row = n; row != n + add; ++row) m.write(t, r, col, row);
        n += add;
        for (auto &k : m.cols) k.lastBlock = size_t(-1);
      }
      Table t(path);
      m.checkAll(t, "grown");
      checkKeys(t, Model(m), "grown");
    } break;
    case 12: {  // not more than one time block is written
      c.nBlocks = m.c.nBlocks = 1;
      m.setRows(rpb);
      // Per manager; all columns of a manager have the same first block
      std::map<int, size_t> longest;
      bool full = true;
      {
        Table t = createTable(path, c, rpb);
        const bool whole = r.chance(0.5);
        for (size_t col = 0; col != c.cols.size(); ++col) {
          const size_t n = whole ? rpb : r.below(rpb + 1);
          for (size_t row = 0; row != n; ++row) m.write(t, r, col, row, 0);
          if (n != 0 && r.chance(0.3)) m.write(t, r, col, r.below(n));
          longest[c.cols[col].manager] = std::max(longest[c.cols[col].manager], n);
        }
        for (auto &p : longest) full = full && (p.second == rpb || p.second == 0);
        if (c.cols.size() > 1 && r.chance(0.3)) {
          const size_t col = r.below(c.cols.size());
          t.removeColumn(c.cols[col].name);
          m.cols[col].alive = false;
          full = whole;
        }
        if (r.chance(0.5)) m.checkAll(t, "single block");
      }
      for (int i = 0; i != 2; ++i) {
        Table t(path, r.chance(0.5) ? Table::Update : Table::Old);
        m.checkAll(t, "single block, reopened");
        checkKeys(t, m, "single block");
      }
      if (!full) break;
      // Later the table grows
      Cfg cc = c;
      cc.nBlocks = 3;
      Table t(path, Table::Update);
      t.addRow(2 * rpb);
      fillKeys(t, cc, rpb, 3 * rpb);
      m.setRows(3 * rpb);
      for (size_t col = 0; col != c.cols.size(); ++col)
        if (m.cols[col].alive)
          for (size_t row = rpb; row != m.nRows; ++row) m.write(t, r, col, row);
      t = Table();
      t = Table(path);
      m.checkAll(t, "single block, grown");
    } break;
  }
  if (index % 39 < 13) gRep.sample(std::string(kKinds[kind]) + " " + c.str());
  rmTree(path);
  rmTree(path2);
  gRep.end();
}

// Situations that are known to fail: each runs in its own process.
void modeLifex(uint64_t index, Rng &r) {
  Cfg c = accurateCfg(r);
  c.cols = {{"DATA", false, 0}, {"WEIGHT_SPECTRUM", true, 0}};
  const std::string path = gArgs.dir + "/lifex.tab";
  rmTree(path);
  gRep.begin(index, "renameWeight " + c.str());
  std::fflush(nullptr);
  const pid_t pid = fork();
  if (pid == 0) {
    if (!freopen("/dev/null", "w", stderr)) _exit(9);
    int code = 0;
    try {
        Model m(c);
        {
          Table t = createTable(path, c, c.nRows());
          fillAll(m, t, r);
          t.renameColumn("OTHER_WEIGHT", "WEIGHT_SPECTRUM");
        }
        m.c.cols[1].name = "OTHER_WEIGHT";
        Table t(path);
        m.checkAll(t, "renamed weight column");
      code = gRep.failsInCase ? 3 : 0;
    } catch (std::exception &) {
      code = 4;
    }
    _exit(code);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  ++gRep.checks;
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
    gRep.fail("C16:renameWeight", "%s",
              WIFSIGNALED(st) ? strf("the process was ended by signal %d", WTERMSIG(st)).c_str()
                              : strf("status %d", WEXITSTATUS(st)).c_str());
  rmTree(path);
  gRep.end();
}

}  // namespace vt
