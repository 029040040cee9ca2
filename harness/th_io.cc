// Faults of the file system while a table is written or read (mode io), and the
// compress and decompress tools run as processes (mode tools).
#include <fstream>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>

#include "inject.h"
#include "model.h"

namespace vt {
namespace {
typedef casacore::Complex Complex;
using casacore::Table;

double now() {
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + 1e-9 * ts.tv_nsec;
}

// Runs fn in a process of its own; -1000: it did not finish in time
int inChild(double seconds, const std::function<int()> &fn) {
  std::fflush(nullptr);
  const pid_t pid = fork();
  if (pid == 0) {
    const int null = open("/dev/null", O_WRONLY);
    dup2(null, 1);
    dup2(null, 2);
    rlimit nocore = {0, 0};
    setrlimit(RLIMIT_CORE, &nocore);
    int code = 99;
    try {
      code = fn();
    } catch (std::exception &) {
      code = 4;
    } catch (...) {
      code = 5;
    }
    _exit(code);
  }
  const double end = now() + seconds;
  int st = 0;
  while (waitpid(pid, &st, WNOHANG) == 0) {
    if (now() > end) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      return -1000;
    }
    usleep(500);
  }
  return WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
}

struct Shared {
  std::atomic<uint64_t> faults, reads, writes, seeks, opens;
};
Shared *shared() {
  static Shared *s = nullptr;
  if (!s)
    s = static_cast<Shared *>(
        mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  s->faults = s->reads = s->writes = s->seeks = s->opens = 0;
  return s;
}
void publish(Shared *s) {
  s->faults = gInject.nFaults.load();
  s->reads = gInject.nReads.load();
  s->writes = gInject.nWrites.load();
  s->seeks = gInject.nSeeks.load();
  s->opens = gInject.nOpens.load();
}

// Is this a file of a Dysco manager? Its header starts with sizes and the name.
bool fileIsDysco(const std::string &path) {
  std::ifstream f(path, std::ios::binary);
  uint32_t v[7] = {};
  f.read(reinterpret_cast<char *>(v), sizeof v);
  // No data were written: the header may be absent
  return f.gcount() == 0 || (v[0] < 100000 && v[1] < 100000 && v[2] < 64 && v[3] < 300);
}

void generate(Model &m, Rng &r, std::vector<std::vector<std::vector<cf>>> &d,
              std::vector<std::vector<std::vector<float>>> &w) {
  d.resize(m.cols.size());
  w.resize(m.cols.size());
  for (size_t col = 0; col != m.cols.size(); ++col)
    for (size_t row = 0; row != m.nRows; ++row)
      if (m.c.cols[col].isWeight) {
        w[col].push_back(m.genWeight(r));
        m.set(col, row, w[col].back());
      } else {
        d[col].push_back(m.genData(r, 0, 1));
        m.set(col, row, d[col].back());
      }
}

}  // namespace

void modeIo(uint64_t index, Rng &r) {
  Cfg c = accurateCfg(r);
  c.norm = r.pick(std::vector<int>{kRF, kRow, kAF});
  c.autos = false;
  c.nBlocks = r.range(2, 6);
  const std::string path = gArgs.dir + "/io.tab";
  rmTree(path);
  Model m(c);
  m.key = "C20:silent";
  std::vector<std::vector<std::vector<cf>>> d;
  std::vector<std::vector<std::vector<float>>> w;
  generate(m, r, d, w);
  static const char *kKinds[] = {"writeFails", "writeShort",  "fileSizeLimit", "readFails",
                                 "writeFails", "updateFails", "readOnly",      "sessionFails",
                                 "seekFails",  "readSeekFails", "openFails", "sessionFails"};
  const int kind = index % 12;
  const bool byBlock = r.chance(0.5);
  const int errs[] = {ENOSPC, EIO, EDQUOT, EFBIG};
  const int err = errs[r.below(4)];
  const bool sticky = r.chance(0.5);
  gRep.begin(index, strf("%s err=%d sticky=%d ", kKinds[kind], err, sticky) + c.str());
  Shared *s = shared();
  // The file of any of the Dysco managers, not that of another manager
  std::string file = "table.f0";
  {
    Table t = createTable(path, c, 0);
  }
  if (r.chance(0.3) && fileIsDysco(path + "/table.f1")) file = "table.f1";
  rmTree(path);
  const size_t rpb = c.rowsPerBlock();
  auto put = [&](Table &t, size_t col, size_t row) {
    if (c.cols[col].isWeight)
      putRow<float>(t, c, c.cols[col].name, row, w[col][row]);
    else
      putRow<Complex>(t, c, c.cols[col].name, row, d[col][row]);
  };
  auto fill = [&](Table &t) {
    if (byBlock)
      for (size_t row = 0; row != m.nRows; ++row)
        for (size_t col = 0; col != m.cols.size(); ++col) put(t, col, row);
    else
      for (size_t col = 0; col != m.cols.size(); ++col)
        for (size_t row = 0; row != m.nRows; ++row) put(t, col, row);
  };
  auto arm = [&](int64_t at, int fault) {
    gInject.resetIo();
    gInject.setSuffix("io.tab/" + file);
    gInject.writeFault = fault;
    gInject.failSticky = sticky;
    (kind == 8 ? gInject.failSeekAt : gInject.failWriteAt) = at;
    gInject.watchIo = true;
  };
  // How often the file is written without faults
  const uint64_t seed = r.next();
  auto writeAll = [&](int64_t at, int fault) {
    return inChild(30, [&] {
      Rng q(seed);
      arm(at, fault);
      int code = 0;
      try {
        Table t = createTable(path, c, c.nRows());
        fill(t);
      } catch (std::exception &) {
        code = 4;
      }
      publish(s);
      return code;
    });
  };
  auto compareAll = [&](const char *when) {
    // The reader may fail, but must not return something else
    return inChild(30, [&] {
      Table t(path);
      const uint64_t before = gRep.fails;
      m.checkAll(t, when);
      return gRep.fails != before ? 3 : 0;
    });
  };
  int code = 0;
  bool checked = true;
  if (kind == 3 || kind == 5 || kind == 6 || kind == 7 || kind == 9 || kind == 11) {
    const int w0 = writeAll(-1, 0);
    VT_CHECK(w0 == 0, "ANY:inconclusive", "writing without a fault: status %d", w0);
  }
  switch (kind) {
    case 0:
    case 4:
    case 1:
    case 8: {
      // The number of writes of the run without faults, then one of these
      // fails. The last ones happen during the close.
      writeAll(-1, 0);
      const uint64_t n = kind == 8 ? s->seeks : s->writes;
      rmTree(path);
      if (n == 0) {
        gRep.nontrivial = false;  // a single manager: no second file
        checked = false;
        break;
      }
      const uint64_t at = r.chance(0.35) ? n - 1 - r.below(std::min<uint64_t>(n, 3)) : r.below(n);
      code = writeAll(int64_t(at), kind == 1 ? -1 : err);
      gRep.stat("faults", s->faults);
      ++gRep.checks;
      if (code == -1000)
        gRep.fail("C20:hang", "no progress after %s %llu of %llu failed",
                    kind == 8 ? "seek" : "write",
                  (unsigned long long)at, (unsigned long long)n);
      else if (code == 0 && s->faults != 0) {
        // Nobody was told: then the data have to be there
        const int rc = compareAll("after a failed write that was not reported");
        if (rc != 0)
          gRep.fail("C20:silent",
                    "%s %llu of %llu failed (error %d%s), all calls succeeded, but reading "
                    "the table: %s", kind == 8 ? "seek" : "write",
                    (unsigned long long)at, (unsigned long long)n, kind == 1 ? ENOSPC : err,
                    kind == 1 ? ", after a short write" : "",
                    rc == 3 ? "other values" : strf("status %d", rc).c_str());
        gRep.stat("unreported", 1);
      } else if (code != 0 && s->faults != 0)
        gRep.stat("reported", 1);
      else if (code < 0)
        gRep.stat("reported", 1);
    } break;
    case 2: {
      // A real limit instead of an injected fault
      writeAll(-1, 0);
      struct stat st;
      const uint64_t size = stat((path + "/" + file).c_str(), &st) == 0 ? st.st_size : 0;
      rmTree(path);
      if (size == 0) {
        gRep.nontrivial = false;
        checked = false;
        break;
      }
      // Only the Dysco file is large compared to the limit
      code = inChild(30, [&] {
        Table t = createTable(path, c, c.nRows());
        signal(SIGXFSZ, SIG_IGN);
        const uint64_t limit = size / 2 + Rng(seed).below(size / 2);
        rlimit rl = {limit, limit};
        setrlimit(RLIMIT_FSIZE, &rl);
        fill(t);
        return 0;
      });
      ++gRep.checks;
      if (code == -1000)
        gRep.fail("C20:hang", "no progress after the file size limit was reached");
      else if (code == 0) {
        const int rc = compareAll("after the file size limit was reached");
        if (rc != 0)
          gRep.fail("C20:silent",
                    "file size limit below the size of the file; all calls succeeded, but "
                    "reading the table: %s",
                    rc == 3 ? "other values" : strf("status %d", rc).c_str());
      } else
        gRep.stat("reported", 1);
    } break;
    case 3:
    case 9: {
      code = inChild(30, [&] {
        gInject.resetIo();
        gInject.setSuffix("io.tab/" + file);
        gInject.watchIo = true;
        {
          Table t(path);
          m.checkAll(t, "x");
        }
        publish(s);
        return 0;
      });
      const uint64_t n = kind == 9 ? s->seeks : s->reads;
      if (n == 0) {
        gRep.nontrivial = false;
        checked = false;
        break;
      }
      const uint64_t at = r.chance(0.3) ? n - 1 : r.below(n);
      code = inChild(30, [&] {
        gInject.resetIo();
        gInject.setSuffix("io.tab/" + file);
        gInject.readFault = err == EDQUOT ? EIO : err;
        (kind == 9 ? gInject.failSeekAt : gInject.failReadAt) = int64_t(at);
        gInject.watchIo = true;
        const uint64_t before = gRep.fails;
        Table t(path);
        // Every cell on its own: an error may be reported for some
        for (size_t col = 0; col != m.cols.size(); ++col)
          for (size_t row = 0; row != m.nRows; ++row) try {
              m.check(t, col, row, "after a failed read");
            } catch (std::exception &) {
              publish(s);
            }
        publish(s);
        return gRep.fails != before ? 3 : 0;
      });
      gRep.stat("faults", s->faults);
      ++gRep.checks;
      if (code == 3)
        gRep.fail("C20:silent", "%s %llu of %llu of the file failed: other values were returned",
                  kind == 9 ? "seek" : "read",
                  (unsigned long long)at, (unsigned long long)n);
      else if (code == -1000)
        gRep.fail("C20:hang", "no progress after a failed read");
      else if (code != 0)
        gRep.stat("reported", 1);
    } break;
    case 5: {
      // One row of an existing table is changed while writing fails
      const size_t row = r.below(m.nRows), col = r.below(m.cols.size());
      Model m2(m);
      std::vector<cf> nd = m.genData(r, 0, 1);
      std::vector<float> nw = m.genWeight(r);
      if (c.cols[col].isWeight)
        m2.set(col, row, nw);
      else
        m2.set(col, row, nd);
      code = inChild(30, [&] {
        int rc = 0;
        try {
          Table t(path, Table::Update);
          arm(0, r.chance(0.3) ? -1 : err);
          if (c.cols[col].isWeight)
            putRow<float>(t, c, c.cols[col].name, row, nw);
          else
            putRow<Complex>(t, c, c.cols[col].name, row, nd);
        } catch (std::exception &) {
          rc = 4;
        }
        publish(s);
        return rc;
      });
      gRep.stat("faults", s->faults);
      ++gRep.checks;
      if (code == -1000)
        gRep.fail("C20:hang", "no progress after a failed write");
      else if (code == 0) {
        const int rc = inChild(30, [&] {
          Table t(path);
          const uint64_t before = gRep.fails;
          m2.checkAll(t, "after changing a row");
          return gRep.fails != before ? 3 : 0;
        });
        if (rc != 0)
          gRep.fail("C20:silent",
                    "changing a row while writing fails: all calls succeeded, but reading: %s",
                    rc == 3 ? "other values" : strf("status %d", rc).c_str());
      } else
        gRep.stat("reported", 1);
    } break;
    case 10: {
      // The file can not be created or opened
      const bool creating = r.chance(0.5);
      if (!creating && writeAll(-1, 0) != 0) break;
      code = inChild(30, [&] {
        int rc = 0;
        gInject.resetIo();
        gInject.setSuffix("io.tab/" + file);
        gInject.failOpenAt = 0;
        gInject.failSticky = true;
        gInject.readFault = r.pick(std::vector<int>{EACCES, EMFILE, EIO, ENOSPC, EISDIR});
        gInject.watchIo = true;
        const uint64_t before = gRep.fails;
        try {
          if (creating) {
            Table t = createTable(path, c, c.nRows());
            fill(t);
          } else {
            Table t(path, r.chance(0.5) ? Table::Old : Table::Update);
            m.checkAll(t, "x");
          }
        } catch (std::exception &) {
          rc = 4;
        }
        publish(s);
        if (rc == 0 && gRep.fails != before) rc = 3;
        return rc;
      });
      gRep.stat("faults", s->faults);
      ++gRep.checks;
      if (s->faults == 0) {
        gRep.nontrivial = false;
        checked = false;
      } else if (code == -1000)
        gRep.fail("C20:hang", "no progress after the file could not be opened");
      else if (code == 0 || code == 3)
        gRep.fail("C20:silent", "the file could not be %s, but all calls succeeded",
                  creating ? "created" : "opened");
      else
        gRep.stat("reported", 1);
    } break;
    case 7:
    case 11: {
      // A session with an existing table, in which a random call fails
      static const char *kSessions[] = {"update", "append", "removeColumn", "addColumn",
                                        "copy"};
      const int session = r.below(5);
      Cfg c2 = c;
      Model m2(m);
      const size_t oldRows = m.nRows;
      size_t addRows = 0, removed = size_t(-1);
      struct Op {
        size_t col, row;
        bool read;
        std::vector<cf> d;
        std::vector<float> w;
      };
      std::vector<Op> ops;
      if (session == 1) {
        addRows = 1 + r.below(2 * rpb);
        m2.setRows(oldRows + addRows);
        c2.nBlocks += 3;
      } else if (session == 2)
        removed = r.below(c.cols.size());
      else if (session == 3) {
        const int mgr = c.cols.back().manager + 1;
        c2.cols.push_back({"EXTRA_DATA", false, mgr});
        Model m3(c2);
        for (size_t i = 0; i != m2.cols.size(); ++i) m3.cols[i] = m2.cols[i];
        m3.key = m2.key;
        m2 = m3;
      }
      for (auto &k : m2.cols) k.lastBlock = size_t(-1);
      if (removed != size_t(-1)) m2.cols[removed].alive = false;
      const size_t nOps = session == 0 ? 1 + r.below(3 * rpb) : r.below(rpb);
      auto addOp = [&](size_t col, size_t row) {
        Op o;
        o.col = col;
        o.row = row;
        o.read = session != 1 && session != 3 && r.chance(0.3);
        if (!o.read) {
          if (c2.cols[col].isWeight)
            m2.set(col, row, o.w = m2.genWeight(r));
          else
            m2.set(col, row, o.d = m2.genData(r, 0, 1));
        }
        ops.push_back(o);
      };
      if (session == 1) {
        for (size_t col = 0; col != c.cols.size(); ++col)
          for (size_t row = oldRows; row != oldRows + addRows; ++row) addOp(col, row);
      } else if (session == 3) {
        for (size_t row = 0; row != oldRows; ++row) addOp(c2.cols.size() - 1, row);
      } else if (session != 4)
        for (size_t i = 0; i != nOps; ++i) {
          const size_t col = r.below(c.cols.size());
          if (col != removed) addOp(col, r.below(oldRows));
        }
      const std::string copyPath = gArgs.dir + "/copy-io.tab";
      const auto base = snapshot(path);
      auto restore = [&] {
        rmTree(copyPath);
        for (const std::string &f : listDir(path)) unlink((path + "/" + f).c_str());
        for (auto &f : base) {
          std::ofstream o(path + "/" + f.first, std::ios::binary);
          o.write(reinterpret_cast<const char *>(f.second.data()), f.second.size());
        }
      };
      // What fails: 0 write, 1 short write, 2 read, 3 seek, 4 open
      const int fault = r.below(5);
      auto run = [&](const std::string &suffix, int64_t at) {
        return inChild(30, [&, suffix, at] {
          gInject.resetIo();
          gInject.setSuffix(suffix);
          gInject.writeFault = fault == 1 ? -1 : err;
          gInject.readFault = fault == 4 ? EACCES : EIO;
          gInject.failSticky = fault != 2 && sticky;
          if (fault < 2) gInject.failWriteAt = at;
          if (fault == 2) gInject.failReadAt = at;
          if (fault == 3) gInject.failSeekAt = at;
          if (fault == 4) gInject.failOpenAt = at;
          int rc = 0;
          const uint64_t before = gRep.fails;
          try {
            Table t(path, Table::Update);
            gInject.watchIo = true;
            if (addRows != 0) {
              t.addRow(addRows);
              fillKeys(t, c2, oldRows, oldRows + addRows);
            }
            if (session == 3) {
              casacore::TableDesc td = makeDesc(c2);
              casacore::TableDesc one;
              one.addColumn(td.columnDesc("EXTRA_DATA"));
              auto dm = makeManager(c2, dmName(c2, c2.cols.back().manager));
              t.addColumn(one, *dm);
            }
            if (removed != size_t(-1)) t.removeColumn(c.cols[removed].name);
            for (const Op &o : ops) {
              if (o.read)
                // Only whether it is reported: the values are compared below
                (void)(c2.cols[o.col].isWeight
                           ? getRow<float>(t, c2.cols[o.col].name, o.row).size()
                           : getRow<Complex>(t, c2.cols[o.col].name, o.row).size());
              else if (c2.cols[o.col].isWeight)
                putRow<float>(t, c2, c2.cols[o.col].name, o.row, o.w);
              else
                putRow<Complex>(t, c2, c2.cols[o.col].name, o.row, o.d);
            }
            if (session == 4) {
              // The copy holds everything as well
              Table empty;
              t.deepCopy(copyPath, Table::New, true);
            }
          } catch (std::exception &) {
            rc = 4;
          }
          gInject.watchIo = false;
          publish(s);
          if (rc == 0 && gRep.fails != before) rc = 3;
          return rc;
        });
      };
      auto verify = [&] {
        return inChild(30, [&] {
          const uint64_t before = gRep.fails;
          {
            Table t(path);
            m2.checkAll(t, "after a session with a fault that was not reported");
          }
          if (session == 4) {
            Table t(copyPath);
            Model m4(m2);
            for (auto &k : m4.cols)
              for (auto &p : k.passes) ++p;
            m4.checkAll(t, "copy made with a fault that was not reported");
          }
          return gRep.fails != before ? 3 : 0;
        });
      };
      gRep.stat(kSessions[session], 1);
      const int clean = run("io.tab/" + file, -1);
      VT_CHECK(clean == 0, "C20:clean", "session %s without a fault: status %d",
               kSessions[session], clean);
      const int ok = verify();
      VT_CHECK(ok == 0, "C20:clean", "session %s without a fault: %s", kSessions[session],
               ok == 3 ? "other values" : strf("status %d", ok).c_str());
      // The file on which the fault happens: that of a manager of the table, or a new one
      std::vector<std::string> files;
      for (const std::string &f : listDir(path))
        if (f.compare(0, 7, "table.f") == 0 && f != "table.f1" &&
            fileIsDysco(path + "/" + f) && f.find("i") == std::string::npos)
          files.push_back("io.tab/" + f);
      if (session == 4)
        for (const std::string &f : listDir(copyPath))
          if (f == file) files.push_back("copy-io.tab/" + f);
      const std::string suffix = files.empty() ? "io.tab/" + file : files[r.below(files.size())];
      restore();
      run(suffix, -1);
      const uint64_t n = fault < 2 ? s->writes : fault == 2 ? s->reads : fault == 3 ? s->seeks : s->opens;
      restore();
      if (n == 0) {
        gRep.nontrivial = false;
        checked = false;
        break;
      }
      const uint64_t at = r.chance(0.35) ? n - 1 - r.below(std::min<uint64_t>(n, 3)) : r.below(n);
      code = run(suffix, int64_t(at));
      gRep.stat("faults", s->faults);
      ++gRep.checks;
      static const char *kFaults[] = {"write", "write (short)", "read", "seek", "open"};
      if (code == -1000)
        gRep.fail("C20:hang", "session %s: no progress after %s %llu of %llu on %s failed",
                  kSessions[session], kFaults[fault], (unsigned long long)at,
                  (unsigned long long)n, suffix.c_str());
      else if (code == 0 && s->faults != 0) {
        const int rc = verify();
        if (rc != 0)
          gRep.fail("C20:silent",
                    "session %s: %s %llu of %llu on %s failed, all calls succeeded, but reading "
                    "the table: %s",
                    kSessions[session], kFaults[fault], (unsigned long long)at,
                    (unsigned long long)n, suffix.c_str(),
                    rc == 3 ? "other values" : strf("status %d", rc).c_str());
        gRep.stat("unreported", 1);
      } else if (code != 0)
        gRep.stat("reported", 1);
      rmTree(copyPath);
    } break;
    case 6: {
      // A set that may only be read: reading works, writing is refused
      const std::vector<std::string> files = listDir(path);
      const auto before = snapshot(path);
      for (const std::string &f : files) chmod((path + "/" + f).c_str(), 0444);
      chmod(path.c_str(), 0555);
      const bool isRoot = geteuid() == 0;
      code = inChild(30, [&] {
        if (isRoot && (setgid(65534) != 0 || setuid(65534) != 0)) return 0;
        Table t(path);
        const uint64_t fails = gRep.fails;
        m.checkAll(t, "read-only files");
        if (gRep.fails != fails) return 3;
        return 0;
      });
      ++gRep.checks;
      // The unprivileged user might not be able to reach the directory
      const bool reachable = inChild(30, [&] {
                               if (isRoot && (setgid(65534) != 0 || setuid(65534) != 0)) return 0;
                               return access((path + "/table.dat").c_str(), R_OK) == 0 ? 0 : 1;
                             }) == 0;
      if (reachable)
        VT_CHECK(code == 0, "C20:readOnly", "reading a set with read-only files: status %d", code);
      else
        gRep.nontrivial = false;
      chmod(path.c_str(), 0755);
      for (const std::string &f : files) chmod((path + "/" + f).c_str(), 0644);
      auto after = snapshot(path);
      auto b = before;
      after.erase("table.lock");
      b.erase("table.lock");
      VT_CHECK(after == b, "C20:readOnly", "reading a read-only set changed its files");
    } break;
  }
  (void)rpb;
  if (checked) gRep.stat(kKinds[kind], 1);
  if (index < 12) gRep.sample(strf("%s: status %d, faults %llu", kKinds[kind], code,
                                  (unsigned long long)s->faults));
  rmTree(path);
  gRep.end();
}

// ---- The tools ---------------------------------------------------------------
namespace {

struct Set {
  Cfg c;
  std::vector<std::pair<int, int>> bl;
  size_t nRows = 0;
  std::vector<std::string> dataNames;
  bool hasWeight = true;
  std::map<std::string, int> nChanOf;  // per data column
  std::map<std::string, std::vector<std::vector<cf>>> data;
  std::vector<std::vector<float>> weight;
  std::vector<std::vector<char>> flag;
};

size_t visOf(const Set &s, const std::string &n) {
  auto i = s.nChanOf.find(n);
  return size_t(i == s.nChanOf.end() ? s.c.nChan : i->second) * s.c.nPol;
}

// A measurement set like table without compression
// Columns with keywords of their own
std::vector<std::string> withKeywords(const Table &t) {
  std::vector<std::string> v;
  for (const char *n : {"TIME", "UVW", "FLAG", "DATA", "MODEL_DATA", "CORRECTED_DATA", "WEIGHT_SPECTRUM"})
    if (t.tableDesc().isColumn(n)) v.push_back(n);
  return v;
}

void createPlain(const std::string &path, Set &s, Rng &r, double flagChance) {
  using namespace casacore;
  // Flags: random ones, and whole rows, channels, polarizations, antennas or blocks.
  // Flagged samples may be very strong; other samples may be NaN.
  const int pattern = flagChance > 0 ? int(r.below(6)) : 0;
  const int what = int(r.next() & 0xffff);
  const bool strong = flagChance > 0 && r.chance(0.5);
  const double nanChance = r.chance(0.3) ? 0.05 : 0.0;
  auto isFlagged = [&](size_t row, size_t i) {
    const auto b = s.bl[row % s.bl.size()];
    switch (pattern) {
      case 1: return (row * 7 + size_t(what)) % 3 == 0;
      case 2: return int(i) / s.c.nPol == what % s.c.nChan;
      case 3: return int(row / s.bl.size()) == what % s.c.nBlocks;
      case 4: return b.first == what % s.c.nAnt || b.second == what % s.c.nAnt;
      case 5: return int(i) % s.c.nPol == what % s.c.nPol;
    }
    return false;
  };
  // Zeros: an antenna, a polarization, a channel, a block, a row, everything, or
  // some samples, as in sets of which the correlator delivered a part
  const int zeroPattern = r.chance(0.4) ? int(r.below(7)) : -1;
  const int zeroWhat = zeroPattern >= 0 ? int(r.next() & 0xffff) : 0;
  auto isZero = [&](size_t row, size_t i) {
    const auto b = s.bl[row % s.bl.size()];
    switch (zeroPattern) {
      case 0: return b.first == zeroWhat % s.c.nAnt || b.second == zeroWhat % s.c.nAnt;
      case 1: return int(i) % s.c.nPol == zeroWhat % s.c.nPol;
      case 2: return int(i) / s.c.nPol == zeroWhat % s.c.nChan;
      case 3: return int(row / s.bl.size()) == zeroWhat % s.c.nBlocks;
      case 4: return (row + size_t(zeroWhat)) % 3 == 0;
      case 5: return true;
      case 6: return (row * 31 + i * 17 + size_t(zeroWhat)) % 4 == 0;
    }
    return false;
  };
  gRep.stat(strf("zeros%d", zeroPattern), 1);
  TableDesc td;
  td.addColumn(ScalarColumnDesc<int>("ANTENNA1"));
  td.addColumn(ScalarColumnDesc<int>("ANTENNA2"));
  td.addColumn(ScalarColumnDesc<int>("FIELD_ID"));
  td.addColumn(ScalarColumnDesc<int>("DATA_DESC_ID"));
  td.addColumn(ScalarColumnDesc<double>("TIME"));
  td.addColumn(ScalarColumnDesc<casacore::String>("NOTE"));
  td.addColumn(ArrayColumnDesc<double>("UVW", IPosition(1, 3), ColumnDesc::Direct));
  const bool fixed = r.chance(0.6);
  td.addColumn(ArrayColumnDesc<bool>("FLAG", IPosition(2, s.c.nPol, s.c.nChan), ColumnDesc::Direct));
  for (const std::string &n : s.dataNames) {
    const IPosition shape(2, s.c.nPol, int(visOf(s, n)) / s.c.nPol);
    if (fixed)
      td.addColumn(ArrayColumnDesc<Complex>(n, shape, ColumnDesc::FixedShape));
    else
      td.addColumn(ArrayColumnDesc<Complex>(n, 2));
  }
  if (s.hasWeight)
    td.addColumn(
        ArrayColumnDesc<float>("WEIGHT_SPECTRUM", IPosition(2, s.c.nPol, s.c.nChan), ColumnDesc::Direct));
  SetupNewTable setup(path, td, Table::New);
  Table t(setup, s.nRows);
  t.rwKeywordSet().define("TOOLKEY", 42);
  ScalarColumn<int> a1(t, "ANTENNA1"), a2(t, "ANTENNA2"), f(t, "FIELD_ID"), dd(t, "DATA_DESC_ID");
  ScalarColumn<double> tm(t, "TIME");
  ScalarColumn<casacore::String> note(t, "NOTE");
  ArrayColumn<double> uvw(t, "UVW");
  ArrayColumn<bool> flag(t, "FLAG");
  for (size_t row = 0; row != s.nRows; ++row) {
    const RowKey k = rowKey(s.c, s.bl, row);
    a1.put(row, k.ant1);
    a2.put(row, k.ant2);
    f.put(row, k.field);
    dd.put(row, k.ddid);
    tm.put(row, k.time);
    note.put(row, "row" + std::to_string(row));
    uvw.put(row, Vector<double>(IPosition(1, 3), double(row) + 0.25));
    s.flag.emplace_back(s.c.vis());
    Array<bool> fa(IPosition(2, s.c.nPol, s.c.nChan));
    size_t i = 0;
    for (auto it = fa.begin(); it != fa.end(); ++it, ++i)
      *it = s.flag[row][i] = isFlagged(row, i) || r.chance(flagChance);
    flag.put(row, fa);
    for (const std::string &n : s.dataNames) {
      std::vector<cf> v(visOf(s, n));
      Array<Complex> a(IPosition(2, s.c.nPol, int(v.size()) / s.c.nPol));
      i = 0;
      for (auto it = a.begin(); it != a.end(); ++it, ++i)
        *it = v[i] = isZero(row, i) ? cf(0, 0) : cf(float(r.uniform(-1, 1)), float(r.uniform(-1, 1)));
      if (v.size() == s.flag[row].size()) {
        i = 0;
        for (auto it = a.begin(); it != a.end(); ++it, ++i) {
          if (s.flag[row][i] && strong) *it = v[i] *= 1000.0f;
          if (r.chance(nanChance)) *it = v[i] = cf(std::nanf(""), std::nanf(""));
        }
      }
      ArrayColumn<Complex>(t, n).put(row, a);
      s.data[n].push_back(v);
    }
    if (s.hasWeight) {
      std::vector<float> v(s.c.vis());
      for (size_t k2 = 0; k2 < v.size(); k2 += s.c.nPol) {
        const float w = float(r.uniform());
        for (int p = 0; p != s.c.nPol; ++p) v[k2 + p] = isZero(row, k2) ? 0.0f : w;
      }
      s.weight.push_back(v);
      putRow<float>(t, s.c, "WEIGHT_SPECTRUM", row, v);
    }
  }
  // What else belongs to a set
  t.tableInfo().setType("Measurement Set");
  t.tableInfo().readmeAddLine("a readme");
  for (const std::string &n : withKeywords(t)) {
    TableColumn col(t, n);
    col.rwKeywordSet().define("UNIT", "unit of " + n);
    TableRecord sub;
    sub.define("type", int(n.size()));
    col.rwKeywordSet().defineRecord("MEASINFO", sub);
  }
  for (const char *name : {"ANTENNA", "SPECTRAL_WINDOW"}) {
    TableDesc sd;
    sd.addColumn(ScalarColumnDesc<casacore::String>("NAME"));
    sd.addColumn(ArrayColumnDesc<double>("POSITION", 1));
    SetupNewTable ss(path + "/" + name, sd, Table::New);
    Table sub(ss, 3);
    for (size_t row = 0; row != 3; ++row) {
      ScalarColumn<casacore::String>(sub, "NAME").put(row, name + std::to_string(row));
      ArrayColumn<double>(sub, "POSITION").put(row, Vector<double>(IPosition(1, int(row) + 1), row * 0.5));
    }
    sub.rwKeywordSet().define("SUBKEY", name);
    t.rwKeywordSet().defineTable(name, sub);
  }
}

int runTool(const std::vector<std::string> &args, std::string &output) {
  const std::string log = gArgs.dir + "/tool.log";
  std::fflush(nullptr);
  const pid_t pid = fork();
  if (pid == 0) {
    const int fd = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(fd, 1);
    dup2(fd, 2);
    rlimit nocore = {0, 0};
    setrlimit(RLIMIT_CORE, &nocore);
    if (chdir(gArgs.dir.c_str()) != 0) _exit(98);
    std::vector<char *> a;
    std::vector<std::string> prefix;
    if (const char *p = getenv("VT_TOOL_PREFIX")) {
      std::istringstream is(p);
      for (std::string word; std::getline(is, word);) prefix.push_back(word);
    }
    for (const std::string &x : prefix) a.push_back(const_cast<char *>(x.c_str()));
    for (const std::string &x : args) a.push_back(const_cast<char *>(x.c_str()));
    a.push_back(nullptr);
    execvp(a[0], a.data());
    _exit(97);
  }
  const double end = now() + 120;
  int st = 0;
  while (waitpid(pid, &st, WNOHANG) == 0) {
    if (now() > end) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      return -1000;
    }
    usleep(1000);
  }
  const auto b = RefFile::slurp(log);
  output.assign(b.begin(), b.end());
  return WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
}
// A sanitizer report ends the process by abort(), like an exception does
bool sanitizer(const std::string &o) {
  return o.find("Sanitizer") != std::string::npos || o.find("runtime error:") != std::string::npos ||
         o.find("uninitialised") != std::string::npos;
}
std::string tail(const std::string &o) {
  return o.size() > 300 ? o.substr(o.size() - 300) : o;
}

std::string typeOf(Table &t, const std::string &col) {
  return t.tableDesc()[col].dataManagerType();
}

// The columns that no tool may change
void checkOthers(const std::string &key, Table &t, const Set &s, const char *when) {
  using namespace casacore;
  ScalarColumn<int> a1(t, "ANTENNA1"), a2(t, "ANTENNA2"), f(t, "FIELD_ID"), dd(t, "DATA_DESC_ID");
  ScalarColumn<double> tm(t, "TIME");
  ScalarColumn<casacore::String> note(t, "NOTE");
  ArrayColumn<double> uvw(t, "UVW");
  ArrayColumn<bool> flag(t, "FLAG");
  VT_CHECK(t.nrow() == s.nRows, key, "%s: %zu rows, expected %zu", when, size_t(t.nrow()), s.nRows);
  size_t expected = 8 + s.dataNames.size() + (s.hasWeight ? 1 : 0);
  VT_CHECK(t.tableDesc().ncolumn() == expected, key, "%s: %u columns, expected %zu", when,
           unsigned(t.tableDesc().ncolumn()), expected);
  VT_CHECK(t.keywordSet().isDefined("TOOLKEY") && t.keywordSet().asInt("TOOLKEY") == 42, key,
           "%s: lost a keyword", when);
  VT_CHECK(std::string(t.tableInfo().type()) == "Measurement Set" &&
               std::string(t.tableInfo().readme()).find("a readme") != std::string::npos,
           key, "%s: lost the type or readme of the set", when);
  for (const std::string &n : withKeywords(t)) {
    const TableRecord &k = TableColumn(t, n).keywordSet();
    VT_CHECK(k.isDefined("UNIT") && std::string(k.asString("UNIT")) == "unit of " + n &&
                 k.isDefined("MEASINFO") && k.asRecord("MEASINFO").asInt("type") == int(n.size()),
             key, "%s: lost the keywords of column %s", when, n.c_str());
  }
  for (const char *name : {"ANTENNA", "SPECTRAL_WINDOW"}) {
    bool ok = t.keywordSet().isDefined(name);
    if (ok) {
      Table sub = t.keywordSet().asTable(name);
      ok = std::string(sub.tableName()) == std::string(t.tableName()) + "/" + name && sub.nrow() == 3 &&
           sub.keywordSet().isDefined("SUBKEY");
      for (size_t row = 0; ok && row != 3; ++row)
        ok = std::string(ScalarColumn<casacore::String>(sub, "NAME")(row)) == name + std::to_string(row) &&
             ArrayColumn<double>(sub, "POSITION")(row).nelements() == row + 1;
    }
    VT_CHECK(ok, key, "%s: subtable %s was lost or changed", when, name);
  }
  for (size_t row = 0; row != std::min<size_t>(s.nRows, t.nrow()); ++row) {
    const RowKey k = rowKey(s.c, s.bl, row);
    bool ok = a1(row) == k.ant1 && a2(row) == k.ant2 && f(row) == k.field && dd(row) == k.ddid &&
              tm(row) == k.time && std::string(note(row)) == "row" + std::to_string(row);
    Array<double> u = uvw(row);
    for (auto it = u.begin(); it != u.end(); ++it) ok = ok && *it == double(row) + 0.25;
    Array<bool> fa = flag(row);
    size_t i = 0;
    for (auto it = fa.begin(); it != fa.end(); ++it, ++i) ok = ok && *it == bool(s.flag[row][i]);
    VT_CHECK(ok, key, "%s: row %zu of another column was changed", when, row);
  }
}

std::vector<cf> getVis(Table &t, const std::string &n, size_t row) { return getRow<Complex>(t, n, row); }

}  // namespace

void modeTools(uint64_t index, Rng &r) {
  const size_t colon = gArgs.extra.find(':');
  const std::string dscompress = gArgs.extra.substr(0, colon),
                    decompress = gArgs.extra.substr(colon + 1);
  static const char *kKinds[] = {"compress",   "compressMany", "compressTwice", "reorder",
                                 "irregular",  "refused",      "decompress",    "decompressOne",
                                 "decompressPlain", "roundAndRound", "refusedSet"};
  const int kind = index % 11;
  Set s;
  Cfg &c = s.c;
  c.nAnt = r.range(2, 5);
  c.autos = r.chance(0.3);
  c.nChan = r.range(1, 6);
  c.nPol = r.pick(std::vector<int>{1, 2, 4});
  c.nBlocks = kind == 4 ? r.range(2, 6) : r.range(1, 6);
  // More blocks than can be waiting to be stored
  if (r.chance(0.1)) c.nBlocks = r.range(20, 60);
  c.rowOrder = r.below(3);
  c.orderSeed = r.next();
  c.splitBy = r.below(4);
  c.dataBits = kWidths[r.below(8)];
  c.weightBits = kWidths[r.below(8)];
  c.dist = r.below(4);
  c.norm = r.below(3);
  c.trunc = r.pick(std::vector<double>{1.5, 2.0, 2.5, 3.5});
  c.nu = 1.0;
  someBaselines(r, c);
  s.bl = c.baselines();
  s.nRows = c.nRows();
  s.dataNames = {"DATA"};
  if (kind == 1 || kind == 2 || kind == 7 || kind == 9 || r.chance(0.3)) s.dataNames.push_back("MODEL_DATA");
  if (kind == 1 || kind == 2) s.dataNames.push_back("CORRECTED_DATA");
  const int unfit = int(r.below(9));
  if (kind == 10) {
    s.dataNames = {"DATA", "MODEL_DATA"};
    c.nBlocks = int(r.range(2, 6));
    s.nRows = c.nRows();
  }
  s.hasWeight = kind == 7 ? r.chance(0.5) : true;
  std::vector<std::string> opts;
  const bool defaults = r.chance(0.15);
  if (defaults) {
    c.dataBits = 8;
    c.weightBits = 12;
    c.dist = kTrunc;
    c.norm = kAF;
    c.trunc = 2.5;
  } else {
    opts = {"-data-bit-rate", std::to_string(c.dataBits), "-weight-bit-rate",
            std::to_string(c.weightBits)};
    switch (c.dist) {
      case kGaussian:
        opts.push_back("-gaussian");
        break;
      case kUniform:
        opts.push_back("-uniform");
        break;
      case kStudentT:
        opts.push_back("-studentt");
        break;
      default:
        // Values that are not representable in single precision
        if (r.chance(0.5)) c.trunc = 1.3 + 0.1 * r.below(25);
        opts.push_back("-truncgaus");
        opts.push_back(strf("%.17g", c.trunc));
    }
    opts.push_back(c.norm == kAF ? "-afnormalization"
                                 : c.norm == kRF ? "-rfnormalization" : "-rownormalization");
    if (r.chance(0.2)) opts.push_back("-static-seed");
  }
  // Different columns may have different numbers of channels, as long as they
  // have no flags of their own
  double flagChance = r.chance(0.5) ? 0.2 : 0.0;
  const std::string path = gArgs.dir + "/tools.ms";
  rmTree(path);
  rmTree(path + "temp");
  gRep.begin(index, std::string(kKinds[kind]) + " " + c.str() +
                        strf(" weight=%d flags=%g", s.hasWeight, flagChance));
  if (kind == 4) {
    // Not all timesteps have the same baselines
    if (c.rowsPerBlock() < 2) {
      c.nAnt = 4;
      c.nDrop = c.nDup = 0;
    }
    s.bl = c.baselines();
    s.nRows = c.nRows();
  }
  createPlain(path, s, r, flagChance);
  // Another set of which the name looks like that of a temporary one
  const int bystander = r.chance(0.3) ? 1 + int(r.below(2)) : 0;
  if (bystander == 1) {
    casacore::TableDesc td;
    td.addColumn(casacore::ScalarColumnDesc<int>("ANTENNA1"));
    casacore::SetupNewTable setup(path + "temp", td, casacore::Table::New);
    casacore::Table t(setup, 7);
  } else if (bystander == 2)
    std::ofstream(path + "temp") << "a file";
  const std::string before = "C17:", slash = r.chance(0.3) ? r.chance(0.5) ? "/" : "//" : "";
  // As the tools are given the path: they run in the directory of the set
  const std::string argPath = r.chance(0.2) ? (r.chance(0.5) ? "tools.ms" : "./tools.ms") : path;
  std::string out;

  std::set<std::string> compressed;
  auto compress = [&](const std::vector<std::string> &cols, bool reorder, bool expectOk) {
    std::vector<std::string> a = {dscompress};
    a.insert(a.end(), opts.begin(), opts.end());
    if (reorder) a.push_back("-reorder");
    for (const std::string &n : cols) {
      a.push_back("-column");
      a.push_back(n);
    }
    a.push_back(argPath + slash);
    const int rc = runTool(a, out);
    if (sanitizer(out)) gRep.fail("C15:tool", "dscompress: %s", tail(out).c_str());
    VT_CHECK((rc == 0) == expectOk, "C17:status", "dscompress returned %d: %s", rc,
             tail(out).c_str());
    if (expectOk)
      for (const std::string &n : cols) compressed.insert(n);
    if (expectOk && cols.empty()) compressed.insert("DATA");
    gRep.stat("toolRuns", 1);
    return rc == 0;
  };
  // Largest error of one pass through the codec
  Model m(c);
  const double unit = m.unitTol;
  const std::string key2 = kind >= 6 && kind <= 9 ? "C18:" : "C17:";
  // How large the values of a column became: a sample that is returned with an
  // error is the input of the next pass
  auto checkData = [&](Table &t, const std::string &n, double passes, const std::string &key) {
    const double full = c.norm == kAF ? 3.0 : 1.02;
    const double tol = passes == 0 ? 0 : passes * (unit * full + 2e-5) * std::pow(1 + unit, passes);
    for (size_t row = 0; row != s.nRows; ++row) {
      const std::vector<cf> v = getVis(t, n, row);
      const std::vector<cf> &e = s.data[n][row];
      bool ok = v.size() == e.size();
      const bool loose = c.norm == kAF && !isCross(s.bl[row % s.bl.size()]) && passes > 0;
      for (size_t i = 0; ok && i != e.size(); ++i) {
        const bool flagged = compressed.count(n) && s.flag[row][i];
        if (flagged || std::isnan(e[i].real()))
          ok = std::isnan(v[i].real()) && std::isnan(v[i].imag());
        else if (!loose)
          ok = std::fabs(v[i].real() - e[i].real()) <= tol &&
               std::fabs(v[i].imag() - e[i].imag()) <= tol;
        if (!ok)
          gRep.fail(key + "value", "column %s row %zu sample %zu (flag %d): (%g,%g), was (%g,%g), tolerance %g",
                    n.c_str(), row, i, int(s.flag[row][i]), v[i].real(), v[i].imag(), e[i].real(),
                    e[i].imag(), tol);
      }
      ++gRep.checks;
    }
  };
  auto checkWeight = [&](Table &t, double passes, const std::string &key) {
    const double tol = passes * (0.505 / double((1u << c.weightBits) - 1) + 1e-6);
    for (size_t row = 0; row != s.nRows; ++row) {
      const std::vector<float> v = getRow<float>(t, "WEIGHT_SPECTRUM", row);
      bool ok = v.size() == s.weight[row].size();
      for (size_t i = 0; ok && i != v.size(); ++i) ok = std::fabs(v[i] - s.weight[row][i]) <= tol;
      VT_CHECK(ok, key + "weight", "weights of row %zu differ", row);
    }
  };
  auto checkTypes = [&](Table &t, const std::string &key, const std::set<std::string> &dysco) {
    std::vector<std::string> all = s.dataNames;
    if (s.hasWeight) all.push_back("WEIGHT_SPECTRUM");
    for (const std::string &n : all) {
      const bool is = typeOf(t, n) == "DyscoStMan";
      VT_CHECK(is == (dysco.count(n) != 0), key + "manager", "column %s is stored by %s", n.c_str(),
               typeOf(t, n).c_str());
      if (is && dysco.count(n)) {
        casacore::Record info = t.dataManagerInfo();
        bool found = false;
        for (size_t i = 0; i != info.nfields(); ++i) {
          casacore::Record rec = info.subRecord(casacore::RecordFieldId(int(i)));
          const casacore::Vector<casacore::String> cs = rec.asArrayString("COLUMNS");
          for (size_t k = 0; k != cs.nelements(); ++k)
            if (std::string(cs(k)) == n) {
              found = true;
              const casacore::Record sp = rec.subRecord("SPEC");
              VT_CHECK(sp.asInt("dataBitCount") == c.dataBits &&
                           sp.asInt("weightBitCount") == c.weightBits &&
                           sp.asString("normalization") == kNormNames[c.norm] &&
                           std::string(sp.asString("distribution")).substr(0, 5) ==
                               std::string(kDistNames[c.dist]).substr(0, 5) &&
                           (c.dist != kTrunc || sp.asDouble("distributionTruncation") == c.trunc),
                       key + "settings",
                       "column %s is stored with %d bits, %d weight bits, %s, %s, truncation %g",
                       n.c_str(), sp.asInt("dataBitCount"), sp.asInt("weightBitCount"),
                       sp.asString("normalization").c_str(), sp.asString("distribution").c_str(),
                       sp.asDouble("distributionTruncation"));
            }
        }
        VT_CHECK(found, key + "manager", "no manager for column %s", n.c_str());
      }
    }
  };
  auto noLeftovers = [&](const std::string &key) {
    const auto fs = listDir(gArgs.dir);
    for (const std::string &f : fs)
      VT_CHECK(f == "tools.ms" || f == "tool.log" || (bystander && f == "tools.mstemp"), key + "leftover", "left behind: %s", f.c_str());
  };
  std::vector<std::string> cols;
  switch (kind) {
    case 0: {
      if (r.chance(0.3)) {
        // default column
      } else if (r.chance(0.5))
        cols = {"DATA"};
      else
        cols = {"DATA", "WEIGHT_SPECTRUM"};
      if (!compress(cols, false, true)) break;
      Table t(path);
      checkOthers("C17:others", t, s, "compressed");
      checkTypes(t, "C17:", compressed);
      for (auto &n : s.dataNames) checkData(t, n, compressed.count(n) ? 1 : 0, "C17:");
      checkWeight(t, compressed.count("WEIGHT_SPECTRUM") ? 1 : 0, "C17:");
      noLeftovers("C17:");
    } break;
    case 1: {
      cols = s.dataNames;
      cols.push_back("WEIGHT_SPECTRUM");
      r.shuffle(cols);
      cols.resize(r.range(2, cols.size()));
      if (!compress(cols, false, true)) break;
      Table t(path);
      checkOthers("C17:others", t, s, "compressed");
      checkTypes(t, "C17:", compressed);
      for (auto &n : s.dataNames) checkData(t, n, compressed.count(n) ? 1 : 0, "C17:");
      checkWeight(t, compressed.count("WEIGHT_SPECTRUM") ? 1 : 0, "C17:");
    } break;
    case 2: {
      // First some of the columns, then all; a column is compressed only once
      // (the flagged values of compressed columns are written again)
      cols = {s.dataNames[r.below(s.dataNames.size())]};
      if (!compress(cols, false, true)) break;
      std::vector<std::string> more = s.dataNames;
      more.push_back("WEIGHT_SPECTRUM");
      r.shuffle(more);
      more.resize(r.range(1, more.size()));
      if (!compress(more, false, true)) break;
      const bool twice = std::find(more.begin(), more.end(), cols[0]) != more.end();
      Table t(path);
      checkOthers("C17:others", t, s, "compressed twice");
      checkTypes(t, "C17:", compressed);
      for (auto &n : s.dataNames)
        checkData(t, n, !compressed.count(n) ? 0 : n == cols[0] && twice ? 2.0 + s.bl.size() : 1,
                  "C17:");
      checkWeight(t, compressed.count("WEIGHT_SPECTRUM") ? 1 : 0, "C17:");
    } break;
    case 3: {
      cols = {"DATA", "WEIGHT_SPECTRUM"};
      if (!compress(cols, true, true)) break;
      Table t(path);
      checkOthers("C17:others", t, s, "compressed and reordered");
      checkTypes(t, "C17:", compressed);
      for (auto &n : s.dataNames) checkData(t, n, compressed.count(n) ? 2.2 : 0, "C17:");
      checkWeight(t, 2, "C17:");
      noLeftovers("C17:");
      // The space of the old columns is freed: only the new ones are there
      VT_CHECK(!t.tableDesc().isColumn("TEMP_DATA"), "C17:leftover", "TEMP_DATA is still there");
    } break;
    case 4: {
      // Break the regularity in one of several ways
      const int how = r.below(5);
      {
        using namespace casacore;
        Table t(path, Table::Update);
        ScalarColumn<int> a1(t, "ANTENNA1"), a2(t, "ANTENNA2"), f(t, "FIELD_ID");
        ScalarColumn<double> tm(t, "TIME");
        const size_t rpb = s.bl.size();
        if (how == 0)
          a1.put(rpb + r.below(s.nRows - rpb), 77);
        else if (how == 1)
          a2.put(rpb + r.below(s.nRows - rpb), 77);
        else if (how == 2)  // one block is longer, the next shorter
          for (size_t row = rpb; row < s.nRows; ++row) tm.put(row, 5000.0 + double((row - 1) / rpb));
        else if (how == 3) {  // the last block is incomplete
          t.removeRow(s.nRows - 1);
        } else  // the first block is shorter than the others
          tm.put(rpb - 1, tm(rpb - 1) + 0.5);
      }
      if (how == 2) {
        // rows rpb.. get times by shifted index: row rpb joins no other block
      }
      // The table as it is now
      std::map<std::string, std::vector<uint8_t>> snap;
      std::vector<std::vector<std::vector<cf>>> was(s.dataNames.size());
      size_t n;
      {
        Table t(path);
        n = t.nrow();
        for (size_t k = 0; k != s.dataNames.size(); ++k)
          for (size_t row = 0; row != n; ++row) was[k].push_back(getVis(t, s.dataNames[k], row));
      }
      compress({"DATA"}, false, false);
      Table t(path);
      VT_CHECK(t.nrow() == n, "C17:refused", "rows were lost");
      VT_CHECK(t.tableDesc().ncolumn() == 8 + s.dataNames.size() + 1, "C17:refused",
               "number of columns changed");
      for (size_t k = 0; k != s.dataNames.size(); ++k) {
        VT_CHECK(t.tableDesc().isColumn(s.dataNames[k]) && typeOf(t, s.dataNames[k]) != "DyscoStMan",
                 "C17:refused", "column %s was replaced", s.dataNames[k].c_str());
        for (size_t row = 0; row != n; ++row) {
          const std::vector<cf> v = getVis(t, s.dataNames[k], row);
          bool ok = v.size() == was[k][row].size();
          for (size_t i = 0; ok && i != v.size(); ++i)
            ok = v[i] == was[k][row][i] ||
                 (std::isnan(v[i].real()) &&
                  ((k == 0 && s.flag[row][i]) || std::isnan(was[k][row][i].real())));
          VT_CHECK(ok, "C17:refused", "an irregular set was refused, but row %zu of %s changed", row,
                   s.dataNames[k].c_str());
        }
      }
      gRep.stat(strf("irregular%d", how), 1);
    } break;
    case 5: {
      const int how = r.below(3);
      if (how == 0) {
        opts = {"-data-bit-rate", std::to_string(r.pick(std::vector<int>{0, 1, 5, 7, 9, 14, 32}))};
        compress({"DATA"}, false, false);
      } else if (how == 1)
        compress({"NO_SUCH_COLUMN"}, false, false);
      else {
        opts.push_back("-frobnicate");
        compress({"DATA"}, false, false);
      }
      compressed.clear();
      Table t(path);
      checkOthers("C17:refused", t, s, "refused");
      checkTypes(t, "C17:", compressed);
      for (auto &n : s.dataNames) checkData(t, n, 0, "C17:");
      checkWeight(t, 0, "C17:");
    } break;
    case 10: {
      // Requests that do not fit the set, or that are incomplete. They fail, or
      // are done completely; the columns and their values stay either way.
      using namespace casacore;
      std::vector<std::string> a = {dscompress};
      a.insert(a.end(), opts.begin(), opts.end());
      std::vector<std::string> req = {"DATA"};
      bool mayPass = false;
      static const char *kUnfit[] = {"noValue", "noPath",   "noWeight",  "twice",   "flagShape",
                                     "tempName", "rowShape", "wrongType", "weightShape"};
      switch (unfit) {
        case 0:
          req.clear();
          a.push_back(r.pick(std::vector<std::string>{"-data-bit-rate", "-weight-bit-rate",
                                                      "-truncgaus", "-column"}));
          break;
        case 1:
          break;
        case 2: {
          Table t(path, Table::Update);
          t.removeColumn("WEIGHT_SPECTRUM");
          s.hasWeight = false;
          req = {"DATA", "WEIGHT_SPECTRUM"};
        } break;
        case 3:
          req = r.chance(0.5) ? std::vector<std::string>{"DATA", "DATA"}
                              : std::vector<std::string>{"DATA", "WEIGHT_SPECTRUM", "MODEL_DATA",
                                                         "WEIGHT_SPECTRUM"};
          mayPass = true;
          break;
        case 4: {
          // Flags of another shape than the data
          Table t(path, Table::Update);
          t.removeColumn("FLAG");
          const IPosition shape = r.chance(0.5) ? IPosition(2, 1, 1)
                                                : IPosition(2, c.nPol, c.nChan + 1);
          t.addColumn(ArrayColumnDesc<bool>("FLAG", shape, ColumnDesc::FixedShape));
          ArrayColumn<bool>(t, "FLAG").fillColumn(Array<bool>(shape, false));
          for (auto &f : s.flag) std::fill(f.begin(), f.end(), 0);
          mayPass = shape.product() == c.nPol * c.nChan;
        } break;
        case 5: {
          Table t(path, Table::Update);
          ScalarColumnDesc<int> d("TEMP_MODEL_DATA");
          t.addColumn(d);
          req = {"DATA", "MODEL_DATA"};
        } break;
        case 6: {
          // Not all rows have the same shape
          Table t(path, Table::Update);
          t.removeColumn("MODEL_DATA");
          t.addColumn(ArrayColumnDesc<Complex>("MODEL_DATA", 2));
          ArrayColumn<Complex> col(t, "MODEL_DATA");
          const size_t other = 1 + r.below(s.nRows - 1);
          for (size_t row = 0; row != s.nRows; ++row) {
            const IPosition shape(2, c.nPol, c.nChan + (row == other ? 1 : 0));
            col.put(row, Array<Complex>(shape, Complex(1, 2)));
          }
          req = {"DATA", "MODEL_DATA"};
        } break;
        case 7: {
          Table t(path, Table::Update);
          const bool weight = r.chance(0.5);
          const std::string n = weight ? "WEIGHT_SPECTRUM" : "MODEL_DATA";
          t.removeColumn(n);
          const IPosition shape(2, c.nPol, c.nChan);
          t.addColumn(ArrayColumnDesc<double>(n, shape, ColumnDesc::FixedShape));
          ArrayColumn<double>(t, n).fillColumn(Array<double>(shape, 0.5));
          req = {"DATA", n};
        } break;
        case 8: {
          Table t(path, Table::Update);
          t.removeColumn("WEIGHT_SPECTRUM");
          t.addColumn(ArrayColumnDesc<float>("WEIGHT_SPECTRUM", 2));
          ArrayColumn<float> col(t, "WEIGHT_SPECTRUM");
          const size_t other = 1 + r.below(s.nRows - 1);
          for (size_t row = 0; row != s.nRows; ++row)
            if (row != other || r.chance(0.5))
              col.put(row, Array<float>(IPosition(2, c.nPol, c.nChan + (row == other ? 2 : 0)), 0.25f));
          req = {"DATA", "WEIGHT_SPECTRUM"};
        } break;
      }
      for (const std::string &n : req) {
        a.push_back("-column");
        a.push_back(n);
      }
      if (unfit > 1) a.push_back(argPath + slash);
      struct Cells {
        std::vector<std::string> names;
        std::map<std::string, std::vector<std::vector<cf>>> data;
        std::map<std::string, std::vector<std::vector<double>>> other;
      };
      auto look = [&] {
        Cells x;
        Table t(path);
        for (unsigned k = 0; k != t.tableDesc().ncolumn(); ++k)
          x.names.push_back(t.tableDesc()[k].name());
        std::sort(x.names.begin(), x.names.end());
        for (const std::string &n : x.names) {
          const ColumnDesc &d = t.tableDesc()[n];
          if (!d.isArray()) continue;
          for (size_t row = 0; row != t.nrow(); ++row) {
            std::vector<double> v;
            if (!TableColumn(t, n).isDefined(row)) {
              x.other[n].push_back({-77});
              continue;
            }
            if (d.dataType() == TpComplex)
              x.data[n].push_back(getVis(t, n, row));
            else {
              if (d.dataType() == TpFloat)
                for (float f : getRow<float>(t, n, row)) v.push_back(f);
              if (d.dataType() == TpDouble) v = getRow<double>(t, n, row);
              if (d.dataType() == TpBool) {
                Array<bool> f = ArrayColumn<bool>(t, n)(row);
                for (auto it = f.begin(); it != f.end(); ++it) v.push_back(*it);
              }
              x.other[n].push_back(v);
            }
          }
        }
        return x;
      };
      const Cells was = look();
      const int rc = runTool(a, out);
      gRep.stat("toolRuns", 1);
      gRep.stat(kUnfit[unfit], 1);
      if (sanitizer(out)) gRep.fail("C15:tool", "dscompress: %s", tail(out).c_str());
      VT_CHECK(rc != -SIGSEGV && rc != -SIGBUS, "C15:tool", "dscompress (%s) crashed: status %d",
               kUnfit[unfit], rc);
      VT_CHECK(rc != -1000, "C17:status", "dscompress (%s) does not finish", kUnfit[unfit]);
      if (rc != 0 || !mayPass) {
        VT_CHECK(rc != 0, "C17:status", "dscompress (%s) succeeded", kUnfit[unfit]);
        const Cells is = look();
        VT_CHECK(is.names == was.names, "C17:refused", "%s was refused, but the columns changed",
                 kUnfit[unfit]);
        VT_CHECK(is.other == was.other, "C17:refused", "%s was refused, but other values changed",
                 kUnfit[unfit]);
        bool ok = is.data.size() == was.data.size();
        for (auto &col : was.data) {
          const auto k = is.data.find(col.first);
          ok = ok && k != is.data.end() && k->second.size() == col.second.size();
          const bool requested = std::find(req.begin(), req.end(), col.first) != req.end();
          for (size_t row = 0; ok && row != col.second.size(); ++row) {
            const std::vector<cf> &x = k->second[row], &y = col.second[row];
            ok = x.size() == y.size();
            for (size_t i = 0; ok && i != x.size(); ++i)
              ok = x[i] == y[i] ||
                   (std::isnan(x[i].real()) && (std::isnan(y[i].real()) ||
                                                (requested && i < s.flag[row].size() && s.flag[row][i])));
          }
        }
        VT_CHECK(ok, "C17:refused", "%s was refused, but the values changed", kUnfit[unfit]);
      } else {
        for (const std::string &n : req) compressed.insert(n);
        Table t(path);
        if (unfit == 3) checkOthers("C17:others", t, s, "compressed");
        checkTypes(t, "C17:", compressed);
        for (auto &n : s.dataNames) checkData(t, n, compressed.count(n) ? 1 : 0, "C17:");
        checkWeight(t, compressed.count("WEIGHT_SPECTRUM") ? 1 : 0, "C17:");
      }
    } break;
    case 6:
    case 7: {
      // Columns compressed by the tool, then decompressed
      if (kind == 6)
        cols = {"DATA", "WEIGHT_SPECTRUM"};
      else if (s.hasWeight) {
        cols = {{"DATA"}, {"WEIGHT_SPECTRUM"}, {"MODEL_DATA"}};
        cols.erase(cols.begin() + r.below(3));
        if (r.chance(0.5)) cols.erase(cols.begin() + r.below(2));
      } else
        cols = {"DATA"};
      if (!compress(cols, r.chance(0.2), true)) break;
      std::map<std::string, std::vector<std::vector<cf>>> was;
      std::vector<std::vector<float>> wasW;
      {
        Table t(path);
        for (auto &n : s.dataNames)
          for (size_t row = 0; row != s.nRows; ++row) was[n].push_back(getVis(t, n, row));
        if (s.hasWeight)
          for (size_t row = 0; row != s.nRows; ++row)
            wasW.push_back(getRow<float>(t, "WEIGHT_SPECTRUM", row));
      }
      const int rc = runTool({decompress, argPath + slash}, out);
      if (sanitizer(out)) gRep.fail("C15:tool", "decompress: %s", tail(out).c_str());
      VT_CHECK(rc == 0, "C18:status", "decompress returned %d: %s", rc, tail(out).c_str());
      gRep.stat("toolRuns", 1);
      Table t(path);
      std::set<std::string> left;
      if (compressed.count("MODEL_DATA")) left.insert("MODEL_DATA");
      checkOthers("C18:others", t, s, "decompressed");
      checkTypes(t, "C18:", left);
      for (auto &n : s.dataNames) {
        // a column that stays compressed is copied
        const double tol = left.count(n) ? 2 * unit * 3 + 1e-4 : 0.0;
        for (size_t row = 0; row != s.nRows; ++row) {
          const std::vector<cf> v = getVis(t, n, row), &e = was[n][row];
          const bool loose = left.count(n) && c.norm == kAF && !isCross(s.bl[row % s.bl.size()]);
          bool ok = v.size() == e.size();
          for (size_t i = 0; ok && i != v.size(); ++i)
            ok = std::isnan(e[i].real()) || std::isnan(e[i].imag())
                     ? std::isnan(v[i].real()) && std::isnan(v[i].imag())
                     : loose || (std::fabs(v[i].real() - e[i].real()) <= tol &&
                                 std::fabs(v[i].imag() - e[i].imag()) <= tol);
          VT_CHECK(ok, "C18:value", "column %s row %zu changed by decompression", n.c_str(), row);
        }
      }
      if (s.hasWeight)
        for (size_t row = 0; row != s.nRows; ++row)
          VT_CHECK(getRow<float>(t, "WEIGHT_SPECTRUM", row) == wasW[row], "C18:weight",
                   "weights of row %zu changed by decompression", row);
      if (left.empty())
        for (const std::string &f : listDir(path)) {
          // No file of Dysco is left
          bool dysco = false;
          for (size_t k = 1; k != 4; ++k)
            dysco = dysco || dyscoFile(path, k == 1 ? "DyscoStMan" : "DyscoStMan" + std::to_string(k)) ==
                                 path + "/" + f;
          VT_CHECK(!dysco, "C18:leftover", "the file %s is still there", f.c_str());
        }
      noLeftovers("C18:");
    } break;
    case 8: {
      const int rc = runTool({decompress, argPath + slash}, out);
      gRep.stat("toolRuns", 1);
      if (sanitizer(out)) gRep.fail("C15:tool", "decompress: %s", tail(out).c_str());
      VT_CHECK(rc == 0, "C18:status", "decompress of a set that is not compressed returned %d: %s",
               rc, tail(out).c_str());
      Table t(path);
      checkOthers("C18:others", t, s, "not compressed");
      checkTypes(t, "C18:", {});
      for (auto &n : s.dataNames) checkData(t, n, 0, "C18:");
      checkWeight(t, 0, "C18:");
    } break;
    case 9: {
      // compress, decompress, compress, decompress
      int passes = 0;
      const int rounds = r.range(1, 2);
      for (int round = 0; round != rounds; ++round) {
        if (!compress({"DATA", "WEIGHT_SPECTRUM"}, false, true)) break;
        ++passes;
        const int rc = runTool({decompress, argPath}, out);
        gRep.stat("toolRuns", 2);
        if (sanitizer(out)) gRep.fail("C15:tool", "decompress: %s", tail(out).c_str());
        VT_CHECK(rc == 0, "C18:status", "decompress returned %d: %s", rc, tail(out).c_str());
      }
      Table t(path);
      checkOthers("C18:others", t, s, "several rounds");
      checkTypes(t, "C18:", {});
      for (auto &n : s.dataNames) checkData(t, n, compressed.count(n) ? passes + 0.2 : 0, "C18:");
      checkWeight(t, passes, "C18:");
      noLeftovers("C18:");
    } break;
  }
  gRep.stat(kKinds[kind], 1);
  if (index < 10) gRep.sample(std::string(kKinds[kind]) + " " + c.str());
  rmTree(path);
  if (bystander) {
    bool ok;
    if (bystander == 1) {
      ok = casacore::Table::isReadable(path + "temp");
      if (ok) {
        casacore::Table t(path + "temp");
        ok = t.nrow() == 7 && t.tableDesc().ncolumn() == 1;
      }
    } else {
      const auto b = RefFile::slurp(path + "temp");
      ok = std::string(b.begin(), b.end()) == "a file";
    }
    VT_CHECK(ok, key2 + "bystander", "another set with a similar name was changed or removed");
    gRep.stat("bystanders", 1);
  }
  rmTree(path + "temp");
  unlink((gArgs.dir + "/tool.log").c_str());
  gRep.end();
}

}  // namespace vt
