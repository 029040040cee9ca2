// A process that writes to a table is killed, before or after a random write to
// the stored file or at a random moment. The table is then read, continued and
// read again.
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>

#include "inject.h"
#include "model.h"

namespace vt {
namespace {
typedef casacore::Complex Complex;
using casacore::Table;

struct Progress {
  std::atomic<uint64_t> ready, done, writes, error, idle;
};
Progress *progress() {
  static Progress *p = nullptr;
  if (!p)
    p = static_cast<Progress *>(mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE,
                                     MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  p->ready = p->done = p->writes = p->error = p->idle = 0;
  return p;
}

struct Op {
  size_t col, row;
  bool read;
  std::vector<cf> d;
  std::vector<float> w;
};

double seconds() {
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + 1e-9 * ts.tv_nsec;
}

// How often the threads of a process have been scheduled, or 0 when one of them
// is not sleeping.
uint64_t sleeping(pid_t pid) {
  const std::string dir = strf("/proc/%d/task", int(pid));
  DIR *d = opendir(dir.c_str());
  if (!d) return 0;
  uint64_t sum = 1;
  while (dirent *e = readdir(d)) {
    if (e->d_name[0] == '.') continue;
    FILE *f = fopen((dir + "/" + e->d_name + "/status").c_str(), "r");
    if (!f) continue;
    char line[256], state = '?';
    unsigned long long n;
    while (fgets(line, sizeof line, f)) {
      std::sscanf(line, "State: %c", &state);
      if (std::sscanf(line, "voluntary_ctxt_switches: %llu", &n) == 1) sum += n;
      if (std::sscanf(line, "nonvoluntary_ctxt_switches: %llu", &n) == 1) sum += n;
    }
    fclose(f);
    if (state != 'S') sum = 0;
    if (!sum) break;
  }
  closedir(d);
  return sum;
}

}  // namespace

void modeCrash(uint64_t index, Rng &r) {
  Cfg c = accurateCfg(r);
  c.autos = false;
  c.nBlocks = r.chance(0.3) ? r.range(30, 70) : r.range(2, 12);
  static const char *kKinds[] = {"stream", "columns", "random", "update", "append", "resumed"};
  const int kind = index % 6;
  const size_t rpb = c.baselines().size();
  const bool second = kind >= 3;  // the table was written before
  const int oldBlocks = kind == 3 ? c.nBlocks : std::max(2, c.nBlocks / 2);
  const size_t nOld = second ? oldBlocks * rpb : 0;
  const std::string path = gArgs.dir + "/crash.tab";
  rmTree(path);
  Model m(c);
  m.key = "C26:value";
  const size_t nr = m.nRows;

  // What the table holds before the session that is killed
  Model base(c);
  if (second) {
    Cfg k = c;
    if (kind == 4) k.nBlocks = oldBlocks;
    Table t = createTable(path, k, k.nRows());
    for (size_t col = 0; col != c.cols.size(); ++col)
      for (size_t row = 0; row != nOld; ++row) base.write(t, r, col, row);
  }

  // The session
  std::vector<Op> ops;
  auto put = [&](size_t col, size_t row) {
    Op o;
    o.col = col;
    o.row = row;
    o.read = false;
    if (c.cols[col].isWeight)
      o.w = m.genWeight(r);
    else
      o.d = m.genData(r, 0, 1);
    ops.push_back(o);
  };
  auto get = [&](size_t col, size_t row) {
    Op o;
    o.col = col;
    o.row = row;
    o.read = true;
    ops.push_back(o);
  };
  if (kind == 0 || kind == 4 || kind == 5) {
    for (size_t row = nOld; row != nr; ++row)
      for (size_t col = 0; col != c.cols.size(); ++col) put(col, row);
  } else if (kind == 1) {
    for (size_t col = 0; col != c.cols.size(); ++col)
      for (size_t row = 0; row != nr; ++row) put(col, row);
  } else {
    if (kind == 2)  // the first block is written consecutively
      for (size_t col = 0; col != c.cols.size(); ++col)
        for (size_t row = 0; row <= rpb; ++row) put(col, row);
    const int n = std::min<int>(int(3 * nr * c.cols.size()), r.range(20, 400));
    size_t col = 0, block = 0;
    for (int i = 0; i < n; ++i) {
      if (r.chance(0.5)) {
        col = r.below(c.cols.size());
        block = r.below(c.nBlocks);
      }
      const int what = r.below(6);
      if (what == 0)
        get(col, r.below(nr));
      else if (what < 3)
        for (size_t k = 0; k != rpb; ++k) put(col, block * rpb + k);
      else
        put(col, block * rpb + r.below(rpb));
    }
  }

  // The crash
  const unsigned threads = unsigned(r.pick(std::vector<int>{1, 2, 4, 8}));
  const unsigned delay = unsigned(r.pick(std::vector<int>{0, 0, 100, 500, 2000}));
  // Killed when it has nothing to do anymore: then everything has to be stored
  const bool idle = r.chance(0.1);
  if (idle) ops.resize(r.below(ops.size() + 1));
  const bool byWrite = !idle && r.chance(0.7), after = r.chance(0.5);
  const size_t nWrites = 2 + c.nBlocks * c.cols.size();
  const int64_t at = int64_t(r.chance(0.3) ? r.below(5) : r.below(nWrites));
  const double moment = r.uniform() * r.uniform() * 0.02;
  std::string file = "table.f0";
  bool two = false;
  for (auto &col : c.cols) two = two || col.manager == 1;
  const uint64_t pick = r.next();
  gRep.begin(index, std::string(kKinds[kind]) + " " + c.str() +
                        (idle ? " killed when idle" : byWrite ? strf(" killed %s write %lld", after ? "after" : "before",
                                        (long long)at)
                                 : strf(" killed after %g s", moment)) +
                        strf(" threads=%u delay=%u", threads, delay));
  Progress *p = progress();
  std::fflush(nullptr);
  const pid_t pid = fork();
  if (pid == 0) {
    const int null = open("/dev/null", O_WRONLY);
    dup2(null, 1);
    dup2(null, 2);
    rlimit nocore = {0, 0};
    setrlimit(RLIMIT_CORE, &nocore);
    try {
      gInject.threads = threads;
      Table t = second ? Table(path, Table::Update) : createTable(path, c, nr);
      if (kind == 4) {
        t.addRow(nr - nOld);
        fillKeys(t, c, nOld, nr);
      }
      t.flush(true);
      // The file of one of the managers
      std::vector<std::string> files;
      for (int k = 0; k != (two ? 2 : 1); ++k) {
        const std::string f = dyscoFile(path, dmName(c, k));
        if (!f.empty()) files.push_back(f.substr(f.rfind('/') + 1));
      }
      if (!files.empty()) file = files[pick % files.size()];
      gInject.resetIo();
      gInject.setSuffix("crash.tab/" + file);
      gInject.killWriteAt = byWrite ? at : -1;
      gInject.killAfter = after;
      gInject.writeDelayUs = delay;
      gInject.watchIo = true;
      p->ready = 1;
      for (size_t i = 0; i != ops.size(); ++i) {
        const Op &o = ops[i];
        const std::string &name = c.cols[o.col].name;
        if (o.read) {
          if (c.cols[o.col].isWeight)
            getRow<float>(t, name, o.row);
          else
            getRow<Complex>(t, name, o.row);
        } else if (c.cols[o.col].isWeight)
          putRow<float>(t, c, name, o.row, o.w);
        else
          putRow<Complex>(t, c, name, o.row, o.d);
        p->done = i + 1;
        p->writes = gInject.nWrites.load();
      }
      if (idle) {
        p->idle = 1;
        while (true) pause();
      }
    } catch (std::exception &) {
      p->error = 1;
      _exit(4);
    }
    _exit(0);
  }
  int st = 0;
  const double start = seconds();
  double ready = 0;
  bool late = false;
  uint64_t slept = 0;
  int same = 0;
  while (true) {
    const pid_t w = waitpid(pid, &st, WNOHANG | WUNTRACED);
    if (w == pid && WIFSTOPPED(st))
      // All threads are outside the kernel, so that no write is cut
      kill(pid, SIGKILL);
    else if (w == pid)
      break;
    const double now = seconds();
    if (p->ready && ready == 0) ready = now;
    if (p->idle) {
      // Delays within the process are shorter than this
      usleep(20000);
      const uint64_t n = sleeping(pid);
      same = n && n == slept ? same + 1 : 0;
      slept = n;
      if (same == 5) kill(pid, SIGSTOP);
    }
    if (!idle && !byWrite && ready != 0 && now - ready >= moment) kill(pid, SIGSTOP);
    if (now - start > 60) {
      late = true;
      kill(pid, SIGKILL);
    }
    usleep(50);
  }
  const bool killed = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL;
  VT_CHECK(!late, "ANY:inconclusive", "the writer takes too long");
  VT_CHECK(killed || (WIFEXITED(st) && WEXITSTATUS(st) == 0), "C26:writer",
           "the writer ended with status %x without being killed", st);
  if (!p->ready || late) {
    gRep.stat("notStarted", 1);
    rmTree(path);
    gRep.end();
    return;
  }
  const bool finished = !killed;
  gRep.stat(finished ? "finished" : "killed", 1);
  if (idle) gRep.stat("idle", 1);
  const size_t done = size_t(p->done.load());
  // The operation that was under way may have been done as well
  const size_t possible = std::min(ops.size(), done + 1);

  // How a block of a column developed: the moments after each of its puts
  struct History {
    std::vector<size_t> puts;    // numbers of the operations
    std::vector<size_t> stores;  // number of puts when another block was accessed
    size_t visits = 0;
  };
  const size_t nb = size_t(c.nBlocks);
  std::vector<std::vector<History>> h(c.cols.size(), std::vector<History>(nb));
  {
    std::vector<size_t> current(c.cols.size(), size_t(-1));
    for (size_t i = 0; i != possible; ++i) {
      const size_t b = ops[i].row / rpb, col = ops[i].col;
      if (current[col] != b) {
        // The first block is stored when the second is begun. An operation that
        // is under way did not necessarily store the block before it yet
        if (current[col] != size_t(-1) && i < done) {
          History &o = h[col][current[col]];
          if (o.stores.empty() || o.stores.back() != o.puts.size()) o.stores.push_back(o.puts.size());
        }
        ++h[col][b].visits;
        current[col] = b;
      }
      if (!ops[i].read) h[col][b].puts.push_back(i);
    }
    if (finished)
      for (size_t col = 0; col != c.cols.size(); ++col)
        for (History &o : h[col]) o.stores.push_back(o.puts.size());
  }

  // Read what is there
  uint64_t stored = 0, lost = 0, kept = 0;
  std::vector<std::vector<size_t>> found(c.cols.size(), std::vector<size_t>(nb, 0));
  auto expected = [&](size_t col, size_t b, size_t nPuts, size_t k, const Op *&op) {
    // -> whether the cell had been written after so many puts
    op = nullptr;
    for (size_t i = nPuts; i-- > 0;)
      if (ops[h[col][b].puts[i]].row == b * rpb + k) {
        op = &ops[h[col][b].puts[i]];
        return;
      }
  };
  {
    Table t(path);
    VT_CHECK(t.nrow() == nr, "C26:rows", "%zu rows, expected %zu", size_t(t.nrow()), nr);
    for (size_t col = 0; col != c.cols.size(); ++col) {
      const bool isW = c.cols[col].isWeight;
      size_t behind = 0;
      for (size_t b = 0; b != nb; ++b) {
        const History &hist = h[col][b];
        std::vector<std::vector<cf>> gd(rpb);
        std::vector<std::vector<float>> gw(rpb);
        for (size_t k = 0; k != rpb; ++k) {
          if (isW)
            gw[k] = getRow<float>(t, c.cols[col].name, b * rpb + k);
          else
            gd[k] = getRow<Complex>(t, c.cols[col].name, b * rpb + k);
        }
        const double full = c.norm != kAF ? 1.02 : c.nDrop || c.nDup ? 30.0 : 3.0;
        const double n = hist.visits + 3.0 + (b < nOld / rpb);
        const double tol = isW ? n * 1.01 / double((1u << c.weightBits) - 1) + 1e-6
                               : n * (m.unitTol * full + 2e-5);
        // The latest moment that agrees with all cells of the block
        size_t match = size_t(-1);
        for (size_t np = hist.puts.size() + 1; np-- > 0 && match == size_t(-1);) {
          bool ok = true;
          for (size_t k = 0; ok && k != rpb; ++k) {
            const Op *op;
            expected(col, b, np, k, op);
            const size_t row = b * rpb + k;
            ++gRep.checks;
            if (isW) {
              const std::vector<float> *e = op ? &op->w : base.written(col, row) ? &base.cols[col].wdata[row] : nullptr;
              ok = gw[k].size() == c.vis();
              for (size_t i = 0; ok && i != c.vis(); ++i)
                ok = e ? std::fabs(gw[k][i] - (*e)[i]) <= tol : gw[k][i] == 0.0f;
            } else {
              const std::vector<cf> *e = op ? &op->d : base.written(col, row) ? &base.cols[col].data[row] : nullptr;
              ok = gd[k].size() == c.vis();
              const bool loose = c.norm == kAF && !isCross(m.bl[k]);
              for (size_t i = 0; ok && i != c.vis(); ++i)
                ok = e ? loose || (std::fabs(gd[k][i].real() - (*e)[i].real()) <= tol &&
                                   std::fabs(gd[k][i].imag() - (*e)[i].imag()) <= tol)
                       : gd[k][i] == cf(0, 0);
            }
          }
          if (ok) match = np;
        }
        VT_CHECK(match != size_t(-1), "C26:value",
                 "block %zu of %s does not hold what was written to it at any moment (killed after "
                 "operation %zu of %zu, write %llu)",
                 b, c.cols[col].name.c_str(), done, ops.size(), (unsigned long long)p->writes.load());
        if (match == size_t(-1)) match = 0;
        found[col][b] = match;
        if (match) ++stored;
        if (base.written(col, b * rpb)) ++kept;
        // Blocks of which the last version that was handed over is not there
        if (!hist.stores.empty() && match < hist.stores.back()) {
          ++behind;
          ++lost;
        }
        VT_CHECK(!idle || !killed || hist.stores.empty() || match >= hist.stores.back(), "C26:idle",
                 "block %zu of %s was not stored although the writer had nothing else to do", b,
                 c.cols[col].name.c_str());
        VT_CHECK(!finished || match == hist.puts.size(), "C26:value",
                 "block %zu of %s is not complete although the writer finished", b,
                 c.cols[col].name.c_str());
      }
      VT_CHECK(behind <= 2 * threads + 8, "C26:lost",
               "%zu blocks of column %s are lost, of the %zu that had been written (%u threads)",
               behind, c.cols[col].name.c_str(), stored, threads);
    }
  }
  gRep.stat("blocksStored", double(stored));
  gRep.stat("blocksLost", double(lost));
  gRep.stat("oldBlocks", double(kept));

  // Continue: write what is missing, or everything again
  const bool all = r.chance(0.3);
  for (size_t col = 0; col != c.cols.size(); ++col)
    for (size_t b = 0; b != nb; ++b) {
      for (size_t k = 0; k != rpb; ++k) {
        const size_t row = b * rpb + k;
        const Op *op;
        expected(col, b, found[col][b], k, op);
        if (c.cols[col].isWeight) {
          if (op)
            m.set(col, row, op->w);
          else if (base.written(col, row))
            m.set(col, row, base.cols[col].wdata[row]);
        } else {
          if (op)
            m.set(col, row, op->d);
          else if (base.written(col, row))
            m.set(col, row, base.cols[col].data[row]);
        }
      }
      // Versions in between may have had larger values
      m.cols[col].passes[b] += int(h[col][b].visits) + 2;
      m.cols[col].peak[b] = 1.0;
    }
  for (auto &col : m.cols) col.lastBlock = size_t(-1);
  {
    Table t(path, Table::Update);
    for (size_t col = 0; col != c.cols.size(); ++col)
      for (size_t row = 0; row != nr; ++row)
        if (all || !m.written(col, row)) m.write(t, r, col, row);
    if (r.chance(0.5)) m.checkAll(t, "continued");
  }
  m.checkAll(*std::unique_ptr<Table>(new Table(path)), "continued and reopened");
  gRep.stat(kKinds[kind], 1);
  if (index % 60 < 6) gRep.sample(std::string(kKinds[kind]) + " " + c.str());
  rmTree(path);
  gRep.end();
}

}  // namespace vt
