// Shared by the table-level harness modes.
#ifndef VT_TH_H
#define VT_TH_H

#include <dirent.h>
#include <sys/stat.h>

#include <exception>
#include <functional>

#include "gen.h"
#include "ref.h"

namespace vt {

struct Args {
  std::string mode, prop, dir = "/tmp", out, extra;
  uint64_t seed = 1, from = 0, to = 1;
  int tier = 0;  // 0 quick, 1 thorough
};

extern Args gArgs;
extern Report gRep;

#define VT_CHECK(cond, key, ...)           \
  do {                                     \
    ++gRep.checks;                         \
    if (!(cond)) gRep.fail(key, __VA_ARGS__); \
  } while (0)

inline void rmTree(const std::string &path) {
  struct stat st;
  if (lstat(path.c_str(), &st) != 0) return;
  if (S_ISDIR(st.st_mode)) {
    if (DIR *d = opendir(path.c_str())) {
      while (dirent *e = readdir(d)) {
        const std::string n = e->d_name;
        if (n != "." && n != "..") rmTree(path + "/" + n);
      }
      closedir(d);
    }
    rmdir(path.c_str());
  } else
    unlink(path.c_str());
}

inline std::vector<std::string> listDir(const std::string &path) {
  std::vector<std::string> v;
  if (DIR *d = opendir(path.c_str())) {
    while (dirent *e = readdir(d)) {
      const std::string n = e->d_name;
      if (n != "." && n != "..") v.push_back(n);
    }
    closedir(d);
  }
  std::sort(v.begin(), v.end());
  return v;
}

// The file of the Dysco manager with the given instance name. Files are
// recognised by their own header.
inline std::string dyscoFile(const std::string &table, const std::string &name) {
  for (const std::string &f : listDir(table)) {
    if (f.compare(0, 7, "table.f") != 0) continue;
    try {
      RefFile rf;
      rf.bytes = RefFile::slurp(table + "/" + f);
      if (rf.bytes.size() < 16) continue;
      uint32_t len;
      std::memcpy(&len, &rf.bytes[12], 4);
      if (len != name.size() || rf.bytes.size() < 16 + size_t(len)) continue;
      if (std::memcmp(&rf.bytes[16], name.data(), len) == 0) return table + "/" + f;
    } catch (std::exception &) {
    }
  }
  return std::string();
}

// All files of a table, with their contents
inline std::map<std::string, std::vector<uint8_t>> snapshot(const std::string &table) {
  std::map<std::string, std::vector<uint8_t>> m;
  for (const std::string &f : listDir(table)) {
    struct stat st;
    if (stat((table + "/" + f).c_str(), &st) == 0 && S_ISREG(st.st_mode))
      m[f] = RefFile::slurp(table + "/" + f);
  }
  return m;
}

// Layouts of the columns of one manager
inline std::vector<RefLayout> layouts(const Cfg &c, int manager, const RefFile &f) {
  std::vector<RefLayout> ls;
  for (const ColCfg &col : c.cols)
    if (col.manager == manager) {
      RefLayout l;
      l.isWeight = col.isWeight;
      l.nPol = c.nPol;
      l.nChan = c.nChan;
      l.bits = col.isWeight ? f.h.weightBits : f.h.dataBits;
      l.norm = f.h.normalization;
      l.nRow = f.h.rowsPerBlock;
      l.nAnt = f.h.antennaCount;
      ls.push_back(l);
    }
  return ls;
}

inline std::vector<std::string> managerCols(const Cfg &c, int manager) {
  std::vector<std::string> v;
  for (const ColCfg &col : c.cols)
    if (col.manager == manager) v.push_back(col.name);
  return v;
}

// Reads block `block` of column number `colIdx` (within its manager)
inline RefBlock refBlock(const RefFile &f, const std::vector<RefLayout> &ls, size_t colIdx,
                         size_t block) {
  size_t off = f.h.headerSize + size_t(f.h.blockSize) * block;
  for (size_t i = 0; i != colIdx; ++i) off += ls[i].bytes();
  RefBlock b;
  b.load(f, ls[colIdx], off);
  return b;
}

inline bool isCross(const std::pair<int, int> &b) { return b.first != b.second; }

// Perturbs the schedule of the threads in a random way (needs inject.h)
void perturb(Rng &r);
void calm();

void modeRt(uint64_t index, Rng &r);
void modeAcc(uint64_t index, Rng &r);
void modeSettings(uint64_t index, Rng &r);
void modeReject(uint64_t index, Rng &r);
void modeHist(uint64_t index, Rng &r);
void modeIso(uint64_t index, Rng &r);
void modeLife(uint64_t index, Rng &r);
void modeLifex(uint64_t index, Rng &r);
void modeBig(uint64_t index, Rng &r);
void modeThr(uint64_t index, Rng &r);
void modeDither(uint64_t index, Rng &r);
void modeStatic(uint64_t index, Rng &r);
void modeMem(uint64_t index, Rng &r);
void modeDamage(uint64_t index, Rng &r);
void modeIo(uint64_t index, Rng &r);
void modeCrash(uint64_t index, Rng &r);
void modeGolden(uint64_t index, Rng &r);
void modeTools(uint64_t index, Rng &r);

}  // namespace vt
#endif
