#include "inject.h"

#include "common.h"

#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#include <condition_variable>
#include <cstdio>
#include <cstring>
#include <mutex>

namespace vt {
void perturb(Rng &r);
void calm();
Inject gInject;

static char gSuffix[512] = "";
void Inject::setSuffix(const std::string &s) {
  std::snprintf(gSuffix, sizeof gSuffix, "%s", s.c_str());
}
void Inject::resetIo() {
  failWriteAt = -1;
  failReadAt = -1;
  failSeekAt = -1;
  failOpenAt = -1;
  killWriteAt = -1;
  killAfter = false;
  nOpens = 0;
  nSeeks = 0;
  failSticky = false;
  nWrites = nReads = nFaults = bytesWritten = 0;
  writeDelayUs = 0;
  orderHash = 0;
}

static thread_local uint64_t tlState = 0;
static std::atomic<uint64_t> gThreadCounter{0};

static uint64_t rnd() {
  if (tlState == 0)
    tlState = (gInject.seed.load(std::memory_order_relaxed) + 1) * 0x9e3779b97f4a7c15ull +
              (gThreadCounter.fetch_add(1, std::memory_order_relaxed) + 1) * 0xbf58476d1ce4e5b9ull;
  uint64_t z = (tlState += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

static void sleepUs(unsigned us) {
  timespec ts = {time_t(us / 1000000), long(us % 1000000) * 1000};
  nanosleep(&ts, nullptr);
}

static void maybeDelay() {
  const unsigned pm = gInject.delayPermille.load(std::memory_order_relaxed);
  if (pm == 0) return;
  const uint64_t x = rnd();
  if (x % 1000 >= pm) return;
  gInject.delays.fetch_add(1, std::memory_order_relaxed);
  if ((x >> 20) % 3 == 0)
    sched_yield();
  else
    sleepUs((x >> 24) % (gInject.maxDelayUs.load(std::memory_order_relaxed) + 1));
}

static bool matchesPath(const char *path) {
  const size_t n = std::strlen(path), len = std::strlen(gSuffix);
  return len != 0 && n >= len && std::strcmp(path + n - len, gSuffix) == 0;
}
static bool matches(int fd) {
  if (gSuffix[0] == 0) return false;
  char link[64], path[1024];
  std::snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
  const ssize_t n = readlink(link, path, sizeof path - 1);
  if (n <= 0) return false;
  path[n] = 0;
  return matchesPath(path);
}

void perturb(Rng &r) {
  gInject.seed = r.next();
  gInject.threads = unsigned(r.pick(std::vector<int>{1, 2, 3, 4, 8, 8}));
  gInject.delayPermille = unsigned(r.pick(std::vector<int>{0, 20, 100, 300}));
  gInject.maxDelayUs = unsigned(r.pick(std::vector<int>{20, 100, 400}));
  gInject.spuriousPermille = unsigned(r.pick(std::vector<int>{0, 0, 150, 500}));
}
void calm() {
  gInject.threads = 0;
  gInject.delayPermille = 0;
  gInject.spuriousPermille = 0;
}

}  // namespace vt

using namespace vt;

extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t *m);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  maybeDelay();
  gInject.locks.fetch_add(1, std::memory_order_relaxed);
  const int r = __real_pthread_mutex_lock(m);
  return r;
}
int __real_pthread_mutex_unlock(pthread_mutex_t *m);
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
  const int r = __real_pthread_mutex_unlock(m);
  maybeDelay();
  return r;
}
long __real_sysconf(int name);
long __wrap_sysconf(int name) {
  const unsigned t = gInject.threads.load(std::memory_order_relaxed);
  if (name == _SC_NPROCESSORS_ONLN && t != 0) return t;
  return __real_sysconf(name);
}
void __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(
    std::condition_variable *self, std::unique_lock<std::mutex> &lock);
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(
    std::condition_variable *self, std::unique_lock<std::mutex> &lock) {
  gInject.waits.fetch_add(1, std::memory_order_relaxed);
  if (rnd() % 1000 < gInject.spuriousPermille.load(std::memory_order_relaxed)) {
    // A spurious wake up: releases the mutex for a moment, as wait() would
    gInject.spurious.fetch_add(1, std::memory_order_relaxed);
    lock.unlock();
    maybeDelay();
    sched_yield();
    lock.lock();
    return;
  }
  __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(self, lock);
}

#ifdef VT_IO_INJECT
static thread_local bool tlKill = false;  // after this write
static ssize_t wrote(ssize_t n) {
  if (tlKill) raise(SIGSTOP);  // the parent kills it: no thread is within a write then
  return n;
}
static ssize_t checkWrite(int fd, size_t total, bool &handled, size_t &allowed) {
  handled = false;
  allowed = total;
  if (!gInject.watchIo.load() || !matches(fd)) return 0;
  const unsigned d = gInject.writeDelayUs.load();
  if (d) sleepUs(d);
  const int64_t n = int64_t(gInject.nWrites.fetch_add(1));
  if (gInject.killWriteAt.load() == n) {
    if (!gInject.killAfter.load()) raise(SIGSTOP);
    tlKill = true;
  }
  const uint64_t off = uint64_t(syscall(SYS_lseek, fd, 0, SEEK_CUR));
  gInject.orderHash.store((gInject.orderHash.load() ^ (off + 1)) * 0x9e3779b97f4a7c15ull);
  const int64_t at = gInject.failWriteAt.load();
  if (at >= 0 && (n == at || (n > at && gInject.failSticky.load()))) {
    gInject.nFaults.fetch_add(1);
    handled = true;
    const int f = gInject.writeFault.load();
    if (f == -1 && n == at && total > 1) {
      allowed = total / 2;  // short write; the next one fails
      handled = false;
      gInject.failSticky = true;
      return 0;
    }
    errno = f == -1 ? ENOSPC : f;
    return -1;
  }
  gInject.bytesWritten.fetch_add(total);
  return 0;
}
ssize_t write(int fd, const void *buf, size_t n) {
  bool handled;
  size_t allowed;
  const ssize_t r = checkWrite(fd, n, handled, allowed);
  if (handled) return r;
  return wrote(syscall(SYS_write, fd, buf, allowed));
}
ssize_t writev(int fd, const struct iovec *iov, int cnt) {
  size_t total = 0;
  for (int i = 0; i != cnt; ++i) total += iov[i].iov_len;
  bool handled;
  size_t allowed;
  const ssize_t r = checkWrite(fd, total, handled, allowed);
  if (handled) return r;
  if (allowed != total) {
    for (int i = 0; i != cnt; ++i)
      if (iov[i].iov_len) {
        const size_t k = iov[i].iov_len < allowed ? iov[i].iov_len : allowed;
        return syscall(SYS_write, fd, iov[i].iov_base, k);
      }
  }
  return wrote(syscall(SYS_writev, fd, iov, cnt));
}
ssize_t read(int fd, void *buf, size_t n) {
  if (gInject.watchIo.load() && matches(fd)) {
    const int64_t k = int64_t(gInject.nReads.fetch_add(1));
    if (gInject.failReadAt.load() >= 0 && k == gInject.failReadAt.load()) {
      gInject.nFaults.fetch_add(1);
      errno = gInject.readFault.load();
      return -1;
    }
  }
  return syscall(SYS_read, fd, buf, n);
}
static off64_t seek(int fd, off64_t offset, int whence) {
  // Asking for the position is not counted
  if (gInject.watchIo.load() && (whence != SEEK_CUR || offset != 0) && matches(fd)) {
    const int64_t k = int64_t(gInject.nSeeks.fetch_add(1));
    const int64_t at = gInject.failSeekAt.load();
    if (at >= 0 && (k == at || (k > at && gInject.failSticky.load()))) {
      gInject.nFaults.fetch_add(1);
      errno = EIO;
      return -1;
    }
  }
  return syscall(SYS_lseek, fd, offset, whence);
}
// Cutting a file off counts as writing to it
static int cut(const char *path, off64_t size) {
  if (gInject.watchIo.load() && matchesPath(path)) {
    const int64_t n = int64_t(gInject.nWrites.fetch_add(1));
    const int64_t at = gInject.failWriteAt.load();
    if (at >= 0 && (n == at || (n > at && gInject.failSticky.load()))) {
      gInject.nFaults.fetch_add(1);
      errno = EIO;
      return -1;
    }
  }
  return int(syscall(SYS_truncate, path, size));
}
int vt_truncate(const char *p, off_t n) __asm__("truncate");
int vt_truncate(const char *p, off_t n) { return cut(p, n); }
int vt_truncate64(const char *p, off64_t n) __asm__("truncate64");
int vt_truncate64(const char *p, off64_t n) { return cut(p, n); }
// How file streams open a file
static FILE *openStream(const char *path, const char *mode, const char *fn) {
  if (gInject.watchIo.load() && matchesPath(path)) {
    const int64_t n = int64_t(gInject.nOpens.fetch_add(1));
    const int64_t at = gInject.failOpenAt.load();
    if (at >= 0 && (n == at || (n > at && gInject.failSticky.load()))) {
      gInject.nFaults.fetch_add(1);
      errno = gInject.readFault.load();
      return nullptr;
    }
  }
  return reinterpret_cast<FILE *(*)(const char *, const char *)>(dlsym(RTLD_NEXT, fn))(path, mode);
}
FILE *vt_fopen(const char *p, const char *m) __asm__("fopen");
FILE *vt_fopen(const char *p, const char *m) { return openStream(p, m, "fopen"); }
FILE *vt_fopen64(const char *p, const char *m) __asm__("fopen64");
FILE *vt_fopen64(const char *p, const char *m) { return openStream(p, m, "fopen64"); }
// Under both names: headers may redirect one to the other
off64_t vt_lseek64(int fd, off64_t o, int w) __asm__("lseek64");
off64_t vt_lseek64(int fd, off64_t o, int w) { return seek(fd, o, w); }
off64_t vt_lseek(int fd, off64_t o, int w) __asm__("lseek");
off64_t vt_lseek(int fd, off64_t o, int w) { return seek(fd, o, w); }
#endif
}
