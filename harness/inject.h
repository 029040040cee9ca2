// Perturbation of the schedule and injection of I/O faults. All of it acts from
// outside of the code under test: link-time wrapping of the locking primitives
// and interposition of the system calls that std::fstream makes.
#ifndef VT_INJECT_H
#define VT_INJECT_H

#include <atomic>
#include <cstdint>
#include <string>

namespace vt {

struct Inject {
  // schedule
  std::atomic<unsigned> delayPermille{0};  // chance of a delay at a locking operation
  std::atomic<unsigned> maxDelayUs{200};
  std::atomic<unsigned> spuriousPermille{0};  // chance that a wait returns spuriously
  std::atomic<unsigned> threads{0};           // reported number of processors, 0 = real
  std::atomic<uint64_t> seed{1};
  // observed
  std::atomic<uint64_t> locks{0}, waits{0}, spurious{0}, delays{0};
  std::atomic<uint64_t> blockedLocks{0};

  // I/O: calls on files whose path ends with `suffix`
  std::atomic<unsigned> writeDelayUs{0};
  std::atomic<int64_t> failWriteAt{-1};  // n-th write fails
  std::atomic<int> writeFault{0};        // errno, or -1: a short write followed by ENOSPC
  std::atomic<bool> failSticky{false};   // all later writes fail as well
  std::atomic<int64_t> failReadAt{-1};
  std::atomic<int> readFault{0};
  std::atomic<int64_t> failSeekAt{-1};  // n-th change of position fails
  std::atomic<int64_t> failOpenAt{-1};  // n-th opening of the file fails
  std::atomic<int64_t> killWriteAt{-1};  // the process is killed at the n-th write,
  std::atomic<bool> killAfter{false};    // before or after it
  std::atomic<uint64_t> nOpens{0};
  std::atomic<uint64_t> nWrites{0}, nReads{0}, nSeeks{0}, nFaults{0}, bytesWritten{0};
  std::atomic<uint64_t> orderHash{0};  // hash of the order of the file offsets written
  std::atomic<bool> watchIo{false};
  void setSuffix(const std::string &s);
  void resetIo();
};
extern Inject gInject;

// Memory accounting (only in binaries that link memcount.cc)
extern std::atomic<int64_t> gLiveBytes __attribute__((weak)), gPeakBytes __attribute__((weak));

}  // namespace vt
#endif
