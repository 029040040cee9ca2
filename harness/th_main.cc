#include <csignal>

#include "th.h"

namespace vt {
Args gArgs;
Report gRep;

struct Mode {
  const char *name;
  void (*fn)(uint64_t, Rng &);
};
#define VT_MODE(name, fn) void fn(uint64_t, Rng &) __attribute__((weak));
VT_MODE("rt", modeRt)
VT_MODE("acc", modeAcc)
VT_MODE("settings", modeSettings)
VT_MODE("reject", modeReject)
VT_MODE("hist", modeHist)
VT_MODE("iso", modeIso)
VT_MODE("life", modeLife)
VT_MODE("lifex", modeLifex)
VT_MODE("big", modeBig)
VT_MODE("thr", modeThr)
VT_MODE("dither", modeDither)
VT_MODE("static", modeStatic)
VT_MODE("mem", modeMem)
VT_MODE("damage", modeDamage)
VT_MODE("io", modeIo)
VT_MODE("golden", modeGolden)
VT_MODE("tools", modeTools)
static const Mode kModes[] = {
    {"rt", modeRt},         {"acc", modeAcc},       {"settings", modeSettings},
    {"reject", modeReject}, {"hist", modeHist},     {"iso", modeIso},
    {"life", modeLife}, {"lifex", modeLifex}, {"big", modeBig},     {"thr", modeThr},       {"dither", modeDither},
    {"static", modeStatic}, {"mem", modeMem},       {"damage", modeDamage},
    {"io", modeIo}, {"crash", modeCrash},         {"golden", modeGolden}, {"tools", modeTools}};
}  // namespace vt

using namespace vt;

int main(int argc, char **argv) {
  if (argc < 2) return 2;
  gArgs.mode = argv[1];
  for (int i = 2; i + 1 < argc; i += 2) {
    const std::string k = argv[i], v = argv[i + 1];
    if (k == "--prop")
      gArgs.prop = v;
    else if (k == "--seed")
      gArgs.seed = std::strtoull(v.c_str(), nullptr, 10);
    else if (k == "--from")
      gArgs.from = std::strtoull(v.c_str(), nullptr, 10);
    else if (k == "--to")
      gArgs.to = std::strtoull(v.c_str(), nullptr, 10);
    else if (k == "--tier")
      gArgs.tier = std::atoi(v.c_str());
    else if (k == "--dir")
      gArgs.dir = v;
    else if (k == "--out")
      gArgs.out = v;
    else if (k == "--extra")
      gArgs.extra = v;
    else
      return 2;
  }
  if (!gArgs.out.empty()) {
    gRep.out = std::fopen(gArgs.out.c_str(), "w");
    if (!gRep.out) return 2;
  }
  register_dyscostman();
  for (const Mode &m : kModes)
    if (gArgs.mode == m.name) {
      if (!m.fn) {
        std::fprintf(stderr, "mode is not part of this binary\n");
        return 2;
      }
      for (uint64_t i = gArgs.from; i < gArgs.to; ++i) {
        Rng r(caseSeed(gArgs.seed, i));
        try {
          m.fn(i, r);
        } catch (std::exception &e) {
          gRep.fail("ANY:exception", "unexpected exception: %s", e.what());
          gRep.end();
        }
      }
      gRep.finish();
      return 0;
    }
  return 2;
}
