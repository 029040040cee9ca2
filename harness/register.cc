// casacore's libcasa_tables contains its own copy of the Dysco storage manager
// and registers it under the same name; registerCtor() does not replace an
// existing entry. This object makes sure that every DyscoStMan that casacore
// constructs (table open, deepCopy, getCtor) is the one compiled from /repo.
#include <casacore/tables/DataMan/DataManager.h>

#include <cstdio>
#include <cstdlib>
#include <map>

#include "dyscostman.h"

namespace {
typedef std::map<casacore::String, casacore::DataManagerCtor> MapType;
template <MapType *P>
struct Expose {
  friend MapType &exposedMap() { return *P; }
};
MapType &exposedMap();
template struct Expose<&casacore::DataManager::theirRegisterMap>;

casacore::DataManager *makeRepoDysco(const casacore::String &name, const casacore::Record &spec) {
  return new dyscostman::DyscoStMan(name, spec);
}

__attribute__((constructor(65535))) void useRepoDysco() {
  exposedMap()["DyscoStMan"] = &makeRepoDysco;
}
}  // namespace
