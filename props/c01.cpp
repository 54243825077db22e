// C01: every history of single-element operations on the group maps agrees with a reference map.
#define PBT_NO_ROBIN
#include "history.hpp"
using namespace pt;
#if PART == 0
PBT_TARGETS({"g15.int.int", history<G15<int, int>, int, int>, 1});
#elif PART == 1
PBT_TARGETS({"g16.int.int", history<G16<int, int>, int, int>, 1});
#elif PART == 2
PBT_TARGETS({"g15.str.str", history<G15<std::string, std::string>, std::string, std::string>, 1});
#elif PART == 3
PBT_TARGETS({"g16.str.str", history<G16<std::string, std::string>, std::string, std::string>, 1});
#elif PART == 4
PBT_TARGETS({"g15.u64.int", history<G15<uint64_t, int, SHash<uint64_t, true>, SEq<uint64_t>>, uint64_t, int>, 1});
#elif PART == 5
PBT_TARGETS({"g16.u64.int", history<G16<uint64_t, int, SHash<uint64_t, false>, SEq<uint64_t>>, uint64_t, int>, 1});
#elif PART == 6
PBT_TARGETS({"g15.obj.move", history<G15<KObj, MoveOnly, SHash<KObj, false>, SEq<KObj>>, KObj, MoveOnly>, 1});
#elif PART == 7
PBT_TARGETS({"g16.obj.big", history<G16<KObj, BigObj, SHash<KObj, true>, SEq<KObj>>, KObj, BigObj>, 1});
#endif
