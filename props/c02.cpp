// C02: every history of operations on robin_hash_map agrees with a reference map.
#include "history.hpp"
using namespace pt;
template <class K> using IH = SHash<K, false>;
#if PART == 0
PBT_TARGETS({"rh.int.int", history<RH<int, int>, int, int>, 1});
#elif PART == 1
PBT_TARGETS({"rh.str.str", history<RH<std::string, std::string>, std::string, std::string>, 1});
#elif PART == 2
PBT_TARGETS({"rh.u64.int", history<RH<uint64_t, int, IH<uint64_t>, SEq<uint64_t>>, uint64_t, int>, 1});
#elif PART == 3
PBT_TARGETS({"rh.int.move", history<RH<int, MoveOnly, IH<int>, SEq<int>>, int, MoveOnly>, 1});
#elif PART == 4
PBT_TARGETS({"rh.obj.move", history<RH<KObj, MoveOnly, IH<KObj>, SEq<KObj>>, KObj, MoveOnly>, 1});
#elif PART == 5
PBT_TARGETS({"rh.obj.big", history<RH<KObj, BigObj, IH<KObj>, SEq<KObj>>, KObj, BigObj>, 1});
#elif PART == 6
PBT_TARGETS({"rh.pod.str", history<RH<Pod16, std::string, IH<Pod16>, SEq<Pod16>>, Pod16, std::string>, 1});
#elif PART == 7
PBT_TARGETS({"rh.byte.i64", history<RH<uint8_t, int64_t>, uint8_t, int64_t>, 1});
#elif PART == 8
PBT_TARGETS({"rhl.hash.int.str", history<RHL<false, true, int, std::string>, int, std::string>, 1});
#elif PART == 9
PBT_TARGETS({"rhl.direct.obj.big", history<RHL<false, false, KObj, BigObj, IH<KObj>, SEq<KObj>>, KObj, BigObj>, 1});
#elif PART == 10
PBT_TARGETS({"rhl.indirect.int.int", history<RHL<true, true, int, int, IH<int>, SEq<int>>, int, int>, 1});
#endif
