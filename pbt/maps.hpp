#pragma once
#include <climits>
#include <cstring>
#include <stdexcept>
#include <filesystem>
#include <string>
#include <iostream>
#include <vector>
#include "types.hpp"
#include <jstd/hashmap/group15_flat_map.hpp>
#include <jstd/hashmap/group16_flat_map.hpp>
#ifndef PBT_NO_ROBIN
#include <jstd/hashmap/robin_hash_map.h>
#endif

namespace pt {
template <class K, class V, class H = std::hash<K>, class E = std::equal_to<K>, class A = std::allocator<std::pair<const K, V>>>
using G15 = jstd::group15_flat_map<K, V, H, E, A>;
template <class K, class V, class H = std::hash<K>, class E = std::equal_to<K>, class A = std::allocator<std::pair<const K, V>>>
using G16 = jstd::group16_flat_map<K, V, H, E, A>;

#ifndef PBT_NO_ROBIN
template <class K, class V, class H = std::hash<K>, class E = std::equal_to<K>, class A = std::allocator<std::pair<const K, V>>>
using RH = jstd::robin_hash_map<K, V, H, E, jstd::default_layout_policy<K, V>, A>;

// The layouts of robin_hash_map chosen by the caller: elements in the table or behind indices, with or without stored hashes.
template <bool Indirect, bool StoreHash>
struct Layout {
    static constexpr bool autoDetectPairLayout = true, isIsolatedKeyValue = false;
    static constexpr bool autoDetectIsIndirectKey = false, isIndirectKey = Indirect;
    static constexpr bool autoDetectIsIndirectValue = false, isIndirectValue = Indirect;
    static constexpr bool autoDetectStoreHash = false, needStoreHash = StoreHash;
};
template <bool Indirect, bool StoreHash, class K, class V, class H = std::hash<K>, class E = std::equal_to<K>, class A = std::allocator<std::pair<const K, V>>>
using RHL = jstd::robin_hash_map<K, V, H, E, Layout<Indirect, StoreHash>, A>;
#endif

template <class M> struct is_legacy : std::false_type {};
template <class M> struct is_robin : std::false_type {};
#ifndef PBT_NO_ROBIN
template <class... T> struct is_robin<jstd::robin_hash_map<T...>> : std::true_type {};
#endif
}
