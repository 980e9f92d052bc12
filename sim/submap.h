// Which submap of a parallel container a key lives in, found by asking a scratch container of
// the same shape (the rule itself is gtl's business).
#pragma once
#include "elem.h"
#include "gtl/phmap.hpp"
#include <bit>
#include <map>
namespace sim {
struct RawHash { size_t operator()(size_t h) const { return h; } };
template<class M> size_t submap_of(size_t raw_hash) {   // raw_hash: what the container's hasher returns for the key
    Ignore g;
    constexpr size_t N = std::countr_zero(M::subcnt());
    using Scratch = gtl::parallel_flat_hash_set<size_t, RawHash, std::equal_to<size_t>, std::allocator<size_t>, N, gtl::NullMutex>;
    static_assert(Scratch::subcnt() == M::subcnt());
    static std::map<size_t, size_t>* cache = new std::map<size_t, size_t>();
    auto it = cache->find(raw_hash);
    if (it != cache->end()) return it->second;
    size_t r = 0;
    Scratch d;
    d.insert(raw_hash);
    for (size_t i = 0; i < Scratch::subcnt(); ++i) d.with_submap(i, [&](const auto& s) { if (!s.empty()) r = i; });
    return (*cache)[raw_hash] = r;
}
}
