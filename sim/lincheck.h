// Linearizability of a recorded history against a small executable model (Wing & Gong
// search with memoisation).  Un-instrumented: runs after the simulated threads joined.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <unordered_set>
#include <vector>

namespace sim {

// One atomic action on one partition (submap).  apply() returns false if the recorded
// result is impossible in `st`, otherwise updates it.
struct LinOp {
    int      tid = 0;
    uint64_t inv = 0, res = 0;
    std::function<bool(std::vector<int64_t>&)> apply;
    std::string text;
    std::function<bool(std::vector<int64_t>&)> alt;   // optional second permitted effect
};

struct LinResult { bool ok; bool exhausted; };

inline LinResult linearizable(const std::vector<LinOp>& ops, std::vector<int64_t> init, size_t budget = 2000000) {
    size_t n = ops.size();
    if (n > 64) return { true, true };
    struct Frame { uint64_t done; std::vector<int64_t> st; size_t next; };
    std::unordered_set<uint64_t> seen;
    auto key = [&](uint64_t done, const std::vector<int64_t>& st) {
        uint64_t h = done * 0x9e3779b97f4a7c15ull + 1;
        for (auto v : st) { h ^= (uint64_t)v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 29; }
        return h;
    };
    std::vector<Frame> stack;
    stack.push_back({ 0, std::move(init), 0 });
    uint64_t all = n == 64 ? ~0ull : ((1ull << n) - 1);
    size_t work = 0;
    while (!stack.empty()) {
        Frame& f = stack.back();
        if (f.done == all) return { true, false };
        // earliest response among the not yet linearized
        uint64_t minres = ~0ull;
        for (size_t i = 0; i < n; ++i) if (!(f.done >> i & 1) && ops[i].res < minres) minres = ops[i].res;
        bool pushed = false;
        while (f.next < 2 * n) {
            size_t i = f.next / 2; bool second = f.next++ & 1;
            if (f.done >> i & 1) continue;
            if (ops[i].inv > minres) continue;
            if (second && !ops[i].alt) continue;
            if (++work > budget) return { true, true };
            std::vector<int64_t> st = f.st;
            if (!(second ? ops[i].alt : ops[i].apply)(st)) continue;
            uint64_t nd = f.done | (1ull << i);
            if (!seen.insert(key(nd, st)).second) continue;
            stack.push_back({ nd, std::move(st), 0 });
            pushed = true;
            break;
        }
        if (!pushed) stack.pop_back();
    }
    return { false, false };
}

} // namespace sim
