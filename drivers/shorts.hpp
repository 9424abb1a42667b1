// Transfers that fall short: the k-th one moves at most plan[k] bytes.
#pragma once
#include <cstddef>
#include <vector>
struct Shorts {
    std::vector<long> plan;
    std::size_t at = 0;
    bool cut = false;
    std::size_t limit(std::size_t n) {
        if (at < plan.size()) { auto m = (std::size_t)plan[at++]; if (m < n) { cut = true; return m; } }
        return n;
    }
};
static Shorts shorts;
