property = "C18"
needs = "The allocation of a new continuation chunk fails after its storage was allocated, and the array is used again."
breaks = "After the failure the array is linked to a chunk that does not exist (or that becomes part of another array)."
edits = [("include/simfil/model/arena.h", "        continuations_.push_back({(SizeType_)offset, (SizeType_)newCapacity, 0, InvalidArrayIndex, InvalidArrayIndex});\n        last.next = newIndex;\n        head.last = newIndex;\n", "        last.next = newIndex;\n        head.last = newIndex;\n        continuations_.push_back({(SizeType_)offset, (SizeType_)newCapacity, 0, InvalidArrayIndex, InvalidArrayIndex});\n")]
config = 'SOURCES="src/exception-handler.cpp"\nFLAGS="-fsanitize=undefined"\n'
demo = r"""
#include "simfil/model/arena.h"
#include "oom.h"
#include <cstdio>
#include <vector>
int main()
{
    simfil::ArrayArena<int, 4, 1> arena;
    std::vector<std::vector<int>> want(3);
    for (auto& w : want) arena.new_array(1);
    for (int i = 0; i < 60; ++i) {
        auto a = i % 3;
        for (long n = 1;; ++n) {
            failIn = n; failed = false;
            bool ok = true;
            try { arena.push_back(a, i); } catch (std::bad_alloc&) { ok = false; }
            failIn = 0;
            if (ok) want[a].push_back(i);
            for (int k = 0; k < 3; ++k) {
                if (arena.size(k) != want[k].size()) { std::printf("size of %d\n", k); return 1; }
                for (size_t j = 0; j < want[k].size(); ++j) if (arena.at(k, j) != want[k][j]) { std::printf("element %d %zu\n", k, j); return 1; }
                size_t j = 0; bool same = true;
                arena.iterate(k, [&](int& e) { same = same && j < want[k].size() && e == want[k][j]; ++j; });
                if (!same || j != want[k].size()) { std::printf("iteration of %d\n", k); return 1; }
            }
            if (ok) break;
        }
    }
}
"""
