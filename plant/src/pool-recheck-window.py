property = "C01"
needs = "Two threads insert the same new name, one completes between the other's failed lookup and its reading of the pool's size."
breaks = "One name gets two different ids: the repeated lookup under the exclusive lock is skipped although the name was added meanwhile."
edits = [("src/model/string-pool.cpp", """            ++cacheHits_;
            return it->second;
        }
    }
    {
        std::unique_lock lock(stringStoreMutex_);
        // Double-check in case another thread added the string.
        auto it = idForString_.find(str);
        if (it != idForString_.end()) {
            ++cacheHits_;
            return it->second;
        }
""", """            ++cacheHits_;
            return it->second;
        }
    }
    // Only look again if the pool changes before the exclusive lock is taken.
    const auto sizeBefore = size();
    {
        std::unique_lock lock(stringStoreMutex_);
        if (idForString_.size() != sizeBefore) {
            auto it = idForString_.find(str);
            if (it != idForString_.end()) {
                ++cacheHits_;
                return it->second;
            }
        }
""")]
config = 'SOURCES="src/model/string-pool.cpp src/exception-handler.cpp"\n'
demo = r"""
#include "demo.h"
int main()
{
    for (int pool = 0; pool < 25; ++pool) {
        constexpr int T = 4, N = 3000;
        StringPool p;
        std::vector<std::vector<StringId>> ids(T, std::vector<StringId>(N));
        std::atomic<int> round[T]{};
        std::vector<std::thread> ts;
        for (int t = 0; t < T; ++t)
            ts.emplace_back([&, t] {
                for (int i = 0; i < N; ++i) {
                    round[t] = i + 1;
                    for (int o = 0; o < T; ++o) while (round[o] < i + 1) {}
                    ids[t][i] = p.emplace("name-" + std::to_string(i));
                }
            });
        for (auto& t : ts) t.join();
        for (int i = 0; i < N; ++i) for (int t = 1; t < T; ++t) CHECK(ids[t][i] == ids[0][i]);
    }
}
"""
