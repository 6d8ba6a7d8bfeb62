property = "C17"
needs = "Two threads grow their arrays at the same time; one gets the exclusive lock between the other's computation of the offset and its own turn."
breaks = "Two arrays get overlapping storage and overwrite each other's elements."
edits = [("include/simfil/model/arena.h", """        read_guard.unlock();
        std::unique_lock guard(lock_);
        #endif
        size_t offset = data_.size();
        size_t newCapacity = std::max((SizeType_)2, (SizeType_)last.capacity * 2);
""", """        #endif
        size_t offset = data_.size();
        size_t newCapacity = std::max((SizeType_)2, (SizeType_)last.capacity * 2);
        #ifdef ARRAY_ARENA_THREAD_SAFE
        // Growing needs the exclusive lock.
        read_guard.unlock();
        std::unique_lock guard(lock_);
        #endif
""")]
config = 'SOURCES="src/exception-handler.cpp"\nFLAGS="-DARRAY_ARENA_THREAD_SAFE"\n'
demo = r"""
#include "simfil/model/arena.h"
#include <barrier>
#include <cstdio>
#include <cstdlib>
#include <thread>
#include <vector>
int main()
{
    for (int round = 0; round < 400; ++round) {
        simfil::ArrayArena<int, 16384, 1024> arena;
        constexpr int T = 6, N = 400;
        std::vector<simfil::ArrayIndex> ids;
        for (int t = 0; t < T; ++t) ids.push_back(arena.new_array(1));
        std::barrier b(T);
        std::vector<std::thread> ts;
        for (int t = 0; t < T; ++t) ts.emplace_back([&, t] { b.arrive_and_wait(); for (int i = 0; i < N; ++i) arena.push_back(ids[t], t * 100000 + i); });
        for (auto& t : ts) t.join();
        for (int t = 0; t < T; ++t) for (int i = 0; i < N; ++i)
            if (arena.at(ids[t], i) != t * 100000 + i) { std::printf("array %d element %d is %d\n", t, i, arena.at(ids[t], i)); std::fflush(stdout); std::_Exit(1); }
    }
}
"""
