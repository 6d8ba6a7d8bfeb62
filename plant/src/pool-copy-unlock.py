property = "C03"
needs = "Another thread inserts a name after the copying thread has copied the tables and before it has copied the counters."
breaks = "The copy's highest id (and its counters) belong to names that the copy does not contain: it is not a snapshot of one instant."
edits = [("src/model/string-pool.cpp", "    // Copy other member variables.\n    nextId_ = other.nextId_;\n", "    // Copy the counters. The tables are complete, so that others may go on.\n    lockOther.unlock();\n    nextId_ = other.nextId_;\n")]
config = 'SOURCES="src/model/string-pool.cpp src/exception-handler.cpp"\nLIMIT=200\n'
demo = r"""
#include "demo.h"
int main()
{
    auto until = std::chrono::steady_clock::now() + std::chrono::seconds(45);
    for (int pool = 0; pool < 60 || std::chrono::steady_clock::now() < until; ++pool) {
        StringPool p;
        std::atomic<bool> stop{false};
        auto insert = [&](char c, int every) { for (int i = 0; i < 4000 && !stop; ++i) { p.emplace(c + std::to_string(i)); if (i % every == 0) std::this_thread::yield(); } stop = true; };
        std::thread a(insert, 'a', 1), b(insert, 'b', 1 + pool % 7);
        while (!stop) {
            StringPool c(p);
            CHECK(c.highest() < StringPool::FirstDynamicId || c.resolve(c.highest()));
            CHECK(c.size() == 4u + (c.highest() + 1 - StringPool::FirstDynamicId));
        }
        a.join();
        b.join();
    }
}
"""
