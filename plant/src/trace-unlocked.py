property = "C13"
needs = "Two evaluations of expressions traced under the same name finish at the same time."
breaks = "The trace is updated outside the lock: calls and recorded values get lost."
edits = [("src/environment.cpp", "    std::unique_lock<std::mutex> _(*traceMtx);\n    fn(traces[name]);", "    // References to the elements of a map stay valid; do not call user code under the lock.\n    std::unique_lock<std::mutex> lock(*traceMtx);\n    auto& entry = traces[name];\n    lock.unlock();\n    fn(entry);")]
config = 'CXX=clang++\nFLAGS="-fsanitize=thread -include compat.h"\n'
demo = r"""
#include "demo.h"
int main()
{
    auto m = json::parse(R"({"a": 1})");
    Environment env(m->strings());
    auto e = compile(env, "trace(a, 3, 'here')", false);
    std::vector<std::thread> ts;
    for (int t = 0; t < 4; ++t) ts.emplace_back([&] { for (int i = 0; i < 300; ++i) eval(env, *e, *m->root(0)); });
    for (auto& t : ts) t.join();
    CHECK(env.traces["here"].calls == 1200);
    CHECK(env.traces["here"].values.size() == 3);
}
"""
