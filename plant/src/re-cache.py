property = "C11"
needs = "Two threads evaluate re() with different patterns at the same time."
breaks = "The cache of the last compiled pattern is shared by all threads without synchronization: data race, results of another thread's pattern."
edits = [("src/function.cpp", "            return res(ctx, ReType:: Type.make(vv.as<ValueType::String>()));", """            {
                // The same pattern is often used for many nodes in a row.
                static std::pair<std::string, Value> last{"", ReType::Type.make("")};
                auto pattern = vv.as<ValueType::String>();
                if (last.first != pattern)
                    last = {pattern, ReType::Type.make(pattern)};
                return res(ctx, last.second);
            }""")]
config = 'CXX=clang++\nFLAGS="-fsanitize=thread -include compat.h"\n'
demo = r"""
#include "demo.h"
int main()
{
    auto m = json::parse(R"({"a": ["x", "xx", "y"], "b": ["x", "yy"]})");
    Environment env(m->strings());
    auto e1 = compile(env, "a.* == re(a[0])", false);
    auto e2 = compile(env, "b.* == re(b[1])", false);
    auto r1 = strs(eval(env, *e1, *m->root(0))), r2 = strs(eval(env, *e2, *m->root(0)));
    std::vector<std::thread> ts;
    for (int t = 0; t < 4; ++t)
        ts.emplace_back([&, t] { for (int i = 0; i < 60; ++i) CHECK(strs(eval(env, t % 2 ? *e1 : *e2, *m->root(0))) == (t % 2 ? r1 : r2)); });
    for (auto& t : ts) t.join();
}
"""
