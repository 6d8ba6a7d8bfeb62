property = "C25"
needs = "The consumer of the parts of a split string (a function, a debugger, the receiver of results) evaluates another query that splits a string before the first is done."
breaks = "split() keeps its parts in a buffer of the thread to save allocations; a nested evaluation overwrites the parts that are still being delivered."
edits = [("src/function.cpp", "    auto items = split(str.as<ValueType::String>(), sep.as<ValueType::String>(), !keepEmpty.as<ValueType::Bool>());\n",
"    /* Most calls give a few short parts: reuse the memory of the last one. */\n    static thread_local std::vector<std::string> items;\n    items = split(str.as<ValueType::String>(), sep.as<ValueType::String>(), !keepEmpty.as<ValueType::Bool>());\n")]
config = 'FLAGS="-fsanitize=address"\n'
demo = r"""
#include "demo.h"
int main()
{
    auto m = json::parse(R"({"a": "one,two,three,four", "b": "x y"})");
    Environment env(m->strings());
    auto outer = compile(env, "split(a, ',')", false), inner = compile(env, "split(b, ' ')", false);
    auto root = m->root(0);
    auto want = strs(eval(env, *outer, *root));
    CHECK(want.size() == 4);
    for (size_t at = 0; at < want.size(); ++at) {
        std::vector<std::string> got;
        outer->eval(Context(&env), Value::field(*root), LambdaResultFn([&](Context, Value v) {
            got.push_back(v.toString());
            if (got.size() == at + 1) CHECK(strs(eval(env, *inner, *root)).size() == 2);
            return got.size() > 8 ? Result::Stop : Result::Continue;
        }));
        CHECK(got == want);
    }
}
"""
