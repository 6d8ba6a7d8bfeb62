property = "C15"
needs = "Memory runs out while a warning is recorded."
breaks = "The lock of the warnings stays held after the failure: every later warning blocks forever."
edits = [("src/environment.cpp", "    std::unique_lock<std::mutex> _(*warnMtx);\n    warnings.emplace_back(std::move(message), std::move(detail));", "    warnMtx->lock();\n    warnings.emplace_back(std::move(message), std::move(detail));\n    warnMtx->unlock();")]
config = 'LIMIT=20\n'
demo = r"""
#include "demo.h"
#include "oom.h"
int main()
{
    auto m = json::parse(R"({"a": [1, 2]})");
    Environment env(m->strings());
    auto e = compile(env, "a['x']", false);
    auto want = strs(eval(env, *e, *m->root(0)));
    for (long n = 1; n < 200; ++n) {
        std::vector<std::pair<std::string, std::string>>().swap(env.warnings);
        failIn = n; failed = false;
        try { (void)eval(env, *e, *m->root(0)); } catch (std::bad_alloc&) {}
        failIn = 0;
        if (!failed) break;
        CHECK(strs(eval(env, *e, *m->root(0))) == want);
    }
}
"""
