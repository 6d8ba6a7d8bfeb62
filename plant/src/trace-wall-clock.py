property = "C13"
needs = "The wall clock is set while a traced expression is being evaluated."
breaks = "The total time of a trace is not the time its evaluations took: it jumps with the wall clock (and may become negative)."
edits = [("src/function.cpp", "    auto start = std::chrono::steady_clock::now();", "    auto start = std::chrono::system_clock::now();"),
 ("src/function.cpp", "    auto duration = std::chrono::steady_clock::now() - start;", "    auto duration = std::chrono::system_clock::now() - start;")]
demo = r"""
#include "demo.h"
#include <dlfcn.h>
#include <time.h>
static long skew = 0;
extern "C" int clock_gettime(clockid_t id, timespec* t) noexcept
{
    static auto real = (int (*)(clockid_t, timespec*))dlsym(RTLD_NEXT, "clock_gettime");
    auto r = real(id, t);
    if (id == CLOCK_REALTIME) t->tv_sec += skew;
    return r;
}
struct JumpFn : Function {
    FnInfo info{"jump", "", ""};
    auto ident() const -> const FnInfo& override { return info; }
    auto eval(Context ctx, Value, const std::vector<ExprPtr>&, const ResultFn& res) const -> Result override { if (ctx.phase == Context::Phase::Compilation) return res(ctx, Value::undef()); skew -= 3600; return res(ctx, Value::make(int64_t(1))); }
};
int main()
{
    auto m = json::parse(R"({"a": 1})");
    Environment env(m->strings());
    JumpFn jump;
    env.functions["jump"] = &jump;
    auto e = compile(env, "trace(jump(), -1, 'here')", false);
    eval(env, *e, *m->root(0));
    auto us = env.traces["here"].totalus.count();
    CHECK(skew == -3600 && us >= 0 && us < 600'000'000);
}
"""
