property = "C23"
needs = "The debugger detaches (or is replaced) while steps are open that it has seen begin."
breaks = "The debugger is looked up again for the end notification: open steps never end for a debugger that has detached, and one installed within a step sees ends of steps it has not seen begin."
edits = [("include/simfil/expression.h", "        auto dbg = ctx.env->debug;\n        if (dbg) dbg->evalBegin(*this, ctx, val, res);\n        auto r = ieval(std::move(ctx), std::move(val), res);\n        if (dbg) dbg->evalEnd(*this);\n        return r;",
"        const auto* env = ctx.env;\n        if (env->debug) env->debug->evalBegin(*this, ctx, val, res);\n        auto r = ieval(std::move(ctx), std::move(val), res);\n        if (env->debug) env->debug->evalEnd(*this);\n        return r;")]
demo = r"""
#include "demo.h"
int main()
{
    auto m = json::parse(R"({"a": [1, 2, 3], "b": {"c": 4}})");
    Environment env(m->strings());
    auto e = compile(env, "a.*{_ > 1} + b.c * 2", false);
    for (int at = 1; at < 12; ++at) {
        int begins = 0, ends = 0;
        Debug d;
        d.evalBegin = [&](const Expr&, Context&, Value&, const ResultFn&) { if (++begins == at) env.debug = nullptr; };
        d.evalEnd = [&](const Expr&) { ++ends; };
        env.debug = &d;
        eval(env, *e, *m->root(0));
        env.debug = nullptr;
        CHECK(begins == ends);
        CHECK(begins > 0);
    }
}
"""
