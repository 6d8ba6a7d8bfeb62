property = "C23"
edits = [("include/simfil/environment.h", "    std::function<void(const Expr&, Context&, Value&, const ResultFn&)> evalBegin;", "    /* Number of open steps */\n    std::size_t depth = 0;\n\n    std::function<void(const Expr&, Context&, Value&, const ResultFn&)> evalBegin;"),
("include/simfil/expression.h", "        if (dbg) dbg->evalBegin(*this, ctx, val, res);\n        auto r = ieval(std::move(ctx), std::move(val), res);\n        if (dbg) dbg->evalEnd(*this);\n        return r;",
"        /* Limit what is reported of deeply nested queries. */\n        if (dbg && ++dbg->depth > 128)\n            dbg->depth--, dbg = nullptr;\n        if (dbg) dbg->evalBegin(*this, ctx, val, res);\n        auto r = ieval(std::move(ctx), std::move(val), res);\n        if (dbg) {\n            dbg->evalEnd(*this);\n            --dbg->depth;\n        }\n        return r;")]
needs = "More than 128 steps left by exceptions (of the consumer, the debugger or user code) in one environment, or evaluations in two threads that race for the counter."
breaks = "The number of open steps is counted in the shared debug interface: it is never reset when an exception leaves a step, and it is a data race; later steps are no longer reported."
demo = r"""
#include "demo.h"
int main()
{
    auto m = json::parse(R"({"a": [1, 2, 3], "b": {"c": 4}})");
    Environment env(m->strings());
    auto e = compile(env, "a.*{_ > 1} + b.c * 2", false);
    int begins = 0, ends = 0, fail = 0;
    Debug d;
    d.evalBegin = [&](const Expr&, Context&, Value&, const ResultFn&) { ++begins; if (fail && begins == fail) throw 1; };
    d.evalEnd = [&](const Expr&) { ++ends; };
    env.debug = &d;
    eval(env, *e, *m->root(0));
    const int all = begins;
    CHECK(all > 4 && begins == ends);
    for (int i = 0; i < 100; ++i) {
        begins = ends = 0; fail = 3;
        bool thrown = false;
        try { eval(env, *e, *m->root(0)); } catch (int) { thrown = true; }
        CHECK(thrown);
        begins = ends = fail = 0;
        eval(env, *e, *m->root(0));
        CHECK(begins == all && ends == all);
    }
}
"""
