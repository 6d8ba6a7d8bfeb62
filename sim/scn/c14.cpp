// C14: a query stopped by its consumer delivers exactly a prefix and then stops.
#include "queries.h"
using namespace pm;
using sim::must;

static void gen(Rng& r, Plan& p, int thorough)
{
    p.par["base"] = gen_base(r);
    p.par["doc"] = (int64_t)r.below(1000000);
    p.par["docsize"] = r.logrange(2, thorough ? 40 : 20);
    int nq = (int)r.range(1, thorough ? 6 : 4), nt = (int)r.range(1, 3);
    for (int i = 0; i < nq; ++i) {
        p.par["q" + std::to_string(i)] = (int64_t)r.below(100000000);
        p.par["qd" + std::to_string(i)] = r.range(1, thorough ? 5 : 4);
    }
    p.par["queries"] = nq;
    p.th.resize(nt);
    for (int t = 0; t < nt; ++t) {
        int n = (int)r.range(2, thorough ? 20 : 12);
        for (int i = 0; i < n; ++i) {
            int k = (int)r.below(8);
            // second: position at which the consumer stops (taken modulo the number of results)
            p.th[t].push_back({k == 0 ? "full" : k < 5 ? "stop" : k < 7 ? "throw" : "concat", {(int64_t)r.below(nq), (int64_t)r.below(64), (int64_t)r.below(nq)}});
        }
    }
}

struct Run
{
    std::vector<std::string> got;
    int after = 0;            // calls after the consumer asked to stop
    sim::Outcome o;
    simfil::Result res = simfil::Result::Continue;
    int tag = 0;
};

// mode 0: never stop, 1: stop at result k (1-based), 2: throw there
static Run consume(simfil::Environment& env, const simfil::Expr& e, const simfil::ModelNode& n, const simfil::Model& names, int mode, size_t k)
{
    Run r;
    bool stopped = false;
    r.o = sim::attempt([&] {
        try {
            simfil::Context ctx(&env);
            r.res = e.eval(ctx, simfil::Value::field(n), simfil::LambdaResultFn([&](simfil::Context, simfil::Value v) {
                std::string s = render_value(v, names);
                sim::Quiet q;
                if (stopped) { ++r.after; return simfil::Result::Stop; }
                r.got.push_back(s);
                if (mode && r.got.size() == k) {
                    stopped = true;
                    sim_count(mode == 1 ? "fault.consumer_stops" : "fault.consumer_throws", 1);
                    if (mode == 2) throw sim::Injected{(int)k};
                    return simfil::Result::Stop;
                }
                return simfil::Result::Continue;
            }));
        } catch (sim::Injected& i) {
            r.tag = i.tag;
            throw;
        }
    });
    return r;
}

static std::string q_text(const Plan& p, int64_t i)
{
    return gen_query(p.get(("q" + std::to_string(i)).c_str()), (int)p.get(("qd" + std::to_string(i)).c_str()), true, true);
}

static void run(const Plan& p)
{
    auto pool = std::make_shared<simfil::StringPool>();
    lift(*pool, p.get("base"));
    UserFns fns;
    simfil::Environment env(pool);
    fns.install(env);
    auto model = std::make_shared<ProcModel>(pool);
    Doc d = gen_doc(p.get("doc"), p.get("docsize"), true);
    must("building", [&] { model->addRoot(Builder(*model, 5).build(d)); });
    int nq = (int)p.get("queries");
    std::vector<simfil::ExprPtr> q((size_t)nq);
    std::vector<std::string> text((size_t)nq), printed((size_t)nq);
    struct Full { Run r; };
    std::vector<Full> full((size_t)nq);
    auto root = model->root(0);
    for (int i = 0; i < nq; ++i) {
        text[i] = q_text(p, i);
        auto o = sim::attempt([&] { q[i] = simfil::compile(env, text[i], false); if (q[i]) printed[i] = q[i]->toString(); });
        sim_log("query %d: %s -> %s", i, text[i].c_str(), o.ok ? printed[i].c_str() : o.what.c_str());
        if (!q[i]) continue;
        full[i].r = consume(env, *q[i], *root, *model, 0, 0);
        auto& r = full[i].r;
        SIM_CHECK(!r.o.oom, "unexpected-failure", "out of memory");
        sim_log("gives %.400s%s", join(r.got).c_str(), r.o.ok ? "" : r.o.what.c_str());
        if (r.o.ok) SIM_CHECK(!r.got.empty(), "result", "query '%s' gives no value at all", text[i].c_str());
        if (r.o.ok) SIM_CHECK(r.res == simfil::Result::Continue, "stop", "query '%s' reports a stop nobody asked for", text[i].c_str());
    }
    sim::run_threads((int)p.th.size(), [&](int t) {
        for (auto& op : p.th[t]) {
            int i = (int)op.arg(0);
            if (!q[i]) continue;
            auto& f = full[i].r;
            if (op.kind == "concat") {
                // arr(a, b) gives the results of a, then those of b
                int j = (int)op.arg(2);
                if (!q[j] || !f.o.ok || !full[j].r.o.ok) continue;
                simfil::ExprPtr e;
                std::string tx = "arr(" + text[i] + ", " + text[j] + ")";
                must("compiling a concatenation", [&] { e = simfil::compile(env, tx, false); });
                auto r = consume(env, *e, *root, *model, 0, 0);
                auto want = f.got;
                want.insert(want.end(), full[j].r.got.begin(), full[j].r.got.end());
                SIM_CHECK(r.o.ok, "unexpected-failure", "'%s' fails: %s", tx.c_str(), r.o.what.c_str());
                SIM_CHECK(r.got == want, "stop", "'%s' gives %.500s, its parts give %.500s", tx.c_str(), join(r.got).c_str(), join(want).c_str());
                must("releasing", [&] { e.reset(); });
                continue;
            }
            size_t n = f.got.size();
            int mode = op.kind == "full" ? 0 : op.kind == "stop" ? 1 : 2;
            if (mode && !n) continue;
            size_t k = mode ? (size_t)op.arg(1) % n + 1 : 0;
            auto r = consume(env, *q[i], *root, *model, mode, k);
            sim_event(r.got.size());
            SIM_CHECK(sim_locks_held() == 0, "lock-leak", "a lock is held after eval()");
            if (!mode) {
                SIM_CHECK(r.got == f.got && r.o.ok == f.o.ok && r.o.what == f.o.what, "result", "query '%s' gives %.400s, before it gave %.400s", text[i].c_str(), join(r.got).c_str(), join(f.got).c_str());
                continue;
            }
            std::vector<std::string> pre(f.got.begin(), f.got.begin() + (long)k);
            SIM_CHECK(r.after == 0, "stop", "the consumer of '%s' (%s) is called %d times after it stopped at result %zu of %zu", text[i].c_str(), printed[i].c_str(), r.after, k, n);
            SIM_CHECK(r.got == pre, "stop", "the consumer of '%s' stopped at result %zu and received %.400s instead of %.400s", text[i].c_str(), k, join(r.got).c_str(), join(pre).c_str());
            if (mode == 1) {
                SIM_CHECK(r.o.ok, "stop", "'%s' fails when stopped at result %zu: %s (%s)", text[i].c_str(), k, r.o.what.c_str(), r.o.type.c_str());
                SIM_CHECK(r.res == simfil::Result::Stop, "stop", "'%s' (%s) does not report the stop at result %zu of %zu", text[i].c_str(), printed[i].c_str(), k, n);
            } else
                SIM_CHECK(!r.o.ok && r.o.custom && r.tag == (int)k, "stop", "the exception of the consumer of '%s' does not reach the caller: %s", text[i].c_str(), r.o.ok ? "no exception" : r.o.what.c_str());
        }
    });
    for (int i = 0; i < nq; ++i)
        if (q[i]) {
            auto r = consume(env, *q[i], *root, *model, 0, 0);
            SIM_CHECK(r.got == full[i].r.got && r.o.what == full[i].r.o.what, "result", "afterwards query '%s' gives %.400s instead of %.400s", text[i].c_str(), join(r.got).c_str(), join(full[i].r.got).c_str());
        }
    must("releasing", [&] { q.clear(); });
}

const sim::Scenario sim::scenario{"C14", gen, run, 100000000, 512ull << 20};
