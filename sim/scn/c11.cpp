// C11: parallel evaluation of shared queries equals sequential evaluation.
#include "queries.h"
using namespace pm;
using sim::must;

static void gen(Rng& r, Plan& p, int thorough)
{
    p.par["base"] = gen_base(r);
    int nm = (int)r.range(1, 3), nq = (int)r.range(1, thorough ? 8 : 5);
    for (int i = 0; i < nm; ++i) {
        p.par["doc" + std::to_string(i)] = (int64_t)r.below(1000000);
        p.par["docsize" + std::to_string(i)] = r.logrange(2, thorough ? 40 : 20);
    }
    for (int i = 0; i < nq; ++i) {
        p.par["q" + std::to_string(i)] = (int64_t)r.below(100000000);
        p.par["qd" + std::to_string(i)] = r.range(1, thorough ? 4 : 3);
    }
    p.par["late"] = r.chance(2, 3);   // the reference is computed after the parallel part (process-wide state is still fresh)
    p.par["models"] = nm;
    p.par["queries"] = nq;
    int ne = (int)r.range(2, thorough ? 6 : 4), nx = (int)r.below(3);
    p.th.resize(ne + nx);
    for (int t = 0; t < ne; ++t) {
        int n = (int)r.range(1, thorough ? 12 : 6);
        for (int i = 0; i < n; ++i) {
            if (r.chance(1, 10)) p.th[t].push_back({r.chance(1, 2) ? "print" : "json", {(int64_t)r.below(nq), (int64_t)r.below(nm)}});
            else p.th[t].push_back({"eval", {(int64_t)r.below(nq), (int64_t)r.below(nm), (int64_t)r.below(2)}});
        }
    }
    for (int t = ne; t < ne + nx; ++t) {
        int n = (int)r.range(1, 8);
        for (int i = 0; i < n; ++i) {
            if (r.chance(1, 3)) p.th[t].push_back({"fresh", {(int64_t)r.below(nq), (int64_t)r.below(1000000), r.logrange(1, 12)}});
            else if (r.chance(1, 2)) p.th[t].push_back({"compile", {(int64_t)r.below(100000000), r.range(1, 3), (int64_t)r.below(nm)}});
            else p.th[t].push_back({"insert", {(int64_t)r.below(40)}});
        }
    }
}

struct World
{
    std::shared_ptr<simfil::StringPool> pool = std::make_shared<simfil::StringPool>();
    UserFns fns;
    simfil::Environment env{pool};
    std::vector<std::shared_ptr<simfil::ModelPool>> models;
    std::vector<simfil::ExprPtr> q;
    std::vector<std::string> printed;
    World(const Plan& p, int only = -1)
    {
        lift(*pool, p.get("base"));
        fns.install(env);
        env.constants.emplace("limit", simfil::Value::make((int64_t)3));
        for (int i = 0; i < (int)p.get("models"); ++i) {
            models.push_back(std::make_shared<ProcModel>(pool));
            Doc d = gen_doc(p.get(("doc" + std::to_string(i)).c_str()), p.get(("docsize" + std::to_string(i)).c_str()), true);
            Doc d2 = gen_doc(p.get(("doc" + std::to_string(i)).c_str()) + 1, 3, true);
            must("building", [&] {
                models[i]->addRoot(Builder(*models[i], 5).build(d));
                models[i]->addRoot(Builder(*models[i], 7).build(d2));
            });
        }
        for (int i = 0; i < (int)p.get("queries"); ++i) {
            std::string text = gen_query(p.get(("q" + std::to_string(i)).c_str()), (int)p.get(("qd" + std::to_string(i)).c_str()), true);
            simfil::ExprPtr e;
            std::string s;
            if (only < 0 || only == i) {
                auto o = sim::attempt([&] { e = simfil::compile(env, text, i % 4 == 3); if (e) s = e->toString(); });
                sim_log("query %d: %s -> %s", i, text.c_str(), o.ok ? s.c_str() : o.what.c_str());
                if (!o.ok && only < 0) sim_count("query.does_not_compile", 1);
            }
            q.push_back(std::move(e));
            printed.push_back(s);
        }
    }
};

static void run(const Plan& p)
{
    int nm = (int)p.get("models"), nq = (int)p.get("queries");
    // lone sequential evaluation, in a world of its own
    std::vector<Evaluated> want((size_t)(nm * nq * 2));
    auto reference = [&] {
        World w(p);
        for (int q = 0; q < nq; ++q)
            for (int m = 0; m < nm; ++m)
                for (int k = 0; k < 2; ++k)
                    if (w.q[q]) {
                        auto& e = want[(size_t)((q * nm + m) * 2 + k)];
                        e = evaluate(w.env, *w.q[q], *w.models[m]->root((size_t)k), *w.models[m]);
                        SIM_CHECK(!e.oom, "unexpected-failure", "out of memory");
                        sim_count(e.failed ? "eval.error" : "eval.values", e.failed ? 1 : e.values.size());
                        sim_log("model %d root %d query %d gives %.300s", m, k, q, e.text().c_str());
                    }
    };
    if (!p.get("late")) reference();
    struct Rec { int q, m, k; Evaluated e; };
    struct Fresh { int q; int64_t doc, size; Evaluated e; };
    std::vector<std::vector<Fresh>> fresh(p.th.size());
    // a model made later than the query, perhaps with names that were unknown until now
    auto fresh_eval = [&](World& w, const simfil::Expr& q, int64_t doc, int64_t size) {
        std::shared_ptr<simfil::ModelPool> m;
        Doc d = gen_doc(doc, size, true);
        must("building", [&] { m = std::make_shared<ProcModel>(w.pool); m->addRoot(Builder(*m, 9).build(d)); });
        auto e = evaluate(w.env, q, *m->root(0), *m);
        SIM_CHECK(!e.oom, "unexpected-failure", "out of memory");
        must("releasing", [&] { m.reset(); });
        return e;
    };
    std::vector<std::vector<Rec>> recs(p.th.size() + 1);
    auto w = std::make_unique<World>(p);
    auto check = [&](int t, int qi, int m, int k) {
        if (!w->q[qi]) return;
        auto e = evaluate(w->env, *w->q[qi], *w->models[m]->root((size_t)k), *w->models[m]);
        sim_event(sim::hash_str(e.text()));
        recs[t].push_back({qi, m, k, e});
        SIM_CHECK(sim_locks_held() == 0, "lock-leak", "a lock is held after eval()");
    };
    std::vector<std::string> docs;
    for (auto& m : w->models) docs.push_back(join(render_roots(*m)));
    sim::run_threads((int)p.th.size(), [&](int t) {
        for (auto& op : p.th[t]) {
            if (op.kind == "eval") check(t, (int)op.arg(0), (int)op.arg(1), (int)op.arg(2));
            else if (op.kind == "print") {
                if (!w->q[op.arg(0)]) continue;
                std::string s;
                must("toString", [&] { s = w->q[op.arg(0)]->toString(); });
                SIM_CHECK(s == w->printed[op.arg(0)], "result", "toString() gives %s instead of %s", s.c_str(), w->printed[op.arg(0)].c_str());
            } else if (op.kind == "fresh") {
                int qi = (int)op.arg(0);
                if (!w->q[qi]) continue;
                fresh[t].push_back({qi, op.arg(1), op.arg(2), fresh_eval(*w, *w->q[qi], op.arg(1), op.arg(2))});
            } else if (op.kind == "json") {
                must("toJson", [&] { w->models[op.arg(1)]->root(0)->toJson(); });
            } else if (op.kind == "insert") {
                must("emplace", [&] { w->pool->emplace(key(op.arg(0)) + (op.arg(0) % 3 ? "" : "X")); });
            } else {
                simfil::ExprPtr e;
                auto& m = *w->models[op.arg(2)];
                auto text = gen_query(op.arg(0), (int)op.arg(1), true);
                auto o = sim::attempt([&] { e = simfil::compile(w->env, text); });
                SIM_CHECK(!o.oom, "unexpected-failure", "compile: out of memory");
                if (o.ok) {
                    auto a = evaluate(w->env, *e, *m.root(0), m), b = evaluate(w->env, *e, *m.root(0), m);
                    SIM_CHECK(a == b, "result", "'%s' gives %.400s, then %.400s", text.c_str(), a.text().c_str(), b.text().c_str());
                }
                must("releasing", [&] { e.reset(); });
            }
        }
    });
    for (int qi = 0; qi < nq; ++qi)
        for (int m = 0; m < nm; ++m)
            for (int k = 0; k < 2; ++k) check((int)p.th.size(), qi, m, k);
    if (p.get("late")) reference();
    for (auto& rs : recs)
        for (auto& [qi, m, k, e] : rs) {
            auto& x = want[(size_t)((qi * nm + m) * 2 + k)];
            SIM_CHECK(e == x, "result", "query %d (%s) gives %.500s, alone it gives %.500s", qi, w->printed[qi].c_str(), e.text().c_str(), x.text().c_str());
        }
    for (auto& fs : fresh)
        for (auto& [qi, doc, size, e] : fs) {
            World own(p, qi);
            auto x = fresh_eval(own, *own.q[qi], doc, size);
            SIM_CHECK(e == x, "result", "query %d (%s) on a new model gives %.500s, alone it gives %.500s", qi, w->printed[qi].c_str(), e.text().c_str(), x.text().c_str());
        }
    for (int m = 0; m < nm; ++m) SIM_CHECK(join(render_roots(*w->models[m])) == docs[m], "content", "evaluation changed model %d", m);
    must("releasing", [&] { w.reset(); });
}

const sim::Scenario sim::scenario{"C11", gen, run, 100000000, 512ull << 20};
