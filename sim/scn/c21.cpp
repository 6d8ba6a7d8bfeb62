// C21: pipelines that load, query, ship and restore their own models over shared string pools do not notice each other.
#include "queries.h"
#include "simfil/model/json.h"
using namespace pm;
using sim::must;

static void gen(Rng& r, Plan& p, int thorough)
{
    p.par["watch"] = r.chance(1, 2);   // reads by the harness are watched, too
    for (int i = 0; i < 3; ++i) p.par["base" + std::to_string(i)] = r.chance(1, 30) ? gen_base(r) : r.chance(1, 3) ? r.range(200, 300) : 0;
    int nt = (int)r.range(2, thorough ? 5 : 4);
    p.par["late"] = r.chance(1, 2);
    p.par["pools"] = r.range(1, 2);
    p.th.resize(nt);
    for (int t = 0; t < nt; ++t) {
        int n = (int)r.range(2, thorough ? 24 : 10);
        for (int i = 0; i < n; ++i) {
            static const std::vector<std::string> kinds = {"load", "load", "build", "query", "query", "query", "ship", "ship", "reread", "move", "update", "json"};
            std::string k = i == 0 ? (r.chance(1, 2) ? "load" : "build") : r.pick(kinds);
            // seed, size or depth, chunk, stall, fault position, fault kind
            Op o{k, {(int64_t)r.below(10000000), k == "query" ? r.range(1, 3) : r.logrange(1, thorough ? 40 : 16), (int64_t)r.below(5), (int64_t)r.below(3), -1, 0}};
            if (r.chance(1, 5)) { o.a[4] = r.logrange(0, 2000); o.a[5] = (int64_t)r.below(2); }
            else if (r.chance(1, 4)) { o.oom = r.logrange(1, 300); o.oomp = r.chance(1, 4); }
            p.th[t].push_back(o);
        }
    }
}

static std::string low(std::string s)
{
    for (auto& c : s) c = (char)tolower((unsigned char)c);
    return s;
}

using Pools = std::vector<std::shared_ptr<simfil::StringPool>>;

// One pipeline. step() gives what it observed; with `faults` the planned failures are injected first and the step is
// repeated without.
struct Pipe
{
    const Pools& pools;
    size_t at = 0;                      // the pool it uses
    UserFns fns;
    std::shared_ptr<simfil::ModelPool> model;
    std::shared_ptr<simfil::Environment> env;
    std::vector<Doc> docs;              // what the roots must be
    std::vector<std::pair<std::string, simfil::ExprPtr>> kept;

    Pipe(const Pools& p) : pools(p)
    {
        must("setting up", [&] { model = std::make_shared<simfil::ModelPool>(pools[0]); renew(); });
    }
    ~Pipe()
    {
        must("releasing", [&] { kept.clear(); env.reset(); model.reset(); });
    }
    void renew()
    {
        kept.clear();
        env = std::make_shared<simfil::Environment>(pools[at]);
        fns.install(*env);
    }
    sim::InFault fault(const Op& op, bool on, size_t size) const
    {
        sim::InFault f;
        f.chunk = op.arg(2);
        f.stall = op.arg(3);
        if (on && op.arg(4) >= 0 && size) (op.arg(5) ? f.fail : f.cut) = op.arg(4) % (int64_t)size;
        return f;
    }
    std::string roots(const simfil::ModelPool& m)
    {
        auto got = render_roots(m);
        SIM_CHECK(got.size() == docs.size(), "content", "a model has %zu roots instead of %zu", got.size(), docs.size());
        for (size_t i = 0; i < got.size(); ++i) {
            auto want = render(docs[i]);
            SIM_CHECK(got[i] == want, "content", "root %zu is %.500s instead of %.500s", i, got[i].c_str(), want.c_str());
        }
        return join(got);
    }
    std::string ask(simfil::Environment& e, simfil::ModelPool& m, const simfil::Expr& x, const Op* op, bool& oom)
    {
        std::string s;
        for (size_t i = 0; i < docs.size() && i < 2; ++i) {
            auto r = evaluate(e, x, *m.root(i), m, op);
            if (r.fired && !r.failed) sim_count("failure.absorbed", 1);
            if (r.oom) { oom = true; return {}; }
            s += r.text();
            s += "\n";
        }
        return s;
    }
    std::string step(const Op& op, bool faults)
    {
        for (int round = faults ? 0 : 1;; ++round) {
            bool on = round == 0, failed = false, planned = false, fired = false;
            std::string got = body(op, on, failed, planned, fired);
            SIM_CHECK(sim_locks_held() == 0, "lock-leak", "a lock is held after %s", op.kind.c_str());
            if (!failed) return got;
            SIM_CHECK(planned || fired, "unexpected-failure", "%s failed: %s", op.kind.c_str(), got.c_str());
            SIM_CHECK(on, "unexpected-failure", "%s fails again after the fault is gone: %s", op.kind.c_str(), got.c_str());
            sim_count("steps.failed", 1);
            roots(*model);
        }
    }
    std::string body(const Op& op, bool on, bool& failed, bool& planned, bool& fired)
    {
        auto& k = op.kind;
        auto oom = on ? op.oom : 0;
        auto take = [&](const sim::Outcome& o) { failed = failed || !o.ok; fired = fired || o.fired; return o.what; };
        if (k == "load") {
            Doc d = gen_doc(op.arg(0), op.arg(1), true);
            std::string text;
            json(d, text);
            size_t end = text.find_last_of("]}") + 1;
            auto f = fault(op, on, end);
            planned = f.cut >= 0 || f.fail >= 0;
            auto o = sim::attempt(oom, op.oomp, [&] {
                sim::InBuf b(text, f);
                std::istream is(&b);
                simfil::json::parse(is, model);
            });
            if (!o.ok) return take(o);
            SIM_CHECK(!planned, "error-lost", "a damaged document was loaded without an error");
            docs.push_back(sorted(d));
            return roots(*model);
        }
        if (k == "build") {
            Doc d = gen_doc(op.arg(0), op.arg(1), true);
            auto o = sim::attempt(oom, op.oomp, [&] { model->addRoot(Builder(*model, (uint64_t)op.arg(0)).build(d)); });
            if (!o.ok) return take(o);
            docs.push_back(d);
            return roots(*model);
        }
        if (k == "query") {
            // a new query, or one from before on what the model is now
            std::string text, printed;
            simfil::ExprPtr fresh;
            simfil::Expr* x = nullptr;
            bool again = op.arg(0) % 3 == 0 && !kept.empty();
            if (again) {
                auto& [t, e] = kept[(size_t)op.arg(0) / 3 % kept.size()];
                text = t;
                x = e.get();
            } else {
                text = gen_query(op.arg(0), (int)op.arg(1), true);
                auto o = sim::attempt(oom, op.oomp, [&] { fresh = simfil::compile(*env, text, op.arg(2) == 0); printed = fresh->toString(); });
                if (!o.ok && (o.oom || o.fired)) return take(o);
                if (!o.ok) return text + ": " + o.what;
                x = fresh.get();
            }
            sim_log("query %s", text.c_str());
            bool out = false;
            auto s = ask(*env, *model, *x, on && op.arg(3) ? &op : nullptr, out);
            if (out) { must("releasing", [&] { fresh.reset(); printed = {}; }); failed = true; fired = true; return "out of memory"; }
            if (on && fired) s.clear();
            if (!again) kept.emplace_back(text, std::move(fresh));
            return text + " = " + low(s);   // how much of it is folded to constants may depend on the names the pool knows
        }
        if (k == "ship" || k == "reread") {
            // through a file to a fresh process, or to another model object here
            std::string img, names;
            auto o = sim::attempt(oom, op.oomp, [&] {
                img = model_image(*model);
                sim::OutBuf b;
                std::ostream os(&b);
                pools[at]->write(os, 0);
                names = b.data;
            });
            if (!o.ok) return take(o);
            Pools there{pools[at]};
            std::shared_ptr<simfil::ModelPool> m;
            if (k == "ship") {
                auto f = fault(op, on && op.arg(0) % 2, names.size());
                planned = f.cut >= 0 || f.fail >= 0;
                must("a pool", [&] { there[0] = std::make_shared<simfil::StringPool>(); });
                o = sim::attempt(oom, op.oomp, [&] {
                    sim::InBuf b(names, f);
                    std::istream is(&b);
                    there[0]->read(is);
                });
                if (!o.ok) { must("releasing", [&] { there.clear(); }); return take(o); }
                SIM_CHECK(!planned, "error-lost", "an incomplete string pool image was read without an error");
            }
            auto f = fault(op, on, img.size());
            planned = f.cut >= 0 || f.fail >= 0;
            must("a model", [&] { m = std::make_shared<simfil::ModelPool>(there[0]); });
            o = sim::attempt(oom, op.oomp, [&] {
                sim::InBuf b(img, f);
                std::istream is(&b);
                m->read(is);
            });
            std::string s;
            if (!o.ok) s = take(o);
            else {
                SIM_CHECK(!planned, "error-lost", "an incomplete model image was read without an error");
                must("validating", [&] { m->validate(); });
                s = roots(*m);
                std::shared_ptr<simfil::Environment> e;
                must("an environment", [&] { e = std::make_shared<simfil::Environment>(there[0]); fns.install(*e); });
                for (auto& [text, x] : kept) {
                    bool no = false;
                    simfil::ExprPtr y;
                    must("compiling there", [&] { y = simfil::compile(*e, text); });
                    s += ask(*e, *m, *y, nullptr, no);
                    must("releasing", [&] { y.reset(); });
                }
                s = low(s);
                if (k == "reread") {
                    // go on with it
                    std::swap(m, model);
                    roots(*model);
                }
                must("releasing", [&] { e.reset(); });
            }
            must("releasing", [&] { m.reset(); there.clear(); img = {}; names = {}; });
            return s;
        }
        if (k == "move") {
            size_t to = (at + 1) % pools.size();
            auto o = sim::attempt(oom, op.oomp, [&] { model->setStrings(pools[to]); });
            if (!o.ok) return take(o);
            at = to;
            must("an environment", [&] { renew(); });
            return roots(*model);
        }
        if (k == "update") {
            // a new member in the first object
            size_t i = 0;
            while (i < docs.size() && docs[i].k != Doc::OBJ) ++i;
            if (i == docs.size()) return "-";
            auto name = key(op.arg(0) % 8 + 22);
            auto o = sim::attempt(oom, op.oomp, [&] { model->resolveObject(model->root(i))->addField(name, (int64_t)(op.arg(0) % 1000)); });
            if (!o.ok) return take(o);
            Doc v;
            v.k = Doc::INT;
            v.i = op.arg(0) % 1000;
            docs[i].kids.push_back({name, v});
            return roots(*model);
        }
        std::string s;
        auto o = sim::attempt(oom, op.oomp, [&] { s = model->toJson().dump(); });
        if (!o.ok) { must("releasing", [&] { s = {}; }); return take(o); }
        return low(s);
    }
};

static void run(const Plan& p)
{
    watch_reads = p.get("watch");
    int nt = (int)p.th.size();
    std::vector<std::vector<std::string>> want((size_t)nt), got((size_t)nt);
    auto fresh = [&] {
        Pools ps((size_t)p.get("pools"));
        must("pools", [&] { for (auto& x : ps) x = std::make_shared<simfil::StringPool>(); });
        for (size_t i = 0; i < ps.size(); ++i) lift(*ps[i], p.get(("base" + std::to_string(i % 3)).c_str()));
        return ps;
    };
    auto alone = [&] {
        for (int t = 0; t < nt; ++t) {
            auto ps = fresh();
            {
                Pipe pipe(ps);
                for (auto& op : p.th[t]) want[t].push_back(pipe.step(op, false));
            }
            must("releasing", [&] { ps.clear(); });
        }
    };
    if (!p.get("late")) alone();
    auto pools = fresh();
    sim::run_threads(nt, [&](int t) {
        Pipe pipe(pools);
        for (auto& op : p.th[t]) {
            got[t].push_back(pipe.step(op, true));
            sim_event(sim::hash_str(got[t].back()));
            sim_log("%s: %.300s", op.kind.c_str(), got[t].back().c_str());
        }
    });
    must("releasing", [&] { pools.clear(); });
    if (p.get("late")) alone();
    for (int t = 0; t < nt; ++t)
        for (size_t i = 0; i < got[t].size(); ++i)
            SIM_CHECK(got[t][i] == want[t][i], "result", "step %zu (%s) of pipeline %d gives %.600s, alone it gives %.600s", i, p.th[t][i].kind.c_str(), t, got[t][i].c_str(), want[t][i].c_str());
}

const sim::Scenario sim::scenario{"C21", gen, run, 200000000, 512ull << 20};
