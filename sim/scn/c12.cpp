// C12: parallel compilation equals sequential compilation.
#include "queries.h"
#include <set>
using namespace pm;
using sim::must;

static void gen(Rng& r, Plan& p, int thorough)
{
    p.par["base"] = gen_base(r);
    p.par["doc"] = (int64_t)r.below(1000000);
    p.par["docsize"] = r.logrange(2, 20);
    int nt = (int)r.range(2, thorough ? 6 : 4);
    int distinct = (int)r.range(1, 6);
    std::vector<int64_t> seeds;
    for (int i = 0; i < distinct; ++i) seeds.push_back((int64_t)r.below(100000000));
    p.th.resize(nt);
    p.par["late"] = r.chance(2, 3);   // the reference is computed after the parallel part (process-wide state is still fresh)
    bool interning = r.chance(1, 3);   // names become known meanwhile
    for (int t = 0; t < nt; ++t) {
        int n = (int)r.range(1, thorough ? 10 : 6);
        for (int i = 0; i < n; ++i) {
            if (interning && r.chance(1, 3)) { p.th[t].push_back({"intern", {(int64_t)r.below(36), r.range(1, 6)}}); continue; }
            Op o{"compile", {r.pick(seeds), r.range(1, thorough ? 5 : 4), (int64_t)r.below(4), r.chance(1, 4) ? (int64_t)r.range(1, 1000) : 0, interning ? (int64_t)r.below(6) : 0}};
            p.th[t].push_back(o);
        }
    }
}

// query text, for every fourth or so damaged somewhere
static std::string text_of(const Op& op)
{
    QueryGen g((uint64_t)op.arg(0));
    g.user = true;
    g.trace = true;
    std::string s = g.query((int)op.arg(1));
    if (g.r.chance(1, 6)) s += " + limit";
    switch (op.arg(4)) {
    case 1: s = "sum(" + s + ", $sum + ($val as int))"; break;
    case 2: s = "sum(sum(range(0, 2)..., $sum + count(" + s + "), 4), $sum + $val)"; break;
    case 3: s = "count(" + s + ")"; break;
    default: break;
    }
    if (int64_t m = op.arg(3)) {
        Rng r((uint64_t)m);
        int k = (int)r.range(1, 2);
        for (int i = 0; i < k && !s.empty(); ++i) {
            size_t at = r.below(s.size());
            static const char junk[] = "()[]{}.,*'\"0x9e~^a_$#?<=\\";
            switch (r.below(4)) {
            case 0: s.erase(at, 1); break;
            case 1: s.insert(at, 1, junk[r.below(sizeof junk - 1)]); break;
            case 2: s[at] = junk[r.below(sizeof junk - 1)]; break;
            default: s.resize(at);
            }
        }
    }
    return s;
}

struct Compiled
{
    bool ok = false, oom = false;
    std::string printed, error, result;
    std::vector<std::pair<std::string, std::string>> warnings;
};
struct World
{
    std::shared_ptr<simfil::StringPool> pool = std::make_shared<simfil::StringPool>();
    UserFns fns;
    simfil::Environment env{pool};
    std::shared_ptr<simfil::ModelPool> model;
    World(const Plan& p)
    {
        lift(*pool, p.get("base"));
        fns.install(env);
        env.constants.emplace("limit", simfil::Value::make((int64_t)3));
        env.constants.emplace("Label", simfil::Value::make(std::string("a constant string longer than the small buffer")));
        model = std::make_shared<ProcModel>(pool);
        Doc d = gen_doc(p.get("doc"), p.get("docsize"), true);
        must("building", [&] { model->addRoot(Builder(*model, 5).build(d)); });
    }
    Compiled compile(const std::string& text, int64_t flags)
    {
        Compiled c;
        simfil::ExprPtr e;
        auto o = sim::attempt([&] {
            e = simfil::compile(env, text, flags & 1, flags & 2);
            if (e) c.printed = e->toString();
        });
        c.ok = o.ok;
        c.oom = o.oom;
        if (!o.ok) c.error = o.type + ": " + o.what;
        SIM_CHECK(sim_locks_held() == 0, "lock-leak", "a lock is held after compile()");
        // compilation first, then evaluation: warnings of the compilation only
        if (e) {
            simfil::Environment own(pool);
            fns.install(own);
            c.result = evaluate(own, *e, *model->root(0), *model).text();
            must("releasing", [&] { e.reset(); });
        }
        return c;
    }
};

static void run(const Plan& p)
{
    std::map<std::pair<std::string, int64_t>, Compiled> want;
    std::multiset<std::pair<std::string, std::string>> warns;
    auto reference = [&] {
    for (auto& th : p.th)
        for (auto& op : th) {
            if (op.kind == "intern") continue;
            auto text = text_of(op);
            auto k = std::make_pair(text, op.arg(2));
            if (!want.count(k)) {
                World w(p);
                auto c = w.compile(text, op.arg(2));
                SIM_CHECK(!c.oom, "unexpected-failure", "out of memory");
                c.warnings = w.env.warnings;
                sim_log("alone: %s [%d] -> %s gives %.200s, %zu warnings", text.c_str(), (int)op.arg(2), c.ok ? c.printed.c_str() : c.error.c_str(), c.result.c_str(), c.warnings.size());
                sim_count(c.ok ? "compile.ok" : "compile.error", 1);
                sim_count("compile.warnings", c.warnings.size());
                want[k] = c;
            }
            for (auto& x : want[k].warnings) warns.insert(x);
        }
    };
    if (!p.get("late")) reference();
    struct Rec { std::string text; int64_t flags; Compiled c; };
    std::vector<std::vector<Rec>> recs(p.th.size());
    World w(p);
    auto content = join(render_roots(*w.model));
    sim::run_threads((int)p.th.size(), [&](int t) {
        for (auto& op : p.th[t]) {
            if (op.kind == "intern") {
                must("interning names", [&] { for (int64_t i = 0; i < op.arg(1); ++i) w.pool->emplace(key((op.arg(0) + i) % 36)); });
                continue;
            }
            auto text = text_of(op);
            auto c = w.compile(text, op.arg(2));
            sim_event(sim::hash_str(c.printed + c.error + c.result));
            recs[t].push_back({text, op.arg(2), c});
        }
    });
    if (p.get("late")) reference();
    bool interning = false;
    for (auto& th : p.th) for (auto& op : th) interning = interning || op.kind == "intern";    // how much is folded to constants may depend on the names the pool knows
    for (auto& rs : recs)
        for (auto& [text, flags, c] : rs) {
            auto& x = want[{text, flags}];
            if (interning) {
                // what fails may do so when it is folded or when it is evaluated; a constant query gets another meaning by the automatic wildcard
                auto failed = [](const Compiled& k) { return !k.ok || k.result[0] == '!'; };
                if (flags & 2 || (failed(c) && failed(x))) continue;
                SIM_CHECK(c.ok && x.ok && c.result == x.result, "result", "'%s' gives %.400s%s, alone %.400s%s", text.c_str(), c.result.c_str(), c.error.c_str(), x.result.c_str(), x.error.c_str());
                continue;
            }
            SIM_CHECK(c.ok == x.ok && c.error == x.error, "result", "compiling '%s' %s (%s), alone it %s (%s)", text.c_str(), c.ok ? "succeeds" : "fails", c.error.c_str(), x.ok ? "succeeds" : "fails", x.error.c_str());
            SIM_CHECK(c.printed == x.printed, "result", "compiling '%s' gives %s, alone it gives %s", text.c_str(), c.printed.c_str(), x.printed.c_str());
            SIM_CHECK(c.result == x.result, "result", "'%s' evaluates to %.400s, alone to %.400s", text.c_str(), c.result.c_str(), x.result.c_str());
        }
    std::multiset<std::pair<std::string, std::string>> got(w.env.warnings.begin(), w.env.warnings.end());
    if (!interning) for (auto& x : warns) SIM_CHECK(got.count(x) == warns.count(x), "warnings", "warning '%s' (%s) is recorded %zu times instead of %zu", x.first.c_str(), x.second.c_str(), got.count(x), warns.count(x));
    if (!interning) SIM_CHECK(got.size() == warns.size(), "warnings", "%zu warnings recorded instead of %zu", got.size(), warns.size());
    SIM_CHECK(w.env.functions.size() == 15 && w.env.constants.size() == 2, "environment", "compilation changed the environment's functions or constants");
    SIM_CHECK(join(render_roots(*w.model)) == content, "content", "compilation changed the model");
}

const sim::Scenario sim::scenario{"C12", gen, run, 100000000, 512ull << 20};
