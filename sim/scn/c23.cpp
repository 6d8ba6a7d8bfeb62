// C23: a debug interface sees every evaluation step, properly nested, and changes nothing.
#include "queries.h"
using namespace pm;
using sim::must;

static void gen(Rng& r, Plan& p, int thorough)
{
    p.par["doc"] = (int64_t)r.below(1000000);
    p.par["docsize"] = r.logrange(2, thorough ? 40 : 18);
    p.par["late"] = r.chance(1, 2);
    int nq = (int)r.range(1, thorough ? 6 : 4), nt = (int)r.range(1, thorough ? 5 : 3);
    for (int i = 0; i < nq; ++i) {
        auto n = std::to_string(i);
        p.par["q" + n] = (int64_t)r.below(100000000);
        p.par["qd" + n] = r.range(1, thorough ? 5 : 4);
        p.par["qm" + n] = r.chance(1, 8) ? r.range(1, 1000) : 0;
        p.par["any" + n] = r.chance(1, 3);
    }
    p.par["queries"] = nq;
    p.th.resize(nt);
    for (int t = 0; t < nt; ++t) {
        int n = (int)r.range(1, thorough ? 16 : 8);
        for (int i = 0; i < n; ++i) {
            // query, where the consumer ends it, step at which the debugger ends it, fuse of user code
            Op o{"full", {(int64_t)r.below(nq), 0, 0, 0}};
            switch (r.below(12)) {
            case 0: case 1: o.kind = "stop"; o.a[1] = r.logrange(1, 30); break;
            case 2: o.kind = "throw"; o.a[1] = r.logrange(1, 30); break;
            case 3: case 4: o.kind = "compile"; break;
            case 5: o.kind = "begin"; o.a[2] = r.logrange(1, 200); break;       // the debugger throws
            case 6: o.kind = "end"; o.a[2] = r.logrange(1, 200); break;
            case 7: o.kind = "boom"; o.a[3] = r.logrange(1, 30); break;
            case 8: o.kind = r.chance(1, 2) ? "full" : "compile"; o.oom = r.logrange(1, 300); o.oomp = r.chance(1, 4); break;
            case 9: if (nt == 1) { o.kind = "leave"; o.a[2] = r.logrange(1, 60); } break;       // the debugger detaches
            default: break;
            }
            p.th[t].push_back(o);
        }
    }
}

// what the debugger of a thread sees
struct Seen
{
    std::vector<const simfil::Expr*> open;
    uint64_t steps = 0, ends = 0, hash = 0;
    std::map<const simfil::Expr*, uint64_t> names;
    int64_t at = 0;
    int what = 0;           // 1, 2: throw at the at-th begin, end; 3: detach
    simfil::Environment* env = nullptr;
    bool fired = false;
    bool fixed = false;     // expressions stay where they are (while compiling, they come and go)
};
static Seen seen[SIM_MAXT];

static uint64_t name_of(Seen& s, const simfil::Expr& e)
{
    struct Off { Fuse* f = fuse; Off() { fuse = nullptr; } ~Off() { fuse = f; } } off;      // printing uses data types
    if (!s.fixed) return sim::hash_str(e.toString());
    auto it = s.names.find(&e);
    return it != s.names.end() ? it->second : s.names[&e] = sim::hash_str(e.toString());
}
static void begin(const simfil::Expr& e, simfil::Context& ctx, simfil::Value& v, const simfil::ResultFn&)
{
    sim::Quiet q;
    auto& s = seen[sim_self()];
    if (ctx.env->debug == nullptr && s.what != 3) sim_violation("steps", "a debugger that is not installed is called");
    if (s.what == 3 && s.fired) sim_violation("steps", "a debugger that has detached sees another step begin");
    s.open.push_back(&e);
    ++s.steps;
    s.hash = (s.hash ^ name_of(s, e) ^ (uint64_t)ctx.phase ^ (uint64_t)v.type * 977) * 0x9E3779B97F4A7C15ull;
    if (s.at && s.steps == (uint64_t)s.at) {
        if (s.what == 3) { s.fired = true; s.env->debug = nullptr; sim_count("fault.debugger_detaches", 1); }
        if (s.what == 1) { s.fired = true; sim_count("fault.debugger_throws", 1); throw sim::Injected{1}; }
    }
}
static void end(const simfil::Expr& e)
{
    sim::Quiet q;
    auto& s = seen[sim_self()];
    if (s.open.empty()) sim_violation("steps", "a step ends that did not begin: %s", e.toString().c_str());
    if (s.open.back() != &e) sim_violation("steps", "%s ends while %s is being evaluated", e.toString().c_str(), s.open.back()->toString().c_str());
    s.open.pop_back();
    ++s.ends;
    s.hash = (s.hash ^ name_of(s, e)) * 0xBF58476D1CE4E5B9ull;
    if (s.at && s.what == 2 && s.ends == (uint64_t)s.at) { s.fired = true; sim_count("fault.debugger_throws", 1); throw sim::Injected{2}; }
}

// whatever calls a function is a step
static void user_call(const std::string& name, simfil::Context& ctx)
{
    sim::Quiet q;
    auto& s = seen[sim_self()];
    if (!ctx.env->debug || s.what == 3) return;
    struct Off { Fuse* f = fuse; Off() { fuse = nullptr; } ~Off() { fuse = f; } } off;
    if (s.open.empty()) sim_violation("steps", "%s() is called outside of any step the debugger has seen begin", name.c_str());
    if (lower(s.open.back()->toString()).find(name) == std::string::npos) sim_violation("steps", "%s() is called in a step the debugger has not seen begin, within %s", name.c_str(), s.open.back()->toString().c_str());
}

struct World
{
    std::shared_ptr<simfil::StringPool> pool = std::make_shared<simfil::StringPool>();
    UserFns fns;
    simfil::Environment env{pool};
    simfil::Debug debug;
    std::shared_ptr<simfil::ModelPool> model = std::make_shared<ProcModel>(pool);
    std::vector<simfil::ExprPtr> q;
    std::vector<std::string> text;
    World(const Plan& p)
    {
        debug.evalBegin = begin;
        debug.evalEnd = end;
        fns.install(env);
        Doc d = gen_doc(p.get("doc"), p.get("docsize"), true);
        must("building", [&] { model->addRoot(Builder(*model, 5).build(d)); });
        for (int i = 0; i < (int)p.get("queries"); ++i) {
            auto n = std::to_string(i);
            text.push_back(damaged(gen_query(p.get(("q" + n).c_str()), (int)p.get(("qd" + n).c_str()), true, true), p.get(("qm" + n).c_str())));
            simfil::ExprPtr e;
            (void)sim::attempt([&] { e = simfil::compile(env, text[(size_t)i], p.get(("any" + n).c_str())); });
            q.push_back(std::move(e));
        }
    }
};

struct Did
{
    bool skipped = false;
    std::vector<std::string> got;
    sim::Outcome o;
    uint64_t steps = 0, ends = 0, hash = 0;
    bool fuse = false, debugger = false;
};

static Did once(World& w, const Op& op, const Plan& p)
{
    Did d;
    size_t i = (size_t)op.arg(0);
    bool compiles = op.kind == "compile";
    if (!compiles && !w.q[i]) { d.skipped = true; return d; }
    auto& s = seen[sim_self()];
    s = {};
    s.env = &w.env;
    s.fixed = !compiles;
    s.at = op.arg(2);
    s.what = op.kind == "begin" ? 1 : op.kind == "end" ? 2 : op.kind == "leave" ? 3 : 0;
    Fuse f;
    f.left = op.arg(3);
    fuse = &f;
    int64_t k = op.arg(1);
    bool stopped = false;
    simfil::Result res = simfil::Result::Continue;
    simfil::ExprPtr e;
    d.o = sim::attempt(op, [&] {
        if (compiles) { e = simfil::compile(w.env, w.text[i], p.get(("any" + std::to_string(i)).c_str())); return; }
        simfil::Context ctx(&w.env);
        auto root = w.model->root(0);
        res = w.q[i]->eval(ctx, simfil::Value::field(*root), simfil::LambdaResultFn([&](simfil::Context, simfil::Value v) {
            Fuse* mine = fuse;
            fuse = nullptr;
            std::string x = render_value(v, *w.model);
            fuse = mine;
            sim::Quiet q;
            if (stopped) sim_violation("stop", "'%s' calls its consumer after it stopped", w.text[i].c_str());
            d.got.push_back(x);
            if (k && (int64_t)d.got.size() == k) {
                stopped = true;
                if (op.kind == "throw") throw sim::Injected{3};
                return simfil::Result::Stop;
            }
            return simfil::Result::Continue;
        }));
    });
    fuse = nullptr;
    d.fuse = f.fired;
    d.debugger = s.fired;
    if (s.what == 3) w.env.debug = &w.debug;
    SIM_CHECK(sim_locks_held() == 0, "lock-leak", "a lock is held after an evaluation");
    if (compiles && d.o.ok) must("printing", [&] { d.got.push_back(e->toString()); });
    if (d.o.ok) {
        SIM_CHECK(s.open.empty(), "steps", "'%s' is done and %zu of %lu steps have not ended", w.text[i].c_str(), s.open.size(), (unsigned long)s.steps);
        if (w.env.debug && !compiles) SIM_CHECK(s.steps > 0, "steps", "the debugger sees nothing of '%s'", w.text[i].c_str());
        if (!compiles) SIM_CHECK((res == simfil::Result::Stop) == stopped, "stop", "'%s' %s", w.text[i].c_str(), stopped ? "does not report the stop" : "reports a stop nobody asked for");
    }
    if (d.debugger && s.what < 3) SIM_CHECK(!d.o.ok && d.o.custom, "error-lost", "the debugger's exception does not reach the caller of '%s': %s", w.text[i].c_str(), d.o.ok ? "no exception" : d.o.what.c_str());
    d.steps = s.steps;
    d.ends = s.ends;
    d.hash = s.hash;
    must("releasing", [&] { e.reset(); });
    s = {};
    return d;
}

static std::string text_of(const Did& d)
{
    std::string s = join(d.got);
    if (!d.o.ok) s += "!" + d.o.type + ": " + d.o.what;
    return s;
}

static void run(const Plan& p)
{
    on_user_call = user_call;
    std::vector<std::vector<Did>> alone(p.th.size()), got(p.th.size()), plain(p.th.size());
    auto reference = [&](std::vector<std::vector<Did>>& to, bool debug) {
        World w(p);
        if (debug) w.env.debug = &w.debug;
        for (size_t t = 0; t < p.th.size(); ++t)
            for (auto op : p.th[t]) {
                op.oom = 0;
                if (!debug && (op.kind == "begin" || op.kind == "end" || op.kind == "leave")) op = {"full", {op.arg(0), 0, 0, 0}};
                to[t].push_back(once(w, op, p));
            }
    };
    bool late = p.get("late");
    if (!late) { reference(plain, false); reference(alone, true); }
    {
        World w(p);
        for (size_t i = 0; i < w.text.size(); ++i) sim_log("query %zu: %s", i, w.text[i].c_str());
        w.env.debug = &w.debug;
        sim::run_threads((int)p.th.size(), [&](int t) {
            for (auto& op : p.th[t]) {
                got[t].push_back(once(w, op, p));
                auto& d = got[t].back();
                sim_log("%s '%s': %lu steps, %.300s", op.kind.c_str(), w.text[(size_t)op.arg(0)].c_str(), (unsigned long)d.steps, text_of(d).c_str());
                sim_event(op.oom ? d.o.ok : d.hash);
            }
        });
    }
    if (late) { reference(alone, true); reference(plain, false); }
    for (size_t t = 0; t < p.th.size(); ++t)
        for (size_t i = 0; i < p.th[t].size(); ++i) {
            auto& op = p.th[t][i];
            auto &a = alone[t][i], &g = got[t][i], &n = plain[t][i];
            SIM_CHECK(a.skipped == g.skipped && a.skipped == n.skipped, "result", "a query compiles only sometimes");
            if (g.skipped) continue;
            bool by_debugger = op.kind == "begin" || op.kind == "end";
            if (!by_debugger || !a.debugger)
                SIM_CHECK(text_of(a) == text_of(n), "result", "under a debugger the result is %.400s instead of %.400s", text_of(a).c_str(), text_of(n).c_str());
            if (op.oom && !g.o.ok && (g.o.oom || g.o.fired)) continue;
            SIM_CHECK(text_of(a) == text_of(g), "result", "%s gives %.400s, alone it gives %.400s", op.kind.c_str(), text_of(g).c_str(), text_of(a).c_str());
            SIM_CHECK(a.steps == g.steps && a.ends == g.ends && a.hash == g.hash, "steps", "%s: the debugger sees %lu steps begin and %lu end, alone %lu and %lu, or other ones", op.kind.c_str(), (unsigned long)g.steps, (unsigned long)g.ends, (unsigned long)a.steps, (unsigned long)a.ends);
        }
}

const sim::Scenario sim::scenario{"C23", gen, run, 100000000, 512ull << 20};
