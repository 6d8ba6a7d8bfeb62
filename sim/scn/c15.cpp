// C15: a failed evaluation or compilation leaves model, environment and expression usable.
#include "queries.h"
using namespace pm;
using sim::must;

static const int SLOTS = 5;

static void gen(Rng& r, Plan& p, int thorough)
{
    p.par["doc"] = (int64_t)r.below(1000000);
    p.par["docsize"] = r.logrange(2, thorough ? 40 : 20);
    int nq = (int)r.range(1, thorough ? 6 : 4), nt = (int)r.range(1, thorough ? 4 : 3);
    for (int i = 0; i < nq; ++i) {
        p.par["q" + std::to_string(i)] = (int64_t)r.below(100000000);
        p.par["qd" + std::to_string(i)] = r.range(1, thorough ? 5 : 4);
        p.par["qm" + std::to_string(i)] = r.chance(1, 5) ? r.range(1, 1000) : 0;
    }
    p.par["queries"] = nq;
    p.par["late"] = r.chance(1, 2);
    p.par["any"] = r.below(3) == 0;
    p.th.resize(nt);
    for (int t = 0; t < nt; ++t) {
        int n = (int)r.range(2, thorough ? 24 : 14);
        bool values = r.chance(1, 3);
        for (int i = 0; i < n; ++i) {
            Op o;
            int k = (int)r.below(values ? 20 : 10);
            if (k < 3) o = {"compile", {(int64_t)r.below(nq), 0}};
            else if (k < 10) o = {"eval", {(int64_t)r.below(nq), 0}};
            else o = {r.pick(std::vector<std::string>{"copy", "copy", "move", "swap", "clone", "grow", "box", "string", "result", "self"}), {(int64_t)r.below(nq), 0, (int64_t)r.below(SLOTS), (int64_t)r.below(SLOTS)}};
            int f = (int)r.below(6);
            int64_t top = o.kind == "eval" || o.kind == "compile" ? (thorough ? 2000 : 400) : 6;
            if (f < 2) o.oom = r.logrange(1, top);
            else if (f == 2) { o.oom = r.logrange(1, top); o.oomp = 1; }
            else if (f < 5) o.a[1] = r.logrange(1, top > 6 ? 40 : 3);
            p.th[t].push_back(o);
        }
    }
}

struct World
{
    std::shared_ptr<simfil::StringPool> pool = std::make_shared<simfil::StringPool>();
    UserFns fns;
    std::unique_ptr<simfil::Environment> env = std::make_unique<simfil::Environment>(pool);
    std::shared_ptr<simfil::ModelPool> model = std::make_shared<ProcModel>(pool);
    std::vector<simfil::ExprPtr> q;
    std::vector<std::string> text, printed, error;
    World(const Plan& p)
    {
        fns.install(*env);
        must("constants", [&] { env->constants.emplace("limit", simfil::Value::make((int64_t)3)); });
        Doc d = gen_doc(p.get("doc"), p.get("docsize"), true);
        must("building", [&] { model->addRoot(Builder(*model, 5).build(d)); });
        for (int i = 0; i < (int)p.get("queries"); ++i) {
            text.push_back(gen_query(p.get(("q" + std::to_string(i)).c_str()), (int)p.get(("qd" + std::to_string(i)).c_str()), true));
            text[i] = damaged(text[i], p.get(("qm" + std::to_string(i)).c_str()));
            simfil::ExprPtr e;
            std::string s;
            auto o = sim::attempt([&] { e = simfil::compile(*env, text[i], p.get("any")); s = e->toString(); });
            printed.push_back(s);
            error.push_back(o.ok ? "" : o.type + ": " + o.what);
            q.push_back(std::move(e));
        }
    }
};

static void run(const Plan& p)
{
    std::unordered_set<const void*> live;
    BoxType::live = &live;
    int nq = (int)p.get("queries");
    std::vector<Evaluated> want((size_t)nq);
    std::vector<std::string> printed, error;
    auto reference = [&] {
        auto w = std::make_unique<World>(p);
        for (int i = 0; i < nq; ++i) {
            sim_log("query %d: %s -> %s", i, w->text[i].c_str(), w->q[i] ? w->printed[i].c_str() : w->error[i].c_str());
            if (w->q[i]) want[i] = evaluate(*w->env, *w->q[i], *w->model->root(0), *w->model);
            if (w->q[i]) sim_log("gives %.300s", want[i].text().c_str());
        }
        printed = w->printed;
        error = w->error;
        must("releasing", [&] { w.reset(); });
    };
    bool late = p.get("late");
    if (!late) {
        reference();
        SIM_CHECK(live.empty(), "leak", "%zu data objects are not released", live.size());
    }
    int64_t blocks = sim_live_blocks();
    auto w = std::make_unique<World>(p);
    std::string doc = render(w->model->root(0), *w->model, true);
    struct Rec { int q; Evaluated e; };
    std::vector<std::vector<Rec>> recs(p.th.size() + 1);
    struct Slots { std::vector<simfil::Value> v; std::vector<std::string> want; };
    sim::run_threads((int)p.th.size(), [&](int t) {
        Slots s;
        must("slots", [&] { s.v.assign(SLOTS, simfil::Value::null()); });
        s.want.assign(SLOTS, "null:-");
        auto rendered = [&](const simfil::Value& v) {
            Fuse* f = fuse;
            fuse = nullptr;
            std::string x;
            must("reading a value", [&] { x = render_value(v, *w->model); });
            fuse = f;
            return x;
        };
        auto check_slots = [&](const char* what) {
            for (int i = 0; i < SLOTS; ++i)
                if (s.want[i] != "?") SIM_CHECK(rendered(s.v[i]) == s.want[i], "value", "after %s value %d reads %s instead of %s", what, i, rendered(s.v[i]).c_str(), s.want[i].c_str());
        };
        for (auto& op : p.th[t]) {
            Fuse f;
            f.left = op.arg(1);
            fuse = &f;
            int i = (int)op.arg(0);
            auto fate = [&](const sim::Outcome& o, const char* what, const std::string& natural) {
                // an injected failure may be reported as what it is; a failure without cause is never reported
                if (o.ok) return;
                std::string e = o.type + ": " + o.what;
                if (!natural.empty() && e == natural) return;
                if (o.fired && o.oom) return;
                if (f.fired && o.what.rfind("boom in ", 0) == 0 && o.type.find("Boom") != std::string::npos) return;
                // building the text of a natural error may itself fail and give a shorter text
                if (!natural.empty() && (o.fired || f.fired)) return;
                sim_violation("unexpected-failure", "%s fails with %s (%s), expected %s; %d failed allocations, user code %s", what, o.what.c_str(), o.type.c_str(), natural.empty() ? "success" : natural.c_str(), o.fired, f.fired ? "threw" : "did not throw");
            };
            if (op.kind == "compile") {
                simfil::ExprPtr e;
                auto o = sim::attempt(op, [&] { e = simfil::compile(*w->env, w->text[i], p.get("any")); });
                fuse = nullptr;
                SIM_CHECK(sim_locks_held() == 0, "lock-leak", "a lock is held after compile()");
                fate(o, w->text[i].c_str(), w->error[i]);
                if (o.ok) {
                    SIM_CHECK(w->q[i] != nullptr, "result", "'%s' compiles after a failure was injected, otherwise not", w->text[i].c_str());
                    std::string x;
                    must("printing", [&] { x = e->toString(); });
                    SIM_CHECK(x == w->printed[i], "result", "'%s' is compiled to %s, otherwise to %s", w->text[i].c_str(), x.c_str(), w->printed[i].c_str());
                    recs[t].push_back({i, evaluate(*w->env, *e, *w->model->root(0), *w->model)});
                }
                must("releasing", [&] { e.reset(); });
            } else if (op.kind == "eval") {
                if (!w->q[i]) { fuse = nullptr; continue; }
                auto e = evaluate(*w->env, *w->q[i], *w->model->root(0), *w->model, &op);
                fuse = nullptr;
                SIM_CHECK(sim_locks_held() == 0, "lock-leak", "a lock is held after eval()");
                sim_event(sim::hash_str(e.text()));
                bool boom = f.fired && e.failed && e.error.find("boom in ") != std::string::npos;
                if (e.fired && e.oom) sim_count("eval.oom", 1);
                else if (boom) sim_count("eval.user_error", 1);
                else if (e.failed && (e.fired || f.fired)) {
                    // must be the natural failure (its text may have been shortened); checked below
                    recs[t].push_back({-1 - i, e});
                } else recs[t].push_back({i, e});
                // right afterwards it works
                if (e.fired || f.fired) recs[t].push_back({i, evaluate(*w->env, *w->q[i], *w->model->root(0), *w->model)});
            } else {
                int a = (int)op.arg(2), b = (int)op.arg(3);
                auto& A = s.v[a];
                auto& B = s.v[b];
                sim::Outcome o;
                if (op.kind == "copy") {
                    o = sim::attempt(op, [&] { A = B; });
                    if (a != b || !o.ok) s.want[a] = o.ok ? s.want[b] : "?";
                } else if (op.kind == "self") {
                    o = sim::attempt(op, [&] { auto& same = s.v[a]; A = same; });
                    if (!o.ok) s.want[a] = "?";
                } else if (op.kind == "move") {
                    o = sim::attempt(op, [&] { A = std::move(B); });
                    if (a != b) { s.want[a] = o.ok ? s.want[b] : "?"; }
                    s.want[b] = "?";
                } else if (op.kind == "swap") {
                    o = sim::attempt(op, [&] { std::swap(A, B); });
                    if (o.ok) std::swap(s.want[a], s.want[b]);
                    else s.want[a] = s.want[b] = "?";
                } else if (op.kind == "clone") {
                    std::string got;
                    o = sim::attempt(op, [&] { simfil::Value c(B); simfil::Value d(std::move(c)); fuse = nullptr; sim_arm_alloc(0, 0); A = std::move(d); });
                    if (o.ok) s.want[a] = s.want[b];
                    else fuse = nullptr;
                } else if (op.kind == "grow") {
                    // a growing vector of values keeps its elements, also if it cannot grow
                    std::vector<simfil::Value> v;
                    size_t n = 0;
                    o = sim::attempt(op, [&] { for (int k = 0; k < 9; ++k) { v.push_back(s.v[(size_t)(b + k) % SLOTS]); ++n; } });
                    fuse = nullptr;
                    SIM_CHECK(v.size() == n, "value", "a vector has %zu values after %zu insertions", v.size(), n);
                    for (size_t k = 0; k < n; ++k) {
                        auto& x = s.want[(size_t)(b + (int)k) % SLOTS];
                        if (x != "?") SIM_CHECK(rendered(v[k]) == x, "value", "a value in a vector reads %s instead of %s", rendered(v[k]).c_str(), x.c_str());
                    }
                    must("releasing", [&] { v.clear(); v.shrink_to_fit(); });
                } else if (op.kind == "box") {
                    o = sim::attempt(op, [&] { A = BoxType::Type().make(b + 40); });
                    s.want[a] = o.ok ? "transient:box:" + std::to_string(b + 40) : "?";
                } else if (op.kind == "string") {
                    o = sim::attempt(op, [&] { A = simfil::Value::make(std::string("a string that is too long for the small buffer ") + std::to_string(b)); });
                    s.want[a] = o.ok ? "string:'a string that is too long for the small buffer " + std::to_string(b) + "'" : "?";
                } else if (op.kind == "result") {
                    if (!w->q[i]) { fuse = nullptr; continue; }
                    std::vector<simfil::Value> r;
                    fuse = nullptr;
                    o = sim::attempt([&] { r = simfil::eval(*w->env, *w->q[i], *w->model->root(0)); });
                    fuse = &f;
                    if (!o.ok || r.empty()) { fuse = nullptr; continue; }
                    auto text = rendered(r[0]);
                    o = sim::attempt(op, [&] { A = r[0]; });
                    s.want[a] = o.ok ? text : "?";
                    fuse = nullptr;
                    SIM_CHECK(rendered(r[0]) == text, "value", "copying a result changed it to %s, it was %s", rendered(r[0]).c_str(), text.c_str());
                    must("releasing", [&] { r.clear(); r.shrink_to_fit(); });
                }
                fuse = nullptr;
                fate(o, op.kind.c_str(), "");
                check_slots(op.kind.c_str());
            }
            fuse = nullptr;
        }
        must("releasing values", [&] { s.v.clear(); s.v.shrink_to_fit(); });
    });
    SIM_CHECK(render(w->model->root(0), *w->model, true) == doc, "content", "failed evaluations changed the model");
    for (int i = 0; i < nq; ++i)
        if (w->q[i]) {
            recs[p.th.size()].push_back({i, evaluate(*w->env, *w->q[i], *w->model->root(0), *w->model)});
            std::string s;
            must("printing", [&] { s = w->q[i]->toString(); });
            SIM_CHECK(s == w->printed[i], "result", "after failures an expression prints %s instead of %s", s.c_str(), w->printed[i].c_str());
        }
    if (late) reference();
    for (int i = 0; i < nq; ++i) SIM_CHECK(w->printed[i] == printed[i] && w->error[i] == error[i], "result", "compiling '%s' gives %s%s instead of %s%s", w->text[i].c_str(), w->printed[i].c_str(), w->error[i].c_str(), printed[i].c_str(), error[i].c_str());
    for (auto& rs : recs)
        for (auto& [qi, e] : rs) {
            int i = qi < 0 ? -1 - qi : qi;
            if (qi < 0) SIM_CHECK(want[i].failed, "unexpected-failure", "query '%s' fails with %s although it should give %.400s", w->text[i].c_str(), e.error.c_str(), want[i].text().c_str());
            else SIM_CHECK(e == want[i], "result", "query '%s' gives %.400s instead of %.400s", w->text[i].c_str(), e.text().c_str(), want[i].text().c_str());
        }
    must("releasing", [&] { w.reset(); });
    SIM_CHECK(live.empty(), "leak", "%zu data objects are never released", live.size());
    BoxType::live = nullptr;
    recs.clear();   // these strings were allocated by the code under test
    std::string().swap(doc);
    if (!late) SIM_CHECK(sim_live_blocks() <= blocks, "leak", "%ld blocks are allocated after everything was released, %ld before", (long)sim_live_blocks(), (long)blocks);
}

const sim::Scenario sim::scenario{"C15", gen, run, 100000000, 512ull << 20};
