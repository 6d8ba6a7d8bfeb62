// C16: every raised error reaches the installed handler exactly once, then its thrower.
#include "queries.h"
#include "simfil/model/arena.h"
using namespace pm;
using sim::must;

static void gen(Rng& r, Plan& p, int thorough)
{
    p.par["doc"] = (int64_t)r.below(1000000);
    p.par["docsize"] = r.logrange(2, 14);
    p.par["late"] = r.chance(2, 3);
    int rounds = (int)r.range(1, 3);
    p.par["rounds"] = rounds;
    for (int i = 0; i < rounds; ++i) p.par["handler" + std::to_string(i)] = r.chance(1, 6) ? 0 : r.range(1, 3);   // 0: none, 1, 2: two handlers, 3: a handler that uses the library
    int nt = (int)r.range(2, thorough ? 6 : 4);
    p.th.resize(nt);
    std::vector<int64_t> seeds;
    for (int i = 0; i < 4; ++i) seeds.push_back((int64_t)r.below(100000000));
    for (int t = 0; t < nt; ++t) {
        int n = (int)r.range(2, thorough ? 24 : 12);
        for (int i = 0; i < n; ++i) {
            Op o;
            int round = (int)r.below(rounds);
            switch (r.below(8)) {
            case 0: case 1: o = {"raise", {round, (int64_t)r.below(5), (int64_t)r.below(1000), r.chance(1, 3) ? r.logrange(1, 5000) : 0}}; break;
            case 2: o = {"model", {round, (int64_t)r.below(7)}}; break;
            case 3: o = {"pool", {round, (int64_t)r.below(3), r.chance(1, 3) ? r.logrange(1, 300) : 0}}; break;
            case 4: if (r.chance(1, 3)) { o = {"burst", {round, r.logrange(1, 160), (int64_t)r.below(3)}}; break; }
                o = {"arena", {round, (int64_t)r.below(5)}};
                break;
            default: o = {"query", {round, r.pick(seeds), r.range(1, 4), r.chance(1, 2) ? r.range(1, 1000) : 0}};
            }
            if (r.chance(1, 12)) o.oom = r.logrange(1, 12);
            p.th[t].push_back(o);
        }
    }
}

static std::string text_of(const Op& op)
{
    QueryGen g((uint64_t)op.arg(1));
    g.user = true;
    return damaged(g.query((int)op.arg(2)), op.arg(3));
}

struct Silent { int n; };   // an error type without what()

struct Report { int handler, thread; std::string type, what; };
static std::vector<Report>* reports;      // per thread
static int level[SIM_MAXT];

static void report(int h, const std::string& type, const std::string& what)
{
    int self = sim_self();
    {
        sim::Quiet q;
        reports[self].push_back({h, self, type, what});
        sim_event(sim::hash_str(what));
        sim_count("handler.calls", 1);
    }
    if (h == 3 && level[self] < 3) {
        // a handler may use the library, and even raise and catch errors itself
        ++level[self];
        try { simfil::raise<std::runtime_error>("nested"); } catch (std::exception&) {}
        --level[self];
    }
}

struct World
{
    std::shared_ptr<simfil::StringPool> pool = std::make_shared<simfil::StringPool>();
    UserFns fns;
    simfil::Environment env{pool};
    std::shared_ptr<simfil::ModelPool> model = std::make_shared<ProcModel>(pool), broken = std::make_shared<simfil::ModelPool>(pool);
    std::shared_ptr<simfil::StringPool> full = std::make_shared<simfil::StringPool>();
    std::string pimg, mimg;
    World(const Plan& p)
    {
        fns.install(env);
        Doc d = gen_doc(p.get("doc"), p.get("docsize"), true);
        must("building", [&] {
            model->addRoot(Builder(*model, 5).build(d));
            broken->addRoot(simfil::ModelNode::Ptr::make(broken, simfil::ModelNodeAddress{simfil::ModelPool::Int64, 9999}));
            auto small = std::make_shared<simfil::StringPool>();
            small->emplace("last");
            pimg = image(*small, 128);
            std::string img = pimg;
            img[2] = (char)254;
            img[3] = (char)255;
            load(*full, img);
            mimg = model_image(*model);
        });
    }
};

// returns how many errors must have been raised (-1: not known)
static sim::Outcome perform(World& w, const Op& op, int& raised, const std::string*& msg)
{
    raised = -1;
    static thread_local std::string text;
    text.clear();
    msg = nullptr;
    auto& k = op.kind;
    if (k == "raise") {
        raised = 1;
        text = "error number " + std::to_string(op.arg(2)) + " with a text of its own" + std::string(op.arg(3) > 0 ? (size_t)op.arg(3) : 0, '!');
        msg = &text;
        switch (op.arg(1)) {
        case 0: return sim::attempt(op, [&] { simfil::raise<std::runtime_error>(text); });
        case 1: return sim::attempt(op, [&] { simfil::raise<std::overflow_error>(text); });
        case 2: msg = nullptr; return sim::attempt(op, [&] { simfil::raise<simfil::InvalidOperandsError>("op" + text); });
        case 3: {
            // raised while another error unwinds the stack
            struct Cleanup
            {
                std::exception_ptr& seen;
                ~Cleanup()
                {
                    try { simfil::raise<std::overflow_error>(text); } catch (...) { seen = std::current_exception(); }
                }
            };
            return sim::attempt(op, [&] {
                std::exception_ptr seen;
                try { Cleanup c{seen}; throw sim::Injected{1}; } catch (sim::Injected&) {}
                if (seen) std::rethrow_exception(seen);
            });
        }
        default: {
            msg = nullptr;
            return sim::attempt(op, [&] { try { simfil::raise<Silent>((int)op.arg(2)); } catch (Silent& s) { if (s.n == (int)op.arg(2)) throw sim::Injected{s.n}; } });
        }
        }
    }
    if (k == "model") {
        raised = 1;
        switch (op.arg(1)) {
        case 0: return sim::attempt(op, [&] { (void)w.model->root(99); });
        case 1: return sim::attempt(op, [&] { (void)w.model->resolveObject(w.model->newSmallValue(true)); });
        case 2: return sim::attempt(op, [&] { (void)w.model->resolveArray(w.model->newSmallValue((int16_t)3)); });
        case 3: return sim::attempt(op, [&] { w.model->setStrings(nullptr); });
        case 4: raised = 2; return sim::attempt(op, [&] { w.broken->validate(); });
        case 5: {
            auto m = std::make_shared<simfil::ModelPool>();
            auto o = sim::attempt(op, [&] {
                std::string cut = w.mimg.substr(0, w.mimg.size() - 1);
                sim::InBuf b(std::move(cut), {});
                std::istream is(&b);
                m->read(is);
            });
            must("releasing", [&] { m.reset(); });
            return o;
        }
        default: return sim::attempt(op, [&] { (void)w.broken->root(0)->value(); });
        }
    }
    if (k == "pool") {
        raised = 1;
        switch (op.arg(1)) {
        case 0: return sim::attempt(op, [&] { w.full->emplace(op.arg(2) > 0 ? "one_name_too_many" + std::string((size_t)op.arg(2), '+') : "one_name_too_many"); });
        case 1: return sim::attempt(op, [&] { simfil::Environment e(std::shared_ptr<simfil::StringPool>{}); });
        default: {
            auto n = std::make_shared<simfil::StringPool>();
            auto o = sim::attempt(op, [&] { load(*n, w.pimg.substr(0, w.pimg.size() - 2)); });
            must("releasing", [&] { n.reset(); });
            return o;
        }
        }
    }
    if (k == "burst") {
        // many errors in a row: all alike, all different, or in groups
        raised = (int)op.arg(1);
        return sim::attempt(op, [&] {
            for (int i = 0; i < raised; ++i) {
                text = "burst " + std::to_string(op.arg(2) == 0 ? 0 : op.arg(2) == 1 ? i : i / 8);
                if (i + 1 == raised) simfil::raise<std::runtime_error>(text);
                try { simfil::raise<std::runtime_error>(text); } catch (std::runtime_error&) {}
            }
        });
    }
    if (k == "arena") {
        raised = 1;
        simfil::ArrayArena<int, 8> a;
        auto o = sim::attempt(op, [&] {
            auto i = a.new_array(3);
            for (int j = 0; j < op.arg(1); ++j) a.push_back(i, j);
            (void)a.at(i, (size_t)op.arg(1));
        });
        must("releasing", [&] { a.clear(); a.shrink_to_fit(); });
        return o;
    }
    simfil::ExprPtr e;
    std::vector<simfil::Value> vals;
    auto o = sim::attempt(op, [&] {
        e = simfil::compile(w.env, text_of(op), false);
        vals = simfil::eval(w.env, *e, *w.model->root(0));
    });
    must("releasing", [&] { e.reset(); vals.clear(); vals.shrink_to_fit(); });
    return o;
}

static bool library_error(const std::string& type)
{
    return type == typeid(std::runtime_error).name() || type == typeid(std::overflow_error).name() || type == typeid(std::out_of_range).name() || type == typeid(simfil::InvalidOperandsError).name();
}

struct Done { sim::Outcome o; std::vector<Report> r; };

static Done once(World& w, const Op& op)
{
    int self = sim_self(), raised;
    const std::string* msg;
    reports[self].clear();
    Done d;
    d.o = perform(w, op, raised, msg);
    d.r = reports[self];
    reports[self].clear();
    auto& k = op.kind;
    if (raised >= 0 && !d.o.oom) SIM_CHECK(!d.o.ok, "error-lost", "%s %d succeeds", k.c_str(), (int)op.arg(1));
    if (k == "raise" && msg && !d.o.oom) SIM_CHECK(d.o.what == *msg, "report", "an error is thrown with the text '%s' instead of '%s'", d.o.what.c_str(), msg->c_str());
    return d;
}

static void verify(const Op& op, const Done& d, int handler, int self, int raised)
{
    std::string name = op.kind == "query" ? text_of(op) : op.kind + " " + std::to_string(op.arg(1));
    std::vector<Report> r;
    size_t nested = 0;
    for (auto& x : d.r) {
        SIM_CHECK(x.handler == handler, "report", "'%s' calls handler %d, handler %d is installed", name.c_str(), x.handler, handler);
        SIM_CHECK(x.thread == self, "report", "an error of thread %d is reported by thread %d", self, x.thread);
        if (x.what == "nested") ++nested; else r.push_back(x);
    }
    if (!handler) { SIM_CHECK(d.r.empty(), "report", "a handler that was removed is called"); return; }
    if (handler == 3 && !op.oom) SIM_CHECK(nested == 3 * r.size(), "report", "%zu of %zu errors raised by a handler are reported", nested, 3 * r.size());
    if (op.oom) {
        // a failed allocation replaces the error (or hits the handler); errors that do arrive were reported
        if (!d.o.ok && !d.o.oom && !d.o.custom && library_error(d.o.type)) {
            SIM_CHECK(!r.empty(), "report", "'%s' fails with '%s', which was not reported", name.c_str(), d.o.what.c_str());
            SIM_CHECK(r.back().what == d.o.what && r.back().type == d.o.type, "report", "'%s' fails with '%s', reported was '%s'", name.c_str(), d.o.what.c_str(), r.back().what.c_str());
        }
        return;
    }
    if (raised >= 0) SIM_CHECK((int)r.size() == raised, "report", "'%s' calls the handler %zu times for %d errors", name.c_str(), r.size(), raised);
    if (op.kind == "burst")
        for (int i = 0; i < raised; ++i) {
            auto want = "burst " + std::to_string(op.arg(2) == 0 ? 0 : op.arg(2) == 1 ? i : i / 8);
            SIM_CHECK(r[(size_t)i].what == want, "report", "error %d of a burst is reported as '%s' instead of '%s'", i, r[(size_t)i].what.c_str(), want.c_str());
        }
    if (d.o.custom && op.kind == "raise") {
        SIM_CHECK(r.back().what.empty() && r.back().type == typeid(Silent).name(), "report", "an error without text is reported as %s '%s'", r.back().type.c_str(), r.back().what.c_str());
        return;
    }
    if (!d.o.ok && library_error(d.o.type)) {
        SIM_CHECK(!r.empty(), "report", "'%s' fails with '%s', which was not reported", name.c_str(), d.o.what.c_str());
        SIM_CHECK(r.back().what == d.o.what && r.back().type == d.o.type, "report", "'%s' fails with %s '%s', reported was %s '%s'", name.c_str(), d.o.type.c_str(), d.o.what.c_str(), r.back().type.c_str(), r.back().what.c_str());
    }
}
static int must_raise(const Op& op)
{
    if (op.kind == "query") return -1;
    if (op.kind == "model" && op.arg(1) == 4) return 2;
    if (op.kind == "burst") return (int)op.arg(1);
    return 1;
}

static std::string seq(const Done& d)
{
    std::string s = d.o.ok ? "ok" : d.o.type + " " + d.o.what;
    for (auto& x : d.r)
        if (x.what != "nested") s += " [" + x.type + " " + x.what + "]";
    return s;
}

static void run(const Plan& p)
{
    std::vector<std::vector<Report>> rep(SIM_MAXT);
    reports = rep.data();
    std::vector<std::vector<Done>> alone(p.th.size()), got(p.th.size());
    auto install = [&](int h) {
        must("installing a handler", [&] {
            if (h) simfil::ThrowHandler::instance().set([h](const std::string& t, const std::string& m) { report(h, t, m); });
            else simfil::ThrowHandler::instance().set({});
        });
    };
    int rounds = (int)p.get("rounds");
    auto handler_of = [&](int r) { return (int)p.get(("handler" + std::to_string(r)).c_str()); };
    auto reference = [&] {
        for (int r = 0; r < rounds; ++r) {
            World w(p);
            install(handler_of(r));
            for (size_t t = 0; t < p.th.size(); ++t)
                for (auto& op : p.th[t])
                    if (op.arg(0) == r) alone[t].push_back(once(w, op));
        }
    };
    if (!p.get("late")) reference();
    {
        World w(p);
        for (int r = 0; r < rounds; ++r) {
            int h = handler_of(r);
            // threads may raise the first error of the process before any handler was ever set
            if (h || r || !p.get("late")) install(h);
            sim::run_threads((int)p.th.size(), [&](int t) {
                for (auto& op : p.th[t])
                    if (op.arg(0) == r) {
                        got[t].push_back(once(w, op));
                        verify(op, got[t].back(), h, sim_self(), must_raise(op));
                        SIM_CHECK(sim_locks_held() == 0, "lock-leak", "a lock is held after an error");
                    }
            });
            for (auto& x : rep) SIM_CHECK(x.empty(), "report", "a report is left over");
        }
    }
    if (p.get("late")) reference();
    for (size_t t = 0; t < p.th.size(); ++t) {
        size_t i = 0;
        for (int r = 0; r < rounds; ++r)
            for (auto& op : p.th[t])
                if (op.arg(0) == r) {
                    auto &a = alone[t][i], &g = got[t][i];
                    ++i;
                    sim_log("thread %zu %s: %.300s", t, op.kind == "query" ? text_of(op).c_str() : op.kind.c_str(), seq(g).c_str());
                    if (!op.oom) SIM_CHECK(seq(a) == seq(g), "result", "'%s' gives %.600s, alone it gives %.600s", op.kind == "query" ? text_of(op).c_str() : op.kind.c_str(), seq(g).c_str(), seq(a).c_str());
                }
    }
    install(0);
}

const sim::Scenario sim::scenario{"C16", gen, run, 60000000, 512ull << 20};
