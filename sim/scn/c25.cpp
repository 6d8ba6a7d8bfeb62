// C25: code that the library calls may itself use the library.
#include "queries.h"
#include "simfil/model/json.h"
using namespace pm;
using sim::must;

enum { Eval, Stop, Throw, Compile, Print, Intern, Walk, Image, Raise, Full, Damaged, Build, Load, Warn, Convert, Oom, Same, ACTS };
static const char* act_names[] = {"eval", "stop", "throw", "compile", "print", "intern", "walk", "image", "raise", "full", "damaged", "build", "load", "warn", "convert", "oom", "same"};
static int act_of(const std::string& k)
{
    for (int i = 0; i < ACTS; ++i) if (k == act_names[i]) return i;
    return 0;
}

static void gen(Rng& r, Plan& p, int thorough)
{
    p.par["base"] = gen_base(r);
    p.par["doc"] = (int64_t)r.below(1000000);
    p.par["docsize"] = r.logrange(2, thorough ? 30 : 14);
    p.par["late"] = r.chance(1, 2);
    p.par["handler"] = r.chance(2, 3);
    p.par["debug"] = r.chance(1, 3);
    int nq = (int)r.range(1, thorough ? 6 : 4), nt = (int)r.range(1, 3);
    for (int i = 0; i < nq; ++i) {
        auto n = std::to_string(i);
        p.par["q" + n] = (int64_t)r.below(100000000);
        p.par["qd" + n] = r.range(1, 4);
        p.par["qm" + n] = r.chance(1, 8) ? r.range(1, 1000) : 0;
        p.par["qw" + n] = r.chance(1, 2) ? r.range(1, 12) : 0;
    }
    p.par["queries"] = nq;
    p.th.resize(nt);
    for (int t = 0; t < nt; ++t) {
        int n = (int)r.range(1, thorough ? 14 : 8);
        for (int i = 0; i < n; ++i) {
            Op o;
            o.kind = act_names[r.chance(2, 3) ? r.range(Eval, Compile) : r.below(Oom)];
            o.a = {(int64_t)r.below(1000), (int64_t)r.below(1000)};
            // what is done when the library calls back: the n-th call, what, on what
            int m = (int)r.logrange(1, 7);
            for (int j = 0; j < m; ++j) {
                o.a.push_back(r.logrange(1, r.chance(1, 2) ? 12 : 300));
                o.a.push_back((int64_t)r.below(ACTS));
                o.a.push_back((int64_t)r.below(1000));
                o.a.push_back((int64_t)r.below(1000));
            }
            p.th[t].push_back(o);
        }
    }
}

// Queries in which user code runs in the middle of something.
static std::string text_of(const Plan& p, const std::string& n)
{
    int depth = (int)p.get(("qd" + n).c_str());
    int64_t seed = p.get(("q" + n).c_str());
    auto q = [&](int64_t k, int d) { return gen_query(seed + k, std::min(depth, d), true, true); };
    switch (p.get(("qw" + n).c_str())) {
    case 1: return "any(mark(" + q(0, 3) + "), mark(" + q(1, 2) + "))";
    case 2: return "each(mark(" + q(0, 3) + "), mark(" + q(1, 2) + "))";
    case 3: return "count(mark(" + q(0, 3) + "), mark(" + q(1, 2) + "))";
    case 4: return "sum(mark(" + q(0, 2) + "), $sum + mark($val as int))";
    case 5: return "mark(range(" + std::to_string(seed % 5 - 2) + ", mark(" + std::to_string(seed % 7 - 2) + "))...)";
    case 6: return "mark(split(mark('a,b,,c'), mark(',')))";
    case 7: return "mark(keys(mark(" + q(0, 3) + ")))";
    case 8: return "mark(select(mark(" + q(0, 3) + "), mark(" + std::to_string(seed % 3) + "), 2))";
    case 9: return "trace(mark(" + q(0, 3) + "), 3, 't')";
    case 10: return "mark(**{mark(" + q(0, 1) + ")})";
    case 11: return "arr(mark(*), mark(" + q(0, 2) + ") as string, box(mark(" + std::to_string(seed % 4) + "))...)";
    case 12: return "mark('alpha' == re(mark('[a-h].*'))) and (mark(" + q(0, 2) + ") or mark(" + q(1, 2) + "))";
    default: return damaged(q(0, 9), p.get(("qm" + n).c_str()));
    }
}

struct Said { std::string key, got, where; };
struct World
{
    const Plan& p;
    std::shared_ptr<simfil::StringPool> pool = std::make_shared<simfil::StringPool>(), full = std::make_shared<simfil::StringPool>();
    UserFns fns;
    simfil::Environment env{pool};
    simfil::Debug debug;
    std::shared_ptr<simfil::ModelPool> model = std::make_shared<ProcModel>(pool);
    std::vector<simfil::ExprPtr> q;
    std::vector<std::string> text;
    std::string img, walk;
    explicit World(const Plan& p) : p(p)
    {
        lift(*pool, p.get("base"));
        lift(*full, 65534);
        fns.install(env);
        Doc d = gen_doc(p.get("doc"), p.get("docsize"), true);
        must("building", [&] { model->addRoot(Builder(*model, 5).build(d)); });
        for (int i = 0; i < (int)p.get("queries"); ++i) {
            auto n = std::to_string(i);
            text.push_back(text_of(p, n));
            simfil::ExprPtr e;
            (void)sim::attempt([&] { e = simfil::compile(env, text[(size_t)i], false); });
            q.push_back(std::move(e));
        }
        img = model_image(*model);
        walk = join(render_roots(*model));
    }
    size_t index(int64_t x) const { return (size_t)x % q.size(); }
};

// what a thread is doing
struct Mine
{
    World* w = nullptr;
    const Op* op = nullptr;
    int64_t calls = 0;
    int depth = 0, off = 1, t = 0;
    int64_t query = 0;          // of the outermost operation
    std::vector<Said> said;
    std::vector<std::string> warned;
    std::map<std::string, int> handled;     // by the error handler
    int raised = 0;
    std::string where;
};
static Mine mine[SIM_MAXT];
struct Off { int& n; explicit Off(int& n) : n(n) { ++n; } ~Off() { --n; } };

static std::string low(std::string s) { return lower(std::move(s)); }

static void act(Mine& m, int what, int64_t x, int64_t y);

// The library calls code of the user.
static void called(const char* where)
{
    auto& m = mine[sim_self()];
    if (m.off || !m.op || m.depth >= 3) return;
    int64_t at = ++m.calls;
    for (size_t i = 2; i + 3 < m.op->a.size(); i += 4) {
        if (m.op->a[i] != at) continue;
        std::string outer;
        {
            sim::Quiet q;
            outer = m.where;
            m.where = outer + " > " + act_names[(size_t)m.op->a[i + 1] % ACTS] + " in " + where;
            sim_count("nested", 1);
            sim_count((std::string("nested.in.") + where).c_str(), 1);
            sim_event((uint64_t)m.op->a[i + 1] * 8 + (uint64_t)m.depth);
        }
        ++m.depth;
        act(m, (int)(m.op->a[i + 1] % ACTS), m.op->a[i + 2], m.op->a[i + 3]);
        --m.depth;
        sim::Quiet q;
        m.where = outer;
    }
}
static void on_function(const std::string&, simfil::Context&) { called("function"); }
static void on_begin(const simfil::Expr&, simfil::Context&, simfil::Value&, const simfil::ResultFn&) { called("debugger"); }
static void on_end(const simfil::Expr&) { called("debugger"); }

static void say(Mine& m, std::string key, std::string got)
{
    sim::Quiet q;
    sim_log("%s: %.300s", m.where.c_str(), got.c_str());
    sim_event(sim::hash_str(got));
    m.said.push_back({std::move(key), low(std::move(got)), m.where});
}

// mode 0: to the end, 1: the consumer stops at its k-th result, 2: it throws there
static std::string consume(Mine& m, const simfil::Expr& e, int mode, size_t k, int64_t oom = 0, bool* failed = nullptr)
{
    auto& w = *m.w;
    std::vector<std::string> got;
    simfil::Result res = simfil::Result::Continue;
    bool stopped = false;
    auto o = sim::attempt(oom, 0, [&] {
        simfil::Context ctx(&w.env);
        auto root = w.model->root(0);
        res = e.eval(ctx, simfil::Value::field(*root), simfil::LambdaResultFn([&](simfil::Context, simfil::Value v) {
            {
                sim::Quiet q;
                Off off(m.off);
                if (stopped) sim_violation("stop", "%s: the consumer is called after it stopped", m.where.c_str());
                got.push_back(render_value(v, *w.model));
                if (mode && got.size() == k) {
                    stopped = true;
                    if (mode == 2) throw sim::Injected{3};
                    return simfil::Result::Stop;
                }
            }
            called("consumer");
            return simfil::Result::Continue;
        }));
    });
    if (failed) *failed = o.oom || o.fired;
    sim::Quiet q;
    std::string s = join(got);
    if (!o.ok) s += "!" + o.type + ": " + o.what;
    if (res == simfil::Result::Stop) s += "stopped";
    return s;
}

// A device that is read byte by byte and calls back on each.
struct CallingBuf : std::streambuf
{
    std::string d;
    size_t at = 0, step;
    CallingBuf(std::string s, size_t step) : d(std::move(s)), step(step ? step : 1) {}
    int_type underflow() override
    {
        called("device");
        if (at >= d.size()) return traits_type::eof();
        size_t n = std::min(step, d.size() - at);
        setg(d.data() + at, d.data() + at, d.data() + at + n);
        at += n;
        return traits_type::to_int_type(*gptr());
    }
};
struct CallingOut : std::streambuf
{
    std::string d;
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
        called("device");
        sim::Quiet q;
        d.append(s, (size_t)n);
        return n;
    }
    int_type overflow(int_type c) override
    {
        called("device");
        sim::Quiet q;
        if (!traits_type::eq_int_type(c, traits_type::eof())) d.push_back((char)c);
        return traits_type::not_eof(c);
    }
};

static std::string key_of(const char* k, size_t i, size_t n = 0) { return std::string(k) + " " + std::to_string(i) + " " + std::to_string(n); }

static void act(Mine& m, int what, int64_t x, int64_t y)
{
    auto& w = *m.w;
    size_t i = w.index(x);
    if (m.depth == 0) m.query = x;
    switch (what) {
    case Same:
        i = w.index(m.query);
        [[fallthrough]];
    case Eval:
        if (!w.q[i]) return;
        say(m, key_of("eval", i), consume(m, *w.q[i], 0, 0));
        return;
    case Stop: case Throw: {
        if (!w.q[i]) return;
        size_t k = (size_t)y % 8 + 1;
        say(m, key_of(what == Stop ? "stop" : "throw", i, k), consume(m, *w.q[i], what == Stop ? 1 : 2, k));
        return;
    }
    case Oom: {
        if (!w.q[i]) return;
        bool failed = false;
        std::string s = consume(m, *w.q[i], 0, 0, 1 + y % 60, &failed);
        if (!failed) say(m, key_of("eval", i), s);
        return;
    }
    case Compile: {
        simfil::ExprPtr e;
        auto o = sim::attempt([&] { e = simfil::compile(w.env, w.text[i], false); });
        say(m, key_of("compile", i), o.ok ? "ok" : o.what);
        if (e) say(m, key_of("eval", i), consume(m, *e, 0, 0));
        must("releasing", [&] { e.reset(); });
        return;
    }
    case Print: {
        if (!w.q[i]) return;
        std::string s;
        Off off(m.off);
        must("printing", [&] { std::string u = w.q[i]->toString(); sim::Quiet q; s = u; });
        say(m, key_of("print", i), s);
        return;
    }
    case Intern: {
        std::string n = y % 2 ? "new_" + std::to_string(x) : key(x % 36);
        must("interning a name", [&] {
            auto id = w.pool->emplace(n);
            auto back = w.pool->resolve(id);
            SIM_CHECK(back && low(std::string(*back)) == low(n) && w.pool->get(n) == id, "content", "%s: name %s reads differently after it was interned", m.where.c_str(), n.c_str());
        });
        return;
    }
    case Walk: {
        std::string s;
        Off off(m.off);
        must("walking", [&] {
            auto r = w.model->root(0);
            std::string u = render(r, *w.model);
            sim::Quiet q;
            s = u;
        });
        SIM_CHECK(s + " | " == w.walk, "content", "%s: the model reads %.300s instead of %.300s", m.where.c_str(), s.c_str(), w.walk.c_str());
        return;
    }
    case Image: {
        CallingOut b;
        must("writing", [&] {
            std::ostream os(&b);
            w.model->write(os);
        });
        SIM_CHECK(b.d == w.img, "content", "%s: the image of the model changed", m.where.c_str());
        return;
    }
    case Raise: {
        std::string text = "raised " + std::to_string(m.raised++);
        auto o = sim::attempt([&] { simfil::raise<std::out_of_range>(text); });
        SIM_CHECK(!o.ok && o.type == typeid(std::out_of_range).name() && o.what == text, "error-lost", "%s: error '%s' becomes '%s' (%s)", m.where.c_str(), text.c_str(), o.what.c_str(), o.type.c_str());
        if (w.p.get("handler")) SIM_CHECK(m.handled[text] == 1, "report", "%s: error '%s' was reported %d times", m.where.c_str(), text.c_str(), m.handled[text]);
        return;
    }
    case Full: {
        // a pool without any id left; from the handler it is asked what it has
        auto o = sim::attempt([&] { w.full->emplace("one_more"); });
        SIM_CHECK(!o.ok, "error-lost", "%s: a name was added to a full string pool", m.where.c_str());
        must("asking a full pool", [&] {
            SIM_CHECK(w.full->highest() == 65534 && w.full->get("one_more") == 0 && w.full->resolve(65534), "content", "%s: a failed insertion changed the pool", m.where.c_str());
        });
        return;
    }
    case Damaged: {
        static const std::string junk("\x02\x00\x81\x00\x03" "ab", 7);
        auto o = sim::attempt([&] {
            sim::InBuf b(junk, {});
            std::istream is(&b);
            w.full->read(is);
        });
        SIM_CHECK(!o.ok, "error-lost", "%s: an incomplete image was read without an error", m.where.c_str());
        return;
    }
    case Build: case Load: {
        Doc d = gen_doc(x, y % 12 + 1, true);
        std::shared_ptr<simfil::ModelPool> n;
        must("a model", [&] { n = std::make_shared<simfil::ModelPool>(w.pool); });
        if (what == Build) must("building", [&] { n->addRoot(Builder(*n, (uint64_t)x).build(d)); });
        else {
            std::string t;
            json(d, t);
            CallingBuf b(t, (size_t)y % 40);
            must("loading", [&] {
                std::istream is(&b);
                simfil::json::parse(is, n);
            });
            d = sorted(d);
        }
        Off off(m.off);
        auto s = low(join(render_roots(*n)));
        SIM_CHECK(s == low(render(d) + " | "), "content", "%s: a new model reads %.300s instead of %.300s", m.where.c_str(), s.c_str(), render(d).c_str());
        if (y % 3 == 0) {
            must("moving to another pool", [&] { n->setStrings(std::make_shared<simfil::StringPool>()); });
            s = low(join(render_roots(*n)));
            SIM_CHECK(s == low(render(d) + " | "), "content", "%s: moved to another pool, a model reads %.300s instead of %.300s", m.where.c_str(), s.c_str(), render(d).c_str());
        }
        must("releasing", [&] { n.reset(); });
        return;
    }
    case Warn: {
        std::string s = "inner " + std::to_string(m.t) + " " + std::to_string(m.warned.size());
        must("warning", [&] { w.env.warn(s, "d"); });
        sim::Quiet q;
        m.warned.push_back(s);
        return;
    }
    case Convert: {
        // everything a result can be asked for
        if (!w.q[i]) return;
        std::string s;
        auto o = sim::attempt([&] {
            auto root = w.model->root(0);
            auto v = simfil::eval(w.env, *w.q[i], *root);
            std::string u;
            for (auto& r : v) {
                if (r.node) (void)r.node->size();
                u += r.toString() + "|";
            }
            sim::Quiet q;
            s = u;
        });
        say(m, key_of("convert", i), o.ok ? s : "!" + o.what);
        return;
    }
    }
}

// what an operation gives in a world where nothing calls back
static std::string reference(World& w, const std::string& key)
{
    char k[20];
    size_t i = 0, n = 0;
    if (sscanf(key.c_str(), "%19s %zu %zu", k, &i, &n) != 3) sim_violation("harness", "key %s", key.c_str());
    Mine m;
    m.w = &w;
    m.where = "reference";
    std::string kind = k;
    int what = act_of(kind);
    if (what == Eval || what == Stop || what == Throw) return low(consume(m, *w.q[i], what == Eval ? 0 : what == Stop ? 1 : 2, n));
    Op op{kind, {(int64_t)i, 0}};
    act(m, what, (int64_t)i, 0);
    for (auto& s : m.said) if (s.key == key) return s.got;
    sim_violation("harness", "no answer for %s", key.c_str());
    return {};
}

static void run(const Plan& p)
{
    on_user_call = on_function;
    on_burn = called;
    std::map<std::string, std::string> before, ref;
    for (auto& m : mine) m = Mine{};
    World w(p);
    for (size_t i = 0; i < w.text.size(); ++i) sim_log("query %zu: %s", i, w.text[i].c_str());
    auto all = [&](World& u, std::map<std::string, std::string>& to) {
        for (size_t i = 0; i < u.text.size(); ++i) {
            to[key_of("compile", i)] = reference(u, key_of("compile", i));
            if (u.q[i]) to[key_of("eval", i)] = reference(u, key_of("eval", i)), to[key_of("convert", i)] = reference(u, key_of("convert", i)), to[key_of("print", i)] = reference(u, key_of("print", i));
        }
    };
    if (!p.get("late")) all(w, before);
    if (p.get("handler")) simfil::ThrowHandler::instance().set([](const std::string&, const std::string& what) {
        auto& m = mine[sim_self()];
        { sim::Quiet q; ++m.handled[what]; }
        called("handler");
        if (!m.off && m.w) must("asking from the handler", [&] { (void)m.w->full->size(); (void)m.w->full->get("one_more"); (void)m.w->pool->highest(); (void)m.w->model->root(0); });
    });
    w.debug.evalBegin = on_begin;
    w.debug.evalEnd = on_end;
    if (p.get("debug")) w.env.debug = &w.debug;
    sim::run_threads((int)p.th.size(), [&](int t) {
        auto& m = mine[sim_self()];
        m = Mine{};
        m.w = &w;
        m.t = t;
        for (auto& op : p.th[t]) {
            m.op = &op;
            m.calls = 0;
            m.depth = 0;
            m.where = op.kind;
            m.off = 0;
            act(m, act_of(op.kind), op.arg(0), op.arg(1));
            m.off = 1;
            SIM_CHECK(sim_locks_held() == 0, "lock-leak", "a lock is held after %s", op.kind.c_str());
            sim_count("calls.back", (uint64_t)m.calls);
        }
    });
    simfil::ThrowHandler::instance().set({});
    w.env.debug = nullptr;
    World other(p);
    std::map<std::string, int> warned;
    for (auto& [a, b] : w.env.warnings) ++warned[a];
    for (auto& m : mine) {
        if (!m.w) continue;
        m.off = 1;
        for (auto& s : m.warned) SIM_CHECK(warned[s] == 1, "warning", "a warning given while the library was calling back is there %d times", warned[s]);
        for (auto& s : m.said) {
            auto it = before.find(s.key);
            const std::string* want = it != before.end() ? &it->second : nullptr;
            if (!want) {
                auto r = ref.find(s.key);
                if (r == ref.end()) r = ref.emplace(s.key, reference(other, s.key)).first;
                want = &r->second;
            }
            SIM_CHECK(s.got == *want, "result", "%s: %s gives %.400s, with no calls back it gives %.400s", s.where.c_str(), s.key.c_str(), s.got.c_str(), want->c_str());
        }
    }
    // and afterwards
    std::map<std::string, std::string> after;
    all(w, after);
    if (before.empty()) all(other, before);
    for (auto& [k, v] : after) SIM_CHECK(v == before[k], "result", "afterwards %s gives %.400s instead of %.400s", k.c_str(), v.c_str(), before[k].c_str());
    must("releasing", [&] { w.q.clear(); other.q.clear(); });
}

const sim::Scenario sim::scenario{"C25", gen, run, 100000000, 512ull << 20};
