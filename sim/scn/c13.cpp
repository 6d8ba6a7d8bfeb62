// C13: trace and warning accounting is exact under concurrency.
#include "queries.h"
#include <set>
using namespace pm;
using sim::must;

constexpr int NAMES = 4;      // names 0..2 are given, name 3 is the automatic one
static const char* auto_text = "(watch (emit 2) 3)";

static void gen(Rng& r, Plan& p, int thorough)
{
    p.par["base"] = gen_base(r);
    int nt = (int)r.range(2, thorough ? 6 : 4);
    for (int i = 0; i < 3; ++i) p.par["limit" + std::to_string(i)] = r.chance(1, 2) ? -1 : r.range(0, 9);
    p.par["doc"] = (int64_t)r.below(100000);
    p.th.resize(nt);
    for (int t = 0; t < nt; ++t) {
        int n = (int)r.range(1, thorough ? 14 : 8);
        for (int i = 0; i < n; ++i) {
            int k = (int)r.below(12);
            Op o;
            if (k < 7) {
                o = Op{"eval", {(int64_t)r.below(9), (int64_t)r.below(3), (int64_t)r.below(3), (int64_t)r.below(5), (int64_t)r.below(1000), 0}};
                if (r.chance(1, 8)) o.oom = r.logrange(1, 120), o.oomp = r.chance(1, 4);
                else if (r.chance(1, 8)) o.a[5] = r.range(1, 6);    // user code throws
            } else if (k < 9) {
                o = Op{"warn", {(int64_t)r.below(r.chance(1, 10) ? 8 : 5), r.logrange(1, 5000)}};
                if (r.chance(1, 8)) o.oom = r.range(1, 3);
            } else if (k < 11) o = Op{"read", {(int64_t)r.below(NAMES)}};
            else o = Op{r.chance(1, 2) ? "readwarn" : "jump", {r.range(-5000, 5000)}};
            p.th[t].push_back(o);
        }
    }
}

struct Call { std::vector<std::string> values; bool done = false, ok = false; int64_t us = 0; };
struct Log
{
    std::vector<Call> calls[NAMES];
};
static std::vector<Log>* logs;
static std::vector<std::vector<std::string>>* emitted;   // storage behind string references, per thread
static thread_local int self;
static thread_local Rng* spend;

static void pass_time()
{
    sim::Quiet q;
    if (spend) sim_advance(spend->below(3) ? spend->below(4000) : spend->below(40) ? spend->below(3000000) : spend->below(10) ? spend->below(10000000000) : spend->below(20000000000000));
}

// emit(k): k distinct strings, given as references to memory that changes afterwards
class EmitFn : public simfil::Function
{
public:
    simfil::FnInfo info{"emit", "", ""};
    const simfil::FnInfo& ident() const override { return info; }
    simfil::Result eval(simfil::Context ctx, simfil::Value val, const std::vector<simfil::ExprPtr>& args, const simfil::ResultFn& res) const override
    {
        if (ctx.phase == simfil::Context::Phase::Compilation) return res(ctx, simfil::Value::undef());
        int64_t n = std::get<1>(simfil::util::evalArg1<int64_t>(ctx, val, args[0]));
        for (int64_t i = 0; i < n; ++i) {
            pass_time();
            burn("emit");
            char buf[64];
            static thread_local int serial = 0;
            {
                sim::Quiet q;
                snprintf(buf, sizeof buf, "value %d of thread %d%s", serial++, self, serial % 3 ? "" : ", and some more text");
            }
            auto r = res(ctx, simfil::Value::strref(std::string_view(buf)));
            {
                sim::Quiet q;
                memset(buf, '#', sizeof buf);
            }
            if (r == simfil::Result::Stop) return r;
        }
        pass_time();
        return simfil::Result::Continue;
    }
};
// watch(expr, i): evaluates expr and notes what happened under name i
class WatchFn : public simfil::Function
{
public:
    simfil::FnInfo info{"watch", "", ""};
    const simfil::FnInfo& ident() const override { return info; }
    simfil::Result eval(simfil::Context ctx, simfil::Value val, const std::vector<simfil::ExprPtr>& args, const simfil::ResultFn& res) const override
    {
        if (ctx.phase == simfil::Context::Phase::Compilation) return res(ctx, simfil::Value::undef());
        int64_t idx = std::get<1>(simfil::util::evalArg1<int64_t>(ctx, val, args[1]));
        size_t at;
        uint64_t start;
        {
            sim::Quiet q;
            auto& v = (*logs)[self].calls[idx];
            at = v.size();
            v.emplace_back();
            start = sim_time();
        }
        auto r = args[0]->eval(ctx, val, simfil::LambdaResultFn([&](simfil::Context c, simfil::Value v) {
            {
                sim::Quiet q;
                std::string s;
                if (auto sv = v.stringViewValue()) s = std::string(*sv);
                else if (v.isa(simfil::ValueType::String)) s = std::get<std::string>(v.value);
                else s = v.toString();
                (*logs)[self].calls[idx][at].values.push_back(s);
            }
            return res(std::move(c), std::move(v));
        }));
        {
            sim::Quiet q;
            auto& c = (*logs)[self].calls[idx][at];
            c.done = true;
            c.us = (int64_t)((sim_time() - start) / 1000);
        }
        return r;
    }
};
// slow(expr): takes time for each result it passes on
class SlowFn : public simfil::Function
{
public:
    simfil::FnInfo info{"slow", "", ""};
    const simfil::FnInfo& ident() const override { return info; }
    simfil::Result eval(simfil::Context ctx, simfil::Value val, const std::vector<simfil::ExprPtr>& args, const simfil::ResultFn& res) const override
    {
        return args[0]->eval(ctx, val, simfil::LambdaResultFn([&](simfil::Context c, simfil::Value v) {
            if (c.phase != simfil::Context::Phase::Compilation) { pass_time(); burn("slow"); }
            return res(std::move(c), std::move(v));
        }));
    }
};

static std::string query(const Plan& p, const Op& op)
{
    auto tr = [&](int64_t n, const std::string& e) {
        n %= 3;
        return "trace(watch(" + e + ", " + std::to_string(n) + "), " + std::to_string(p.get(("limit" + std::to_string(n)).c_str())) + ", 'name" + std::to_string(n) + "')";
    };
    std::string emit = "emit(" + std::to_string(op.arg(3)) + ")";
    int64_t a = op.arg(1), b = op.arg(2) == op.arg(1) ? op.arg(1) + 1 : op.arg(2);
    switch (op.arg(0)) {
    case 0: return tr(a, emit);
    case 1: return "any(" + tr(a, emit) + ")";
    case 2: return "arr(" + tr(a, emit) + ", slow(" + tr(b, "emit(1)") + "))";
    case 3: return tr(a, tr(b, "slow(" + emit + ")"));
    case 4: return "trace(watch(emit(2), 3))";
    case 5: return "count(**.{" + tr(a, emit) + "})";
    case 6: return "select(" + tr(a, "emit(4)") + ", 1, 1)";
    case 7: return "sum(slow(" + tr(a, emit) + "), $sum + #$val, 0)";
    default: return tr(a, "arr(" + emit + ", 3, " + tr(b, "emit(1)") + ")");
    }
}

static bool anon(const std::string& s) { return s.rfind("value ", 0) != 0; }
static std::string text(const simfil::Value& v)
{
    if (auto s = std::get_if<std::string>(&v.value)) return *s;
    if (std::get_if<std::string_view>(&v.value)) sim_violation("lifetime", "a recorded value refers to memory of its producer");
    return v.toString();
}

// Do the recorded values consist of whole calls, each in order, the last one possibly cut at the limit?
static void check_values(const simfil::Trace& t, int64_t limit, const std::map<std::string, std::pair<const Call*, size_t>>& where, const std::string& name)
{
    SIM_CHECK(limit < 0 || (int64_t)t.values.size() <= limit, "trace", "trace '%s' holds %zu values, its limit is %d", name.c_str(), t.values.size(), (int)limit);
    std::set<std::string> seen;
    const Call* cur = nullptr;
    size_t next = 0;
    for (size_t i = 0; i < t.values.size(); ++i) {
        std::string s = text(t.values[i]);
        if (anon(s)) continue;
        SIM_CHECK(seen.insert(s).second, "trace", "trace '%s' holds '%s' twice", name.c_str(), s.c_str());
        auto it = where.find(s);
        SIM_CHECK(it != where.end(), "trace", "trace '%s' holds '%s', which the expression did not produce", name.c_str(), s.c_str());
        auto [c, k] = it->second;
        auto gap = [&](const Call* x, size_t from, size_t to) {
            for (; from < to; ++from)
                if (!anon(x->values[from])) return true;
            return false;
        };
        if (c != cur) {
            SIM_CHECK(!cur || !gap(cur, next, cur->values.size()), "trace", "trace '%s' misses '%s' between others", name.c_str(), cur->values[next].c_str());
            SIM_CHECK(!gap(c, 0, k), "trace", "trace '%s' starts with value %zu of a call", name.c_str(), k);
            cur = c;
        } else
            SIM_CHECK(next <= k && !gap(c, next, k), "trace", "trace '%s' has the values of a call in the wrong order", name.c_str());
        next = k + 1;
    }
}

static void run(const Plan& p)
{
    auto pool = std::make_shared<simfil::StringPool>();
    lift(*pool, p.get("base"));
    simfil::Environment env(pool);
    EmitFn emit;
    WatchFn watch;
    SlowFn slow;
    env.functions["emit"] = &emit;
    env.functions["watch"] = &watch;
    env.functions["slow"] = &slow;
    auto model = std::make_shared<ProcModel>(pool);
    Doc d = gen_doc(p.get("doc"), 6, true);
    must("building", [&] { model->addRoot(Builder(*model, 1).build(d)); });
    std::vector<Log> lg(p.th.size());
    logs = &lg;
    int64_t limit[NAMES];
    std::string name[NAMES];
    for (int i = 0; i < 3; ++i) { limit[i] = p.get(("limit" + std::to_string(i)).c_str()); name[i] = "name" + std::to_string(i); }
    limit[3] = -1;
    name[3] = auto_text;

    std::map<std::string, simfil::ExprPtr> shared;
    for (auto& th : p.th)
        for (auto& op : th)
            if (op.kind == "eval") {
                auto q = query(p, op);
                if (!shared.count(q)) must("compile", [&] { shared[q] = simfil::compile(env, q, false); });
            }
    size_t base = env.warnings.size();
    SIM_CHECK(env.traces.empty(), "trace", "compilation recorded a trace");

    struct Warned { std::vector<std::string> must, may; };
    std::vector<Warned> warned(p.th.size());
    sim::run_threads((int)p.th.size(), [&](int t) {
        self = t;
        size_t calls_seen[NAMES] = {};
        int64_t us_seen[NAMES] = {};
        int wn = 0;
        for (auto& op : p.th[t]) {
            if (op.kind == "eval") {
                Rng sp((uint64_t)op.arg(4) + 77);
                spend = &sp;
                Fuse f;
                f.left = op.arg(5);
                fuse = &f;
                size_t before[NAMES];
                for (int i = 0; i < NAMES; ++i) before[i] = lg[t].calls[i].size();
                auto e = evaluate(env, *shared[query(p, op)], *model->root(0), *model, &op);
                fuse = nullptr;
                spend = nullptr;
                SIM_CHECK(!e.failed || e.fired || f.fired, "unexpected-failure", "evaluation failed: %s", e.error.c_str());
                SIM_CHECK(sim_locks_held() == 0, "lock-leak", "a lock is held after eval()");
                for (int i = 0; i < NAMES; ++i)
                    for (size_t k = before[i]; k < lg[t].calls[i].size(); ++k) {
                        auto& c = lg[t].calls[i][k];
                        c.ok = c.done && !e.failed;
                        if (!c.ok) sim_count("trace.failed_call", 1);
                    }
                sim_event(e.failed ? 1000000 : e.values.size());   // emitted strings live only as long as the call
            } else if (op.kind == "warn") {
                std::string w = "warning " + std::to_string(wn++) + " of thread " + std::to_string(t) + (op.arg(0) == 1 ? " with a longer text" : "");
                std::string det = op.arg(0) == 2 ? "" : "detail of " + w;
                if (op.arg(0) > 2) w = "warning that everybody gives", det = op.arg(0) == 3 ? "" : "and again";
                if (op.arg(0) == 5) w = "", det = op.arg(1) % 2 ? "" : det;
                if (op.arg(0) == 6) w = "warning " + std::string((size_t)op.arg(1), 'w') + "!", det = std::string((size_t)op.arg(1) / 2, 'd') + "\n\xff end";
                int64_t times = op.arg(0) == 7 ? op.arg(1) % 400 : 1;   // a burst
                for (int64_t k = 0; k < times; ++k) {
                    auto o = sim::attempt(op, [&] { env.warn(w, det); });
                    SIM_CHECK(o.ok || o.oom && op.oom, "unexpected-failure", "warn() failed");
                    SIM_CHECK(sim_locks_held() == 0, "lock-leak", "a lock is held after warn()");
                    (o.ok ? warned[t].must : warned[t].may).push_back(w + "|" + det);
                }
            } else if (op.kind == "read") {
                int i = (int)op.arg(0);
                std::string bad;
                must("trace()", [&] {
                    env.trace(name[i], [&](simfil::Trace& tr) {
                        if (tr.calls < calls_seen[i] || tr.totalus.count() < us_seen[i]) bad = "the call count or time of a trace went back";
                        calls_seen[i] = tr.calls;
                        us_seen[i] = tr.totalus.count();
                        if (limit[i] >= 0 && (int64_t)tr.values.size() > limit[i]) bad = "a trace exceeds its limit";
                        std::set<std::string> s;
                        for (auto& v : tr.values) {
                            auto x = text(v);
                            if (anon(x) && x != "3" && x != "null") bad = "a trace holds a mangled value";
                            if (!anon(x) && !s.insert(x).second) bad = "a trace holds a value twice";
                        }
                    });
                });
                SIM_CHECK(bad.empty(), "trace", "%s", bad.c_str());
            } else if (op.kind == "readwarn") {
                std::vector<std::string> ws;
                must("reading warnings", [&] {
                    std::unique_lock<std::mutex> l(*env.warnMtx);
                    for (auto& [w, dt] : env.warnings) ws.push_back(w);
                });
                for (size_t i = base; i < ws.size(); ++i) SIM_CHECK(ws[i].empty() || ws[i].rfind("warning ", 0) == 0, "warnings", "a warning reads '%s'", ws[i].c_str());
            } else
                sim_clock_jump(op.arg(0) * 1000000);
        }
    });
    for (int i = 0; i < NAMES; ++i) {
        size_t sure = 0, maybe = 0, produced = 0;
        int64_t us = 0, us_max = 0;
        std::map<std::string, std::pair<const Call*, size_t>> where;
        for (auto& l : lg)
            for (auto& c : l.calls[i]) {
                for (size_t k = 0; k < c.values.size(); ++k)
                    if (!anon(c.values[k])) where[c.values[k]] = {&c, k};
                if (c.ok) { ++sure; us += c.us; produced += c.values.size(); }
                else ++maybe;
                us_max += c.us;
            }
        auto it = env.traces.find(name[i]);
        if (it == env.traces.end()) { SIM_CHECK(sure == 0, "trace", "trace '%s' is missing", name[i].c_str()); continue; }
        auto& tr = it->second;
        SIM_CHECK(tr.calls >= sure && tr.calls <= sure + maybe, "trace", "trace '%s' counts %zu calls, there were %zu (and %zu failed ones)", name[i].c_str(), tr.calls, sure, maybe);
        SIM_CHECK(tr.totalus.count() >= us && tr.totalus.count() <= us_max, "trace", "trace '%s' has %lld us, it took %lld to %lld", name[i].c_str(), (long long)tr.totalus.count(), (long long)us, (long long)us_max);
        must("reading trace values", [&] {
            sim::Quiet q;
            if (!maybe) check_values(tr, limit[i], where, name[i]);
        });
        size_t want = limit[i] < 0 ? produced : std::min<size_t>(produced, (size_t)limit[i]);
        SIM_CHECK(tr.values.size() >= want || maybe && limit[i] >= 0, "trace", "trace '%s' holds %zu values, %zu were produced", name[i].c_str(), tr.values.size(), produced);
        if (!maybe) SIM_CHECK(tr.values.size() == want, "trace", "trace '%s' holds %zu values instead of %zu", name[i].c_str(), tr.values.size(), want);
        sim_count("trace.calls", sure);
    }
    for (auto& [n, tr] : env.traces) {
        bool own = false;
        for (auto& x : name) own = own || x == n;
        SIM_CHECK(own, "trace", "a trace called '%s' appeared", n.c_str());
    }
    std::multiset<std::string> got, sure, may;
    for (size_t i = base; i < env.warnings.size(); ++i) got.insert(env.warnings[i].first + "|" + env.warnings[i].second);
    for (auto& w : warned) { sure.insert(w.must.begin(), w.must.end()); may.insert(w.may.begin(), w.may.end()); }
    for (auto& w : got) SIM_CHECK(got.count(w) <= sure.count(w) + may.count(w), "warnings", "the warning '%s' was recorded %zu times, given %zu times", w.c_str(), got.count(w), sure.count(w));
    for (auto& w : sure) SIM_CHECK(got.count(w) >= sure.count(w), "warnings", "the warning '%s' was given %zu times, recorded %zu times", w.c_str(), sure.count(w), got.count(w));
    // in the order in which each thread gave them
    for (auto& w : warned) {
        size_t at = base;
        for (auto& x : w.must) {
            while (at < env.warnings.size() && env.warnings[at].first + "|" + env.warnings[at].second != x) ++at;
            SIM_CHECK(at < env.warnings.size(), "warnings", "warnings of one thread are out of order");
            ++at;
        }
    }
    must("releasing", [&] { shared.clear(); });
}

const sim::Scenario sim::scenario{"C13", gen, run, 100000000, 512ull << 20};
