// C09: switching a model to another string pool is all-or-nothing.
#include "docs.h"
using namespace pm;
using sim::must;

static void gen(Rng& r, Plan& p, int thorough)
{
    p.par["watch"] = r.chance(1, 2);   // reads by the harness are watched, too
    for (int i = 0; i < 3; ++i) p.par["base" + std::to_string(i)] = gen_base(r);
    int nm = (int)r.range(1, 2), ni = (int)r.below(3);
    int npools = (int)r.range(2, 4);
    p.par["pools"] = npools;
    p.par["models"] = nm;
    p.th.resize(nm + ni);
    for (int t = 0; t < nm; ++t) {
        int n = (int)r.range(2, thorough ? 16 : 9);
        p.th[t].push_back({"root", {(int64_t)r.below(100000), r.logrange(3, 40)}});
        for (int i = 0; i < n; ++i) {
            if (r.chance(1, 4)) { p.th[t].push_back({"root", {(int64_t)r.below(100000), r.logrange(1, 30)}}); continue; }
            Op o{"switch", {(int64_t)r.below(npools), r.chance(1, 8) ? r.range(0, 12) : -1, r.chance(1, 3)}};   // second: a nearly exhausted pool with that much room
            if (r.chance(1, 20)) o.a[0] = -1;
            if (r.chance(1, 2)) { o.oom = r.chance(1, 2) ? r.range(1, 8) : r.logrange(1, 60); o.oomp = r.chance(1, 3); }
            p.th[t].push_back(o);
        }
    }
    for (int t = nm; t < nm + ni; ++t) {
        int n = (int)r.range(1, 14);
        for (int i = 0; i < n; ++i) {
            Op o{r.chance(3, 4) ? "insert" : "size", {(int64_t)r.below(npools), (int64_t)r.below(34), (int64_t)r.below(4)}};
            if (r.chance(1, 8)) o.oom = r.range(1, 3);
            p.th[t].push_back(o);
        }
    }
}

static std::string cased(std::string s, int64_t v)
{
    if (v == 1) for (auto& c : s) c = (char)toupper(c);
    if (v == 2 && !s.empty()) s[0] = (char)toupper(s[0]);
    return s;
}

// every member of every object can be found under its name
static void lookups(const simfil::ModelPool& m, const simfil::ModelNode& n)
{
    auto t = n.type();
    uint32_t sz = n.size();
    std::map<std::string, uint32_t> first;
    for (uint32_t i = 0; i < sz; ++i) {
        auto c = n.at(i);
        if (t == simfil::ValueType::Object) {
            auto nm = m.lookupStringId(n.keyAt(i));
            if (!nm) sim_violation("content", "member %u has a name id the model's pool does not know", i);
            auto it = first.emplace(lower(std::string(*nm)), i).first;
            auto id = m.strings()->get(*nm);
            auto got = n.get(id);
            if (!got || got->addr().value_ != n.at(it->second)->addr().value_) sim_violation("content", "member '%s' is not found under its name after switching", std::string(*nm).c_str());
        }
        if (c) lookups(m, *c);
    }
}

static void run(const Plan& p)
{
    watch_reads = p.get("watch");
    int np = (int)p.get("pools");
    std::vector<std::shared_ptr<simfil::StringPool>> pools;
    for (int i = 0; i < np; ++i) pools.push_back(std::make_shared<simfil::StringPool>());
    for (int i = 0; i < np; ++i) lift(*pools[i], p.get(("base" + std::to_string(i)).c_str()));
    int nm = (int)p.get("models");
    std::vector<std::map<uint32_t, std::string>> known(np);   // per pool: names seen
    sim::run_threads((int)p.th.size(), [&](int t) {
        if (t >= nm) {
            for (auto& op : p.th[t]) {
                auto& pool = *pools[(size_t)op.arg(0)];
                std::string nmx = cased(key(op.arg(1)), op.arg(2));
                uint32_t id = 0;
                size_t sz = 0;
                auto o = sim::attempt(op, [&] { if (op.kind == "insert") id = pool.emplace(nmx); else sz = pool.size(); });
                SIM_CHECK(o.ok || o.oom && op.oom, "unexpected-failure", "insert failed: %s", o.what.c_str());
                if (id) {
                    std::optional<std::string_view> back;
                    must("resolve", [&] { back = pool.resolve((simfil::StringId)id); });
                    SIM_CHECK(back && lower(std::string(*back)) == lower(nmx), "content", "id %u of '%s' resolves to something else", id, nmx.c_str());
                    auto ins = known[(size_t)op.arg(0)].emplace(id, lower(nmx));
                    SIM_CHECK(ins.first->second == lower(nmx), "content", "id %u means '%s' and '%s'", id, nmx.c_str(), ins.first->second.c_str());
                }
            }
            return;
        }
        std::shared_ptr<simfil::StringPool> cur = pools[0];
        auto m = std::make_shared<simfil::ModelPool>(cur);
        std::vector<std::string> want;
        for (auto& op : p.th[t]) {
            if (op.kind == "root") {
                Doc d = gen_doc(op.arg(0), op.arg(1), true, true);
                simfil::ModelNode::Ptr n;
                auto o = sim::attempt([&] { n = Builder(*m, (uint64_t)op.arg(0)).build(d); });
                if (o.ok) { must("addRoot", [&] { m->addRoot(n); }); want.push_back(render(d)); }
                else SIM_CHECK(!o.oom && cur->highest() >= 65500, "unexpected-failure", "building failed: %s", o.what.c_str());
            } else {
                std::shared_ptr<simfil::StringPool> to = op.arg(0) < 0 ? nullptr : pools[(size_t)op.arg(0)];
                bool tight = to && op.arg(1, -1) >= 0;
                if (tight) {
                    // a pool that has handed out nearly all ids
                    to = std::make_shared<simfil::StringPool>();
                    must("emplace", [&] { to->emplace("last"); });
                    std::string img = image(*to, 128);
                    uint16_t id = (uint16_t)(65535 - 1 - op.arg(1));
                    img[2] = (char)(id & 255);
                    img[3] = (char)(id >> 8);
                    to = std::make_shared<simfil::StringPool>();
                    must("loading a pool", [&] { load(*to, img); });
                    sim_count("fault.ids_nearly_exhausted", 1);
                }
                auto o = sim::attempt(op, [&] { m->setStrings(to); });
                sim_log("switch to pool %d%s: %s", (int)op.arg(0), tight ? " (nearly exhausted)" : "", o.ok ? "ok" : o.what.c_str());
                sim_event(o.ok);
                SIM_CHECK(sim_locks_held() == 0, "lock-leak", "a lock is held after setStrings()");
                if (!to) SIM_CHECK(!o.ok, "error-lost", "setStrings(nullptr) succeeded");
                else SIM_CHECK(o.ok || o.oom && op.oom || !o.oom && tight, "unexpected-failure", "setStrings failed: %s", o.what.c_str());
                if (o.ok) cur = to;
                else sim_count(tight && !o.oom ? "fault.ids_exhausted" : "switch.failed", 1);
                SIM_CHECK(m->strings() == cur, "content", "after %s switch the model has the wrong pool", o.ok ? "a" : "a failed");
                auto got = render_roots(*m);
                SIM_CHECK(got.size() == want.size(), "content", "%zu roots instead of %zu", got.size(), want.size());
                for (size_t i = 0; i < want.size(); ++i)
                    SIM_CHECK(got[i] == want[i], "content", "after %s switch root %zu is %.400s, expected %.400s", o.ok ? "a" : "a failed", i, got[i].c_str(), want[i].c_str());
                must("validate", [&] { m->validate(); });
                must("lookups", [&] { sim::Quiet q; for (size_t i = 0; i < m->numRoots(); ++i) lookups(*m, *m->root(i)); });
                if (!o.ok && to && !tight && op.arg(2, 0) == 0) {   // the memory is back: now it works
                    must("switching again", [&] { m->setStrings(to); });
                    cur = to;
                    SIM_CHECK(render_roots(*m) == want && m->strings() == cur, "content", "repeating a failed switch gives different content");
                }
            }
        }
        // ship model and pool to a fresh process state
        std::string pi, mi;
        must("writing", [&] { pi = image(*cur); mi = model_image(*m); });
        auto pool2 = std::make_shared<simfil::StringPool>();
        auto m2 = std::make_shared<simfil::ModelPool>(pool2);
        must("reading", [&] {
            load(*pool2, pi);
            sim::InBuf b(mi, {});
            std::istream is(&b);
            m2->read(is);
        });
        SIM_CHECK(render_roots(*m2) == want, "content", "the shipped model differs");
        must("releasing", [&] { m.reset(); m2.reset(); });
    });
}

const sim::Scenario sim::scenario{"C09", gen, run, 60000000, 256ull << 20};
