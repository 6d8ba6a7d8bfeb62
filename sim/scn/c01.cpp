// C01: linearizability of insert / lookup / resolve on one shared string pool.
#include "poolmodel.h"
using namespace pm;
using sim::must;

static void gen(Rng& r, Plan& p, int thorough)
{
    int shape = (int)r.below(10);
    p.par["preload"] = shape < 5 ? 0 : shape < 8 ? r.range(1, 20) : r.range(100, 400);
    p.par["fill"] = gen_fill(r);
    int nt = (int)r.range(2, thorough ? 6 : 4);
    int names = (int)r.range(1, 10);
    int64_t nb = gen_names(r);
    int total = (int)r.range(6, 52);
    p.th.resize(nt);
    int emphasis = (int)r.below(4);
    for (int i = 0; i < total; ++i) {
        auto& th = p.th[r.below(nt)];
        int k = (int)r.below(100);
        int we = emphasis == 0 ? 80 : emphasis == 1 ? 30 : 55;
        Op o;
        if (k < we) o = {"emplace", {nb + (int64_t)r.below(names), (int64_t)r.below(5)}};
        else if (k < we + (100 - we) / 3) o = {"get", {nb + (int64_t)r.below(names), (int64_t)r.below(5)}};
        else if (k < we + (100 - we) * 4 / 5) o = {"resolve", {(int64_t)r.below(3), (int64_t)r.below(12)}};
        else if (k < 97) o = {"size", {}};
        else o = {"highest", {}};
        th.push_back(o);
    }
}

static void run(const Plan& p)
{
    auto pool = std::make_unique<simfil::StringPool>();
    fill_pool(*pool, p.get("fill"));
    State init = observe(*pool);
    SIM_CHECK(init.ids.size() >= (size_t)p.get("fill"), "content", "sequential inserts lost names");
    size_t b0 = 0;
    for (int64_t i = 0; i < p.get("preload"); ++i) {
        std::string s = "pre" + std::to_string(i) + (i % 5 == 0 ? std::string(40, 'x') : "");
        must("preloading", [&] { pool->emplace(s); });
        b0 += s.size();
    }
    State st = observe(*pool);
    SIM_CHECK(st.names.size() == init.names.size() + (size_t)p.get("preload"), "content", "sequential inserts lost names");
    size_t bytes0 = pool->bytes(), hits0 = pool->hits(), miss0 = pool->misses();
    int nt = (int)p.th.size();
    std::vector<std::vector<Event>> hist(nt);
    std::vector<std::vector<std::pair<std::string, std::string_view>>> kept(nt);
    uint32_t base = (uint32_t)pool->highest() + 1;
    sim::run_threads(nt, [&](int i) {
        std::vector<uint32_t> ids;
        for (auto& op : p.th[i]) {
            Event e;
            e.thread = i;
            std::string_view got;
            e.s = spell(op.arg(0), op.arg(1));
            if (op.kind == "resolve") {
                if (op.arg(0) == 0 && !ids.empty()) e.id = ids[op.arg(1) % ids.size()];
                else if (op.arg(0) <= 1) e.id = base + (uint32_t)op.arg(1);
                else e.id = (uint32_t)op.arg(1) % 6;
            }
            e.inv = sim_seq();
            must(op.kind.c_str(), [&] {
                if (op.kind == "emplace") { e.kind = EMPLACE; e.rid = pool->emplace(e.s); }
                else if (op.kind == "get") { e.kind = GET; e.rid = pool->get(e.s); }
                else if (op.kind == "resolve") {
                    e.kind = RESOLVE;
                    auto v = pool->resolve((simfil::StringId)e.id);
                    e.rok = v.has_value();
                    if (v) got = *v;
                }
                else if (op.kind == "size") { e.kind = SIZE; e.rid = (uint32_t)pool->size(); }
                else { e.kind = HIGHEST; e.rid = pool->highest(); }
            });
            e.ret = sim_seq();
            if (e.kind == RESOLVE && e.rok) {
                e.rs = std::string(got);
                kept[i].push_back({e.rs, got});
            }
            if (e.kind == EMPLACE || (e.kind == GET && e.rid)) ids.push_back(e.rid);
            sim_event(e.rid + (e.rok ? sim::hash_str(e.rs) : 0));
            sim_log("%s", e.text().c_str());
            SIM_CHECK(sim_locks_held() == 0, "lock-leak", "a lock is still held after %s", e.text().c_str());
            hist[i].push_back(e);
        }
    });
    std::vector<Event> all;
    size_t inserts = 0, lookups = 0;
    for (auto& h : hist) {
        for (auto& e : h) {
            all.push_back(e);
            if (e.kind == EMPLACE) ++inserts;
            if (e.kind == GET && e.rid) ++lookups;
        }
    }
    // final reads, appended to the history as one more thread
    State fin = observe(*pool);
    size_t distinct = fin.names.size() - st.names.size();
    SIM_CHECK(fin.names.size() == fin.ids.size(), "content", "ids and names do not correspond one to one: %zu names, %zu ids", fin.names.size(), fin.ids.size());
    SIM_CHECK(pool->size() == fin.names.size(), "counters", "size() is %zu but %zu names resolve", pool->size(), fin.names.size());
    SIM_CHECK(pool->bytes() - bytes0 == fin.bytes - st.bytes, "counters", "bytes() grew by %zu, stored spellings by %zu", pool->bytes() - bytes0, fin.bytes - st.bytes);
    SIM_CHECK(pool->misses() - miss0 == distinct, "counters", "misses() grew by %zu, but %zu new names were inserted", pool->misses() - miss0, distinct);
    size_t h = pool->hits() - hits0, m = pool->misses() - miss0;
    // get("") style lookups that return the Empty id cannot be told apart from failed ones and are not generated
    SIM_CHECK(h + m == inserts + lookups, "counters", "hits+misses grew by %zu, but there were %zu inserts and %zu successful lookups", h + m, inserts, lookups);
    for (auto& [id, s] : fin.ids) {
        auto it = st.ids.find(id);
        if (it != st.ids.end()) { SIM_CHECK(it->second == s, "content", "id %u changed from '%s' to '%s'", id, it->second.c_str(), s.c_str()); continue; }
        Event e;
        e.kind = RESOLVE; e.thread = nt; e.id = id; e.rok = true; e.rs = s;
        e.inv = sim_seq(); e.ret = sim_seq();
        if (all.size() < 64) all.push_back(e);
    }
    for (auto& k : kept)
        for (auto& [s, v] : k) SIM_CHECK(s == v, "content", "a name read earlier as '%s' now reads '%s'", s.c_str(), std::string(v).c_str());
    check_linearizable(all, st);
    must("destroying the pool", [&] { pool.reset(); });
}

const sim::Scenario sim::scenario{"C01", gen, run, 100000000};
