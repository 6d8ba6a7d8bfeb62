// C04: incremental replication of a pool to followers over a faulty network.
#include "poolmodel.h"
using namespace pm;
using sim::must;

struct Msg { std::string bytes; int64_t due; };

// thread 0: source; threads 1..: followers. The network holds one message queue per follower.
static void gen(Rng& r, Plan& p, int thorough)
{
    int nf = (int)r.range(1, 3);
    p.par["writers"] = r.range(1, 2);
    p.par["local"] = r.range(0, 3);
    p.th.resize(p.par["writers"] + nf);
    int names = (int)r.range(3, 60);
    int64_t nb = gen_names(r);
    int nw = (int)p.par["writers"];
    for (int w = 0; w < nw; ++w) {
        int n = (int)r.range(2, thorough ? 40 : 20);
        for (int i = 0; i < n; ++i) {
            if (r.chance(3, 5)) p.th[w].push_back({"emplace", {nb + (int64_t)r.below(names), (int64_t)r.below(4)}});
            else {
                // publish to follower a0: offset mode a1 (0 all, 1 what the follower asked for last, 2 arbitrary), stall, network fault
                int64_t fault = (int64_t)r.below(10);  // 0 lose, 1 duplicate, 2 cut, 3 fail, others none
                p.th[w].push_back({"publish", {(int64_t)r.below(nf), (int64_t)r.below(3), (int64_t)r.below(30), fault, (int64_t)r.below(400), (int64_t)r.below(2)}});
            }
        }
    }
    for (int f = 0; f < nf; ++f) {
        int n = (int)r.range(2, thorough ? 30 : 14);
        for (int i = 0; i < n; ++i) {
            int k = (int)r.below(10);
            if (k < 6) p.th[nw + f].push_back({"deliver", {(int64_t)r.below(8), (int64_t)r.below(9), r.chance(1, 6), r.chance(1, 6) ? (int64_t)r.below(200) : -1}});
            else if (k < 8) p.th[nw + f].push_back({"ask", {(int64_t)r.below(4)}});
            else if (k < 9) p.th[nw + f].push_back({"crash", {(int64_t)r.below(3)}});
            else p.th[nw + f].push_back({"lookup", {nb + (int64_t)r.below(names), (int64_t)r.below(4)}});
        }
    }
}

static void run(const Plan& p)
{
    int nw = (int)std::max<int64_t>(1, std::min<int64_t>(p.get("writers"), (int64_t)p.th.size() - 1));
    int nf = (int)p.th.size() - nw;
    if (nf < 1) return;
    auto source = std::make_shared<simfil::StringPool>();
    State fixed = observe(*source);
    struct Follower
    {
        std::shared_ptr<simfil::StringPool> pool = std::make_shared<simfil::StringPool>();
        std::vector<std::string> net;    // messages under way
        std::vector<std::pair<std::string, sim::InFault>> q;
        std::map<uint32_t, std::string> known;
        uint32_t asked = 0;
    };
    std::vector<Follower> fol(nf);
    auto apply = [&](Follower& f, const std::string& img, sim::InFault flt) {
        sim::InBuf b(img, flt);
        std::istream is(&b);
        auto o = sim::attempt([&] { f.pool->read(is); });
        SIM_CHECK(o.ok || b.hit(), "unexpected-failure", "reading a complete update failed: %s", o.what.c_str());
        SIM_CHECK(!o.ok || !b.hit(), "error-lost", "an update cut short was applied without an error");
        SIM_CHECK(sim_locks_held() == 0, "lock-leak", "a lock is still held after read()");
        State s = observe(*f.pool);
        for (auto& [id, str] : f.known) {
            auto it = s.ids.find(id);
            SIM_CHECK(it != s.ids.end() && it->second == str, "replication", "an update changed id %u from '%s' to '%s'", id, str.c_str(), it == s.ids.end() ? "(none)" : it->second.c_str());
        }
        f.known = s.ids;
        for (auto& [n, e] : s.names) SIM_CHECK(f.pool->get(e.spelling) == e.id, "replication", "follower: name '%s' and id %u do not map to each other", e.spelling.c_str(), e.id);
        SIM_CHECK(f.pool->size() == s.names.size() && s.ids.size() == s.names.size(), "replication", "follower: %zu names, %zu ids, size() %zu", s.names.size(), s.ids.size(), f.pool->size());
        return o.ok;
    };
    sim::run_threads(nw + nf, [&](int i) {
        for (auto& op : p.th[i]) {
            if (i < nw) {
                if (op.kind == "emplace") {
                    std::string s = spell(op.arg(0), op.arg(1));
                    must("emplace", [&] { source->emplace(s); });
                } else if (op.kind == "publish") {
                    auto& f = fol[op.arg(0) % nf];
                    uint32_t off = op.arg(1) == 0 ? 0 : op.arg(1) == 1 ? f.asked : 126 + (uint32_t)op.arg(2);
                    std::string img;
                    must("write", [&] { img = image(*source, off); });
                    sim::InFault flt;
                    switch (op.arg(3)) {
                    case 0: sim_count("fault.message_lost", 1); continue;
                    case 1: sim_count("fault.message_duplicated", 1); f.q.push_back({img, {}}); break;
                    case 2: flt.cut = op.arg(4) % (int64_t)img.size(); break;
                    case 3: flt.fail = op.arg(4) % (int64_t)img.size(); break;
                    }
                    f.q.push_back({img, flt});
                    sim_log("publish to %lld from id %u: %zu bytes%s", (long long)(op.arg(0) % nf), off, img.size(), flt.cut >= 0 || flt.fail >= 0 ? " (damaged)" : "");
                }
                continue;
            }
            auto& f = fol[i - nw];
            if (op.kind == "deliver") {
                if (f.q.empty()) { sim::Code c; sim_yield(0); continue; }
                size_t k = (size_t)op.arg(0) % f.q.size();
                if (k) sim_count("fault.message_reordered", 1);
                auto m = f.q[k];
                if (!op.arg(2)) f.q.erase(f.q.begin() + (long)k);
                else sim_count("fault.message_duplicated", 1);
                m.second.chunk = op.arg(1);
                if (op.arg(3) >= 0 && m.second.cut < 0) m.second.cut = op.arg(3);
                bool ok = apply(f, m.first, m.second);
                sim_log("deliver %zu bytes: %s, knows %zu", m.first.size(), ok ? "ok" : "error reported", f.known.size());
                sim_event(f.known.size());
            } else if (op.kind == "ask") {
                must("highest", [&] { f.asked = (uint32_t)f.pool->highest() + 1; });
                if (op.arg(0) == 0) f.asked = 0;
            } else if (op.kind == "crash") {
                // the follower process is restarted: from its last own image, or from nothing
                sim_count("fault.follower_restart", 1);
                std::string img;
                if (op.arg(0)) must("write", [&] { img = image(*f.pool); });
                must("restart", [&] { f.pool = std::make_shared<simfil::StringPool>(); });
                if (op.arg(0)) { apply(f, img, {}); }
                else f.known.clear();
                f.asked = 0;
            } else {
                std::string s = spell(op.arg(0), op.arg(1));
                must("get", [&] { f.pool->get(s); });
            }
        }
    });
    State truth = observe(*source);
    for (int k = 0; k < nf; ++k) {
        auto& f = fol[k];
        for (auto& [id, s] : f.known) {
            auto it = truth.ids.find(id);
            SIM_CHECK(it != truth.ids.end(), "replication", "follower %d knows id %u ('%s'), which the source never handed out", k, id, s.c_str());
            SIM_CHECK(it->second == s, "replication", "follower %d: id %u is '%s', in the source '%s'", k, id, s.c_str(), it->second.c_str());
        }
        // faults stop: stragglers arrive, then one complete update of what is missing
        for (auto& m : f.q)
            if (m.second.cut < 0 && m.second.fail < 0) apply(f, m.first, {});
        uint32_t gap = 0;
        for (auto& [id, s] : truth.ids)
            if (!f.known.count(id)) { gap = id; break; }
        std::string img;
        must("write", [&] { img = image(*source, gap); });
        apply(f, img, {});
        for (auto& [id, s] : truth.ids) SIM_CHECK(f.known[id] == s, "replication", "after a complete update follower %d resolves id %u to '%s' instead of '%s'", k, id, f.known[id].c_str(), s.c_str());
        SIM_CHECK(f.known.size() == truth.ids.size(), "replication", "after a complete update follower %d has %zu names, the source %zu", k, f.known.size(), truth.ids.size());
        bool eq = false;
        must("compare", [&] { eq = *f.pool == *source; });
        SIM_CHECK(eq, "replication", "after a complete update the pools do not compare equal");
        for (int64_t n = 0; n < p.get("local"); ++n) {
            uint32_t id = 0;
            must("emplace", [&] { id = f.pool->emplace("local name " + std::to_string(n)); });
            SIM_CHECK(!truth.ids.count(id) && id > truth.maxid, "replication", "a name inserted by the follower gets id %u, which the source uses", id);
        }
        must("follower shutdown", [&] { f.pool.reset(); });
    }
}

const sim::Scenario sim::scenario{"C04", gen, run};
