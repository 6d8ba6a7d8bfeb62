// C02: any mix of operations on shared string pools is free of races, deadlock and dangling names.
#include "poolmodel.h"
using namespace pm;
using sim::must;

static void gen(Rng& r, Plan& p, int thorough)
{
    p.par["preload"] = r.chance(1, 3) ? r.range(0, 40) : r.range(0, 4);
    p.par["fill"] = gen_fill(r);
    int nt = (int)r.range(2, thorough ? 7 : 5);
    int names = (int)r.range(1, 30);
    int64_t nb = gen_names(r);
    int total = (int)r.range(4, thorough ? 70 : 40);
    p.th.resize(nt);
    // swarm: a random subset of the operation kinds is enabled
    static const char* kinds[] = {"emplace", "get", "resolve", "size", "highest", "bytes", "hits", "equal", "equal_self", "copy", "write", "read", "keep"};
    std::vector<std::string> on{"emplace"};
    for (auto k : kinds)
        if (r.chance(1, 2)) on.push_back(k);
    for (int i = 0; i < total; ++i) {
        Op o;
        o.kind = on[r.below(on.size())];
        int which = (int)r.below(2);
        if (o.kind == "emplace" || o.kind == "get") o.a = {which, nb + (int64_t)r.below(names), (int64_t)r.below(4)};
        else if (o.kind == "resolve" || o.kind == "keep") o.a = {which, (int64_t)r.below(40)};
        else if (o.kind == "write") o.a = {which, (int64_t)r.below(20), (int64_t)r.below(3), r.chance(1, 5) ? (int64_t)r.below(200) : -1, (int64_t)r.below(2)};
        else if (o.kind == "read") o.a = {which, (int64_t)r.below(2), (int64_t)r.below(12), r.chance(1, 5) ? (int64_t)r.below(200) : -1, (int64_t)r.below(2)};
        else o.a = {which};
        p.th[r.below(nt)].push_back(o);
    }
}

static void run(const Plan& p)
{
    std::unique_ptr<simfil::StringPool> pools[2] = {std::make_unique<simfil::StringPool>(), std::make_unique<simfil::StringPool>()};
    std::vector<std::string> images;
    {
        simfil::StringPool src;
        for (int i = 0; i < 60; ++i) src.emplace("filler" + std::to_string(i));
        for (int i = 0; i < 8; ++i) src.emplace("img" + std::to_string(i) + (i % 2 ? std::string(30, 'y') : ""));
        images = {image(src, 128 + 60), image(src, 128 + 64)};
    }
    for (int64_t i = 0; i < p.get("preload"); ++i)
        for (auto& q : pools) q->emplace(spell(100 + i, 0));
    for (auto& q : pools) fill_pool(*q, p.get("fill"));
    int nt = (int)p.th.size();
    std::vector<std::vector<std::pair<std::string, std::string_view>>> kept(nt);
    sim::run_threads(nt, [&](int i) {
        for (auto& op : p.th[i]) {
            auto& q = *pools[op.arg(0) & 1];
            auto& other = *pools[(op.arg(0) & 1) ^ 1];
            sim::Outcome o;
            uint64_t res = 0;
            std::string arg = spell(op.arg(1), op.arg(2));
            std::string_view got;
            bool faulty = false;
            const std::string& k = op.kind;
            if (k == "emplace") o = sim::attempt([&] { res = q.emplace(arg); });
            else if (k == "get") o = sim::attempt([&] { res = q.get(arg); });
            else if (k == "resolve" || k == "keep") {
                o = sim::attempt([&] {
                    auto v = q.resolve((simfil::StringId)(126 + op.arg(1)));
                    if (v) {
                        got = *v;
                        // the caller reads the text it was given
                        unsigned char x = 0;
                        for (char c : got) x ^= (unsigned char)c;
                        res = x;
                    }
                });
                if (got.data() && kept[i].size() < 20) kept[i].push_back({std::string(got), got});
            }
            else if (k == "size") o = sim::attempt([&] { res = q.size(); });
            else if (k == "highest") o = sim::attempt([&] { res = q.highest(); });
            else if (k == "bytes") o = sim::attempt([&] { res = q.bytes(); });
            else if (k == "hits") o = sim::attempt([&] { res = q.hits() + q.misses(); });
            else if (k == "equal") o = sim::attempt([&] { res = q == other; });
            else if (k == "equal_self") {
                bool e = false;
                o = sim::attempt([&] { e = q == q; });
                SIM_CHECK(!o.ok || e, "result", "a pool compares unequal to itself");
            }
            else if (k == "copy") o = sim::attempt([&] {
                simfil::StringPool c(q);
                res = c.size() + c.emplace("only in the copy");
                std::string_view all;
                for (uint32_t id = 128; id <= c.highest(); ++id)
                    if (auto v = c.resolve((simfil::StringId)id)) { all = *v; for (char ch : all) res = res * 31 + (unsigned char)ch; }
            });
            else if (k == "write") {
                sim::OutBuf b({op.arg(3, -1), (int)op.arg(4), op.arg(2)});
                std::ostream os(&b);
                o = sim::attempt([&] { q.write(os, (simfil::StringId)(op.arg(1) ? 126 + op.arg(1) : 0)); });
                faulty = b.hit;
                res = b.data.size();
            }
            else if (k == "read") {
                sim::InFault f;
                f.stall = op.arg(2) % 3;
                f.chunk = op.arg(2);
                if (op.arg(4)) f.fail = op.arg(3, -1);
                else f.cut = op.arg(3, -1);
                sim::InBuf b(images[op.arg(1) & 1], f);
                std::istream is(&b);
                o = sim::attempt([&] { q.read(is); });
                faulty = b.hit();
                SIM_CHECK(!(faulty && o.ok), "error-lost", "reading a damaged pool image reported success");
            }
            SIM_CHECK(o.ok || faulty, "unexpected-failure", "%s failed without any fault: %s (%s)", k.c_str(), o.what.c_str(), o.type.c_str());
            SIM_CHECK(sim_locks_held() == 0, "lock-leak", "a lock is still held after %s", k.c_str());
            for (auto& [s, v] : kept[i]) {
                bool same = false;
                { sim::Code c; same = v.size() == s.size(); for (size_t j = 0; same && j < v.size(); ++j) same = v[j] == s[j]; }
                SIM_CHECK(same, "content", "a name read earlier as '%s' has changed", s.c_str());
            }
            sim_event(res);
            sim_log("%s(%lld) -> %llu%s", k.c_str(), (long long)op.arg(1), (unsigned long long)res, o.ok ? "" : " failed");
        }
    });
    for (auto& q : pools) {
        // the images' ids may collide with ids handed out meanwhile, so only what must hold regardless is checked
        State s = observe(*q);
        for (auto& [id, str] : s.ids) SIM_CHECK(str.empty() || q->get(str) != 0, "content", "name '%s' resolves but cannot be looked up", str.c_str());
        SIM_CHECK(q->size() >= s.names.size(), "content", "%zu names resolve, size() is %zu", s.names.size(), q->size());
    }
    for (auto& q : pools) must("destroying a pool", [&] { q.reset(); });
}

const sim::Scenario sim::scenario{"C02", gen, run, 100000000};
