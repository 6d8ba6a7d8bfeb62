// C03: copies and images of a live pool are consistent snapshots, and independent of it.
#include "poolmodel.h"
#include <set>
using namespace pm;
using sim::must;

struct Ins { std::string s; uint32_t id; uint64_t inv, ret; };
struct Snap
{
    uint64_t inv = 0, ret = 0;
    uint32_t offset = 0;
    bool image = false;
    bool loadable = true;
    std::string bytes;
    std::shared_ptr<simfil::StringPool> copy;
    State at;       // content right after it was taken
};

static void gen(Rng& r, Plan& p, int thorough)
{
    p.par["preload"] = r.below(30);
    // the pool has a gap in its ids before, and names of another pool (with ids far above) arrive meanwhile
    p.par["gap"] = r.chance(1, 3) ? 128 + r.logrange(40, 3000) : 0;
    p.par["fill"] = p.get("gap") ? 0 : gen_fill(r) % 6000;
    bool arrives = r.chance(1, 4);
    p.par["after"] = r.below(4);
    p.par["grow"] = r.below(12);
    int ni = (int)r.range(1, 3), ns = (int)r.range(1, thorough ? 4 : 3);
    int names = (int)r.range(4, 40);
    int64_t nb = gen_names(r);
    p.th.resize(ni + ns);
    int ops = (int)r.range(2, 16);
    for (int t = 0; t < ni; ++t)
        for (int i = 0; i < ops; ++i) p.th[t].push_back({"emplace", {nb + (int64_t)r.below(names), (int64_t)r.below(4)}});
    if (arrives) p.th[r.below((uint64_t)ni)].push_back({"read", {p.get("gap") > 180 && r.chance(1, 2) ? 165 : 12000 + r.logrange(1, 3000), r.range(1, 8)}});
    int snaps = (int)r.range(1, 4);
    for (int t = 0; t < ns; ++t)
        for (int i = 0; i < snaps; ++i) {
            if (r.chance(1, 2)) p.th[ni + t].push_back({"copy", {(int64_t)r.below(3)}});
            else p.th[ni + t].push_back({"write", {r.chance(1, 2) ? 0 : r.range(1, 40), (int64_t)r.below(3), r.chance(1, 6) ? (int64_t)r.below(300) : -1, (int64_t)r.below(2)}});
        }
}

static void verify(const Snap& s, const State& got, const State& fin, const std::vector<Ins>& ins, const std::vector<std::pair<uint32_t, std::string>>& arrived, const char* what)
{
    size_t due = 0, there = 0;
    std::set<uint32_t> late;
    for (auto& [id, str] : arrived) {
        late.insert(id);
        if (id < s.offset) continue;
        ++due;
        there += got.ids.count(id);
    }
    SIM_CHECK(there == 0 || there == due, "snapshot", "%s contains %zu of %zu names that were read by one call", what, there, due);
    uint32_t m = got.maxid;
    for (auto& [id, str] : got.ids) {
        auto it = fin.ids.find(id);
        SIM_CHECK(it != fin.ids.end() && it->second == str, "snapshot", "%s: id %u is '%s', in the source it is '%s'", what, id, str.c_str(), it == fin.ids.end() ? "(none)" : it->second.c_str());
    }
    for (auto& [id, str] : fin.ids) {
        if (id < 128 && s.image) continue;  // fixed names: part of every pool
        if (id < s.offset || id > m || late.count(id)) continue;
        SIM_CHECK(got.ids.count(id), "snapshot", "%s contains id %u but not the older id %u ('%s')", what, m, id, str.c_str());
    }
    for (auto& i : ins) {
        bool in = got.ids.count(i.id);
        if (i.ret < s.inv && i.id >= s.offset) SIM_CHECK(in, "snapshot", "%s lacks '%s' (id %u), whose insert had returned before it was started", what, i.s.c_str(), i.id);
    }
    // an id is new only through its first insert
    std::map<uint32_t, uint64_t> first;
    for (auto& i : ins) {
        auto f = first.emplace(i.id, i.inv);
        if (!f.second && i.inv < f.first->second) f.first->second = i.inv;
    }
    for (auto& [id, inv] : first)
        if (inv > s.ret) SIM_CHECK(!got.ids.count(id), "snapshot", "%s contains id %u, whose insert began after it had ended", what, id);
}

static void run(const Plan& p)
{
    auto pool = std::make_shared<simfil::StringPool>();
    std::vector<Ins> pre;
    for (int64_t i = 0; i < p.get("preload"); ++i) pool->emplace(spell(200 + i, i % 4));
    lift(*pool, p.get("gap"));
    fill_pool(*pool, p.get("fill"));
    for (int64_t i = 0; i < p.get("preload") % 5; ++i) pool->emplace(spell(300 + i, i % 4));
    State st = observe(*pool);
    // names of a pool with higher ids, as an image
    std::string incoming;
    std::vector<std::pair<uint32_t, std::string>> names;
    for (auto& v : p.th)
        for (auto& op : v)
            if (op.kind == "read") {
                simfil::StringPool far;
                lift(far, op.arg(0));
                for (int64_t i = 0; i < op.arg(1); ++i) {
                    std::string s = spell(700 + i, i % 4);
                    must("emplace", [&] { names.push_back({far.emplace(s), s}); });
                }
                must("writing", [&] { incoming = image(far, (uint32_t)op.arg(0) + 1); });
            }
    int nt = (int)p.th.size();
    std::vector<std::vector<Ins>> hist(nt);
    std::vector<std::vector<Snap>> snaps(nt);
    sim::run_threads(nt, [&](int i) {
        for (auto& op : p.th[i]) {
            if (op.kind == "emplace") {
                Ins e;
                e.s = spell(op.arg(0), op.arg(1));
                e.inv = sim_seq();
                must("emplace", [&] { e.id = pool->emplace(e.s); });
                e.ret = sim_seq();
                if (!st.ids.count(e.id)) hist[i].push_back(e);
                sim_log("emplace(%s)=%u", e.s.c_str(), e.id);
                sim_event(e.id);
                continue;
            }
            if (op.kind == "read") {
                Ins e;
                e.inv = sim_seq();
                must("reading", [&] { load(*pool, incoming); });
                e.ret = sim_seq();
                for (auto& [id, str] : names) {
                    e.id = id;
                    e.s = str;
                    hist[i].push_back(e);
                }
                sim_log("read %zu names from id %d", names.size(), (int)op.arg(0) + 1);
                continue;
            }
            Snap s;
            if (op.kind == "copy") {
                s.inv = sim_seq();
                must("copying", [&] { s.copy = std::make_shared<simfil::StringPool>(*pool); });
                s.ret = sim_seq();
                s.at = observe(*s.copy);
                size_t text = 0;
                for (auto& [id, str] : s.at.ids) if (id >= 128) text += str.size();
                must("bytes", [&] {
                    size_t b = s.copy->bytes(), sz = s.copy->size();
                    sim::Quiet q;
                    SIM_CHECK(b == text, "snapshot", "bytes() of a copy is %zu, its names have %zu", b, text);
                    SIM_CHECK(sz == s.at.names.size(), "snapshot", "size() of a copy is %zu, it has %zu names", sz, s.at.names.size());
                });
            } else {
                s.image = true;
                s.offset = op.arg(0) ? 126 + (uint32_t)op.arg(0) : 0;
                sim::OutBuf b({op.arg(2, -1), (int)op.arg(3), op.arg(1)});
                std::ostream os(&b);
                s.inv = sim_seq();
                auto o = sim::attempt([&] { pool->write(os, (simfil::StringId)s.offset); });
                s.ret = sim_seq();
                SIM_CHECK(o.ok || b.hit, "unexpected-failure", "write failed without a fault: %s", o.what.c_str());
                s.loadable = !b.hit;
                s.bytes = b.data;
            }
            SIM_CHECK(sim_locks_held() == 0, "lock-leak", "a lock is still held after %s", op.kind.c_str());
            sim_log("%s: %zu names, %zu bytes", op.kind.c_str(), s.at.names.size(), s.bytes.size());
            snaps[i].push_back(std::move(s));
        }
    });
    std::vector<Ins> ins;
    for (auto& h : hist) ins.insert(ins.end(), h.begin(), h.end());
    State fin = observe(*pool);
    // images
    for (auto& v : snaps)
        for (auto& s : v) {
            if (!s.image) continue;
            auto fresh = std::make_shared<simfil::StringPool>();
            auto o = sim::attempt([&] { load(*fresh, s.bytes); });
            SIM_CHECK(s.loadable || !o.ok, "error-lost", "an image cut off by a full device was read without an error");
            if (!s.loadable) continue;
            SIM_CHECK(o.ok, "snapshot", "image cannot be read back: %s", o.what.c_str());
            State got = observe(*fresh);
            size_t n = 0;
            for (auto& [id, str] : got.ids) n += id >= s.offset;
            size_t stated = (unsigned char)s.bytes[0] | (unsigned char)s.bytes[1] << 8;
            SIM_CHECK(stated == n, "snapshot", "image states %zu entries but holds %zu", stated, n);
            // reading an image with trailing bytes must stop at its end
            sim::InBuf b(s.bytes + "tail", {});
            std::istream is(&b);
            simfil::StringPool again;
            must("reading an image followed by other data", [&] { again.read(is); });
            SIM_CHECK(b.consumed() == s.bytes.size(), "snapshot", "read consumed %zu of %zu bytes", b.consumed(), s.bytes.size());
            verify(s, got, fin, ins, names, "image");
        }
    // copies: as taken, and unaffected by what happens to the source
    for (int64_t i = 0; i < p.get("grow"); ++i) must("emplace", [&] { pool->emplace("later" + std::to_string(i) + std::string(20, 'z')); });
    int after = (int)p.get("after");
    std::vector<Snap*> copies;
    for (auto& v : snaps)
        for (auto& s : v)
            if (!s.image) copies.push_back(&s);
    for (auto* s : copies) verify(*s, s->at, fin, ins, names, "copy");
    if (after >= 1) must("destroying the source", [&] { pool.reset(); });
    auto use = [&](int k) {
        Snap& s = *copies[k];
        State now;
        must("reading a copy", [&] { now = observe(*s.copy); });
        SIM_CHECK(now.ids == s.at.ids, "snapshot", "a copy changed after it was taken");
        check_content(*s.copy, s.at, "copy");
        SIM_CHECK(s.copy->highest() == s.at.maxid, "snapshot", "highest() of the copy is %u, its highest id is %u", s.copy->highest(), s.at.maxid);
        uint32_t id = 0;
        must("insert into a copy", [&] { id = s.copy->emplace("brand new"); });
        SIM_CHECK(id > s.at.maxid, "snapshot", "insert into a copy gives id %u, which is taken", id);
        must("reading a copy", [&] { auto v = s.copy->resolve((simfil::StringId)id); sim::Quiet q; SIM_CHECK(v && *v == "brand new", "snapshot", "name inserted into a copy is lost"); });
        if (pool) SIM_CHECK(pool->get("brand new") == 0, "snapshot", "insert into a copy shows up in the source");
    };
    if (after == 2) sim::run_threads((int)std::min<size_t>(copies.size(), 4), use);
    else for (size_t k = 0; k < copies.size(); ++k) use((int)k);
    if (after == 3 && copies.size() > 1) {
        must("destroying copies", [&] { copies[0]->copy.reset(); });
        State n = observe(*copies[1]->copy);
        for (auto& [id, s] : copies[1]->at.ids) SIM_CHECK(n.ids[id] == s, "snapshot", "a copy changed when another copy was destroyed");
    }
    if (pool) {
        State n = observe(*pool);
        for (auto& [id, s] : fin.ids) SIM_CHECK(n.ids[id] == s, "snapshot", "using copies changed the source");
    }
}

const sim::Scenario sim::scenario{"C03", gen, run, 200000000};
