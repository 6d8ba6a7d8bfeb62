// C05: failed operations leave the pool as it was.
#include "poolmodel.h"
using namespace pm;
using sim::must;

static void gen(Rng& r, Plan& p, int thorough)
{
    int64_t nb = gen_names(r);
    int mode = (int)r.below(20);
    p.par["mode"] = mode == 0 ? 2 : mode < 9 ? 0 : 1;  // 2: id exhaustion, 0: concurrent inserts, 1: sequential, all operations
    p.par["preload"] = r.chance(1, 2) ? r.range(0, 8) : r.range(0, 60);
    p.par["fill"] = gen_fill(r);
    if (p.par["mode"] == 2) {
        p.par["room"] = r.range(0, 6);
        p.par["gap"] = r.chance(3, 4) ? r.logrange(1, 3000) : 0;
        p.par["preload"] = 0;
        int nt = (int)r.range(1, 4);
        p.th.resize(nt);
        for (auto& t : p.th)
            for (int i = 0, n = (int)r.range(1, 8); i < n; ++i) {
                Op o{r.chance(3, 4) ? "emplace" : "write", {nb + (int64_t)r.below(20), (int64_t)r.below(4)}};
                if (r.chance(1, 4)) o.oom = r.range(1, 5);
                t.push_back(o);
            }
        return;
    }
    if (p.par["mode"] == 0) {
        int nt = (int)r.range(1, 4);
        p.th.resize(nt);
        int total = (int)r.range(3, 40), names = (int)r.range(1, 14);
        for (int i = 0; i < total; ++i) {
            Op o{r.chance(4, 5) ? "emplace" : r.chance(1, 2) ? "get" : "resolve", {nb + (int64_t)r.below(names), (int64_t)r.below(4)}};
            if (o.kind == "emplace" && r.chance(1, 2)) { o.oom = r.range(1, 5); o.oomp = r.chance(1, 4); }
            p.th[r.below(nt)].push_back(o);
        }
        return;
    }
    p.th.resize(1);
    p.par["nolift"] = r.chance(1, 2);   // what arrives decides about the pool's next id
    int total = (int)r.range(1, thorough ? 40 : 20);
    for (int i = 0; i < total; ++i) {
        Op o;
        int k = (int)r.below(10);
        if (k < 4) o = {"emplace", {nb + (int64_t)r.below(30), (int64_t)r.below(4)}};
        else if (k < 8) o = {"read", {(int64_t)r.below(4), (int64_t)r.below(9), r.chance(1, 3) ? (int64_t)r.below(400) : -1, (int64_t)r.below(2)}};
        else if (k < 9) o = {"copy", {}};
        else o = {"write", {(int64_t)r.below(30)}};
        if (r.chance(2, 3)) { o.oom = k >= 4 && k < 8 ? r.logrange(1, 60) : k == 8 ? r.logrange(1, 200) : r.range(1, 5); o.oomp = r.chance(1, 4); }
        p.th[0].push_back(o);
    }
}

static std::string filler(int64_t i) { return "x" + std::to_string(i); }

static void exhaustion(const Plan& p)
{
    auto pool = std::make_unique<simfil::StringPool>();
    State fixed = observe(*pool);
    // How many names fit? Found by filling a pool to the brim once; ids are dense.
    uint32_t first = pool->highest() + 1u;
    // names x0.. get ids first.. ; leave `room` ids below the largest possible one
    if (p.get("gap")) {
        // most of the ids have never been in use
        lift(*pool, 65534 - p.get("room") - (int64_t)p.get("gap"));
        fixed = observe(*pool);
        first = pool->highest() + 1u;
    }
    int64_t n = 65536 - (int64_t)first - 2 - p.get("room");
    for (int64_t i = 0; i < n; ++i) {
        uint32_t id = pool->emplace(filler(i));
        if (id != first + i) sim_violation("content", "sequential insert number %lld gets id %u", (long long)i, id);
    }
    size_t before = pool->size();
    SIM_CHECK(before == fixed.names.size() + (size_t)n, "content", "filling the pool: %zu names instead of %zu", before, fixed.names.size() + (size_t)n);
    std::vector<std::map<std::string, uint32_t>> got(p.th.size());
    std::vector<int> refused(p.th.size());
    sim::run_threads((int)p.th.size(), [&](int i) {
        for (auto& op : p.th[i]) {
            if (op.kind == "write") {
                uint32_t h = 0;
                must("highest", [&] { h = pool->highest(); });
                SIM_CHECK(h >= first + n - 1, "content", "highest() is %u although %lld names are stored", h, (long long)n);
                std::string img;
                must("write near exhaustion", [&] { img = image(*pool, h - 4); });
                continue;
            }
            std::string s = spell(op.arg(0), op.arg(1));
            uint32_t id = 0;
            if (auto it = fixed.names.find(lower(s)); it != fixed.names.end() && it->second.id < 128) continue;
            auto o = sim::attempt(op, [&] { id = pool->emplace(s); });
            SIM_CHECK(sim_locks_held() == 0, "lock-leak", "a lock is still held after emplace");
            sim_log("emplace(%s) = %u %s", s.c_str(), id, o.ok ? "" : o.type.c_str());
            sim_event(id);
            if (o.ok) {
                auto [it, isNew] = got[i].emplace(lower(s), id);
                SIM_CHECK(it->second == id, "content", "'%s' got id %u and then %u", s.c_str(), it->second, id);
                SIM_CHECK(id >= first + n && id <= 65535, "content", "a new name got id %u, which was in use", id);
            } else {
                if (!o.oom) refused[i]++;
                SIM_CHECK(!got[i].count(lower(s)), "content", "known name '%s' is refused: %s", s.c_str(), o.what.c_str());
            }
        }
    });
    std::map<std::string, uint32_t> all;
    std::map<uint32_t, std::string> ids;
    for (auto& g : got)
        for (auto& [s, id] : g) {
            auto [it, isNew] = all.emplace(s, id);
            SIM_CHECK(it->second == id, "content", "'%s' has two ids, %u and %u", s.c_str(), it->second, id);
            auto [jt, isNew2] = ids.emplace(id, s);
            SIM_CHECK(jt->second == s, "content", "id %u was given to '%s' and '%s'", id, jt->second.c_str(), s.c_str());
        }
    bool anyRefused = false;
    for (int x : refused) anyRefused |= x > 0;
    uint32_t h = pool->highest();
    SIM_CHECK(h == first + n - 1 + all.size(), "content", "%zu names were added, but highest() went from %lld to %u", all.size(), (long long)(first + n - 1), h);
    // exhaust what is left: every further new name must be refused, forever
    bool full = false;
    for (int i = 0; i < 12; ++i) {
        uint32_t id = 0;
        auto o = sim::attempt([&] { id = pool->emplace("one more " + std::to_string(i)); });
        if (!o.ok) full = true;
        SIM_CHECK(o.ok != full, "content", "a name is accepted (id %u) after the ids were exhausted", id);
        SIM_CHECK(!o.ok || id > h, "content", "new name got id %u, which is in use", id);
        if (o.ok) h = id;
    }
    SIM_CHECK(full, "content", "more than 65536 ids");
    SIM_CHECK(!anyRefused || full, "content", "a name was refused although ids were left");
    sim_count("fault.ids_exhausted", 1);
    SIM_CHECK(pool->highest() == h, "content", "highest() is %u after exhaustion, but the last id was %u", pool->highest(), h);
    for (auto& [s, id] : all) {
        uint32_t g = 0, e = 0;
        must("lookup after exhaustion", [&] { g = pool->get(s); e = pool->emplace(s); });
        SIM_CHECK(g == id && e == id, "content", "after exhaustion '%s' has id %u instead of %u", s.c_str(), g, id);
    }
    for (int64_t i = 0; i < n; i += 977) SIM_CHECK(pool->get(filler(i)) == first + i && pool->resolve((simfil::StringId)(first + i)) == filler(i), "content", "name %lld changed", (long long)i);
    for (auto& [id, s] : fixed.ids) SIM_CHECK(pool->resolve((simfil::StringId)id) == s, "content", "fixed id %u changed", id);
    std::string img;
    must("write after exhaustion", [&] { img = image(*pool, h - 3); });
    simfil::StringPool back;
    must("read after exhaustion", [&] { load(back, img); });
    for (uint32_t id = h - 3; id <= h; ++id) SIM_CHECK(back.resolve((simfil::StringId)id) == pool->resolve((simfil::StringId)id), "content", "id %u is lost in the image of an exhausted pool", id);
}

static void concurrent(const Plan& p)
{
    auto pool = std::make_unique<simfil::StringPool>();
    for (int64_t i = 0; i < p.get("preload"); ++i) pool->emplace(spell(300 + i, 0));
    fill_pool(*pool, p.get("fill"));
    State st = observe(*pool);
    size_t bytes0 = pool->bytes();
    uint32_t base = pool->highest() + 1u;
    int nt = (int)p.th.size();
    std::vector<std::vector<Event>> hist(nt);
    sim::run_threads(nt, [&](int i) {
        for (auto& op : p.th[i]) {
            Event e;
            e.thread = i;
            e.s = spell(op.arg(0), op.arg(1));
            std::string_view v0;
            e.id = base + (uint32_t)op.arg(0);
            e.inv = sim_seq();
            auto o = sim::attempt(op, [&] {
                if (op.kind == "emplace") { e.kind = EMPLACE; e.rid = pool->emplace(e.s); }
                else if (op.kind == "get") { e.kind = GET; e.rid = pool->get(e.s); }
                else { e.kind = RESOLVE; auto v = pool->resolve((simfil::StringId)e.id); e.rok = v.has_value(); if (v) v0 = *v; }
            });
            e.ret = sim_seq();
            if (e.rok) e.rs = std::string(v0);
            SIM_CHECK(sim_locks_held() == 0, "lock-leak", "a lock is still held after %s", e.text().c_str());
            sim_log("%s%s", e.text().c_str(), o.ok ? "" : " failed");
            sim_event(e.rid * 2 + o.ok);
            if (!o.ok) { SIM_CHECK(o.oom, "unexpected-failure", "%s failed: %s", e.text().c_str(), o.what.c_str()); continue; }  // a failed call must have had no effect
            hist[i].push_back(e);
        }
    });
    std::vector<Event> all;
    for (auto& h : hist) all.insert(all.end(), h.begin(), h.end());
    State fin = observe(*pool);
    check_content(*pool, fin, "after failed inserts");
    SIM_CHECK(fin.ids.size() == fin.names.size(), "content", "%zu ids, %zu names", fin.ids.size(), fin.names.size());
    for (auto& [id, s] : st.ids) SIM_CHECK(fin.ids[id] == s, "content", "id %u changed from '%s' to '%s'", id, s.c_str(), fin.ids[id].c_str());
    SIM_CHECK(fin.maxid - st.maxid == fin.names.size() - st.names.size(), "content", "%zu names were added but %u ids used up", fin.names.size() - st.names.size(), fin.maxid - st.maxid);
    SIM_CHECK(pool->highest() == fin.maxid, "content", "highest() is %u, the highest id is %u", pool->highest(), fin.maxid);
    SIM_CHECK(pool->bytes() - bytes0 == fin.bytes - st.bytes, "content", "bytes() grew by %zu instead of %zu", pool->bytes() - bytes0, fin.bytes - st.bytes);
    for (auto& [id, s] : fin.ids) {
        if (st.ids.count(id)) continue;
        bool known = false;
        for (auto& e : all) known |= e.kind == EMPLACE && e.rid == id && lower(e.s) == lower(s);
        SIM_CHECK(known, "content", "id %u ('%s') appeared although no insert of it succeeded", id, s.c_str());
    }
    check_linearizable(all, st);
    // the fault is gone: everything that failed now works
    for (auto& t : p.th)
        for (auto& op : t)
            if (op.kind == "emplace") {
                std::string s = spell(op.arg(0), op.arg(1));
                uint32_t id = 0, max0 = pool->highest();
                bool had = fin.names.count(lower(s));
                must("retried insert", [&] { id = pool->emplace(s); });
                if (had) SIM_CHECK(id == fin.names[lower(s)].id, "content", "'%s' changed its id", s.c_str());
                else {
                    SIM_CHECK(id == max0 + 1, "content", "retried insert of '%s' gives id %u, expected %u", s.c_str(), id, max0 + 1);
                    fin.add(s, id);
                }
            }
    check_content(*pool, fin, "after retrying");
}

static void sequential(const Plan& p)
{
    auto pool = std::make_unique<simfil::StringPool>();
    for (int64_t i = 0; i < p.get("preload"); ++i) pool->emplace(spell(300 + i, 0));
    fill_pool(*pool, p.get("fill"));
    // images to read: same lineage as the pool, further along
    std::vector<std::string> images;
    std::vector<State> contents;
    {
        simfil::StringPool src(*pool);
        for (int k = 0; k < 4; ++k) {
            for (int i = 0; i < 5; ++i) src.emplace("remote" + std::to_string(k * 5 + i) + (i % 2 ? std::string(25, 'r') : ""));
            images.push_back(image(src, k % 2 ? (uint32_t)src.highest() - 6 : 0));
            contents.push_back(observe(src));
        }
        // keep the pool's own inserts from colliding with remote ids
        if (!p.get("nolift")) load(*pool, image(src, src.highest()));
    }
    // without that, nothing may arrive any more under ids from the pool's first own one on
    uint32_t ownFrom = ~0u;
    State st = observe(*pool);
    auto check = [&](const char* when) {
        State s = observe(*pool);
        check_content(*pool, st, when);
        SIM_CHECK(pool->highest() == st.maxid, "content", "%s: highest() is %u, the highest id is %u", when, pool->highest(), st.maxid);
    };
    check("initially");
    size_t bytesoff = pool->bytes() - st.bytes;
    for (auto& op : p.th[0]) {
        int retries = 0;
        for (; retries < 2; ++retries) {
            int64_t oom = retries ? 0 : op.oom;
            sim::Outcome o;
            bool devfault = false;
            if (op.kind == "emplace") {
                std::string s = spell(op.arg(0), op.arg(1));
                uint32_t id = 0;
                o = sim::attempt(oom, op.oomp, [&] { id = pool->emplace(s); });
                if (o.ok) {
                    auto it = st.names.find(lower(s));
                    if (it != st.names.end()) SIM_CHECK(it->second.id == id, "content", "'%s' has id %u, expected %u", s.c_str(), id, it->second.id);
                    else {
                        SIM_CHECK(id == st.maxid + 1, "content", "new name '%s' gets id %u, expected %u", s.c_str(), id, st.maxid + 1);
                        st.add(s, id);
                        if (p.get("nolift")) ownFrom = std::min(ownFrom, id);
                    }
                }
            } else if (op.kind == "read") {
                size_t k = (size_t)op.arg(0) % images.size();
                if (contents[k].maxid >= ownFrom) break;
                sim::InFault f;
                f.chunk = op.arg(1);
                if (!retries && op.arg(2) >= 0) (op.arg(3) ? f.fail : f.cut) = op.arg(2);
                sim::InBuf b(images[k], f);
                std::istream is(&b);
                if (f.cut >= 0 && f.cut % 3 == 0 && (size_t)f.cut < images[k].size()) is.setstate(std::ios::badbit);     // it failed before
                o = sim::attempt(oom, op.oomp, [&] { pool->read(is); });
                devfault = b.hit();
                SIM_CHECK(!o.ok || !devfault, "error-lost", "a damaged image was read without an error");
                if (o.ok) {
                    for (auto& [id, s] : contents[k].ids)
                        if (id >= 128 && !st.ids.count(id) && (k % 2 == 0 || id >= contents[k].maxid - 6)) { if (!st.names.count(lower(s))) st.add(s, id); }
                } else {
                    // some of the image's entries may have arrived, nothing else
                    State now = observe(*pool);
                    for (auto& [id, s] : now.ids) {
                        if (st.ids.count(id)) continue;
                        auto it = contents[k].ids.find(id);
                        SIM_CHECK(it != contents[k].ids.end() && it->second == s, "content", "after a failed read id %u is '%s', which is not what the image said ('%s')", id, s.c_str(), it == contents[k].ids.end() ? "(nothing)" : it->second.c_str());
                        st.add(s, id);
                    }
                }
            } else if (op.kind == "copy") {
                o = sim::attempt(oom, op.oomp, [&] {
                    simfil::StringPool c(*pool);
                    sim::Quiet q;
                    State s = observe(c);
                    SIM_CHECK(s.ids == st.ids, "content", "a copy differs from its source");
                });
            } else {
                o = sim::attempt(oom, op.oomp, [&] { std::string s = image(*pool, (uint32_t)op.arg(0) + 120); });
            }
            SIM_CHECK(o.ok || o.oom || devfault, "unexpected-failure", "%s failed: %s (%s)", op.kind.c_str(), o.what.c_str(), o.type.c_str());
            SIM_CHECK(sim_locks_held() == 0, "lock-leak", "a lock is still held after %s", op.kind.c_str());
            sim_log("%s %s", op.kind.c_str(), o.ok ? "ok" : "failed");
            sim_event(o.ok);
            check(o.ok ? "after a successful operation" : "after a failed operation");
            SIM_CHECK(pool->bytes() - bytesoff == st.bytes, "content", "bytes() is %zu, stored spellings amount to %zu", pool->bytes() - bytesoff, st.bytes);
            if (o.ok) break;
        }
        SIM_CHECK(retries < 2, "retry", "%s fails again although the fault is gone", op.kind.c_str());
    }
}

static void run(const Plan& p)
{
    switch (p.get("mode")) {
    case 0: concurrent(p); break;
    case 1: sequential(p); break;
    default: exhaustion(p); break;
    }
}

const sim::Scenario sim::scenario{"C05", gen, run, 100000000};
