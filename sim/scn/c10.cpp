// C10: loading JSON from a failing stream adds a root completely or not at all.
#include "docs.h"
#include "simfil/model/json.h"
using namespace pm;
using sim::must;

static void gen(Rng& r, Plan& p, int thorough)
{
    p.par["watch"] = r.chance(1, 2);   // reads by the harness are watched, too
    p.par["base"] = gen_base(r);
    int nt = (int)r.range(1, 3);
    p.th.resize(nt);
    for (int t = 0; t < nt; ++t) {
        int n = (int)r.range(1, thorough ? 9 : 5);
        for (int i = 0; i < n; ++i) {
            // document seed, size, style, chunk, fault position, fault kind, stall, overload
            Op o{"load", {(int64_t)r.below(100000), r.logrange(1, thorough ? 100 : 40), (int64_t)r.below(4), (int64_t)r.below(9), -1, 0, (int64_t)r.below(3), (int64_t)r.below(8)}};
            o.a.push_back(r.chance(1, 8));        // 8: a scalar document
            o.a.push_back((int64_t)r.below(12));  // 9: before: empty the model / start a new one / load into a model of its own
            o.a.push_back(r.chance(1, 12) ? r.logrange(1000, 40000) : 0);   // 10: bulk
            o.a.push_back(r.chance(1, 4));        // 11: no second attempt after a failure
            o.a.push_back(r.chance(1, 40) ? r.chance(1, 2) ? r.logrange(20, 60000) : 500 + (int64_t)r.below(20) : 0);   // 12: nested that deep
            int64_t far = o.a[10] ? 100000 : 3000;
            switch (r.below(5)) {
            case 0: o.a[4] = r.logrange(0, far); o.a[5] = 0; break;   // ends early
            case 1: o.a[4] = r.logrange(0, far); o.a[5] = 1; break;   // fails
            case 2: o.a[4] = r.logrange(0, far); o.a[5] = 2; break;   // a byte is damaged
            case 3: o.oom = r.logrange(1, 400); o.oomp = r.chance(1, 3); break;
            }
            p.th[t].push_back(o);
        }
    }
}

static void run(const Plan& p)
{
    watch_reads = p.get("watch");
    auto pool = std::make_shared<simfil::StringPool>();
    lift(*pool, p.get("base"));
    sim::run_threads((int)p.th.size(), [&](int t) {
        auto m = std::make_shared<simfil::ModelPool>(pool);
        std::vector<std::string> want;
        for (auto& op : p.th[t]) {
            Doc d = gen_doc(op.arg(0), op.arg(1), true);
            bulk(d, (size_t)op.arg(10));
            if (op.arg(9) == 0) {
                sim_log("empty the model");
                must("emptying", [&] { m->clear(); });
                want.clear();
            }
            if (op.arg(9) == 1) {
                sim_log("a new model");
                must("starting anew", [&] { m.reset(); m = std::make_shared<simfil::ModelPool>(pool); });
                want.clear();
            }
            if (op.arg(8)) { while (d.k == Doc::ARR || d.k == Doc::OBJ) { if (d.kids.empty()) d = Doc(); else { Doc k = d.kids.back().second; d = k; } } }
            else if (d.k != Doc::OBJ && d.k != Doc::ARR) { Doc a; a.k = Doc::ARR; a.kids.push_back({"", d}); d = a; }
            int64_t deep = op.arg(12);
            if (deep > 0 && deep <= 600)
                for (int64_t i = 0; i < deep; ++i) { Doc o; o.k = i % 3 ? Doc::ARR : Doc::OBJ; o.kids.push_back({i % 3 ? "" : "deep", std::move(d)}); d = std::move(o); }
            if (deep > 600) {
                // nobody can say whether that many levels fit: no crash, and no root without success
                std::string text(deep, '['), far = text + std::string(deep, ']');
                auto o = sim::attempt([&] { simfil::json::parse(far, m); });
                sim_count("fault.deep_nesting", 1);
                sim_event(o.ok);
                if (o.ok) return;
                auto got = render_roots(*m);
                SIM_CHECK(got == want, "content", "a refused document with %lld levels leaves the model with %zu roots instead of %zu, or others", (long long)deep, got.size(), want.size());
                must("validating", [&] { m->validate(); });
                continue;
            }
            std::string good = op.arg(2) & 1 ? " \n" : "", bad;
            json(d, good);
            if (op.arg(2) & 2) good += "\n";
            size_t end = good.find_last_not_of(" \n") + 1;
            bool own = op.arg(9) == 2;   // json::parse(text) makes the model
            for (int round = 0; round < (op.arg(11) ? 1 : 2); ++round) {
                bad = good;
                sim::InFault f;
                f.chunk = op.arg(3);
                f.stall = op.arg(6);
                bool damaged = false, viaString = own || op.arg(7) == 0;
                if (round == 0 && op.arg(4, -1) >= 0) {
                    size_t at = (size_t)op.arg(4) % end;
                    bool shorter = op.arg(8) && op.arg(5) == 0;   // what a scalar that ends early says may be valid
                    if (shorter) at = 0;
                    damaged = true;
                    if (op.arg(5) == 2 || viaString) { bad[at] = '\x01'; sim_count("fault.damaged_text", 1); }   // never valid, inside strings or outside
                    else (op.arg(5) ? f.fail : f.cut) = (int64_t)at;
                }
                simfil::ModelPoolPtr mine;
                auto o = sim::attempt(round ? 0 : op.oom, op.oomp, [&] {
                    if (own) { mine = simfil::json::parse(bad); return; }
                    if (viaString) { simfil::json::parse(bad, m); return; }
                    sim::InBuf b(bad, f);
                    std::istream is(&b);
                    simfil::json::parse(is, m);
                });
                sim_log("load %zu bytes (%s): %s", bad.size(), damaged ? "damaged" : op.oom && !round ? "out of memory" : "healthy", o.ok ? "ok" : o.what.c_str());
                sim_event(o.ok);
                SIM_CHECK(sim_locks_held() == 0, "lock-leak", "a lock is held after loading");
                SIM_CHECK(!damaged || !o.ok, "error-lost", "a damaged document was loaded without an error: %.200s", bad.c_str());
                if (deep > 200 && !o.ok && !o.fired && !damaged) damaged = true;   // too deep for it
                SIM_CHECK(o.ok || damaged || o.fired, "unexpected-failure", "loading a healthy document failed: %s", o.what.c_str());
                if (own) {
                    SIM_CHECK(o.ok == !!mine, "content", "parse() yields %s", mine ? "a model" : "no model");
                    if (!o.ok) continue;
                    auto got = render_roots(*mine);
                    SIM_CHECK(got.size() == 1 && got[0] == render(sorted(d)), "content", "the loaded model has %zu roots, the first is %.500s", got.size(), got.empty() ? "" : got[0].c_str());
                    must("releasing", [&] { mine.reset(); });
                    break;
                }
                if (o.ok) want.push_back(render(sorted(d)));
                auto got = render_roots(*m);
                SIM_CHECK(got.size() == want.size(), "content", "%s load: the model has %zu roots instead of %zu", o.ok ? "a" : "a failed", got.size(), want.size());
                for (size_t i = 0; i < want.size(); ++i)
                    SIM_CHECK(got[i] == want[i], "content", "%s load: root %zu is %.500s, expected %.500s", o.ok ? "a" : "a failed", i, got[i].c_str(), want[i].c_str());
                must("validating", [&] { m->validate(); });
                if (o.ok) break;
            }
        }
        // the model can be shipped
        std::string img;
        must("writing", [&] { img = model_image(*m); });
        auto y = std::make_shared<simfil::ModelPool>(pool);
        sim::InBuf b(img, {});
        std::istream is(&b);
        must("reading", [&] { y->read(is); });
        SIM_CHECK(render_roots(*y) == want, "content", "the loaded documents are not restored from the model's image");
        must("releasing", [&] { m.reset(); y.reset(); });
    });
}

const sim::Scenario sim::scenario{"C10", gen, run, 100000000, 256ull << 20};
