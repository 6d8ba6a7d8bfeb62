// C06: a model image is restored exactly or its damage is reported.
#include "docs.h"
using namespace pm;
using sim::must;

static void gen(Rng& r, Plan& p, int thorough)
{
    p.par["watch"] = r.chance(1, 2);   // reads by the harness are watched, too
    p.par["base"] = gen_base(r);
    int nt = r.chance(2, 3) ? 1 : (int)r.range(2, 3);
    p.par["wide"] = r.chance(1, 60) ? r.range(8190, 8200) : r.chance(1, 250) ? r.range(65530, 65545) : 0;
    p.par["widekind"] = p.par["wide"] ? (int64_t)r.below(5) : 0;
    p.par["bigstr"] = r.chance(1, 40) ? r.range(65500, 65600) : 0;
    if (p.par["wide"] > 60000) nt = 1;
    p.th.resize(nt);
    if (p.par["wide"] > 60000) {
        p.th[0] = {{"write", {-1, 0, 0}}, {"read", {0, 0, -1, 0, 0}}};
        return;
    }
    for (int t = 0; t < nt; ++t) {
        int roots = (int)r.range(0, 4);
        for (int i = 0; i < roots; ++i) p.th[t].push_back({"root", {(int64_t)r.below(100000), r.logrange(1, thorough ? 120 : 40), i == 0 && r.chance(1, 40) ? r.logrange(1000, 40000) : 0}});
        // write to a device that may fill up
        int images = (int)r.range(1, 3);
        for (int i = 0; i < images; ++i) {
            Op w{"write", {r.chance(1, 4) ? r.logrange(0, 800) : -1, (int64_t)r.below(2), (int64_t)r.below(3)}};
            p.th[t].push_back(w);
            int reads = (int)r.range(1, 3);
            for (int k = 0; k < reads; ++k) {
                // target: 0 fresh model, 1 the model read into before, 2 a model holding other content, 3 the written model itself
                Op o{"read", {(int64_t)r.below(4), (int64_t)r.below(12), r.chance(1, 2) ? (r.chance(1, 2) ? r.logrange(0, r.chance(1, 4) ? 200000 : 3000) : (int64_t)r.below(600)) : -1, (int64_t)r.below(2), (int64_t)r.below(3)}};
                if (r.chance(1, 5)) { o.oom = r.logrange(1, 60); o.oomp = r.chance(1, 3); }
                p.th[t].push_back(o);
            }
            if (r.chance(1, 3)) p.th[t].push_back({"root", {(int64_t)r.below(100000), r.logrange(1, 30)}});
        }
    }
}

static void run(const Plan& p)
{
    watch_reads = p.get("watch");
    auto pool = std::make_shared<simfil::StringPool>();
    lift(*pool, p.get("base"));
    sim::run_threads((int)p.th.size(), [&](int t) {
        auto m = std::make_shared<simfil::ModelPool>(pool);
        std::shared_ptr<simfil::ModelPool> target;
        std::vector<std::string> want, wantImg;
        std::string img;
        bool complete = false;
        if (p.get("wide") && t == 0) {
            Doc d = gen_wide(p.get("wide"), p.get("widekind"));
            must("building", [&] { m->addRoot(Builder(*m, 1).build(d)); });
            want.push_back(render(d));
        }
        if (p.get("bigstr") && t == 0) {
            Doc d;
            d.k = Doc::STR;
            d.s = std::string((size_t)p.get("bigstr"), 's') + "end";
            must("building", [&] { m->addRoot(Builder(*m, 1).build(d)); });
            want.push_back(render(d));
        }
        for (auto& op : p.th[t]) {
            if (op.kind == "root") {
                Doc d = gen_doc(op.arg(0), op.arg(1), false, true);
                bulk(d, (size_t)op.arg(2));
                must("building", [&] { m->addRoot(Builder(*m, (uint64_t)op.arg(0)).build(d)); });
                want.push_back(render(d));
            } else if (op.kind == "write") {
                sim::OutBuf b({op.arg(0, -1), (int)op.arg(1), op.arg(2)});
                std::ostream os(&b);
                auto o = sim::attempt([&] { m->write(os); });
                SIM_CHECK(o.ok || b.hit, "unexpected-failure", "write failed without a fault: %s", o.what.c_str());
                img = b.data;
                complete = !b.hit;
                wantImg = want;
                SIM_CHECK(render_roots(*m) == want, "content", "writing a model changed it");
                // the same content gives the same image
                std::string again;
                must("write", [&] { again = model_image(*m); });
                if (complete) SIM_CHECK(again == img, "content", "writing the same model twice gives different images (%zu and %zu bytes)", img.size(), again.size());
                else SIM_CHECK(again.size() > img.size() && again.compare(0, img.size(), img) == 0, "content", "an incomplete image is not a prefix of the complete one");
            } else if (op.kind == "read" && (complete || !img.empty() || op.arg(0) == 0)) {
                if (img.empty() && !complete) continue;
                std::shared_ptr<simfil::ModelPool> x;
                switch (op.arg(0)) {
                case 1: x = target; break;
                case 2: {
                    x = std::make_shared<simfil::ModelPool>(pool);
                    Doc d = gen_doc(op.arg(1) + 99, 12);
                    must("building", [&] { x->addRoot(Builder(*x, 5).build(d)); x->addRoot(x->newObject()); });
                    break;
                }
                case 3: if (complete && wantImg == want) x = m; break;
                }
                if (!x) x = std::make_shared<simfil::ModelPool>(pool);
                for (int round = 0; round < 2; ++round) {
                    sim::InFault f;
                    f.chunk = op.arg(1);
                    f.stall = op.arg(4);
                    if (round == 0 && op.arg(2, -1) >= 0) (op.arg(3) ? f.fail : f.cut) = op.arg(2) % (int64_t)(img.size() + 1);
                    std::string tail = "\x01\x02\x03 following data";
                    sim::InBuf b(complete && f.cut < 0 && f.fail < 0 ? img + tail : img, f);
                    std::istream is(&b);
                    if (f.cut >= 0 && f.cut < (int64_t)img.size() && f.cut % 3 == 0) is.setstate(std::ios::badbit);     // it failed before
                    auto o = sim::attempt(round ? 0 : op.oom, op.oomp, [&] { x->read(is); });
                    bool damaged = !complete || f.cut >= 0 && f.cut < (int64_t)img.size() || f.fail >= 0 && f.fail < (int64_t)img.size();
                    if (damaged && !complete) sim_count("fault.incomplete_image", 1);
                    sim_log("read %zu bytes, chunk %lld cut %lld fail %lld: %s", img.size(), (long long)f.chunk, (long long)f.cut, (long long)f.fail, o.ok ? "ok" : o.what.c_str());
                    sim_event(o.ok);
                    SIM_CHECK(!damaged || !o.ok, "error-lost", "a damaged image (%zu of its bytes) was read without an error", f.cut >= 0 ? (size_t)f.cut : f.fail >= 0 ? (size_t)f.fail : img.size());
                    SIM_CHECK(o.ok || damaged || o.oom, "unexpected-failure", "a complete image cannot be read: %s", o.what.c_str());
                    SIM_CHECK(sim_locks_held() == 0, "lock-leak", "a lock is still held after read()");
                    if (o.ok) {
                        if (f.cut < 0 && f.fail < 0) SIM_CHECK(b.consumed() == img.size(), "content", "read consumed %zu of %zu bytes", b.consumed(), img.size());
                        auto got = render_roots(*x);
                        SIM_CHECK(got.size() == wantImg.size(), "content", "restored model has %zu roots instead of %zu", got.size(), wantImg.size());
                        for (size_t i = 0; i < got.size(); ++i) SIM_CHECK(got[i] == wantImg[i], "content", "root %zu is %.600s, written was %.600s", i, got[i].c_str(), wantImg[i].c_str());
                        must("validating", [&] { x->validate(); });
                        std::string again;
                        must("write", [&] { again = model_image(*x); });
                        SIM_CHECK(again == img, "content", "restored model writes a different image");
                        // a restored model can be extended
                        Doc d = gen_doc(op.arg(1), 6);
                        if (op.arg(0) == 0) {
                            must("building on a restored model", [&] { x->addRoot(Builder(*x, 3).build(d)); });
                            auto more = render_roots(*x);
                            SIM_CHECK(more.size() == wantImg.size() + 1 && more.back() == render(d), "content", "adding to a restored model gives the wrong root");
                            for (size_t i = 0; i < got.size(); ++i) SIM_CHECK(more[i] == wantImg[i], "content", "adding to a restored model changed root %zu", i);
                        } else
                            target = x;
                        break;
                    }
                    if (x == m) { m = std::make_shared<simfil::ModelPool>(pool); want.clear(); }  // its content is gone
                    if (!complete) break;
                    target = x;
                }
            }
        }
        must("destroying models", [&] { m.reset(); target.reset(); });
    });
}

const sim::Scenario sim::scenario{"C06", gen, run, 400000000, 256ull << 20};
