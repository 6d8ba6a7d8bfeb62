// C07: a corrupted model image cannot cause memory errors; validation is sound.
#include "docs.h"
#include "simfil/simfil.h"
#include "simfil/environment.h"
#include <set>
#include <unordered_map>
using namespace pm;
using sim::must;

static void gen(Rng& r, Plan& p, int thorough)
{
    p.par["base"] = gen_base(r);
    int nt = 1;   // a damaged length may take all memory there is
    p.th.resize(nt);
    if (r.chance(1, 50)) {
        // how deep, how it is built
        p.par["memcap"] = 64;
        p.th[0].push_back({"deep", {r.chance(1, 2) ? r.logrange(100, 100000) : 500 + (int64_t)r.below(20), (int64_t)r.below(2), (int64_t)r.below(1000000)}});
        return;
    }
    for (int t = 0; t < nt; ++t) {
        int roots = (int)r.range(1, 4);
        for (int i = 0; i < roots; ++i) p.th[t].push_back({"root", {(int64_t)r.below(100000), r.logrange(1, thorough ? 100 : 40), (int64_t)r.chance(1, 3)}});
        int reads = (int)r.range(1, 8);
        for (int i = 0; i < reads; ++i) {
            int n = (int)r.logrange(1, 6);
            for (int k = 0; k < n; ++k) {
                int64_t kind = (int64_t)r.below(8);
                int64_t v = 0;
                switch (kind) {
                case 0: v = (int64_t)r.range(1, 255); break;                                 // xor a byte
                case 1: v = (int64_t)r.below(256); break;                                    // set a byte
                case 2: case 3: case 4: case 5:                                              // write a node address
                    v = (int64_t)((r.below(40) << 8) | (r.chance(2, 3) ? (uint64_t)r.range(5, 6) : r.below(12))); break;
                case 6: v = (int64_t)r.next() & 0xffffffff; break;                           // write 4 random bytes
                default: v = r.range(-9, 9); break;                                          // add to a byte
                }
                p.th[t].push_back({"flip", {(int64_t)r.below(1 << 20), kind, v}});
            }
            if (r.chance(1, 8)) p.th[t].push_back({"cutout", {(int64_t)r.below(1 << 20), (int64_t)r.range(-4, 4)}});
            Op o{"read", {(int64_t)r.below(2), (int64_t)r.below(9)}};
            if (r.chance(1, 10)) o.oom = r.logrange(1, 60);
            p.th[t].push_back(o);
        }
    }
}

// number of node visits a full traversal makes (containers are shared in a damaged model)
static uint64_t expansion(const simfil::ModelNode::Ptr& n, std::unordered_map<uint32_t, uint64_t>& memo, int depth)
{
    if (!n) return 1;
    auto t = n->type();
    if (t != simfil::ValueType::Object && t != simfil::ValueType::Array) return 1;
    if (depth > 600) sim_violation("validation", "the error check passed a model with unbounded nesting");
    auto a = n->addr().value_;
    auto it = memo.find(a);
    if (it != memo.end()) return it->second;
    uint64_t s = 1;
    for (uint32_t i = 0, e = n->size(); i < e; ++i) s += expansion(n->at(i), memo, depth + 1);
    if (s > 1000000000) s = 1000000000;
    memo[a] = s;
    return s;
}

// look at every result
static void touch(const std::vector<simfil::Value>& res)
{
    uint64_t h = 0;
    for (auto& v : res) {
        if (v.node) h += v.node->addr().value_ + v.node->size();
        if (v.isa(simfil::ValueType::String))
            for (char c : v.as<simfil::ValueType::String>()) h = h * 31 + (unsigned char)c;
    }
    sim_event(h);
}

// Fails only for lack of memory (a damaged length can make the model fill the whole memory).
template <class F>
static bool may_run_out(const char* what, F&& f)
{
    auto o = sim::attempt(std::forward<F>(f));
    SIM_CHECK(o.ok || o.oom, "unexpected-failure", "%s failed: %s", what, o.what.c_str());
    return o.ok;
}

static void check(simfil::ModelPool& m, simfil::Environment& env, const simfil::Expr& wild)
{
    std::vector<std::string> errors;
    if (!may_run_out("checking for errors", [&] { errors = m.checkForErrors(); })) return;
    sim_event(errors.size());
    sim_count(errors.empty() ? "image.accepted_clean" : "image.reported", 1);
    auto v = sim::attempt([&] { m.validate(); });
    SIM_CHECK(v.oom || v.ok == errors.empty(), "validation", "validate() and checkForErrors() disagree");
    if (!errors.empty()) { sim_log("%zu errors, first: %s", errors.size(), errors[0].c_str()); return; }
    std::unordered_map<uint32_t, uint64_t> memo;
    uint64_t total = 0;
    if (!may_run_out("walking a validated model", [&] { for (size_t i = 0; i < m.numRoots(); ++i) total += expansion(m.root(i), memo, 0); })) return;
    sim_event(total);
    if (total > 5000) return;
    std::vector<std::string> all;
    if (!may_run_out("traversing a validated model", [&] { all = render_roots(m, true, true); })) return;
    may_run_out("toJson of a validated model", [&] { m.toJson(); });
    may_run_out("query on a validated model", [&] {
        for (size_t i = 0; i < m.numRoots(); ++i) {
            auto n = m.root(i);
            if (!n) continue;
            auto res = simfil::eval(env, wild, *n);
            touch(res);
        }
    });
}

// A damaged image may chain up all the containers there are.
static void deep(const Op& op, std::shared_ptr<simfil::StringPool> const& pool, simfil::Environment& env, const simfil::Expr& wild)
{
    auto m = std::make_shared<simfil::ModelPool>(pool), x = std::make_shared<simfil::ModelPool>(pool);
    int64_t n = op.arg(0);
    Rng r((uint64_t)op.arg(2));
    bool branches = r.chance(1, 2);
    std::string img;
    if (!may_run_out("building", [&] {
        simfil::ModelNode::Ptr down, in, first;
        for (int64_t i = 0; i < n; ++i) {
            simfil::model_ptr<simfil::Object> o;
            simfil::model_ptr<simfil::Array> a;
            bool obj = r.chance(1, 2), last = i + 1 == n;
            simfil::ModelNode::Ptr c;
            if (last && op.arg(1)) c = m->newValue((int64_t)7);
            else if (obj) c = o = m->newObject(1);
            else c = a = m->newArray(1);
            auto link = [](simfil::ModelPool& m, simfil::ModelNode::Ptr const& to, simfil::ModelNode::Ptr const& what) {
                if (to->addr().column() == simfil::ModelPool::Objects) m.resolveObject(to)->addField("a", what);
                else m.resolveArray(to)->append(what);
            };
            if (!first) first = c;
            auto more = op.arg(1) ? in : c;
            if (op.arg(1)) { if (i) link(*m, in, c); }      // from the outside inwards
            else if (i) link(*m, c, in);
            if (i && branches && r.chance(1, 8)) link(*m, more, m->newValue(r.chance(1, 2) ? (int64_t)i : (int64_t)1 << 40));
            in = c;
        }
        m->addRoot(op.arg(1) ? first : in);
    })) return;
    must("writing", [&] { img = model_image(*m); });
    sim::InBuf b(img, {});
    std::istream is(&b);
    if (!may_run_out("reading", [&] { x->read(is); })) return;
    sim_count("fault.deep_nesting", 1);
    for (auto* y : {&m, &x}) {
        check(**y, env, wild);
        if (n <= 200) may_run_out("validating", [&] { (*y)->validate(); });
    }
    must("destroying models", [&] { m.reset(); x.reset(); });
}

static void run(const Plan& p)
{
    auto pool = std::make_shared<simfil::StringPool>();
    lift(*pool, p.get("base"));
    simfil::Environment env(pool);
    simfil::ExprPtr wild;
    must("compile", [&] { wild = simfil::compile(env, "**", false); });
    sim::run_threads((int)p.th.size(), [&](int t) {
        auto m = std::make_shared<simfil::ModelPool>(pool);
        std::vector<std::string> want;
        std::string img, bad;
        std::shared_ptr<simfil::ModelPool> x;
        for (auto& op : p.th[t]) {
            if (op.kind == "deep") { deep(op, pool, env, *wild); continue; }
            if (op.kind == "root") {
                Doc d = gen_doc(op.arg(0), op.arg(1));
                must("building", [&] {
                    auto n = Builder(*m, (uint64_t)op.arg(0)).build(d);
                    m->addRoot(n);
                    if (op.arg(2)) { m->addRoot(n); want.push_back(render(d)); }
                });
                want.push_back(render(d));
                img.clear();
                continue;
            }
            if (img.empty()) {
                must("writing", [&] { img = model_image(*m); });
                bad = img;
            }
            if (op.kind == "flip" && !bad.empty()) {
                size_t at = (size_t)op.arg(0) % bad.size();
                int64_t v = op.arg(2);
                sim_count("fault.corrupted_bytes", 1);
                switch (op.arg(1)) {
                case 0: bad[at] ^= (char)v; break;
                case 1: bad[at] = (char)v; break;
                case 7: bad[at] = (char)(bad[at] + v); break;
                default:
                    for (size_t k = 0; k < 4 && at + k < bad.size(); ++k) bad[at + k] = (char)(v >> (8 * k));
                }
            } else if (op.kind == "cutout" && !bad.empty()) {
                size_t at = (size_t)op.arg(0) % bad.size();
                int64_t n = op.arg(1);
                if (n < 0) bad.erase(at, (size_t)-n);
                else bad.insert(at, (size_t)n, '\x05');
                sim_count("fault.shifted_bytes", 1);
            } else if (op.kind == "read") {
                if (!x || op.arg(0) == 0) x = std::make_shared<simfil::ModelPool>(pool);
                sim::InFault f;
                f.chunk = op.arg(1);
                sim::InBuf b(bad, f);
                std::istream is(&b);
                auto o = sim::attempt(op, [&] { x->read(is); });
                sim_log("damaged image of %zu bytes: %s", bad.size(), o.ok ? "accepted" : o.what.c_str());
                sim_event(o.ok);
                sim_count(o.ok ? "image.read" : "image.refused", 1);
                if (bad == img) SIM_CHECK(o.ok || o.oom, "unexpected-failure", "an undamaged image was refused: %s", o.what.c_str());
                if (o.ok) check(*x, env, *wild);
                // the undamaged image can be read into the same object
                for (int k = 0;; ++k) {
                    sim::InBuf b2(img, {});
                    std::istream is2(&b2);
                    auto o2 = sim::attempt([&] { x->read(is2); });
                    if (o2.ok) break;
                    SIM_CHECK(o2.oom && k == 0 && bad != img, "unexpected-failure", "reading the undamaged image afterwards failed: %s", o2.what.c_str());
                    must("clear", [&] { x->clear(); });
                }
                SIM_CHECK(render_roots(*x) == want, "content", "the undamaged image is not restored after a damaged one");
                may_run_out("validating", [&] { x->validate(); });
                bad = img;
            }
        }
        SIM_CHECK(render_roots(*m) == want, "content", "another model changed");
        must("destroying models", [&] { m.reset(); x.reset(); });
    });
}

const sim::Scenario sim::scenario{"C07", gen, run, 100000000, 2ull << 20};
