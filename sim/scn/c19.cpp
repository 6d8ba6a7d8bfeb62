// C19: nodes and results keep what they refer to alive.
#include "queries.h"
using namespace pm;
using sim::must;

static void gen(Rng& r, Plan& p, int thorough)
{
    p.par["base"] = gen_base(r);
    int nm = (int)r.range(1, 3), nq = (int)r.range(1, 4), np = (int)r.range(1, 2);
    p.par["models"] = nm;
    p.par["queries"] = nq;
    p.par["pools"] = np;
    p.par["last"] = r.chance(1, 3) ? 7 : r.range(-1, 7);     // the kind of handles to go last
    p.par["split"] = r.chance(1, 2);    // of several results one remains
    for (int i = 0; i < nm; ++i) {
        p.par["doc" + std::to_string(i)] = (int64_t)r.below(1000000);
        p.par["docsize" + std::to_string(i)] = r.logrange(2, thorough ? 40 : 20);
    }
    for (int i = 0; i < nq; ++i) {
        p.par["q" + std::to_string(i)] = (int64_t)r.below(100000000);
        p.par["qd" + std::to_string(i)] = r.range(1, thorough ? 5 : 4);
        p.par["keys" + std::to_string(i)] = r.chance(1, 2) ? r.range(1, 6) : 0;
        p.par["any" + std::to_string(i)] = r.chance(1, 8);
    }
    int nt = (int)r.range(1, thorough ? 6 : 4);
    p.th.resize(nt);
    static const std::vector<std::string> kinds = {"root", "child", "child", "field", "typed", "value", "eval", "eval", "eval", "part", "part", "box", "copy", "copy", "move", "assign", "read", "send", "send", "drop", "drop", "drop", "dropkind", "strings"};
    for (int t = 0; t < nt; ++t) {
        int n = (int)r.range(3, thorough ? 60 : 30);
        for (int i = 0; i < n; ++i) {
            Op o{r.pick(kinds), {(int64_t)r.below(64), (int64_t)r.below(64), (int64_t)r.below(64)}};
            if (r.chance(1, 14)) { o.oom = r.logrange(1, 12); o.oomp = r.chance(1, 4); }
            p.th[t].push_back(o);
        }
    }
}

static const char* whole[] = {"keys(**)", "**", "*", "**{typeof _ == 'string'}", "arr(**, 'x' + (** as string))", "select(**, 1, 9)"};

// A handle of the application to something of the library, with what it must read.
struct Handle
{
    enum K { MODEL, POOL, ENV, EXPR, NODE, OBJECT, ARRAY, VALUES } k;
    std::shared_ptr<simfil::ModelPool> model;
    std::shared_ptr<simfil::StringPool> pool;
    std::shared_ptr<simfil::Environment> env;
    std::shared_ptr<simfil::Expr> expr;
    simfil::ModelNode::Ptr node;
    simfil::model_ptr<simfil::Object> object;
    simfil::model_ptr<simfil::Array> array;
    std::vector<simfil::Value> values;
    int m = -1, p = -1, q = -1, e = -1;     // model, pool, query, environment it (possibly) needs
    std::string want;
};
using HP = std::shared_ptr<Handle>;

static std::string part(const std::string& want, size_t i)
{
    size_t from = 0;
    while (i--) from = want.find('\x01', from) + 1;
    return want.substr(from, want.find('\x01', from) + 1 - from);
}
static std::string read(const Handle& h)
{
    std::string s;
    must("reading through a handle", [&] {
        switch (h.k) {
        case Handle::MODEL: s = h.model->toJson().dump(); break;
        case Handle::POOL: s = std::to_string(h.pool->get("a")) + std::string(*h.pool->resolve(h.pool->get("a"))); break;
        case Handle::ENV: s = std::to_string(h.env->functions.size()) + std::string(*h.env->strings()->resolve(h.env->strings()->get("a"))); break;
        case Handle::EXPR: s = h.expr->toString(); break;
        case Handle::NODE: s = h.node->toJson().dump(); break;
        case Handle::OBJECT: s = h.object->toJson().dump(); break;
        case Handle::ARRAY: s = h.array->toJson().dump(); break;
        default:
            for (auto& v : h.values) {
                s += simfil::valueType2String(v.type);
                s += ":";
                if (v.type != simfil::ValueType::Object && v.type != simfil::ValueType::Array) s += v.toString();
                if (v.node) { s += "@"; s += v.node->toJson().dump(); }
                s += "\x01";
            }
        }
    });
    return s;
}

static void run(const Plan& p)
{
    std::unordered_set<const void*> live;
    BoxType::live = &live;
    int nm = (int)p.get("models"), nq = (int)p.get("queries"), np = (int)p.get("pools"), nt = (int)p.th.size(), last = (int)p.get("last");
    std::vector<std::weak_ptr<simfil::StringPool>> wpool((size_t)np);
    std::vector<std::weak_ptr<simfil::Environment>> wenv((size_t)np);
    std::vector<std::weak_ptr<simfil::ModelPool>> wmodel((size_t)nm);
    std::vector<int> poolof((size_t)nm);
    UserFns fns;
    std::vector<std::vector<HP>> bag((size_t)nt), mail((size_t)nt);
    // distribute: every thread gets a handle to a part of the things
    {
        std::vector<std::shared_ptr<simfil::StringPool>> pools((size_t)np);
        std::vector<std::shared_ptr<simfil::Environment>> envs((size_t)np);
        must("setting up", [&] {
            for (int i = 0; i < np; ++i) {
                pools[i] = std::make_shared<simfil::StringPool>();
                lift(*pools[i], p.get("base"));
                pools[i]->emplace("a");
                envs[i] = std::make_shared<simfil::Environment>(pools[i]);
                fns.install(*envs[i]);
                wpool[i] = pools[i];
                wenv[i] = envs[i];
            }
        });
        auto give = [&](Handle&& h, uint64_t mask) {
            h.want = read(h);
            for (int t = 0; t < nt; ++t)
                if (mask >> t & 1) must("copying", [&] { bag[t].push_back(std::make_shared<Handle>(h)); });
        };
        Rng r((uint64_t)p.get("doc0") + 5);
        auto mask = [&] { return r.next() | 1ull << r.below((uint64_t)nt); };
        for (int m = 0; m < nm; ++m) {
            Handle h;
            h.k = Handle::MODEL;
            h.m = m;
            h.p = poolof[m] = m % np;
            must("building", [&] { h.model = std::make_shared<ProcModel>(pools[m % np]); });
            wmodel[m] = h.model;
            Doc d = gen_doc(p.get(("doc" + std::to_string(m)).c_str()), p.get(("docsize" + std::to_string(m)).c_str()), true);
            must("building", [&] { h.model->addRoot(Builder(*h.model, 5).build(d)); });
            give(std::move(h), mask());
        }
        for (int q = 0; q < nq; ++q) {
            auto text = p.get(("keys" + std::to_string(q)).c_str()) ? std::string(whole[p.get(("keys" + std::to_string(q)).c_str()) - 1]) : gen_query(p.get(("q" + std::to_string(q)).c_str()), (int)p.get(("qd" + std::to_string(q)).c_str()), true);
            Handle h;
            h.k = Handle::EXPR;
            h.q = q;
            h.p = q % np;
            h.e = q % np;    // functions and environments outlive their expressions' evaluation only
            auto o = sim::attempt([&] { h.expr = simfil::compile(*envs[q % np], text, p.get(("any" + std::to_string(q)).c_str())); });
            sim_log("query %d: %s -> %s", q, text.c_str(), o.ok ? "ok" : o.what.c_str());
            h.e = -1;
            if (h.expr) give(std::move(h), mask());
            must("releasing", [&] { h.expr.reset(); });
        }
        for (int i = 0; i < np; ++i) {
            Handle h;
            h.k = Handle::POOL; h.p = i; h.pool = pools[i];
            give(std::move(h), mask());
            Handle g;
            g.k = Handle::ENV; g.p = i; g.e = i; g.env = envs[i];
            give(std::move(g), mask());
        }
        must("releasing", [&] { pools.clear(); envs.clear(); });
    }
    auto drop = [&](std::vector<HP>& b, size_t i) {
        HP h = std::move(b[i]);
        b.erase(b.begin() + (long)i);
        if (h.use_count() == 1) must("releasing a handle", [&] { h.reset(); });
        sim_count("handles.released", 1);
    };
    auto check = [&](const Handle& h) {
        auto got = read(h);
        SIM_CHECK(got == h.want, "lifetime", "a handle of kind %d reads %.500s, it read %.500s before", (int)h.k, got.c_str(), h.want.c_str());
    };
    auto find = [&](std::vector<HP>& b, Handle::K k, int64_t from) -> HP {
        for (size_t i = 0; i < b.size(); ++i) { auto& h = b[(size_t)(from + (int64_t)i) % b.size()]; if (h->k == k) return h; }
        return nullptr;
    };
    sim::run_threads(nt, [&](int t) {
        auto& b = bag[t];
        for (auto& op : p.th[t]) {
            sim_acquire(&mail[t]);
            for (auto& h : mail[t]) b.push_back(std::move(h));
            mail[t].clear();
            auto& k = op.kind;
            auto add = [&](HP h) { h->want = read(*h); b.push_back(std::move(h)); };
            auto make = [&](const Handle& from, Handle::K kind) { HP h; must("a handle", [&] { h = std::make_shared<Handle>(); }); h->k = kind; h->m = from.m; h->p = from.p; return h; };
            if (b.empty()) continue;
            size_t i = (size_t)op.arg(0) % b.size();
            sim::Outcome o;
            if (k == "root") {
                if (auto f = find(b, Handle::MODEL, op.arg(0))) {
                    auto h = make(*f, Handle::NODE);
                    o = sim::attempt(op, [&] { h->node = f->model->root(0); });
                    if (o.ok) add(h);
                }
            } else if (k == "child" || k == "field") {
                if (auto f = find(b, Handle::NODE, op.arg(0))) {
                    auto h = make(*f, Handle::NODE);
                    o = sim::attempt(op, [&] {
                        auto n = f->node->size();
                        if (!n) return;
                        if (k == "child") h->node = f->node->at(op.arg(1) % n);
                        else if (f->node->type() == simfil::ValueType::Object) h->node = f->node->get(f->node->keyAt(op.arg(1) % n));
                    });
                    if (o.ok && h->node) add(h);
                }
            } else if (k == "typed") {
                auto f = find(b, Handle::NODE, op.arg(0));
                auto m = f ? find(b, Handle::MODEL, op.arg(1)) : nullptr;
                if (f && m && m->m == f->m) {
                    bool obj = false, arr = false;
                    must("type", [&] { obj = f->node->addr().column() == simfil::ModelPool::Objects; arr = f->node->addr().column() == simfil::ModelPool::Arrays; });
                    if (obj) {
                        auto h = make(*f, Handle::OBJECT);
                        o = sim::attempt(op, [&] { h->object = m->model->resolveObject(f->node); });
                        if (o.ok) add(h);
                    } else if (arr) {
                        auto h = make(*f, Handle::ARRAY);
                        o = sim::attempt(op, [&] { h->array = m->model->resolveArray(f->node); });
                        if (o.ok) add(h);
                    }
                }
            } else if (k == "value") {
                if (auto f = find(b, Handle::NODE, op.arg(0))) {
                    auto h = make(*f, Handle::VALUES);
                    o = sim::attempt(op, [&] { h->values.push_back(simfil::Value::field(*f->node)); });
                    if (o.ok) add(h);
                }
            } else if (k == "eval") {
                auto e = find(b, Handle::EXPR, op.arg(0));
                auto n = e ? find(b, Handle::NODE, op.arg(1)) : nullptr;
                auto v = n ? find(b, Handle::ENV, op.arg(2)) : nullptr;
                if (!n && e) {
                    // straight from the model: nobody else holds the root node
                    auto m = find(b, Handle::MODEL, op.arg(1));
                    v = m ? find(b, Handle::ENV, op.arg(2)) : nullptr;
                    if (v && m && v->p == m->p && e->p == m->p) {
                        auto h = make(*m, Handle::VALUES);
                        o = sim::attempt(op, [&] { h->values = simfil::eval(*v->env, *e->expr, *m->model->root(0)); });
                        if (o.ok) { sim_count("results.kept", h->values.size()); add(h); }
                        else if (!o.oom) o.ok = true;
                    }
                } else if (e && n && v && v->p == n->p && e->p == n->p) {
                    auto h = make(*n, Handle::VALUES);
                    o = sim::attempt(op, [&] { h->values = simfil::eval(*v->env, *e->expr, *n->node); });
                    if (o.ok) { sim_count("results.kept", h->values.size()); add(h); }
                    else if (!o.oom) o.ok = true;   // the query does not apply to this node
                }
            } else if (k == "part") {
                // one of several results by itself
                if (auto f = find(b, Handle::VALUES, op.arg(0)); f && !f->values.empty()) {
                    auto h = make(*f, Handle::VALUES);
                    size_t at = (size_t)op.arg(1) % f->values.size();
                    o = sim::attempt(op, [&] { h->values.push_back(f->values[at]); });
                    if (o.ok) add(h);
                }
            } else if (k == "box") {
                HP h;
                must("a handle", [&] { h = std::make_shared<Handle>(); });
                h->k = Handle::VALUES;
                o = sim::attempt(op, [&] { h->values.push_back(BoxType::Type().make(op.arg(1))); h->values.push_back(simfil::IRangeType::Type.make(1, op.arg(1))); h->values.push_back(simfil::ReType::Type.make("[a-z]+" + std::to_string(op.arg(1)))); });
                if (o.ok) add(h);
            } else if (k == "copy") {
                HP h;
                o = sim::attempt(op, [&] { h = std::make_shared<Handle>(*b[i]); });
                if (o.ok) { SIM_CHECK(h->want == b[i]->want, "lifetime", "copy"); check(*h); b.push_back(h); }
            } else if (k == "move") {
                HP h;
                std::string want = b[i]->want;
                if (b[i].use_count() == 1) {
                    o = sim::attempt(op, [&] { h = std::make_shared<Handle>(std::move(*b[i])); });
                    if (o.ok) { h->want = want; drop(b, i); check(*h); b.push_back(h); }
                }
            } else if (k == "assign") {
                size_t j = (size_t)op.arg(1) % b.size();
                if (b[i].use_count() == 1) {
                    o = sim::attempt(op, [&] { *b[i] = *b[j]; });
                    if (o.ok) check(*b[i]);
                    else drop(b, i);        // assigned in part
                }
            } else if (k == "read") {
                check(*b[i]);
            } else if (k == "send") {
                int to = (int)op.arg(1) % nt;
                HP h = b[i];
                if (op.arg(2) % 2) must("copying", [&] { h = std::make_shared<Handle>(*b[i]); });
                else b.erase(b.begin() + (long)i);
                mail[to].push_back(std::move(h));
                sim_release(&mail[to]);
            } else if (k == "drop") drop(b, i);
            else if (k == "dropkind") {
                auto kind = b[i]->k;
                for (size_t j = b.size(); j-- > 0;)
                    if (b[j]->k == kind) drop(b, j);
            } else if (k == "strings") {
                if (auto f = find(b, Handle::MODEL, op.arg(0))) {
                    HP h;
                    must("a handle", [&] { h = std::make_shared<Handle>(); });
                    h->k = Handle::POOL;
                    h->p = f->p;
                    o = sim::attempt(op, [&] { h->pool = f->model->strings(); });
                    if (o.ok) add(h);
                }
            }
            SIM_CHECK(o.ok || o.oom && op.oom, "unexpected-failure", "%s fails: %s", k.c_str(), o.what.c_str());
            if (!b.empty()) check(*b[(size_t)op.arg(2) % b.size()]);
            sim_event(b.size());
        }
        for (auto& h : b) check(*h);
        // release the rest, some handles first to last, some last to first
        while (b.size() > 2 && last < 0) { check(*b.back()); drop(b, b.size() % 3 ? 0 : b.size() - 1); }
    });
    // what nobody needs is gone, what somebody needs is not
    auto audit = [&] {
        std::vector<bool> m((size_t)nm), maybe_m((size_t)nm), pl((size_t)np), e((size_t)np);
        for (auto* bs : {&bag, &mail})
            for (auto& b : *bs)
                for (auto& h : b) {
                    if (h->m >= 0) (h->k == Handle::VALUES ? maybe_m : m)[h->m] = true;
                    if (h->k == Handle::ENV) e[h->p] = true;
                    if (h->p >= 0) pl[h->p] = pl[h->p] || h->k != Handle::EXPR;
                }
        for (int i = 0; i < nm; ++i) {
            if (m[i]) SIM_CHECK(!wmodel[i].expired(), "lifetime", "model %d is gone although it is needed", i);
            else if (!maybe_m[i]) SIM_CHECK(wmodel[i].expired(), "leak", "model %d is kept although nobody needs it", i);
        }
        for (int i = 0; i < np; ++i) {
            if (!e[i]) SIM_CHECK(wenv[i].expired(), "leak", "environment %d is kept although nobody needs it", i);
            if (!pl[i]) SIM_CHECK(wpool[i].expired(), "leak", "string pool %d is kept although nobody needs it", i);
        }
    };
    audit();
    for (auto* bs : {&bag, &mail})
        for (auto& b : *bs) {
            for (size_t j = b.size(); j-- > 0;)
                if (last >= 0 && (int)b[j]->k != last) drop(b, j);
        }
    audit();
    if (p.get("split"))
        for (auto* bs : {&bag, &mail})
            for (auto& b : *bs)
                for (auto& h : b) {
                    if (h->k != Handle::VALUES || h->values.size() < 2 || h.use_count() > 1) continue;
                    size_t at = (size_t)(h->values.size() * 7 + (size_t)p.get("base")) % h->values.size();
                    must("keeping one result", [&] { simfil::Value v = h->values[at]; h->values.clear(); h->values.push_back(std::move(v)); });
                    h->want = part(h->want, at);
                }
    for (auto* bs : {&bag, &mail})
        for (auto& b : *bs)
            while (!b.empty()) {
                check(*b.back());
                drop(b, 0);
                audit();
            }
    SIM_CHECK(live.empty(), "leak", "%zu data objects are never released", live.size());
    BoxType::live = nullptr;
}

const sim::Scenario sim::scenario{"C19", gen, run, 100000000, 512ull << 20};
