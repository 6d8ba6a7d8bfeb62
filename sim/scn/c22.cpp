// C22: a finished model can be read by any number of threads at once.
#include "docs.h"
#include "simfil/environment.h"
#include <nlohmann/json.hpp>
using namespace pm;
using sim::must;

static void gen(Rng& r, Plan& p, int thorough)
{
    p.par["base"] = gen_base(r);
    int nm = (int)r.range(1, 3);
    p.par["models"] = nm;
    for (int i = 0; i < nm; ++i) {
        auto n = std::to_string(i);
        p.par["doc" + n] = (int64_t)r.below(1000000);
        p.par["docsize" + n] = r.chance(1, 40) ? 300 : r.logrange(2, thorough ? 60 : 25);
        p.par["made" + n] = (int64_t)r.below(4);      // 0, 1: built, 2: with computed fields, 3: restored from an image
        p.par["roots" + n] = r.range(1, 3);
    }
    int nr = (int)r.range(2, thorough ? 6 : 4), nw = (int)r.below(3);
    p.th.resize((size_t)(nr + nw));
    static const std::vector<std::string> kinds = {"walk", "walk", "fields", "fields", "each", "json", "json", "alljson", "check", "check", "write", "write", "name", "name", "name", "absent", "misc", "keep", "kept", "private"};
    for (int t = 0; t < nr; ++t) {
        int n = (int)r.range(1, thorough ? 20 : 10);
        for (int i = 0; i < n; ++i) {
            Op o{r.pick(kinds), {(int64_t)r.below(nm), (int64_t)r.below(3), (int64_t)r.below(1000000), 0}};
            if (o.kind == "write" && r.chance(1, 3)) o.a[3] = r.range(1, 200);
            if (r.chance(1, 8)) { o.oom = r.logrange(1, 200); o.oomp = r.chance(1, 4); }
            p.th[t].push_back(o);
        }
    }
    for (int t = nr; t < nr + nw; ++t) {
        int n = (int)r.range(1, 8);
        for (int i = 0; i < n; ++i) {
            if (r.chance(1, 2)) p.th[t].push_back({"insert", {(int64_t)r.below(60)}});
            else if (r.chance(1, 2)) p.th[t].push_back({"own", {(int64_t)r.below(1000000)}});
            else p.th[t].push_back({"image", {}});
        }
    }
}

static void canon(const nlohmann::json& j, std::string& o)
{
    if (j.is_object()) {
        std::map<std::string, const nlohmann::json*> m;
        for (auto& [k, v] : j.items()) m[lower(k)] = &v;
        o += "{";
        for (auto& [k, v] : m) { o += k; o += ":"; canon(*v, o); o += ","; }
        o += "}";
    } else if (j.is_array()) {
        o += "[";
        for (auto& v : j) { canon(v, o); o += ","; }
        o += "]";
    } else if (j.is_boolean()) o += j.get<bool>() ? "T" : "F";
    else if (j.is_number_float()) put(o, j.get<double>());
    else if (j.is_number()) o += "i" + std::to_string(j.get<int64_t>());
    else if (j.is_string()) o += "'" + j.get_ref<const std::string&>() + "'";
    else o += "null";
}
static Doc lowered(Doc d)
{
    for (auto& [n, c] : d.kids) { n = lower(n); c = lowered(c); }
    return d;
}

// children through the iterators of nodes
static void ranges(const simfil::ModelNode& n, const simfil::Model& names, std::string& o)
{
    auto t = n.type();
    if (t == simfil::ValueType::Object) {
        std::vector<simfil::StringId> ids;
        for (auto id : n.fieldNames()) ids.push_back(id);
        o += "{";
        size_t i = 0;
        for (auto [id, c] : n.fields()) {
            if (i >= ids.size() || ids[i++] != id) sim_violation("content", "fields() and fieldNames() disagree");
            auto nm = names.lookupStringId(id);
            o += nm ? lower(std::string(*nm)) : "#";
            o += ":";
            if (c) ranges(*c, names, o); else o += "null";
            o += ",";
        }
        if (i != ids.size()) sim_violation("content", "fieldNames() gives %zu names for %zu fields", ids.size(), i);
        o += "}";
    } else if (t == simfil::ValueType::Array) {
        o += "[";
        for (auto c : n) { if (c) ranges(*c, names, o); else o += "null"; o += ","; }
        o += "]";
    } else put_value(n.value(), o);
}

struct Held { simfil::ModelNode::Ptr node; std::string want; };

static void run(const Plan& p)
{
    auto pool = std::make_shared<simfil::StringPool>();
    lift(*pool, p.get("base"));
    int nm = (int)p.get("models");
    struct M { std::shared_ptr<simfil::ModelPool> m; std::vector<Doc> docs; std::vector<std::string> want, json; std::string image; };
    std::vector<M> ms((size_t)nm);
    for (int i = 0; i < nm; ++i) {
        auto n = std::to_string(i);
        auto& x = ms[(size_t)i];
        int made = (int)p.get(("made" + n).c_str());
        must("building", [&] {
            if (made == 2) x.m = std::make_shared<ProcModel>(pool);
            else x.m = std::make_shared<simfil::ModelPool>(pool);
            for (int k = 0; k < p.get(("roots" + n).c_str()); ++k) {
                Doc d = gen_doc(p.get(("doc" + n).c_str()) + k, p.get(("docsize" + n).c_str()), k < 2, true);
                x.m->addRoot(Builder(*x.m, (uint64_t)(5 + k)).build(d));
                x.docs.push_back(d);
            }
        });
        if (made == 3) must("restoring", [&] {
            sim::InBuf b(model_image(*x.m), {});
            std::istream is(&b);
            auto y = std::make_shared<simfil::ModelPool>(pool);
            y->read(is);
            x.m = y;
        });
        for (auto& d : x.docs) {
            x.want.push_back(render(d));
            x.json.push_back(render(sorted(lowered(d))));
        }
        if (p.get("base") % 2) must("writing", [&] { x.image = model_image(*x.m); });
    }
    size_t names_before = pool->size();
    std::vector<std::vector<std::pair<int, std::string>>> images(p.th.size());
    sim::run_threads((int)p.th.size(), [&](int t) {
        std::vector<Held> held;
        for (auto& op : p.th[t]) {
            auto& k = op.kind;
            if (k == "insert") { must("emplace", [&] { pool->emplace(spell(op.arg(0), 0)); }); continue; }
            if (k == "own") {
                must("a model of one's own", [&] {
                    auto m = std::make_shared<simfil::ModelPool>(pool);
                    m->addRoot(Builder(*m, 3).build(gen_doc(op.arg(0), 8, true)));
                });
                continue;
            }
            if (k == "image") { must("writing the pool", [&] { image(*pool, 0); }); continue; }
            if (k == "private") {
                // models with pools of their own come and go, their ids mean other names
                for (int i = 0; i < 3; ++i) {
                    Doc d = gen_doc(op.arg(2) + i, 1 + op.arg(2) % 3, true, true);
                    std::string got;
                    auto o = sim::attempt(op, [&] {
                        auto own = std::make_shared<simfil::StringPool>();
                        for (int j = 0; j < (op.arg(2) >> i) % 3; ++j) own->emplace(spell(j, 0));
                        auto m = std::make_shared<simfil::ModelPool>(own);
                        m->addRoot(Builder(*m, 3).build(d));
                        got = render(m->root(0), *m);
                    });
                    SIM_CHECK(o.ok || o.oom && o.fired, "unexpected-failure", "a model of one's own fails: %s", o.what.c_str());
                    if (o.ok) SIM_CHECK(got == render(d), "content", "a model with a pool of its own reads %.300s instead of %.300s", got.c_str(), render(d).c_str());
                }
                continue;
            }
            auto& x = ms[(size_t)op.arg(0)];
            auto& m = *x.m;
            size_t root = (size_t)op.arg(1) % x.docs.size();
            const Doc& doc = x.docs[root];
            std::string got;
            sim::Outcome o;
            Rng r((uint64_t)op.arg(2) + 1);
            if (k == "walk") {
                o = sim::attempt(op, [&] { Reader rd{&m}; rd.cross = r.chance(1, 2); rd.child(m.root(root), got); });
                if (o.ok) SIM_CHECK(got == x.want[root], "content", "root %zu reads %.400s instead of %.400s", root, got.c_str(), x.want[root].c_str());
            } else if (k == "fields") {
                o = sim::attempt(op, [&] { ranges(*m.root(root), m, got); });
                if (o.ok) SIM_CHECK(got == x.want[root], "content", "root %zu reads %.400s instead of %.400s by its iterators", root, got.c_str(), x.want[root].c_str());
            } else if (k == "each") {
                // iterate() and forEach() up to some child
                size_t stop = (size_t)r.range(1, 5), seen = 0, seen2 = 0;
                bool whole = true, whole2 = true, arr = false;
                o = sim::attempt(op, [&] {
                    auto n = m.root(root);
                    whole = n->iterate(simfil::ModelNode::IterLambda([&](auto&& c) { (void)c.value(); return ++seen < stop; }));
                    if (n->addr().column() == simfil::ModelPool::Arrays) {
                        arr = true;
                        whole2 = m.resolveArray(n)->forEach([&](const simfil::ModelNode& c) { (void)c.type(); return ++seen2 < stop; });
                    }
                });
                if (o.ok) {
                    size_t want = std::min(stop, doc.kids.size());
                    SIM_CHECK(seen == want && whole == (stop > doc.kids.size()), "content", "iterate() visits %zu children of %zu and should stop at %zu", seen, doc.kids.size(), stop);
                    if (arr) SIM_CHECK(seen2 == want && whole2 == whole, "content", "forEach() visits %zu children instead of %zu", seen2, want);
                }
            } else if (k == "json") {
                o = sim::attempt(op, [&] { canon(m.root(root)->toJson(), got); });
                if (o.ok) SIM_CHECK(got == x.json[root], "content", "root %zu is exported as %.400s instead of %.400s", root, got.c_str(), x.json[root].c_str());
            } else if (k == "alljson") {
                std::string want = "[";
                for (auto& j : x.json) want += j + ",";
                o = sim::attempt(op, [&] { canon(m.toJson(), got); });
                if (o.ok) SIM_CHECK(got == want + "]", "content", "the model is exported as %.400s instead of %.400s]", got.c_str(), want.c_str());
            } else if (k == "check") {
                std::vector<std::string> errors;
                o = sim::attempt(op, [&] { if (r.chance(1, 2)) errors = m.checkForErrors(); else m.validate(); });
                if (o.fired) o.ok = true, o.oom = false;      // may be reported as an error of the model
                else SIM_CHECK(errors.empty(), "validation", "a sound model is reported as damaged: %s", errors[0].c_str());
            } else if (k == "write") {
                sim::OutFault f;
                if (op.arg(3)) { f.full = op.arg(3); f.mode = (int)(op.arg(2) & 1); }
                sim::OutBuf b(f);
                o = sim::attempt(op, [&] { std::ostream os(&b); m.write(os); });
                if (o.ok && !b.hit) images[(size_t)t].push_back({(int)op.arg(0), b.data});
                if (b.hit) o.ok = true;
            } else if (k == "name") {
                // down a path of names and positions
                const Doc* d = &doc;
                std::vector<std::pair<std::string, size_t>> path;
                while (!d->kids.empty() && !(path.size() && r.chance(1, 4))) {
                    size_t at = r.below(d->kids.size());
                    std::string nm = d->k == Doc::OBJ ? d->kids[at].first : "";
                    for (size_t i = 0; i < at && d->k == Doc::OBJ; ++i) if (lower(d->kids[i].first) == lower(nm)) at = i;
                    if (r.chance(1, 2)) for (auto& c : nm) c = (char)toupper((unsigned char)c);
                    path.push_back({nm, at});
                    d = &d->kids[at].second;
                }
                bool lost = false;
                o = sim::attempt(op, [&] {
                    auto n = m.root(root);
                    for (auto& [nm, at] : path) {
                        if (nm.empty()) n = n->at((int64_t)at);
                        else if (n->addr().column() == simfil::ModelPool::Objects && r.chance(1, 2)) n = m.resolveObject(n)->get(std::string_view(nm));
                        else if (auto id = m.strings()->get(nm)) n = n->get(id);
                        else n = nullptr;
                        if (!n) { lost = true; return; }
                    }
                    Reader rd{&m};
                    rd.cross = false;
                    rd.child(n, got);
                });
                if (o.ok) {
                    SIM_CHECK(!lost, "content", "a node at depth %zu cannot be reached by its name", path.size());
                    SIM_CHECK(got == render(*d), "content", "a node reached by name reads %.300s instead of %.300s", got.c_str(), render(*d).c_str());
                }
            } else if (k == "absent") {
                bool found = false;
                std::string nm = "no such field " + std::to_string(op.arg(2) % 7);
                o = sim::attempt(op, [&] {
                    auto n = m.root(root);
                    if (n->addr().column() == simfil::ModelPool::Objects) found = (bool)m.resolveObject(n)->get(std::string_view(nm));
                    found = found || n->get((simfil::StringId)(60000 + op.arg(2) % 100)) || n->at((int64_t)doc.kids.size()) || n->at(-1 - (int64_t)(op.arg(2) % 3) * 1000);
                });
                if (o.ok) SIM_CHECK(!found, "content", "a field that does not exist is found");
            } else if (k == "misc") {
                o = sim::attempt(op, [&] {
                    if (m.numRoots() != x.docs.size()) sim_violation("content", "%zu roots instead of %zu", m.numRoots(), x.docs.size());
                    if (m.strings() != pool) sim_violation("content", "the model has another pool");
                    if (m.lookupStringId(59999)) sim_violation("content", "an id nobody gave out has a name");
                });
                auto bad = sim::attempt([&] { (void)m.root(x.docs.size() + (size_t)(op.arg(2) % 3)); });
                SIM_CHECK(!bad.ok, "content", "a root that does not exist is given");
            } else if (k == "keep") {
                Held h;
                const Doc* d = &doc;
                o = sim::attempt(op, [&] {
                    h.node = m.root(root);
                    for (int i = 0; i < 4 && !d->kids.empty(); ++i) {
                        size_t at = (size_t)(op.arg(2) >> i) % d->kids.size();
                        h.node = h.node->at((int64_t)at);
                        d = &d->kids[at].second;
                    }
                });
                if (o.ok) { h.want = render(*d); held.push_back(h); }
            } else if (!held.empty()) {
                size_t at = (size_t)op.arg(2) % held.size();
                o = sim::attempt(op, [&] { Reader rd{&m}; rd.cross = false; rd.child(held[at].node, got); });
                if (o.ok) SIM_CHECK(got == held[at].want, "content", "a node kept reads %.300s instead of %.300s", got.c_str(), held[at].want.c_str());
                if (op.arg(2) % 2) must("releasing a node", [&] { held.erase(held.begin() + (long)at); });
            }
            SIM_CHECK(o.ok || o.oom && o.fired, "unexpected-failure", "%s fails: %s (%s)", k.c_str(), o.what.c_str(), o.type.c_str());
            SIM_CHECK(sim_locks_held() == 0, "lock-leak", "a lock is held after reading");
            sim_event(sim::hash_str(got));
        }
        must("releasing nodes", [&] { held.clear(); held.shrink_to_fit(); });
    });
    bool writers = false;
    for (auto& th : p.th) for (auto& op : th) writers = writers || op.kind == "insert" || op.kind == "own";
    if (!writers) SIM_CHECK(pool->size() == names_before, "content", "reading added names to the string pool: %zu instead of %zu", pool->size(), names_before);
    for (int i = 0; i < nm; ++i) {
        auto& x = ms[(size_t)i];
        auto now = render_roots(*x.m);
        for (size_t k = 0; k < x.want.size(); ++k) SIM_CHECK(now[k] == x.want[k], "content", "afterwards root %zu reads %.400s instead of %.400s", k, now[k].c_str(), x.want[k].c_str());
        std::string img;
        must("writing", [&] { img = model_image(*x.m); });
        if (!x.image.empty()) SIM_CHECK(img == x.image, "content", "reading changed the image of a model");
        for (auto& v : images)
            for (auto& [m, s] : v)
                if (m == i) SIM_CHECK(s == img, "content", "an image written while others read differs");
    }
    must("releasing", [&] { ms.clear(); });
}

const sim::Scenario sim::scenario{"C22", gen, run, 100000000, 512ull << 20};
