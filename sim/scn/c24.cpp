// C24: models shipped together with incremental string pool updates over a faulty network.
#include "queries.h"
#include <deque>
#include <nlohmann/json.hpp>
#include <set>
using namespace pm;
using sim::must;

// threads: producers (build models on the source pool and send), one receiver, users of what was received
static void gen(Rng& r, Plan& p, int thorough)
{
    p.par["watch"] = r.chance(1, 2);
    p.par["base"] = r.chance(1, 3) ? gen_base(r) : 0;
    p.par["spell"] = (int64_t)r.below(3);
    p.par["part"] = (int64_t)r.below(1000);
    p.par["pm"] = r.chance(1, 4);
    int np = (int)r.range(1, 2), nu = (int)r.range(0, thorough ? 3 : 2);
    p.par["producers"] = np;
    p.th.resize((size_t)(np + 1 + nu));
    for (int t = 0; t < np; ++t) {
        int n = (int)r.range(2, thorough ? 20 : 10);
        for (int i = 0; i < n; ++i) {
            int k = i == 0 ? 0 : (int)r.below(10);
            // fault: 0 lose, 1 duplicate, 2 cut, 3 fail, others none
            int64_t fault = (int64_t)r.below(10), at = r.logrange(0, 1500);
            if (k < 3) p.th[t].push_back({"build", {(int64_t)r.below(1000000), r.logrange(2, thorough ? 40 : 16), r.chance(1, 3)}});
            else if (k < 6) p.th[t].push_back({"model", {(int64_t)r.below(8), fault, at}});
            else p.th[t].push_back({"names", {(int64_t)r.below(3), (int64_t)r.below(40), fault, at}});
        }
        p.th[t].push_back({"model", {0, 9, 0}});
    }
    int n = (int)r.range(3, thorough ? 30 : 16);
    for (int i = 0; i < n; ++i) {
        int k = (int)r.below(12);
        Op o;
        if (k < 9) o = {"deliver", {(int64_t)r.below(6), (int64_t)r.below(9), r.chance(1, 6), (int64_t)r.below(3)}};
        else if (k < 10) o = {"relay", {(int64_t)r.below(8), (int64_t)r.below(9)}};
        else if (k < 11) o = {"move", {(int64_t)r.below(8), r.logrange(0, 200), (int64_t)r.below(30)}};
        else o = {"restart", {(int64_t)r.below(3)}};
        if (r.chance(1, 8)) { o.oom = r.logrange(1, 200); o.oomp = r.chance(1, 4); }
        p.th[np].push_back(o);
    }
    static const std::vector<std::string> kinds = {"walk", "walk", "fields", "json", "json", "check", "check", "compile", "compile", "query", "query", "query", "name", "path", "path", "path", "keys", "subscript"};
    for (int u = 0; u < nu; ++u) {
        int m = (int)r.range(2, thorough ? 24 : 12);
        int64_t slot = (int64_t)r.below(8), pick = (int64_t)r.below(1000000);   // looked at again and again
        for (int i = 0; i < m; ++i) {
            Op o{r.pick(kinds), {(int64_t)r.below(8), (int64_t)r.below(1000000), r.range(1, 3)}};
            if (r.chance(1, 2)) { o.a[0] = slot; o.a[1] = pick; }
            if (r.chance(1, 10)) { o.oom = r.logrange(1, 200); o.oomp = r.chance(1, 4); }
            p.th[(size_t)(np + 1 + u)].push_back(o);
        }
    }
}

static std::string low(std::string s)
{
    for (auto& c : s) c = (char)tolower((unsigned char)c);
    return s;
}

using Names = std::map<uint32_t, std::string>;   // id -> spelling

// What a walk meets: values and ids in `shape`, each name as it was resolved in `fields`.
struct Walk
{
    const simfil::Model& names;
    bool ranges;
    std::string shape;
    std::vector<std::pair<uint32_t, std::optional<std::string>>> fields;
    void field(uint32_t id)
    {
        auto s = names.lookupStringId((simfil::StringId)id);
        fields.emplace_back(id, s ? std::optional<std::string>(std::string(*s)) : std::nullopt);
        shape += std::to_string(id);
        shape += ":";
    }
    void child(const simfil::ModelNode::Ptr& c) { if (c) node(*c); else shape += "null"; shape += ","; }
    void node(const simfil::ModelNode& n)
    {
        auto t = n.type();
        bool obj = t == simfil::ValueType::Object;
        if (!obj && t != simfil::ValueType::Array) return put_value(n.value(), shape);
        shape += obj ? "{" : "[";
        if (ranges && obj) for (auto [id, c] : n.fields()) { field(id); child(c); }
        else if (ranges) for (auto c : n) child(c);
        else {
            uint32_t k = n.size();
            for (uint32_t i = 0; i < k; ++i) { if (obj) field(n.keyAt(i)); child(n.at(i)); }
        }
        shape += obj ? "}" : "]";
    }
};

static void shape_of(const Doc& d, const std::map<std::string, uint32_t>& ids, std::string& o)
{
    if (d.k != Doc::ARR && d.k != Doc::OBJ) return render(d, o);
    o += d.k == Doc::OBJ ? "{" : "[";
    for (auto& [n, c] : d.kids) {
        if (d.k == Doc::OBJ) { o += std::to_string(ids.at(lower(n))); o += ":"; }
        shape_of(c, ids, o);
        o += ",";
    }
    o += d.k == Doc::OBJ ? "}" : "]";
}
static void names_of(const Doc& d, std::set<std::string>& out)
{
    for (auto& [n, c] : d.kids) { if (d.k == Doc::OBJ) out.insert(lower(n)); names_of(c, out); }
}
static void fields_of(const Doc& d, std::vector<std::string>& out)
{
    for (auto& [n, c] : d.kids) { if (d.k == Doc::OBJ) out.push_back(lower(n)); fields_of(c, out); }
}
// the document as JSON with the names that are known only
static nlohmann::json json_of(const Doc& d, const std::map<std::string, uint32_t>& ids, const Names& known)
{
    switch (d.k) {
    case Doc::BOOL: return d.b;
    case Doc::INT: return d.i;
    case Doc::FLOAT: return d.d;
    case Doc::STR: return d.s;
    case Doc::ARR: { auto j = nlohmann::json::array(); for (auto& k : d.kids) j.push_back(json_of(k.second, ids, known)); return j; }
    case Doc::OBJ: {
        auto j = nlohmann::json::object();
        for (auto& [n, c] : d.kids)
            if (auto i = known.find(ids.at(lower(n))); i != known.end()) j[i->second] = json_of(c, ids, known);
        return j;
    }
    }
    return {};
}

struct Msg
{
    bool model = false;
    std::string bytes;
    Names names;              // of an update
    std::vector<Doc> docs;    // of a model
    int made = 0;
    sim::InFault flt;
};
struct Slot { std::shared_ptr<simfil::ModelPool> m; std::vector<Doc> docs; bool dirty = false; };
// a life of the receiving process
struct World
{
    std::shared_ptr<simfil::StringPool> pool;
    std::shared_ptr<simfil::Environment> env;
    UserFns fns;
    std::deque<Slot> slots;
    Names begun, sure;        // names that may have, and must have arrived
    Names exact;              // what is there while no update is being applied
    int busy = 0, epoch = 0;
    std::deque<std::pair<std::string, simfil::ExprPtr>> queries;
    std::map<std::string, std::shared_ptr<simfil::Expr>> simple;
};

static void run(const Plan& p)
{
    watch_reads = p.get("watch");
    int np = (int)std::max<int64_t>(1, std::min<int64_t>(p.get("producers"), (int64_t)p.th.size() - 1));
    if ((int)p.th.size() < np + 1) return;
    auto source = std::make_shared<simfil::StringPool>();
    std::vector<std::unique_ptr<World>> lives;
    World* cur = nullptr;
    Names fixed;
    std::map<std::string, uint32_t> ids;   // of all names that were sent, by lower case
    {
        auto s = observe(*source);
        for (auto& [id, n] : s.ids) { fixed[id] = n; ids[lower(n)] = id; }
    }
    lift(*source, p.get("base"));
    if (p.get("spell")) must("preloading", [&] { for (int64_t k = 0; k < 30; ++k) if ((k * 7 + p.get("spell")) % 3 == 0) { auto s = key(k); s[0] = (char)toupper(s[0]); source->emplace(s); } });
    auto begin_life = [&] {
        lives.push_back(std::make_unique<World>());
        auto& w = *lives.back();
        must("starting", [&] { w.pool = std::make_shared<simfil::StringPool>(); w.env = std::make_shared<simfil::Environment>(w.pool); w.fns.install(*w.env); });
        w.begun = w.sure = w.exact = fixed;
        return &w;
    };
    cur = begin_life();
    std::deque<Msg> net;
    // a document's names must have been sent by somebody before anyone can know their ids: asked of the source
    auto learn = [&](const Doc& d) {
        std::set<std::string> ns;
        names_of(d, ns);
        for (auto& n : ns) {
            uint32_t id = 0;
            must("get", [&] { id = source->get(n); });
            SIM_CHECK(id, "content", "the name '%s' of a field that was added is not in the pool", n.c_str());
            ids[n] = id;
        }
    };
    auto take_names = [&](World& w, const std::string& bytes, const Names& ns, sim::InFault flt, const Op* op) {
        sim::InBuf b(bytes, flt);
        std::istream is(&b);
        ++w.busy;
        for (auto& x : ns) w.begun.insert(x);
        auto o = sim::attempt(op ? op->oom : 0, op ? op->oomp : 0, [&] { w.pool->read(is); });
        SIM_CHECK(o.ok || b.hit() || o.fired, "unexpected-failure", "reading a complete update failed: %s", o.what.c_str());
        SIM_CHECK(!o.ok || !b.hit(), "error-lost", "an update cut short was applied without an error");
        SIM_CHECK(sim_locks_held() == 0, "lock-leak", "a lock is still held after read()");
        if (o.ok) for (auto& x : ns) w.sure.insert(x);
        for (auto& [id, n] : ns) {
            std::optional<std::string> s;
            must("resolve", [&] { if (auto v = w.pool->resolve((simfil::StringId)id)) { sim::Quiet q; s = std::string(*v); } });
            SIM_CHECK(s || !o.ok, "replication", "name '%s' is missing after the update that brought it", n.c_str());
            SIM_CHECK(!s || *s == n, "replication", "id %u is '%s', in the source '%s'", id, s->c_str(), n.c_str());
            if (s) { w.exact[id] = n; w.sure[id] = n; }
            else SIM_CHECK(!w.exact.count(id), "replication", "name '%s' is gone after an update", n.c_str());
        }
        --w.busy;
        ++w.epoch;
        return o.ok;
    };
    auto take_model = [&](World& w, const std::string& bytes, const std::vector<Doc>& docs, int made, sim::InFault flt, const Op* op) {
        Slot s;
        s.docs = docs;
        must("a model", [&] { s.m = made ? std::make_shared<ProcModel>(w.pool) : std::make_shared<simfil::ModelPool>(w.pool); });
        sim::InBuf b(bytes, flt);
        std::istream is(&b);
        auto o = sim::attempt(op ? op->oom : 0, op ? op->oomp : 0, [&] { s.m->read(is); });
        SIM_CHECK(o.ok || b.hit() || o.fired, "unexpected-failure", "reading a complete model failed: %s", o.what.c_str());
        SIM_CHECK(!o.ok || !b.hit(), "error-lost", "a model image cut short was read without an error");
        if (!o.ok) { must("releasing", [&] { s.m.reset(); }); return false; }
        SIM_CHECK(s.m->numRoots() == docs.size(), "content", "a received model has %zu roots instead of %zu", s.m->numRoots(), docs.size());
        w.slots.push_back(std::move(s));
        sim_release(&w);
        return true;
    };
    // one look at a received model; what was known before, and may be known after
    auto look = [&](World& w, Slot& s, const std::string& k, const Op* op) {
        auto sure = w.sure;
        int epoch = w.epoch;
        bool still = !w.busy;
        auto steady = [&] { return still && !w.busy && epoch == w.epoch; };
        auto oom = op ? op->oom : 0, oomp = op ? op->oomp : 0;
        std::set<std::string> used;
        for (auto& d : s.docs) names_of(d, used);
        if (k == "check") {
            std::vector<std::string> errs;
            auto o = sim::attempt(oom, oomp, [&] { errs = s.m->checkForErrors(); });
            SIM_CHECK(o.ok || o.fired, "unexpected-failure", "checkForErrors() failed: %s", o.what.c_str());
            // a check that runs out of memory half way reports that as an error
            bool now = true, before = true;
            for (auto& n : used) { now = now && w.begun.count(ids.at(n)); before = before && sure.count(ids.at(n)); }
            if (o.ok && !o.fired) {
                SIM_CHECK(!errs.empty() || now, "validation", "the check finds no error in a model whose names are not all there");
                SIM_CHECK(errs.empty() || !before, "validation", "the check finds an error in a model whose names are all there: %s", errs[0].c_str());
                if (steady()) {
                    bool all = true;
                    for (auto& n : used) all = all && w.exact.count(ids.at(n));
                    SIM_CHECK(errs.empty() == all, "validation", "%zu errors are found in a model whose names are %s all there", errs.size(), all ? "" : "not");
                    sim_count(all ? "looks.complete" : "looks.incomplete", 1);
                }
            }
            must("releasing", [&] { errs.clear(); errs.shrink_to_fit(); });
            return;
        }
        for (size_t i = 0; i < s.docs.size(); ++i) {
            if (k == "json") {
                std::string got;
                auto o = sim::attempt(oom, oomp, [&] { auto j = s.m->root(i)->toJson(); sim::Quiet q; got = j.dump(); });
                SIM_CHECK(o.ok || o.fired, "unexpected-failure", "toJson() failed: %s", o.what.c_str());
                if (!o.ok || !steady()) continue;
                auto want = json_of(s.docs[i], ids, w.exact).dump();
                SIM_CHECK(got == want, "content", "root %zu as JSON is %.400s instead of %.400s", i, got.c_str(), want.c_str());
                continue;
            }
            Walk x{*s.m, k == "fields", {}, {}};
            auto o = sim::attempt(oom, oomp, [&] { Watched wt; x.child(s.m->root(i)); });
            SIM_CHECK(o.ok || o.fired, "unexpected-failure", "reading a received model failed: %s", o.what.c_str());
            if (o.ok) {
                std::string want;
                shape_of(s.docs[i], ids, want);
                want += ",";
                SIM_CHECK(x.shape == want, "content", "root %zu reads as %.400s instead of %.400s", i, x.shape.c_str(), want.c_str());
                std::map<uint32_t, std::string> seen;
                for (auto& [id, n] : x.fields) {
                    auto b = w.begun.find(id);
                    if (n) {
                        SIM_CHECK(b != w.begun.end(), "replication", "id %u is named '%s' before its name arrived", id, n->c_str());
                        SIM_CHECK(*n == b->second, "replication", "id %u is named '%s', in the source '%s'", id, n->c_str(), b->second.c_str());
                        seen[id] = *n;
                    } else {
                        SIM_CHECK(!sure.count(id), "replication", "the name of id %u has arrived and is not found", id);
                        SIM_CHECK(!seen.count(id), "replication", "the name of id %u is gone", id);
                    }
                }
            }
            must("releasing", [&] { x.shape = {}; x.fields = {}; });
        }
    };

    // a simple question about one field of a root, whose answer follows from the document and the names
    auto ask = [&](World& w, Slot& s, const std::string& k, int64_t pick, const Op* op) {
        size_t i = (size_t)(pick / 64) % s.docs.size();
        auto& d = s.docs[i];
        if (d.k != Doc::OBJ) return;
        std::string n = d.kids.empty() || pick % 5 == 0 ? key(pick % 30) : lower(d.kids[(size_t)pick % d.kids.size()].first);
        for (char c : n) if (!isalnum((unsigned char)c) && c != '_') return;
        if (n.empty() || n == "_" || isdigit((unsigned char)n[0])) return;
        std::string text = k == "path" ? n : k == "keys" ? "keys(_)" : "_['" + n + "']";
        auto oom = op ? op->oom : 0, oomp = op ? op->oomp : 0;
        auto& x = w.simple[text];
        if (!x) {
            std::shared_ptr<simfil::Expr> e;
            must("compiling", [&] { e = std::shared_ptr<simfil::Expr>(simfil::compile(*w.env, text, false)); });
            if (!x) x = e;
            else must("releasing", [&] { e.reset(); });
            sim_release(&w.simple);
        }
        sim_acquire(&w.simple);
        const Doc* want = nullptr;
        for (auto& c : d.kids) if (lower(c.first) == n) { want = &c.second; break; }
        auto id = ids.find(n);
        bool before = id != ids.end() && w.sure.count(id->second), still = !w.busy;
        auto sure = w.sure;
        int epoch = w.epoch;
        std::vector<simfil::Value> vals;
        auto o = sim::attempt(oom, oomp, [&] { vals = simfil::eval(*w.env, *x, *s.m->root(i)); });
        SIM_CHECK(o.ok || o.fired, "unexpected-failure", "%s failed: %s", text.c_str(), o.what.c_str());
        if (o.ok && k == "keys") {
            std::vector<std::string> must_, may, got;
            for (auto& v : vals) got.push_back(v.isa(simfil::ValueType::String) ? lower(v.as<simfil::ValueType::String>()) : "?");
            for (auto& c : d.kids) {
                auto f = ids.at(lower(c.first));
                if (sure.count(f)) must_.push_back(lower(c.first));
                if (w.begun.count(f)) may.push_back(lower(c.first));
            }
            auto part = [](const std::vector<std::string>& a, const std::vector<std::string>& b) {
                size_t j = 0;
                for (auto& e : b) if (j < a.size() && a[j] == e) ++j;
                return j == a.size();
            };
            if (may.empty()) SIM_CHECK(got.empty() || (got.size() == 1 && got[0] == "?"), "content", "an object without known names has keys %s", join(got).c_str());
            else if (!(got.size() == 1 && got[0] == "?" && must_.empty()))
                SIM_CHECK(part(must_, got) && part(got, may), "content", "keys() gives %s, there must be %s and may be %s", join(got).c_str(), join(must_).c_str(), join(may).c_str());
        } else if (o.ok) {
            const simfil::Value* hit = nullptr;
            for (auto& v : vals) if (v.node) hit = &v;
            bool may = id != ids.end() && w.begun.count(id->second);
            if (still && !w.busy && epoch == w.epoch) may = id != ids.end() && w.exact.count(id->second);
            SIM_CHECK(vals.size() <= 1, "content", "%s gives %zu values", text.c_str(), vals.size());
            SIM_CHECK(!hit || want, "content", "%s finds a field that is not there", text.c_str());
            SIM_CHECK(!hit || may, "replication", "%s finds its field before its name has arrived", text.c_str());
            SIM_CHECK(hit || !want || !before, "content", "%s does not find the field whose name has arrived", text.c_str());
            if (hit && want) {
                Walk a{*s.m, false, {}, {}};
                must("reading", [&] { a.node(*hit->node); });
                std::string b;
                shape_of(*want, ids, b);
                SIM_CHECK(a.shape == b, "content", "%s gives %.300s instead of %.300s", text.c_str(), a.shape.c_str(), b.c_str());
                must("releasing", [&] { a.shape = {}; a.fields = {}; });
            }
        }
        must("releasing", [&] { vals.clear(); vals.shrink_to_fit(); });
    };

    struct Made { std::shared_ptr<simfil::ModelPool> m; std::vector<Doc> docs; bool pm = false; };
    std::vector<std::vector<Made>> made((size_t)np);
    sim::run_threads((int)p.th.size(), [&](int t) {
        for (auto& op : p.th[(size_t)t]) {
            auto& k = op.kind;
            if (t < np) {
                if (k == "build") {
                    Doc d = gen_doc(op.arg(0), op.arg(1), true);
                    auto& mine = made[(size_t)t];
                    bool more = op.arg(2) && !mine.empty();
                    if (!more) {
                        Made m;
                        m.pm = p.get("pm") != 0;
                        must("a model", [&] { m.m = std::make_shared<simfil::ModelPool>(source); });
                        mine.push_back(std::move(m));
                    }
                    auto& m = mine.back();
                    must("building", [&] { m.m->addRoot(Builder(*m.m, (uint64_t)op.arg(0)).build(d)); });
                    m.docs.push_back(d);
                    learn(d);
                    continue;
                }
                Msg msg;
                if (k == "model") {
                    auto& mine = made[(size_t)t];
                    if (mine.empty()) continue;
                    auto& m = mine[mine.size() - 1 - (size_t)op.arg(0) % mine.size()];
                    msg.model = true;
                    msg.docs = m.docs;
                    msg.made = m.pm;
                    must("write", [&] { msg.bytes = model_image(*m.m); });
                } else {
                    uint32_t off = op.arg(0) == 0 ? 0 : 126 + (uint32_t)op.arg(1);
                    if (op.arg(0) == 1) off = (uint32_t)cur->exact.rbegin()->first + 1;
                    must("write", [&] { msg.bytes = image(*source, (simfil::StringId)off); });
                    simfil::StringPool scratch;
                    sim::InBuf b(msg.bytes, {});
                    std::istream is(&b);
                    scratch.read(is);
                    auto s = observe(scratch);
                    for (auto& [id, n] : s.ids)
                        if (!fixed.count(id)) { msg.names[id] = n; ids[lower(n)] = id; }
                }
                int64_t fault = op.arg(k == "model" ? 1 : 2), at = op.arg(k == "model" ? 2 : 3);
                if (fault == 0) { sim_count("fault.message_lost", 1); continue; }
                if (fault == 1) { sim_count("fault.message_duplicated", 1); net.push_back(msg); }
                if (fault == 2) msg.flt.cut = at % (int64_t)msg.bytes.size();
                if (fault == 3) msg.flt.fail = at % (int64_t)msg.bytes.size();
                sim_log("send %s, %zu bytes%s", msg.model ? "a model" : "names", msg.bytes.size(), fault == 2 || fault == 3 ? " (damaged)" : "");
                net.push_back(msg);
                continue;
            }
            if (t == np) {
                if (k == "deliver") {
                    for (int i = 0; i < 3 && net.empty(); ++i) { sim::Code c; sim_yield(0); }
                    if (net.empty()) continue;
                    size_t i = (size_t)op.arg(0) % net.size();
                    if (i) sim_count("fault.message_reordered", 1);
                    Msg m = net[i];
                    if (!op.arg(2)) net.erase(net.begin() + (long)i);
                    else sim_count("fault.message_duplicated", 1);
                    m.flt.chunk = op.arg(1);
                    m.flt.stall = op.arg(3);
                    bool ok = m.model ? take_model(*cur, m.bytes, m.docs, m.made, m.flt, &op) : take_names(*cur, m.bytes, m.names, m.flt, &op);
                    sim_log("deliver %s: %s, %zu names, %zu models", m.model ? "a model" : "names", ok ? "ok" : "error reported", cur->exact.size() - fixed.size(), cur->slots.size());
                    sim_event(cur->exact.size() * 100 + cur->slots.size());
                } else if (k == "relay") {
                    // a received model is passed on as an image, whether or not its names are there
                    if (cur->slots.empty()) continue;
                    auto& s = cur->slots[(size_t)op.arg(0) % cur->slots.size()];
                    std::string img;
                    auto o = sim::attempt(op, [&] { img = model_image(*s.m); });
                    SIM_CHECK(o.ok || o.fired, "unexpected-failure", "writing a received model failed: %s", o.what.c_str());
                    if (!o.ok) continue;
                    sim::InFault f;
                    f.chunk = op.arg(1);
                    auto docs = s.docs;
                    take_model(*cur, img, docs, 0, f, nullptr);
                } else if (k == "move") {
                    // a copy of a received model is moved to a pool of its own, in which ids mean other names
                    if (cur->slots.empty()) continue;
                    auto& s = cur->slots[(size_t)op.arg(0) % cur->slots.size()];
                    std::string img;
                    Slot c;
                    c.docs = s.docs;
                    std::shared_ptr<simfil::StringPool> own;
                    must("write", [&] { img = model_image(*s.m); });
                    must("a model", [&] { c.m = std::make_shared<simfil::ModelPool>(cur->pool); own = std::make_shared<simfil::StringPool>(); });
                    fill_pool(*own, op.arg(1));
                    must("preloading", [&] { for (int64_t i = 0; i < 8; ++i) own->emplace(key((op.arg(2) + i * 11) % 30)); });
                    sim::InBuf b(img, {});
                    std::istream is(&b);
                    must("read", [&] { c.m->read(is); });
                    bool all = true;
                    std::set<std::string> used;
                    for (auto& d : c.docs) names_of(d, used);
                    for (auto& n : used) all = all && cur->exact.count(ids.at(n));
                    bool same = false;
                    must("compare", [&] { same = *own == *cur->pool; });
                    if (same) { must("releasing", [&] { c.m.reset(); own.reset(); }); continue; }   // nothing to translate
                    auto o = sim::attempt(op, [&] { c.m->setStrings(own); });
                    SIM_CHECK(o.ok || o.fired || !all, "unexpected-failure", "a model whose names are all there cannot be moved: %s", o.what.c_str());
                    if (o.ok) {
                        // a field whose name is missing must not take on another's, now or when more names are added
                        if (!all) fill_pool(*own, op.arg(1) + 40);
                        for (size_t i = 0; i < c.docs.size(); ++i) {
                            Walk x{*c.m, false, {}, {}};
                            must("reading", [&] { x.child(c.m->root(i)); });
                            std::vector<std::string> want;
                            fields_of(c.docs[i], want);
                            SIM_CHECK(x.fields.size() == want.size(), "content", "in another pool, root %zu has %zu fields instead of %zu", i, x.fields.size(), want.size());
                            for (size_t j = 0; j < want.size(); ++j) {
                                bool known = cur->exact.count(ids.at(want[j])) != 0;
                                auto& n = x.fields[j].second;
                                SIM_CHECK(n || !known, "content", "moved to another pool, field '%s' has lost its name", want[j].c_str());
                                SIM_CHECK(!n || lower(*n) == want[j], "content", "moved to another pool, field '%s'%s has become '%s'", want[j].c_str(), known ? "" : " (whose name is missing)", n->c_str());
                            }
                            must("releasing", [&] { x.shape = {}; x.fields = {}; });
                        }
                    } else
                        for (auto k : {"walk", "check", "json"}) look(*cur, c, k, nullptr);
                    sim_count(all ? "moves.complete" : "moves.incomplete", 1);
                    must("releasing", [&] { c.m.reset(); own.reset(); });
                } else {
                    // the process restarts: with nothing, or with its own images of everything
                    sim_count("fault.follower_restart", 1);
                    std::string names;
                    std::vector<std::pair<std::string, std::vector<Doc>>> models;
                    auto& old = *cur;
                    if (op.arg(0)) {
                        must("write", [&] { names = image(*old.pool); });
                        for (auto& s : old.slots) {
                            models.emplace_back("", s.docs);
                            must("write", [&] { models.back().first = model_image(*s.m); });
                        }
                    }
                    auto* w = begin_life();
                    if (op.arg(0)) {
                        Names ns = old.exact;
                        for (auto& x : fixed) ns.erase(x.first);
                        if (op.arg(0) == 1) for (auto& [img, d] : models) take_model(*w, img, d, 0, {}, nullptr);
                        take_names(*w, names, ns, {}, nullptr);
                        if (op.arg(0) == 2) for (auto& [img, d] : models) take_model(*w, img, d, 0, {}, nullptr);
                    }
                    sim_release(w);
                    cur = w;
                }
                continue;
            }
            World& w = *cur;
            sim_acquire(&w);
            if (k == "compile") {
                auto text = gen_query(op.arg(1), (int)op.arg(2), true);
                simfil::ExprPtr e;
                auto o = sim::attempt(op, [&] { e = simfil::compile(*w.env, text); });
                if (!o.ok) continue;
                // not shared with other users before the end
                w.queries.emplace_back(text, std::move(e));
                sim_release(&w.queries);
                continue;
            }
            if (w.slots.empty()) { sim::Code c; sim_yield(0); continue; }
            auto& s = w.slots[(size_t)op.arg(0) % w.slots.size()];
            if (k == "query") {
                if (w.queries.empty()) continue;
                sim_acquire(&w.queries);
                auto& [text, e] = w.queries[(size_t)op.arg(1) % w.queries.size()];
                for (size_t i = 0; i < s.docs.size(); ++i) {
                    auto r = evaluate(*w.env, *e, *s.m->root(i), *s.m, &op);
                    sim_event(sim::hash_str(low(r.text())));
                    must("releasing", [&] { r = {}; });
                }
                SIM_CHECK(sim_locks_held() == 0, "lock-leak", "a lock is held after an evaluation");
                continue;
            }
            if (k == "name") {
                // a lookup by name must not make the name known
                std::string n = key(op.arg(1) % 40);
                must("looking a field up", [&] {
                    auto root = s.m->root(0);
                    if (root->type() == simfil::ValueType::Object && root->addr().column() == simfil::ModelPool::Objects)
                        s.m->resolveObject(simfil::ModelNode::Ptr::make(s.m, root->addr()))->get(n);
                });
                continue;
            }
            if (k == "path" || k == "keys" || k == "subscript") ask(w, s, k, op.arg(1), &op);
            else look(w, s, k, &op);
        }
    });

    // faults stop: stragglers arrive, then the missing names and each model once more
    World& w = *cur;
    for (auto& m : net)
        if (m.flt.cut < 0 && m.flt.fail < 0) {
            if (m.model) take_model(w, m.bytes, m.docs, m.made, {}, nullptr);
            else take_names(w, m.bytes, m.names, {}, nullptr);
        }
    for (auto& s : w.slots) for (auto k : {"walk", "check", "json"}) look(w, s, k, nullptr);
    State truth = observe(*source);
    Names all;
    for (auto& [id, n] : truth.ids) if (!fixed.count(id)) all[id] = n;
    std::string img;
    if (!all.empty()) {
        // a part of them first; the same questions before and after
        auto from = std::next(all.begin(), (long)((uint64_t)p.get("part") % all.size()));
        Slot* s = w.slots.empty() ? nullptr : &w.slots[(uint64_t)p.get("part") % w.slots.size()];
        for (auto k : {"keys", "path", "subscript"})
            for (int64_t j = 1; j < 4; ++j) {
                if (s) ask(w, *s, k, j, nullptr);
                if (j == 2 && k[0] == 's') {
                    must("write", [&] { img = image(*source, (simfil::StringId)from->first); });
                    take_names(w, img, Names(from, all.end()), {}, nullptr);
                    if (s) ask(w, *s, k, j, nullptr);
                }
            }
        for (auto& s : w.slots) for (auto k : {"keys", "walk", "check", "json"}) k[0] == 'k' ? ask(w, s, k, 1, nullptr) : look(w, s, k, nullptr);
    }
    must("write", [&] { img = image(*source); });
    take_names(w, img, all, {}, nullptr);
    State have = observe(*w.pool);
    SIM_CHECK(have.ids == truth.ids, "replication", "the receiver has %zu names, the source %zu", have.ids.size(), truth.ids.size());
    std::vector<std::pair<std::shared_ptr<simfil::ModelPool>, std::vector<Doc>*>> originals;
    for (auto& v : made) for (auto& m : v) {
        must("write", [&] { img = model_image(*m.m); });
        take_model(w, img, m.docs, m.pm, {}, nullptr);
        auto got = render_roots(*m.m);
        for (size_t i = 0; i < m.docs.size(); ++i) SIM_CHECK(got[i] == render(m.docs[i]), "content", "shipping a model changed it");
    }
    for (auto& s : w.slots) {
        for (auto k : {"walk", "check", "json", "fields"}) look(w, s, k, nullptr);
        for (auto k : {"path", "keys", "subscript"}) for (int64_t j = 1; j < 4; ++j) ask(w, s, k, j, nullptr);
        auto got = render_roots(*s.m, true, true);
        for (size_t i = 0; i < s.docs.size(); ++i) {
            auto want = render(s.docs[i]);
            SIM_CHECK(got[i] == want, "content", "with all names, root %zu of a received model is %.400s instead of %.400s", i, got[i].c_str(), want.c_str());
        }
    }
    // queries from before their names were known give what they give where the models come from
    if (!w.queries.empty()) {
        std::shared_ptr<simfil::Environment> env;
        UserFns fns;
        must("an environment", [&] { env = std::make_shared<simfil::Environment>(source); fns.install(*env); });
        size_t nth = 0;
        for (auto& [text, e] : w.queries) {
            simfil::ExprPtr f;
            must("compiling", [&] { f = simfil::compile(*env, text); });
            for (size_t i = 0; i < 3 && i < w.slots.size(); ++i) {
                auto& s = w.slots[(nth++) % w.slots.size()];
                std::shared_ptr<simfil::ModelPool> m;
                must("a model", [&] { m = std::make_shared<simfil::ModelPool>(source); for (auto& d : s.docs) m->addRoot(Builder(*m, 1).build(d)); });
                for (size_t j = 0; j < s.docs.size(); ++j) {
                    auto a = evaluate(*w.env, *e, *s.m->root(j), *s.m), b = evaluate(*env, *f, *m->root(j), *m);
                    auto x = low(a.text()), y = low(b.text());
                    SIM_CHECK(x == y, "result", "%s, compiled before its names arrived, gives %.400s, at the source %.400s", text.c_str(), x.c_str(), y.c_str());
                }
                must("releasing", [&] { m.reset(); });
            }
            must("releasing", [&] { f.reset(); });
        }
        must("releasing", [&] { env.reset(); });
    }
    State after = observe(*source), there = observe(*w.pool);
    SIM_CHECK(after.ids == truth.ids && there.ids == truth.ids, "replication", "reading models or asking queries added names");
    must("releasing", [&] {
        for (auto& l : lives) { l->queries.clear(); l->simple.clear(); l->slots.clear(); l->env.reset(); l->pool.reset(); }
        made.clear();
        source.reset();
    });
}

const sim::Scenario sim::scenario{"C24", gen, run, 200000000, 512ull << 20};
