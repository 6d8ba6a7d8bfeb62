// C08: building a model survives memory exhaustion without losing content.
#include "docs.h"
#include <deque>
using namespace pm;
using sim::must;

static void gen(Rng& r, Plan& p, int thorough)
{
    p.par["watch"] = r.chance(1, 2);   // reads by the harness are watched, too
    p.par["base"] = gen_base(r);
    p.par["bulk"] = r.chance(1, 25) ? 100 : 1;       // strings that outgrow what a model reserves for them
    p.par["many"] = r.chance(1, 60) ? r.range(8185, 8195) : r.chance(1, 150) ? r.range(65530, 65540) : 0;   // nodes there are before
    p.par["manykind"] = p.par["many"] ? (int64_t)r.below(5) : 0;
    p.par["abandon"] = r.below(3);   // failed steps are not always repeated
    int nt = r.chance(2, 3) ? 1 : (int)r.range(2, 3);
    p.th.resize(nt);
    for (int t = 0; t < nt; ++t) {
        int n = (int)r.logrange(5, thorough ? 150 : 60);
        int oomRate = (int)r.range(0, 3);
        bool big = r.chance(1, 8);
        bool stringy = r.chance(1, 12);      // many strings
        if (stringy) n = (int)r.range(60, 120);
        for (int i = 0; i < n; ++i) {
            Op o;
            int64_t sel = (int64_t)r.below(1000);
            switch (r.below(12)) {
            case 0: o = {"object", {r.chance(1, 8) ? (big ? r.range(16300, 16390) : r.range(0, 40)) : r.range(0, 3)}}; break;
            case 1: o = {"array", {r.chance(1, 8) ? (big ? r.range(16300, 16390) : r.range(0, 40)) : r.range(0, 3)}}; break;
            case 2: o = {"root", {sel}}; break;
            case 3: o = {"extendO", {sel, (int64_t)r.below(1000)}}; break;
            case 4: o = {"extendA", {sel, (int64_t)r.below(1000)}}; break;
            case 5: o = {"value", {(int64_t)r.below(3), (int64_t)r.below(100000)}}; break;
            case 6: case 7: case 8: o = {"field", {sel, (int64_t)r.below(7), r.chance(1, 4) ? r.chance(1, 4) ? ODD + (int64_t)r.below(ODDS) : (int64_t)r.below(200) : (int64_t)r.below(30), (int64_t)r.below(100000)}}; break;
            default: o = {"elem", {sel, (int64_t)r.below(7), 0, (int64_t)r.below(100000)}}; break;
            }
            if (p.par["bulk"] > 1 && r.chance(2, 3)) {
                int64_t v = 96 * (int64_t)r.below(50) + 3 * (int64_t)r.below(8);
                if (r.chance(1, 2)) o = {"value", {2, v}};
                else o = {r.chance(1, 2) ? "field" : "elem", {sel, 5, (int64_t)r.below(30), v}};
            }
            if (stringy && r.chance(3, 4)) {
                o = r.chance(1, 3) ? Op{"value", {2, (int64_t)r.below(100000)}} : Op{r.chance(1, 2) ? "field" : "elem", {sel, 5, (int64_t)r.below(30), (int64_t)r.below(100000)}};
                if (i < 3) o = {"object", {0}};
            }
            if (oomRate && (int)r.below(4) < oomRate) {
                o.oom = r.chance(2, 3) ? r.range(1, 4) : r.logrange(1, 30);
                o.oomp = r.chance(1, 3);
            }
            p.th[t].push_back(o);
        }
    }
}

// what the model should contain
struct RNode
{
    Doc::K k = Doc::OBJ;
    Doc sc;
    std::vector<std::pair<std::string, RNode*>> kids;
    size_t ord = 0;      // members refer to nodes with a larger number only, so there are no cycles
    uint64_t weight() const { uint64_t w = 1; for (auto& [n, c] : kids) w += c->weight(); return w; }
    void render(std::string& o) const
    {
        if (k != Doc::OBJ && k != Doc::ARR) { pm::render(sc, o); return; }
        o += k == Doc::OBJ ? "{" : "[";
        for (auto& [n, c] : kids) {
            if (k == Doc::OBJ) o += lower(n) + ":";
            c->render(o);
            o += ",";
        }
        o += k == Doc::OBJ ? "}" : "]";
    }
};

static void run(const Plan& p)
{
    watch_reads = p.get("watch");
    auto pool = std::make_shared<simfil::StringPool>();
    lift(*pool, p.get("base"));
    sim::run_threads((int)p.th.size(), [&](int t) {
        auto m = std::make_shared<simfil::ModelPool>(pool);
        std::deque<RNode> nodes;
        struct O { simfil::model_ptr<simfil::Object> h; RNode* r; };
        struct A { simfil::model_ptr<simfil::Array> h; RNode* r; };
        struct V { simfil::ModelNode::Ptr h; RNode* r; };
        std::vector<O> objs;
        std::vector<A> arrs;
        std::vector<V> any;         // everything that can be referred to
        std::vector<RNode*> roots;
        auto add = [&](Doc::K k) { nodes.emplace_back(); nodes.back().k = k; nodes.back().ord = nodes.size(); return &nodes.back(); };
        auto check_all = [&](const char* after) {
            auto got = render_roots(*m);
            SIM_CHECK(got.size() == roots.size(), "content", "%zu roots instead of %zu after %s", got.size(), roots.size(), after);
            for (size_t i = 0; i < roots.size(); ++i) {
                std::string w;
                roots[i]->render(w);
                SIM_CHECK(got[i] == w, "content", "after %s root %zu is %.500s, expected %.500s", after, i, got[i].c_str(), w.c_str());
            }
            for (size_t i = 0; i < any.size(); ++i) {
                std::string w;
                any[i].r->render(w);
                auto g = render(any[i].h, *m);
                SIM_CHECK(g == w, "content", "after %s node %zu is %.500s, expected %.500s", after, i, g.c_str(), w.c_str());
            }
        };
        if (t == 0)
            must("building", [&] {
                for (int64_t i = 0, e = p.get("many"); i < e; ++i) {
                    simfil::ModelNode::Ptr h;
                    RNode x;
                    x.k = Doc::INT;
                    x.sc.k = Doc::INT;
                    switch (p.get("manykind")) {
                    case 0: x.sc.i = (int64_t)1e12 + i; h = m->newValue(x.sc.i); break;
                    case 1: x.k = x.sc.k = Doc::FLOAT; x.sc.d = (double)i + 0.25; h = m->newValue(x.sc.d); break;
                    case 2: x.k = x.sc.k = Doc::STR; x.sc.s = "many" + std::to_string(i); h = m->newValue(x.sc.s); break;
                    case 3: x.k = Doc::ARR; if (i < 3 || i >= e - 10) arrs.push_back({m->newArray(1), nullptr}), h = arrs.back().h; else m->newArray(1); break;
                    default: x.k = Doc::OBJ; if (i < 3 || i >= e - 10) objs.push_back({m->newObject(1), nullptr}), h = objs.back().h; else m->newObject(1);
                    }
                    if (i >= 3 && i < e - 10) continue;
                    auto* r = add(x.k);
                    r->sc = x.sc;
                    if (x.k == Doc::ARR) arrs.back().r = r;
                    if (x.k == Doc::OBJ) objs.back().r = r;
                    any.push_back({h, r});
                }
            });
        int n = 0;
        for (auto& op : p.th[t]) {
            RNode val;
            Doc& d = val.sc;
            auto scalar = [&](int64_t kind, int64_t v) {
                switch (kind) {
                case 0: d.k = Doc::BOOL; d.b = v & 1; break;
                case 1: d.k = Doc::INT; d.i = (uint16_t)v; break;
                case 2: d.k = Doc::INT; d.i = -(v % 30000) - 1; break;
                case 3: {
                    static const int64_t edge[] = {65534, 65535, 65536, 65537, -32767, -32768, -32769, -32770, 0, -1, INT64_MAX, INT64_MIN, 1ll << 32, (1ll << 32) - 1, -(1ll << 31), 32767, 32768};
                    d.k = Doc::INT;
                    d.i = v % 5 == 0 ? edge[v / 5 % 17] : v % 2 ? v * 100001 : -v * 7000;
                    break;
                }
                case 4: {
                    static const double edge[] = {0.0, -0.0, 1.0, -1.0, 65535.0, 9007199254740993.0, 1e300, 5e-324, -2147483648.0, 0.1};
                    d.k = Doc::FLOAT;
                    d.d = v % 5 == 0 ? edge[(uint64_t)v / 5 % 10] : (double)v / 4;
                    break;
                }
                default: { Rng q((uint64_t)v); d.k = Doc::STR; d.s = v % 3 == 0 ? std::string((size_t[]){1, 31, 90, 150}[v / 3 % 4] * (v / 24 % 4 ? 1 : (size_t)p.get("bulk", 1)), (char)('k' + v / 12 % 2)) : v % 7 == 1 ? std::string() : str_of(q) + std::to_string(v % 100); }
                }
                val.k = d.k;
            };
            for (int tryno = 0; tryno < 2; ++tryno) {
                sim::Outcome o;
                int64_t oom = tryno ? 0 : op.oom;
                std::function<void()> commit = [] {};
                std::string what = op.kind;
                if (op.kind == "object" || op.kind == "array") {
                    bool ob = op.kind == "object";
                    simfil::model_ptr<simfil::Object> h;
                    simfil::model_ptr<simfil::Array> a;
                    o = sim::attempt(oom, op.oomp, [&] { if (ob) h = m->newObject((size_t)op.arg(0)); else a = m->newArray((size_t)op.arg(0)); });
                    if (o.ok) {
                        auto* r = add(ob ? Doc::OBJ : Doc::ARR);
                        if (ob) { objs.push_back({h, r}); any.push_back({h, r}); }
                        else { arrs.push_back({a, r}); any.push_back({a, r}); }
                    }
                } else if (op.kind == "value") {
                    scalar(op.arg(0) + 3, op.arg(1));
                    simfil::ModelNode::Ptr h;
                    o = sim::attempt(oom, op.oomp, [&] {
                        if (d.k == Doc::INT) h = m->newValue(d.i);
                        else if (d.k == Doc::FLOAT) h = m->newValue(d.d);
                        else h = m->newValue(std::string_view(d.s));
                    });
                    if (o.ok) { auto* r = add(d.k); r->sc = d; any.push_back({h, r}); }
                } else if (op.kind == "root") {
                    if (any.empty()) break;
                    auto& v = any[(size_t)op.arg(0) % any.size()];
                    if (roots.size() > 12) break;
                    o = sim::attempt(oom, op.oomp, [&] { m->addRoot(v.h); });
                    if (o.ok) roots.push_back(v.r);
                } else if (op.kind == "field" || op.kind == "elem") {
                    bool ob = op.kind == "field";
                    if (ob ? objs.empty() : arrs.empty()) break;
                    size_t i = (size_t)op.arg(0) % (ob ? objs.size() : arrs.size());
                    RNode* parent = ob ? objs[i].r : arrs[i].r;
                    std::string nm = wild_key(op.arg(2));
                    RNode* child = nullptr;
                    simfil::ModelNode::Ptr ch;
                    if (op.arg(1) == 6) {
                        auto& v = any[(size_t)op.arg(3) % any.size()];
                        if (v.r->ord <= parent->ord || v.r->weight() > 400) break;
                        child = v.r;
                        ch = v.h;
                    } else
                        scalar(op.arg(1), op.arg(3));
                    o = sim::attempt(oom, op.oomp, [&] {
                        int64_t v = op.arg(3);
                        if (ob) {
                            auto& h = *objs[i].h;
                            switch (op.arg(1)) {
                            case 0: h.addBool(nm, d.b); break;
                            case 1: h.addField(nm, (uint16_t)d.i); break;
                            case 2: h.addField(nm, (int16_t)d.i); break;
                            case 3: h.addField(nm, d.i); break;
                            case 4: h.addField(nm, d.d); break;
                            case 5: h.addField(nm, std::string_view(d.s)); break;
                            default: h.addField(nm, ch);
                            }
                        } else {
                            auto& h = *arrs[i].h;
                            switch (op.arg(1)) {
                            case 0: h.append(d.b); break;
                            case 1: h.append((uint16_t)d.i); break;
                            case 2: h.append((int16_t)d.i); break;
                            case 3: h.append(d.i); break;
                            case 4: h.append(d.d); break;
                            case 5: h.append(std::string_view(d.s)); break;
                            default: h.append(ch);
                            }
                        }
                        (void)v;
                    });
                    if (o.ok) {
                        if (!child) { child = add(d.k); child->sc = d; }
                        parent->kids.push_back({nm, child});
                    }
                } else {
                    bool ob = op.kind == "extendO";
                    if (ob ? objs.empty() : arrs.empty()) break;
                    size_t cnt = ob ? objs.size() : arrs.size();
                    size_t i = (size_t)op.arg(0) % cnt, j = (size_t)op.arg(1) % cnt;
                    RNode *dst = ob ? objs[i].r : arrs[i].r, *src = ob ? objs[j].r : arrs[j].r;
                    bool fits = dst->kids.size() + src->kids.size() < 200 && src->weight() + dst->weight() < 400;
                    for (auto& [nm, c] : src->kids) fits = fits && c->ord > dst->ord;
                    if (!fits) break;
                    o = sim::attempt(oom, op.oomp, [&] { if (ob) objs[i].h->extend(objs[j].h); else arrs[i].h->extend(arrs[j].h); });
                    // a failed merge may have added the first members
                    auto members = src->kids;
                    size_t have = 0;
                    must("size", [&] { have = ob ? objs[i].h->size() : arrs[i].h->size(); });
                    size_t added = have - dst->kids.size();
                    SIM_CHECK(have >= dst->kids.size() && added <= members.size() && (!o.ok || added == members.size()), "content",
                              "extend: %zu members became %zu, %zu were to be added", dst->kids.size(), have, members.size());
                    for (size_t k = 0; k < added; ++k) dst->kids.push_back(members[k]);
                    if (!o.ok) { sim_count("extend.partial", added > 0); }
                }
                sim_event(o.ok);
                SIM_CHECK(o.ok || (o.oom && oom), "unexpected-failure", "%s failed: %s", op.kind.c_str(), o.what.c_str());
                SIM_CHECK(sim_locks_held() == 0, "lock-leak", "a lock is held after %s", op.kind.c_str());
                if (!o.ok) {
                    sim_log("%s failed", op.kind.c_str());
                    check_all(("a failed " + op.kind).c_str());
                    must("validating after a failure", [&] { m->validate(); });
                    if (op.kind.compare(0, 6, "extend") == 0) break;
                    if (p.get("abandon") && (op.arg(3) + n) % 2) break;
                    continue;   // retry without the failure
                }
                break;
            }
            if (++n % 8 == 0) check_all(op.kind.c_str());
        }
        check_all("the last operation");
        must("validating", [&] { m->validate(); });
        // what was built can be shipped
        std::string img;
        must("writing", [&] { img = model_image(*m); });
        auto y = std::make_shared<simfil::ModelPool>(pool);
        sim::InBuf b(img, {});
        std::istream is(&b);
        must("reading", [&] { y->read(is); });
        SIM_CHECK(render_roots(*y) == render_roots(*m), "content", "a model built under memory shortage is not restored from its image");
        must("releasing", [&] { objs.clear(); arrs.clear(); any.clear(); m.reset(); y.reset(); });
    });
}

const sim::Scenario sim::scenario{"C08", gen, run, 100000000, 256ull << 20};
