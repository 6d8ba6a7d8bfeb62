// Random documents, building them into models through the public API, and reading models back.
#pragma once
#include "poolmodel.h"
#include "procs.h"
#include "simfil/model/model.h"
#include "simfil/model/nodes.h"
#include <cmath>
#include <cstring>

namespace pm
{
struct Kid;
struct Doc
{
    enum K { BOOL, INT, FLOAT, STR, ARR, OBJ } k = BOOL;
    bool b = false;
    int64_t i = 0;
    double d = 0;
    std::string s;
    std::vector<Kid> kids;   // ARR: names unused
    Doc();
    Doc(const Doc&);
    Doc& operator=(const Doc&);
    ~Doc();
};
struct Kid { std::string first; Doc second; };
inline Doc::Doc() = default;
inline Doc::Doc(const Doc&) = default;
inline Doc& Doc::operator=(const Doc&) = default;
inline Doc::~Doc() = default;

inline std::string key(int64_t k)
{
    static const char* base[] = {"a", "b", "name", "value", "list", "deep", "a_rather_long_field_name_beyond_sso", "x1"};
    if (k >= ODD) return lower(odd((k - ODD) % 31));   // without what JSON must escape or would refuse
    return k < 8 ? base[k] : "field" + std::to_string(k);
}

inline std::string wild_key(int64_t k) { return lower(k >= ODD ? odd((k - ODD) % ODDS) : key(k)); }

inline std::string str_of(Rng& r)
{
    static const char* pool[] = {"", "x", "hello", "a string that is longer than the small buffer", "with space", "alpha", "beta", "42"};
    std::string s = pool[r.below(8)];
    if (r.chance(1, 12)) s += std::string((size_t)r.range(1, 200), 'q');
    return s;
}

inline Doc scalar(Rng& r)
{
    Doc d;
    switch (r.below(6)) {
    case 0: d.k = Doc::BOOL; d.b = r.chance(1, 2); break;
    case 1: {
        static const double edge[] = {0.0, 0.1, 1.0 / 3, -1e-7, 1e300, 5e-324, 123456789.123456789, -9007199254740993.0, 3.4028236e38, 1e-45};
        d.k = Doc::FLOAT;
        d.d = r.chance(1, 4) ? edge[r.below(10)] : (double)r.range(-1000, 1000) + (r.chance(1, 2) ? 0.5 : 0.0);
        break;
    }
    case 2:
    case 3: d.k = Doc::STR; d.s = str_of(r); break;
    default: {
        static const int64_t edge[] = {0, 1, -1, 65535, 65536, -32768, -32769, 1ll << 40, -(1ll << 40), INT64_MAX, INT64_MIN + 1};
        d.k = Doc::INT;
        d.i = r.chance(1, 3) ? edge[r.below(11)] : r.range(-100000, 100000);
    }
    }
    return d;
}

// budget: number of nodes to spend
inline Doc gen_node(Rng& r, int64_t& budget, int depth, bool wild)
{
    --budget;
    if (budget <= 0 || depth > 6 || (depth > 0 && r.chance(2, 5))) return scalar(r);
    Doc d;
    d.k = r.chance(3, 5) ? Doc::OBJ : Doc::ARR;
    int64_t n = r.chance(1, 8) ? 0 : r.range(1, r.chance(1, 6) ? 20 : 5);
    int64_t start = (int64_t)r.below(8);
    int64_t odds = r.chance(1, 12) ? ODD + (int64_t)r.below(wild ? ODDS : 31) : 0;
    for (int64_t i = 0; i < n && budget > 0; ++i) {
        std::string nm = d.k == Doc::OBJ ? odds ? wild ? wild_key(odds + i) : key(odds + i) : key((start + i) % 30) : "";
        d.kids.push_back({nm, gen_node(r, budget, depth + 1, wild)});
    }
    return d;
}
// wild: also names no JSON text can hold
inline Doc gen_doc(int64_t seed, int64_t size, bool container = false, bool wild = false)
{
    Rng r((uint64_t)seed * 7919 + 17);
    int64_t b = size + 1;
    Doc d = gen_node(r, b, container ? 0 : (r.chance(1, 10) ? 1 : 0), wild);
    return d;
}
// its longer strings grow to many kilobytes in total, beyond what a model reserves
inline void bulk(Doc& d, size_t by)
{
    if (d.k == Doc::STR && d.s.size() > 20 && by) {
        std::string s;
        while (s.size() < by) s += d.s;
        d.s = s;
    }
    for (auto& k : d.kids) bulk(k.second, by);
}
// a wide document that crosses storage pages
inline Doc gen_wide(int64_t n, int64_t kind = 0)
{
    Doc d;
    d.k = Doc::ARR;
    for (int64_t i = 0; i < n; ++i) {
        Doc e;
        switch (kind) {
        case 1: e.k = Doc::FLOAT; e.d = 0.5 + (double)i; break;
        case 2: e.k = Doc::STR; e.s = "s" + std::to_string(i); break;
        case 3: e.k = Doc::ARR; break;
        case 4: e.k = Doc::OBJ; break;
        default: e.k = Doc::INT; e.i = 100000 + i;
        }
        d.kids.push_back({"", e});
    }
    return d;
}

inline void put(std::string& o, double v)
{
    char b[40];
    snprintf(b, sizeof b, "f%.17g", v);
    o += b;
}
inline void render(const Doc& d, std::string& o)
{
    switch (d.k) {
    case Doc::BOOL: o += d.b ? "T" : "F"; break;
    case Doc::INT: o += "i" + std::to_string(d.i); break;
    case Doc::FLOAT: put(o, d.d); break;
    case Doc::STR: o += "'" + d.s + "'"; break;
    case Doc::ARR:
        o += "[";
        for (auto& [n, c] : d.kids) { render(c, o); o += ","; }
        o += "]";
        break;
    case Doc::OBJ:
        o += "{";
        for (auto& [n, c] : d.kids) { o += lower(n) + ":"; render(c, o); o += ","; }
        o += "}";
        break;
    }
}
inline std::string render(const Doc& d) { std::string o; render(d, o); return o; }

inline void put_value(const simfil::ScalarValueType& v, std::string& o)
{
    std::visit([&](auto&& x) {
        using T = std::decay_t<decltype(x)>;
        if constexpr (std::is_same_v<T, std::monostate>) o += "null";
        else if constexpr (std::is_same_v<T, bool>) o += x ? "T" : "F";
        else if constexpr (std::is_same_v<T, int64_t>) o += "i" + std::to_string(x);
        else if constexpr (std::is_same_v<T, double>) put(o, x);
        else { o += "'"; o += std::string(x); o += "'"; }
    }, v);
}

// Read a node back through size/at/keyAt and, for containers, cross-check with iterate() and get().
// `lim` bounds the output, so that a damaged (cyclic) model cannot keep this busy for ever.
struct Reader
{
    const simfil::Model* names = nullptr;
    size_t lim = 4 << 20;
    bool cross = true;
    bool strict = false;   // every field name must resolve
    int depth = 0;
    void node(const simfil::ModelNode& n, std::string& o)
    {
        if (o.size() > lim) sim_violation("traversal", "traversal does not end");
        if (++depth > 4000) sim_violation("traversal", "nesting does not end");
        auto t = n.type();
        if (t == simfil::ValueType::Object) {
            o += "{";
            uint32_t sz = n.size();
            for (uint32_t i = 0; i < sz; ++i) {
                auto id = n.keyAt(i);
                auto nm = names ? names->lookupStringId(id) : std::nullopt;
                if (!nm && strict) sim_violation("validation", "field name id %u of a validated model cannot be resolved", (unsigned)id);
                o += nm ? lower(std::string(*nm)) : "#" + std::to_string(id);
                o += ":";
                child(n.at(i), o);
                o += ",";
            }
            o += "}";
            if (cross) crosscheck(n, sz, true);
        } else if (t == simfil::ValueType::Array) {
            o += "[";
            uint32_t sz = n.size();
            for (uint32_t i = 0; i < sz; ++i) { child(n.at(i), o); o += ","; }
            o += "]";
            if (cross) crosscheck(n, sz, false);
        } else
            put_value(n.value(), o);
        --depth;
    }
    void child(const simfil::ModelNode::Ptr& c, std::string& o)
    {
        if (!c) { o += "null"; return; }
        node(*c, o);
    }
    void crosscheck(const simfil::ModelNode& n, uint32_t sz, bool obj)
    {
        uint32_t k = 0;
        n.iterate(simfil::ModelNode::IterLambda([&](auto&& c) {
            auto want = n.at(k);
            if (want) {
                if (c.type() != want->type()) sim_violation("content", "iterate() and at(%u) disagree about the type", k);
                if (c.size() != want->size()) sim_violation("content", "iterate() and at(%u) disagree about the size", k);
            }
            ++k;
            return true;
        }));
        if (k != sz) sim_violation("content", "size() is %u, iterate() visits %u children", sz, k);
        if (n.at(sz)) sim_violation("content", "at(size()) yields a node");
        if (obj) {
            std::map<uint32_t, uint32_t> first;
            for (uint32_t i = 0; i < sz; ++i) first.emplace(n.keyAt(i), i);
            for (auto& [id, i] : first) {
                auto c = n.get((simfil::StringId)id);
                auto w = n.at(i);
                if (!c || !w || c->addr().value_ != w->addr().value_) sim_violation("content", "get() by id and at(%u) disagree", i);
                auto pool = dynamic_cast<const simfil::ModelPool*>(names);
                auto nm = pool ? pool->lookupStringId((simfil::StringId)id) : std::nullopt;
                if (!nm || n.addr().column() != simfil::ModelPool::Objects) continue;
                auto d = pool->resolveObject(simfil::ModelNode::Ptr::make(pool->shared_from_this(), n.addr()))->get(*nm);
                if (!d || d->addr().value_ != w->addr().value_) sim_violation("content", "get() by name and at(%u) disagree", i);
            }
        }
    }
};
inline std::string render(const simfil::ModelNode::Ptr& n, const simfil::Model& m, bool cross = true, bool strict = false)
{
    std::string o;
    Reader r{&m};
    r.cross = cross;
    r.strict = strict;
    r.child(n, o);
    return o;
}
// Reading by the harness can take part in the schedule and the race checks like any other use.
inline bool watch_reads = false;
struct Watched
{
    int was;
    Watched() : was(sim_active(watch_reads ? 1 : 0)) { if (!watch_reads) sim_active(was); }
    ~Watched() { sim_active(was); }
};
inline std::vector<std::string> render_roots(const simfil::ModelPool& m, bool cross = true, bool strict = false)
{
    std::vector<std::string> v;
    {
        Watched w;
        std::vector<std::string> u;
        size_t n = m.numRoots();
        for (size_t i = 0; i < n; ++i) u.push_back(render(m.root(i), m, cross, strict));
        sim::Quiet q;
        v = u;
    }
    return v;
}

// Build a document through the API, varying the calls used.
struct Builder
{
    simfil::ModelPool& m;
    Rng r;
    ProcModel* pm;   // then some objects get computed fields
    Builder(simfil::ModelPool& mm, uint64_t seed) : m(mm), r(seed), pm(dynamic_cast<ProcModel*>(&mm)) {}
    // the first fields computed, the others stored
    simfil::ModelNode::Ptr procedural(const Doc& d)
    {
        ProcModel::Rec rec;
        size_t n = (size_t)r.range(1, 3), i = 0;
        for (; i < n && i < d.kids.size(); ++i) {
            auto& [nm, c] = d.kids[i];
            auto& f = rec.fields.emplace_back();
            f.id = m.strings()->emplace(nm);
            bool stored = r.chance(1, 2);
            if (stored || c.k == Doc::ARR || c.k == Doc::OBJ) f.addr = build(c)->addr();
            else if (c.k == Doc::BOOL) f.value = c.b;
            else if (c.k == Doc::INT) f.value = c.i;
            else if (c.k == Doc::FLOAT) f.value = c.d;
            else f.value = c.s;
        }
        rec.members = simfil::InvalidArrayIndex;
        if (i < d.kids.size() || r.chance(1, 3)) {
            auto o = m.newObject((size_t)r.below(4));
            for (; i < d.kids.size(); ++i) o->addField(d.kids[i].first, build(d.kids[i].second));
            rec.members = (simfil::ArrayIndex)o->addr().index();
        }
        return pm->add(std::move(rec));
    }
    simfil::ModelNode::Ptr build(const Doc& d)
    {
        switch (d.k) {
        case Doc::BOOL: return m.newSmallValue(d.b);
        case Doc::INT: return m.newValue(d.i);
        case Doc::FLOAT: return m.newValue(d.d);
        case Doc::STR: return m.newValue(std::string_view(d.s));
        case Doc::ARR: {
            auto a = m.newArray((size_t)r.below(6));
            for (auto& [n, c] : d.kids) {
                if (r.chance(1, 2)) { a->append(build(c)); continue; }
                switch (c.k) {
                case Doc::BOOL: a->append(c.b); break;
                case Doc::INT: a->append(c.i); break;
                case Doc::FLOAT: a->append(c.d); break;
                case Doc::STR: a->append(std::string_view(c.s)); break;
                default: a->append(build(c));
                }
            }
            return a;
        }
        case Doc::OBJ: {
            if (pm && r.chance(1, 3)) return procedural(d);
            auto o = m.newObject((size_t)r.below(6));
            for (auto& [n, c] : d.kids) {
                if (r.chance(1, 2)) { o->addField(n, build(c)); continue; }
                switch (c.k) {
                case Doc::BOOL: o->addBool(n, c.b); break;
                case Doc::INT: o->addField(n, c.i); break;
                case Doc::FLOAT: o->addField(n, c.d); break;
                case Doc::STR: o->addField(n, std::string_view(c.s)); break;
                default: o->addField(n, build(c));
                }
            }
            return o;
        }
        }
        return {};
    }
};

inline std::string jstr(const std::string& s)
{
    std::string o = "\"";
    for (char c : s) { if (c == '"' || c == '\\') o += '\\'; o += c; }
    return o + "\"";
}
inline void json(const Doc& d, std::string& o)
{
    switch (d.k) {
    case Doc::BOOL: o += d.b ? "true" : "false"; break;
    case Doc::INT: o += std::to_string(d.i); break;
    case Doc::FLOAT: { char b[40]; snprintf(b, sizeof b, "%.17g", d.d); o += b; if (!strpbrk(b, ".en")) o += ".0"; break; }
    case Doc::STR: o += jstr(d.s); break;
    case Doc::ARR: { o += "["; bool f = true; for (auto& [n, c] : d.kids) { if (!f) o += ", "; f = false; json(c, o); } o += "]"; break; }
    case Doc::OBJ: { o += "{"; bool f = true; for (auto& [n, c] : d.kids) { if (!f) o += ", "; f = false; o += jstr(n) + ": "; json(c, o); } o += "}"; break; }
    }
}
// what a JSON loader makes of it: members sorted by name
inline Doc sorted(Doc d)
{
    for (auto& [n, c] : d.kids) c = sorted(c);
    if (d.k == Doc::OBJ) {
        std::multimap<std::string, size_t> ord;
        for (size_t i = 0; i < d.kids.size(); ++i) ord.insert({d.kids[i].first, i});
        std::vector<Kid> out;
        for (auto& [n, i] : ord) out.push_back(d.kids[i]);
        d.kids = out;
    }
    return d;
}
inline std::string model_image(simfil::ModelPool& m)
{
    sim::OutBuf b;
    std::ostream os(&b);
    m.write(os);
    return b.data;
}
}
