// Sequential reference model of a string pool, history recording and a linearizability checker
// (Wing & Gong's search with memoisation).
#pragma once
#include "../sim.h"
#include "simfil/model/string-pool.h"
#include <algorithm>
#include <optional>
#include <unordered_set>

namespace pm
{
using sim::Op;
using sim::Plan;
using sim::Rng;

inline std::string lower(std::string s)
{
    for (auto& c : s)
        if (c >= 'A' && c <= 'Z') c = (char)(c - 'A' + 'a');
    return s;
}

// Names that differ in no more than what must tell them apart: pairs whose 64 bit FNV hashes are equal,
// characters that a careless case folding takes for each other, prefixes, an embedded zero.
constexpr int64_t ODD = 500, ODDS = 50;
inline std::string odd(int64_t k)
{
    static const std::vector<std::string> t = {
        "zka1qerpeyzgh", "msy.rz-dxqaxh", "yn0kukgopc-rj", "f1qjzmu2gfy0d", "w_-py2uowpqrb", "lrzx.ouscevwf", "m2.cgg.lzh10o", "wbqrupwf2jrmc",
        "$", " ", "a", "aa", "ab", "abc", "a b", "a[0]", "a{0}", "[", "{", "@", "`", "x@y", "x`y", "\\", "|", "]", "}", "^", "~", "_", "\x7f",
        std::string("a\0b", 3), std::string("a\0c", 3), std::string("a\0", 2), "0", "00", "z", "zz", "\xc3\xa4", "\xc3\x84", "\xff", "\xdf",
        std::string(300, 'l') + "1", std::string(300, 'l') + "2", "1" + std::string(300, 'l'), "2" + std::string(300, 'l'),
        "$sum", "$val", "$idx", "$sums"};
    return t[(size_t)k % t.size()];
}
// where a run's names come from: now and then from the odd ones
inline int64_t gen_names(Rng& r) { return r.chance(1, 3) ? ODD + (int64_t)r.below(ODDS) : 0; }

// Now and then: how many names are there before the run, so that it crosses a size where a container grows.
inline int64_t gen_fill(Rng& r, uint64_t oneIn = 40)
{
    if (!r.chance(1, oneIn)) return 0;
    static const int64_t at[] = {64, 128, 256, 512, 1024, 2048, 4096, 8192, 127, 257, 541, 1109, 2357, 5087, 10273, 1000, 10000};
    return at[r.below(sizeof at / sizeof *at)] - 4 - (int64_t)r.below(10);
}

// name k in spelling v: v selects which letters are upper case
inline std::string spell(int64_t k, int64_t v)
{
    static const char* base[] = {"alpha", "beta", "gammaray", "delta-of-a-longer-name-than-sso", "e", "zeta_1", "Eta.eta", "theta theta theta theta theta theta"};
    std::string s;
    if (k < 8) s = base[k];
    else if (k >= ODD && k < ODD + 100) s = odd(k - ODD);
    else s = "name" + std::to_string(k) + (k % 3 == 0 ? "_with_a_tail_beyond_sso" : "");
    s = lower(s);
    uint64_t m = (uint64_t)v * 0x9E3779B97F4A7C15ull;
    if (v == 0) m = 0;
    if (v == 1) m = ~0ull;
    for (size_t i = 0; i < s.size(); ++i)
        if ((m >> (i % 61)) & 1)
            if (s[i] >= 'a' && s[i] <= 'z') s[i] = (char)(s[i] - 'a' + 'A');
    return s;
}

template<class Pool>
inline void fill_pool(Pool& pool, int64_t n)
{
    for (int64_t i = 0; i < n; ++i) {
        std::string s = "fill" + std::to_string(i);
        sim::must("preloading", [&] { pool.emplace(s); });
    }
}

struct Entry { uint32_t id; std::string spelling; };

// The pool as an abstract value.
struct State
{
    std::map<std::string, Entry> names;   // by lower case
    std::map<uint32_t, std::string> ids;
    uint32_t maxid = 127;
    size_t bytes = 0;

    uint64_t hash() const
    {
        uint64_t h = maxid * 1000003ull;
        for (auto& [k, e] : names) h += (sim::hash_str(k) * 31 + e.id) * 0x9E3779B97F4A7C15ull ^ sim::hash_str(e.spelling);
        return h;
    }
    void add(const std::string& spelling, uint32_t id)
    {
        names[lower(spelling)] = Entry{id, spelling};
        ids[id] = spelling;
        bytes += spelling.size();
        if (id >= 128 && id > maxid) maxid = id;
    }
};

// Content of a real pool through its public interface (only while no other thread uses it).
inline State observe(simfil::StringPool const& p)
{
    State s;
    for (uint32_t i = 0; i <= 65535; ++i) {
        std::optional<std::string_view> v;
        {
            v = p.resolve((simfil::StringId)i);
        }
        if (v) s.add(std::string(*v), i);
        if (i > 200 && i > (uint32_t)p.highest() + 600) break;
    }
    return s;
}

enum Kind { EMPLACE, GET, RESOLVE, SIZE, HIGHEST };
struct Event
{
    int thread = 0;
    Kind kind = EMPLACE;
    std::string s;           // argument
    uint32_t id = 0;         // argument (RESOLVE)
    uint32_t rid = 0;        // result
    bool rok = false;        // RESOLVE: found
    std::string rs;          // RESOLVE: text
    uint64_t inv = 0, ret = 0;
    std::string text() const
    {
        switch (kind) {
        case EMPLACE: return "emplace(" + s + ")=" + std::to_string(rid);
        case GET: return "get(" + s + ")=" + std::to_string(rid);
        case RESOLVE: return "resolve(" + std::to_string(id) + ")=" + (rok ? "'" + rs + "'" : "none");
        case SIZE: return "size()=" + std::to_string(rid);
        case HIGHEST: return "highest()=" + std::to_string(rid);
        }
        return "?";
    }
};

struct Checker
{
    const std::vector<Event>& ev;
    std::unordered_set<uint64_t> seen;
    uint64_t steps = 0;
    uint64_t limit = 400000;
    bool gaveup = false;
    explicit Checker(const std::vector<Event>& e) : ev(e) {}

    static bool step(State& s, const Event& e)
    {
        switch (e.kind) {
        case EMPLACE: {
            auto it = s.names.find(lower(e.s));
            if (it != s.names.end()) return it->second.id == e.rid;
            if (e.rid <= s.maxid || e.rid < 128 || e.rid > 65535) return false;
            s.add(e.s, e.rid);
            return true;
        }
        case GET: {
            auto it = s.names.find(lower(e.s));
            return (it == s.names.end() ? 0u : it->second.id) == e.rid;
        }
        case RESOLVE: {
            auto it = s.ids.find(e.id);
            if (it == s.ids.end()) return !e.rok;
            return e.rok && it->second == e.rs;
        }
        case SIZE: return s.names.size() == e.rid;
        case HIGHEST: return s.maxid == e.rid;
        }
        return false;
    }

    bool dfs(uint64_t done, const State& s)
    {
        if (done == (ev.size() == 64 ? ~0ull : (1ull << ev.size()) - 1)) return true;
        if (++steps > limit) { gaveup = true; return true; }
        uint64_t key = (done * 0x9E3779B97F4A7C15ull) ^ s.hash();
        if (!seen.insert(key).second) return false;
        uint64_t minret = ~0ull;
        for (size_t i = 0; i < ev.size(); ++i)
            if (!(done >> i & 1)) minret = std::min(minret, ev[i].ret);
        for (size_t i = 0; i < ev.size(); ++i) {
            if (done >> i & 1) continue;
            if (ev[i].inv > minret) continue;
            State t = s;
            if (!step(t, ev[i])) continue;
            if (dfs(done | 1ull << i, t)) return true;
        }
        return false;
    }
};

inline void check_linearizable(std::vector<Event> all, const State& init)
{
    std::sort(all.begin(), all.end(), [](const Event& a, const Event& b) { return a.inv < b.inv; });
    SIM_CHECK(all.size() <= 64, "harness", "history too long");
    Checker c(all);
    bool ok = c.dfs(0, init);
    if (c.gaveup) sim_count("lin.gaveup", 1);
    sim_count("lin.histories", 1);
    sim_count("lin.operations", all.size());
    sim_count("lin.search_steps", c.steps);
    if (!ok) {
        std::string h;
        for (auto& e : all) h += "\n  [" + std::to_string(e.inv) + "," + std::to_string(e.ret) + "] t" + std::to_string(e.thread) + " " + e.text();
        sim_violation("not-linearizable", "no sequential order of these operations explains their results:%s", h.c_str());
    }
}

// Both directions of the pool agree and nothing but `expect` is in it.
inline void check_content(simfil::StringPool& p, const State& expect, const char* when)
{
    State got;
    sim::must("reading the pool", [&] { sim::Quiet q; got = observe(p); });
    for (auto& [id, s] : expect.ids) {
        auto it = got.ids.find(id);
        SIM_CHECK(it != got.ids.end(), "content", "%s: id %u should resolve to '%s' but resolves to nothing", when, id, s.c_str());
        SIM_CHECK(it->second == s, "content", "%s: id %u should resolve to '%s' but resolves to '%s'", when, id, s.c_str(), it->second.c_str());
    }
    for (auto& [id, s] : got.ids)
        SIM_CHECK(expect.ids.count(id), "content", "%s: id %u resolves to '%s' but was never handed out", when, id, s.c_str());
    for (auto& [n, e] : expect.names) {
        uint32_t id = p.get(e.spelling);
        SIM_CHECK(id == e.id, "content", "%s: '%s' should have id %u but lookup gives %u", when, e.spelling.c_str(), e.id, id);
    }
    SIM_CHECK(p.size() == expect.names.size(), "content", "%s: size() is %zu, but there are %zu names", when, p.size(), expect.names.size());
}
}

namespace pm
{
// Serialize / deserialize through simulated devices.
inline std::string image(const simfil::StringPool& p, uint32_t offset = 0)
{
    sim::OutBuf b;
    std::ostream os(&b);
    p.write(os, (simfil::StringId)offset);
    return b.data;
}
inline void load(simfil::StringPool& p, const std::string& img, sim::InFault f = {})
{
    sim::InBuf b(img, f);
    std::istream is(&b);
    p.read(is);
}

// An image that makes a pool go on with high ids: one name with the given id. The id is patched into
// a real image, so this does not depend on more of the format than where the id is.
inline std::string high_image(uint32_t id, const std::string& name = "zz_base")
{
    std::string img;
    sim::must("making an image", [&] {
        simfil::StringPool one;
        one.emplace(name);
        img = image(one, 128);
    });
    size_t at = img.find(std::string("\x80\0", 2));
    SIM_CHECK(at != std::string::npos, "content", "the image of a pool does not contain the id of the only name in it");
    img[at] = (char)(id & 255);
    img[at + 1] = (char)(id >> 8);
    return img;
}
inline void lift(simfil::StringPool& p, int64_t base)
{
    if (base <= 0) return;
    auto img = high_image((uint32_t)base);
    sim::must("advancing a pool", [&] { load(p, img); });
    SIM_CHECK(p.highest() == (uint32_t)base, "content", "after reading a name with id %d highest() is %u", (int)base, p.highest());
}
inline int64_t gen_base(Rng& r)
{
    switch (r.below(8)) {
    case 0: return r.range(240, 260);
    case 1: return r.range(32740, 32770);
    case 2: return r.range(129, 60000);
    default: return 0;
    }
}
}
