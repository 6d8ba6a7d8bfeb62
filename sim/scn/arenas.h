// Array arenas of several shapes and element types, and operations on them checked against plain vectors.
#pragma once
#include "../sim.h"
#include "simfil/model/arena.h"
#include <deque>
#include <optional>
#include <string>
#include <unordered_set>
#include <vector>

namespace ar
{
using sim::Op;
using sim::Plan;
using sim::Rng;

// An element that owns memory in two places.
struct Pair
{
    std::string a, b;
    Pair() = default;
    Pair(int64_t v) : a("a long enough string to need memory " + std::to_string(v)), b(a + "!") {}
    Pair(int64_t v, int) : Pair(v) {}
    bool operator==(const Pair& o) const { return a == o.a && b == o.b; }
};
template <class T> T make(int64_t v)
{
    if constexpr (std::is_same_v<T, std::string>) return (v & 1) ? "s" + std::to_string(v) : "a string that is long enough to need memory " + std::to_string(v);
    else if constexpr (std::is_same_v<T, Pair>) return Pair(v);
    else return (T)v;
}
template <class T> std::string show(const T& x)
{
    if constexpr (std::is_same_v<T, std::string>) return x;
    else if constexpr (std::is_same_v<T, Pair>) return x.a + "/" + x.b;
    else return std::to_string(x);
}

inline Op random_op(Rng& r, int64_t& serial)
{
    switch (r.below(16)) {
    case 0: case 1: return {"new", {r.chance(1, 3) ? 0 : r.logrange(0, 20)}};
    case 2: case 3: case 4: case 5: return {"push", {(int64_t)r.below(64), ++serial}};
    case 6: case 7: case 8: return {"emplace", {(int64_t)r.below(64), ++serial}};
    case 9: return {"burst", {(int64_t)r.below(64), (serial += 12), r.range(1, 12)}};
    case 10: return {"at", {(int64_t)r.below(64), (int64_t)r.below(1000), (int64_t)r.below(2)}};
    case 11: return {"beyond", {(int64_t)r.below(64), r.chance(1, 2) ? 0 : r.logrange(0, 100000), (int64_t)r.below(2)}};
    case 12: return {"size", {(int64_t)r.below(64)}};
    case 13: return {"change", {(int64_t)r.below(64), (int64_t)r.below(1000), ++serial}};
    default: return {"read", {(int64_t)r.below(64), (int64_t)r.below(8)}};
    }
}

template <class T>
struct Own { simfil::ArrayIndex a; std::vector<T> want; std::vector<std::pair<T*, size_t>> refs; };   // an array, its expected content, references to its elements

template <class T, class Arena>
struct Tester
{
    Arena& arena;
    const char* prop;
    std::deque<Own<T>> own;

    void differ(const char* how, const Own<T>& o, size_t i, const std::string& got)
    {
        sim_violation("content", "%s: element %zu of array %d (size %zu) is %s instead of %s", how, i, (int)o.a, o.want.size(), got.c_str(), i < o.want.size() ? show(o.want[i]).c_str() : "nothing");
    }
    void same(const char* how, const Own<T>& o, const std::vector<T>& got)
    {
        for (size_t i = 0; i < got.size() || i < o.want.size(); ++i)
            if (i >= got.size() || i >= o.want.size() || !(got[i] == o.want[i])) differ(how, o, i, i < got.size() ? show(got[i]) : "missing");
    }
    // read the whole array in the given way
    void read(const Own<T>& o, int64_t mode)
    {
        std::vector<T> got;
        size_t bad = 0;
        sim::must("reading an array", [&] {
            auto put = [&](const T& x) { got.push_back(x); };
            switch (mode) {
            case 0: for (size_t i = 0, n = arena.size(o.a); i < n; ++i) put(arena.at(o.a, i)); break;
            case 1: { const Arena& c = arena; for (size_t i = 0, n = c.size(o.a); i < n; ++i) put(c.at(o.a, i)); break; }
            case 2: for (auto it = arena.begin(o.a), e = arena.end(o.a); it != e; ++it) put(*it); break;
            case 3: for (auto& x : arena.range(o.a)) put(x); break;
            case 4: { auto r = arena.range(o.a); for (size_t i = 0, n = r.size(); i < n; ++i) put(r[i]); break; }
            case 5: arena.iterate(o.a, [&](T& x) { put(x); }); break;
            case 6: arena.iterate(o.a, [&](T& x, size_t i) { if (i != got.size()) ++bad; put(x); }); break;
            default: arena.iterate(o.a, [&](T& x) { put(x); return true; });
            }
        });
        static const char* names[] = {"at()", "const at()", "iterator", "range", "range[]", "iterate()", "iterate() with index", "iterate() with stop"};
        same(names[mode], o, got);
        SIM_CHECK(!bad, "content", "iterate() passes wrong indices for array %d", (int)o.a);
        sim::must("releasing", [&] { got.clear(); got.shrink_to_fit(); });
        if (mode == 7 && o.want.size() > 1) {
            size_t n = 0, stop = 1 + o.want.size() / 2;
            sim::must("iterate", [&] { arena.iterate(o.a, [&](T&) { return ++n < stop; }); });
            SIM_CHECK(n == stop, "content", "iterate() goes on to element %zu after it was stopped at %zu", n, stop);
        }
    }
    // references to elements stay good while arrays grow
    void refs(const Own<T>& o)
    {
        for (auto& [p, i] : o.refs) {
            T v{};
            sim::must("reading through a reference", [&] { v = *p; });
            if (!(v == o.want[i])) differ("a reference", o, i, show(v));
        }
    }
    void all() { for (auto& o : own) { size(o); refs(o); for (int m = 0; m < 8; ++m) read(o, m); beyond(o, 0, 0); } }
    void size(const Own<T>& o)
    {
        size_t n = 0;
        sim::must("size", [&] { n = arena.size(o.a); });
        SIM_CHECK(n == o.want.size(), "content", "array %d has size %zu instead of %zu", (int)o.a, n, o.want.size());
    }
    void beyond(const Own<T>& o, int64_t d, int64_t c)
    {
        auto r = sim::attempt([&] {
            if (c) { const Arena& k = arena; (void)k.at(o.a, o.want.size() + (size_t)d); }
            else (void)arena.at(o.a, o.want.size() + (size_t)d);
        });
        SIM_CHECK(!r.ok && r.type == typeid(std::out_of_range).name(), "bounds", "element %lld of array %d (size %zu) can be accessed", (long long)(o.want.size() + (size_t)d), (int)o.a, o.want.size());
    }
    // returns false if the operation failed for lack of memory
    bool step(const Op& op)
    {
        auto& k = op.kind;
        if (k == "new" || own.empty()) {
            simfil::ArrayIndex a = -1;
            size_t before = 0, after = 0;
            auto o = sim::attempt(op, [&] { a = arena.new_array((size_t)(k == "new" ? op.arg(0) : 2)); });
            (void)before; (void)after;
            return fate(o, op, "new_array") && (own.push_back({a, {}, {}}), true);
        }
        auto& o = own[(size_t)op.arg(0) % own.size()];
        if (k == "push" || k == "emplace") {
            T v = make<T>(op.arg(1));
            bool right = true;
            T* p = nullptr;
            auto r = sim::attempt(op, [&] {
                if (k == "push") p = &arena.push_back(o.a, v);
                else if constexpr (std::is_same_v<T, Pair>) p = &arena.emplace_back(o.a, op.arg(1), 0);
                else if constexpr (std::is_same_v<T, std::string>) p = &arena.emplace_back(o.a, v.data(), v.size());
                else p = &arena.emplace_back(o.a, v);
                right = *p == v;
            });
            if (!fate(r, op, k.c_str())) return false;
            SIM_CHECK(right, "content", "%s returns a reference to something else than the new element", k.c_str());
            o.want.push_back(v);
            if (o.want.size() % 3 == 0) o.refs.push_back({p, o.want.size() - 1});
        } else if (k == "burst") {
            for (int64_t i = 0; i < op.arg(2); ++i) {
                T v = make<T>(op.arg(1) - i);
                Op one = op;
                one.oom = op.oom && i == op.arg(2) / 2 ? op.oom : 0;
                auto r = sim::attempt(one, [&] { arena.push_back(o.a, v); });
                if (!fate(r, one, "push_back")) return false;
                o.want.push_back(v);
            }
        } else if (k == "at" && !o.want.empty()) {
            size_t i = (size_t)op.arg(1) % o.want.size();
            T v{};
            sim::must("at", [&] { if (op.arg(2)) { const Arena& c = arena; v = c.at(o.a, i); } else v = arena.at(o.a, i); });
            if (!(v == o.want[i])) differ("at()", o, i, show(v));
        } else if (k == "change" && !o.want.empty()) {
            size_t i = (size_t)op.arg(1) % o.want.size();
            T v = make<T>(op.arg(2));
            sim::must("at", [&] { arena.at(o.a, i) = v; });
            o.want[i] = v;
            refs(o);
        } else if (k == "beyond") beyond(o, op.arg(1), op.arg(2));
        else if (k == "size") size(o);
        else if (k == "read") { read(o, op.arg(1)); refs(o); }
        return true;
    }
    bool fate(const sim::Outcome& o, const Op& op, const char* what)
    {
        SIM_CHECK(sim_locks_held() == 0, "lock-leak", "a lock is held after %s", what);
        if (o.ok) return true;
        SIM_CHECK(o.oom && op.oom, "unexpected-failure", "%s fails: %s (%s)", what, o.what.c_str(), o.type.c_str());
        sim_count("append.failed", 1);
        return false;
    }
};

template <class F>
void with_shape(int64_t type, int64_t page, F&& f)
{
    auto pick = [&](auto* t) {
        using T = std::remove_pointer_t<decltype(t)>;
        switch (page) {
        case 0: f(t, (simfil::ArrayArena<T, 2, 2>*)nullptr); break;
        case 1: f(t, (simfil::ArrayArena<T, 4, 2, uint64_t>*)nullptr); break;
        case 2: f(t, (simfil::ArrayArena<T, 16, 4>*)nullptr); break;
        default: f(t, (simfil::ArrayArena<T>*)nullptr);
        }
    };
    if (type == 0) pick((int*)nullptr);
    else if (type == 1) pick((std::string*)nullptr);
    else pick((Pair*)nullptr);
}
}
