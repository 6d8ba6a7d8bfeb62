// C17: with arena locking enabled, concurrent owners of arrays lose nothing.
#ifndef ARRAY_ARENA_THREAD_SAFE
#error
#endif
#include "arenas.h"
#include <set>
using namespace ar;
using sim::must;

static void gen(Rng& r, Plan& p, int thorough)
{
    p.par["type"] = (int64_t)r.below(3);
    p.par["page"] = (int64_t)r.below(4);
    int nt = (int)r.range(2, thorough ? 7 : 5);
    p.th.resize(nt);
    p.par["half"] = r.chance(1, 2);   // arrays change their owner half-way
    int64_t serial = 0;
    for (int t = 0; t < nt; ++t) {
        int n = (int)r.range(2, thorough ? 60 : 30);
        int64_t only = r.chance(1, 4) ? (int64_t)r.below(4) : -1;
        for (int i = 0; i < n; ++i) {
            Op o = random_op(r, serial);
            if (only == 0 && o.kind != "new") o = {"push", {(int64_t)r.below(3), ++serial}};
            if (only == 1 && o.kind == "push") o = {"new", {(int64_t)r.below(3)}};
            if (r.chance(1, 15)) o.oom = r.range(1, 4);
            p.th[t].push_back(o);
        }
    }
}

template <class T, class Arena>
static void test(const Plan& p)
{
    auto arena = std::make_unique<Arena>();
    std::vector<Tester<T, Arena>> ts;
    for (size_t t = 0; t < p.th.size(); ++t) ts.push_back({*arena, "C17", {}});
    bool half = p.get("half");
    auto part = [&](int t, size_t from, size_t to) {
        for (size_t i = from; i < to; ++i) {
            auto& op = p.th[t][i];
            size_t before = 0;
            must("size", [&] { before = arena->size(); });
            if (op.kind == "new") {
                size_t had = ts[t].own.size();
                ts[t].step(op);
                size_t now = 0;
                must("size", [&] { now = arena->size(); });
                SIM_CHECK(now >= before + (ts[t].own.size() - had), "content", "the arena has %zu arrays, it had %zu and one was added", now, before);
                if (ts[t].own.size() > had) SIM_CHECK((size_t)ts[t].own.back().a >= before && (size_t)ts[t].own.back().a < now, "content", "the new array has index %d, there are %zu arrays and were %zu", (int)ts[t].own.back().a, now, before);
            } else ts[t].step(op);
        }
        for (auto& o : ts[t].own) ts[t].read(o, (int64_t)(from % 8));
    };
    sim::run_threads((int)p.th.size(), [&](int t) { part(t, 0, half ? p.th[t].size() / 2 : p.th[t].size()); });
    auto verify = [&] {
        std::set<int> seen;
        size_t total = 0, n = 0;
        for (auto& x : ts) {
            x.all();
            for (auto& o : x.own) SIM_CHECK(seen.insert(o.a).second, "content", "two arrays have the same index %d", (int)o.a);
            total += x.own.size();
        }
        must("size", [&] { n = arena->size(); });
        SIM_CHECK(n == total, "content", "the arena has %zu arrays, %zu were created", n, total);
        sim_event(n);
    };
    verify();
    if (half) {
        for (size_t t = 0; t + 1 < ts.size(); ++t) std::swap(ts[t].own, ts[t + 1].own);
        sim::run_threads((int)p.th.size(), [&](int t) { part(t, p.th[t].size() / 2, p.th[t].size()); });
        verify();
    }
    must("releasing", [&] { arena.reset(); });
}

static void run(const Plan& p)
{
    with_shape(p.get("type"), p.get("page"), [&](auto* t, auto* a) { test<std::remove_pointer_t<decltype(t)>, std::remove_pointer_t<decltype(a)>>(p); });
}

const sim::Scenario sim::scenario{"C17", gen, run, 40000000, 256ull << 20};
