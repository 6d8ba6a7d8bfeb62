// C18: an arena append that fails for lack of memory changes nothing.
#include "arenas.h"
using namespace ar;
using sim::must;

static void gen(Rng& r, Plan& p, int thorough)
{
    p.par["type"] = (int64_t)r.below(3);
    p.par["page"] = (int64_t)r.below(4);
    int nt = (int)r.range(1, 3);      // every thread has an arena of its own
    p.th.resize(nt);
    int64_t serial = 0;
    int rate = (int)r.range(2, 8);
    for (int t = 0; t < nt; ++t) {
        int n = (int)r.range(3, thorough ? 120 : 50);
        for (int i = 0; i < n; ++i) {
            Op o = random_op(r, serial);
            if (r.chance(1, 40)) o = {r.chance(1, 2) ? "shrink" : "clear", {}};
            if ((int)r.below(rate) == 0) { o.oom = r.range(1, 5); o.oomp = r.chance(1, 4); }
            p.th[t].push_back(o);
        }
    }
}

template <class T, class Arena>
static void test(const Plan& p)
{
    int64_t blocks = sim_live_blocks();
    sim::run_threads((int)p.th.size(), [&](int t) {
        std::unique_ptr<Arena> arena;
        must("an arena", [&] { arena = std::make_unique<Arena>(); });
        {
            Tester<T, Arena> x{*arena, "C18", {}};
            for (auto& op : p.th[t]) {
                if (op.kind == "clear") {
                    must("clear", [&] { arena->clear(); });
                    x.own.clear();
                } else if (op.kind == "shrink") {
                    auto o = sim::attempt(op, [&] { arena->shrink_to_fit(); });
                    for (auto& y : x.own) y.refs.clear();
                    x.fate(o, op, "shrink_to_fit");
                    x.all();
                } else if (!x.step(op)) {
                    // nothing has changed, and with memory it works
                    x.all();
                    size_t n = 0, k = 0;
                    must("size", [&] { n = arena->size(); });
                    SIM_CHECK(n == x.own.size(), "content", "after a failure the arena has %zu arrays instead of %zu", n, x.own.size());
                    Op again = op;
                    again.oom = again.oomp = 0;
                    (void)k;
                    if (!op.a.empty() && op.a.back() % 2) continue;
                    SIM_CHECK(x.step(again), "unexpected-failure", "%s fails again", op.kind.c_str());
                }
                sim_event(x.own.size());
            }
            x.all();
            size_t n = 0, i = 0;
            bool sizes = true;
            must("arena iteration", [&] {
                n = arena->size();
                for (auto arr : *arena) { if (i >= x.own.size() || arr.size() != x.own[i].want.size()) sizes = false; ++i; }
            });
            SIM_CHECK(n == x.own.size() && i == n && sizes, "content", "the arena lists %zu arrays, size() is %zu, %zu were created", i, n, x.own.size());
        }
        must("releasing", [&] { arena.reset(); });
    });
    SIM_CHECK(sim_live_blocks() <= blocks, "leak", "%ld blocks are never released", (long)(sim_live_blocks() - blocks));
}

static void run(const Plan& p)
{
    with_shape(p.get("type"), p.get("page"), [&](auto* t, auto* a) { test<std::remove_pointer_t<decltype(t)>, std::remove_pointer_t<decltype(a)>>(p); });
}

const sim::Scenario sim::scenario{"C18", gen, run, 40000000, 256ull << 20};
