// Harness layer used by scenarios: plans, operations, faults, streams.
#pragma once
#include "rt.h"
#include <exception>
#include <functional>
#include <istream>
#include <map>
#include <memory>
#include <new>
#include <ostream>
#include <streambuf>
#include <string>
#include <string_view>
#include <typeinfo>
#include <vector>

namespace sim
{

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) {}
    uint64_t next()
    {
        s += 0x9E3779B97F4A7C15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
    bool chance(int num, int den) { return (int)below(den) < num; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    int64_t logrange(int64_t lo, int64_t hi)  // roughly log-uniform
    {
        int bits = 0;
        while ((hi >> bits) > 0) ++bits;
        int64_t v = (int64_t)below(1ull << range(1, bits));
        if (v < lo) v = lo;
        if (v > hi) v = hi;
        return v;
    }
};

// One operation of a plan: a verb, integer arguments, and the faults to inject while it runs.
struct Op
{
    std::string kind;
    std::vector<int64_t> a;
    int64_t oom = 0;      // the oom-th allocation inside the operation fails (0: none)
    int64_t oomp = 0;     // ... and all later ones
    int64_t arg(size_t i, int64_t d = 0) const { return i < a.size() ? a[i] : d; }
};
struct Plan
{
    std::map<std::string, int64_t> par;
    std::vector<std::vector<Op>> th;
    int64_t get(const char* k, int64_t d = 0) const
    {
        auto i = par.find(k);
        return i == par.end() ? d : i->second;
    }
};

struct Scenario
{
    const char* property;
    void (*gen)(Rng&, Plan&, int thorough);
    void (*run)(const Plan&);
    uint64_t step_limit = 20000000;
    uint64_t mem_cap = 512ull << 20;
};
extern const Scenario scenario;

struct Code   // scope in which the code under test runs: accesses are scheduling points, races are checked
{
    int old;
    Code() { old = sim_active(1); }
    ~Code() { sim_active(old); }
};
struct Quiet  // harness code called back from the code under test
{
    int old;
    Quiet() { old = sim_active(0); }
    ~Quiet() { sim_active(old); }
};

struct Outcome
{
    bool ok = true;
    bool oom = false;
    int fired = 0;         // injected allocation failures
    bool custom = false;   // an exception of the harness itself
    std::string type, what;
};
struct Injected { int tag = 0; };  // thrown by harness callbacks

template <class F>
Outcome attempt(int64_t oom, int64_t oomp, F&& f)
{
    Outcome o;
    struct Disarm   // before an error is recorded
    {
        Outcome& o;
        ~Disarm() { o.fired = sim_alloc_fired(); sim_arm_alloc(0, 0); }
    };
    sim_arm_alloc(oom, (int)oomp);
    try {
        Disarm d{o};
        Code c;
        f();
    } catch (std::bad_alloc& e) {
        o.ok = false;
        o.oom = true;
        o.type = "std::bad_alloc";
        o.what = e.what();
    } catch (std::exception& e) {
        o.ok = false;
        o.type = typeid(e).name();
        o.what = e.what();
    } catch (Injected&) {
        o.ok = false;
        o.custom = true;
        o.type = "injected";
    } catch (...) {
        o.ok = false;
        o.type = "unknown";
    }
    return o;
}
template <class F>
Outcome attempt(const Op& op, F&& f) { return attempt(op.oom, op.oomp, std::forward<F>(f)); }
template <class F>
Outcome attempt(F&& f) { return attempt(0, 0, std::forward<F>(f)); }

// Run f as code under test; any exception is a violation.
template <class F>
void must(const char* what, F&& f)
{
    Outcome o = attempt(0, 0, std::forward<F>(f));
    if (!o.ok) sim_violation("unexpected-failure", "%s failed without any fault: %s (%s)", what, o.what.c_str(), o.type.c_str());
}

#define SIM_CHECK(cond, cls, ...) do { if (!(cond)) sim_violation(cls, __VA_ARGS__); } while (0)

// Start one simulated thread per op list, run them to completion.
struct ThreadArg { std::function<void(int)> fn; int i; };
inline void thread_main(void* p)
{
    auto* a = static_cast<ThreadArg*>(p);
    a->fn(a->i);
}
inline void run_threads(int n, const std::function<void(int)>& fn)
{
    std::vector<std::unique_ptr<ThreadArg>> args;
    std::vector<int> ids;
    for (int i = 0; i < n; ++i) {
        args.push_back(std::make_unique<ThreadArg>(ThreadArg{fn, i}));
        ids.push_back(sim_spawn(thread_main, args.back().get()));
    }
    for (int id : ids) sim_join(id);
}

// A simulated input device: delivers a byte string in chunks, may end early, fail or stall.
struct InFault
{
    int64_t cut = -1;     // device ends after this many bytes
    int64_t fail = -1;    // device throws after this many bytes (the stream turns that into badbit)
    int64_t chunk = 0;    // bytes per delivery (0: all)
    int64_t stall = 0;    // scheduling points per delivery
    int mode = 0;         // 0: quiet end, 1: throw
};
class InBuf : public std::streambuf
{
public:
    InBuf(std::string data, InFault f) : d_(std::move(data)), f_(f) {}
    size_t consumed() const { return base_ + (size_t)(gptr() - eback()); }
    bool hit() const { return hit_; }

protected:
    int_type underflow() override
    {
        Quiet q;
        base_ += (size_t)(gptr() - eback());
        size_t off = base_;
        setg(nullptr, nullptr, nullptr);
        for (int64_t i = 0; i < f_.stall; ++i) { sim_count("stream.stall", 1); sim_yield_active(); }
        size_t end = d_.size();
        if (f_.cut >= 0 && (size_t)f_.cut < end) end = (size_t)f_.cut;
        if (f_.fail >= 0 && (size_t)f_.fail < end) end = (size_t)f_.fail;
        if (off >= end) {
            if (!hit_ && end < d_.size()) {
                hit_ = true;
                sim_count(f_.fail >= 0 && (size_t)f_.fail == end ? "fault.read_error" : "fault.read_truncated", 1);
            }
            if (f_.fail >= 0 && (size_t)f_.fail == end && end < d_.size()) throw Injected{1};
            return traits_type::eof();
        }
        size_t n = end - off;
        if (f_.chunk > 0 && n > (size_t)f_.chunk) { n = (size_t)f_.chunk; sim_count("stream.short_read", 1); }
        char* p = d_.data() + off;
        setg(p, p, p + n);
        return traits_type::to_int_type(*gptr());
    }

private:
    static void sim_yield_active()
    {
        int o = sim_active(1);
        sim_yield(0);
        sim_active(o);
    }
    std::string d_;
    InFault f_;
    size_t base_ = 0;
    bool hit_ = false;
};

// A simulated output device: stores bytes, may fill up, fail or stall.
struct OutFault
{
    int64_t full = -1;   // device accepts only this many bytes
    int mode = 0;        // 0: short write, 1: throw
    int64_t stall = 0;
};
class OutBuf : public std::streambuf
{
public:
    explicit OutBuf(OutFault f = {}) : f_(f) {}
    std::string data;
    bool hit = false;

protected:
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
        Quiet q;
        for (int64_t i = 0; i < f_.stall; ++i) {
            int o = sim_active(1);
            sim_yield(0);
            sim_active(o);
        }
        if (f_.full >= 0 && (int64_t)data.size() + n > f_.full) {
            std::streamsize k = f_.full - (std::streamsize)data.size();
            if (k < 0) k = 0;
            data.append(s, (size_t)k);
            if (!hit) sim_count("fault.device_full", 1);
            hit = true;
            if (f_.mode == 1) throw Injected{2};
            return k;
        }
        data.append(s, (size_t)n);
        return n;
    }
    int_type overflow(int_type c) override
    {
        if (traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c);
        char ch = traits_type::to_char_type(c);
        return xsputn(&ch, 1) == 1 ? c : traits_type::eof();
    }

private:
    OutFault f_;
};

inline uint64_t hash_str(std::string_view s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return h;
}

}
