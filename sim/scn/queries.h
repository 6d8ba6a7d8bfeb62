// Random queries, user supplied functions and data types, and reading back query results.
#pragma once
#include "docs.h"
#include "simfil/environment.h"
#include "simfil/expression.h"
#include "simfil/function.h"
#include "simfil/operator.h"
#include "simfil/overlay.h"
#include "simfil/parser.h"
#include "simfil/simfil.h"
#include "simfil/typed-meta-type.h"
#include "simfil/types.h"

namespace pm
{
// Query texts, mostly well typed.
struct QueryGen
{
    Rng r;
    int deep = 1;      // ** left
    int wide = 3;      // * left
    int calls = 3;     // multi-valued functions left
    bool trace = false;
    bool user = false; // use the functions of UserFns
    bool consts = true;
    explicit QueryGen(uint64_t seed) : r(seed * 0x51ED2701ull + 99) {}
    std::string name()
    {
        std::string s = key((int64_t)(r.chance(4, 5) ? r.below(8) : r.below(36)));
        if (r.chance(1, 6)) s[0] = (char)toupper(s[0]);
        return s;
    }
    std::string lit()
    {
        switch (r.below(7)) {
        case 0: return std::to_string(r.range(0, 5)) + ".5";
        case 1: return r.chance(1, 2) ? "true" : "false";
        case 2: return "'" + str_of(r) + "'";
        case 3: return r.chance(1, 2) ? "ALPHA" : "A_1";
        case 4: return r.chance(1, 3) ? "null" : "7";
        default: return std::to_string(r.range(0, 100));
        }
    }
    std::string path(int d)
    {
        std::string s;
        int k = (int)r.below(10);
        if (k == 0) s = "_";
        else if (k < 3 && wide > 0) { --wide; s = "*"; }
        else if (k < 5 && deep > 0) { --deep; s = "**"; }
        else s = name();
        int n = (int)r.below(3);
        for (int i = 0; i < n; ++i) {
            switch (r.below(8)) {
            case 0: if (wide > 0) { --wide; s += ".*"; break; } [[fallthrough]];
            case 1: case 2: s += "." + name(); break;
            case 3: s += "[" + (d > 0 && r.chance(1, 3) ? num(d - 1) : std::to_string(r.range(0, 3))) + "]"; break;
            case 4: s += "['" + name() + "']"; break;
            case 5: if (deep > 0) { --deep; s += ".**"; break; } [[fallthrough]];
            default:
                if (d > 0) s += (r.chance(1, 2) ? "{" : ".{") + cond(d - 1) + "}";
                else s += "." + name();
            }
        }
        return s;
    }
    std::string num(int d)
    {
        if (d <= 0) return r.chance(1, 2) ? std::to_string(r.range(0, 60)) : "count(" + path(0) + ")";
        switch (r.below(12)) {
        case 10: return "~" + num(d - 1);
        case 11: return "(" + num(d - 1) + r.pick(std::vector<std::string>{" | ", " ^ ", " << "}) + (r.chance(1, 2) ? std::to_string(r.range(0, 7)) : "(" + num(0) + " & 7)") + ")";
        case 0: return "(" + num(d - 1) + " " + r.pick(std::vector<std::string>{"+", "-", "*"}) + " " + num(d - 1) + ")";
        case 1: return "(" + num(d - 1) + (r.chance(1, 2) ? " / " : " % ") + std::to_string(r.range(r.chance(1, 6) ? 0 : 1, 9)) + ")";
        case 2: return "#" + path(0);
        case 3: return "(" + path(d - 1) + " as int)";
        case 4: return "-" + num(d - 1);
        case 5: if (calls > 0) { --calls; return "sum(range(" + std::to_string(r.range(-2, 3)) + ", " + std::to_string(r.range(-2, 4)) + ")..., $sum + $val * " + num(0) + ", " + std::to_string(r.range(0, 9)) + ")"; } [[fallthrough]];
        case 6: return "count(" + any(d - 1) + ")";
        case 7: return "(" + num(d - 1) + " & " + std::to_string(r.range(0, 255)) + ")";
        case 8: if (user) return "twice(" + num(d - 1) + ")"; [[fallthrough]];
        default: return std::to_string(r.range(0, 1000));
        }
    }
    std::string cond(int d)
    {
        if (d <= 0) return path(0);
        switch (r.below(14)) {
        case 10: return path(0) + " == re(" + (r.chance(1, 2) ? "'[a-h]?' + (" + path(0) + " as string)" : path(0) + " as string") + ")";
        case 11: return path(0) + (r.chance(1, 2) ? " == " : " != ") + "range(" + (r.chance(1, 2) ? path(0) : std::to_string(r.range(-3, 3))) + ", #" + path(0) + ")";
        case 12: return "(" + path(0) + " as string) " + r.pick(std::vector<std::string>{"<", "<=", ">", ">=", "==", "!="}) + " " + (r.chance(1, 2) ? "'" + str_of(r) + "'" : "(" + path(0) + " as string)");
        case 13: return path(d - 1) + r.pick(std::vector<std::string>{" < ", " > ", " <= ", " >= "}) + lit();
        case 0: return num(d - 1) + " " + r.pick(std::vector<std::string>{"<", "<=", ">", ">=", "==", "!="}) + " " + num(d - 1);
        case 1: return path(d - 1) + " == " + lit();
        case 2: return path(d - 1) + " != " + lit();
        case 3: return "(" + cond(d - 1) + ") and (" + cond(d - 1) + ")";
        case 4: return "(" + cond(d - 1) + ") or (" + cond(d - 1) + ")";
        case 5: return "not " + path(d - 1);
        case 6: return "typeof " + path(d - 1) + " == '" + r.pick(std::vector<std::string>{"int", "string", "model", "bool", "float"}) + "'";
        case 7: return path(0) + " == " + (r.chance(1, 2) ? "re'[a-h].*'" : "re('.*a' + 'l?pha')");
        case 8: return path(0) + " == range(0, " + std::to_string(r.range(0, 100)) + ")";
        default: return (r.chance(1, 2) ? "any(" : "each(") + any(d - 1) + ")";
        }
    }
    std::string any(int d)
    {
        if (d <= 0) return r.chance(1, 4) ? lit() : path(0);
        switch (r.below(22)) {
        case 18: return "split(" + path(0) + " as string, " + (r.chance(1, 2) ? path(0) + " as string" : "'" + str_of(r) + "'") + (r.chance(1, 4) ? ", " + path(0) : "") + ")";
        case 19: if (calls > 0) { --calls; return "range(" + (r.chance(1, 2) ? "#" + path(0) : std::to_string(r.range(-2, 4))) + ", #" + path(0) + ")" + (r.chance(1, 2) ? "..." : ""); } [[fallthrough]];
        case 20: return "select(" + any(d - 1) + ", #" + path(0) + (r.chance(1, 2) ? ", #" + path(0) : "") + ")";
        case 21: if (r.chance(1, 3)) return "re(re(" + (r.chance(1, 3) ? "'[a-h].*'" : path(0) + " as string") + "))";
            return "re(" + path(0) + " as string)";
        case 0: case 1: case 2: return path(d);
        case 3: return num(d);
        case 4: return cond(d);
        case 5: if (calls > 0) { --calls; return "arr(" + any(d - 1) + ", " + any(d - 1) + (r.chance(1, 3) ? ", " + any(d - 1) : "") + ")"; } [[fallthrough]];
        case 6: if (calls > 0) { --calls; return "range(" + std::to_string(r.range(-2, 3)) + ", " + (r.chance(1, 3) ? "count(*)" : std::to_string(r.range(-3, 4))) + ")" + (r.chance(3, 4) ? "..." : ""); } [[fallthrough]];
        case 7: return "split(" + (r.chance(1, 2) ? path(0) + " as string" : "'alpha,beta,,g'") + ", '" + r.pick(std::vector<std::string>{",", "a", "", " "}) + "'" + (r.chance(1, 4) ? ", false" : "") + ")";
        case 8: return "select(" + any(d - 1) + ", " + std::to_string(r.range(0, 3)) + (r.chance(2, 3) ? ", " + std::to_string(r.range(0, 3)) : "") + ")";
        case 9: return "keys(" + path(d - 1) + ")";
        case 10: return "(" + any(d - 1) + ")" + (r.chance(1, 2) ? "?" : "...");
        case 11: return "(" + any(d - 1) + " as " + r.pick(std::vector<std::string>{"string", "int", "float", "bool"}) + ")";
        case 12: return "sum(" + path(d - 1) + ", " + (r.chance(1, 2) ? "$sum + ($val as int)" : "$idx") + (r.chance(1, 2) ? ", " + std::to_string(r.range(0, 9)) : "") + ")";
        case 13: return "(" + any(d - 1) + (r.chance(1, 2) ? " and " : " or ") + any(d - 1) + ")";
        case 14: return "('s' + (" + path(0) + " as string))";
        case 15: if (trace) return "trace(" + any(d - 1) + ", " + std::to_string(r.range(-1, 4)) + (r.chance(1, 2) ? ", 't'" : "") + ")"; [[fallthrough]];
        case 16: if (user) switch (r.below(7)) {
            case 5: return "sum(box(" + any(d - 1) + "), $sum " + r.pick(std::vector<std::string>{"+", "plus", "or"}) + " $val" + (r.chance(1, 2) ? ", box(1))" : ")");
            case 0: return "twice(" + any(d - 1) + ")";
            case 1: return "mark(" + any(d - 1) + ")";
            case 2: return "box(" + any(d - 1) + ")";
            case 3: return "(box(" + num(d - 1) + ") plus " + num(d - 1) + ")";
            case 4: return "box(" + num(d - 1) + ")...";
            default: return "(box(" + num(d - 1) + ") as string)";
            }
            [[fallthrough]];
        default: return lit();
        }
    }
    std::string query(int d) { return any(d); }
};
inline std::string gen_query(int64_t seed, int depth, bool user = false, bool trace = false)
{
    QueryGen g((uint64_t)seed);
    g.user = user;
    g.trace = trace;
    return g.query(depth);
}

// A query that mostly does not compile or fails (m = 0: unchanged).
inline std::string damaged(std::string s, int64_t m)
{
    static const char* bad[] = {"1 / 0", "nosuchfunction(1)", "'a' + {", "1 +", ")", "(1", "'abc", "a as nosuchtype", "any()", "range(1)", "split(1, 2)", "-'x'", "'x' & 1", "range(1, 2) + 1", "re(1)", "sum()", "1 nosuchop 2", "a[", "not ", "5 % 0"};
    if (!m) return s;
    if (m % 3 == 1) return bad[m % 20];
    Rng r((uint64_t)m);
    size_t at = r.below(s.size() + 1);
    switch (r.below(3)) {
    case 0: if (at < s.size()) s.erase(at, 1); break;
    case 1: s.insert(at, 1, "()[]{}.,*'\"0^$#?"[r.below(16)]); break;
    default: s.resize(at);
    }
    return s;
}

// ---- user supplied functions and a data type -------------------------------------------------
struct Box { int64_t v = 0; std::string pad; };
class BoxType : public simfil::TypedMetaType<Box>
{
public:
    static BoxType& Type() { static BoxType t; return t; }
    BoxType() : TypedMetaType("box") {}
    // Live boxes are counted to detect lost and doubled releases.
    static inline std::unordered_set<const void*>* live = nullptr;
    static inline uint64_t made = 0;
    static void* born(Box* b)
    {
        sim::Quiet q;
        if (live) live->insert(b);
        ++made;
        return b;
    }
    static void alive(const void* p, const char* what)
    {
        sim::Quiet q;
        if (live && !live->count(p)) sim_violation("lifetime", "%s uses a data object that was already released or never created", what);
    }
    void* init() const override { burn("init"); return born(new Box()); }
    void* copy(void* p) const override
    {
        burn("copy");
        alive(p, "copying");
        return born(new Box(*(Box*)p));
    }
    void deinit(void* p) const override
    {
        alive(p, "releasing");
        {
            sim::Quiet q;
            if (live) live->erase(p);
        }
        delete (Box*)p;
    }
    using TypedMetaType<Box>::unaryOp;
    using TypedMetaType<Box>::binaryOp;
    using TypedMetaType<Box>::unpack;
    simfil::Value make(int64_t v) const
    {
        auto o = simfil::TransientObject(this);
        auto b = get(o);
        b->v = v;
        b->pad = "a padding string that needs an allocation of its own";
        return simfil::Value(simfil::ValueType::TransientObject, std::move(o));
    }
    simfil::Value unaryOp(std::string_view op, const Box& b) const override
    {
        burn("unaryOp");
        alive(&b, "unaryOp");
        if (op == simfil::OperatorTypeof::name()) return simfil::Value::make(ident);
        if (op == simfil::OperatorBool::name()) return simfil::Value::make(b.v != 0);
        if (op == simfil::OperatorAsString::name()) return simfil::Value::make("box:" + std::to_string(b.v));
        if (op == simfil::OperatorAsInt::name()) return simfil::Value::make((int64_t)b.v);
        simfil::raise<simfil::InvalidOperandsError>(op);
    }
    simfil::Value binaryOp(std::string_view op, const Box& b, const simfil::Value& v) const override
    {
        burn("binaryOp");
        alive(&b, "binaryOp");
        if (op == "plus" || op == simfil::OperatorAdd::name()) {
            auto [ok, n] = simfil::getNumeric<int64_t>(v);
            if (ok) return make(b.v + n);
            if (auto o = simfil::getObject<Box>(v, this)) { return make(b.v + 1); }
        }
        if (op == simfil::OperatorEq::name()) return simfil::Value::f();
        if (op == simfil::OperatorNeq::name()) return simfil::Value::t();
        simfil::raise<simfil::InvalidOperandsError>(op);
    }
    simfil::Value binaryOp(std::string_view op, const simfil::Value&, const Box& b) const override
    {
        burn("binaryOp");
        alive(&b, "binaryOp");
        if (op == simfil::OperatorEq::name()) return simfil::Value::f();
        if (op == simfil::OperatorNeq::name()) return simfil::Value::t();
        simfil::raise<simfil::InvalidOperandsError>(op);
    }
    void unpack(const Box& b, std::function<bool(simfil::Value)> cb) const override
    {
        for (int64_t i = 0; i < (b.v < 0 ? 0 : 1 + (b.v & 3)); ++i) {   // a negative box is empty
            burn("unpack");
            alive(&b, "unpack");
            if (!cb(simfil::Value::make((int64_t)(b.v + i)))) return;
        }
    }
};

inline void (*on_user_call)(const std::string& name, simfil::Context& ctx) = nullptr;
enum class UserFn { Twice, Mark, Box };
class UserFunction : public simfil::Function
{
public:
    UserFn k;
    simfil::FnInfo info;
    UserFunction(UserFn k, const char* n) : k(k), info{n, "", ""} {}
    const simfil::FnInfo& ident() const override { return info; }
    simfil::Result eval(simfil::Context ctx, simfil::Value val, const std::vector<simfil::ExprPtr>& args, const simfil::ResultFn& res) const override
    {
        if (args.size() != 1) simfil::raise<std::runtime_error>(info.ident + ": one argument expected");
        if (on_user_call) on_user_call(info.ident, ctx);
        burn("function");
        return args[0]->eval(ctx, val, simfil::LambdaResultFn([&](simfil::Context c, simfil::Value v) {
            if (c.phase == simfil::Context::Phase::Compilation && v.isa(simfil::ValueType::Undef)) return res(c, std::move(v));
            burn("function");
            switch (k) {
            case UserFn::Twice:
                if (res(c, v) == simfil::Result::Stop) return simfil::Result::Stop;
                return res(c, std::move(v));
            case UserFn::Mark: {
                if (c.phase == simfil::Context::Phase::Evaluation) c.env->warn("mark", info.ident);
                return res(c, std::move(v));
            }
            default: {
                auto [ok, n] = simfil::getNumeric<int64_t>(v);
                return res(c, BoxType::Type().make(ok ? n : -1));
            }
            }
        }));
    }
};
struct UserFns
{
    UserFunction twice{UserFn::Twice, "twice"}, mark{UserFn::Mark, "mark"}, box{UserFn::Box, "box"};
    void install(simfil::Environment& e)
    {
        e.functions["twice"] = &twice;
        e.functions["mark"] = &mark;
        e.functions["box"] = &box;
    }
};

// ---- results ----------------------------------------------------------------------------------
inline std::string render_value(const simfil::Value& v, const simfil::Model& names)
{
    std::string o = simfil::valueType2String(v.type);
    o += ":";
    if (v.type == simfil::ValueType::TransientObject) o += v.toString();
    else std::visit([&](auto&& x) {
        using T = std::decay_t<decltype(x)>;
        if constexpr (std::is_same_v<T, std::monostate>) o += "-";
        else if constexpr (std::is_same_v<T, bool>) o += x ? "T" : "F";
        else if constexpr (std::is_same_v<T, int64_t>) o += std::to_string(x);
        else if constexpr (std::is_same_v<T, double>) put(o, x);
        else if constexpr (std::is_same_v<T, simfil::TransientObject>) o += "?";
        else { o += "'"; o += std::string(x); o += "'"; }
    }, v.value);
    if (v.node) { o += "@"; o += render(v.node, names, false); }
    return o;
}
inline std::string join(const std::vector<std::string>& v)
{
    std::string s;
    for (auto& x : v) { s += x; s += " | "; }
    return s;
}

// Evaluate and give the results as text, an error as "!what".
struct Evaluated
{
    std::vector<std::string> values;
    std::string error;
    bool oom = false, failed = false;
    int fired = 0;
    bool operator==(const Evaluated& o) const { return values == o.values && error == o.error && failed == o.failed; }
    std::string text() const { return failed ? "!" + error : join(values); }
};
inline Evaluated evaluate(simfil::Environment& env, const simfil::Expr& e, const simfil::ModelNode& n, const simfil::Model& names, const Op* op = nullptr)
{
    Evaluated r;
    std::vector<simfil::Value> vals;
    auto o = sim::attempt(op ? op->oom : 0, op ? op->oomp : 0, [&] { vals = simfil::eval(env, e, n); });
    r.failed = !o.ok;
    r.oom = o.oom;
    r.fired = o.fired;
    if (!o.ok) r.error = o.type + ": " + o.what;
    Fuse* f = fuse;
    fuse = nullptr;
    sim::must("reading results", [&] { for (auto& v : vals) r.values.push_back(render_value(v, names)); vals.clear(); });
    fuse = f;
    return r;
}
}
