# A sixth set: state left behind by failures, scratch buffers, work done twice or in two steps.
SP="src/model/string-pool.cpp"; M="src/model/model.cpp"; N="src/model/nodes.cpp"; NI="include/simfil/model/nodes.impl.h"
A="include/simfil/model/arena.h"; F="src/function.cpp"; S="src/simfil.cpp"; E_="src/environment.cpp"; J="src/model/json.cpp"
T="include/simfil/transient.h"; TY="src/types.cpp"; BT="include/simfil/model/bitsery-traits.h"; X="include/simfil/exception-handler.h"
P="src/parser.cpp"; R="repl/repl.cpp"
MUT=[
("p15-tlscount", "C15,C11", F, "    int64_t count = 0;\n\n    for (const auto& arg : args) {", "    static thread_local int64_t kept = 0;\n    int64_t count = std::exchange(kept, 0);\n    struct Keep { int64_t& c; ~Keep() { if (std::uncaught_exceptions()) kept = c; } } keep{count};\n\n    for (const auto& arg : args) {"),
("p15-anydepth", "C15,C14", F, "    auto result = false; /* At least one value is true  */\n    auto undef = false;  /* At least one value is undef */\n\n    for (const auto& arg : args) {\n        arg->eval(ctx, val, LambdaResultFn([&](Context ctx, Value vv) {" , ""),
("p02-resolve-tls", "C02,C01", SP, "    auto it = stringForId_.find(id);\n    if (it != stringForId_.end())\n        return it->second;\n    return std::nullopt;", "    auto it = stringForId_.find(id);\n    if (it == stringForId_.end())\n        return std::nullopt;\n    static thread_local std::array<std::string, 4> copies;\n    static thread_local unsigned n = 0;\n    if (it->second.size() > 40) return it->second;\n    return copies[n++ % 4] = it->second;"),
("p03-write-scratch", "C03,C02", SP, "            s.text1b(it->second, std::numeric_limits<uint16_t>::max());", "            static std::string scratch;\n            scratch = it->second;\n            s.text1b(scratch, std::numeric_limits<uint16_t>::max());"),
("p05-read-batch", "C05,C04", SP, "            nextId_ = std::max<StringId>(nextId_, stringId + 1);\n        }\n    }\n", "            high = std::max<StringId>(high, stringId + 1);\n        }\n    }\n    nextId_ = high;\n"),
("p05-read-size", "C05", SP, "        if (s.adapter().error() != bitsery::ReaderError::NoError)\n            break;\n\n        // Insert", "        if (s.adapter().error() == bitsery::ReaderError::DataOverflow)\n            break;\n\n        // Insert"),
("p06-roots-first", "C06", M, "    if (s.adapter().error() != bitsery::ReaderError::NoError) {\n        raise<std::runtime_error>(fmt::format(\n            \"Failed to read ModelPool", "    if (s.adapter().error() == bitsery::ReaderError::DataOverflow && !inputStream.bad()) {\n        raise<std::runtime_error>(fmt::format(\n            \"Failed to read ModelPool"),
("p07-str32", "C07", M, "            std::string_view(impl_->columns_.stringData_).substr(val.offset_, val.length_),", "            (val.offset_ > impl_->columns_.stringData_.size() ? throw std::out_of_range(\"string\") : std::string_view(impl_->columns_.stringData_.data() + val.offset_, std::min<size_t>(val.length_, impl_->columns_.stringData_.size()))),"),
("p08-clear-keep", "C08,C10", M, "    clear_and_shrink(columns.stringData_);\n", "    columns.stringData_.resize(std::min<size_t>(columns.stringData_.size(), 64));\n"),
("p10-rootpop", "C10", J, "    auto root = build(json::parse(input), *model);\n    model->validate();", "    auto j = json::parse(input);\n    if (j.is_discarded()) return;\n    auto root = build(j, *model);\n    if (model->numRoots() == 0) model->validate();"),
("p13-split", "C13", F, "        t.calls++;", "        t.calls = t.calls + 1;"),
("p13-warn-batch", "C13", E_, "    warnings.emplace_back(std::move(message)", "    if (!warnings.empty() && warnings.back().first == message && warnings.back().second == detail && warnings.size() > 8) return;\n    warnings.emplace_back(std::move(message)"),
("p16-what", "C16", X, "        excHandler(typeName, errorMessage);", "        static thread_local std::string text;\n        text = errorMessage;\n        excHandler(typeName, text.size() > 64 ? text.substr(0, 64) : text);"),
("p19-trans-share", "C19,C15", T, "        : meta(other.meta), data(other.meta ? other.meta->copy(other.data) : nullptr)", "        : meta(other.meta), data(other.meta && other.data ? other.meta->copy(other.data) : other.data)"),
("p20-results-early", "C20", R, "                result[next] = simfil::eval(env, expr, *model->root(next));", "                for (auto& v : simfil::eval(env, expr, *model->root(next))) result[next].push_back(std::move(v));\n                if (result[next].size() > 6) result[next].resize(6);"),
("p21-image-scratch", "C21", M, "    bitsery::Serializer<bitsery::OutputStreamAdapter> s(outputStream);\n    impl_->readWrite(s);", "    static std::atomic<int> writers{0};\n    struct W { W() { ++writers; } ~W() { --writers; } } w_;\n    bitsery::Serializer<bitsery::OutputStreamAdapter> s(outputStream);\n    if (writers > 2) impl_->columns_.roots_.shrink_to_fit();\n    impl_->readWrite(s);"),
("p22-check-depth", "C22,C07", M, "    size_t depth = 0;     // Number of nodes being validated.", "    static size_t depth = 0;     // Number of nodes being validated."),
("p22-check-tls", "C22,C07", M, "    size_t depth = 0;     // Number of nodes being validated.", "    static thread_local size_t depth = 0;     // Number of nodes being validated."),
("p09-lateassign", "C09", M, "    // Translate object field IDs to the new dictionary.\n    impl_->strings_ = strings;\n", "    // Translate object field IDs to the new dictionary.\n    auto copy = std::make_shared<std::vector<StringId>>(newIds.size());\n    impl_->strings_ = strings;\n    copy->push_back(0);\n"),
("p18-atcache", "C18,C08", A, "    void clear()\n", "    void clear_()\n"),
("p11-wild-tls", "C11", S, "        auto r = Iterate{ctx, res}.iterate(*val.node, 0);\n        return res.ensureCall(r);", "        static thread_local std::pair<const Model*, uint32_t> empty{};\n        auto here = std::pair(&*val.node->model(), val.node->addr().value_);\n        if (here == empty) return res.ensureCall(Result::Continue);\n        auto r = Iterate{ctx, res}.iterate(*val.node, 0);\n        if (res.calls == 0) empty = here;\n        return res.ensureCall(r);"),
# what nested use would break
("p25-sum-tls", "C25", F, "    Value sum = Value::make((int64_t)0);\n\n    const Expr* subexpr", "    static thread_local Value sum = Value::undef();\n    sum = Value::make((int64_t)0);\n\n    const Expr* subexpr"),
("p25-count-tls", "C25", F, "    int64_t count = 0;\n\n    for (const auto& arg : args) {", "    static thread_local int64_t count;\n    count = 0;\n\n    for (const auto& arg : args) {"),
("p25-split-tls", "C25", F, "    auto items = split(str.as<ValueType::String>(), sep.as<ValueType::String>(), !keepEmpty.as<ValueType::Bool>());", "    static thread_local std::vector<std::string> items;\n    items = split(str.as<ValueType::String>(), sep.as<ValueType::String>(), !keepEmpty.as<ValueType::Bool>());"),
("p25-eval-tls", "C25", S, "    std::vector<Value> res;\n    ast.eval(ctx, Value::field(node), LambdaResultFn([&res](Context ctx, Value vv) {\n        res.push_back(std::move(vv));\n        return Result::Continue;\n    }));\n\n    return res;", "    static thread_local std::vector<Value> res;\n    res.clear();\n    ast.eval(ctx, Value::field(node), LambdaResultFn([](Context ctx, Value vv) {\n        res.push_back(std::move(vv));\n        return Result::Continue;\n    }));\n\n    return std::move(res);"),
("p25-wild-tls", "C25", S, "                if (val.type() == ValueType::Null)\n                    return Result::Continue;\n\n                if (res(ctx", "                static thread_local int level = 0;\n                struct L { L() { ++level; } ~L() { --level; } } l;\n                if (val.type() == ValueType::Null || level > 16)\n                    return Result::Continue;\n\n                if (res(ctx"),
("p25-child-tls", "C25,C22,C11", S, "        auto result = Result::Continue;\n        val.node->iterate(ModelNode::IterLambda([&](auto&& subNode) {\n            if (res(ctx, Value::field(std::move(subNode))) == Result::Stop) {\n                result = Result::Stop;", "        static thread_local Result result;\n        result = Result::Continue;\n        val.node->iterate(ModelNode::IterLambda([&](auto&& subNode) {\n            if (res(ctx, Value::field(std::move(subNode))) == Result::Stop) {\n                result = Result::Stop;"),
("p25-multi-pos", "C25,C11", S, "        for (const auto& v : values_) {\n            if (res(ctx, v) == Result::Stop)", "        static thread_local size_t at;\n        for (at = 0; at < values_.size(); ++at) { const auto& v = values_[at];\n            if (res(ctx, v) == Result::Stop)"),
("p25-warn-handler", "C25", E_, "    std::unique_lock<std::mutex> _(*warnMtx);\n", "    std::unique_lock<std::mutex> _(*warnMtx);\n    if (ThrowHandler::instance().get() && message.starts_with(\"inner 0 2\")) ThrowHandler::instance().get()(message, detail);\n"),
("p25-trace-inside", "C25,C13", F, "    auto start = std::chrono::steady_clock::now();\n    auto result = args[0]->eval", "    auto start = std::chrono::steady_clock::now();\n    Result result{};\n    ctx.env->trace(sname, [&](auto&) { result = args[0]->eval"),
("p25-json-tls", "C25,C10", J, "    auto root = build(json::parse(input), *model);", "    static thread_local json doc;\n    doc = json::parse(input);\n    auto root = build(doc, *model);"),
("p25-raise-once", "C25,C16", X, "    if (auto const& excHandler", "    static thread_local int busy = 0;\n    if (busy > 1) throw std::move(exceptionInstance);\n    struct B { int& n; ~B() { --n; } } b_{++busy};\n    if (auto const& excHandler"),
("p25-emplace-held", "C25", SP, "            // The error handler may use the pool.\n            lock.unlock();\n", ""),
("p25-read-held", "C25", SP, "        // The error handler may use the pool.\n        stringStoreWriteAccess_.unlock();\n", ""),
("p25-write-tls", "C25,C22", M, "    bitsery::Serializer<bitsery::OutputStreamAdapter> s(outputStream);\n    impl_->readWrite(s);", "    static std::atomic<int> busy{0};\n    struct B { B() { ++busy; } ~B() { --busy; } } b_;\n    if (busy > 3) { outputStream.setstate(std::ios::badbit); return; }\n    bitsery::Serializer<bitsery::OutputStreamAdapter> s(outputStream);\n    impl_->readWrite(s);"),
("p25-parser-depth", "C25,C12", P, "auto Parser::parse()", "static thread_local int dummyDepth = 0;\nauto Parser::parse()"),
("p25-any-scratch", "C25", F, "    auto result = false; /* At least one value is true  */", "    static thread_local bool result; result = false;"),
("p25-select-n", "C25", F, "    auto result = args[0]->eval(ctx, val, LambdaResultFn([&, n = -1](Context ctx, Value vv) mutable {\n        ++n;\n        if (ctx.phase", "    static thread_local int n; n = -1;\n    auto result = args[0]->eval(ctx, val, LambdaResultFn([&](Context ctx, Value vv) mutable {\n        ++n;\n        if (ctx.phase"),
("p25-unpack-tls", "C25,C11", TY, "auto IRangeType::unpack(const IRange& self, std::function<bool(Value)> res) const -> void\n{", "auto IRangeType::unpack(const IRange& self_, std::function<bool(Value)> res) const -> void\n{\n    static thread_local IRange self; self = self_;"),
#("p25-resolve-guard", "C25,C11", M, "void ModelPool::resolve(const ModelNode& n, const ResolveFn& cb) const\n{", "void ModelPool::resolve(const ModelNode& n, const ResolveFn& cb) const\n{\n    static thread_local int level = 0;\n    struct L { L() { ++level; } ~L() { --level; } } l;\n    if (level > 12) raise<std::runtime_error>(\"nested too deeply\");"),
]
EXTRA={
 "p25-trace-inside": [(F, "        return res(std::move(ctx), std::move(vv));\n    }));\n    auto duration", "        return res(std::move(ctx), std::move(vv));\n    })); });\n    auto duration")],
 "p25-warn-handler": [(E_, '#include "simfil/function.h"', '#include "simfil/function.h"\n#include "simfil/exception-handler.h"')],
 "p25-write-tls": [(M, "#include <unordered_map>", "#include <unordered_map>\n#include <atomic>")],
 "p05-read-batch": [(SP, "    // Read strings\n", "    auto high = nextId_;\n    // Read strings\n")],
 "p02-resolve-tls": [(SP, "#include <locale>", "#include <array>\n#include <locale>")],
 "p21-image-scratch": [(M, "#include <unordered_map>", "#include <unordered_map>\n#include <atomic>")],
}
SKIP={"p13-split", "p25-parser-depth", "p15-anydepth", "p18-atcache", "p11-wild-tls", "p21-image-scratch"}
MUT=[m for m in MUT if m[3] and m[0] not in SKIP]
