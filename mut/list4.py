# A fourth set: the debugger, sizes at which something changes, pairs of sites that agree with each other, rare types.
SP="src/model/string-pool.cpp"; M="src/model/model.cpp"; N="src/model/nodes.cpp"; NI="include/simfil/model/nodes.impl.h"
A="include/simfil/model/arena.h"; F="src/function.cpp"; S="src/simfil.cpp"; E_="src/environment.cpp"; J="src/model/json.cpp"
T="include/simfil/transient.h"; TY="src/types.cpp"; BT="include/simfil/model/bitsery-traits.h"; X="include/simfil/exception-handler.h"
P="src/parser.cpp"; O="src/overlay.cpp"; R="repl/repl.cpp"; XP="include/simfil/expression.h"; SH="include/simfil/model/string-pool.h"
EV="        if (dbg) dbg->evalEnd(*this);\n        return r;"
EB="        if (dbg) dbg->evalBegin(*this, ctx, val, res);\n"
MUT=[
("p23-env", "C23", XP, EV, "        if (ctx.env->debug) ctx.env->debug->evalEnd(*this);\n        return r;"),
("p23-stop", "C23", XP, EV, "        if (dbg && r != Result::Stop) dbg->evalEnd(*this);\n        return r;"),
("p23-const", "C23", XP, EB, "        if (constant()) dbg = nullptr;\n" + EB),
("p23-compile", "C23", XP, EB, "        if (ctx.phase == Context::Phase::Compilation) dbg = nullptr;\n" + EB),
("p23-swallow", "C23", XP, EB, "        try { if (dbg) dbg->evalBegin(*this, ctx, val, res); } catch (...) { dbg = nullptr; }\n"),
("p23-swallow-end", "C23", XP, EV, "        try { if (dbg) dbg->evalEnd(*this); } catch (...) {}\n        return r;"),
("p23-guard", "C23", XP, EV, "        return r;"),
("p23-tls", "C23", XP, EB, "        static const Expr* last = nullptr;\n        if (dbg && last == this) dbg = nullptr;\n        last = this;\n" + EB),
("p23-busy", "C23", XP, EB, "        static std::atomic<int> depth{0};\n        if (depth.fetch_add(1) > 40) dbg = nullptr;\n        struct L { ~L() { --depth; } } l_;\n" + EB),
("p23-direct", "C23", S, "        auto anyval = false;\n        auto result = fn->eval(ctx, val, args_, LambdaResultFn([&res, &anyval](Context ctx, Value vv) {", "        auto anyval = false;\n        auto saved = ctx.env->debug; if (args_.size() > 2) ctx.env->debug = nullptr;\n        struct Back { Environment* e; Debug* d; ~Back() { e->debug = d; } } back{ctx.env, saved};\n        auto result = fn->eval(ctx, val, args_, LambdaResultFn([&res, &anyval](Context ctx, Value vv) {"),
("p01-or20-both", "C01", SP, "        { return std::tolower(l, locale) == std::tolower(r, locale); });", "        { return (l | 0x20) == (r | 0x20); });"),
("p01-prefix-both", "C01", SP, "    for (auto c : str) {\n        c = std::tolower", "    for (auto c : str.substr(0, 255)) {\n        c = std::tolower"),
("p01-reserve1024", "C01,C02", SP, "    auto& storedString = storedStrings_.emplace_back(str);", "    if (storedStrings_.size() == 1024) { auto copy = storedStrings_; storedStrings_.swap(copy); }\n    auto& storedString = storedStrings_.emplace_back(str);"),
("p01-id1024", "C01,C05", SP, "        StringId id = nextId_;\n", "        StringId id = nextId_;\n        if (idForString_.size() % 512 == 511) nextId_ = ++id;\n"),
("p01-signed", "C01", SP, "        c = std::tolower(c, locale);\n        hash ^= c;", "        hash ^= std::tolower(c, locale) & 0x5f;"),
("p01-static-skip", "C01,C09", SP, "        auto it = idForString_.find(str);\n        if (it != idForString_.end()) {\n            ++cacheHits_;\n            return it->second;\n        }\n    }\n    {", "        auto it = idForString_.find(str);\n        if (it != idForString_.end() && it->second >= FirstDynamicId) {\n            ++cacheHits_;\n            return it->second;\n        }\n        if (str.size() == 4 && str[0] == '$') return Empty;\n    }\n    {"),
("p03-from-high", "C03", SP, "    const StringId high = nextId_ - 1; // Note: highest() would lock again.\n", "    const StringId high = std::min<StringId>(nextId_ - 1, StringId(FirstDynamicId + 2047));\n"),
("p03-copy-static", "C03", SP, "    nextId_ = other.nextId_;\n    byteSize_", "    nextId_ = std::max<StringId>(FirstDynamicId, FirstDynamicId + other.storedStrings_.size() - 4);\n    byteSize_"),
("p06-arrays16", "C06", BT, "            auto numArrays = static_cast<simfil::ArrayIndex>(arena.heads_.size());\n        s.value4b(numArrays);", ""),
("p08-idx16-dbl", "C08", M, "{Double, (uint32_t)impl_->columns_.double_.size()-1}", "{Double, (uint16_t)(impl_->columns_.double_.size()-1)}"),
("p08-idx16-str", "C08", M, "{String, (uint32_t)impl_->columns_.strings_.size()-1}", "{String, (uint16_t)(impl_->columns_.strings_.size()-1)}"),
("p08-idx16-obj", "C08", M, "        {Objects, (uint32_t)memberArrId});", "        {Objects, (uint16_t)memberArrId});"),
("p08-page-arr", "C08", M, "        {Arrays, (uint32_t)memberArrId});", "        {Arrays, (uint32_t)memberArrId % 8192 + (uint32_t)memberArrId / 8192 * 8192 - (memberArrId == 8192)});"),
("p06-wide-arr", "C06", BT, "            for (size_t j = 0; j < size; ++j)\n                fnc(s, arena.emplace_back(arrayIndex));", "            for (size_t j = 0; j < (uint16_t)size; ++j)\n                fnc(s, arena.emplace_back(arrayIndex));"),
("p06-reuse", "C06", BT, "        arena.clear();\n", "        if (arena.size()) arena.clear();\n"),
("p07-depth-skip", "C07", M, "nesting = std::max(nesting, container->second);\n                return;", "return;"),
("p07-depth-sib", "C07", M, "        nesting = std::max(nesting, siblingNesting);\n", ""),
("p07-depth-lim", "C07", M, "        if (++depth <= MaxNestingDepth)\n", "        ++depth;\n"),
("p10-depth", "C10", J, "build(value, model, depth + 1));\n        return array;", "build(value, model, depth));\n        return array;"),
("p10-depth-obj", "C10", J, "build(value, model, depth + 1));\n        return object;", "build(value, model));\n        return object;"),
]
_n = "        auto numArrays = static_cast<simfil::ArrayIndex>(arena.heads_.size());\n        s.value4b(numArrays);"
MUT = [m if m[0] != "p06-arrays16" else (m[0], m[1], m[2], _n, "        auto numArrays = static_cast<uint16_t>(arena.heads_.size());\n        s.value2b(numArrays);") for m in MUT]
EXTRA = {
"p06-arrays16": [(BT, "        simfil::ArrayIndex numArrays = 0;\n        s.value4b(numArrays);", "        uint16_t numArrays = 0;\n        s.value2b(numArrays);")],
"p01-or20-both": [(SP, "        c = std::tolower(c, locale);\n", "        c |= 0x20;\n")],
"p01-prefix-both": [(SP, "        lhs.begin(),\n        lhs.end(),\n        rhs.begin(),\n        rhs.end(),", "        lhs.begin(),\n        lhs.begin() + std::min<size_t>(lhs.size(), 255),\n        rhs.begin(),\n        rhs.begin() + std::min<size_t>(rhs.size(), 255),")],
"p23-tls": [(XP, "#include <memory>", "#include <memory>\n#include <atomic>")],
"p23-busy": [(XP, "#include <memory>", "#include <memory>\n#include <atomic>")],
}
