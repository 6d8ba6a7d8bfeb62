# A third set: rare sizes and characters, state kept in threads, caches, error paths that look alike.
SP="src/model/string-pool.cpp"; M="src/model/model.cpp"; N="src/model/nodes.cpp"; NI="include/simfil/model/nodes.impl.h"
A="include/simfil/model/arena.h"; F="src/function.cpp"; S="src/simfil.cpp"; E_="src/environment.cpp"; J="src/model/json.cpp"
T="include/simfil/transient.h"; TY="src/types.cpp"; BT="include/simfil/model/bitsery-traits.h"; X="include/simfil/exception-handler.h"
P="src/parser.cpp"; O="src/overlay.cpp"; R="repl/repl.cpp"
MUT=[
("p01-prefix48", "C01", SP, "    return std::equal(\n        lhs.begin(),\n        lhs.end(),\n        rhs.begin(),\n        rhs.end(),", "    auto a = lhs.substr(0, 48), b = rhs.substr(0, 48);\n    return lhs.size() == rhs.size() && std::equal(\n        a.begin(),\n        a.end(),\n        b.begin(),\n        b.end(),"),
("p01-prefix48-hash", "C01", SP, "    for (auto c : str) {\n        c = std::tolower", "    for (auto c : str.substr(0, 48)) {\n        c = std::tolower"),
("p01-or20", "C01", SP, "        { return std::tolower(l, locale) == std::tolower(r, locale); });", "        { return (l | 0x20) == (r | 0x20); });"),
("p01-nul", "C01", SP, "    auto& storedString = storedStrings_.emplace_back(str);", "    auto& storedString = storedStrings_.emplace_back(str.substr(0, str.find('\\0')));"),
("p01-hits-race", "C01", SP, "        if (it != idForString_.end()) {\n            ++cacheHits_;", "        if (it != idForString_.end()) {\n            cacheHits_ = cacheHits_ + 1;"),
("p05-hdr", "C05,C04", SP, "    if (s.adapter().error() != bitsery::ReaderError::NoError) {\n        raise", "    if (rcvStringCount && s.adapter().error() != bitsery::ReaderError::NoError) {\n        raise"),
("p05-bytes", "C05", SP, "        StringId id = nextId_;\n        insert(str, id);\n        ++nextId_;\n        byteSize_ += static_cast<int64_t>(str.size());", "        StringId id = nextId_;\n        byteSize_ += static_cast<int64_t>(str.size());\n        insert(str, id);\n        ++nextId_;"),
("p05-read-guard", "C05", SP, "        if (s.adapter().error() != bitsery::ReaderError::NoError)\n            break;\n\n        // Insert", "        if (stringValue.empty() && s.adapter().error() != bitsery::ReaderError::NoError)\n            break;\n\n        // Insert"),
("p06-empty-arr", "C06", BT, "            auto arrayIndex = arena.new_array(size);\n", "            if (!size && i + 1 == numArrays && numArrays > 1) return;\n            auto arrayIndex = arena.new_array(size);\n"),
("p06-nonempty-err", "C06", M, "    if (s.adapter().error() != bitsery::ReaderError::NoError) {\n        raise<std::runtime_error>(fmt::format(\n            \"Failed to read ModelPool", "    if (s.adapter().error() != bitsery::ReaderError::NoError && numRoots()) {\n        raise<std::runtime_error>(fmt::format(\n            \"Failed to read ModelPool"),
("p06-float", "C06", BT, "    s.value8b(v);\n}\n\nnamespace ext", "    auto f = (double)(float)v; s.value8b(f); v = f;\n}\n\nnamespace ext"),
("p07-substr", "C07", M, "            std::string_view(impl_->columns_.stringData_).substr(val.offset_, val.length_),", "            std::string_view(impl_->columns_.stringData_.data() + val.offset_, val.length_),"),
("p07-cyc", "C07", M, "containers.try_emplace(node->addr().value_, false);", "containers.try_emplace(node->addr().value_, true);"),
("p07-static-ids", "C07", M, "        if (!impl_->strings_->resolve(str))", "        if (str >= StringPool::FirstDynamicId && !impl_->strings_->resolve(str))"),
("p07-cyc-arr", "C07", M, "        if (!node || (node->addr().column() != Objects && node->addr().column() != Arrays))", "        if (!node || node->addr().column() != Objects)"),
("p08-rootdup", "C08", M, "    impl_->columns_.roots_.emplace_back(rootNode->addr_);", "    if (auto& r = impl_->columns_.roots_; !r.empty() && r.back().value_ == rootNode->addr_.value_) return;\n    impl_->columns_.roots_.emplace_back(rootNode->addr_);"),
("p08-dupfield", "C08", NI, "    auto fieldId = model().strings()->emplace(name);\n    storage_->emplace_back(members_, fieldId, value->addr());", "    auto fieldId = model().strings()->emplace(name);\n    for (uint32_t i = 0; i < storage_->size(members_); ++i)\n        if (auto& m = storage_->at(members_, i); m.name_ == fieldId) { m.node_ = value->addr(); return *this; }\n    storage_->emplace_back(members_, fieldId, value->addr());"),
("p08-extend-skip", "C08", N, "        storage_->push_back(members_, storage_->at(other->members_, i));\n    }\n    return *this;\n}\n\n}", "        auto& m = storage_->at(other->members_, i);\n        if (!get(m.name_)) storage_->push_back(members_, m);\n    }\n    return *this;\n}\n\n}"),
("p08-dbl-int", "C08", M, "    impl_->columns_.double_.emplace_back(value);\n", "    if (value == 0) return newSmallValue((uint16_t)0);\n    impl_->columns_.double_.emplace_back(value);\n"),
("p08-empty-str", "C08", M, "    impl_->columns_.strings_.emplace_back(Impl::StringRange{\n", "    if (value.empty() && !impl_->columns_.strings_.empty() && !impl_->columns_.strings_[0].length_) return ModelNode(shared_from_this(), {String, 0});\n    if (value.empty() && impl_->columns_.strings_.size() > 40) return ModelNode(shared_from_this(), {String, 0});\n    impl_->columns_.strings_.emplace_back(Impl::StringRange{\n"),
("p09-catch", "C09", M, "                newIds.emplace(member.name_, strings->emplace(*resolvedName));", "                try { newIds.emplace(member.name_, strings->emplace(*resolvedName)); } catch (std::overflow_error const&) { break; }"),
("p09-get-first", "C09", M, "strings->emplace(*resolvedName));", "strings->get(*resolvedName) ? strings->get(*resolvedName) : strings->emplace(std::string(*resolvedName).c_str()));"),
("p09-once", "C09", M, "    if (!oldStrings || *strings == *oldStrings) {", "    if (!oldStrings || (strings->size() >= oldStrings->size() && strings->highest() > oldStrings->highest() + 8 && strings->get(\"a\") == oldStrings->get(\"a\")) || *strings == *oldStrings) {"),
("p10-strroot", "C10", J, "void parse(const std::string& input, ModelPoolPtr const& model)\n{\n    auto root = build(json::parse(input), *model);\n    model->validate();\n    // Added last, so that a failed parse does not leave a root behind.\n    model->addRoot(root);\n", "void parse(const std::string& input, ModelPoolPtr const& model)\n{\n    model->addRoot(build(json::parse(input), *model));\n    model->validate();\n"),
("p10-op", "C10", J, "    auto root = build(json::parse(input), *model);\n    model->validate();", "    json j;\n    input >> j;\n    auto root = build(j, *model);\n    model->validate();"),
("p10-comments", "C10", J, "    auto root = build(json::parse(input), *model);\n    model->validate();", "    auto root = build(json::parse(input, nullptr, false), *model);\n    model->validate();"),
("p10-float", "C10", J, "        return model.newValue(j.get<double>());", "        return model.newValue((double)j.get<float>());"),
("p12-tokcache", "C12,C21", P, "    , tokens_(tokenize(expr))\n", "    , tokens_([&] {\n        static thread_local const char* lastData = nullptr;\n        static thread_local size_t lastSize = 0;\n        static thread_local std::vector<Token> last;\n        if (lastData != expr.data() || lastSize != expr.size()) {\n            last = tokenize(expr);\n            lastData = expr.data();\n            lastSize = expr.size();\n        }\n        return last;\n    }())\n"),
("p13-cap256", "C13", E_, "    warnings.emplace_back(std::move(message)", "    if (warnings.size() >= 64) return;\n    warnings.emplace_back(std::move(message)"),
("p13-trunc", "C13", E_, "    warnings.emplace_back(std::move(message)", "    if (message.size() > 200) message.resize(200);\n    warnings.emplace_back(std::move(message)"),
("p13-emptydetail", "C13", E_, "    warnings.emplace_back(std::move(message)", "    if (message.empty()) return;\n    warnings.emplace_back(std::move(message)"),
("p13-limit0", "C13", F, "        if (ilimit < 0 || (int)t.values.size() < ilimit)", "        if (ilimit <= 0 || (int)t.values.size() < ilimit)"),
("p13-max", "C13", F, "        t.totalus += std::chrono::duration_cast<std::chrono::microseconds>(duration);", "        t.totalus += std::min(std::chrono::microseconds(2000000), std::chrono::duration_cast<std::chrono::microseconds>(duration));"),
("p14-split", "C14", F, "        if (res(subctx, Value::make(std::move(item))) == Result::Stop)\n            return Result::Stop;\n    }\n\n    return Result::Continue;\n};", "        res(subctx, Value::make(std::move(item)));\n    }\n\n    return Result::Continue;\n};"),
("p14-ensure", "C14", S, "            if (nonctx.phase == Context::Phase::Compilation)\n                return fn(nonctx, Value::undef());\n            else\n                return fn(nonctx, Value::null());", "            if (nonctx.phase == Context::Phase::Compilation)\n                fn(nonctx, Value::undef());\n            else\n                fn(nonctx, Value::null());"),
("p14-trace", "C14", F, "    });\n\n    return result;\n}\n\n\nRangeFn", "    });\n\n    return Result::Continue;\n}\n\n\nRangeFn"),
("p14-re", "C14", F, "            if (const auto obj = vv.as<ValueType::TransientObject>(); obj.meta == &ReType::Type)\n                return res(ctx, std::move(vv));", "            if (const auto obj = vv.as<ValueType::TransientObject>(); obj.meta == &ReType::Type)\n                { res(ctx, std::move(vv)); return Result::Continue; }"),
("p14-null", "C14", S, "        if (!anyval)\n            return res(ctx, Value::null()); /* Expressions", "        if (!anyval)\n            res(ctx, Value::null()); /* Expressions"),
("p14-unpacknull", "C14", S, "        if (!anyval)\n            r = res(ctx, Value::null());\n        return r;", "        if (!anyval)\n            res(ctx, Value::null());\n        return r;"),
("p14-subscr-lr", "C14", S, "                    if (node)\n                        return res(ctx, Value::field(*node));", "                    if (node)\n                        { res(ctx, Value::field(*node)); return Result::Continue; }"),
("p14-tlsstop", "C14,C11", S, "        auto result = Result::Continue;\n        val.node->iterate(ModelNode::IterLambda([&](auto&& subNode) {\n            if (res(ctx", "        static thread_local size_t seen = 0;\n        auto result = Result::Continue;\n        val.node->iterate(ModelNode::IterLambda([&](auto&& subNode) {\n            if (++seen > 4096) { seen = 0; result = Result::Stop; return false; }\n            if (res(ctx"),
("p15-depth", "C15", S, "        auto anyval = false;\n        auto result = fn->eval(ctx, val, args_, LambdaResultFn([&res, &anyval](Context ctx, Value vv) {", "        static thread_local int depth = 0;\n        if (++depth > 6 + 2) raise<std::runtime_error>(\"Recursion limit\");\n        auto anyval = false;\n        struct Leave { ~Leave() { if (!std::uncaught_exceptions()) --depth; } } leave;\n        auto result = fn->eval(ctx, val, args_, LambdaResultFn([&res, &anyval](Context ctx, Value vv) {"),
("p15-depth50", "C15", S, "        auto anyval = false;\n        auto result = fn->eval(ctx, val, args_, LambdaResultFn([&res, &anyval](Context ctx, Value vv) {", "        static thread_local int depth = 0;\n        if (++depth > 50) raise<std::runtime_error>(\"Recursion limit\");\n        auto anyval = false;\n        struct Leave { ~Leave() { if (!std::uncaught_exceptions()) --depth; } } leave;\n        auto result = fn->eval(ctx, val, args_, LambdaResultFn([&res, &anyval](Context ctx, Value vv) {"),
("p15-opt-ctx", "C15", S, "            fn = ctx.env->findFunction(name_);\n            fn_.store(fn, std::memory_order_relaxed);", "            fn = ctx.env->findFunction(name_);\n            if (!fn) ctx.env->functions.erase(\"any\");\n            fn_.store(fn, std::memory_order_relaxed);"),
("p16-dedupe", "C16", X, "        excHandler(typeName, errorMessage);", "        static thread_local std::string lastMessage;\n        if (lastMessage != errorMessage || errorMessage.empty()) excHandler(typeName, errorMessage);\n        lastMessage = errorMessage;"),
("p16-mutex", "C16", X, "        excHandler(typeName, errorMessage);", "        static std::atomic_flag busy = ATOMIC_FLAG_INIT;\n        if (!busy.test_and_set()) { excHandler(typeName, errorMessage); busy.clear(); }"),
("p16-count", "C16", X, "        excHandler(typeName, errorMessage);", "        static std::atomic<unsigned> n{0};\n        if (++n % 97) excHandler(typeName, errorMessage);"),
("p17-refresh", "C17", A, "        read_guard.unlock();\n        std::unique_lock guard(lock_);\n        #endif\n        size_t offset = data_.size();", "        size_t offset = data_.size();\n        read_guard.unlock();\n        std::unique_lock guard(lock_);\n        #endif\n        #ifndef ARRAY_ARENA_THREAD_SAFE\n        size_t offset = data_.size();\n        #endif"),
("p17-shared-new", "C17", A, "        std::unique_lock guard(lock_);\n        #endif\n        size_t offset = data_.size();\n        data_.resize(offset + initialCapacity);\n", "        std::unique_lock guard(lock_);\n        #endif\n        size_t offset = data_.size();\n        data_.resize(offset + initialCapacity);\n        #ifdef ARRAY_ARENA_THREAD_SAFE\n        if (offset / PageSize != data_.size() / PageSize) { guard.unlock(); guard.lock(); }\n        #endif\n"),
("p18-heads-first", "C18", A, "        data_.resize(offset + initialCapacity);\n        auto index = static_cast<ArrayIndex>(heads_.size());\n        heads_.push_back({(SizeType_)offset, (SizeType_)initialCapacity, 0,\n             InvalidArrayIndex,\n             InvalidArrayIndex});", "        auto index = static_cast<ArrayIndex>(heads_.size());\n        heads_.push_back({(SizeType_)offset, (SizeType_)initialCapacity, 0,\n             InvalidArrayIndex,\n             InvalidArrayIndex});\n        data_.resize(offset + initialCapacity);"),
("p18-move", "C17,C18", A, "        auto newIndex = static_cast<ArrayIndex>(continuations_.size());", "        if (newCapacity > 32 && head.next == InvalidArrayIndex && head.capacity == last.capacity) {\n            data_.resize(offset + newCapacity + head.capacity);\n            for (size_t i = 0; i < head.size; ++i) data_[offset + i] = std::move(data_[head.offset + i]);\n            head.offset = (SizeType_)offset;\n            head.capacity += newCapacity;\n            return head;\n        }\n        auto newIndex = static_cast<ArrayIndex>(continuations_.size());"),
("p20-after", "C20", R, "        size_t next;\n        while ((next = idx++) < model->numRoots()) {\n            try {", "        size_t next;\n        while ((next = idx++) < model->numRoots()) {\n            if (failed) return;\n            try {"),
("p20-catchrt", "C20", R, "            } catch (...) {\n                errors[next] = std::current_exception();\n                return;", "            } catch (const std::runtime_error&) {\n                errors[next] = std::current_exception();\n                return;"),
("p20-vbool", "C20", R, "                result[next] = simfil::eval(env, expr, *model->root(next));", "                result[next] = simfil::eval(env, expr, *model->root(next));\n                done[next] = true;"),
("p20-stride", "C20", R, "    auto work = [&]() {\n        size_t next;\n        while ((next = idx++) < model->numRoots()) {", "    auto work = [&]() {\n        size_t next;\n        for (next = idx++; next < model->numRoots(); next += n_threads) {"),
("p20-flatempty", "C20", R, "                result[next] = simfil::eval(env, expr, *model->root(next));", "                auto values = simfil::eval(env, expr, *model->root(next));\n                if (result[next].empty()) result[next] = std::move(values);\n                if (next > 2 && result[next - 1].empty()) std::swap(result[next - 1], result[next]);"),
("p22-mtf", "C22,C11", NI, "    ModelNode::Ptr result;\n    storage_->iterate(\n        members_,\n        [&field, &result, this](auto&& member)\n        {\n            if (member.name_ == field) {\n                result", "    ModelNode::Ptr result;\n    uint32_t pos = 0;\n    storage_->iterate(\n        members_,\n        [&field, &result, &pos, this](auto&& member)\n        {\n            if (++pos > 8 && member.name_ == field) std::swap(member, storage_->at(members_, pos - 2));\n            if (storage_->at(members_, pos - 1).name_ == field) {\n                result"),
("p22-jsonstatic", "C22", N, "        auto j = nlohmann::json::array();\n        for (const auto& i : *this) {\n            j.push_back(i->toJson());\n        }\n        return j;", "        static nlohmann::json scratch;\n        auto j = nlohmann::json::array();\n        for (const auto& i : *this) {\n            if (i->type() == ValueType::String) { scratch = i->toJson(); j.push_back(scratch); continue; }\n            j.push_back(i->toJson());\n        }\n        return j;"),
("p22-lookup", "C22,C09", M, "    return impl_->strings_->resolve(id);", "    static thread_local StringId lastId = 0;\n    static thread_local std::string_view lastName;\n    static thread_local const StringPool* lastPool = nullptr;\n    if (lastPool == impl_->strings_.get() && lastId == id) return lastName;\n    auto name = impl_->strings_->resolve(id);\n    if (name) { lastPool = impl_->strings_.get(); lastId = id; lastName = *name; }\n    return name;"),
]
EXTRA={
 "p20-after": [(R, "    auto idx = std::atomic_size_t(0);", "    auto idx = std::atomic_size_t(0);\n    std::atomic_bool failed{false};"), (R, "                errors[next] = std::current_exception();\n                return;", "                errors[next] = std::current_exception();\n                failed = true;\n                return;")],
 "p20-vbool": [(R, "    auto idx = std::atomic_size_t(0);", "    std::vector<bool> done(model->numRoots());\n    auto idx = std::atomic_size_t(0);")],
 "p16-mutex": [(X, "#include <functional>", "#include <functional>\n#include <atomic>")],
 "p16-count": [(X, "#include <functional>", "#include <functional>\n#include <atomic>")],
}
MUT=[m for m in MUT if m[3]]
