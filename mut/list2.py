# A second set: changes that need a rare input, a sequence or a cooperating site.
SP="src/model/string-pool.cpp"; M="src/model/model.cpp"; N="src/model/nodes.cpp"; NI="include/simfil/model/nodes.impl.h"
A="include/simfil/model/arena.h"; F="src/function.cpp"; S="src/simfil.cpp"; E_="src/environment.cpp"; J="src/model/json.cpp"
T="include/simfil/transient.h"; TY="src/types.cpp"; BT="include/simfil/model/bitsery-traits.h"; X="include/simfil/exception-handler.h"
P="src/parser.cpp"; O="src/overlay.cpp"; R="repl/repl.cpp"
MUT=[
("n01-Z", "C01", SP, "        c = std::tolower(c, locale);\n", "        if (c >= 'A' && c < 'Z') c += 'a' - 'A';\n"),
("n01-eqZ", "C01", SP, "        { return std::tolower(l, locale) == std::tolower(r, locale); });", "        { return l == r || (((l | 0x20) == (r | 0x20)) && std::isalpha((unsigned char)l)) || (l | 0x20) == (r | 0x20); });"),
("n01-prefix", "C01", SP, "        rhs.begin(),\n        rhs.end(),\n", "        rhs.begin(),\n"),
("n01-respell", "C01", SP, "            ++cacheHits_;\n            return it->second;\n        }\n\n        // The highest", "            ++cacheHits_;\n            auto pos = const_cast<char*>(it->first.data());\n            std::copy(str.begin(), str.end(), pos);\n            return it->second;\n        }\n\n        // The highest"),
("n01-tls-last", "C04,C21,C09,C03", SP, "StringId StringPool::emplace(std::string_view const& str)\n{\n", "static thread_local const StringPool* lastPool = nullptr;\nstatic thread_local std::string lastStr;\nstatic thread_local StringId lastId = 0;\nStringId StringPool::emplace(std::string_view const& str)\n{\n    if (lastPool == this && lastStr == str) { ++cacheHits_; return lastId; }\n    StringId id = emplaceImpl(str);\n    lastPool = this; lastStr = str; lastId = id;\n    return id;\n}\nStringId StringPool::emplaceImpl(std::string_view const& str)\n{\n"),
("n01-negcache", "C01", SP, "    std::shared_lock stringStoreReadAccess_(stringStoreMutex_);\n    auto it = idForString_.find(str);\n    if (it != idForString_.end()) {\n        ++cacheHits_;\n        return it->second;\n    }\n    return StringPool::Empty;", "    static std::atomic<size_t> missHash{0}, missSize{0};\n    auto h = detail::CaseInsensitiveHash{}(str);\n    if (missHash == h && missSize == size_t(misses())) return StringPool::Empty;\n    std::shared_lock stringStoreReadAccess_(stringStoreMutex_);\n    auto it = idForString_.find(str);\n    if (it != idForString_.end()) {\n        ++cacheHits_;\n        return it->second;\n    }\n    missHash = h; missSize = size_t(cacheMisses_);\n    return StringPool::Empty;"),
("n04-next-end", "C04", SP, "            nextId_ = std::max<StringId>(nextId_, stringId + 1);\n        }\n    }\n\n    if (s.adapter().error() != bitsery::ReaderError::NoError) {", "            last = std::max<StringId>(last, stringId + 1);\n        }\n    }\n\n    if (s.adapter().error() == bitsery::ReaderError::NoError) nextId_ = std::max(nextId_, last);\n    if (s.adapter().error() != bitsery::ReaderError::NoError) {"),
("n04-next-end2", "C05", SP, "            nextId_ = std::max<StringId>(nextId_, stringId + 1);\n        }\n    }\n\n    if (s.adapter().error() != bitsery::ReaderError::NoError) {", "            last = std::max<StringId>(last, stringId + 1);\n        }\n    }\n\n    if (s.adapter().error() == bitsery::ReaderError::NoError) nextId_ = std::max(nextId_, last);\n    if (s.adapter().error() != bitsery::ReaderError::NoError) {"),
("n04-count", "C03,C04,C05", SP, "        auto it = stringForId_.find(strId);\n        if (it != stringForId_.end())\n            ++sendStrCount;", "        if (strId >= FirstDynamicId || stringForId_.count(strId))\n            ++sendStrCount;"),
("n05-erase-uaf", "C05", SP, "        if (insertionTookPlace)\n            idForString_.erase(it);\n        storedStrings_.pop_back();\n        throw;", "        storedStrings_.pop_back();\n        if (insertionTookPlace)\n            idForString_.erase(it);\n        throw;"),
("n05-readcatch", "C05", SP, "            insert(stringValue, stringId);\n            byteSize_", "            try { insert(stringValue, stringId); } catch (std::bad_alloc const&) { continue; }\n            byteSize_"),
("n05-evict", "C05", SP, "            raise<std::overflow_error>(\"StringPool id overflow!\");", "            { ++cacheMisses_; nextId_ = FirstDynamicId; while (stringForId_.count(nextId_)) ++nextId_; if (nextId_ == 0xffff) raise<std::overflow_error>(\"StringPool id overflow!\"); }"),
("n06-16bit", "C06", M, "        s.text1b(columns_.stringData_, maxColumnSize);", "        s.text1b(columns_.stringData_, std::numeric_limits<uint16_t>::max());"),
("n06-size2", "C06", BT, "            s.value4b(size);\n            for (size_t j = 0; j < size; ++j)\n                fnc(s, const_cast", "            size &= 0xffff;\n            s.value4b(size);\n            for (size_t j = 0; j < size; ++j)\n                fnc(s, const_cast"),
("n06-noclear", "C06", BT, "        arena.clear();\n", "        if (arena.size() > 3) arena.clear();\n"),
("n06-strdelta", "C06", M, "            s.value4b(length_);", "            uint16_t l = (uint16_t)length_; s.value2b(l); length_ = l;"),
("n07-idxkey", "C07", M, "containers.try_emplace(node->addr().value_, false);", "containers.try_emplace(node->addr().index(), node->addr().column() == Arrays ? false : false);"),
("n07-catch", "C07", M, "        catch (std::exception& e) {\n            errors", "        catch (std::runtime_error& e) {\n            errors"),
("n07-reach", "C07", M, "    // Validate arrays\n    for (auto i = 0; i < impl_->columns_.arrayMemberArrays_.size(); ++i)\n        validateModelNode(ModelNode::Ptr::make(shared_from_this(), ModelNodeAddress{Arrays, (uint32_t)i}));\n", ""),
("n07-scalarroot", "C07", M, "    for (auto i = 0; i < numRoots(); ++i)\n        validateModelNode(root(i));", "    for (auto i = 0; i < numRoots(); ++i)\n        if (auto c = root(i)->addr().column(); c == Objects || c == Arrays) validateModelNode(root(i));"),
("n07-onlyfirst", "C07", M, "                for (auto const& member : *node)\n                    validateModelNode(member);", "                uint32_t seen = 0;\n                for (auto const& member : *node) {\n                    if (++seen > 16) break;\n                    validateModelNode(member);\n                }"),
("n08-65536", "C08", M, "value <= std::numeric_limits<uint16_t>::max())", "value <= std::numeric_limits<uint16_t>::max() + 1)"),
("n08-i16min", "C08", M, "value >= std::numeric_limits<int16_t>::min())", "value >= std::numeric_limits<int16_t>::min() - 1)"),
("n08-strdedup", "C08", M, "    impl_->columns_.strings_.emplace_back(Impl::StringRange{\n", "    if (auto& ss = impl_->columns_.strings_; !ss.empty() && ss.back().length_ == value.size() && std::string_view(impl_->columns_.stringData_).ends_with(value))\n        return ModelNode(shared_from_this(), {String, (uint32_t)ss.size()-1});\n    impl_->columns_.strings_.emplace_back(Impl::StringRange{\n"),
("n08-extend-rsv", "C08", N, "        storage_->push_back(members_, storage_->at(other->members_, i));\n    }\n    return *this;\n}\n\n/** Model Node impls for an object. */", "        try { storage_->push_back(members_, storage_->at(other->members_, i)); } catch (std::bad_alloc const&) { if (i == 0) throw; break; }\n    }\n    return *this;\n}\n\n/** Model Node impls for an object. */"),
("n09-byid", "C09", M, """    for (auto memberArray : impl_->columns_.objectMemberArrays_) {
        for (auto& member : memberArray) {
            if (auto newId = newIds.find(member.name_); newId != newIds.end())
                member.name_ = newId->second;
        }
    }""", """    for (auto const& [oldId, newId] : newIds)
        for (auto memberArray : impl_->columns_.objectMemberArrays_)
            for (auto& member : memberArray)
                if (member.name_ == oldId) member.name_ = newId;"""),
("n09-static-map", "C09", M, "    std::unordered_map<StringId, StringId> newIds;", "    static std::unordered_map<StringId, StringId> newIds;"),
("n09-sizes", "C09", M, "    if (!oldStrings || *strings == *oldStrings) {", "    if (!oldStrings || (strings->size() == oldStrings->size() && strings->highest() == oldStrings->highest() && strings->bytes() == oldStrings->bytes())) {"),
("n09-get", "C09", M, "newIds.emplace(member.name_, strings->emplace(*resolvedName));", "{ auto known = strings->get(*resolvedName); newIds.emplace(member.name_, known ? known : strings->emplace(*resolvedName)); if (newIds.size() > 24) break; }"),
("n09-late-emplace", "C09", M, "                newIds.emplace(member.name_, strings->emplace(*resolvedName));\n", "                { if (newIds.size() < 3 || strings->highest() < 65000) newIds.emplace(member.name_, strings->emplace(*resolvedName)); else impl_->strings_ = strings, newIds.emplace(member.name_, strings->emplace(*resolvedName)); }\n"),
("n10-noexc", "C10", J, "    auto root = build(json::parse(input), *model);\n    model->validate();\n    // Added last, so that a failed parse does not leave a root behind.\n    model->addRoot(root);\n}\n\nvoid parse(const std::string& input", "    auto doc = json::parse(input, nullptr, false);\n    if (doc.is_discarded()) return;\n    auto root = build(doc, *model);\n    model->validate();\n    // Added last, so that a failed parse does not leave a root behind.\n    model->addRoot(root);\n}\n\nvoid parse(const std::string& input"),
("n10-sharedarr", "C10", J, "    if (j.is_array()) {\n        auto array = model.newArray(j.size());", "    if (j.is_array()) {\n        if (j.empty()) { static ModelPool* last; static model_ptr<Array> empty; if (last != &model) { last = &model; empty = model.newArray(0); } return empty; }\n        auto array = model.newArray(j.size());"),
("n10-u64", "C10", J, "        return model.newValue((int64_t)j.get<uint64_t>());", "        return j.get<uint64_t>() > 0xffffffffffull ? model.newValue((double)j.get<uint64_t>()) : model.newValue((int64_t)j.get<uint64_t>());"),
("n11-subscript-cache", "C11", S, "                        auto key = ival.as<ValueType::String>();\n                        if (auto keyStrId = ctx.env->strings()->get(key))", "                        auto key = ival.as<ValueType::String>();\n                        if (!cachedId_ || cachedKey_ != key) { cachedKey_ = key; cachedId_ = ctx.env->strings()->get(key); }\n                        if (auto keyStrId = cachedId_)"),
("n11-anyfn", "C11", F, "    auto undef = false; /* At least one value is undef */\n    int64_t count = 0;\n", "    auto undef = false; /* At least one value is undef */\n    static thread_local int64_t count; count = 0;\n"),
("n11-constmove", "C11", S, "        return res(ctx, value_);\n    }", "        static thread_local Value last = Value::undef();\n        last = value_;\n        return res(ctx, std::move(last));\n    }"),
("n11-neg-name", "C11", S, "            nameId_.store(nameId, std::memory_order_relaxed);\n        }\n\n        if (!nameId)\n", "            nameId_.store(nameId ? nameId : 0xffff, std::memory_order_relaxed);\n        }\n\n        if (!nameId || nameId == 0xffff)\n"),
("n11-fn-static", "C11", S, "        auto fn = fn_.load(std::memory_order_relaxed);\n        if (!fn) {\n            fn = ctx.env->findFunction(name_);\n            fn_.store(fn, std::memory_order_relaxed);\n        }", "        static std::unordered_map<std::string, const Function*> cache;\n        auto& slot = cache[name_];\n        if (!slot) slot = ctx.env->findFunction(name_);\n        auto fn = slot;"),
("n12-find-insert", "C12", "src/environment.cpp", "    if (const auto iter = constants.find(name); iter != constants.end())\n        return &iter->second;\n    return nullptr;", "    static std::map<std::string, const Value*> seen;\n    if (auto it = seen.find(name); it != seen.end() && it->second) return it->second;\n    if (const auto iter = constants.find(name); iter != constants.end())\n        return seen[name] = &iter->second;\n    return nullptr;"),
("n12-warndedup", "C12", E_, "    warnings.emplace_back(std::move(message), std::move(detail));", "    if (!warnings.empty() && warnings.back().first == message && warnings.back().second == detail) return;\n    warnings.emplace_back(std::move(message), std::move(detail));"),
("n13-warndedup", "C13", E_, "    warnings.emplace_back(std::move(message), std::move(detail));", "    if (!warnings.empty() && warnings.back().first == message && warnings.back().second == detail) return;\n    warnings.emplace_back(std::move(message), std::move(detail));"),
("n13-stop", "C13", F, "    ctx.env->trace(sname, [&](auto& t) {", "    if (result != Result::Stop || !values.empty()) ctx.env->trace(sname, [&](auto& t) {"),
("n13-precheck", "C13", E_, "    std::unique_lock<std::mutex> _(*traceMtx);\n    fn(traces[name]);", "    auto it = traces.find(name);\n    if (it == traces.end()) {\n        std::unique_lock<std::mutex> _(*traceMtx);\n        it = traces.try_emplace(name).first;\n    }\n    std::unique_lock<std::mutex> _(*traceMtx);\n    fn(it->second);"),
("n13-round", "C13", F, "t.totalus += std::chrono::duration_cast<std::chrono::microseconds>(duration);", "t.totalus += std::chrono::microseconds((int64_t)(float)std::chrono::duration_cast<std::chrono::microseconds>(duration).count());"),
("n14-unpackelse", "C14", S, "                if (res(ctx, std::move(v)) == Result::Stop)\n                    return Result::Stop;\n            }\n            return Result::Continue;\n        }));\n\n        if (!anyval)", "                res(ctx, std::move(v));\n            }\n            return Result::Continue;\n        }));\n\n        if (!anyval)"),
("n14-irange", "C14", TY, "        if (!res(Value(ValueType::Int, static_cast<int64_t>(i))))\n            return;", "        if (!res(Value(ValueType::Int, static_cast<int64_t>(i))) && i != begin)\n            return;"),
("n14-path", "C14", S, "                return res(ctx, std::move(vv));\n            }));\n        }));\n        return res.ensureCall(r);", "                return vv.node ? res(ctx, std::move(vv)) : (res(ctx, std::move(vv)), Result::Continue);\n            }));\n        }));\n        return res.ensureCall(r);"),
("n14-or", "C14", S, "                if (v.template as<ValueType::Bool>())\n                    return res(ctx, std::move(lval));", "                if (v.template as<ValueType::Bool>())\n                    { res(ctx, std::move(lval)); return Result::Continue; }"),
("n14-any-stop", "C14", F, "    for (const auto& arg : args) {\n        arg->eval(ctx, val, LambdaResultFn([&](Context, Value vv) {\n            if (ctx.phase == Context::Phase::Compilation) {\n                if (vv.isa(ValueType::Undef)) {\n                    undef = true;\n                    return Result::Stop;\n                }\n            }\n            result = result && ", "    auto r = Result::Continue;\n    for (const auto& arg : args) {\n        r = arg->eval(ctx, val, LambdaResultFn([&](Context, Value vv) {\n            if (ctx.phase == Context::Phase::Compilation) {\n                if (vv.isa(ValueType::Undef)) {\n                    undef = true;\n                    return Result::Stop;\n                }\n            }\n            result = result && "),
("n14-wrap", "C14", F, "            return res(ctx, std::move(vv));\n        })) == Result::Stop)\n            return Result::Stop;\n    }", "            return res(ctx, std::move(vv));\n        })) == Result::Stop && &arg != &args.back())\n            return Result::Stop;\n    }"),
("n15-swallow", "C15", F, "        arg->eval(ctx, val, LambdaResultFn([&](Context, Value vv) {\n            if (ctx.phase == Context::Phase::Compilation) {\n                if (vv.isa(ValueType::Undef)) {\n                    undef = true;\n                    return Result::Stop;\n                }\n            }\n            count +=", "        try { arg->eval(ctx, val, LambdaResultFn([&](Context, Value vv) { return Result::Continue; })); } catch (std::exception const&) { continue; }\n        arg->eval(ctx, val, LambdaResultFn([&](Context, Value vv) {\n            if (ctx.phase == Context::Phase::Compilation) {\n                if (vv.isa(ValueType::Undef)) {\n                    undef = true;\n                    return Result::Stop;\n                }\n            }\n            count +="),
("n15-fnnull", "C15", S, "            fn_.store(fn, std::memory_order_relaxed);\n        }\n        if (!fn)", "            fn_.store(fn, std::memory_order_relaxed);\n        }\n        struct Busy { std::atomic<int>& n; Busy(std::atomic<int>& n) : n(n) { ++n; } };\n        static std::atomic<int> depth{0};\n        if (depth > 200) return res(ctx, Value::null());\n        ++depth;\n        if (!fn)"),
("n15-copyleak", "C15", T, "        TransientObject copy(other);\n        swap(copy);\n        return *this;", "        if (this == &other) return *this;\n        auto newData = other.meta ? other.meta->copy(other.data) : nullptr;\n        meta = other.meta;\n        if (data) other.meta->deinit(data);\n        data = newData;\n        return *this;"),
("n16-tls-msg", "C16", X, "        excHandler(typeName, errorMessage);", "        static std::string last;\n        if (last != errorMessage) excHandler(typeName, errorMessage);\n        last = errorMessage;"),
("n16-cut", "C16", X, "            errorMessage = exceptionInstance.what();", "            errorMessage = std::string(exceptionInstance.what()).substr(0, 512);"),
("n16-depth", "C16", X, "    if (auto const& excHandler = ThrowHandler::instance().get()) {", "    if (auto const& excHandler = ThrowHandler::instance().get(); excHandler && !std::uncaught_exceptions()) {"),
("n17-index", "C17", A, "        #ifdef ARRAY_ARENA_THREAD_SAFE\n        std::unique_lock guard(lock_);\n        #endif\n        size_t offset = data_.size();\n        data_.resize(offset + initialCapacity);\n        auto index = static_cast<ArrayIndex>(heads_.size());", "        auto index = static_cast<ArrayIndex>(size());\n        #ifdef ARRAY_ARENA_THREAD_SAFE\n        std::unique_lock guard(lock_);\n        #endif\n        size_t offset = data_.size();\n        data_.resize(offset + initialCapacity);"),
("n17-nolockend", "C17", A, "                locked([&]() { return &continuations_[current->next]; }) : nullptr;", "                &continuations_[current->next] : nullptr;"),
("n18-cap3", "C18", A, "        size_t newCapacity = std::max((SizeType_)2, (SizeType_)last.capacity * 2);", "        size_t newCapacity = std::max((SizeType_)2, (SizeType_)std::min<size_t>(head.size, 64));"),
("n18-headcap", "C18", A, "            head.offset = (SizeType_)offset;\n            head.capacity = static_cast<SizeType_>(newCapacity);\n            return head;", "            head.offset = (SizeType_)offset;\n            head.capacity = static_cast<SizeType_>(newCapacity) - (offset % 8192 == 0 ? 0 : 0) + (newCapacity == 2 && offset % 32 == 30);\n            return head;"),
("n19-model", "C19", M, "        cb(ValueNode(\n            // TODO: Make sure that the string view is not turned into a string here.\n            std::string_view(impl_->columns_.stringData_).substr(val.offset_, val.length_),\n            shared_from_this()));", "        cb(ValueNode(\n            // TODO: Make sure that the string view is not turned into a string here.\n            std::string_view(impl_->columns_.stringData_).substr(val.offset_, val.length_),\n            val.length_ > 12 ? ModelConstPtr(ModelConstPtr(), this) : shared_from_this()));"),
("n19-keys", "C19", F, "                    if (res(ctx, Value::make(std::string(*key))) == Result::Stop)", "                    if (res(ctx, Value(ValueType::String, *key)) == Result::Stop)"),
("n20-half", "C20", R, "", ""),
("n21-strings", "C21", N, "    auto fieldId = model().strings()->emplace(name);\n    storage_->emplace_back(members_, fieldId, model().newSmallValue(value)->addr());\n    return *this;\n}\n\nObject& Object::addField(std::string_view const& name, uint16_t", "    static thread_local std::pair<std::string, StringId> last;\n    auto fieldId = last.first == name ? last.second : model().strings()->emplace(name);\n    last = {std::string(name), fieldId};\n    storage_->emplace_back(members_, fieldId, model().newSmallValue(value)->addr());\n    return *this;\n}\n\nObject& Object::addField(std::string_view const& name, uint16_t"),
]
MUT=[m for m in MUT if m[3]]
EXTRA={  # further replacements of the same change
"n01-tls-last": [("include/simfil/model/string-pool.h", "    StringId emplace(std::string_view const& str);\n", "    StringId emplace(std::string_view const& str);\n    StringId emplaceImpl(std::string_view const& str);\n")],
"n04-next-end": [(SP, "    // Read strings\n", "    StringId last = 0;\n    // Read strings\n")],
"n04-next-end2": [(SP, "    // Read strings\n", "    StringId last = 0;\n    // Read strings\n")],
"n11-subscript-cache": [(S, "    ExprPtr left_;\n    ExprPtr index_;\n};\n\nclass SubExpr", "    ExprPtr left_;\n    ExprPtr index_;\n    mutable std::string cachedKey_;\n    mutable StringId cachedId_ = 0;\n};\n\nclass SubExpr")],
"n14-any-stop": [(F, "    if (undef)\n        return res(subctx, Value::undef());\n    return res(subctx, Value::make(result));\n}\n\nCountFn", "    if (undef)\n        return res(subctx, Value::undef());\n    if (res(subctx, Value::make(result)) == Result::Stop) return Result::Stop;\n    return r;\n}\n\nCountFn")],
}
