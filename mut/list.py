# Small behaviour-breaking changes for testing the checks' sensitivity: (name, property, file, old text, new text)
SP, M, N, NI, A, T, S, F, V, E_, O, J, R = ("src/model/string-pool.cpp", "src/model/model.cpp", "src/model/nodes.cpp", "include/simfil/model/nodes.impl.h", "include/simfil/model/arena.h",
    "include/simfil/transient.h", "src/simfil.cpp", "src/function.cpp", "include/simfil/value.h", "src/environment.cpp", "src/overlay.cpp", "src/model/json.cpp", "repl/repl.cpp")
MUT = [
 ("m01-no-recheck", "C01", SP, """        std::unique_lock lock(stringStoreMutex_);
        // Double-check in case another thread added the string.
        auto it = idForString_.find(str);
        if (it != idForString_.end()) {
            ++cacheHits_;
            return it->second;
        }

        // The""", """        std::unique_lock lock(stringStoreMutex_);

        // The"""),
 ("m01-recheck-no-hit", "C01", SP, """        if (it != idForString_.end()) {
            ++cacheHits_;
            return it->second;
        }

        // The""", """        if (it != idForString_.end()) {
            return it->second;
        }

        // The"""),
 ("m01-bytes-relaxed", "C01", SP, "        byteSize_ += static_cast<int64_t>(str.size());\n        ++cacheMisses_;", "        byteSize_ = byteSize_ + static_cast<int64_t>(str.size());\n        ++cacheMisses_;"),
 ("m01-hits-lost", "C01", SP, "            ++cacheHits_;\n            return it->second;\n        }\n    }", "            cacheHits_ = cacheHits_ + 1;\n            return it->second;\n        }\n    }"),
 ("m01-hash-case", "C01", SP, "        c = std::tolower(c, locale);\n", "        c = (c & 0x20) ? c : std::tolower(c, locale);\n        if (str.size() > 24) c = str[str.size()-1];\n"),
 ("m01-size", "C01", SP, "    return idForString_.size();", "    return storedStrings_.size();"),
 ("m02-get-nolock", "C02", SP, "    std::shared_lock stringStoreReadAccess_(stringStoreMutex_);\n    auto it = idForString_.find(str);", "    auto it = idForString_.find(str);"),
 ("m02-resolve-nolock", "C02", SP, "    std::shared_lock stringStoreReadAccess_(stringStoreMutex_);\n    auto it = stringForId_.find(id);", "    auto it = stringForId_.find(id);"),
 ("m02-size-nolock", "C02", SP, "    std::shared_lock stringStoreReadAccess_(stringStoreMutex_);\n    return idForString_.size();", "    return idForString_.size();"),
 ("m02-write-relock", "C02", SP, "    const StringId high = nextId_ - 1; // Note: highest() would lock again.", "    const StringId high = highest();"),
 ("m02-read-shared", "C02", SP, "    std::unique_lock stringStoreWriteAccess_(stringStoreMutex_);\n    bitsery::Des", "    std::shared_lock stringStoreWriteAccess_(stringStoreMutex_);\n    bitsery::Des"),
 ("m02-eq-order", "C02", SP, """    std::shared_lock lockThis(stringStoreMutex_, std::defer_lock);
    std::shared_lock lockOther(other.stringStoreMutex_, std::defer_lock);
    std::lock(lockThis, lockOther);
""", """    std::shared_lock lockThis(stringStoreMutex_);
    std::shared_lock lockOther(other.stringStoreMutex_);
"""),
 ("m02-vector-store", "C02", "include/simfil/model/string-pool.h", "std::deque<std::string> storedStrings_;", "std::vector<std::string> storedStrings_;"),
 ("m03-write-unlock", "C03", SP, "    s.value2b(sendStrCount);\n", "    s.value2b(sendStrCount);\n    stringStoreReadAccess.unlock();\n    stringStoreReadAccess.lock();\n"),
 ("m03-high-twice", "C03", SP, "    s.value2b(sendStrCount);\n\n    // Send the pool's key-string pairs\n    for (auto strId = offset; strId <= high; ++strId) {", "    s.value2b(sendStrCount);\n    stringStoreReadAccess.unlock();\n\n    // Send the pool's key-string pairs\n    for (auto strId = offset; strId <= highest(); ++strId) {\n        std::shared_lock again(stringStoreMutex_);"),
 ("m03-copy-nextid", "C03", SP, "    nextId_ = other.nextId_;\n", "    nextId_ = FirstDynamicId + (StringId)(storedStrings_.size() - NextStaticId);\n"),
 ("m03-copy-bytes", "C03", SP, "    byteSize_ = other.byteSize_.load();\n", ""),
 ("m04-offset-excl", "C04", SP, "    // Send the pool's key-string pairs\n    for (auto strId = offset; strId <= high; ++strId) {", "    // Send the pool's key-string pairs\n    for (auto strId = offset; strId < high || strId == offset; ++strId) {"),
 ("m04-next-last", "C04", SP, "            nextId_ = std::max<StringId>(nextId_, stringId + 1);", "            nextId_ = stringId + 1;"),
 ("m04-next-none", "C04", SP, "            nextId_ = std::max<StringId>(nextId_, stringId + 1);", "            nextId_ = std::max<StringId>(nextId_, stringId);"),
 ("m04-seq-ids", "C04", SP, "            insert(stringValue, stringId);", "            insert(stringValue, stringId < FirstDynamicId ? stringId : nextId_);"),
 ("m05-err-ignored", "C05", SP, "        if (s.adapter().error() != bitsery::ReaderError::NoError)\n            break;\n\n        // Insert", "        // Insert"),
 ("m05-id-first", "C05", SP, "        StringId id = nextId_;\n        insert(str, id);\n        ++nextId_;", "        StringId id = nextId_++;\n        insert(str, id);"),
 ("m05-max", "C05", SP, "if (nextId_ == std::numeric_limits<StringId>::max())", "if (nextId_ > std::numeric_limits<StringId>::max() - 1 && false)"),
 ("m05-rb-missing", "C05", SP, "        if (insertionTookPlace)\n            idForString_.erase(it);\n        storedStrings_.pop_back();\n        throw;", "        throw;"),
 ("m05-noraise", "C05", SP, "    if (s.adapter().error() != bitsery::ReaderError::NoError) {\n        raise", "    if (s.adapter().error() != bitsery::ReaderError::NoError && rcvStringCount == 0) {\n        raise"),
 ("m06-i64-4", "C06", "include/simfil/model/bitsery-traits.h", "void serialize(S& s, int64_t& v)\n{\n    s.value8b(v);", "void serialize(S& s, int64_t& v)\n{\n    int32_t w = (int32_t)v; s.value4b(w); v = w;"),
 ("m06-noerr", "C06", M, "    if (s.adapter().error() != bitsery::ReaderError::NoError) {\n        raise", "    if (s.adapter().error() == bitsery::ReaderError::InvalidData) {\n        raise"),
 ("m06-doubles", "C06", M, "        s.container(columns_.double_, maxColumnSize);", "        if (columns_.double_.empty() || columns_.i64_.size() != 7) s.container(columns_.double_, maxColumnSize);"),
 ("m06-strlen", "C06", M, "        s.text1b(columns_.stringData_, maxColumnSize);", "        s.text1b(columns_.stringData_, 512);"),
 ("m06-arr-cap", "C06", "include/simfil/model/bitsery-traits.h", "            auto arrayIndex = arena.new_array(size);", "            auto arrayIndex = arena.new_array(std::min<size_t>(size, 4));"),
 ("m07-size-check", "C07", M, "            if ((i < 0) || (i >= arena.size())) {" if False else "        if ((i < 0) || (i >= arena.size())) {", "        if ((i < 0) || (i > arena.size())) {"),
 ("m07-idx", "C07", M, "        if (idx >= vec.size())\n", "        if (idx > vec.size())\n"),
 ("m07-noroots", "C07", M, "    for (auto i = 0; i < numRoots(); ++i)\n        validateModelNode(root(i));", "    for (auto i = 1; i < numRoots(); ++i)\n        validateModelNode(root(i));"),
 ("m07-noname", "C07", M, "                    validateFieldName(fieldName);\n", ""),
 ("m07-badcol", "C07", M, "            raise<std::runtime_error>(fmt::format(\"Bad column reference: col={}\", (uint16_t)n.addr_.column()));", "            cb(ModelNodeBase(shared_from_this()));"),
 ("m08-str-order", "C08", M, """    impl_->columns_.strings_.emplace_back(Impl::StringRange{
        (uint32_t)impl_->columns_.stringData_.size(),
        (uint32_t)value.size()
    });
    impl_->columns_.stringData_ += value;""", """    impl_->columns_.stringData_ += value;
    impl_->columns_.strings_.emplace_back(Impl::StringRange{
        impl_->columns_.strings_.empty() ? 0u : impl_->columns_.strings_.back().offset_ + impl_->columns_.strings_.back().length_,
        (uint32_t)value.size()
    });"""),
 ("m08-field-order", "C08", N, "    auto fieldId = model().strings()->emplace(name);\n    storage_->emplace_back(members_, fieldId, model().newValue(value)->addr());\n    return *this;\n}\n\nObject& Object::extend", "    auto& member = storage_->emplace_back(members_, model().strings()->emplace(name), ModelNodeAddress{});\n    member.node_ = model().newValue(value)->addr();\n    return *this;\n}\n\nObject& Object::extend"),
 ("m08-extend-self", "C08", N, "    auto otherSize = other->size();\n    for (auto i = 0u; i < otherSize; ++i) {\n        storage_->push_back(members_, storage_->at(other->members_, i));\n    }\n    return *this;\n}\n\n}", "    for (auto i = 0u; i < other->size(); ++i) {\n        storage_->push_back(members_, storage_->at(other->members_, i));\n    }\n    return *this;\n}\n\n}"),
 ("m08-cap-first", "C08", A, "        size_t newCapacity = std::max((SizeType_)2, (SizeType_)last.capacity * 2);\n        data_.resize(offset + newCapacity);\n        if (head.capacity == 0) {\n            head.offset = (SizeType_)offset;\n            head.capacity = static_cast<SizeType_>(newCapacity);\n            return head;\n        }", "        size_t newCapacity = std::max((SizeType_)2, (SizeType_)last.capacity * 2);\n        if (head.capacity == 0) {\n            head.offset = (SizeType_)offset;\n            head.capacity = static_cast<SizeType_>(newCapacity);\n            data_.resize(offset + newCapacity);\n            return head;\n        }\n        data_.resize(offset + newCapacity);"),
 ("m09-early", "C09", M, "    // Translate object field IDs to the new dictionary.\n    impl_->strings_ = strings;\n", "    // Translate object field IDs to the new dictionary.\n"),
 ("m09-eq-ids", "C09", SP, "    return idForString_ == other.idForString_;", "    return idForString_.size() == other.idForString_.size();"),
 ("m10-noval", "C10", J, "void parse(std::istream& input, ModelPoolPtr const& model)\n{\n    auto root = build(json::parse(input), *model);\n    model->validate();", "void parse(std::istream& input, ModelPoolPtr const& model)\n{\n    auto root = build(json::parse(input, nullptr, false), *model);\n    model->validate();"),
 ("m11-nonatomic", "C11", S, "    mutable std::atomic<StringId> nameId_ = {};", "    struct Cell { StringId v = {}; StringId load(std::memory_order) const { return v; } void store(StringId x, std::memory_order) { v = x; } };\n    mutable Cell nameId_;"),
 ("m11-static-count", "C11", F, "    int64_t count = 0;\n\n    for (const auto& arg : args) {", "    static int64_t count;\n    count = 0;\n\n    for (const auto& arg : args) {"),
 ("m11-strings-empty", "C11", S, "        if (!nameId)\n            /* If", "        if (!nameId || nameId > 4000)\n            /* If"),
 ("m12-static-parser", "C12", S, "    Parser p(&env, sv);\n", "    static std::vector<std::string> texts;\n    texts.emplace_back(sv);\n    std::string text = texts.back();\n    texts.pop_back();\n    Parser p(&env, text);\n"),
 ("m13-warn-nolock", "C13", E_, "    std::unique_lock<std::mutex> _(*warnMtx);\n", ""),
 ("m13-warn-lock2", "C13", E_, "    std::unique_lock<std::mutex> _(*warnMtx);\n", "    std::unique_lock<std::mutex> _(*traceMtx);\n"),
 ("m13-trace-nolock", "C13", E_, "    std::unique_lock<std::mutex> _(*traceMtx);\n    fn(traces[name]);", "    Trace* t;\n    {\n        std::unique_lock<std::mutex> _(*traceMtx);\n        t = &traces[name];\n    }\n    fn(*t);"),
 ("m13-limit", "C13", F, "        if (ilimit >= 0 && (int)t.values.size() > ilimit)\n            t.values.resize(ilimit, Value::undef());", "        (void)0;"),
 ("m13-ms", "C13", F, "        t.totalus += std::chrono::duration_cast<std::chrono::microseconds>(duration);", "        t.totalus += std::chrono::duration_cast<std::chrono::milliseconds>(duration);"),
 ("m13-calls-set", "C13", F, "        t.calls += 1;", "        t.calls += values.empty() ? 0 : 1;"),
 ("m13-sv", "C13", F, "            if (auto sv = vv.stringViewValue())\n                copy = Value::make(std::string(*sv));\n", ""),
 ("m14-arr-nostop", "C14", F, "            return res(ctx, std::move(vv));\n        })) == Result::Stop)\n            return Result::Stop;\n    }", "            return res(ctx, std::move(vv));\n        })) == Result::Stop)\n            break;\n    }"),
 ("m14-multiconst", "C14", S, "            if (res(ctx, v) == Result::Stop)\n                return Result::Stop;\n        }\n\n        return Result::Continue;\n    }\n\n    auto toString() const -> std::string override\n    {\n        auto list", "            (void)res(ctx, v);\n        }\n\n        return Result::Continue;\n    }\n\n    auto toString() const -> std::string override\n    {\n        auto list"),
 ("m14-wild", "C14", S, "                    if (iterate(subNode, depth + 1) == Result::Stop) {\n                        result = Result::Stop;\n                        return false;", "                    if (iterate(subNode, depth + 1) == Result::Stop) {\n                        result = depth > 1 ? Result::Continue : Result::Stop;\n                        return false;"),
 ("m14-sub", "C14", S, "                if (bv.isa(ValueType::Bool) && bv.template as<ValueType::Bool>())\n                    return res(ctx, lv);\n\n                return Result::Continue;", "                if (bv.isa(ValueType::Bool) && bv.template as<ValueType::Bool>())\n                    res(ctx, lv);\n\n                return Result::Continue;"),
 ("m14-keys", "C14", F, "                    if (res(ctx, Value::make(std::string(*key))) == Result::Stop)\n                        return Result::Stop;", "                    if (res(ctx, Value::make(std::string(*key))) == Result::Stop)\n                        break;"),
 ("m14-iter", "C14", NI, "    auto cont = true;\n    auto resolveAndCb = Model::Lambda([&cb, &cont](auto&& node) { cont = cb(node); });\n    storage_->iterate(\n        members_,\n        [&, this](auto&& member)\n        {\n            (*model_).resolve(*ModelNode::Ptr::make(model_, member.node_), resolveAndCb);\n            return cont;\n        });\n    return cont;", "    auto cont = true;\n    auto resolveAndCb = Model::Lambda([&cb, &cont](auto&& node) { cont = cb(node); });\n    storage_->iterate(\n        members_,\n        [&, this](auto&& member)\n        {\n            (*model_).resolve(*ModelNode::Ptr::make(model_, member.node_), resolveAndCb);\n        });\n    return cont;"),
 ("m15-anyval", "C15", S, "        auto anyval = false;\n        auto result = fn->eval(", "        auto anyval = false;\n        static thread_local int depth = 0;\n        if (depth > 3) return res(ctx, Value::null());\n        ++depth;\n        auto result = fn->eval("),
 ("m15-deinit", "C15", T, "    TransientObject(TransientObject&& other) noexcept\n        : meta(std::move(other.meta))\n        , data(std::move(other.data))\n    {\n        other.meta = nullptr;\n        other.data = nullptr;\n    }", "    TransientObject(TransientObject&& other) noexcept\n        : meta(std::move(other.meta))\n        , data(std::move(other.data))\n    {\n        other.meta = nullptr;\n    }"),
 ("m16-static-msg", "C16", "include/simfil/exception-handler.h", "        std::string errorMessage;", "        static std::string errorMessage;"),
 ("m16-nothrow", "C16", "include/simfil/exception-handler.h", "        std::string typeName = typeid(ExceptionType).name();", "        static std::string typeName = typeid(std::exception).name();"),
 ("m16-plain-throw", "C16", F, "        raise<std::runtime_error>(\"sum: Expected", "        throw std::runtime_error(\"sum: Expected"),
 ("m16-twice", "C16", "include/simfil/exception-handler.h", "        excHandler(typeName, errorMessage);", "        excHandler(typeName, errorMessage);\n        if (errorMessage.size() > 60) excHandler(typeName, errorMessage);"),
 ("m17-push-nolock", "C17", A, "        Chunk& updatedLast = ensure_capacity_and_get_last_chunk(a);\n        #ifdef ARRAY_ARENA_THREAD_SAFE\n        std::shared_lock guard(lock_);\n        #endif\n        auto& elem = data_[updatedLast.offset + updatedLast.size];\n        elem = data;", "        Chunk& updatedLast = ensure_capacity_and_get_last_chunk(a);\n        auto& elem = data_[updatedLast.offset + updatedLast.size];\n        elem = data;"),
 ("m17-new-shared", "C17", A, "        std::unique_lock guard(lock_);\n        #endif\n        size_t offset = data_.size();\n        data_.resize(offset + initialCapacity);", "        std::shared_lock guard(lock_);\n        #endif\n        size_t offset = data_.size();\n        data_.resize(offset + initialCapacity);"),
 ("m17-offset", "C17", A, "        read_guard.unlock();\n        std::unique_lock guard(lock_);\n        #endif\n        size_t offset = data_.size();", "        size_t offset = data_.size();\n        read_guard.unlock();\n        std::unique_lock guard(lock_);\n        #else\n        size_t offset = data_.size();\n        #endif"),
 ("m17-size-nolock", "C17", A, "        std::shared_lock guard(lock_);\n        #endif\n        return heads_[a].size;", "        #endif\n        return heads_[a].size;"),
 ("m18-size-first", "C18", A, "        elem = data;\n        ++heads_[a].size;", "        ++heads_[a].size;\n        elem = data;"),
 ("m18-link-first", "C18", A, "        continuations_.push_back({(SizeType_)offset, (SizeType_)newCapacity, 0, InvalidArrayIndex, InvalidArrayIndex});\n        last.next = newIndex;\n        head.last = newIndex;", "        last.next = newIndex;\n        head.last = newIndex;\n        continuations_.push_back({(SizeType_)offset, (SizeType_)newCapacity, 0, InvalidArrayIndex, InvalidArrayIndex});"),
 ("m18-iter-cap", "C18", A, "i < current->size && i < current->capacity; ++i)", "i < current->size; ++i)"),
 ("m18-at", "C18", A, "            if (remaining < current->capacity && remaining < current->size)", "            if (remaining < current->capacity)"),
 ("m19-rawmodel", "C19", NI, "    return ModelNode::Ptr::make(model_, storage_->at(members_, i));", "    return ModelNode::Ptr::make(ModelConstPtr(ModelConstPtr(), model_.get()), storage_->at(members_, i));"),
 ("m19-overlay", "C19", O, "        if (iter->second.node)\n            return iter->second.node;\n        return ValueNode(iter->second.getScalar());", "        if (iter->second.node)\n            return iter->second.node;\n        return ValueNode(iter->second.getScalar(), model_);"),
 ("m20-relaxed-idx", "C20", R, "    auto idx = std::atomic_size_t(0);", "    volatile size_t idx = 0;"),
 ("m20-order", "C20", R, "result[next] = simfil::eval(env, expr, *model->root(next));", "{ auto v = simfil::eval(env, expr, *model->root(next)); auto& r = result[n_threads > 3 ? i : next]; r.insert(r.end(), v.begin(), v.end()); }"),
 ("m20-nojoin", "C20", R, "    for (auto& thread : threads)\n        if (thread.joinable())\n            thread.join();", "    for (size_t i = 0; i + 1 < threads.size(); ++i)\n        threads[i].join();\n    while (idx < model->numRoots()) std::this_thread::yield();\n    threads.back().detach();"),
 ("m21-static-cache", "C21", N, "    auto fieldId = model().strings()->emplace(fieldName);\n    return get(fieldId);", "    static StringId fieldId; fieldId = model().strings()->emplace(fieldName);\n    return get(fieldId);"),
 ("m21-json-static", "C21", J, "void parse(std::istream& input, ModelPoolPtr const& model)\n{\n    auto root = build(json::parse(input), *model);", "void parse(std::istream& input, ModelPoolPtr const& model)\n{\n    static json doc;\n    doc = json::parse(input);\n    auto root = build(doc, *model);"),
]
