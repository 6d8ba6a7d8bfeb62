#!/usr/bin/env python3
"""Edits that keep the behaviour: every check must stay quiet on them. mut/refactor.py [BATCH...] [--time=S] [--checks=C01,..]"""
import os, shutil, subprocess, sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / "bin"))
SP="src/model/string-pool.cpp"; SPH="include/simfil/model/string-pool.h"; M="src/model/model.cpp"; N="src/model/nodes.cpp"; NI="include/simfil/model/nodes.impl.h"
NH="include/simfil/model/nodes.h"; A="include/simfil/model/arena.h"; F="src/function.cpp"; S="src/simfil.cpp"; E_="src/environment.cpp"; J="src/model/json.cpp"
T="include/simfil/transient.h"; TY="src/types.cpp"; BT="include/simfil/model/bitsery-traits.h"; X="include/simfil/exception-handler.h"
P="src/parser.cpp"; O="src/overlay.cpp"; R="repl/repl.cpp"; XC="src/exception-handler.cpp"; EH="include/simfil/environment.h"
B = {
"pool": [
 (SP, """    {
        std::shared_lock lock(stringStoreMutex_);
        auto it = idForString_.find(str);
        if (it != idForString_.end()) {
            ++cacheHits_;
            return it->second;
        }
    }
    {
        std::unique_lock lock(stringStoreMutex_);
        // Double-check in case another thread added the string.
        auto it = idForString_.find(str);
        if (it != idForString_.end()) {
            ++cacheHits_;
            return it->second;
        }
""", """    auto known = [&]() -> std::optional<StringId> {
        if (auto it = idForString_.find(str); it != idForString_.end()) {
            cacheHits_.fetch_add(1, std::memory_order_relaxed);
            return it->second;
        }
        return {};
    };
    if (std::shared_lock lock(stringStoreMutex_); auto id = known())
        return *id;
    {
        std::lock_guard lock(stringStoreMutex_);
        // Double-check in case another thread added the string.
        if (auto id = known())
            return *id;
"""),
 (SP, "        StringId id = nextId_;\n        insert(str, id);\n        ++nextId_;\n        byteSize_ += static_cast<int64_t>(str.size());\n        ++cacheMisses_;\n\n        return id;", "        const auto id = nextId_;\n        insert(str, id);\n        nextId_ = static_cast<StringId>(id + 1);\n        cacheMisses_.fetch_add(1, std::memory_order_relaxed);\n        byteSize_.fetch_add(static_cast<int64_t>(str.size()), std::memory_order_relaxed);\n        return id;"),
 (SP, """    StringId sendStrCount = 0;
    const StringId high = nextId_ - 1; // Note: highest() would lock again.
    for (auto strId = offset; strId <= high; ++strId) {
        auto it = stringForId_.find(strId);
        if (it != stringForId_.end())
            ++sendStrCount;
    }
    s.value2b(sendStrCount);
""", """    std::vector<std::pair<StringId, std::string_view>> sendStrings;
    sendStrings.reserve(stringForId_.size());
    for (auto const& entry : stringForId_)
        if (entry.first >= offset && entry.first < nextId_)
            sendStrings.emplace_back(entry.first, entry.second);
    std::sort(sendStrings.begin(), sendStrings.end(), [](auto& l, auto& r) { return l.first < r.first; });
    s.value2b(static_cast<StringId>(sendStrings.size()));
"""),
 (SP, """    for (auto strId = offset; strId <= high; ++strId) {
        auto it = stringForId_.find(strId);
        if (it != stringForId_.end()) {
            s.value2b(strId);
            // Don't support strings longer than 64kB.
            s.text1b(it->second, std::numeric_limits<uint16_t>::max());
        }
    }""", """    for (auto& [strId, str] : sendStrings) {
        s.value2b(strId);
        // Don't support strings longer than 64kB.
        s.text1b(str, std::numeric_limits<uint16_t>::max());
    }"""),
 (SP, "    return idForString_.size();", "    return storedStrings_.size();"),
 (SP, "    std::unique_lock lockThis(stringStoreMutex_, std::defer_lock);\n    std::shared_lock lockOther(other.stringStoreMutex_, std::defer_lock);\n    std::lock(lockThis, lockOther);\n\n    // Copy", "    // Nobody else knows the new pool yet.\n    std::shared_lock lockOther(other.stringStoreMutex_);\n\n    // Copy"),
 (SP, "#include <locale>\n", "#include <locale>\n#include <vector>\n"),
 (SP, "    if (it != stringForId_.end())\n        return it->second;\n    return std::nullopt;", "    return it == stringForId_.end() ? std::optional<std::string_view>{} : it->second;"),
],
"pool2": [  # an exclusive mutex only, nodes in a list
 (SPH, "    mutable std::shared_mutex stringStoreMutex_;", "    mutable std::mutex stringStoreMutex_;"),
 (SPH, "#include <shared_mutex>\n", "#include <shared_mutex>\n#include <mutex>\n#include <map>\n"),
 (SPH, "    std::unordered_map<StringId, std::string_view> stringForId_;", "    std::map<StringId, std::string_view> stringForId_;"),
 (SP, "std::shared_lock", "std::unique_lock"),
 (SPH, "    std::atomic_int64_t byteSize_{0};\n    std::atomic_int64_t cacheHits_{0};", "    std::atomic_int64_t cacheHits_{0};\n    std::atomic_int64_t byteSize_{0};"),
],
"pool3": [  # written after the lock is released
 (SP, """    std::shared_lock stringStoreReadAccess(stringStoreMutex_);
    bitsery::Serializer<bitsery::OutputStreamAdapter> s(outputStream);

    // Calculate how many strings will be sent
    StringId sendStrCount = 0;
    const StringId high = nextId_ - 1; // Note: highest() would lock again.
    for (auto strId = offset; strId <= high; ++strId) {
        auto it = stringForId_.find(strId);
        if (it != stringForId_.end())
            ++sendStrCount;
    }
    s.value2b(sendStrCount);

    // Send the pool's key-string pairs
    for (auto strId = offset; strId <= high; ++strId) {
        auto it = stringForId_.find(strId);
        if (it != stringForId_.end()) {
            s.value2b(strId);
            // Don't support strings longer than 64kB.
            s.text1b(it->second, std::numeric_limits<uint16_t>::max());
        }
    }""", """    // Views of stored strings stay valid, they are never removed.
    std::map<StringId, std::string_view> snapshot;
    {
        std::shared_lock stringStoreReadAccess(stringStoreMutex_);
        for (auto const& entry : stringForId_)
            if (entry.first >= offset)
                snapshot.insert(entry);
    }

    bitsery::Serializer<bitsery::OutputStreamAdapter> s(outputStream);
    s.value2b(static_cast<StringId>(snapshot.size()));
    for (auto const& [strId, str] : snapshot) {
        s.value2b(strId);
        s.text1b(str, std::numeric_limits<uint16_t>::max());
    }"""),
 (SP, "#include <locale>\n", "#include <locale>\n#include <map>\n"),
 (M, "            if (newIds.find(member.name_) != newIds.end())\n", "            if (member.name_ < StringPool::FirstDynamicId || newIds.count(member.name_))\n"),
],
"model": [
 (M, """    impl_->columns_.strings_.emplace_back(Impl::StringRange{
        (uint32_t)impl_->columns_.stringData_.size(),
        (uint32_t)value.size()
    });
    impl_->columns_.stringData_ += value;
    return""", """    auto [text, ranges] = std::tie(impl_->columns_.stringData_, impl_->columns_.strings_);
    const auto offset = (uint32_t)text.size();
    text.append(value);
    ranges.push_back(Impl::StringRange{offset, (uint32_t)value.size()});
    return"""),
 (M, """    std::unordered_map<StringId, StringId> newIds;
    for (auto memberArray : impl_->columns_.objectMemberArrays_) {
        for (auto& member : memberArray) {
            if (newIds.find(member.name_) != newIds.end())
                continue;
            auto resolvedName = oldStrings->resolve(member.name_);
            if (!resolvedName)
                // The same ID may have another meaning in the new dictionary.
                raise<std::runtime_error>(fmt::format(
                    "Cannot translate the unknown string ID {}.", member.name_));
            newIds.emplace(member.name_, strings->emplace(*resolvedName));
        }
    }
""", """    std::map<StringId, StringId> newIds;
    for (auto memberArray : impl_->columns_.objectMemberArrays_)
        for (auto& member : memberArray)
            newIds.try_emplace(member.name_, member.name_);
    for (auto& [oldId, newId] : newIds) {
        if (auto resolvedName = oldStrings->resolve(oldId))
            newId = strings->emplace(*resolvedName);
        else
            raise<std::runtime_error>(fmt::format("Cannot translate the unknown string ID {}.", oldId));
    }
"""),
 (M, "#include <unordered_map>\n", "#include <unordered_map>\n#include <map>\n#include <tuple>\n"),
 (M, """    // Validate objects
    for (auto i = 0; i < impl_->columns_.objectMemberArrays_.size(); ++i)
        validateModelNode(ModelNode::Ptr::make(shared_from_this(), ModelNodeAddress{Objects, (uint32_t)i}));

    // Validate arrays
    for (auto i = 0; i < impl_->columns_.arrayMemberArrays_.size(); ++i)
        validateModelNode(ModelNode::Ptr::make(shared_from_this(), ModelNodeAddress{Arrays, (uint32_t)i}));

    // Validate roots
    for (auto i = 0; i < numRoots(); ++i)
        validateModelNode(root(i));
""", """    auto validateContainers = [&](auto column, size_t count) {
        for (size_t i = 0; i < count; ++i)
            validateModelNode(ModelNode::Ptr::make(shared_from_this(), ModelNodeAddress{static_cast<uint8_t>(column), (uint32_t)i}));
    };

    // Validate roots
    for (size_t i = 0, n = numRoots(); i < n; ++i)
        validateModelNode(root(i));

    validateContainers(Arrays, impl_->columns_.arrayMemberArrays_.size());
    validateContainers(Objects, impl_->columns_.objectMemberArrays_.size());
"""),
 (M, "    clear_and_shrink(columns.roots_);\n    clear_and_shrink(columns.i64_);\n    clear_and_shrink(columns.double_);\n    clear_and_shrink(columns.strings_);\n    clear_and_shrink(columns.stringData_);\n    clear_and_shrink(columns.objectMemberArrays_);\n    clear_and_shrink(columns.arrayMemberArrays_);\n", "    clear_and_shrink(columns.objectMemberArrays_);\n    clear_and_shrink(columns.arrayMemberArrays_);\n    clear_and_shrink(columns.stringData_);\n    clear_and_shrink(columns.strings_);\n    clear_and_shrink(columns.double_);\n    clear_and_shrink(columns.i64_);\n    clear_and_shrink(columns.roots_);\n"),
 (NI, """    ModelNode::Ptr result;
    storage_->iterate(
        members_,
        [&field, &result, this](auto&& member)
        {
            if (member.name_ == field) {
                result = ModelNode::Ptr::make(model_, member.node_);
                return false;
            }
            return true;
        });
    return result;""", """    for (auto&& member : storage_->range(members_))
        if (member.name_ == field)
            return ModelNode::Ptr::make(model_, member.node_);
    return {};"""),
 (NI, """    auto cont = true;
    auto resolveAndCb = Model::Lambda([&cb, &cont](auto&& node) { cont = cb(node); });
    storage_->iterate(
        members_,
        [&, this](auto&& member)
        {
            (*model_).resolve(*ModelNode::Ptr::make(model_, member), resolveAndCb);
            return cont;
        });
    return cont;""", """    for (int64_t i = 0; i < (int64_t)size(); ++i) {
        auto cont = true;
        auto child = at(i);
        model_->resolve(*child, Model::Lambda([&](auto&& node) { cont = cb(node); }));
        if (!cont)
            return false;
    }
    return true;"""),
 (N, "    auto otherSize = other->size();\n    for (auto i = 0u; i < otherSize; ++i) {\n        storage_->push_back(members_, storage_->at(other->members_, i));\n    }\n    return *this;\n}\n\n/** Model Node impls for an object", "    const size_t count = other->size();\n    size_t i = 0;\n    while (i != count) {\n        const auto copied = storage_->at(other->members_, i++);\n        storage_->emplace_back(members_, copied);\n    }\n    return *this;\n}\n\n/** Model Node impls for an object"),
 (J, """    auto root = build(json::parse(input), *model);
    model->validate();
    // Added last, so that a failed parse does not leave a root behind.
    model->addRoot(root);
}

void parse(const std""", """    const auto document = json::parse(input);
    auto root = build(document, *model);
    model->validate();
    model->addRoot(root);
}

void parse(const std"""),
 (N, "    else if (type() == ValueType::Array) {\n        auto j = nlohmann::json::array();\n        for (const auto& i : *this) {\n            j.push_back(i->toJson());\n        }\n        return j;", "    else if (type() == ValueType::Array) {\n        std::vector<nlohmann::json> elements;\n        elements.reserve(size());\n        for (auto i = 0u, n = size(); i < n; ++i)\n            elements.push_back(at(i)->toJson());\n        return nlohmann::json(std::move(elements));"),
 (O, "    auto iter = model().overlayChildren_.find(key);\n    if (iter != model().overlayChildren_.end()) {\n        if (iter->second.node)\n            return iter->second.node;\n        return ValueNode(iter->second.getScalar());\n    }", "    auto& children = model().overlayChildren_;\n    if (auto iter = children.find(key); iter != children.end())\n        return iter->second.node ? iter->second.node : ModelNode::Ptr(ValueNode(iter->second.getScalar()));"),
 (BT, "            for (size_t j = 0; j < size; ++j)\n                fnc(s, const_cast<ElementType&>(arena.at(i, j)));", "            for (auto it = arena.begin(i), e = arena.end(i); it != e; ++it)\n                fnc(s, const_cast<ElementType&>(*it));"),
],
"query": [
 (S, """        struct Iterate
        {
            Context& ctx;
            ResultFn& res;

            auto iterate(ModelNode const& val, int depth)
            {
                if (val.type() == ValueType::Null)
                    return Result::Continue;

                if (res(ctx, Value::field(val)) == Result::Stop)
                    return Result::Stop;

                auto result = Result::Continue;
                val.iterate(ModelNode::IterLambda([&, this](auto&& subNode) {
                    if (iterate(subNode, depth + 1) == Result::Stop) {
                        result = Result::Stop;
                        return false;
                    }
                    return true;
                }));

                return result;
            };
        };

        auto r = Iterate{ctx, res}.iterate(*val.node, 0);
        return res.ensureCall(r);""", """        std::function<Result(ModelNode const&)> visit = [&](ModelNode const& node) {
            if (node.type() == ValueType::Null)
                return Result::Continue;
            if (res(ctx, Value::field(node)) == Result::Stop)
                return Result::Stop;
            const auto all = node.iterate(ModelNode::IterLambda([&](auto&& subNode) { return visit(subNode) == Result::Continue; }));
            return all ? Result::Continue : Result::Stop;
        };

        return res.ensureCall(visit(*val.node));"""),
 (S, """        auto nameId = nameId_.load(std::memory_order_relaxed);
        if (!nameId) {
            nameId = ctx.env->strings()->get(name_);
            nameId_.store(nameId, std::memory_order_relaxed);
        }
""", """        const auto nameId = ctx.env->strings()->get(name_);
"""),
 (S, """        auto fn = fn_.load(std::memory_order_relaxed);
        if (!fn) {
            fn = ctx.env->findFunction(name_);
            fn_.store(fn, std::memory_order_relaxed);
        }
""", """        const auto* fn = ctx.env->findFunction(name_);
"""),
 (S, """                auto r = Result::Continue;
                obj.meta->unpack(obj, [&](Value vv) {
                    anyval = true;
                    r = res(ctx, std::move(vv));
                    return r == Result::Continue;
                });

                if (r == Result::Stop)
                    return Result::Stop;
            } else {
                anyval = true;
                if (res(ctx, std::move(v)) == Result::Stop)
                    return Result::Stop;
            }
            return Result::Continue;""", """                auto stopped = false;
                obj.meta->unpack(obj, [&](Value vv) {
                    anyval = true;
                    stopped = res(ctx, std::move(vv)) == Result::Stop;
                    return !stopped;
                });
                return stopped ? Result::Stop : Result::Continue;
            }
            anyval = true;
            return res(ctx, std::move(v));"""),
 (S, "        auto result = Result::Continue;\n        val.node->iterate(ModelNode::IterLambda([&](auto&& subNode) {\n            if (res(ctx, Value::field(std::move(subNode))) == Result::Stop) {\n                result = Result::Stop;\n                return false;\n            }\n            return true;\n        }));\n\n        return result;", "        for (auto child : *val.node) {\n            ModelNode const& node = *child;\n            if (res(ctx, Value::field(node)) == Result::Stop)\n                return Result::Stop;\n        }\n\n        return Result::Continue;"),
 (S, """    Parser p(&env, sv);

    /* Scalars */
    p.prefixParsers[Token::C_TRUE]""", """    Parser p(&env, sv);
    p.prefixParsers.reserve(32);
    p.infixParsers.reserve(64);
    static const std::string kAny = "any is the function around queries whose caller wants a single result";

    /* Scalars */
    p.prefixParsers[Token::C_TRUE]"""),
 (S, 'std::make_unique<CallExpression>("any"s, std::move(args))', 'std::make_unique<CallExpression>(kAny.substr(0, 3), std::move(args))'),
 (F, """            if (vv.isa(ValueType::Undef)) {
                anyUndef = true;
                outValue = std::move(vv);
                return Result::Continue;
            }

            if (!vv.isa(type))
                raise<std::runtime_error>(fname + ": invalid value type for argument '"s + name + "'"s);

            outValue = std::move(vv);

            return Result::Continue;
        }));

        ++idx;
        return *this;
    }
""", """            const auto isUndef = vv.isa(ValueType::Undef);
            if (!isUndef && !vv.isa(type))
                raise<std::runtime_error>(fname + ": invalid value type for argument '"s + name + "'"s);

            anyUndef = anyUndef || isUndef;
            outValue = std::move(vv);
            return Result::Continue;
        }));

        idx += 1;
        return *this;
    }
"""),
 (F, """    for (const auto& arg : args) {
        if (arg->eval(ctx, val, LambdaResultFn([&res](Context ctx, Value vv) {
            return res(ctx, std::move(vv));
        })) == Result::Stop)
            return Result::Stop;
    }

    return Result::Continue;""", """    const auto stopped = std::any_of(args.begin(), args.end(), [&](const auto& arg) {
        return arg->eval(ctx, val, res) == Result::Stop;
    });
    return stopped ? Result::Stop : Result::Continue;"""),
 (F, "#include <iostream>\n", "#include <iostream>\n#include <algorithm>\n"),
 (F, """        t.totalus += std::chrono::duration_cast<std::chrono::microseconds>(duration);
        t.calls += 1;
        if""", """        ++t.calls;
        const auto us = std::chrono::duration_cast<std::chrono::microseconds>(duration);
        t.totalus = t.totalus + us;
        if"""),
 (E_, "    std::unique_lock<std::mutex> _(*warnMtx);\n    warnings.emplace_back(std::move(message), std::move(detail));", "    std::pair<std::string, std::string> entry{std::move(message), std::move(detail)};\n    const std::scoped_lock guard(*warnMtx);\n    warnings.push_back(std::move(entry));"),
 (E_, "    std::unique_lock<std::mutex> _(*traceMtx);\n    fn(traces[name]);", "    const std::lock_guard<std::mutex> guard(*traceMtx);\n    auto [entry, isNew] = traces.try_emplace(name);\n    fn(entry->second);"),
 (P, "    auto left = parser->parse(*this, token);\n    return parseInfix(std::move(left), precedence);", "    return parseInfix(parser->parse(*this, std::move(token)), precedence);"),
 (TY, "    re->str = expr;\n    re->re = std::regex(std::string(expr));", "    re->str.assign(expr.begin(), expr.end());\n    std::regex compiled(re->str);\n    re->re = std::move(compiled);"),
 (T, "        TransientObject copy(other);\n        swap(copy);\n        return *this;", "        if (this != &other)\n            TransientObject(other).swap(*this);\n        return *this;"),
 (S, "    std::deque<Value> values;\n    auto stub", "    std::vector<Value> values;\n    auto stub"),
],
"rest": [
 (A, """        typename Self::Chunk const* current = &self.heads_[a];
        size_t remaining = i;
        while (true) {
            if (remaining < current->capacity && remaining < current->size)
                return self.data_[current->offset + remaining];
            if (current->next == InvalidArrayIndex)
                raise<std::out_of_range>("Index out of range");
            remaining -= current->capacity;
            current = &self.continuations_[current->next];
        }""", """        size_t remaining = i;
        for (typename Self::Chunk const* current = &self.heads_[a]; ; current = &self.continuations_[current->next]) {
            const size_t used = std::min<size_t>(current->size, current->capacity);
            if (remaining < used)
                return self.data_[current->offset + remaining];
            if (current->next == InvalidArrayIndex)
                break;
            remaining -= current->capacity;
        }
        raise<std::out_of_range>("Index out of range");"""),
 (A, """        auto& elem = data_[updatedLast.offset + updatedLast.size];
        elem = data;
        ++heads_[a].size;
        if (&heads_[a] != &updatedLast)
            ++updatedLast.size;
        return elem;
    }

    /**
     * Constructs""", """        return finish(a, updatedLast, data);
    }

    /**
     * Constructs"""),
 (A, """        // The element has been constructed already by growing the storage. If the
        // constructor of the new value throws, the element must remain valid.
        elem = ElementType_(std::forward<Args>(args)...);
        ++heads_[a].size;
        if (&heads_[a] != &updatedLast)
            ++updatedLast.size;
        return elem;""", """        (void)elem;
        return finish(a, updatedLast, ElementType_(std::forward<Args>(args)...));"""),
 (A, """private:
    // Represents a chunk of an array in the arena.
    struct Chunk
    {""", """private:
    struct Chunk;

    template <typename Value_>
    ElementType_& finish(ArrayIndex const& a, Chunk& last, Value_&& value)
    {
        auto& head = heads_[a];
        auto& elem = data_[last.offset + last.size];
        elem = std::forward<Value_>(value);
        if (&last != &head)
            ++last.size;
        ++head.size;
        return elem;
    }

    // Represents a chunk of an array in the arena.
    struct Chunk
    {"""),
 (A, "        size_t offset = data_.size();\n        size_t newCapacity = std::max((SizeType_)2, (SizeType_)last.capacity * 2);\n        data_.resize(offset + newCapacity);\n", "        const size_t newCapacity = last.capacity == 0 ? 2 : 2 * (size_t)last.capacity;\n        const size_t offset = data_.size();\n        data_.resize(offset + newCapacity);\n"),
 (X, """    if (auto const& excHandler = ThrowHandler::instance().get()) {
        std::string typeName = typeid(ExceptionType).name();
        std::string errorMessage;
        if constexpr (requires {exceptionInstance.what();})
            errorMessage = exceptionInstance.what();
        excHandler(typeName, errorMessage);
    }
""", """    auto const& excHandler = ThrowHandler::instance().get();
    if (excHandler) {
        if constexpr (requires {exceptionInstance.what();})
            excHandler(typeid(ExceptionType).name(), exceptionInstance.what());
        else
            excHandler(typeid(ExceptionType).name(), {});
    }
"""),
 (XC, "    customThrowHandler_ = std::move(handler);", "    customThrowHandler_.swap(handler);"),
 (R, """    auto idx = std::atomic_size_t(0);
    auto threads = std::vector<std::thread>();
    threads.reserve(n_threads);
    auto work = [&]() {
        size_t next;
        while ((next = idx++) < model->numRoots()) {
            try {
                result[next] = simfil::eval(env, expr, *model->root(next));
            } catch (...) {
                errors[next] = std::current_exception();
                return;
            }
        }
    };
    for (auto i = 0; i < n_threads; ++i) {
        try {
            threads.emplace_back(work);
        } catch (const std::system_error&) {
            break;
        }
    }

    // Threads that cannot be started leave their work to the others.
    if (threads.empty())
        work();

    for (auto& thread : threads)
        if (thread.joinable())
            thread.join();
""", """    auto idx = std::atomic_size_t(0);
    auto work = [&]() {
        for (auto next = idx.fetch_add(1); next < errors.size(); next = idx.fetch_add(1)) {
            try {
                result[next] = simfil::eval(env, expr, *model->root(next));
            } catch (...) {
                errors[next] = std::current_exception();
                return;
            }
        }
    };
    auto workers = std::vector<std::future<void>>();
    workers.reserve(n_threads);
    for (size_t i = 0; i < n_threads; ++i) {
        try {
            workers.push_back(std::async(std::launch::async, work));
        } catch (const std::system_error&) {
            break;
        }
    }
    if (workers.empty())
        work();
    for (auto& worker : workers)
        worker.get();
"""),
 (R, "#include <iostream>\n", "#include <iostream>\n#include <future>\n"),
],
}
if __name__ == "__main__":
    from scenarios import SCEN
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    time_ = next((a.split("=")[1] for a in sys.argv if a.startswith("--time=")), "12")
    checks = next((a.split("=")[1].split(",") for a in sys.argv if a.startswith("--checks=")), list(SCEN))
    for name, edits in B.items():
        if args and name not in args: continue
        w = Path("/tmp/mut/refactor-" + name)
        shutil.rmtree(w, ignore_errors=True)
        shutil.copytree("/repo", w, ignore=shutil.ignore_patterns(".git", "build*"))
        for f, old, new in edits:
            t = (w / f).read_text()
            if old not in t: print(name, f, "NOT FOUND:", old[:70], flush=True)
            (w / f).write_text(t.replace(old, new))
        for c in checks:
            r = subprocess.run([str(V / "bin/check"), c, "--time", time_, "--minitime", "5"], env=dict(os.environ, SIM_REPO=str(w)), capture_output=True, text=True)
            lines = (r.stdout + r.stderr[-500:]).splitlines()
            print(name, c, "quiet" if r.returncode == 0 else f"EXIT {r.returncode}: " + " / ".join(lines[-6:])[:900], flush=True)
        shutil.rmtree(w)
