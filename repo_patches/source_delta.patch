From d385b8d61601a6cca0b77a54c2665a1ecb0d0400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:43 +0000
Subject: [PATCH 01/24] fix: lock the string pool in highest() and operator==

highest() read nextId_ and operator== walked both lookup maps without
taking the pool lock, racing with concurrent emplace() and read() calls.
---
 src/model/string-pool.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/model/string-pool.cpp b/src/model/string-pool.cpp
index dcc7bfc..d62d2a4 100644
--- a/src/model/string-pool.cpp
+++ b/src/model/string-pool.cpp
@@ -147,6 +147,7 @@ std::optional<std::string_view> StringPool::resolve(const StringId& id) const
 
 StringId StringPool::highest() const
 {
+    std::shared_lock stringStoreReadAccess_(stringStoreMutex_);
     return nextId_ - 1;
 }
 
@@ -186,7 +187,7 @@ void StringPool::write(std::ostream& outputStream, const StringId offset) const
 
     // Calculate how many strings will be sent
     StringId sendStrCount = 0;
-    const auto high = highest();
+    const StringId high = nextId_ - 1; // Note: highest() would lock again.
     for (auto strId = offset; strId <= high; ++strId) {
         auto it = stringForId_.find(strId);
         if (it != stringForId_.end())
@@ -241,6 +242,13 @@ void StringPool::read(std::istream& inputStream)
 }
 
 bool StringPool::operator==(const StringPool &other) const {
+    if (this == &other)
+        return true;
+
+    std::shared_lock lockThis(stringStoreMutex_, std::defer_lock);
+    std::shared_lock lockOther(other.stringStoreMutex_, std::defer_lock);
+    std::lock(lockThis, lockOther);
+
     return idForString_ == other.idForString_;
 }
 
-- 
2.43.0


From cb467538349d26997e17652c1ecb1db1a758907d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:43 +0000
Subject: [PATCH 02/24] fix: string pool copies must not refer to the strings
 of the source

The copy constructor copied stringForId_ verbatim, so its views pointed into
the storage of the copied pool and dangled once that pool was destroyed.
---
 src/model/string-pool.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/model/string-pool.cpp b/src/model/string-pool.cpp
index d62d2a4..13294f8 100644
--- a/src/model/string-pool.cpp
+++ b/src/model/string-pool.cpp
@@ -81,8 +81,16 @@ StringPool::StringPool(const StringPool& other)
         }
     }
 
-    // Copy stringForId_.
-    stringForId_ = other.stringForId_;
+    // Rebuild stringForId_ the same way: Its views must not refer to the other pool's strings.
+    for (const auto& [id, oldStrView] : other.stringForId_) {
+        auto it = strDataToNewStrView.find(oldStrView.data());
+        if (it != strDataToNewStrView.end()) {
+            stringForId_.emplace(id, it->second);
+        }
+        else {
+            raise<std::runtime_error>("Failed to rebuild stringForId_ in StringPool copy constructor");
+        }
+    }
 
     // Copy other member variables.
     nextId_ = other.nextId_;
-- 
2.43.0


From ec72080b04b863022ae25bbb52ae27b47c9a7fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:07 +0000
Subject: [PATCH 03/24] fix: failed string pool inserts must not change the
 pool

Running out of memory halfway through an insert left a name without an id (or
an id without a name) behind and used up the id. Running out of ids wrapped
nextId_ to zero, so that the next insert handed out the id of a static key and
highest() and write() were off.
---
 include/simfil/model/string-pool.h |  4 +++
 src/model/string-pool.cpp          | 45 +++++++++++++++++++++++-------
 2 files changed, 39 insertions(+), 10 deletions(-)

diff --git a/include/simfil/model/string-pool.h b/include/simfil/model/string-pool.h
index 131c733..bed8fb3 100644
--- a/include/simfil/model/string-pool.h
+++ b/include/simfil/model/string-pool.h
@@ -93,6 +93,10 @@ struct StringPool
     bool operator== (StringPool const& other) const;
 
 private:
+    /// Store a string and map it both ways. Strong exception guarantee.
+    /// The caller must hold the exclusive lock.
+    void insert(std::string_view const& str, StringId id);
+
     mutable std::shared_mutex stringStoreMutex_;
     std::unordered_map<
         std::string_view,
diff --git a/src/model/string-pool.cpp b/src/model/string-pool.cpp
index 13294f8..1890515 100644
--- a/src/model/string-pool.cpp
+++ b/src/model/string-pool.cpp
@@ -7,6 +7,7 @@
 #include <fmt/core.h>
 #include <algorithm>
 #include <cmath>
+#include <limits>
 #include <mutex>
 #include <stdexcept>
 #include <locale>
@@ -118,21 +119,47 @@ StringId StringPool::emplace(std::string_view const& str)
             return it->second;
         }
 
-        // Store the string to maintain ownership.
-        auto& storedString = storedStrings_.emplace_back(str);
-        StringId id = nextId_++;
-        if (nextId_ < id) {
+        // The highest id value is never handed out, so that nextId_ cannot wrap.
+        if (nextId_ == std::numeric_limits<StringId>::max()) {
             raise<std::overflow_error>("StringPool id overflow!");
         }
-        idForString_.emplace(storedString, id);
-        stringForId_.emplace(id, storedString);
-        byteSize_ += static_cast<int64_t>(storedString.size());
+
+        StringId id = nextId_;
+        insert(str, id);
+        ++nextId_;
+        byteSize_ += static_cast<int64_t>(str.size());
         ++cacheMisses_;
 
         return id;
     }
 }
 
+void StringPool::insert(std::string_view const& str, StringId id)
+{
+    // Store the string to maintain ownership.
+    auto& storedString = storedStrings_.emplace_back(str);
+
+    // Roll back on failure: All containers must stay consistent.
+    auto [it, insertionTookPlace] = [&] {
+        try {
+            return idForString_.emplace(storedString, id);
+        }
+        catch (...) {
+            storedStrings_.pop_back();
+            throw;
+        }
+    }();
+    try {
+        stringForId_.emplace(id, storedString);
+    }
+    catch (...) {
+        if (insertionTookPlace)
+            idForString_.erase(it);
+        storedStrings_.pop_back();
+        throw;
+    }
+}
+
 StringId StringPool::get(std::string_view const& str)
 {
     std::shared_lock stringStoreReadAccess_(stringStoreMutex_);
@@ -183,9 +210,7 @@ size_t StringPool::misses() const
 void StringPool::addStaticKey(StringId id, const std::string& value)
 {
     std::unique_lock lock(stringStoreMutex_);
-    auto& storedString = storedStrings_.emplace_back(value);
-    idForString_.emplace(storedString, id);
-    stringForId_.emplace(id, storedString);
+    insert(value, id);
 }
 
 void StringPool::write(std::ostream& outputStream, const StringId offset) const  // NOLINT
-- 
2.43.0


From 66c72b429441774026ea47dd4bddbc90497fe941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:30 +0000
Subject: [PATCH 04/24] fix: do not intern strings of a truncated string pool
 stream

Reading a stream that ends within a string interned the half-received string
under the id of the real one before reporting the error.
---
 src/model/string-pool.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/model/string-pool.cpp b/src/model/string-pool.cpp
index 1890515..7b7e1e3 100644
--- a/src/model/string-pool.cpp
+++ b/src/model/string-pool.cpp
@@ -255,13 +255,16 @@ void StringPool::read(std::istream& inputStream)
         s.value2b(stringId);
 
         // Don't support strings longer than 64kB.
-        auto& stringValue = storedStrings_.emplace_back();
+        std::string stringValue;
         s.text1b(stringValue, std::numeric_limits<uint16_t>::max());
 
+        // Do not store incompletely received strings.
+        if (s.adapter().error() != bitsery::ReaderError::NoError)
+            break;
+
         // Insert string into the pool
-        auto [it, insertionTookPlace] = idForString_.try_emplace(stringValue, stringId);
-        if (insertionTookPlace) {
-            stringForId_.try_emplace(stringId, stringValue);
+        if (idForString_.find(stringValue) == idForString_.end()) {
+            insert(stringValue, stringId);
             byteSize_ += static_cast<int64_t>(stringValue.size());
             nextId_ = std::max<StringId>(nextId_, stringId + 1);
         }
-- 
2.43.0


From 64a85e4413e9bc0c2e157b7c924892e1b13ceebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:17 +0000
Subject: [PATCH 05/24] fix: reading an array arena must replace its previous
 content

Reading a model image into a model that was not empty appended the arrays
of the image, so that its nodes referred to the old arrays. Also stop at the
first read error.
---
 include/simfil/model/bitsery-traits.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/simfil/model/bitsery-traits.h b/include/simfil/model/bitsery-traits.h
index a2318c4..c1dff24 100644
--- a/include/simfil/model/bitsery-traits.h
+++ b/include/simfil/model/bitsery-traits.h
@@ -61,11 +61,16 @@ struct ArrayArenaExt
     template <typename S, typename ElementType, size_t PageSize, size_t ChunkPageSize, typename Fnc>
     void deserialize(S& s, simfil::ArrayArena<ElementType, PageSize, ChunkPageSize>& arena, Fnc&& fnc) const
     {
-        simfil::ArrayIndex numArrays;
+        // Like for any other container, the previous content is replaced.
+        arena.clear();
+
+        simfil::ArrayIndex numArrays = 0;
         s.value4b(numArrays);
         for (simfil::ArrayIndex i = 0; i < numArrays; ++i) {
-            typename std::decay_t<decltype(arena)>::SizeType size;
+            typename std::decay_t<decltype(arena)>::SizeType size = 0;
             s.value4b(size);
+            if (s.adapter().error() != ReaderError::NoError)
+                return;
             auto arrayIndex = arena.new_array(size);
             for (size_t j = 0; j < size; ++j)
                 fnc(s, arena.emplace_back(arrayIndex));
-- 
2.43.0


From 788cbe8ebc87778cc1afe129bbf373e354d3cb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:04 +0000
Subject: [PATCH 06/24] fix: checkForErrors must terminate on cyclic node
 references

A damaged image can make containers refer to each other in circles, which
exhausted the stack. Every container is now validated once, and a reference
to a container from within itself is reported as an error.
---
 src/model/model.cpp | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/model/model.cpp b/src/model/model.cpp
index 85af8dc..29f1474 100644
--- a/src/model/model.cpp
+++ b/src/model/model.cpp
@@ -5,6 +5,7 @@
 
 #include <memory>
 #include <type_traits>
+#include <unordered_map>
 #include <variant>
 #include <vector>
 
@@ -122,7 +123,9 @@ std::vector<std::string> ModelPool::checkForErrors() const
             errors.push_back(fmt::format("Bad string ID: {}", str));
     };
 
-    std::function<void(ModelNode::Ptr)> validateModelNode = [&](ModelNode::Ptr node)
+    std::function<void(ModelNode::Ptr)> validateModelNode;
+
+    auto validateNodeContent = [&](ModelNode::Ptr const& node)
     {
         try {
             if (node->type() == ValueType::Object) {
@@ -148,6 +151,26 @@ std::vector<std::string> ModelPool::checkForErrors() const
         }
     };
 
+    // Containers which have been validated (true) or are being validated (false).
+    // A container may be referenced several times, but not from within itself.
+    std::unordered_map<uint32_t, bool> containers;
+
+    validateModelNode = [&](ModelNode::Ptr const& node)
+    {
+        if (!node || (node->addr().column() != Objects && node->addr().column() != Arrays))
+            return validateNodeContent(node);
+
+        auto [container, isNew] = containers.try_emplace(node->addr().value_, false);
+        if (isNew) {
+            validateNodeContent(node);
+            containers[node->addr().value_] = true;
+        }
+        else if (!container->second)
+            errors.emplace_back(fmt::format(
+                "Cyclic node reference: col={}, i={}",
+                (uint16_t)node->addr().column(), node->addr().index()));
+    };
+
     // Validate objects
     for (auto i = 0; i < impl_->columns_.objectMemberArrays_.size(); ++i)
         validateModelNode(ModelNode::Ptr::make(shared_from_this(), ModelNodeAddress{Objects, (uint32_t)i}));
-- 
2.43.0


From fee00fb224a36f3f16c655a81bd8f1d068c658f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:26 +0000
Subject: [PATCH 07/24] fix: setStrings must not leave a half-translated model
 behind

If the new string pool runs out of memory or ids, neither the model's pool
nor any of its field ids may change.
---
 src/model/model.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/model/model.cpp b/src/model/model.cpp
index 29f1474..f2a5ea4 100644
--- a/src/model/model.cpp
+++ b/src/model/model.cpp
@@ -356,15 +356,29 @@ void ModelPool::setStrings(std::shared_ptr<StringPool> const& strings)
         raise<std::runtime_error>("Attempt to call ModelPool::setStrings(nullptr)!");
 
     auto oldStrings = impl_->strings_;
-    impl_->strings_ = strings;
-    if (!oldStrings || *strings == *oldStrings)
+    if (!oldStrings || *strings == *oldStrings) {
+        impl_->strings_ = strings;
         return;
+    }
 
-    // Translate object field IDs to the new dictionary.
+    // Get the IDs from the new dictionary first: This may fail, in
+    // which case neither the fields nor the dictionary must change.
+    std::unordered_map<StringId, StringId> newIds;
     for (auto memberArray : impl_->columns_.objectMemberArrays_) {
         for (auto& member : memberArray) {
+            if (newIds.find(member.name_) != newIds.end())
+                continue;
             if (auto resolvedName = oldStrings->resolve(member.name_))
-                member.name_ = strings->emplace(*resolvedName);
+                newIds.emplace(member.name_, strings->emplace(*resolvedName));
+        }
+    }
+
+    // Translate object field IDs to the new dictionary.
+    impl_->strings_ = strings;
+    for (auto memberArray : impl_->columns_.objectMemberArrays_) {
+        for (auto& member : memberArray) {
+            if (auto newId = newIds.find(member.name_); newId != newIds.end())
+                member.name_ = newId->second;
         }
     }
 }
-- 
2.43.0


From 686ffe6fdcbc45e1900b436d63317ff1584bc616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:00 +0000
Subject: [PATCH 08/24] fix: a failed json::parse must not leave a root behind

The root was added before the model was validated.
---
 src/model/json.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/model/json.cpp b/src/model/json.cpp
index 06728b4..373613e 100644
--- a/src/model/json.cpp
+++ b/src/model/json.cpp
@@ -47,14 +47,18 @@ static ModelNode::Ptr build(const json& j, ModelPool & model)
 
 void parse(std::istream& input, ModelPoolPtr const& model)
 {
-    model->addRoot(build(json::parse(input), *model));
+    auto root = build(json::parse(input), *model);
     model->validate();
+    // Added last, so that a failed parse does not leave a root behind.
+    model->addRoot(root);
 }
 
 void parse(const std::string& input, ModelPoolPtr const& model)
 {
-    model->addRoot(build(json::parse(input), *model));
+    auto root = build(json::parse(input), *model);
     model->validate();
+    // Added last, so that a failed parse does not leave a root behind.
+    model->addRoot(root);
 }
 
 ModelPoolPtr parse(const std::string& input)
-- 
2.43.0


From 4f72e162e8f15bc13925de5fd07a6243c714e913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:06 +0000
Subject: [PATCH 09/24] fix: synchronize the lookup caches of shared
 expressions

---
 src/simfil.cpp | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/simfil.cpp b/src/simfil.cpp
index a987a40..712b7f0 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -12,6 +12,7 @@
 #include "fmt/core.h"
 
 #include <algorithm>
+#include <atomic>
 #include <cctype>
 #include <cstdint>
 #include <iterator>
@@ -301,16 +302,21 @@ public:
         if (!val.node)
             return res(ctx, Value::null());
 
-        if (!nameId_)
-            nameId_ = ctx.env->strings()->get(name_);
+        /* The expression may be evaluated by multiple threads at once,
+           all of them cache the same id. */
+        auto nameId = nameId_.load(std::memory_order_relaxed);
+        if (!nameId) {
+            nameId = ctx.env->strings()->get(name_);
+            nameId_.store(nameId, std::memory_order_relaxed);
+        }
 
-        if (!nameId_)
+        if (!nameId)
             /* If the field name is not in the string cache, then there
                is no field with that name. */
             return res(ctx, Value::null());
 
         /* Enter sub-node */
-        if (auto sub = val.node->get(nameId_)) {
+        if (auto sub = val.node->get(nameId)) {
             return res(ctx, Value::field(*sub));
         }
 
@@ -325,7 +331,7 @@ public:
     }
 
     std::string name_;
-    mutable StringId nameId_ = {};
+    mutable std::atomic<StringId> nameId_ = {};
 };
 
 class MultiConstExpr : public Expr
@@ -533,13 +539,18 @@ public:
 
     auto ieval(Context ctx, Value val, const ResultFn& res) const -> Result override
     {
-        if (!fn_)
-            fn_ = ctx.env->findFunction(name_);
-        if (!fn_)
+        /* The expression may be evaluated by multiple threads at once,
+           all of them cache the same function. */
+        auto fn = fn_.load(std::memory_order_relaxed);
+        if (!fn) {
+            fn = ctx.env->findFunction(name_);
+            fn_.store(fn, std::memory_order_relaxed);
+        }
+        if (!fn)
             raise<std::runtime_error>("Unknown function "s + name_);
 
         auto anyval = false;
-        auto result = fn_->eval(ctx, val, args_, LambdaResultFn([&res, &anyval](Context ctx, Value vv) {
+        auto result = fn->eval(ctx, val, args_, LambdaResultFn([&res, &anyval](Context ctx, Value vv) {
             anyval = true;
             return res(ctx, std::move(vv));
         }));
@@ -563,7 +574,7 @@ public:
 
     std::string name_;
     std::vector<ExprPtr> args_;
-    mutable const Function* fn_;
+    mutable std::atomic<const Function*> fn_;
 };
 
 class PathExpr : public Expr
-- 
2.43.0


From 2f41a459f906292ca4ace4427a370ad3bd0a464f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:06 +0000
Subject: [PATCH 10/24] fix: overlays of values without a node have no further
 members

---
 src/overlay.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/overlay.cpp b/src/overlay.cpp
index 612ea8e..bf6b809 100644
--- a/src/overlay.cpp
+++ b/src/overlay.cpp
@@ -41,25 +41,35 @@ auto OverlayNode::set(StringId const& key, Value const& child) -> void
             return iter->second.node;
         return ValueNode(iter->second.getScalar());
     }
+    if (!model().value_.node)
+        return {};
     return model().value_.node->get(key);
 }
 
 [[nodiscard]] ModelNode::Ptr OverlayNode::at(int64_t i) const
 {
+    if (!model().value_.node)
+        return {};
     return model().value_.node->at(i);
 }
 
 [[nodiscard]] StringId OverlayNode::keyAt(int64_t i) const
 {
+    if (!model().value_.node)
+        return {};
     return model().value_.node->keyAt(i);
 }
 
 [[nodiscard]] uint32_t OverlayNode::size() const
 {
+    if (!model().value_.node)
+        return 0;
     return model().value_.node->size();
 }
 
 [[nodiscard]] bool OverlayNode::iterate(IterCallback const& cb) const {
+    if (!model().value_.node)
+        return true;
     return model().value_.node->iterate(cb);
 }
 
-- 
2.43.0


From 6aaabe372f227d8471f7b1e1a7f04967eb0882e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:24 +0000
Subject: [PATCH 11/24] fix: pass on the stop of a result consumer, and only
 that

Child wildcards, unpacking, split() and the implicit null of path, subscript
and sub-expressions lost the request of the consumer to stop, so it was called
again or the surrounding expression went on. The end of a select() on the other
hand stopped the surrounding expressions.
---
 src/function.cpp | 10 +++++++---
 src/simfil.cpp   | 28 ++++++++++++++--------------
 2 files changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/function.cpp b/src/function.cpp
index 716947a..9457d44 100644
--- a/src/function.cpp
+++ b/src/function.cpp
@@ -508,7 +508,7 @@ auto SplitFn::eval(Context ctx, Value val, const std::vector<ExprPtr>& args, con
     auto items = split(str.as<ValueType::String>(), sep.as<ValueType::String>(), !keepEmpty.as<ValueType::Bool>());
     for (auto&& item : items) {
         if (res(subctx, Value::make(std::move(item))) == Result::Stop)
-            break;
+            return Result::Stop;
     }
 
     return Result::Continue;
@@ -546,19 +546,23 @@ auto SelectFn::eval(Context ctx, Value val, const std::vector<ExprPtr>& args, co
     if (icnt <= 0)
         icnt = std::numeric_limits<int>::max();
 
+    auto done = false; /* All selected values are forwarded; do not read more input */
     auto result = args[0]->eval(ctx, val, LambdaResultFn([&, n = -1](Context ctx, Value vv) mutable {
         ++n;
         if (ctx.phase == Context::Phase::Compilation)
             if (vv.isa(ValueType::Undef))
                 return res(ctx, std::move(vv));
-        if (n >= iidx + icnt)
+        if (n >= iidx + icnt) {
+            done = true;
             return Result::Stop;
+        }
         if (n >= iidx)
             return res(ctx, std::move(vv));
         return Result::Continue;
     }));
 
-    return result;
+    /* The end of the selection must not stop surrounding expressions. */
+    return done ? Result::Continue : result;
 }
 
 SumFn SumFn::Fn;
diff --git a/src/simfil.cpp b/src/simfil.cpp
index 712b7f0..600cd1f 100644
--- a/src/simfil.cpp
+++ b/src/simfil.cpp
@@ -169,17 +169,20 @@ struct CountedResultFn : ResultFn
         return fn(std::move(ctx), std::move(vv));
     }
 
-    /* NOTE: You _must_ call finish before destruction! */
-    auto ensureCall()
+    /* NOTE: You _must_ call finish before destruction!
+     *
+     * Returns the result of the additional call, `result` if there was none. */
+    auto ensureCall(Result result) -> Result
     {
         assert(!finished);
         if (calls == 0 && !finished) {
             finished = true;
             if (nonctx.phase == Context::Phase::Compilation)
-                fn(nonctx, Value::undef());
+                return fn(nonctx, Value::undef());
             else
-                fn(nonctx, Value::null());
+                return fn(nonctx, Value::null());
         }
+        return result;
     }
 };
 
@@ -228,8 +231,7 @@ public:
         };
 
         auto r = Iterate{ctx, res}.iterate(*val.node, 0);
-        res.ensureCall();
-        return r;
+        return res.ensureCall(r);
     }
 
     auto toString() const -> std::string override
@@ -269,7 +271,7 @@ public:
             return true;
         }));
 
-        return Result::Continue;
+        return result;
     }
 
     auto toString() const -> std::string override
@@ -463,8 +465,7 @@ public:
                 return Result::Continue;
             }));
         }));
-        res.ensureCall();
-        return r;
+        return res.ensureCall(r);
     }
 
     auto toString() const -> std::string override
@@ -511,8 +512,7 @@ public:
                 return Result::Continue;
             }));
         }));
-        res.ensureCall();
-        return r;
+        return res.ensureCall(r);
     }
 
     auto toString() const -> std::string override
@@ -619,8 +619,7 @@ public:
                 return res(ctx, std::move(vv));
             }));
         }));
-        res.ensureCall();
-        return r;
+        return res.ensureCall(r);
     };
 
     auto toString() const -> std::string override
@@ -657,7 +656,8 @@ public:
                 auto r = Result::Continue;
                 obj.meta->unpack(obj, [&](Value vv) {
                     anyval = true;
-                    return res(ctx, std::move(vv)) == Result::Continue;
+                    r = res(ctx, std::move(vv));
+                    return r == Result::Continue;
                 });
 
                 if (r == Result::Stop)
-- 
2.43.0


From 667cf9b50d6bdfcf4e1de19ba823c2e3a63660a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:26 +0000
Subject: [PATCH 12/24] fix: failed, self- and moved-from assignments of
 transient objects

Assignment released the old object before copying the new one: if the copy
failed, the released object was released again; self-assignment copied a
released object. Copying or assigning to a moved-from object crashed.
---
 include/simfil/transient.h | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/include/simfil/transient.h b/include/simfil/transient.h
index 03f27de..280a02b 100644
--- a/include/simfil/transient.h
+++ b/include/simfil/transient.h
@@ -4,6 +4,7 @@
 
 #include <string>
 #include <string_view>
+#include <utility>
 
 namespace simfil
 {
@@ -50,18 +51,18 @@ struct TransientObject
     void* data = nullptr;
 
     TransientObject(const TransientObject& other)
-        : meta(other.meta), data(meta->copy(other.data))
+        : meta(other.meta), data(other.meta ? other.meta->copy(other.data) : nullptr)
     {}
 
-    auto operator=(const TransientObject& other)
+    auto operator=(const TransientObject& other) -> TransientObject&
     {
-        meta->deinit(data);
-        meta = other.meta;
-        data = meta->copy(other.data);
+        /* Copying may fail, in which case this object must not change. */
+        TransientObject copy(other);
+        swap(copy);
         return *this;
     }
 
-    TransientObject(TransientObject&& other)
+    TransientObject(TransientObject&& other) noexcept
         : meta(std::move(other.meta))
         , data(std::move(other.data))
     {
@@ -69,16 +70,19 @@ struct TransientObject
         other.data = nullptr;
     }
 
-    auto operator=(TransientObject&& other)
+    auto operator=(TransientObject&& other) noexcept -> TransientObject&
     {
-        meta->deinit(data);
-        meta = std::move(other.meta);
-        data = std::move(other.data);
-        other.meta = nullptr;
-        other.data = nullptr;
+        TransientObject moved(std::move(other));
+        swap(moved);
         return *this;
     }
 
+    auto swap(TransientObject& other) noexcept -> void
+    {
+        std::swap(meta, other.meta);
+        std::swap(data, other.data);
+    }
+
     explicit TransientObject(const MetaType* meta)
         : meta(meta), data(meta->init())
     {}
-- 
2.43.0


From 710c58de4ec1826c109e909a166603fd797f741e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:29 +0000
Subject: [PATCH 13/24] fix: a failed ArrayArena::emplace_back must not destroy
 the element slot

The value was constructed in place over an element that is alive already. If
its constructor failed, a destroyed element remained in the arena, which was
destroyed again later.
---
 include/simfil/model/arena.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/simfil/model/arena.h b/include/simfil/model/arena.h
index a9994fb..4205d78 100644
--- a/include/simfil/model/arena.h
+++ b/include/simfil/model/arena.h
@@ -145,7 +145,9 @@ public:
         std::shared_lock guard(lock_);
         #endif
         auto& elem = data_[updatedLast.offset + updatedLast.size];
-        new (&elem) ElementType_(std::forward<Args>(args)...);
+        // The element has been constructed already by growing the storage. If the
+        // constructor of the new value throws, the element must remain valid.
+        elem = ElementType_(std::forward<Args>(args)...);
         ++heads_[a].size;
         if (&heads_[a] != &updatedLast)
             ++updatedLast.size;
-- 
2.43.0


From 5c5f8daaf3f2d7970b92958721ade74985159507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:56 +0000
Subject: [PATCH 14/24] fix: take the arena lock while iterating arrays in
 thread-safe mode

iterate() and the end of the arena read the chunk tables without the lock,
while another thread may be adding chunks to them.
---
 include/simfil/model/arena.h | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/include/simfil/model/arena.h b/include/simfil/model/arena.h
index 4205d78..45c8460 100644
--- a/include/simfil/model/arena.h
+++ b/include/simfil/model/arena.h
@@ -293,9 +293,9 @@ public:
     const_iterator end(ArrayIndex const& a) const { return const_iterator(*this, a, size(a)); }
 
     ArrayArenaIterator begin() { return ArrayArenaIterator(*this, 0); }
-    ArrayArenaIterator end() { return ArrayArenaIterator(*this, static_cast<ArrayIndex>(heads_.size())); }
+    ArrayArenaIterator end() { return ArrayArenaIterator(*this, static_cast<ArrayIndex>(size())); }
     ArrayArenaIterator begin() const { return ArrayArenaIterator(*this, 0); }
-    ArrayArenaIterator end() const { return ArrayArenaIterator(*this, static_cast<ArrayIndex>(heads_.size())); }
+    ArrayArenaIterator end() const { return ArrayArenaIterator(*this, static_cast<ArrayIndex>(size())); }
 
     ArrayRange range(ArrayIndex const& array) {return ArrayRange(begin(array), end(array));}
 
@@ -304,26 +304,38 @@ public:
     template <typename Func>
     void iterate(ArrayIndex const& a, Func&& lambda)
     {
-        Chunk const* current = &heads_[a];
+        // The lock must not be held while the callback is running,
+        // because it may access the arena.
+        auto locked = [this](auto&& get) -> decltype(auto)
+        {
+            #ifdef ARRAY_ARENA_THREAD_SAFE
+            std::shared_lock guard(lock_);
+            #endif
+            return get();
+        };
+
+        Chunk const* current = locked([&]() { return &heads_[a]; });
         size_t globalIndex = 0;
         while (current != nullptr)
         {
             for (size_t i = 0; i < current->size && i < current->capacity; ++i)
             {
+                auto& elem = locked([&]() -> ElementType_& { return data_[current->offset + i]; });
                 if constexpr (std::is_invocable_r_v<bool, Func, ElementType_&>) {
                     // If lambda returns bool, break if it returns false
-                    if (!lambda(data_[current->offset + i]))
+                    if (!lambda(elem))
                         return;
                 }
                 else if constexpr (std::is_invocable_v<Func, ElementType_&, size_t>) {
                     // If lambda takes two arguments, pass the current index
-                    lambda(data_[current->offset + i], globalIndex);
+                    lambda(elem, globalIndex);
                 }
                 else
-                    lambda(data_[current->offset + i]);
+                    lambda(elem);
                 ++globalIndex;
             }
-            current = (current->next != InvalidArrayIndex) ? &continuations_[current->next] : nullptr;
+            current = (current->next != InvalidArrayIndex) ?
+                locked([&]() { return &continuations_[current->next]; }) : nullptr;
         }
     }
 
-- 
2.43.0


From 5a6b964a2dda55f7fbc215582fa93c3e3d6055f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:49 +0000
Subject: [PATCH 15/24] fix: keys() results must not refer to the string pool

---
 src/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/function.cpp b/src/function.cpp
index 9457d44..5e3b7c0 100644
--- a/src/function.cpp
+++ b/src/function.cpp
@@ -645,7 +645,7 @@ auto KeysFn::eval(Context ctx, Value val, const std::vector<ExprPtr>& args, cons
         if (vv.node)
             for (auto&& fieldName : vv.node->fieldNames()) {
                 if (auto key = ctx.env->stringPool->resolve(fieldName)) {
-                    if (res(ctx, Value::strref(*key)) == Result::Stop)
+                    if (res(ctx, Value::make(std::string(*key))) == Result::Stop)
                         return Result::Stop;
                 }
             }
-- 
2.43.0


From b7f2a1e8af70252e3133e024afb736eef656a7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:30 +0000
Subject: [PATCH 16/24] fix: end the interactive tool when its input ends

---
 repl/repl.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/repl/repl.cpp b/repl/repl.cpp
index 9a94857..cf47eb0 100644
--- a/repl/repl.cpp
+++ b/repl/repl.cpp
@@ -86,19 +86,23 @@ char** command_completion(const char *text, int start, int end)
 }
 #endif
 
-static std::string input(const char* prompt = "> ")
+/// Returns nullopt at the end of the input.
+static std::optional<std::string> input(const char* prompt = "> ")
 {
     std::string r;
 #ifdef WITH_READLINE
     auto buf = readline(prompt);
-    if (buf && buf[0]) {
+    if (!buf)
+        return std::nullopt;
+    if (buf[0]) {
         r = buf;
         add_history(buf);
     }
     free(buf);
 #else
     std::cout << prompt << std::flush;
-    std::getline(std::cin, r);
+    if (!std::getline(std::cin, r))
+        return std::nullopt;
 #endif
     return r;
 }
@@ -205,7 +209,10 @@ int main(int argc, char *argv[])
     }
 
     for (;;) {
-        auto cmd = input("> ");
+        auto line = input("> ");
+        if (!line)
+            break;
+        const auto& cmd = *line;
         if (cmd.empty())
             continue;
         if (cmd[0] == '/') {
-- 
2.43.0


From cf23bacbd217279b8f1263d18ade632b1b8f9a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:11 +0000
Subject: [PATCH 17/24] fix: report evaluation errors of worker threads in the
 interactive tool

---
 repl/repl.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/repl/repl.cpp b/repl/repl.cpp
index cf47eb0..be1324c 100644
--- a/repl/repl.cpp
+++ b/repl/repl.cpp
@@ -14,6 +14,7 @@
 #include <atomic>
 #include <fstream>
 #include <chrono>
+#include <exception>
 #include <optional>
 #include <iostream>
 
@@ -124,6 +125,7 @@ static auto eval_mt(simfil::Environment& env, const simfil::Expr& expr, const st
     if (!options.multi_threaded)
         n_threads = 1;
 
+    std::vector<std::exception_ptr> errors(model->numRoots());
     auto idx = std::atomic_size_t(0);
     auto threads = std::vector<std::thread>();
     threads.reserve(n_threads);
@@ -134,6 +136,7 @@ static auto eval_mt(simfil::Environment& env, const simfil::Expr& expr, const st
                 try {
                     result[next] = simfil::eval(env, expr, *model->root(next));
                 } catch (...) {
+                    errors[next] = std::current_exception();
                     return;
                 }
             }
@@ -144,6 +147,11 @@ static auto eval_mt(simfil::Environment& env, const simfil::Expr& expr, const st
         if (thread.joinable())
             thread.join();
 
+    // Roots are taken in order, so the first one to fail is always evaluated.
+    for (const auto& error : errors)
+        if (error)
+            std::rethrow_exception(error);
+
     return result;
 }
 
-- 
2.43.0


From d46a51ca80d074f7f6a23b25b2b1bb2dd9e4537b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:00 +0000
Subject: [PATCH 18/24] fix: keep going in the interactive tool when worker
 threads cannot be started

---
 repl/repl.cpp | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/repl/repl.cpp b/repl/repl.cpp
index be1324c..ca450df 100644
--- a/repl/repl.cpp
+++ b/repl/repl.cpp
@@ -10,6 +10,7 @@
 
 #include <string>
 #include <string_view>
+#include <system_error>
 #include <thread>
 #include <atomic>
 #include <fstream>
@@ -129,20 +130,29 @@ static auto eval_mt(simfil::Environment& env, const simfil::Expr& expr, const st
     auto idx = std::atomic_size_t(0);
     auto threads = std::vector<std::thread>();
     threads.reserve(n_threads);
-    for (auto i = 0; i < n_threads; ++i) {
-        threads.emplace_back(std::thread([&, i]() {
-            size_t next;
-            while ((next = idx++) < model->numRoots()) {
-                try {
-                    result[next] = simfil::eval(env, expr, *model->root(next));
-                } catch (...) {
-                    errors[next] = std::current_exception();
-                    return;
-                }
+    auto work = [&]() {
+        size_t next;
+        while ((next = idx++) < model->numRoots()) {
+            try {
+                result[next] = simfil::eval(env, expr, *model->root(next));
+            } catch (...) {
+                errors[next] = std::current_exception();
+                return;
             }
-        }));
+        }
+    };
+    for (auto i = 0; i < n_threads; ++i) {
+        try {
+            threads.emplace_back(work);
+        } catch (const std::system_error&) {
+            break;
+        }
     }
 
+    // Threads that cannot be started leave their work to the others.
+    if (threads.empty())
+        work();
+
     for (auto& thread : threads)
         if (thread.joinable())
             thread.join();
-- 
2.43.0


From 393b379898204c7af5e2b43062918a44d2bf0c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:05 +0000
Subject: [PATCH 19/24] fix: looking up a field by name must not intern the
 name

---
 src/model/nodes.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/model/nodes.cpp b/src/model/nodes.cpp
index a30a6b2..035214a 100644
--- a/src/model/nodes.cpp
+++ b/src/model/nodes.cpp
@@ -249,7 +249,10 @@ Array& Array::extend(model_ptr<Array> const& other) {
 /** Model Node impls for an object. */
 
 ModelNode::Ptr Object::get(std::string_view const& fieldName) const {
-    auto fieldId = model().strings()->emplace(fieldName);
+    // Looking up a field must not add its name to the string pool.
+    auto fieldId = model().strings()->get(fieldName);
+    if (fieldId == StringPool::Empty && !fieldName.empty())
+        return {};
     return get(fieldId);
 }
 
-- 
2.43.0


From bed39c32ff723a5546254f8256df2ed237f1fded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:56 +0000
Subject: [PATCH 20/24] fix: Report models which are nested too deeply in
 ModelPool::checkForErrors()

Validation, traversal, toJson() and queries follow the nodes recursively. An
image (or a model) in which some thousand containers are chained up exhausted
the stack, after or already while it was checked.
---
 include/simfil/model/model.h |  7 +++++++
 src/model/model.cpp          | 40 ++++++++++++++++++++++++++----------
 2 files changed, 36 insertions(+), 11 deletions(-)

diff --git a/include/simfil/model/model.h b/include/simfil/model/model.h
index 1541c5e..476174d 100644
--- a/include/simfil/model/model.h
+++ b/include/simfil/model/model.h
@@ -97,6 +97,13 @@ public:
         FirstCustomColumnId = 128,
     };
 
+    /**
+     * Maximum number of nodes on a path from a root to a leaf.
+     * Nodes are traversed recursively: Models with deeper nesting
+     * are not valid, as they might exhaust the stack.
+     */
+    static constexpr size_t MaxNestingDepth = 512;
+
     /** Default ctor with own string storage */
     ModelPool();
     ~ModelPool();
diff --git a/src/model/model.cpp b/src/model/model.cpp
index f2a5ea4..4d87ab0 100644
--- a/src/model/model.cpp
+++ b/src/model/model.cpp
@@ -3,9 +3,11 @@
 #include "simfil/model/bitsery-traits.h"
 #include "simfil/model/nodes.h"
 
+#include <algorithm>
 #include <memory>
 #include <type_traits>
 #include <unordered_map>
+#include <utility>
 #include <variant>
 #include <vector>
 
@@ -151,24 +153,40 @@ std::vector<std::string> ModelPool::checkForErrors() const
         }
     };
 
-    // Containers which have been validated (true) or are being validated (false).
+    // Nesting depth of the containers which have been validated, zero for those being validated.
     // A container may be referenced several times, but not from within itself.
-    std::unordered_map<uint32_t, bool> containers;
+    std::unordered_map<uint32_t, size_t> containers;
+    size_t depth = 0;     // Number of nodes being validated.
+    size_t nesting = 0;   // Nesting depth of the children validated so far.
+    auto tooDeep = false;
 
     validateModelNode = [&](ModelNode::Ptr const& node)
     {
-        if (!node || (node->addr().column() != Objects && node->addr().column() != Arrays))
-            return validateNodeContent(node);
+        auto isContainer = node && (node->addr().column() == Objects || node->addr().column() == Arrays);
+        if (isContainer) {
+            auto [container, isNew] = containers.try_emplace(node->addr().value_, 0);
+            if (!isNew) {
+                if (!container->second)
+                    errors.emplace_back(fmt::format(
+                        "Cyclic node reference: col={}, i={}",
+                        (uint16_t)node->addr().column(), node->addr().index()));
+                nesting = std::max(nesting, container->second);
+                return;
+            }
+        }
 
-        auto [container, isNew] = containers.try_emplace(node->addr().value_, false);
-        if (isNew) {
+        auto siblingNesting = std::exchange(nesting, 0);
+        if (++depth <= MaxNestingDepth)
             validateNodeContent(node);
-            containers[node->addr().value_] = true;
+        --depth;
+        ++nesting;
+        if (depth + nesting > MaxNestingDepth && !tooDeep) {
+            errors.emplace_back("Nodes are nested too deeply.");
+            tooDeep = true;
         }
-        else if (!container->second)
-            errors.emplace_back(fmt::format(
-                "Cyclic node reference: col={}, i={}",
-                (uint16_t)node->addr().column(), node->addr().index()));
+        if (isContainer)
+            containers[node->addr().value_] = nesting;
+        nesting = std::max(nesting, siblingNesting);
     };
 
     // Validate objects
-- 
2.43.0


From 892d204b5ee2242fb6c2ef8d7ae5608f2d197b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:56 +0000
Subject: [PATCH 21/24] fix: Refuse JSON documents which are nested too deeply

json::parse() builds the model recursively: A text of some ten thousand opening
brackets exhausted the stack instead of being refused with an error.
---
 src/model/json.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/model/json.cpp b/src/model/json.cpp
index 373613e..f574cdf 100644
--- a/src/model/json.cpp
+++ b/src/model/json.cpp
@@ -9,8 +9,11 @@ namespace simfil::json
 {
 using json = nlohmann::json;
 
-static ModelNode::Ptr build(const json& j, ModelPool & model)
+static ModelNode::Ptr build(const json& j, ModelPool & model, size_t depth = 1)
 {
+    if (depth > ModelPool::MaxNestingDepth)
+        raise<std::runtime_error>("JSON document is nested too deeply.");
+
     switch (j.type()) {
     case json::value_t::null:
         return {};
@@ -31,14 +34,14 @@ static ModelNode::Ptr build(const json& j, ModelPool & model)
     if (j.is_object()) {
         auto object = model.newObject(j.size());
         for (auto&& [key, value] : j.items())
-            object->addField(key, build(value, model));
+            object->addField(key, build(value, model, depth + 1));
         return object;
     }
 
     if (j.is_array()) {
         auto array = model.newArray(j.size());
         for (const auto& value : j)
-            array->append(build(value, model));
+            array->append(build(value, model, depth + 1));
         return array;
     }
 
-- 
2.43.0


From 09f8e6947aee0b126cb95a8c6f1bd6ef565be760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:47 +0000
Subject: [PATCH 22/24] fix: refuse to translate fields with an unknown string
 ID to another string pool

setStrings() left the ID as it was, so that the field took on whatever
name the new pool has or later gets under the same ID.
---
 src/model/model.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/model/model.cpp b/src/model/model.cpp
index 4d87ab0..7034ca3 100644
--- a/src/model/model.cpp
+++ b/src/model/model.cpp
@@ -386,8 +386,12 @@ void ModelPool::setStrings(std::shared_ptr<StringPool> const& strings)
         for (auto& member : memberArray) {
             if (newIds.find(member.name_) != newIds.end())
                 continue;
-            if (auto resolvedName = oldStrings->resolve(member.name_))
-                newIds.emplace(member.name_, strings->emplace(*resolvedName));
+            auto resolvedName = oldStrings->resolve(member.name_);
+            if (!resolvedName)
+                // The same ID may have another meaning in the new dictionary.
+                raise<std::runtime_error>(fmt::format(
+                    "Cannot translate the unknown string ID {}.", member.name_));
+            newIds.emplace(member.name_, strings->emplace(*resolvedName));
         }
     }
 
-- 
2.43.0


From b7e0f7e0f8a07ad5a0260cbad94d2a6d862253ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:04 +0000
Subject: [PATCH 23/24] fix: raise string pool errors after releasing the lock

The error handler is called by raise(). StringPool::emplace() (no id
left) and StringPool::read() (incomplete image) raised while holding the
exclusive lock, so a handler which asks the pool for anything, e.g. to
report its size, deadlocked.
---
 src/model/string-pool.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/model/string-pool.cpp b/src/model/string-pool.cpp
index 7b7e1e3..5e438c1 100644
--- a/src/model/string-pool.cpp
+++ b/src/model/string-pool.cpp
@@ -121,6 +121,8 @@ StringId StringPool::emplace(std::string_view const& str)
 
         // The highest id value is never handed out, so that nextId_ cannot wrap.
         if (nextId_ == std::numeric_limits<StringId>::max()) {
+            // The error handler may use the pool.
+            lock.unlock();
             raise<std::overflow_error>("StringPool id overflow!");
         }
 
@@ -271,6 +273,8 @@ void StringPool::read(std::istream& inputStream)
     }
 
     if (s.adapter().error() != bitsery::ReaderError::NoError) {
+        // The error handler may use the pool.
+        stringStoreWriteAccess_.unlock();
         raise<std::runtime_error>(fmt::format(
             "Failed to read StringPool: Error {}",
             static_cast<std::underlying_type_t<bitsery::ReaderError>>(s.adapter().error())));
-- 
2.43.0


From dfe334a65e301a5081952d161254fdf6f7b031f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:41 +0000
Subject: [PATCH 24/24] fix: do not fold a sum of unknown values to a constant

sum() treated values which are not known yet at compile time as null, so
sum(a, $sum + $val) was folded to null; for nested sums, whether this
happened depended on which names the string pool knew when the query was
compiled.
---
 src/function.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/function.cpp b/src/function.cpp
index 5e3b7c0..3c2d01c 100644
--- a/src/function.cpp
+++ b/src/function.cpp
@@ -584,23 +584,38 @@ auto SumFn::eval(Context ctx, Value val, const std::vector<ExprPtr>& args, const
         raise<std::runtime_error>("sum: Expected at least 1 argument; got "s + std::to_string(args.size()));
 
     Value sum = Value::make((int64_t)0);
+    auto undef = false; /* At least one value is undef */
 
     const Expr* subexpr = args.size() >= 2 ? args[1].get() : nullptr;
     const Expr* initval = args.size() == 3 ? args[2].get() : nullptr;
     if (initval)
         (void)initval->eval(ctx, val, LambdaResultFn([&](Context ctx, Value vv) {
+            if (ctx.phase == Context::Phase::Compilation && vv.isa(ValueType::Undef)) {
+                undef = true;
+                return Result::Stop;
+            }
             sum = std::move(vv);
             return Result::Continue;
         }));
 
     (void)args[0]->eval(ctx, val, LambdaResultFn([&, n = 0](Context ctx, Value vv) mutable {
+        if (ctx.phase == Context::Phase::Compilation) {
+            if (undef || vv.isa(ValueType::Undef)) {
+                undef = true;
+                return Result::Stop;
+            }
+        }
         if (subexpr) {
             auto ov = model_ptr<OverlayNode>::make(vv);
             ov->set(StringPool::OverlaySum, sum);
             ov->set(StringPool::OverlayValue, vv);
             ov->set(StringPool::OverlayIndex, Value::make((int64_t)n++));
 
-            subexpr->eval(ctx, Value::field(ov), LambdaResultFn([&ov, &sum](auto ctx, auto vv) {
+            subexpr->eval(ctx, Value::field(ov), LambdaResultFn([&ov, &sum, &undef](auto ctx, auto vv) {
+                if (ctx.phase == Context::Phase::Compilation && vv.isa(ValueType::Undef)) {
+                    undef = true;
+                    return Result::Stop;
+                }
                 ov->set(StringPool::OverlaySum, vv);
                 sum = vv;
                 return Result::Continue;
@@ -613,9 +628,13 @@ auto SumFn::eval(Context ctx, Value val, const std::vector<ExprPtr>& args, const
             }
         }
 
-        return Result::Continue;
+        return undef ? Result::Stop : Result::Continue;
     }));
 
+    /* A sum of values that are not known yet must not be folded to a constant. */
+    if (undef)
+        return res(std::move(ctx), Value::undef());
+
     return res(std::move(ctx), sum);
 }
 
-- 
2.43.0

