# A fifth set: shipping models with partial pool updates; what is remembered about names that are missing.
SP="src/model/string-pool.cpp"; M="src/model/model.cpp"; N="src/model/nodes.cpp"; NI="include/simfil/model/nodes.impl.h"
F="src/function.cpp"; S="src/simfil.cpp"; SH="include/simfil/model/string-pool.h"; BT="include/simfil/model/bitsery-traits.h"
MUT=[
("p24-field-neg", "C24", S, "        if (!nameId) {\n            nameId = ctx.env->strings()->get(name_);\n            nameId_.store(nameId, std::memory_order_relaxed);\n        }", "        if (!tried_.exchange(true) || nameId) {\n            nameId = ctx.env->strings()->get(name_);\n            nameId_.store(nameId, std::memory_order_relaxed);\n        }"),
("p24-field-emplace", "C24", S, "            nameId = ctx.env->strings()->get(name_);\n            nameId_", "            nameId = ctx.env->strings()->emplace(name_);\n            nameId_"),
("p24-read-validate", "C24", M, "void ModelPool::read(", "void ModelPool::readRaw("),
("p24-json-id", "C24", N, "            if (auto resolvedField = model_->lookupStringId(fieldId)) {", "            auto resolvedField = model_->lookupStringId(fieldId);\n            if (!resolvedField) resolvedField = \"?\";\n            {"),
("p24-json-all", "C24", N, "            if (auto resolvedField = model_->lookupStringId(fieldId)) {", "            auto resolvedField = model_->lookupStringId(fieldId);\n            if (!resolvedField) break;\n            {"),
("p24-check-memo", "C24", M, "        if (!impl_->strings_->resolve(str))\n", "        static thread_local StringId bad = 0;\n        if (bad == str) errors.push_back(fmt::format(\"Bad string ID: {}\", str));\n        else if (!impl_->strings_->resolve(str) && (bad = str))\n"),
("p24-check-highest", "C24", M, "        if (!impl_->strings_->resolve(str))\n", "        if (str > impl_->strings_->highest())\n"),
("p24-check-above", "C24", M, "        if (!impl_->strings_->resolve(str))\n", "        if (str <= impl_->strings_->highest() && !impl_->strings_->resolve(str))\n"),
("p24-lookup-neg", "C24", M, "    return impl_->strings_->resolve(id);", "    static thread_local StringId missing = 0;\n    if (id && id == missing) return {};\n    auto s = impl_->strings_->resolve(id);\n    if (!s) missing = id;\n    return s;"),
("p24-write-gap", "C24,C04", SP, "        if (it != stringForId_.end())\n            ++sendStrCount;\n", "        if (it == stringForId_.end()) break;\n        ++sendStrCount;\n"),
("p24-keyat", "C24", NI, "", ""),
("p24-write-names", "C24", BT, "", ""),
("p24-get-emplace", "C24", N, "    auto fieldId = model().strings()->get(fieldName);\n", "    auto fieldId = model().strings()->emplace(fieldName);\n"),
("p24-read-next", "C24,C04", SP, "            nextId_ = std::max<StringId>(nextId_, stringId + 1);\n", "            nextId_ = stringId + 1;\n"),
("p24-read-skip-old", "C24,C04", SP, "        if (idForString_.find(stringValue) == idForString_.end()) {", "        if (stringId >= nextId_ && idForString_.find(stringValue) == idForString_.end()) {"),
("p24-read-break-known", "C24,C04", SP, "            nextId_ = std::max<StringId>(nextId_, stringId + 1);\n        }\n", "            nextId_ = std::max<StringId>(nextId_, stringId + 1);\n        } else if (stringId < FirstDynamicId) break;\n"),
("p24-read-renumber", "C24,C04", SP, "            insert(stringValue, stringId);\n            byteSize_", "            if (stringId > nextId_ && i == 0 && rcvStringCount == 1) stringId = nextId_;\n            insert(stringValue, stringId);\n            byteSize_"),
("p24-resolve-highest", "C24,C04", SP, "    auto it = stringForId_.find(id);\n    if (it != stringForId_.end())\n        return it->second;\n    return std::nullopt;", "    auto it = stringForId_.find(id);\n    if (it != stringForId_.end() && id - FirstDynamicId < (int)storedStrings_.size() + 40)\n        return it->second;\n    return std::nullopt;"),
("p24-keys-stop", "C24", F, "                if (auto key = ctx.env->stringPool->resolve(fieldName)) {\n", "                auto key = ctx.env->stringPool->resolve(fieldName);\n                if (!key) break;\n                {\n"),
("p24-subscr-memo", "C24", S, "                        if (auto keyStrId = ctx.env->strings()->get(key))\n", "                        static thread_local std::string lastKey; static thread_local StringId lastId = 0;\n                        if (lastKey != key) { lastKey = key; lastId = ctx.env->strings()->get(key); }\n                        if (auto keyStrId = lastId)\n"),
("p24-model-read-strings", "C24", M, "", ""),
]
EXTRA={
 "p24-field-neg": [(S, "    mutable std::atomic<StringId> nameId_ = {};", "    mutable std::atomic<StringId> nameId_ = {};\n    mutable std::atomic<bool> tried_ = false;")],
 "p24-read-validate": [(M, "void ModelPool::write(", "void ModelPool::read(std::istream& in)\n{\n    readRaw(in);\n    validate();\n}\n\nvoid ModelPool::write("), ("include/simfil/model/model.h", "    virtual void read(std::istream& inputStream);", "    virtual void read(std::istream& inputStream);\n    void readRaw(std::istream& inputStream);")],
}
MUT=[m for m in MUT if m[3]]
