property = "C21"
needs = "One thread looks up the same field name in models with different string pools one after the other."
breaks = "The id of the first pool is used for the second: the field is not found or another one is returned."
edits = [("src/model/nodes.cpp", "    if (fieldId == StringPool::Empty && !fieldName.empty())\n        return {};\n    return get(fieldId);", "    if (fieldId == StringPool::Empty && !fieldName.empty())\n        return {};\n    // Names are often looked up in many objects in a row.\n    thread_local std::string lastName;\n    thread_local StringId lastId = 0;\n    if (lastId == 0 || lastName != fieldName) {\n        lastName = fieldName;\n        lastId = fieldId;\n    }\n    return get(lastId);")]
demo = r"""
#include "demo.h"
int main()
{
    auto a = json::parse(R"({"x": 1, "y": 2})"), b = json::parse(R"({"w": 0, "x": 3})");
    auto oa = a->resolveObject(a->root(0)), ob = b->resolveObject(b->root(0));
    CHECK(std::get<int64_t>(oa->get("x")->value()) == 1);
    auto x = ob->get("x");
    CHECK(x);
    CHECK(std::get<int64_t>(x->value()) == 3);
}
"""
