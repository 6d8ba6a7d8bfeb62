property = "C12"
needs = "Two threads compile queries that name fields at the same time, or an environment defines as a constant a word that was compiled as a field before."
breaks = "Words known not to be constants are remembered for the whole process without synchronization: data race, and constants of later environments are taken for fields."
edits = [("src/environment.cpp", "    if (const auto iter = constants.find(name); iter != constants.end())\n        return &iter->second;\n    return nullptr;", """    // Most words are fields: no need to look them up again.
    static std::map<std::string, bool, CaseInsensitiveCompare> fields;
    if (!constants.empty() && fields.find(name) != fields.end())
        return nullptr;
    const auto iter = constants.find(name);
    if (iter != constants.end())
        return &iter->second;
    fields.try_emplace(name, true);
    return nullptr;""")]
config = 'CXX=clang++\nFLAGS="-fsanitize=thread -include compat.h"\n'
demo = r"""
#include "demo.h"
int main()
{
    auto pool = std::make_shared<StringPool>();
    Environment env(pool);
    env.constants.emplace("limit", Value::make((int64_t)7));
    std::vector<std::thread> ts;
    for (int t = 0; t < 4; ++t)
        ts.emplace_back([&, t] {
            for (int i = 0; i < 60; ++i) {
                auto e = compile(env, "field" + std::to_string(t * 100 + i) + " < limit", false);
                CHECK(e->toString() == "(< field" + std::to_string(t * 100 + i) + " 7)");
            }
        });
    for (auto& t : ts) t.join();
    Environment later(pool);
    later.constants.emplace("field1", Value::make((int64_t)3));
    CHECK(compile(later, "field1", false)->toString() == "3");
}
"""
