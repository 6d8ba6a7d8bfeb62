property = "C10"
needs = "A load into a model runs out of memory (or the model is emptied) after some strings of the document were stored; then a document with the same strings is loaded into a model at the same address."
breaks = "The strings of the second document refer to string entries that belong to something else or do not exist."
edits = [("src/model/json.cpp", "        return model.newValue(j.get<std::string>());", """        // Equal strings are stored once.
        {
            thread_local std::unordered_map<std::string, ModelNodeAddress> known;
            thread_local ModelPool const* owner = nullptr;
            if (owner != &model) {
                known.clear();
                owner = &model;
            }
            auto text = j.get<std::string>();
            auto& address = known[text];
            if (!address)
                address = model.newValue(text)->addr();
            return ModelNode::Ptr::make(model.shared_from_this(), address);
        }"""), ("src/model/json.cpp", "#include <nlohmann/json.hpp>\n", "#include <nlohmann/json.hpp>\n#include <unordered_map>\n")]
demo = r"""
#include "demo.h"
int main()
{
    // Whatever the allocator does: one of these models is where an earlier one was.
    for (int i = 0; i < 50; ++i) {
        auto m = std::make_shared<ModelPool>();
        for (int k = 0; k <= i % 3; ++k) {
            std::stringstream in(i % 2 ? R"(["one", "two", "three"])" : R"(["three", "one", "four", "two"])");
            json::parse(in, m);
        }
        auto j = m->toJson();
        for (auto& r : j) CHECK(r.dump() == (i % 2 ? R"(["one","two","three"])" : R"(["three","one","four","two"])"));
    }
}
"""
