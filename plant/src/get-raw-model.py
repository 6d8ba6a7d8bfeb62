property = "C19"
needs = "A node obtained by the name of its field is used after everything else that refers to the model has been released."
breaks = "The node does not keep its model alive: use after free."
edits = [("include/simfil/model/nodes.impl.h", "                result = ModelNode::Ptr::make(model_, member.node_);", "                // The caller has the model already, avoid counting the reference.\n                result = ModelNode::Ptr::make(ModelConstPtr(ModelConstPtr(), model_.get()), member.node_);")]
config = 'FLAGS="-fsanitize=address"\n'
demo = r"""
#include "demo.h"
int main()
{
    auto m = json::parse(R"({"a": {"b": "some text that is long enough"}})");
    auto id = m->strings()->get("a"), idb = m->strings()->get("b");
    ModelNode::Ptr n;
    try {
        n = m->root(0)->get(id);
        m.reset();
        auto b = n->get(idb);
        n = nullptr;
        auto v = b->value();
        CHECK(std::holds_alternative<std::string_view>(v) || std::holds_alternative<std::string>(v));
        CHECK(b->type() == ValueType::String);
    } catch (std::exception& e) { std::printf("failed: %s\n", e.what()); return 1; }
}
"""
