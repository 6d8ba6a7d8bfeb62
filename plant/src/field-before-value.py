property = "C08"
needs = "Memory runs out while the text of a string member is stored, after the member itself was added."
breaks = "A failed addField() leaves a member without a value behind."
edits = [("src/model/nodes.cpp", """Object& Object::addField(std::string_view const& name, std::string_view const& value) {
    auto fieldId = model().strings()->emplace(name);
    storage_->emplace_back(members_, fieldId, model().newValue(value)->addr());
""", """Object& Object::addField(std::string_view const& name, std::string_view const& value) {
    auto fieldId = model().strings()->emplace(name);
    auto& member = storage_->emplace_back(members_, fieldId, ModelNodeAddress{});
    member.node_ = model().newValue(value)->addr();
""")]
demo = r"""
#include "demo.h"
#include "oom.h"
int main()
{
    auto m = std::make_shared<ModelPool>();
    auto o = m->newObject(2);
    m->addRoot(ModelNode::Ptr(o));
    std::string big(100000, 'x');
    for (int k = 0; k < 8; ++k)
        for (long n = 1; n < 50; ++n) {
            auto name = "f" + std::to_string(k);
            auto before = o->size();
            failIn = n; failed = false;
            bool threw = false;
            try { o->addField(name, std::string_view(big)); } catch (std::bad_alloc&) { threw = true; }
            failIn = 0;
            CHECK(o->size() == before + (threw ? 0 : 1));
            CHECK(m->checkForErrors().empty());
            if (!failed) break;
        }
}
"""
