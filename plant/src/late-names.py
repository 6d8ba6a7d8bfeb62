property = "C24"
needs = "A model is read before the string pool update that brings its names, looked at, and looked at again after the update."
breaks = "A name that was missing once stays missing for this thread when it arrives."
edits = [("src/model/model.cpp", "    return impl_->strings_->resolve(id);", "    // Incomplete models ask for the same missing names again and again.\n    static thread_local struct { const StringPool* pool = nullptr; StringId id = 0; } missing;\n    if (missing.pool == impl_->strings_.get() && missing.id == id)\n        return {};\n    auto name = impl_->strings_->resolve(id);\n    if (!name)\n        missing = {impl_->strings_.get(), id};\n    return name;")]
demo = r"""
#include "demo.h"
int main()
{
    auto source = std::make_shared<StringPool>(), there = std::make_shared<StringPool>();
    auto m = std::make_shared<ModelPool>(source);
    auto o = m->newObject(2);
    o->addField("one", uint16_t(1)).addField("two", uint16_t(2));
    m->addRoot(ModelNode::Ptr(o));
    std::stringstream image, names;
    m->write(image);
    source->write(names, 0);
    auto r = std::make_shared<ModelPool>(there);
    r->read(image);
    CHECK(!r->checkForErrors().empty());
    CHECK(r->root(0)->size() == 2);
    CHECK(r->root(0)->toJson().empty());
    CHECK(!r->lookupStringId(r->root(0)->keyAt(0)));
    there->read(names);
    CHECK(r->checkForErrors().empty());
    CHECK(r->toJson() == m->toJson());
    CHECK(r->lookupStringId(r->root(0)->keyAt(0)) == "one");
}
"""
