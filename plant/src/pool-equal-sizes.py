property = "C09"
needs = "A model is switched to a pool that has as many names as the old one, with other ids."
breaks = "The fields are not translated and show other names than before."
edits = [("src/model/string-pool.cpp", "    return idForString_ == other.idForString_;", "    // Ids are handed out in order and never change.\n    return idForString_.size() == other.idForString_.size() && nextId_ == other.nextId_;")]
demo = r"""
#include "demo.h"
int main()
{
    auto a = std::make_shared<StringPool>(), b = std::make_shared<StringPool>();
    a->emplace("one"); a->emplace("two");
    b->emplace("two"); b->emplace("one");
    auto m = std::make_shared<ModelPool>(a);
    auto o = m->newObject(2);
    o->addField("one", uint16_t(1)).addField("two", uint16_t(2));
    m->addRoot(ModelNode::Ptr(o));
    auto before = m->toJson();
    m->setStrings(b);
    CHECK(m->toJson() == before);
}
"""
