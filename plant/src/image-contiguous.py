property = "C06"
needs = "An array or object that has grown beyond its initial capacity after other arrays were created is written and read back."
breaks = "Members in continuation chunks are written from the wrong place: the restored model differs."
edits = [("include/simfil/model/bitsery-traits.h", "            for (size_t j = 0; j < size; ++j)\n                fnc(s, const_cast<ElementType&>(arena.at(i, j)));", "            auto const offset = arena.heads_[i].offset;\n            for (size_t j = 0; j < size; ++j)\n                fnc(s, const_cast<ElementType&>(arena.data_[offset + j]));")]
demo = r"""
#include "demo.h"
int main()
{
    auto pool = std::make_shared<StringPool>();
    auto m = std::make_shared<ModelPool>(pool);
    auto a = m->newArray(1);
    auto b = m->newArray(1);
    for (int i = 0; i < 20; ++i) { a->append(uint16_t(i)); b->append(uint16_t(100 + i)); }
    m->addRoot(ModelNode::Ptr(a)); m->addRoot(ModelNode::Ptr(b));
    std::stringstream s;
    m->write(s);
    auto r = std::make_shared<ModelPool>(pool);
    r->read(s);
    CHECK(r->toJson() == m->toJson());
}
"""
