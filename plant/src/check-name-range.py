property = "C07"
needs = "A corrupted image in which a field's name id lies between the static and the dynamic ids (or in a gap), i.e. below the highest id but unused."
breaks = "The error check reports nothing for a model with a field that has no name."
edits = [("src/model/model.cpp", "        if (!impl_->strings_->resolve(str))\n", "        if (str > impl_->strings_->highest())\n")]
demo = r"""
#include "demo.h"
int main()
{
    auto pool = std::make_shared<StringPool>();
    auto m = std::make_shared<ModelPool>(pool);
    auto o = m->newObject(2);
    o->addField("alpha", uint16_t(1));
    m->addRoot(ModelNode::Ptr(o));
    std::stringstream s;
    m->write(s);
    auto image = s.str();
    auto id = pool->get("alpha");
    int damaged = 0;
    for (size_t i = 0; i + 1 < image.size(); ++i)
        if ((unsigned char)image[i] == (id & 255) && (unsigned char)image[i + 1] == (id >> 8)) {
            auto bad = image;
            bad[i] = 77; bad[i + 1] = 0;
            auto r = std::make_shared<ModelPool>(pool);
            std::stringstream in(bad);
            try { r->read(in); } catch (std::exception&) { continue; }
            ++damaged;
            if (r->checkForErrors().empty())
                for (auto const& [name, value] : r->root(0)->fields()) CHECK(pool->resolve(name));
        }
    CHECK(damaged > 0);
}
"""
