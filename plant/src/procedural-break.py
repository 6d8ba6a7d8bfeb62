property = "C14"
needs = "The consumer stops at a computed field of an object that also has stored fields."
breaks = "Only the computed fields are left out: the consumer is called again for the stored fields."
edits = [("include/simfil/model/nodes.h", "            if (!cb(*vv))\n                return false;\n        }\n        if (members_ != InvalidArrayIndex)\n            return Object::iterate(cb);\n        return true;", "            if (!cb(*vv))\n                break;\n        }\n        if (members_ != InvalidArrayIndex)\n            return Object::iterate(cb);\n        return true;")]
demo = r"""
#include "demo.h"
#include <sfl/small_vector.hpp>
struct Computed : ProceduralObject<2, Computed>
{
    template <typename> friend struct simfil::model_ptr;
    Computed() = default;
    Computed(ModelConstPtr m, ModelNodeAddress a) : ProceduralObject((ArrayIndex)a.index(), std::move(m), a)
    {
        for (int i = 0; i < 2; ++i)
            fields_.emplace_back(model().strings()->get(i ? "twice" : "once"), [i](Computed const& self) { return self.model().newValue((int64_t)(i + 1)); });
    }
};
struct M : ModelPool
{
    using ModelPool::ModelPool;
    void resolve(ModelNode const& n, ResolveFn const& cb) const override
    {
        if (n.addr().column() == 130) cb(*model_ptr<Computed>::make(shared_from_this(), n.addr()));
        else ModelPool::resolve(n, cb);
    }
};
int main()
{
    auto pool = std::make_shared<StringPool>();
    pool->emplace("once");
    pool->emplace("twice");
    auto m = std::make_shared<M>(pool);
    auto o = m->newObject(2);
    o->addField("a", (int64_t)10);
    o->addField("b", (int64_t)20);
    m->addRoot(ModelNode::Ptr::make(m, ModelNodeAddress{130, o->addr().index()}));
    Environment env(pool);
    auto e = compile(env, "*", false);
    CHECK(eval(env, *e, *m->root(0)).size() == 4);
    for (int stop = 1; stop <= 4; ++stop) {
        int calls = 0;
        auto r = e->eval(Context(&env), Value::field(*m->root(0)), LambdaResultFn([&](Context, Value) { return ++calls >= stop ? Result::Stop : Result::Continue; }));
        CHECK(calls == stop);
        CHECK(r == Result::Stop);
    }
}
"""
