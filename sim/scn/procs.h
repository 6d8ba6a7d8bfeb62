// A model class derived by the user: objects with computed fields in a column of its own.
#pragma once
#include "poolmodel.h"
#include "simfil/model/model.h"
#include "simfil/model/nodes.h"

namespace pm
{
// Throw on demand: `fuse` counts calls down, at 0 the operation throws `Boom`.
struct Boom : std::runtime_error { using std::runtime_error::runtime_error; };
struct Fuse
{
    int64_t left = 0;     // 0: never
    bool fired = false;
};
inline thread_local Fuse* fuse = nullptr;    // of the current simulated thread
inline void (*on_burn)(const char* where) = nullptr;
inline void burn(const char* where)
{
    if (on_burn) on_burn(where);
    if (!fuse || !fuse->left) return;
    if (--fuse->left == 0) {
        fuse->fired = true;
        { sim::Quiet q; sim_count("fault.user_code_throws", 1); }
        throw Boom(std::string("boom in ") + where);
    }
}

class ProcModel : public simfil::ModelPool
{
public:
    enum { Procs = FirstCustomColumnId + 3 };
    // A computed field: a node kept elsewhere in the model, or a value made up on each access.
    struct Field
    {
        simfil::StringId id;
        simfil::ModelNodeAddress addr;        // no pointer: a model must not keep itself alive
        simfil::ScalarValueType value;
    };
    struct Rec { std::vector<Field> fields; simfil::ArrayIndex members; };
    struct Node : simfil::ProceduralObject<2, Node, ProcModel>
    {
        Node(const Rec& r, simfil::ModelConstPtr m, simfil::ModelNodeAddress a)
            : simfil::ProceduralObject<2, Node, ProcModel>(r.members, std::move(m), a)
        {
            for (auto& f : r.fields)
                fields_.emplace_back(f.id, [&f](const Node& self) {
                    burn("procedural field");
                    if (f.addr) return simfil::ModelNode::Ptr::make(self.model_, f.addr);
                    return simfil::ModelNode::Ptr(simfil::model_ptr<simfil::ValueNode>::make(f.value, self.model_));
                });
        }
    };
    using ModelPool::ModelPool;
    void resolve(const simfil::ModelNode& n, const ResolveFn& cb) const override
    {
        if (n.addr().column() != Procs) return ModelPool::resolve(n, cb);
        if (n.addr().index() >= recs_.size()) throw std::runtime_error("bad procedural object");
        cb(Node(*recs_[n.addr().index()], shared_from_this(), n.addr()));
    }
    simfil::ModelNode::Ptr add(Rec r)
    {
        recs_.push_back(std::make_unique<Rec>(std::move(r)));
        return simfil::ModelNode::Ptr::make(shared_from_this(), simfil::ModelNodeAddress{(uint8_t)Procs, (uint32_t)recs_.size() - 1});
    }
    size_t procs() const { return recs_.size(); }

private:
    std::vector<std::unique_ptr<Rec>> recs_;
};
}
