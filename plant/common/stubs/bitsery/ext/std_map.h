#pragma once
#include "../details/all.h"
namespace bitsery::ext
{
class StdMap
{
public:
    constexpr explicit StdMap(size_t m) : m_(m) {}
    template <typename S, typename T, typename F>
    void serialize(S& s, const T& o, F&& f) const
    {
        details::writeSize(s.adapter(), o.size());
        for (auto& v : o) f(s, const_cast<typename T::key_type&>(v.first), const_cast<typename T::mapped_type&>(v.second));
    }
    template <typename S, typename T, typename F>
    void deserialize(S& s, T& o, F&& f) const
    {
        size_t n{};
        details::readSize(s.adapter(), n, m_);
        o.clear();
        for (size_t i = 0; i < n; ++i) {
            typename T::key_type k{};
            typename T::mapped_type v{};
            f(s, k, v);
            o.emplace(std::move(k), std::move(v));
        }
    }
private:
    size_t m_;
};
}
