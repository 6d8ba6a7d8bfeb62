// Stand-in for sfl::small_vector: same interface as std::vector (the in-place buffer is an optimisation).
#pragma once
#include <cstddef>
#include <vector>

namespace sfl
{
template <typename T, std::size_t N, typename Allocator = std::allocator<T>>
class small_vector : public std::vector<T, Allocator>
{
public:
    using std::vector<T, Allocator>::vector;
    static constexpr std::size_t static_capacity() noexcept { return N; }
};
}
