property = "C04"
needs = "Updates of a follower arrive out of order (an older part after a newer one) and the follower then interns a name of its own."
breaks = "The follower's own name gets an id which the source has given to another name."
edits = [("src/model/string-pool.cpp", "            nextId_ = std::max<StringId>(nextId_, stringId + 1);", "            if (stringId >= FirstDynamicId)\n                nextId_ = stringId + 1;")]
config = 'SOURCES="src/model/string-pool.cpp src/exception-handler.cpp"\n'
demo = r"""
#include "demo.h"
int main()
{
    StringPool src, dst;
    std::stringstream early, late;
    for (int i = 0; i < 10; ++i) src.emplace("first" + std::to_string(i));
    src.write(early, StringPool::FirstDynamicId);
    auto from = src.highest() + 1;
    for (int i = 0; i < 10; ++i) src.emplace("second" + std::to_string(i));
    src.write(late, from);
    dst.read(late);
    dst.read(early);
    for (int i = 0; i < 5; ++i) CHECK(dst.emplace("own" + std::to_string(i)) > src.highest());
    for (StringId i = StringPool::FirstDynamicId; i <= src.highest(); ++i) CHECK(dst.resolve(i) && *dst.resolve(i) == *src.resolve(i));
}
"""
