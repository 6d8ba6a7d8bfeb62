property = "C02"
needs = "More than 512 names are interned while somebody still holds a name that was resolved earlier."
breaks = "Names handed out earlier dangle once the storage of the names is moved to a bigger one."
edits = [("include/simfil/model/string-pool.h", "#include <deque>\n", "#include <vector>\n"),
 ("include/simfil/model/string-pool.h", "    std::deque<std::string> storedStrings_;", "    std::vector<std::string> storedStrings_;"),
 ("src/model/string-pool.cpp", "StringPool::StringPool()\n{\n", "StringPool::StringPool()\n{\n    storedStrings_.reserve(512);\n")]
config = 'SOURCES="src/model/string-pool.cpp src/exception-handler.cpp"\nFLAGS="-fsanitize=address"\n'
demo = r"""
#include "demo.h"
int main()
{
    StringPool p;
    std::vector<std::pair<std::string, std::string_view>> names;
    for (int i = 0; i < 5000; ++i) {
        auto n = "n" + std::to_string(i);
        names.emplace_back(n, *p.resolve(p.emplace(n)));
    }
    for (auto& [n, v] : names) CHECK(n == v);
    for (auto& [n, v] : names) CHECK(*p.resolve(p.get(n)) == n);
}
"""
