property = "C05"
needs = "The stream ends within the image (not at its start), so that some names have been read before."
breaks = "A truncated pool image is accepted without an error."
edits = [("src/model/string-pool.cpp", "    // Read strings\n    for (auto i = 0; i < rcvStringCount; ++i) {", "    // Read strings\n    auto received = 0;\n    for (auto i = 0; i < rcvStringCount; ++i, ++received) {"), ("src/model/string-pool.cpp", "    if (s.adapter().error() != bitsery::ReaderError::NoError) {\n        raise<std::runtime_error>(fmt::format(\n            \"Failed to read StringPool", "    // A partial update is fine: The names received so far are complete.\n    if (s.adapter().error() != bitsery::ReaderError::NoError && received == 0) {\n        raise<std::runtime_error>(fmt::format(\n            \"Failed to read StringPool")]
config = 'SOURCES="src/model/string-pool.cpp src/exception-handler.cpp"\n'
demo = r"""
#include "demo.h"
int main()
{
    StringPool src;
    for (int i = 0; i < 10; ++i) src.emplace("name" + std::to_string(i));
    std::stringstream out;
    src.write(out, StringPool::FirstDynamicId);
    auto image = out.str();
    for (size_t cut = 0; cut <= image.size(); ++cut) {
        std::stringstream in(image.substr(0, cut));
        StringPool dst;
        bool threw = false;
        try { dst.read(in); } catch (std::exception&) { threw = true; }
        CHECK(threw == (cut < image.size()));
    }
}
"""
