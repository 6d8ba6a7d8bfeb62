property = "C22"
needs = "Two threads check the same model for errors at the same time."
breaks = "The result of the check is remembered in the model without synchronization: data race while others read or copy it."
edits = [("src/model/model.cpp", "    /// This model pool's field name store\n    std::shared_ptr<StringPool> strings_;\n", """    /// This model pool's field name store
    std::shared_ptr<StringPool> strings_;

    /// Errors found by the last check, and the size of the model and the names it was made with
    std::vector<std::string> errors_;
    size_t checkedSize_ = 0;
    std::shared_ptr<StringPool> checkedStrings_;
"""), ("src/model/model.cpp", "    std::vector<std::string> errors;\n\n    auto validateArrayIndex", """    auto& errors = impl_->errors_;
    size_t size = 1 + numRoots();
    for (size_t i = 0; i < impl_->columns_.objectMemberArrays_.size(); ++i)
        size = 31 * size + impl_->columns_.objectMemberArrays_.size((ArrayIndex)i);
    for (size_t i = 0; i < impl_->columns_.arrayMemberArrays_.size(); ++i)
        size = 31 * size + impl_->columns_.arrayMemberArrays_.size((ArrayIndex)i);
    if (errors.empty() && size == impl_->checkedSize_ && impl_->checkedStrings_ == impl_->strings_)
        return errors;
    errors.clear();
    impl_->checkedSize_ = size;
    impl_->checkedStrings_ = impl_->strings_;

    auto validateArrayIndex"""), ("src/model/model.cpp", "    impl_->readWrite(s);\n    if (s.adapter().error() != bitsery::ReaderError::NoError) {", "    impl_->checkedSize_ = 0;\n    impl_->readWrite(s);\n    if (s.adapter().error() != bitsery::ReaderError::NoError) {")]
config = 'CXX=clang++\nFLAGS="-fsanitize=thread -include compat.h"\n'
demo = r"""
#include "demo.h"
int main()
{
    std::string text = "[";
    for (int i = 0; i < 50; ++i) text += "{\"a\": [1, 2, {\"b\": 3}], \"c\": \"d\"}, ";
    auto m = json::parse(text + "0]");
    std::vector<std::thread> ts;
    std::stringstream image;
    m->write(image);
    auto n = std::make_shared<ModelPool>(m->strings());
    n->read(image);
    for (int t = 0; t < 4; ++t)
        ts.emplace_back([&] { for (int i = 0; i < 10; ++i) CHECK(n->checkForErrors().empty()); });
    for (auto& t : ts) t.join();
}
"""
