property = "C20"
needs = "All documents are taken by worker threads that are still busy when the main thread starts waiting for them."
breaks = "Parallel mode does not wait for workers once no document is left to take: results are missing, and workers use memory that is gone."
edits = [("repl/repl.cpp", "    for (auto& thread : threads)\n        if (thread.joinable())\n            thread.join();\n", "    for (auto& thread : threads) {\n        // Nothing left to do: no need to wait.\n        if (idx >= model->numRoots())\n            thread.detach();\n        else if (thread.joinable())\n            thread.join();\n    }\n")]
config = 'SOURCES="src/*.cpp src/model/*.cpp repl/repl.cpp"\nFLAGS="-Dmain=repl_main -include own-main.h"\n'
demo = r"""
#include "demo.h"
#include <fstream>
#undef main
int repl_main(int, char**);
static std::string big;
static std::string session(bool mt, int docs)
{
    std::vector<std::string> args{"repl"};
    for (int i = 0; i < docs; ++i) {
        auto f = "doc" + std::to_string(i) + ".json";
        std::ofstream(f) << "{\"a\": " << i << ", \"big\": [" << big << "]}";
        args.push_back(f);
    }
    std::vector<char*> argv;
    for (auto& a : args) argv.push_back(a.data());
    argv.push_back(nullptr);
    // the tool's options outlive a session: switch back at the end
    std::stringstream in(mt ? "/verbose\nsum(big.*)\n/verbose\n" : "/verbose\n/mt\nsum(big.*)\n/mt\n/verbose\n"), out;
    auto i = std::cin.rdbuf(in.rdbuf());
    auto o = std::cout.rdbuf(out.rdbuf());
    std::cin.clear();
    repl_main(argv.size() - 1, argv.data());
    std::cin.rdbuf(i); std::cout.rdbuf(o);
    auto text = out.str();
    auto at = text.find("Result:"), end = text.find("> ", at);
    CHECK(at != text.npos);
    return text.substr(at, end - at);
}
int main()
{
    big = "1";
    for (int i = 0; i < 60000; ++i) big += ",1";
    for (int docs : {2, 3, 9}) {
        auto a = session(true, docs), b = session(false, docs);
        if (a != b) { std::printf("%d documents:\n%s\n%s\n", docs, a.c_str(), b.c_str()); return 1; }
    }
}
"""
