property = "C16"
needs = "An error of the same type is raised by a second thread while the handler is running for the first, or the handler itself throws."
breaks = "The second error is not reported to the handler."
edits = [("include/simfil/exception-handler.h", "        excHandler(typeName, errorMessage);\n", "        // Errors raised by the handler itself must not call it again.\n        static std::atomic_flag busy = ATOMIC_FLAG_INIT;\n        if (!busy.test_and_set()) {\n            excHandler(typeName, errorMessage);\n            busy.clear();\n        }\n"),
 ("include/simfil/exception-handler.h", "#include <functional>\n", "#include <atomic>\n#include <functional>\n")]
config = 'SOURCES="src/exception-handler.cpp"\n'
demo = r"""
#include "simfil/exception-handler.h"
#include <atomic>
#include <barrier>
#include <cstdio>
#include <stdexcept>
#include <thread>
#include <unistd.h>
int main()
{
    std::atomic<int> reports{0};
    simfil::ThrowHandler::instance().set([&](auto&, auto&) { ++reports; usleep(100000); });
    std::barrier b(2);
    auto fail = [&] { b.arrive_and_wait(); try { simfil::raise<std::runtime_error>("failure"); } catch (std::runtime_error&) {} };
    std::thread t(fail);
    fail();
    t.join();
    std::printf("%d reports\n", reports.load());
    return reports == 2 ? 0 : 1;
}
"""
