// C20: the interactive tool answers the same with parallel evaluation on and off, and ends with its input.
#include "queries.h"
#include <sys/mman.h>
#include <unistd.h>
#include <iostream>
using namespace pm;
using sim::must;

int sim_repl_main(int argc, char** argv);   // repl/repl.cpp

static void gen(Rng& r, Plan& p, int thorough)
{
    p.th.resize(1);
    p.par["hw"] = r.range(1, thorough ? 12 : 8);
    p.par["mt"] = r.below(4);       // 0: switched on and off between the commands, else: on
    p.par["chunk"] = r.chance(1, 2) ? r.range(1, 8) : 0;
    p.par["consts"] = r.below(4);
    if (r.chance(1, 4)) { p.par["cut"] = r.logrange(0, 400); p.par["cutmode"] = r.below(2); }
    p.par["nothread"] = r.chance(1, 4) ? r.logrange(1, 30) : 0;   // threads cannot be started
    p.par["nothreads"] = r.chance(1, 2);
    int nd = r.chance(1, 12) ? 0 : (int)r.range(1, thorough ? 16 : 9);
    p.par["tail"] = nd && r.chance(1, 5);
    int sick = (int)r.range(0, 3);
    for (int i = 0; i < nd; ++i) p.th[0].push_back({"file", {(int64_t)r.below(1000000), r.logrange(1, 12), (int64_t)r.below(3), sick ? (int64_t)r.below(sick * 3) : 5, (int64_t)r.below(8)}});
    int nc = (int)r.range(1, thorough ? 10 : 6);
    for (int i = 0; i < nc; ++i) {
        switch (r.below(8)) {
        case 0: p.th[0].push_back({"option", {(int64_t)r.below(6)}}); break;
        case 1: case 2: p.th[0].push_back({"query", {(int64_t)r.below(100000000), r.range(1, 4)}}); break;
        default: p.th[0].push_back({"known", {(int64_t)r.below(64)}});
        }
    }
}

// Documents on some of which the known queries fail, each with an error of its own.
static std::string document(const Op& op)
{
    if (op.arg(2) == 0) {
        Doc d = gen_doc(op.arg(0), op.arg(1), true);
        if (d.k != Doc::OBJ && d.k != Doc::ARR) { Doc a; a.k = Doc::ARR; a.kids.push_back({"", d}); d = a; }
        std::string s;
        json(d, s);
        return s;
    }
    static const char* a[] = {"0", "\"x\"", "[1]", "{\"z\":1}", "true", "3", "7", "2.5", "-1"};
    return std::string("{\"a\":") + a[op.arg(3) % 9] + ",\"b\":" + a[op.arg(4) % 9] + ",\"id\":" + std::to_string(op.arg(0)) + ",\"t\":[1,2,\"q" + std::to_string(op.arg(0) % 7) + "\"]}";
}
static const char* const known[] = {"10 / a", "a % b", "id", "**", "range(a, b)", "split(a, 'x')", "a + b", "id / a", "(a + 1) * b", "-a", "any(10 / b)", "count(t.*)", "sum(t.*)", "t.*{10 / a}", "trace(id / b)", "keys(**)",
    "a as int", "a == b", "*{_ > 2}", "id; a", "a..b", "#a", "5", "true", "id % a", "each(t.* / a)", "arr(id, 10 / a)", "a =~ 'x'", "~a", "a << b", "1 +", "((", "nosuch(1)", "x + 1", "y", "typeof a", "re(a)", "t.*", "t", "_"};

// The tool's console.
struct Console : std::streambuf
{
    std::string out;
    int idle = 0;               // prompts since the end of the input
    const bool* ended = nullptr;
    std::streamsize xsputn(const char* s, std::streamsize n) override { sim::Quiet q; add(s, (size_t)n); return n; }
    int_type overflow(int_type c) override
    {
        sim::Quiet q;
        if (c == traits_type::eof()) return 0;
        char ch = (char)c;
        add(&ch, 1);
        return c;
    }
    int sync() override
    {
        sim::Quiet q;
        if (*ended && ++idle > 100) sim_violation("hang", "the tool does not terminate when its input ends");
        return 0;
    }
    void add(const char* s, size_t n)
    {
        out.append(s, n);
        if (out.size() > 8000000) sim_violation("hang", "the tool prints without end");
    }
};
struct Keyboard : std::streambuf
{
    std::string d;
    int64_t chunk = 0;
    bool fails = false, ended = false;
    size_t at = 0;
    int_type underflow() override
    {
        sim::Quiet q;
        if (at >= d.size()) {
            ended = true;
            if (fails) { sim_count("fault.read_error", 1); throw sim::Injected{1}; }
            return traits_type::eof();
        }
        size_t n = d.size() - at;
        if (chunk && n > (size_t)chunk) { n = (size_t)chunk; sim_count("stream.short_read", 1); }
        setg(d.data() + at, d.data() + at, d.data() + at + n);
        at += n;
        return traits_type::to_int_type(*gptr());
    }
};

static std::string session(const std::vector<std::string>& args, const std::string& script, int64_t chunk, bool fails)
{
    Console con;
    Keyboard kb;
    kb.d = script;
    kb.chunk = chunk;
    kb.fails = fails;
    con.ended = &kb.ended;
    std::vector<std::string> copy{"simfil-repl"};
    copy.insert(copy.end(), args.begin(), args.end());
    std::vector<char*> argv;
    for (auto& a : copy) argv.push_back(a.data());
    argv.push_back(nullptr);
    auto* oi = std::cin.rdbuf(&kb);
    auto* oo = std::cout.rdbuf(&con);
    auto* oe = std::cerr.rdbuf(&con);
    std::cin.clear();
    std::cout.clear();
    std::cerr.clear();
    must("the tool", [&] { sim_repl_main((int)argv.size() - 1, argv.data()); });
    std::cin.rdbuf(oi);
    std::cout.rdbuf(oo);
    std::cerr.rdbuf(oe);
    SIM_CHECK(sim_locks_held() == 0, "lock-leak", "a lock is held after the tool has ended");
    return con.out;
}

// What a session printed, without prompts, switch reports and times.
static std::vector<std::string> answers(const std::string& out)
{
    std::vector<std::string> r;
    size_t i = 0;
    while (i < out.size()) {
        size_t e = out.find('\n', i);
        if (e == std::string::npos) e = out.size();
        std::string l = out.substr(i, e - i);
        i = e + 1;
        while (l.compare(0, 2, "> ") == 0) l.erase(0, 2);
        if (l.empty()) continue;
        if (l.compare(0, 6, "mt is ") == 0) continue;
        if (!r.empty() && r.back() == "Time:") l = "  -";
        r.push_back(l);
    }
    return r;
}

static void run(const Plan& p)
{
    sim_hw_threads((int)p.get("hw", 4));
    std::vector<int> fds;
    std::vector<std::string> args, commands;
    if (p.get("consts") & 1) args.push_back("-Dx=41");
    if (p.get("consts") & 2) { args.push_back("-D"); args.push_back("y=why"); }
    bool tail = p.get("tail");
    for (auto& op : p.th[0]) {
        if (op.kind == "file") {
            auto text = document(op);
            int fd = memfd_create("doc", 0);
            if (fd < 0 || write(fd, text.data(), text.size()) != (ssize_t)text.size()) sim_violation("harness", "no memory file");
            fds.push_back(fd);
            if (tail) args.push_back("--");
            tail = false;
            args.push_back("/proc/self/fd/" + std::to_string(fd));
            sim_log("file %zu: %s", fds.size() - 1, text.c_str());
        } else if (op.kind == "option") {
            static const char* o[] = {"/any", "/wildcard", "/verbose", "/verbose  ", "", "/unknown"};
            commands.push_back(o[op.arg(0) % 6]);
        } else if (op.kind == "query") commands.push_back(gen_query(op.arg(0), (int)op.arg(1)));
        else commands.push_back(known[(size_t)op.arg(0) % (sizeof known / sizeof *known)]);
        if (op.kind != "file") sim_log("command: %s", commands.back().c_str());
    }
    auto script = [&](bool toggles) {
        std::string s;
        Rng r((uint64_t)p.get("hw") + 77 * commands.size());
        for (auto& c : commands) {
            if (toggles && r.chance(1, 2)) s += "/mt\n";
            s += c + "\n";
        }
        return s;
    };
    // how do the switches stand?
    std::map<std::string, bool> is;
    auto note = [&](const std::string& out) {
        for (const char* o : {"any", "wildcard", "verbose", "mt"}) {
            auto on = out.rfind(std::string(o) + " is on\n"), off = out.rfind(std::string(o) + " is off\n");
            if (on == std::string::npos && off == std::string::npos) continue;
            is[o] = off == std::string::npos || on != std::string::npos && on > off;
        }
    };
    note(session({}, "/any\n/any\n/wildcard\n/wildcard\n/verbose\n/verbose\n/mt\n/mt\n", 0, false));
    SIM_CHECK(is.size() == 4, "content", "the tool does not report its switches");
    auto standard = [&](bool mt) {
        std::string pre;
        for (auto& [o, v] : is)
            if (v != (o == "verbose" || o == "mt" && mt)) pre += "/" + o + "\n";
        if (!pre.empty()) note(session({}, pre, 0, false));
        for (auto& [o, v] : is) SIM_CHECK(v == (o == "verbose" || o == "mt" && mt), "content", "the switch %s cannot be set", o.c_str());
    };
    int64_t cut = p.get("cut", -1);
    auto input = [&](bool toggles) {
        auto s = script(toggles);
        if (cut < 0) return s;
        // cut the commands, then add the switching
        auto keep = commands;
        auto plain = script(false);
        size_t n = (size_t)cut % (plain.size() + 1);
        if (!toggles) return plain.substr(0, n);
        return plain.substr(0, n).insert(0, "/mt\n");
    };
    bool fails = cut >= 0 && p.get("cutmode");
    standard(false);
    auto off = session(args, input(false), p.get("chunk"), fails);
    note(off);
    standard(true);
    sim_arm_threads(p.get("nothread"), (int)p.get("nothreads"));
    auto on = session(args, input(p.get("mt") == 0), p.get("chunk"), fails);
    sim_arm_threads(0, 0);
    auto a = answers(on), b = answers(off);
    for (size_t i = 0; i < a.size() || i < b.size(); ++i) {
        std::string x = i < a.size() ? a[i] : "<end>", y = i < b.size() ? b[i] : "<end>";
        if (x != y) {
            sim_log("sequential:\n%.1500s", off.c_str());
            sim_log("parallel:\n%.1500s", on.c_str());
        }
        SIM_CHECK(x == y, "content", "line %zu printed with parallel evaluation is \"%.300s\", with sequential evaluation \"%.300s\"", i, x.c_str(), y.c_str());
        sim_event(sim::hash_str(x));
        if (x == "Error:") sim_count("answers.error", 1);
        if (x == "Result:") sim_count("answers.result", 1);
    }
    for (int fd : fds) close(fd);
}

const sim::Scenario sim::scenario{"C20", gen, run, 100000000, 512ull << 20};
