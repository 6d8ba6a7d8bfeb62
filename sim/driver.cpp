// Supervisor: generates plans from seeds, runs each in a forked child under the simulator, collects
// coverage, and on a violation re-runs, minimises and writes a replay file.
#include "sim.h"

#include <algorithm>
#include <cinttypes>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sched.h>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

using namespace sim;

namespace
{

double now()
{
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

uint64_t mixseed(uint64_t a, uint64_t b)
{
    Rng r(a * 0x9E3779B97F4A7C15ull + b * 0xD1B54A32D192ED03ull + 0x1234567);
    r.next();
    return r.next();
}

struct Sched
{
    int strategy = STRAT_SERIAL;
    uint64_t seed = 1;
    uint32_t gap = 1;
    int depth = 0;
    uint64_t len = 0;
    int wpref = 0;
    int hw = 4;
    int reuse = 0;
    std::vector<SimSwitch> replay;
};

Sched gen_sched(uint64_t seed)
{
    Rng r(seed ^ 0x5ced5ced);
    Sched s;
    s.seed = r.next();
    s.wpref = (int)r.below(2);
    s.hw = (int)r.range(1, 5);
    int k = (int)r.below(100);
    if (k < 28) { s.strategy = STRAT_RANDOM; s.gap = (uint32_t)r.logrange(1, 4000); }
    else if (k < 60) { s.strategy = STRAT_SHARED; s.gap = (uint32_t)r.logrange(1, 40); }
    else if (k < 75) { s.strategy = STRAT_PCT; s.depth = (int)r.range(1, 6); s.len = (uint64_t)r.logrange(200, 400000); }
    else if (k < 90) { s.strategy = STRAT_SYNC; s.gap = (uint32_t)r.range(1, 6); }
    else if (k < 97) { s.strategy = STRAT_STARVE; s.gap = (uint32_t)r.logrange(1, 2000); }
    else s.strategy = STRAT_SERIAL;
    s.reuse = r.chance(1, 3);
    return s;
}

Plan gen_plan(uint64_t seed, int thorough)
{
    Rng r(seed);
    Plan p;
    scenario.gen(r, p, thorough);
    return p;
}

SimResult* shared_result()
{
    void* p = mmap(nullptr, sizeof(SimResult), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return (SimResult*)p;
}

void clear_result(SimResult* r)
{
    r->done = 0;
    r->cls[0] = r->msg[0] = 0;
    r->hash = r->pts = r->switches = r->preempts = r->simtime_ns = r->allocs = 0;
    r->npcs = 0;
    r->ncnt = 0;
    r->nrec = 0;
    r->rec_overflow = 0;
    r->loglen = 0;
    r->log[0] = 0;
}

struct BodyArg { const Plan* p; };
void body(void* a) { scenario.run(*static_cast<BodyArg*>(a)->p); }

void on_terminate()
{
    std::string what = "unknown exception";
    try {
        if (auto e = std::current_exception()) std::rethrow_exception(e);
        what = "no active exception";
    } catch (std::exception& e) { what = e.what(); }
    catch (...) {}
    sim_violation("terminate", "std::terminate called: %s", what.c_str());
}

// true: run gave an answer (done or violation); false: simulator trouble
bool run_child(const Plan& p, const Sched& s, SimResult* r)
{
    clear_result(r);
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(2); }
    if (pid == 0) {
        int dn = open("/dev/null", O_RDWR);
        if (!getenv("SIM_STDERR")) dup2(dn, 2);
        dup2(dn, 0);
        rlimit rl{30, 30};
        setrlimit(RLIMIT_CPU, &rl);
        rlimit rc{0, 0};
        setrlimit(RLIMIT_CORE, &rc);
        alarm(400);
        std::set_terminate(on_terminate);
        SimConfig c;
        memset(&c, 0, sizeof c);
        c.strategy = s.strategy;
        c.seed = s.seed;
        c.gap = s.gap;
        c.pct_depth = s.depth;
        c.pct_len = s.len;
        c.rw_writer_pref = s.wpref;
        c.step_limit = scenario.step_limit;
        c.mem_cap = p.get("memcap") ? (uint64_t)p.get("memcap") << 20 : scenario.mem_cap;   // a plan may ask for more
        c.hw_threads = s.hw;
        c.reuse = s.reuse;
        c.replay = s.replay.data();
        c.nreplay = (uint32_t)s.replay.size();
        c.res = r;
        BodyArg a{&p};
        sim_run(&c, body, &a);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (r->done == 0) {
        if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || (WTERMSIG(st) == SIGKILL && false))) {
            snprintf(r->cls, sizeof r->cls, "hang");
            snprintf(r->msg, sizeof r->msg, "run used up its CPU time without finishing");
            r->done = 2;
            return true;
        }
        if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGSEGV || WTERMSIG(st) == SIGABRT || WTERMSIG(st) == SIGBUS)) {
            snprintf(r->cls, sizeof r->cls, "crash");
            snprintf(r->msg, sizeof r->msg, "process died from signal %d", WTERMSIG(st));
            r->done = 2;
            return true;
        }
        snprintf(r->msg, sizeof r->msg, "child ended without a result, status 0x%x", st);
        return false;
    }
    return true;
}

// ------------------------------------------------------------------ replay files

void write_plan(std::ostream& o, const Plan& p)
{
    for (auto& [k, v] : p.par) o << "param " << k << " " << v << "\n";
    o << "threads " << p.th.size() << "\n";
    for (size_t i = 0; i < p.th.size(); ++i)
        for (auto& op : p.th[i]) {
            o << "op " << i << " " << op.kind << " " << op.oom << " " << op.oomp << " " << op.a.size();
            for (auto v : op.a) o << " " << v;
            o << "\n";
        }
}

void write_replay(const std::string& path, const Plan& p, const Sched& s, const SimResult* r, uint64_t seed, int64_t index)
{
    std::ofstream o(path);
    o << "# deterministic simulation replay file\n";
    o << "property " << scenario.property << "\n";
    o << "runseed " << seed << " index " << index << "\n";
    o << "rwpref " << s.wpref << "\nhw " << s.hw << "\nreuse " << s.reuse << "\n";
    write_plan(o, p);
    o << "switches " << s.replay.size() << "\n";
    for (auto& w : s.replay) o << w.pt << " " << w.to << " " << w.forced << "\n";
    o << "expect " << r->cls << "\n";
    o << "expecthash " << r->hash << "\n";
    o << "end\n";
    std::istringstream ms(r->msg);
    std::string line;
    while (std::getline(ms, line)) o << "# " << line << "\n";
    std::istringstream ls(r->log);
    while (std::getline(ls, line)) o << "#   " << line << "\n";
}

bool read_replay(const std::string& path, Plan& p, Sched& s, std::string& cls, uint64_t& hash)
{
    std::ifstream f(path);
    if (!f) return false;
    std::string line;
    s.strategy = STRAT_REPLAY;
    while (std::getline(f, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream l(line);
        std::string w;
        l >> w;
        if (w == "property") { std::string id; l >> id; if (id != scenario.property) return false; }
        else if (w == "rwpref") l >> s.wpref;
        else if (w == "hw") l >> s.hw;
        else if (w == "reuse") l >> s.reuse;
        else if (w == "param") { std::string k; int64_t v; l >> k >> v; p.par[k] = v; }
        else if (w == "threads") { size_t n; l >> n; p.th.resize(n); }
        else if (w == "op") {
            size_t i, n;
            Op op;
            l >> i >> op.kind >> op.oom >> op.oomp >> n;
            for (size_t k = 0; k < n; ++k) { int64_t v; l >> v; op.a.push_back(v); }
            if (i >= p.th.size()) return false;
            p.th[i].push_back(op);
        }
        else if (w == "switches") {
            size_t n;
            l >> n;
            for (size_t k = 0; k < n; ++k) {
                std::getline(f, line);
                std::istringstream ll(line);
                SimSwitch x;
                ll >> x.pt >> x.to >> x.forced;
                s.replay.push_back(x);
            }
        }
        else if (w == "expect") l >> cls;
        else if (w == "expecthash") l >> hash;
        else if (w == "end") break;
    }
    return true;
}

// ------------------------------------------------------------------ minimisation

struct Mini
{
    SimResult* r;
    double deadline;
    std::string cls;
    uint64_t salt = 1;
    int tries = 0;

    void adopt(Sched& s)
    {
        s.strategy = STRAT_REPLAY;
        s.replay.assign(r->rec, r->rec + r->nrec);
    }
    bool same() const { return r->done == 2 && cls == r->cls && !r->rec_overflow; }

    // Does this plan still violate, under the given replay or under some searched schedule?
    bool fails(const Plan& p, Sched& s, int search)
    {
        ++tries;
        Sched t = s;
        if (run_child(p, t, r) && same()) { adopt(t); s = t; return true; }
        for (int i = 0; i < search && now() < deadline; ++i) {
            Sched u = gen_sched(mixseed(salt++, 77));
            u.hw = s.hw;
            u.reuse = s.reuse;
            if (run_child(p, u, r) && same()) { adopt(u); s = u; return true; }
        }
        return false;
    }

    void plan(Plan& p, Sched& s)
    {
        int search = 12;
        bool progress = true;
        while (progress && now() < deadline) {
            progress = false;
            for (size_t i = p.th.size(); i-- > 0 && now() < deadline;) {  // empty a whole thread
                if (p.th[i].empty()) continue;
                Plan q = p;
                q.th[i].clear();
                if (fails(q, s, search)) { p = q; progress = true; }
            }
            for (size_t i = 0; i < p.th.size(); ++i)  // drop chunks, then single operations
                for (size_t len = std::max<size_t>(p.th[i].size() / 2, 1); len >= 1; len /= 2) {
                    for (size_t k = 0; k + len <= p.th[i].size() && now() < deadline;) {
                        Plan q = p;
                        q.th[i].erase(q.th[i].begin() + k, q.th[i].begin() + k + len);
                        if (fails(q, s, search)) { p = q; progress = true; }
                        else k += len;
                    }
                    if (len == 1) break;
                }
            for (size_t i = 0; i < p.th.size(); ++i)  // drop faults, shrink arguments
                for (size_t k = 0; k < p.th[i].size() && now() < deadline; ++k) {
                    if (p.th[i][k].oom) {
                        Plan q = p;
                        q.th[i][k].oom = q.th[i][k].oomp = 0;
                        if (fails(q, s, search)) { p = q; progress = true; }
                    }
                    if (p.th[i][k].oomp) {
                        Plan q = p;
                        q.th[i][k].oomp = 0;
                        if (fails(q, s, search)) { p = q; progress = true; }
                    }
                    for (size_t j = 0; j < p.th[i][k].a.size() && now() < deadline; ++j) {
                        int64_t v = p.th[i][k].a[j];
                        for (int64_t c : {(int64_t)0, (int64_t)1, v / 2, v - 1}) {
                            if (c < 0 || c >= v) continue;
                            Plan q = p;
                            q.th[i][k].a[j] = c;
                            if (fails(q, s, 4)) { p = q; progress = true; break; }
                            if (now() > deadline) break;
                        }
                    }
                }
            for (auto& [key, v] : p.par) {
                if (now() > deadline) break;
                for (int64_t c : {(int64_t)0, (int64_t)1, v / 2}) {
                    if (c < 0 || c >= v) continue;
                    Plan q = p;
                    q.par[key] = c;
                    if (fails(q, s, 4)) { v = c; progress = true; break; }
                }
            }
            search = 4;
        }
    }

    // Remove context switches while the violation persists (replay only).
    void switches(const Plan& p, Sched& s)
    {
        auto attempt = [&](std::vector<SimSwitch> c) {
            Sched t = s;
            t.replay = std::move(c);
            if (run_child(p, t, r) && same()) { adopt(t); bool shorter = t.replay.size() < s.replay.size(); if (shorter) s = t; return shorter; }
            return false;
        };
        size_t chunk = s.replay.size() / 2;
        while (chunk >= 1 && now() < deadline) {
            bool any = false;
            for (size_t k = 0; k < s.replay.size() && now() < deadline;) {
                std::vector<SimSwitch> c(s.replay.begin(), s.replay.begin() + k);
                if (k + chunk < s.replay.size()) c.insert(c.end(), s.replay.begin() + k + chunk, s.replay.end());
                if (attempt(c)) any = true;
                else k += chunk;
            }
            if (chunk == 1 && !any) break;
            if (chunk > 1) chunk /= 2;
        }
    }
};

// ------------------------------------------------------------------ batch

struct Shared
{
    uint64_t runs, nontrivial, points, switches, preempts, allocs, simtime;
    uint64_t twice, mismatch, trouble;
    int64_t vindex;          // run index of a violation, -1 none
    int64_t mmindex;
    char trouble_msg[256];
    uint32_t ncnt;
    SimCounter cnt[SIM_MAXCNT];
    uint32_t strat[8];
    char sample[3][4000];
    uint32_t nsample;
    uint64_t nhash;
    uint64_t hashes[1 << 20];
    double spent;
};

void add_counter(Shared* s, const char* name, uint64_t n)
{
    for (uint32_t i = 0; i < s->ncnt; ++i)
        if (!strcmp(s->cnt[i].name, name)) { s->cnt[i].n += n; return; }
    if (s->ncnt >= SIM_MAXCNT) return;
    strcpy(s->cnt[s->ncnt].name, name);
    s->cnt[s->ncnt++].n = n;
}

std::string jesc(const std::string& s)
{
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o;
}

const char* sname(int k)
{
    static const char* n[] = {"replay", "random", "shared-access", "pct", "sync-only", "starvation", "serial"};
    return n[k];
}

}  // namespace

int main(int argc, char** argv)
{
    // Same addresses in every process: disable ASLR once and start again.
    if (!getenv("SIM_NOASLR")) {
        setenv("SIM_NOASLR", "1", 1);
        int pers = personality(0xffffffff);
        if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality(pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    uint64_t seed = 1;
    int64_t maxruns = 1 << 19;
    double budget = 10, minibudget = 30;
    int jobs = 8, thorough = 0, twice = 16;
    int64_t one = -1, hashes = 0;
    std::string out, replay, dir = ".";
    bool verbose = false, dump = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto v = [&] { return std::string(++i < argc ? argv[i] : ""); };
        if (a == "--seed") seed = strtoull(v().c_str(), nullptr, 10);
        else if (a == "--runs") maxruns = atoll(v().c_str());
        else if (a == "--time") budget = atof(v().c_str());
        else if (a == "--minitime") minibudget = atof(v().c_str());
        else if (a == "--jobs") jobs = atoi(v().c_str());
        else if (a == "--twice") twice = atoi(v().c_str());
        else if (a == "--thorough") thorough = 1;
        else if (a == "--out") out = v();
        else if (a == "--dir") dir = v();
        else if (a == "--replay") replay = v();
        else if (a == "--one") one = atoll(v().c_str());
        else if (a == "-v") verbose = true;
        else if (a == "--dump") dump = true;
        else if (a == "--hashes") hashes = atoll(v().c_str());
    }
    SimResult* res = shared_result();
    auto show = [&](SimResult* r) {
        printf("class=%s hash=%016" PRIx64 " points=%" PRIu64 " switches=%" PRIu64 " preempts=%" PRIu64 "\n", r->done == 2 ? r->cls : r->done == 1 ? "none" : "trouble", r->hash, r->pts, r->switches, r->preempts);
        if (r->done != 1) printf("message: %s\n", r->msg);
        for (int i = 0; i < r->npcs; ++i) printf("pc 0x%" PRIx64 "\n", r->pcs[i]);
        if (verbose) { printf("%s", r->log); for (uint32_t i = 0; i < r->ncnt; ++i) printf("count %s %" PRIu64 "\n", r->cnt[i].name, r->cnt[i].n); }
    };

    if (!replay.empty()) {
        Plan p;
        Sched s;
        std::string cls;
        uint64_t h = 0;
        if (!read_replay(replay, p, s, cls, h)) { printf("cannot read replay file\n"); return 2; }
        run_child(p, s, res);
        show(res);
        bool same = res->done == 2 && cls == res->cls && res->hash == h;
        printf("%s\n", same ? "REPRODUCED" : res->done == 2 ? "DIFFERENT" : "NOT-REPRODUCED");
        return same ? 1 : res->done == 2 ? 3 : 0;
    }
    for (int64_t i = 0; i < hashes; ++i) {
        uint64_t rs = mixseed(seed, (uint64_t)i);
        Plan p = gen_plan(rs, thorough);
        bool ok = run_child(p, gen_sched(rs), res);
        printf("%" PRId64 " %d %016" PRIx64 " %" PRIu64 "\n", i, ok, res->hash, res->pts);
    }
    if (hashes) return 0;
    if (one >= 0) {
        uint64_t rs = mixseed(seed, (uint64_t)one);
        Plan p = gen_plan(rs, thorough);
        Sched s = gen_sched(rs);
        printf("strategy %s gap %u depth %d len %" PRIu64 " wpref %d hw %d reuse %d\n", sname(s.strategy), s.gap, s.depth, s.len, s.wpref, s.hw, s.reuse);
        if (dump) { std::ostringstream o; write_plan(o, p); printf("%s", o.str().c_str()); }
        run_child(p, s, res);
        show(res);
        return res->done == 2 ? 1 : 0;
    }

    auto* sh = (Shared*)mmap(nullptr, sizeof(Shared) * jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    auto* stop = (volatile int*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    double t0 = now();
    std::vector<pid_t> w;
    int ncpu = (int)sysconf(_SC_NPROCESSORS_ONLN);
    for (int j = 0; j < jobs; ++j) {
        sh[j].vindex = sh[j].mmindex = -1;
        pid_t pid = fork();
        if (pid == 0) {
            cpu_set_t cs;
            CPU_ZERO(&cs);
            CPU_SET(j % ncpu, &cs);
            sched_setaffinity(0, sizeof cs, &cs);
            SimResult* r = shared_result();
            Shared* s = &sh[j];
            for (int64_t i = j; i < maxruns && now() - t0 < budget && !*stop; i += jobs) {
                uint64_t rs = mixseed(seed, (uint64_t)i);
                Plan p = gen_plan(rs, thorough);
                Sched sc = gen_sched(rs);
                if (!run_child(p, sc, r)) {
                    s->trouble++;
                    snprintf(s->trouble_msg, sizeof s->trouble_msg, "run %" PRId64 ": %s", i, r->msg);
                    if (s->trouble > 3) break;
                    continue;
                }
                s->runs++;
                s->points += r->pts;
                s->switches += r->switches;
                s->preempts += r->preempts;
                s->allocs += r->allocs;
                s->simtime += r->simtime_ns;
                s->strat[sc.strategy]++;
                bool nt = r->preempts > 0;
                for (uint32_t k = 0; k < r->ncnt; ++k) {
                    add_counter(s, r->cnt[k].name, r->cnt[k].n);
                    if (!strncmp(r->cnt[k].name, "fault.", 6)) nt = true;
                }
                if (nt) {
                    s->nontrivial++;
                    if (s->nhash < (1 << 20)) s->hashes[s->nhash++] = r->hash;
                }
                if (nt && s->nsample < 1 && j < 3) {
                    std::ostringstream o;
                    o << "run " << i << " strategy " << sname(sc.strategy) << "\n";
                    write_plan(o, p);
                    o << r->log;
                    snprintf(s->sample[s->nsample++], 4000, "%s", o.str().c_str());
                }
                if (r->done == 2) {
                    s->vindex = i;
                    *stop = 1;
                    break;
                }
                if (twice && (i / jobs) % twice == 0) {
                    uint64_t h = r->hash;
                    s->twice++;
                    run_child(p, sc, r);
                    if (r->hash != h && s->mmindex < 0) { s->mismatch++; s->mmindex = i; }
                }
            }
            s->spent = now() - t0;
            _exit(0);
        }
        w.push_back(pid);
    }
    for (pid_t p : w) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} }
    double explored = now() - t0;

    int64_t vi = -1, mm = -1;
    static Shared tot;
    memset(&tot, 0, sizeof(uint64_t) * 10);
    tot.ncnt = 0;
    tot.trouble_msg[0] = 0;
    memset(tot.strat, 0, sizeof tot.strat);
    std::vector<uint64_t> hs;
    std::vector<std::string> samples;
    for (int j = 0; j < jobs; ++j) {
        Shared& s = sh[j];
        if (s.vindex >= 0 && (vi < 0 || s.vindex < vi)) vi = s.vindex;
        if (s.mmindex >= 0 && (mm < 0 || s.mmindex < mm)) mm = s.mmindex;
        tot.runs += s.runs; tot.nontrivial += s.nontrivial; tot.points += s.points; tot.switches += s.switches; tot.preempts += s.preempts;
        tot.allocs += s.allocs; tot.simtime += s.simtime; tot.twice += s.twice; tot.mismatch += s.mismatch; tot.trouble += s.trouble;
        if (s.trouble) snprintf(tot.trouble_msg, sizeof tot.trouble_msg, "%s", s.trouble_msg);
        for (uint32_t k = 0; k < s.ncnt; ++k) add_counter(&tot, s.cnt[k].name, s.cnt[k].n);
        for (int k = 0; k < 8; ++k) tot.strat[k] += s.strat[k];
        hs.insert(hs.end(), s.hashes, s.hashes + s.nhash);
        for (uint32_t k = 0; k < s.nsample; ++k) samples.push_back(s.sample[k]);
    }
    std::sort(hs.begin(), hs.end());
    size_t distinct = std::unique(hs.begin(), hs.end()) - hs.begin();

    int rc = 0;
    std::string vcls, vmsg, vpath;
    std::vector<uint64_t> vpcs;
    if (vi >= 0) {
        uint64_t rs = mixseed(seed, (uint64_t)vi);
        Plan p = gen_plan(rs, thorough);
        Sched s = gen_sched(rs);
        bool ok = run_child(p, s, res) && res->done == 2;
        std::string cls = res->cls;
        uint64_t h = res->hash;
        bool overflow = res->rec_overflow;
        ok = ok && run_child(p, s, res) && res->done == 2 && cls == res->cls && h == res->hash;
        if (!ok) {
            printf("ERROR: run %" PRId64 " (seed %" PRIu64 ") reported a violation that the same seed does not reproduce\n", vi, seed);
            rc = 2;
        } else {
            Mini m{res, now() + minibudget, cls};
            Sched ms = s;
            if (!overflow) {
                m.adopt(ms);
                Plan mp = p;
                Sched t = ms;
                if (m.fails(mp, t, 0)) {
                    ms = t;
                    m.plan(mp, ms);
                    m.deadline = std::max(m.deadline, now() + minibudget / 3);
                    m.switches(mp, ms);
                    p = mp;
                    s = ms;
                }
            }
            run_child(p, s, res);
            if (s.strategy != STRAT_REPLAY) m.adopt(s);
            run_child(p, s, res);
            vcls = res->cls;
            vmsg = res->msg;
            vpcs.assign(res->pcs, res->pcs + res->npcs);
            vpath = dir + "/" + scenario.property + "-seed" + std::to_string(seed) + "-run" + std::to_string(vi) + ".replay";
            write_replay(vpath, p, s, res, rs, vi);
            bool good = true;
            for (int k = 0; k < 2 && good; ++k) {
                std::string cmd = "/proc/" + std::to_string(getpid()) + "/exe --replay '" + vpath + "' > /dev/null";
                int st = system(cmd.c_str());
                good = WIFEXITED(st) && WEXITSTATUS(st) == 1;
            }
            if (!good) {
                printf("ERROR: replay of %s does not reproduce the violation in a fresh process\n", vpath.c_str());
                rc = 2;
            } else {
                rc = 1;
                printf("violation class %s: %s\n", vcls.c_str(), vmsg.c_str());
                printf("%s", res->log);
                for (auto pc : vpcs) printf("PC 0x%" PRIx64 "\n", pc);
                printf("REPLAY %s\n", vpath.c_str());
            }
        }
    } else if (tot.mismatch) {
        printf("ERROR: run %" PRId64 " is not deterministic (event hashes differ)\n", mm);
        rc = 2;
    } else if (tot.trouble) {
        printf("ERROR: simulator trouble: %s\n", tot.trouble_msg);
        rc = 2;
    } else if (tot.runs == 0) {
        printf("ERROR: no run completed\n");
        rc = 2;
    }

    if (!out.empty()) {
        std::ofstream o(out);
        o << "{\"runs\":" << tot.runs << ",\"nontrivial\":" << tot.nontrivial << ",\"distinct\":" << distinct << ",\"points\":" << tot.points << ",\"switches\":" << tot.switches
          << ",\"preempts\":" << tot.preempts << ",\"allocs\":" << tot.allocs << ",\"simtime_s\":" << tot.simtime * 1e-9 << ",\"executed_twice\":" << tot.twice
          << ",\"explore_wall_s\":" << explored << ",\"workers\":" << jobs << ",\"violations\":" << (rc == 1 ? 1 : 0) << ",\"strategies\":{";
        bool first = true;
        for (int k = 1; k < 7; ++k) { o << (first ? "" : ",") << "\"" << sname(k) << "\":" << tot.strat[k]; first = false; }
        o << "},\"counters\":{";
        for (uint32_t k = 0; k < tot.ncnt; ++k) o << (k ? "," : "") << "\"" << tot.cnt[k].name << "\":" << tot.cnt[k].n;
        o << "},\"samples\":[";
        for (size_t k = 0; k < samples.size() && k < 3; ++k) o << (k ? "," : "") << "\"" << jesc(samples[k]) << "\"";
        o << "]}\n";
    }
    printf("runs=%" PRIu64 " nontrivial=%" PRIu64 " distinct=%zu points=%" PRIu64 " preempts=%" PRIu64 " wall=%.1fs\n", tot.runs, tot.nontrivial, distinct, tot.points, tot.preempts, explored);
    return rc;
}
