// mc.hpp - bounded exhaustive explorer (stateless, choice-sequence DFS) for real code.
//
// A scenario is a deterministic function whose only nondeterminism is mc::choose(n).  The engine
// executes it once for EVERY choice sequence (depth-first, choice 0 first), in several worker
// processes that share the space by claiming choice prefixes of length Scenario::split.
// A violation is a thrown mc::Violation, a crash (signal / sanitizer), or an execution that does
// not end.  Each one is identified by (scenario, signature) and by its replayable choice sequence.
//
// Output of an exploring run (file --out, JSON lines):
//   {"type":"violation", ...}*   {"type":"summary", ...}
#pragma once
#include <atomic>
#include <cerrno>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

void mc_setup();      // registers the scenarios

namespace mc {

struct Violation { std::string sig, msg; };
struct Skip {};      // the prefix belongs to another worker
struct Prune {};     // this execution is not part of the space (counted apart)

static const int MAXCH = 4096;
static const int MAXW = 16;

struct Slot {                       // per worker, shared with the supervisor
    std::atomic<int> n;             // choices made in the current execution
    unsigned short ch[MAXCH];
    unsigned short lim[MAXCH];
    std::atomic<long> execs, pruned, trans, maxdepth;
    std::atomic<int64_t> started;   // ns, 0 when idle
    std::atomic<long> prefix;
    char note[2048];
};
static const size_t NSTATE = 1u << 23;
static const size_t NCLAIM = 1u << 22;
struct Shared {
    Slot slot[MAXW];
    std::atomic<long> states;
    std::atomic<int> stop;
    std::atomic<long> validated;
    std::atomic<int> found;
    std::atomic<uint64_t> table[NSTATE];
    std::atomic<unsigned char> claim[NCLAIM];
};

struct Scenario {
    std::string name;
    std::function<void()> body;
    int split = 1;                  // choices that make up a work-sharing prefix
    double hang_s = 20;             // one execution must end within this many seconds
    std::string bounds;             // human-readable statement of the alphabet and the bound
};

inline int64_t now_ns() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000LL + t.tv_nsec; }

struct Engine {
    Shared* sh = nullptr;
    Slot* me = nullptr;
    std::vector<int> ch, lim;       // script to replay; then explored further
    size_t pos = 0;
    bool replaying = false;
    int split = 0;
    long prefix_count = -1;
    std::vector<int> last_prefix;
    bool have_last = false;
    bool prefix_done = false;
    bool soft = false;              // under the scheduler nothing may be thrown: a foreign execution is run to its end, unexplored
    bool skipping = false;
    bool tracing = false;
    std::string tier = "quick";
    std::vector<std::string> trace;
    std::map<std::string, std::string> opts;
    long seed_note = 0;
};
inline Engine& E() { static Engine e; return e; }

inline bool thorough() { return E().tier == "thorough"; }
inline bool tracing() { return E().tracing; }

inline void claim_prefix() {
    Engine& e = E();
    e.prefix_done = true;
    if (e.replaying || !e.sh) return;
    std::vector<int> p(e.ch.begin(), e.ch.begin() + std::min<size_t>(e.pos, (size_t) e.split));
    if (e.have_last && p == e.last_prefix) return;          // still inside the prefix this worker owns
    e.last_prefix = p; e.have_last = true;
    size_t i = (size_t) ++e.prefix_count;
    e.me->prefix.store((long) i);
    if (i >= NCLAIM) { fprintf(stderr, "mc: too many prefixes\n"); _exit(97); }
    if (e.sh->claim[i].exchange(1)) { if (e.soft) { e.skipping = true; return; } throw Skip(); }
}

// the only source of nondeterminism
inline int choose(int n) {
    Engine& e = E();
    if (n <= 0) { fprintf(stderr, "mc: choose(%d)\n", n); _exit(98); }
    if (e.skipping) return 0;
    if (e.pos >= MAXCH) { fprintf(stderr, "mc: too many choices\n"); _exit(98); }
    size_t p = e.pos++;
    int c = 0;
    if (p < e.ch.size()) {
        c = e.ch[p];
        if (p < e.lim.size() && e.lim[p] != n && e.lim[p] != 0) {
            fprintf(stderr, "mc: divergence at choice %zu: %d alternatives, before %d\n", p, n, e.lim[p]);
            _exit(96);
        }
        if (p < e.lim.size()) e.lim[p] = n; else e.lim.push_back(n);
        if (c >= n) { fprintf(stderr, "mc: divergence: choice %zu out of range\n", p); _exit(96); }
    } else {
        e.ch.push_back(0);
        e.lim.push_back(n);
    }
    if (e.me) {
        e.me->ch[p] = (unsigned short) c;
        e.me->lim[p] = (unsigned short) n;
        e.me->n.store((int) p + 1, std::memory_order_release);
    }
    if ((int) (p + 1) == e.split && !e.prefix_done)
        claim_prefix();
    return c;
}
template <class T> inline const T& pick(const std::vector<T>& v) { return v[choose((int) v.size())]; }

inline void step(long n = 1) { if (E().me) E().me->trans.fetch_add(n, std::memory_order_relaxed); }
inline void validated(long n = 1) { if (E().sh) E().sh->validated.fetch_add(n, std::memory_order_relaxed); }
inline void note(const std::string& s) {
    if (E().me) { size_t n = std::min(s.size(), sizeof(E().me->note) - 1); memcpy(E().me->note, s.data(), n); E().me->note[n] = 0; }
    if (E().tracing) E().trace.push_back(s);
}
inline void trace(const std::string& s) { if (E().tracing) E().trace.push_back(s); }

[[noreturn]] inline void fail(const std::string& sig, const std::string& msg = "") { throw Violation{sig, msg}; }
[[noreturn]] inline void prune() { throw Prune(); }
#define MC_CHECK(c, sig, msg) do { if (!(c)) mc::fail(sig, msg); } while (0)

inline uint64_t hash(const std::string& s) {
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ULL; h ^= h >> 32;
    return h ? h : 1;
}
// record an observed (distinct) state; returns true when new
inline bool state(uint64_t h) {
    Engine& e = E();
    if (!e.sh) return true;
    if (!h) h = 1;
    size_t i = h & (NSTATE - 1);
    for (size_t k = 0; k < 4096; ++k, i = (i + 1) & (NSTATE - 1)) {
        uint64_t v = e.sh->table[i].load(std::memory_order_relaxed);
        if (v == h) return false;
        if (!v) {
            uint64_t z = 0;
            if (e.sh->table[i].compare_exchange_strong(z, h)) { e.sh->states.fetch_add(1); return true; }
            if (z == h) return false;
        }
    }
    return false;   // table crowded: counted as seen (the count is then a lower bound)
}
inline bool state(const std::string& s) { return state(hash(s)); }

// JSON / display helpers
inline std::string esc(const std::string& s) {
    std::string o;
    char b[16];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
        else if (c == '\n') o += "\\n";
        else if (c == '\t') o += "\\t";
        else if (c == '\r') o += "\\r";
        else if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char) c;
    }
    return o;
}
inline std::string show(const std::string& s, size_t max = 400) { return "\"" + esc(s.substr(0, max)) + (s.size() > max ? "..." : "") + "\""; }

inline std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }

inline void add(const std::string& name, const std::string& bounds, int split, double hang_s, std::function<void()> body) {
    Scenario s; s.name = name; s.bounds = bounds; s.split = split; s.hang_s = hang_s; s.body = body;
    scenarios().push_back(s);
}

inline std::string opt(const std::string& k, const std::string& d = "") { auto i = E().opts.find(k); return i == E().opts.end() ? d : i->second; }
// a directory of this run, removed when the run (not a worker of it) ends
inline std::string& scratch_path() { static std::string s; return s; }
inline pid_t& scratch_owner() { static pid_t p = 0; return p; }
inline const std::string& scratch() {
    if (scratch_path().empty()) {
        char t[] = "/tmp/verif-mc-XXXXXX"; if (!mkdtemp(t)) { fprintf(stderr, "mc: mkdtemp\n"); _exit(98); }
        scratch_path() = t; scratch_owner() = getpid();
        atexit([] { if (getpid() == scratch_owner() && scratch_path().compare(0, 14, "/tmp/verif-mc-") == 0 && system(("rm -rf -- " + scratch_path()).c_str())) {} });
    }
    return scratch_path();
}

// what differs between two texts, with what surrounds it
inline std::string diff(const std::string& got, const std::string& want, size_t around = 120) {
    size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
    size_t b = i < around ? 0 : i - around;
    return "differs at " + std::to_string(i) + "\n     got " + show(got.substr(b), 3 * around) + "\nexpected " + show(want.substr(b), 3 * around);
}

inline std::string join(const std::vector<int>& v) { std::string s; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ','; s += std::to_string(v[i]); } return s; }

struct Found { std::string scenario, sig, msg, note; std::vector<int> ch; };

inline void write_found(FILE* f, const char* type, const Found& v) {
    std::string l = "{\"type\":\"" + std::string(type) + "\",\"scenario\":\"" + esc(v.scenario) + "\",\"sig\":\"" + esc(v.sig) + "\",\"msg\":\"" + esc(v.msg.substr(0, 6000))
        + "\",\"note\":\"" + esc(v.note) + "\",\"choices\":\"" + join(v.ch) + "\"}\n";
    fflush(f);    // several processes append to this file: one write for each line
    for (size_t at = 0; at < l.size();) { ssize_t n = write(fileno(f), l.data() + at, l.size() - at); if (n <= 0) break; at += (size_t) n; }
}

inline bool is_known(const Found& v) {
    static std::set<std::string>* k = nullptr;
    if (!k) {
        k = new std::set<std::string>();
        auto o = E().opts.find("known");
        if (o != E().opts.end()) {
            FILE* f = fopen(o->second.c_str(), "r"); char* l = nullptr; size_t n = 0; ssize_t r;
            while (f && (r = getline(&l, &n, f)) > 0) { std::string x(l, r); while (!x.empty() && x.back() == '\n') x.pop_back(); k->insert(x); }
            if (f) fclose(f);
            free(l);
        }
    }
    return k->count(esc(v.scenario) + "\t" + esc(v.sig) + "\t" + esc(v.note)) != 0;
}

// runs one execution; returns true if a violation was found
inline bool run_one(const Scenario& s, Found& out) {
    Engine& e = E();
    e.pos = 0; e.prefix_done = false; e.skipping = false; e.soft = false; e.trace.clear();
    if (e.me) { e.me->n.store(0); e.me->note[0] = 0; e.me->started.store(now_ns()); }
    bool bad = false, skipped = false;
    try {
        s.body();
        if (!e.prefix_done) claim_prefix();
    } catch (Skip&) { skipped = true; }
      catch (Prune&) { if (e.skipping) skipped = true; else if (!e.prefix_done) { try { claim_prefix(); } catch (Skip&) { skipped = true; } } if (e.me && !skipped) e.me->pruned.fetch_add(1); }
      catch (Violation& v) {
        bool mine = !e.skipping;
        if (!e.prefix_done) { try { claim_prefix(); } catch (Skip&) { mine = false; } }
        if (mine) { bad = true; out = Found{s.name, v.sig, v.msg, e.me ? e.me->note : "", std::vector<int>(e.ch.begin(), e.ch.begin() + e.pos)}; }
        skipped = !mine;
    }
    if (e.skipping) { skipped = true; e.skipping = false; }
    if (e.me) {
        e.me->started.store(0);
        if (!skipped) {
            e.me->execs.fetch_add(1);
            e.me->trans.fetch_add((long) e.pos);
            if ((long) e.pos > e.me->maxdepth.load()) e.me->maxdepth.store((long) e.pos);
        }
    }
    return bad;
}
inline bool advance() {
    Engine& e = E();
    e.ch.resize(e.pos); e.lim.resize(e.pos);
    while (!e.ch.empty()) {
        if (e.ch.back() + 1 < e.lim.back()) { ++e.ch.back(); return true; }
        e.ch.pop_back(); e.lim.pop_back();
    }
    return false;
}

// worker process: explores what it can claim, starting at script `r` (empty: from the beginning)
inline int worker(const Scenario& s, int w, const std::string& outfile, std::vector<int> r, std::vector<int> rl, bool resume, int max_found) {
    Engine& e = E();
    e.me = &e.sh->slot[w];
    e.split = s.split;
    e.ch = r; e.lim = rl; e.have_last = false; e.prefix_count = -1;
    if (resume) {
        e.prefix_count = e.me->prefix.load();
        e.last_prefix.assign(r.begin(), r.begin() + std::min<size_t>(r.size(), (size_t) s.split));
        e.have_last = true;
        e.pos = r.size();
        if (!advance()) return 0;
    }
    FILE* out = fopen(outfile.c_str(), "a");
    while (!e.sh->stop.load()) {
        Found f;
        bool bad = run_one(s, f);
        long nx = e.me->execs.load();
        if (!bad && w == 0 && e.me->note[0] && (nx == 1 || nx == 50 || nx == 2000))
            write_found(out, "sample", Found{s.name, "", "", e.me->note, std::vector<int>(e.ch.begin(), e.ch.begin() + e.pos)});
        if (bad && is_known(f)) write_found(out, "known", f);
        else if (bad) {
            write_found(out, "violation", f);
            if (e.sh->found.fetch_add(1) + 1 >= max_found) { e.sh->stop.store(1); break; }
        }
        if (!advance()) break;
    }
    fclose(out);
    return 0;
}

struct Totals { long execs = 0, pruned = 0, trans = 0, states = 0, maxdepth = 0, found = 0; bool complete = true; double wall = 0; };

inline Totals explore(const Scenario& s, int jobs, const std::string& outfile, int max_found, double budget) {
    Engine& e = E();
    e.sh = (Shared*) mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    Totals t;
    int64_t t0 = now_ns();
    std::vector<pid_t> pid(jobs, 0);
    FILE* out = fopen(outfile.c_str(), "a");
    auto spawn = [&](int w, std::vector<int> r, std::vector<int> rl, bool resume) {
        fflush(out); fflush(stdout); fflush(stderr);
        pid_t p = fork();
        if (p == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            int rc = worker(s, w, outfile, r, rl, resume, max_found);
            fflush(stdout);
            _exit(rc);
        }
        pid[w] = p;
    };
    for (int w = 0; w < jobs; ++w) { e.sh->slot[w].prefix.store(-1); spawn(w, {}, {}, false); }
    int alive = jobs;
    while (alive > 0) {
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        if (p == 0) {
            usleep(2000);
            int64_t n = now_ns();
            for (int w = 0; w < jobs; ++w) if (pid[w]) {
                int64_t b = e.sh->slot[w].started.load();
                if (b && n - b > (int64_t) (s.hang_s * 1e9)) kill(pid[w], SIGXCPU);   // reported as a hang below
            }
            if (budget > 0 && (n - t0) * 1e-9 > budget && !e.sh->stop.load()) { e.sh->stop.store(1); t.complete = false; }
            continue;
        }
        if (p < 0) break;
        int w = -1;
        for (int i = 0; i < jobs; ++i) if (pid[i] == p) w = i;
        if (w < 0) continue;
        pid[w] = 0;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { --alive; continue; }
        if (WIFEXITED(st) && (WEXITSTATUS(st) == 96 || WEXITSTATUS(st) == 97 || WEXITSTATUS(st) == 98)) {
            fprintf(stderr, "mc: harness error %d in %s: %s\n", WEXITSTATUS(st), s.name.c_str(), e.sh->slot[w].note);
            exit(2);
        }
        Slot& sl = e.sh->slot[w];
        Found f; f.scenario = s.name; f.note = sl.note;
        int n = sl.n.load();
        std::vector<int> ch(sl.ch, sl.ch + n), lim(sl.lim, sl.lim + n);
        f.ch = ch;
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU) { f.sig = "hang"; f.msg = "execution did not end within " + std::to_string(s.hang_s) + " s"; }
        else if (WIFSIGNALED(st)) { f.sig = "crash signal " + std::to_string(WTERMSIG(st)); f.msg = "process killed by signal " + std::to_string(WTERMSIG(st)); }
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 71) { f.sig = "deadlock"; f.msg = "no thread can go on (see the schedule in the replay)"; }
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 72) { f.sig = "a thread never ends"; f.msg = "a thread is left waiting at the end (see the schedule in the replay)"; }
        else { f.sig = "crash exit " + std::to_string(WEXITSTATUS(st)); f.msg = "process exited with " + std::to_string(WEXITSTATUS(st)); }
        bool known = is_known(f);
        write_found(out, known ? "known" : "violation", f);
        ++t.found;
        sl.execs.fetch_add(1); sl.started.store(0);
        if (!known && e.sh->found.fetch_add(1) + 1 >= max_found) { e.sh->stop.store(1); --alive; continue; }
        spawn(w, ch, lim, true);      // go on after the execution that died
    }
    fclose(out);
    for (int w = 0; w < jobs; ++w) {
        t.execs += e.sh->slot[w].execs; t.trans += e.sh->slot[w].trans; t.pruned += e.sh->slot[w].pruned;
        if (e.sh->slot[w].maxdepth > t.maxdepth) t.maxdepth = e.sh->slot[w].maxdepth;
    }
    t.states = e.sh->states;
    if (e.sh->stop.load()) t.complete = false;
    t.wall = (now_ns() - t0) * 1e-9;
    return t;
}

inline int main_(int argc, char** argv) {
    Engine& e = E();
    std::string out, replay, only;
    int jobs = 8, max_found = 40;
    double budget = 0, deadline = 0;
    int64_t begin = now_ns();
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--tier") e.tier = val();
        else if (a == "--out") out = val();
        else if (a == "--replay") replay = val();        // scenario:c,c,c
        else if (a == "--only") only = val();
        else if (a == "--jobs") jobs = atoi(val().c_str());
        else if (a == "--max-found") max_found = atoi(val().c_str());
        else if (a == "--budget") budget = atof(val().c_str());
        else if (a == "--deadline") deadline = atof(val().c_str());
        else if (a == "--known") e.opts["known"] = val();
        else if (a == "--opt") { std::string kv = val(); auto q = kv.find('='); e.opts[kv.substr(0, q)] = q == std::string::npos ? "1" : kv.substr(q + 1); }
    }
    if (jobs > MAXW) jobs = MAXW;
    ::mc_setup();
    if (!replay.empty()) {
        // replay in a child so that a crash is reported too
        auto q = replay.rfind(':');
        std::string name = replay.substr(0, q), cs = replay.substr(q + 1);
        std::vector<int> ch;
        std::stringstream ss(cs); std::string x;
        while (std::getline(ss, x, ',')) if (!x.empty()) ch.push_back(atoi(x.c_str()));
        for (auto& s : scenarios()) if (s.name == name) {
            int fds[2]; if (pipe(fds)) return 2;
            fflush(stdout);
            pid_t p = fork();
            if (p == 0) {
                e.tracing = true; e.replaying = true; e.ch = ch; e.split = -1;
                Found f; alarm((unsigned) (s.hang_s * 3 + 10));
                bool bad = run_one(s, f);
                FILE* o = fdopen(fds[1], "w");
                for (auto& l : e.trace) printf("  | %s\n", l.c_str());
                if (bad) { printf("VIOLATED sig=%s\n%s\n", f.sig.c_str(), f.msg.c_str()); fprintf(o, "%s", f.sig.c_str()); }
                else printf("held\n");
                fflush(o); fflush(stdout);
                _exit(bad ? 1 : 0);
            }
            close(fds[1]);
            int st; waitpid(p, &st, 0);
            if (WIFEXITED(st) && WEXITSTATUS(st) < 2) return WEXITSTATUS(st);
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { printf("VIOLATED sig=hang\n"); return 1; }
            if (WIFSIGNALED(st)) { printf("VIOLATED sig=crash signal %d\n", WTERMSIG(st)); return 1; }
            if (WEXITSTATUS(st) >= 96 && WEXITSTATUS(st) <= 98) return 2;
            if (WEXITSTATUS(st) == 71 || WEXITSTATUS(st) == 72) { printf("VIOLATED sig=%s\n", WEXITSTATUS(st) == 71 ? "deadlock" : "a thread never ends"); return 1; }
            printf("VIOLATED sig=crash exit %d\n", WEXITSTATUS(st));
            return 1;
        }
        fprintf(stderr, "no scenario %s\n", name.c_str());
        return 2;
    }
    if (out.empty()) out = "/dev/stdout"; else { FILE* f = fopen(out.c_str(), "w"); if (f) fclose(f); }
    for (auto& s : scenarios()) {
        if (!only.empty() && s.name.find(only) == std::string::npos) continue;
        long v0 = e.sh ? e.sh->validated.load() : 0; (void) v0;
        double b = budget;
        if (deadline > 0) { double rest = std::max(1.0, deadline - (now_ns() - begin) * 1e-9); if (b <= 0 || rest < b) b = rest; }
        Totals t = explore(s, jobs, out, max_found, b);
        FILE* f = fopen(out.c_str(), "a");
        fprintf(f, "{\"type\":\"scenario\",\"name\":\"%s\",\"executions\":%ld,\"pruned\":%ld,\"transitions\":%ld,\"states\":%ld,\"maxdepth\":%ld,\"validated\":%ld,\"complete\":%s,\"wall\":%.2f,\"bounds\":\"%s\"}\n",
                esc(s.name).c_str(), t.execs, t.pruned, t.trans, t.states, t.maxdepth, e.sh->validated.load(), t.complete ? "true" : "false", t.wall, esc(s.bounds).c_str());
        fclose(f);
        munmap(e.sh, sizeof(Shared)); e.sh = nullptr;
    }
    return 0;
}
}  // namespace mc

#define MC_MAIN int main(int argc, char** argv) { return mc::main_(argc, argv); }
