// P20: the parsing and writing queues of the tool under every schedule.  P27: the open-file limiter.
//   --opt set=P20 | P27
#include "sched.hpp"
#include "obs.hpp"
#include <ParseQueue.hpp>
#include <WriteQueue.hpp>
#include <OpenFileLimiter.hpp>
#include <SRCMLStatus.hpp>
#include <TraceLog.hpp>
#include <srcml_options.hpp>
#include <srcml_cli.hpp>

// ---- P20 -------------------------------------------------------------------------------------
enum Kind { GOOD, GOOD2, NOLANG, NOFILE, BADLANG, PASS, NK };
static const char* KN[] = {"good", "other", "no-language", "missing-file", "bad-language", "already-failed"};

static std::string units_of(const std::string& xml) {
    sml::Archive a(srcml_archive_create());
    std::string o;
    if (srcml_archive_read_open_memory(a.get(), xml.data(), xml.size())) return "cannot open";
    while (sml::Unit u{srcml_archive_read_unit(a.get())}) {
        sml::Xml x = sml::scan(sml::s(srcml_unit_get_srcml_outer(u.get())));
        if (x.ok() && !srcml_unit_get_filename(u.get()) && !srcml_unit_get_language(u.get()) && sml::text_of(x).empty()) continue;   // an archive without units reads as one empty unit
        o += sml::s(srcml_unit_get_filename(u.get())) + "=" + sml::text_of(x) + " ";
    }
    return o;
}
// returns what was written; units written are counted in *num
static std::string run_queue(const std::vector<int>& kinds, int workers, const char* xpath, bool ordered, int* num, int* errors) {
    sml::Archive a(srcml_archive_create());
    srcml_archive_disable_solitary_unit(a.get());
    srcml_archive_enable_hash(a.get());
    char* buf = nullptr; size_t size = 0;
    srcml_archive_write_open_memory(a.get(), &buf, &size);
    if (xpath) srcml_append_transform_xpath(a.get(), xpath);
    {
        TraceLog log;
        srcml_output_dest dest("mem");
        
        WriteQueue wq(log, dest, ordered);
        ParseQueue pq(workers, &wq);
        int i = 0;
        for (int k : kinds) {
            auto r = std::make_shared<ParseRequest>();
            r->srcml_arch = a.get();
            r->filename = "f" + std::to_string(i) + ".cpp";
            std::string src = k == GOOD2 ? "b;" : "a" + std::to_string(i) + ";\n";
            r->buffer.assign(src.begin(), src.end());
            r->language = k == BADLANG ? "Klingon" : k == NOLANG ? "" : "C++";
            if (k == NOLANG) { r->filename = "f.unknown"; }
            if (k == NOFILE) { r->disk_filename = "/nonexistent/f.cpp"; }
            if (k == PASS) r->status = SRCML_STATUS_UNSET_LANGUAGE;
            pq.schedule(r);
            ++i;
        }
        pq.wait();
        wq.stop();
        *num = wq.numWritten();
        *errors = 0;
    }
    srcml_archive_close(a.get());
    std::string xml(buf ? buf : "", size);
    srcml_memory_free(buf);
    return xml;
}
static void p20() {
    bool th = mc::thorough();
    sched::fine_points() = th;
    SRCMLOptions::set(0);
    auto scen = [=](int maxn, const std::vector<int>& alphabet, int maxpre, int maxspur, const char* xpath, int nw) {
        int n = 1 + mc::choose(maxn);
        std::vector<int> k; for (int i = 0; i < n; ++i) k.push_back(mc::pick(alphabet));
        for (int i = n; i < 5; ++i) mc::choose(1);
        int w = 1 + mc::choose(nw);
        std::string s = std::to_string(w) + " workers:"; for (int x : k) s += std::string(" ") + KN[x];
        mc::note(s);
        std::string want; int good = 0;
        for (int i = 0; i < n; ++i) if (k[i] == GOOD || k[i] == GOOD2) { ++good; std::string f = "f" + std::to_string(i) + ".cpp="; want += xpath ? f + (k[i] == GOOD2 ? "b" : "a" + std::to_string(i)) + " " : f + (k[i] == GOOD2 ? "b;" : "a" + std::to_string(i) + ";\n") + " "; }
        std::string xml; int num = -1, err = -1;
        sched::run(maxpre, maxspur, [&] { xml = run_queue(k, w, xpath, true, &num, &err); });
        std::string got = units_of(xml);
        MC_CHECK(got == want, "units written differ from the inputs in order", "got  " + got + "\nwant " + want);
        MC_CHECK(num == good, "number of units written", std::to_string(num) + " not " + std::to_string(good));
        mc::validated();
        mc::state(s + got);
    };
    std::string b = "all sequences of up to N requests x 1-2 workers x all schedules of the producer, the workers and the writer";
    std::vector<int> mix = {GOOD, NOFILE, PASS, NOLANG, BADLANG};
    mc::add("two requests", b + ", N=2 over 5 kinds, up to " + std::to_string(th ? 2 : 1) + " preemptions", 14, 60, [=] { scen(2, mix, th ? 2 : 1, 0, nullptr, 2); });
    mc::add("two requests, one worker", b + ", N=2 over good and missing file, one worker, up to " + std::to_string(th ? 4 : 2) + " preemptions", 14, 60, [=] { scen(2, {GOOD, NOFILE}, th ? 4 : 2, 0, nullptr, 1); });
    mc::add("two good requests", b + ", one and two good requests, up to 2 preemptions", 14, 60, [=] { scen(2, {GOOD}, th ? 3 : 2, 0, nullptr, 2); });
    mc::add("three requests", b + ", N=3 over good, missing file, already failed, up to " + std::to_string(th ? 2 : 1) + " preemptions", 14, 60, [=] { scen(3, {GOOD, NOFILE, PASS}, th ? 2 : 1, 0, nullptr, th ? 3 : 2); });
    mc::add("more requests", b + ", N=" + std::to_string(th ? 5 : 4) + " over good and missing file, no preemption (all hand-overs)", 14, 60, [=] { scen(th ? 5 : 4, {GOOD, NOFILE}, 0, 0, nullptr, 3); });
    mc::add("spurious wake-ups", b + ", N=2 over good and already failed, 1 preemption and 1 spurious wake-up", 14, 60, [=] { scen(th ? 3 : 2, {GOOD, PASS}, 1, 1, nullptr, th ? 2 : 1); });
    mc::add("with a query", b + ", N=2, each unit transformed by an XPath query, 1 preemption", 14, 60, [=] { scen(2, {GOOD, GOOD2, NOFILE}, th ? 2 : 1, 0, "//src:name", 2); });
    mc::add("scalar results", "all sequences of up to 3 requests of 3 kinds x 5 queries with a scalar result x 1-2 workers, no preemption", 8, 60, [=] {
        static const char* Q[] = {"count(//src:name)", "string(//src:name)", "string(//src:none)", "boolean(//src:name)", "count(//src:name) div 2"};
        int q = mc::choose(5), n = 1 + mc::choose(3); std::vector<int> k; std::string want;
        for (int i = 0; i < n; ++i) k.push_back(mc::pick(std::vector<int>{GOOD, GOOD2, NOFILE}));
        int w = 1 + mc::choose(2);
        std::string s = std::string(Q[q]) + ":"; for (int x : k) s += std::string(" ") + KN[x];
        mc::note(s);
        for (int i = 0; i < n; ++i) if (k[i] != NOFILE) { std::string nm = k[i] == GOOD2 ? "b" : "a" + std::to_string(i); want += (q == 0 ? "1" : q == 1 ? nm : q == 2 ? "" : q == 3 ? "true" : "0.500000") + std::string("\n"); }
        std::string xml; int num = -1, err = -1;
        sched::run(0, 0, [&] { xml = run_queue(k, w, Q[q], true, &num, &err); });
        MC_CHECK(want.empty() || xml == want, "scalar results differ", "got " + mc::show(xml) + " want " + mc::show(want));
        mc::validated();
        mc::state(s + xml);
    });
}

// ---- P27 -------------------------------------------------------------------------------------
static void p27() {
    bool th = mc::thorough();
    static const int LIMIT = OpenFileLimiter::MAX_OPEN_FILES;
    auto scen = [=](int T, int K, int maxpre, int maxspur) {
        static const int BASE = LIMIT - 4;
        int free_ = mc::choose(3);
        bool hold = mc::choose(2) != 0;                // every thread keeps its files until all are done
        int want = hold ? std::min(T, 4) : free_ ? free_ : 1 + mc::choose(2);
        if (!hold && free_) mc::choose(1);
        int closes = std::max(0, want - free_);        // what the main thread has to give back
        int kk = hold ? 1 : K, tt = hold ? want : T;
        mc::note(std::to_string(tt) + " threads, " + std::to_string(kk) + " files each" + (hold ? " kept" : "") + ", " + std::to_string(free_) + " places free, " + std::to_string(closes) + " closed meanwhile");
        static bool init = false;
        if (!init) { init = true; for (int i = 0; i < BASE; ++i) OpenFileLimiter::open(); }      // four places are left, once for the process
        int held = BASE, peak = 0, opened = 0;
        for (; held < LIMIT - free_; ++held) OpenFileLimiter::open();
        auto restore = [&] { for (; held > BASE; --held) OpenFileLimiter::close(); };
        bool more = false, early = false;
        sched::run(maxpre, maxspur, [&] {
            std::vector<std::thread> t;
            for (int i = 0; i < tt; ++i) t.emplace_back([&] {
                for (int k = 0; k < kk; ++k) {
                    OpenFileLimiter::open(); ++held; ++opened; peak = std::max(peak, held);
                    sched::yield();
                    if (hold) continue;
                    --held; OpenFileLimiter::close();
                }
            });
            for (int i = 0; i < closes; ++i) { --held; OpenFileLimiter::close(); }
            for (auto& x : t) x.join();
        });
        for (; held < LIMIT - free_; ++held) OpenFileLimiter::open();
        for (; held > LIMIT - free_; --held) OpenFileLimiter::close();
        // nothing is lost: exactly the free places can be opened now, the next one waits for a close
        sched::run(0, 0, [&] {
            for (int i = 0; i < free_; ++i) { OpenFileLimiter::open(); ++held; }
            std::thread x([&] { OpenFileLimiter::open(); ++held; more = true; });
            for (int i = 0; i < 4; ++i) sched::hand_over();
            early = more;
            --held; OpenFileLimiter::close();
            x.join();
        });
        restore();
        MC_CHECK(peak <= LIMIT, "more files open than the limit", std::to_string(peak) + " > " + std::to_string(LIMIT));
        MC_CHECK(opened == tt * kk, "files opened", std::to_string(opened));
        MC_CHECK(!early && more, "the limit is not the stated one after use", "");
        mc::validated();
        mc::state(std::to_string(T) + "," + std::to_string(K) + "," + std::to_string(free_) + "," + std::to_string(peak));
    };
    std::string b = " (opened and closed, or kept to the end), 0, 1 or 2 places free and the main thread closing 0 to 4 files in a row x all schedules with up to ";
    mc::add("two threads", "2 threads, one file each" + b + std::to_string(th ? 6 : 4) + " preemptions and one spurious wake-up", 9, 20, [=] { scen(2, 1, th ? 6 : 4, 1); });
    mc::add("two threads, two files", "2 threads, two files each" + b + std::to_string(th ? 5 : 3) + " preemptions", 9, 20, [=] { scen(2, 2, th ? 5 : 3, 0); });
    mc::add("three threads", "3 threads, one file each" + b + std::to_string(th ? 3 : 2) + " preemptions", 9, 20, [=] { scen(3, 1, th ? 3 : 2, 0); });
    mc::add("four threads", "4 threads, one file each" + b + std::to_string(th ? 1 : 0) + " preemptions", 9, 20, [=] { scen(4, 1, th ? 1 : 0, 0); });
}
void mc_setup() {
    int nul = open("/dev/null", O_WRONLY); dup2(nul, 2);
    if (mc::E().opts["set"] == "P20") p20(); else p27();
}
MC_MAIN
