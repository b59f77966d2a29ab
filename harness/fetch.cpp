// P32: one download after another under every schedule: input_curl() with a stand-in of libcurl, and of the pipe.
#include <srcml_input_src.hpp>
#include <srcml_options.hpp>
#include <srcml_pipe.hpp>
#include <input_curl.hpp>
#include <SRCMLStatus.hpp>
#include <curl/curl.h>
#include "mc.hpp"
#include "sched.hpp"
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <thread>
typedef std::string str;
enum How { WHOLE, PARTS, NOTHING, REFUSED, NOT_200, CUT, LAST, HOWS };
static const char* const NAMES[] = {"arrives", "arrives in parts", "is empty", "is refused", "has no success", "is cut off", "fails at the last moment"};
struct Transfer { size_t (*write)(char*, size_t, size_t, void*) = nullptr; void* data = nullptr; long code = 0; str url; };
static const char* const PROTOCOLS[] = {"file", "http", "https", nullptr};
static curl_version_info_data CURL_INFO = {"0", PROTOCOLS};
curl_version_info_data* curl_version_info(int) { return &CURL_INFO; }
CURLcode curl_global_init(long) { return 0; }
void curl_global_cleanup() {}
CURL* curl_easy_init() { return new Transfer; }
void curl_easy_cleanup(CURL* c) { delete (Transfer*) c; }
CURLcode curl_easy_setopt(CURL* c, CURLoption o, ...) {
    va_list a; va_start(a, o); Transfer& t = *(Transfer*) c;
    if (o == CURLOPT_URL) t.url = va_arg(a, const char*); else if (o == CURLOPT_WRITEDATA) t.data = va_arg(a, void*); else if (o == CURLOPT_WRITEFUNCTION) t.write = va_arg(a, size_t (*)(char*, size_t, size_t, void*));
    va_end(a); return 0;
}
CURLcode curl_easy_getinfo(CURL* c, CURLINFO i, ...) { va_list a; va_start(a, i); *va_arg(a, long*) = ((Transfer*) c)->code; va_end(a); return 0; }
static str body(int n) { return "int d" + std::to_string(n) + ";\n"; }
CURLcode curl_easy_perform(CURL* c) {
    Transfer& t = *(Transfer*) c; int h = t.url[7] - '0', n = t.url[9] - '0'; str b = body(n); sched::yield();
    auto send = [&](const str& s) { t.code = h == NOT_200 ? 404 : 200; str copy = s; size_t k = t.write(&copy[0], 1, s.size(), t.data); sched::yield(); return k == s.size(); };
    switch (h) {
    case WHOLE: return send(b) ? 0 : 23;
    case PARTS: return send(b.substr(0, 3)) && send(b.substr(3)) ? 0 : 23;
    case NOTHING: t.code = 200; return 0;
    case REFUSED: return 7;
    case NOT_200: return send("<html>") ? 22 : 23;
    case CUT: return send(b.substr(0, 3)) ? 18 : 23;
    default: return send(b) ? 56 : 23;
    }
}
// the pipe between the download and what reads it
static std::vector<std::thread> started;
void srcml_pipe(srcml_input_src& input, srcml_pipe_process process, srcml_request_t request) {
    int p[2]; if (pipe(p)) mc::fail("harness: pipe", "");
    started.emplace_back([process](srcml_request_t r, srcml_input_t in, srcml_output_dest out) { sigset_t s; sigemptyset(&s); sigaddset(&s, SIGPIPE); pthread_sigmask(SIG_BLOCK, &s, nullptr); process(r, in, out); }, request, srcml_input_t(1, input), srcml_output_dest("-", p[1]));
    input.fd = p[0];
}
void srcml_pipe_clean() {}
void srcml_pipe_block_signal() {}
static bool ready(int fd) { struct pollfd p = {fd, POLLIN, 0}; return poll(&p, 1, 0) > 0; }
static str drain(int fd) {
    str s; char b[64]; while (true) { int k = 0; while (!ready(fd)) { sched::hand_over(); if (++k > 2000) mc::fail("a reader of a download waits for ever", sched::G().log); } ssize_t n = read(fd, b, sizeof b); if (n <= 0) return s; s.append(b, (size_t) n); sched::yield(); }
}
void mc_setup() {
    bool th = mc::thorough();
    mc::add("schedules", "every sequence of 2" + str(th ? " or 3" : "") + " downloads with 7 courses each, read to the end or not, under all schedules with at most " + std::to_string(th ? 3 : 2) + " preemptions and a spurious wake-up", 3, 60, [=] {
        struct D { int how; bool leave; }; std::vector<D> v; int n = th ? 2 + mc::choose(2) : 2; for (int i = 0; i < n; ++i) { int h = mc::choose(HOWS); v.push_back({h, i == 0 && mc::choose(2)}); }
        str what; std::vector<int> fds; fflush(stderr); int keep = dup(2), nul = open("/dev/null", O_WRONLY); dup2(nul, 2); close(nul);
        auto back = [&] { dup2(keep, 2); close(keep); };
        try {
            sched::run(n == 3 ? 1 : th ? 3 : 2, 1, [&] {
                for (int i = 0; i < n; ++i) {
                    int h = v[(size_t) i].how; srcml_input_src in("http://" + std::to_string(h) + "/" + std::to_string(i) + ".cpp"); int ok = input_curl(in); what += str("download ") + NAMES[h] + ": " + std::to_string(ok) + "\n";
                    if (!contains<int>(in)) mc::fail("a download has no descriptor to read it from", what); int fd = *in.fd;
                    bool has = h != REFUSED && h != NOT_200; MC_CHECK(!ok == !has, has ? "a download that delivers is refused" : "a download that does not deliver is accepted", what + sched::G().log);
                    if (v[(size_t) i].leave) { close(fd); mc::state(what); continue; }
                    str got = drain(fd), want = !has || h == NOTHING ? "" : h == CUT ? body(i).substr(0, 3) : body(i); MC_CHECK(got == want, "a download is read as other data", what + mc::show(got) + "\n" + sched::G().log);
                    bool bad = getCurlErrors(fd); MC_CHECK(bad == (h >= REFUSED), bad ? "a complete download is taken as one that failed" : "a download that failed is taken as complete", what + sched::G().log); fds.push_back(fd); mc::state(what + got);
                }
                for (auto& t : started) t.join(); started.clear();
            });
        } catch (...) { back(); for (int fd : fds) close(fd); new std::vector<std::thread>(std::move(started)); started.clear(); throw; }
        back(); for (int fd : fds) close(fd); mc::validated(); });
}
MC_MAIN
