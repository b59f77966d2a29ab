// P17: sources and archives written to every kind of sink, and to sinks that fail at every byte, every write, on opening or on closing.
#include "mc.hpp"
#include "obs.hpp"
#include "arch.hpp"
#include "enc.hpp"
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <signal.h>
#include <errno.h>
#include <type_traits>
#include <filesystem>

// ---- a sink: what it accepts, and what it has got
struct Fault {
    enum Kind { NONE, LIMIT, CALL, SHORT_CALL, SHORT_ALL, CLOSE, DEVFULL, READONLY, CLOSED, NODIR, ISDIR, RLIMIT } kind = NONE;
    long n = 0, m = 0;          // LIMIT: nothing after n bytes; CALL: write n fails; SHORT_CALL: write n takes m bytes; SHORT_ALL: n bytes a write; RLIMIT: files of n bytes
};
struct Sink { Fault f; str got; long calls = 0; int closes = 0; bool close_failed = false; };
static ssize_t take(Sink& s, const char* b, size_t len) {
    long k = s.calls++; size_t n = len;
    switch (s.f.kind) {
    case Fault::LIMIT: { size_t left = (size_t) s.f.n > s.got.size() ? (size_t) s.f.n - s.got.size() : 0; if (!left && len) { errno = ENOSPC; return -1; } n = std::min(n, left); break; }
    case Fault::CALL: if (k == s.f.n) { errno = EIO; return -1; } break;
    case Fault::SHORT_CALL: if (k == s.f.n) n = std::min(n, (size_t) s.f.m); break;
    case Fault::SHORT_ALL: n = std::min(n, (size_t) s.f.n); break;
    default: break;
    }
    s.got.append(b, n); return (ssize_t) n;
}
static int fin(Sink& s) { ++s.closes; if (s.f.kind == Fault::CLOSE) { errno = EIO; s.close_failed = true; return -1; } return 0; }
static int io_write(void* c, const char* b, int len) { return (int) take(*(Sink*) c, b, (size_t) len); }
static int io_close(void* c) { return fin(*(Sink*) c); }
static ssize_t ck_write(void* c, const char* b, size_t n) { ssize_t r = take(*(Sink*) c, b, n); return r < 0 ? 0 : r; }
static int ck_close(void* c) { return fin(*(Sink*) c); }
// writes to one descriptor go to a sink
static int g_fd = -1; static Sink* g_sink = nullptr;
extern "C" ssize_t write(int fd, const void* b, size_t n) { return g_sink && fd == g_fd ? take(*g_sink, (const char*) b, n) : (ssize_t) syscall(SYS_write, fd, b, n); }

// ---- what is written
typedef std::function<int(srcml_archive**)> Maker;
enum { TMEM, TNAME, FILEP, FILE_COOKIE, TFD, FD_CALLS, IO, IO_NOCLOSE, NK };
static const char* KN[] = {"memory", "filename", "FILE of a file", "FILE of callbacks", "descriptor of a file", "descriptor", "callbacks", "callbacks without close"};
template <class R> static int status_of(R (*close)(srcml_archive*), srcml_archive* a) { if constexpr (std::is_void<R>::value) { close(a); return 0; } else return (int) close(a); }
struct Out { bool opened = true; str got; bool whole = true; std::vector<int> rc; };
static str fpath() { static str p; static pid_t o = 0; if (o != getpid()) { o = getpid(); p = mc::scratch() + "/s" + std::to_string(o); } return p; }
static str slurp(const str& p) { str s; FILE* f = fopen(p.c_str(), "r"); if (!f) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f))) s.append(b, n); fclose(f); return s; }
// run the call on the sink; `call` gets the kind and the arguments, and returns a status of each step
struct Args { S name = nullptr; char** buf = nullptr; size_t* size = nullptr; FILE* f = nullptr; int fd = -1; Sink* s = nullptr; };
template <class F> static Out onto(int kind, Fault fl, F call) {
    Out o; Sink s; s.f = fl; Args a; str p = fpath(); char* b = nullptr; size_t n = 12345; rlimit old; bool lim = fl.kind == Fault::RLIMIT, cookie_fail = false;
    str target = fl.kind == Fault::DEVFULL ? "/dev/full" : fl.kind == Fault::NODIR ? p + "-none/x" : fl.kind == Fault::ISDIR ? mc::scratch() : p;
    bool file = fl.kind != Fault::DEVFULL && fl.kind != Fault::NODIR && fl.kind != Fault::ISDIR;
    if (file) unlink(p.c_str());
    if (fl.kind == Fault::READONLY) { FILE* t = fopen(p.c_str(), "w"); fclose(t); }
    if (lim) { getrlimit(RLIMIT_FSIZE, &old); }
    switch (kind) {
    case TMEM: a.buf = &b; a.size = &n; break;
    case TNAME: a.name = target.c_str(); break;
    case FILEP: a.f = fopen(target.c_str(), fl.kind == Fault::READONLY ? "r" : "w"); break;
    case FILE_COOKIE: { cookie_io_functions_t io = {nullptr, ck_write, nullptr, ck_close}; a.f = fopencookie(&s, "w", io); break; }
    case TFD: a.fd = open(target.c_str(), fl.kind == Fault::READONLY ? O_RDONLY : O_CREAT | O_TRUNC | O_WRONLY, 0600); if (fl.kind == Fault::CLOSED) close(a.fd); break;
    case FD_CALLS: a.fd = open("/dev/null", O_WRONLY); g_fd = a.fd; g_sink = &s; break;
    default: a.s = &s; break;
    }
    if (lim) { rlimit r = old; r.rlim_cur = (rlim_t) fl.n; setrlimit(RLIMIT_FSIZE, &r); }
    o.rc = call(kind, a);
    g_sink = nullptr;
    str before = s.got;         // nothing may be left in the stream for the caller to flush
    if (kind == FILEP || kind == FILE_COOKIE) { if (fl.kind == Fault::NONE && kind == FILEP) before = slurp(p); fclose(a.f); }
    if (lim) setrlimit(RLIMIT_FSIZE, &old);
    if ((kind == TFD && fl.kind != Fault::CLOSED) || kind == FD_CALLS) { MC_CHECK(fcntl(a.fd, F_GETFD) != -1, "the caller's descriptor is closed", KN[kind]); close(a.fd); }
    switch (kind) {
    case TMEM: o.got.assign(b ? b : "", b ? n : 0); srcml_memory_free(b); break;
    case TNAME: case FILEP: case TFD: if (file) { o.got = slurp(p); unlink(p.c_str()); } else o.whole = false; break;
    default: o.got = s.got; break;
    }
    if (kind == FILEP && fl.kind == Fault::NONE) MC_CHECK(before == o.got, "output left in the caller's stream", KN[kind]);
    if (kind == FILE_COOKIE && fl.kind == Fault::NONE) MC_CHECK(before == o.got, "output left in the caller's stream", KN[kind]);
    if (kind == IO) MC_CHECK(s.closes == 1, "close callback called " + std::to_string(s.closes) + " times", KN[kind]);
    if (kind == IO && s.close_failed) o.whole = false;
    (void) cookie_fail;
    if (fl.kind == Fault::READONLY || fl.kind == Fault::CLOSED) o.whole = false;
    return o;
}
static std::vector<int> unparse(srcml_unit* u, int kind, const Args& a) {
    switch (kind) {
    case TMEM: return {srcml_unit_unparse_memory(u, a.buf, a.size)};
    case TNAME: return {srcml_unit_unparse_filename(u, a.name)};
    case FILEP: case FILE_COOKIE: return {srcml_unit_unparse_FILE(u, a.f)};
    case TFD: case FD_CALLS: return {srcml_unit_unparse_fd(u, a.fd)};
    case IO: return {srcml_unit_unparse_io(u, a.s, io_write, io_close)};
    default: return {srcml_unit_unparse_io(u, a.s, io_write, nullptr)};
    }
}
static int open_on(srcml_archive* ar, int kind, const Args& a) {
    switch (kind) {
    case TMEM: return srcml_archive_write_open_memory(ar, a.buf, a.size);
    case TNAME: return srcml_archive_write_open_filename(ar, a.name);
    case FILEP: case FILE_COOKIE: return srcml_archive_write_open_FILE(ar, a.f);
    case TFD: case FD_CALLS: return srcml_archive_write_open_fd(ar, a.fd);
    case IO: return srcml_archive_write_open_io(ar, a.s, io_write, io_close);
    default: return srcml_archive_write_open_io(ar, a.s, io_write, nullptr);
    }
}
static std::vector<int> write_archive(const arch::C& c, int kind, const Args& a, bool on, const str& raw, const std::vector<srcml_unit*>* made = nullptr) {
    srcml_archive* ar = srcml_archive_create(); arch::set(ar, c);
    std::vector<int> rc; rc.push_back(open_on(ar, kind, a)); size_t i = 0;
    if (on || rc[0] == SRCML_STATUS_OK) for (auto& uc : c.units) {
        srcml_unit* u = made ? (*made)[i++] : arch::make(ar, uc); int r = srcml_archive_write_unit(ar, u); rc.push_back(r); if (!made) srcml_unit_free(u);
        if (r && !on) break;
    }
    if (raw.size()) rc.push_back(srcml_archive_write_string(ar, raw.data(), (int) raw.size()));
    rc.push_back(status_of(srcml_archive_close, ar)); srcml_archive_free(ar);
    return rc;
}
static bool ok(const std::vector<int>& rc) { for (int r : rc) if (r) return false; return true; }
static str show(const std::vector<int>& v) { str s; for (int i : v) s += " " + std::to_string(i); return s; }
static str text_of(size_t n, bool wide) { str s; while (s.size() < n) { s += wide ? "\xC3\xA9" : "a"; s += s.size() % 40 > 37 ? "\n" : ";"; } s.resize(n); if (n && (unsigned char) s[n - 1] == 0xC3) s[n - 1] = 'z'; return s; }
static std::string mem_of(const arch::C& c, const str& raw = "") { return onto(TMEM, Fault(), [&](int k, const Args& a) { return write_archive(c, k, a, true, raw); }).got; }

static str faults_text(const Fault& f) { static const char* N[] = {"none", "full after", "write fails:", "write shortened:", "writes shortened to", "closing fails", "/dev/full", "read-only", "closed descriptor", "no such directory", "a directory", "file size limit"}; return str(N[f.kind]) + " " + std::to_string(f.n) + "," + std::to_string(f.m); }
// every fault of a sink of this kind, for an output of n bytes
static Fault choose_fault(int kind, size_t n, bool th) {
    std::vector<long> at; for (size_t i = 0; i <= n + 1; ++i) if (n < 600 || th || i < 3 || i + 3 > n || i % 512 < 2 || (i > 3990 && i < 4100)) at.push_back((long) i);
    Fault f;
    switch (kind) {
    case TNAME: { static const Fault::Kind K[] = {Fault::DEVFULL, Fault::NODIR, Fault::ISDIR, Fault::RLIMIT}; f.kind = K[mc::choose(4)]; break; }
    case FILEP: case TFD: { static const Fault::Kind K[] = {Fault::DEVFULL, Fault::READONLY, Fault::RLIMIT, Fault::CLOSED}; f.kind = K[mc::choose(kind == TFD ? 4 : 3)]; break; }
    case FILE_COOKIE: { static const Fault::Kind K[] = {Fault::LIMIT, Fault::CALL}; f.kind = K[mc::choose(2)]; break; }
    default: { static const Fault::Kind K[] = {Fault::LIMIT, Fault::CALL, Fault::SHORT_CALL, Fault::SHORT_ALL, Fault::CLOSE}; f.kind = K[mc::choose(kind == IO ? 5 : 4)]; break; }
    }
    if (f.kind == Fault::LIMIT || f.kind == Fault::RLIMIT) f.n = mc::pick(at);
    if (f.kind == Fault::CALL || f.kind == Fault::SHORT_CALL) f.n = mc::choose(kind == FD_CALLS || kind == IO || kind == IO_NOCLOSE ? 12 : 5);
    if (f.kind == Fault::SHORT_CALL) { static const std::vector<long> M = {0, 1, 2, 7, 100, 3999}; f.m = mc::pick(M); }
    if (f.kind == Fault::SHORT_ALL) { static const std::vector<long> M = {0, 1, 2, 7, 100, 1000, 3999, 4000, 4001}; f.n = mc::pick(M); }
    return f;
}
void mc_setup() {
    bool th = mc::thorough(); using namespace arch;
    signal(SIGXFSZ, SIG_IGN); signal(SIGPIPE, SIG_IGN);
    int nul = open("/dev/null", O_WRONLY); dup2(nul, 2);
    // sources in an archive, with their encodings
    struct Source { str bytes; str text; str enc; };
    auto source = [](size_t n, bool wide, const str& e) {
        Source s; s.enc = e; s.text = text_of(n, wide);
        C c; c.sol = true; U u; u.src = s.text; c.units = {u}; s.bytes = build(c).bytes; return s;
    };
    static std::vector<size_t> N = {0, 1, 2, 50, 1999, 2000, 2001, 3990, 3998, 3999, 4000, 4001, 4002, 4096, 7999, 8000, 8001, 16001}; if (th) { N.push_back(65537); for (size_t i = 3900; i < 4100; i += 7) N.push_back(i); }
    static const char* ENC[] = {"UTF-8", "ISO-8859-1", "UTF-16LE", "UTF-16BE", "US-ASCII", "ASCII"};
    static std::vector<Source> SRC; for (size_t n : N) for (bool w : {false, true}) SRC.push_back(source(n, w, ""));
    struct Opened { srcml_archive* a; srcml_unit* u; };
    static auto opened = [](const Source& s, const str& enc) { Opened o; o.a = srcml_archive_create(); srcml_archive_read_open_memory(o.a, s.bytes.data(), s.bytes.size()); o.u = srcml_archive_read_unit(o.a); if (!o.u) mc::fail("unit not read", ""); srcml_unit_set_src_encoding(o.u, enc.c_str()); return o; };
    static auto closed = [](Opened o) { srcml_unit_free(o.u); srcml_archive_close(o.a); srcml_archive_free(o.a); };
    static auto encoded = [](const str& t, const str& e, int eol) {
        str o; for (size_t i = 0; i < t.size();) { unsigned char c = (unsigned char) t[i]; unsigned cp = c; size_t l = 1; if (c >= 0xC0) { cp = (c & 31u) << 6 | ((unsigned char) t[i + 1] & 63u); l = 2; } i += l;
            std::vector<unsigned> cs; if (cp == '\n' && eol == SOURCE_OUTPUT_EOL_CRLF) cs = {'\r', '\n'}; else if (cp == '\n' && eol == SOURCE_OUTPUT_EOL_CR) cs = {'\r'}; else cs = {cp};
            o += enc::encode(e == "ASCII" ? "US-ASCII" : e, cs); }
        return o;
    };
    mc::add("source to every sink", std::to_string(N.size()) + " lengths x narrow or wide text x 6 encodings x 4 line ends x 8 sinks", 3, 30, [=] {
        const Source& s = mc::pick(SRC); str e = ENC[mc::choose(6)]; int eol = mc::choose(4); if (e.find("ASCII") != str::npos && s.text.find('\xC3') != str::npos) mc::prune();
        Opened o = opened(s, e); size_t E[] = {SOURCE_OUTPUT_EOL_AUTO, SOURCE_OUTPUT_EOL_LF, SOURCE_OUTPUT_EOL_CR, SOURCE_OUTPUT_EOL_CRLF}; srcml_unit_set_eol(o.u, E[eol]);
        str want = encoded(s.text, e, (int) E[eol]);
        for (int k = 0; k < NK; ++k) {
            Out r = onto(k, Fault(), [&](int kk, const Args& a) { return unparse(o.u, kk, a); });
            MC_CHECK(ok(r.rc) && r.got == want, "source differs", str(KN[k]) + " " + e + " status" + show(r.rc) + " " + std::to_string(r.got.size()) + " bytes for " + std::to_string(want.size()) + "\n" + mc::diff(r.got, want));
            mc::step(); mc::validated();
        }
        mc::state(want); closed(o);
    });
    static std::vector<size_t> PICK; for (size_t i = 0; i < SRC.size(); ++i) { size_t n = SRC[i].text.size(); if (n <= 50 || n == 3999 || n == 4001 || n == 8001 || n == 16001) PICK.push_back(i); }
    mc::add("source to a failing sink", "lengths around the blocks written x 3 encodings x 7 sinks x every fault: full after every byte, every write failing or shortened, all writes shortened, not to be opened, closing fails", 4, 30, [=] {
        const Source& s = SRC[mc::pick(PICK)]; str e = ENC[mc::choose(3)]; int k = 1 + mc::choose(NK - 1);
        Opened o = opened(s, e); str want = encoded(s.text, e, SOURCE_OUTPUT_EOL_AUTO); Fault f = choose_fault(k, want.size(), th);
        str before = sml::s(srcml_unit_get_srcml(o.u));
        Out r = onto(k, f, [&](int kk, const Args& a) { return unparse(o.u, kk, a); });
        str why = str(KN[k]) + " " + e + ", " + faults_text(f) + ": status" + show(r.rc) + ", " + std::to_string(r.got.size()) + " of " + std::to_string(want.size()) + " bytes";
        bool whole = r.whole && r.got == want;
        if (want.empty() && !whole) { }     // nothing had to be written
        else if (whole) MC_CHECK(ok(r.rc), "source written, but an error reported", why); else MC_CHECK(!ok(r.rc), "source not written, and no error", why);
        if (f.kind == Fault::NODIR || f.kind == Fault::ISDIR || (f.kind == Fault::CLOSE && k == IO)) MC_CHECK(!ok(r.rc), "sink failed, and no error", why);
        if (!ok(r.rc)) MC_CHECK(f.kind == Fault::CALL || f.kind == Fault::SHORT_CALL || want.compare(0, r.got.size(), r.got) == 0, "bytes that are not the source's", why);
        Out m = onto(TMEM, Fault(), [&](int kk, const Args& a) { return unparse(o.u, kk, a); });
        MC_CHECK(ok(m.rc) && m.got == want && before == sml::s(srcml_unit_get_srcml(o.u)), "unit differs after the failure", why + "\n" + mc::diff(m.got, want));
        mc::step(2); mc::validated(); mc::state(why); closed(o);
    });
    // archives
    auto config = [=](int i) {
        C c; U u; u.file = "a.cpp"; u.src = "a<b;\n"; c.units = {u};
        switch (i) {
        case 0: break;
        case 1: c.units.clear(); break;
        case 2: c.sol = true; break;
        case 3: c.units.push_back(u); c.units[1].src = text_of(5000, true); c.url = "u"; break;
        case 4: c.units[0].src = text_of(3000, true); c.units.push_back(u); c.units.push_back(c.units[0]); c.ns = {{"e", "http://e/"}}; c.macros = {{"M", "src:macro"}}; break;
        case 5: c.opts = SRCML_OPTION_NO_XML_DECL; c.units[0].src = "\xC3\xA9\xE4\xB8\xAD;"; break;
        case 6: c.opts = SRCML_OPTION_POSITION; c.pit = "pi"; c.pid = "data"; break;
        case 7: c.opts = SRCML_OPTION_CPP; c.units[0].kind = 2; break;
        default: c.sol = true; c.units[0].src = text_of(9000, true); break;
        }
        return c;
    };
    const int NC = 9; static const char* X[] = {nullptr, "UTF-8", "ISO-8859-1", "UTF-16", "US-ASCII"};
    static auto raws = [](int i) { return str(i == 0 ? "" : i == 1 ? "<!--x-->" : "<e>\xC3\xA9</e>"); };
    mc::add("archive to every sink", "9 archives x 5 XML encodings x 3 raw strings x 8 sinks", 2, 30, [=] {
        C c = config(mc::choose(NC)); c.xml = X[mc::choose(5)]; str raw = raws(mc::choose(3)); str want = mem_of(c, raw);
        for (int k = 1; k < NK; ++k) {
            Out r = onto(k, Fault(), [&](int kk, const Args& a) { return write_archive(c, kk, a, true, raw); });
            MC_CHECK(ok(r.rc) && r.got == want, "archive differs", str(KN[k]) + " status" + show(r.rc) + " " + arch::show(c) + "\n" + mc::diff(r.got, want));
            mc::step(); mc::validated();
        }
        mc::state(want);
    });
    // parsed once, and written again and again
    struct Ready { C c; std::vector<srcml_unit*> units; str want; }; static Ready ready[NC][3];
    for (int i = 0; i < NC; ++i) for (int x = 0; x < 3; ++x) { Ready& r = ready[i][x]; r.c = config(i); r.c.xml = X[x]; srcml_archive* a = srcml_archive_create(); arch::set(a, r.c); for (auto& u : r.c.units) r.units.push_back(make(a, u)); r.want = mem_of(r.c); }
    mc::add("archive to a failing sink", "9 archives x 3 XML encodings x 7 sinks x every fault (as for sources) x stop after an error or go on", 4, 30, [=] {
        int ci = mc::choose(NC), xi = mc::choose(3), k = 1 + mc::choose(NK - 1); bool on = mc::choose(2); const C& c = ready[ci][xi].c;
        if (on && (k == TNAME || k == FILEP || k == TFD) && !th && ready[ci][xi].want.size() > 2000) mc::prune();
        const str& want = ready[ci][xi].want; Fault f = choose_fault(k, want.size(), th);
        Out r = onto(k, f, [&](int kk, const Args& a) { return write_archive(c, kk, a, on, "", &ready[ci][xi].units); });
        str why = str(KN[k]) + ", " + faults_text(f) + (on ? ", going on" : "") + ": status" + ::show(r.rc) + ", " + std::to_string(r.got.size()) + " of " + std::to_string(want.size()) + " bytes, " + arch::show(c).substr(0, 500);
        bool whole = r.whole && r.got == want;
        if (whole) MC_CHECK(ok(r.rc), "archive written, but an error reported", why); else MC_CHECK(!ok(r.rc), "archive not written, and no error", why);
        mc::step(); mc::validated(); mc::state(why);
    });
    // names
    static const std::vector<str> W = {"a.c", "a%41.c", "%2e%2e", "a b", "a%20b", "a#b", "a?b", "file:", "-x", "%", "%zz", "a:b", "\xC3\xA9", "a&b", "%2F", "+", "~", "a.gz"};
    mc::add("names of files", "every name of up to two of 18 pieces, source and archive: exactly the file of that name is written", 1, 30, [=] {
        str name = mc::pick(W); int j = mc::choose((int) W.size() + 1); if (j) name += W[(size_t) j - 1];
        str dir = fpath() + "d"; mkdir(dir.c_str(), 0700); str p = dir + "/" + name; const Source& s = SRC[6]; int rc; str want;
        int w = mc::choose(4); str here = mc::scratch();
        if (w % 2) { if (chdir(dir.c_str())) _exit(98); p = name; }
        if (w < 2) { Opened o = opened(s, "UTF-8"); rc = srcml_unit_unparse_filename(o.u, p.c_str()); closed(o); want = s.text; }
        else { C c = config(0); want = mem_of(c); Args a; a.name = p.c_str(); rc = ok(write_archive(c, TNAME, a, true, "")) ? 0 : 1; }
        str got, all; int n = 0;
        if (w % 2) { if (chdir("/")) _exit(98); }
        for (auto& e : std::filesystem::recursive_directory_iterator(dir)) { all += e.path().string() + "\n"; ++n; }
        got = slurp(dir + "/" + name); std::filesystem::remove_all(dir);
        MC_CHECK(rc == 0 && got == want && n == 1, "file of another name", "name '" + name + "' status " + std::to_string(rc) + " directory: " + all);
        mc::validated(); mc::state(name);
    });
}
MC_MAIN
