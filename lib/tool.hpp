// The srcml client run as a whole: its own main() in a process of its own, with real arguments, files and descriptors.
// Define main as srcml_main and include srcml.cpp before this.
#pragma once
#include "mc.hpp"
#include <signal.h>
#include <iostream>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <ftw.h>
#include <archive.h>
#include <archive_entry.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <stdarg.h>
namespace tool {
// the thread that makes the system call with this number (open, close, read, write, change of directory) is held up before it or after it, so that all others go on; the count is shared with the parent
struct Delay { std::atomic<long> calls{0}; long at = -1; bool after = false; bool on = false; };
inline Delay*& delay() { static Delay* d = (Delay*) mmap(nullptr, sizeof(Delay), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); return d; }
static bool in_tool = false;
struct Held { bool mine = false; Held() { if (in_tool && delay()->on) mine = delay()->calls++ == delay()->at; if (mine && !delay()->after) hold(); } ~Held() { if (mine && delay()->after) { int e = errno; hold(); errno = e; } } static void hold() { struct timespec t = {0, 12000000}; nanosleep(&t, nullptr); } };
typedef std::string str;
typedef std::vector<str> VS;
struct File { str name, text; };
// ---- files, all below a directory of this process
inline const str& root() { static int pid = 0; static str s; if (pid != getpid()) { pid = getpid(); s = mc::scratch() + "/t" + std::to_string(pid); mkdir(s.c_str(), 0755); } return s; }
inline int remove_one(const char* p, const struct stat*, int, struct FTW*) { return ::remove(p); }
inline void clean(const str& d) { if (d.find(mc::scratch() + "/t") != 0) mc::fail("harness: not in the scratch directory", d); nftw(d.c_str(), remove_one, 32, FTW_DEPTH | FTW_PHYS); }
inline str fresh() { static long n = 0; static int pid = 0; static str last; if (pid != getpid()) { pid = getpid(); last = ""; } if (!last.empty()) clean(last); last = root() + "/" + std::to_string(n++); mkdir(last.c_str(), 0755); return last; }
inline void dirs(const str& path) { for (size_t i = path.find('/', 1); i != str::npos; i = path.find('/', i + 1)) mkdir(path.substr(0, i).c_str(), 0755); }
inline void put(const str& path, const str& text) { dirs(path); FILE* f = fopen(path.c_str(), "wb"); if (!f) mc::fail("harness: cannot write " + path, ""); fwrite(text.data(), 1, text.size(), f); fclose(f); }
inline bool exists(const str& path) { struct stat st; return lstat(path.c_str(), &st) == 0; }
inline str load(const str& path) { FILE* f = fopen(path.c_str(), "rb"); if (!f) return "(no file)"; str s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
static std::vector<str>* walked;
inline int walk_one(const char* p, const struct stat*, int type, struct FTW*) { if (type == FTW_F || type == FTW_SL) walked->push_back(p); return 0; }
inline std::vector<File> tree(const str& d) { std::vector<File> v; VS w; walked = &w; nftw(d.c_str(), walk_one, 32, FTW_PHYS); std::sort(w.begin(), w.end()); for (auto& p : w) v.push_back({p.substr(d.size() + 1), load(p)}); return v; }
// ---- archives and compression, by libarchive alone
inline void pack(const str& path, const std::vector<File>& fs, int (*format)(archive*), int (*filter)(archive*)) {
    archive* a = archive_write_new(); format(a); if (filter) filter(a); if (archive_write_open_filename(a, path.c_str()) != ARCHIVE_OK) mc::fail("harness: archive", path);
    for (auto& x : fs) { archive_entry* e = archive_entry_new(); archive_entry_set_pathname(e, x.name.c_str()); archive_entry_set_size(e, (la_int64_t) x.text.size()); archive_entry_set_filetype(e, AE_IFREG); archive_entry_set_perm(e, 0644); archive_entry_set_mtime(e, 1500000000, 0);
        if (archive_write_header(a, e) < ARCHIVE_WARN) mc::fail("harness: entry", x.name); archive_write_data(a, x.text.data(), x.text.size()); archive_entry_free(e); }
    archive_write_close(a); archive_write_free(a);
}
inline void squeeze(const str& path, const str& text, int (*filter)(archive*)) { dirs(path); pack(path, {{"data", text}}, archive_write_set_format_raw, filter); }
inline bool unpack(const str& path, std::vector<File>& out, bool raw) {
    archive* in = archive_read_new(); if (raw) { archive_read_support_format_raw(in); archive_read_support_format_empty(in); } else archive_read_support_format_all(in); archive_read_support_filter_all(in); bool ok = archive_read_open_filename(in, path.c_str(), 16384) == ARCHIVE_OK; archive_entry* e;
    while (ok) { int r = archive_read_next_header(in, &e); if (r == ARCHIVE_EOF) break; if (r < ARCHIVE_WARN) { ok = false; break; } str t; const void* b; size_t n; la_int64_t off; while ((r = archive_read_data_block(in, &b, &n, &off)) == ARCHIVE_OK) t.append((const char*) b, n); if (r != ARCHIVE_EOF) ok = false; const char* p = archive_entry_pathname(e); out.push_back({p ? p : "", t}); }
    archive_read_free(in); return ok;
}
inline str expand(const str& path) { std::vector<File> v; if (!unpack(path, v, true)) return "(damaged)" + load(path); return v.empty() ? "" : v[0].text; }
// ---- a run of the tool
// limits for the runs that follow: the size of files, the number of descriptors, as a user who may not read everything
static long size_limit = -1, descriptor_limit = -1; static bool unprivileged = false;
struct Run { int rc = -1; bool hang = false; int sig = 0; str out, err, line; };
inline str command(const VS& args, const str* in) { str s = "srcml"; for (auto& a : args) { bool plain = !a.empty(); for (char c : a) plain &= isalnum((unsigned char) c) || strchr("-_./=:,@%+", c); s += " " + (plain ? a : "'" + mc::esc(a) + "'"); } if (in) s += " < " + mc::show(*in, 40); return s; }
inline void finish(int rc, void*) { std::cout.flush(); std::cerr.flush(); fflush(stdout); fflush(stderr); _exit(rc); }
inline Run run(const str& dir, const VS& args, const str* in = nullptr) {
    Run r; r.line = command(args, in); mc::step(); str base = root() + "/io"; fflush(nullptr);
    int p[2] = {-1, -1}; bool pipe_in = in && in->size() < 60000; if (pipe_in) { if (pipe(p)) mc::fail("harness: pipe", ""); size_t at = 0; while (at < in->size()) { ssize_t n = write(p[1], in->data() + at, in->size() - at); if (n <= 0) mc::fail("harness: pipe", ""); at += (size_t) n; } close(p[1]); } else if (in) put(base + ".in", *in);
    int fo = open((base + ".out").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644), fe = open((base + ".err").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    pid_t pid = fork(); if (pid < 0) mc::fail("harness: fork", "");
    if (pid == 0) {
        signal(SIGALRM, SIG_DFL); signal(SIGPIPE, SIG_DFL); alarm(20); struct rlimit l = {0, 0}; setrlimit(RLIMIT_CORE, &l); if (size_limit >= 0) { signal(SIGXFSZ, SIG_IGN); struct rlimit f = {(rlim_t) size_limit, (rlim_t) size_limit}; setrlimit(RLIMIT_FSIZE, &f); }
        int fi = pipe_in ? p[0] : open(in ? (base + ".in").c_str() : "/dev/null", O_RDONLY); dup2(fi, 0); dup2(fo, 1); dup2(fe, 2); for (int i = 3; i < 64; ++i) close(i);
        if (chdir(dir.c_str())) _exit(99); if (unprivileged && (setgid(65534) || setuid(65534))) _exit(99); on_exit(finish, nullptr);
        std::vector<char*> argv; static str name = "srcml"; argv.push_back(&name[0]); VS copy = args; for (auto& a : copy) argv.push_back(&a[0]); argv.push_back(nullptr);
        if (descriptor_limit >= 0) { struct rlimit f = {(rlim_t) descriptor_limit, (rlim_t) descriptor_limit}; setrlimit(RLIMIT_NOFILE, &f); }
        in_tool = true;
        int rc = 98; try { rc = srcml_main((int) args.size() + 1, argv.data()); } catch (std::exception& e) { std::cerr << "uncaught " << e.what(); rc = 97; }
        exit(rc);
    }
    if (p[0] >= 0) close(p[0]);
    int st = 0; while (waitpid(pid, &st, 0) < 0) if (errno != EINTR) break;
    close(fo); close(fe); r.out = load(base + ".out"); r.err = load(base + ".err");
    if (WIFEXITED(st)) r.rc = WEXITSTATUS(st); else { r.sig = WTERMSIG(st); r.hang = r.sig == SIGALRM; }
    return r;
}
inline void sound(const Run& r) { MC_CHECK(!r.hang, "the tool does not end", r.line + "\n" + mc::show(r.err)); MC_CHECK(!r.sig && r.rc != 97, "the tool is ended by a fault", r.line + "\nsignal " + std::to_string(r.sig) + " " + mc::show(r.err)); MC_CHECK(r.rc != 99 && r.rc != 98, "harness: run", r.line); }
inline void good(const Run& r) { sound(r); MC_CHECK(r.rc == 0, "the tool reports a failure", r.line + "\nstatus " + std::to_string(r.rc) + ", printed " + mc::show(r.err)); }
}
