// P32: downloads, in the whole tool.
#define main srcml_main
#include <srcml.cpp>
#undef main
#include "tool.hpp"
#include "sml.hpp"
#include "dom.hpp"
#include <openssl/sha.h>
#include <curl/curl.h>
#include <stdarg.h>
#include <sched.h>
using namespace tool;
// system calls of the tool and its libraries
extern "C" {
int open(const char* p, int fl, ...) { va_list a; va_start(a, fl); int m = fl & (O_CREAT | O_TMPFILE) ? va_arg(a, int) : 0; va_end(a); Held h; return (int) syscall(SYS_openat, AT_FDCWD, p, fl, m); }
int open64(const char* p, int fl, ...) { va_list a; va_start(a, fl); int m = fl & (O_CREAT | O_TMPFILE) ? va_arg(a, int) : 0; va_end(a); Held h; return (int) syscall(SYS_openat, AT_FDCWD, p, fl, m); }
int openat(int d, const char* p, int fl, ...) { va_list a; va_start(a, fl); int m = fl & (O_CREAT | O_TMPFILE) ? va_arg(a, int) : 0; va_end(a); Held h; return (int) syscall(SYS_openat, d, p, fl, m); }
int openat64(int d, const char* p, int fl, ...) { va_list a; va_start(a, fl); int m = fl & (O_CREAT | O_TMPFILE) ? va_arg(a, int) : 0; va_end(a); Held h; return (int) syscall(SYS_openat, d, p, fl, m); }
int close(int fd) { Held h; return (int) syscall(SYS_close, fd); }
ssize_t read(int fd, void* b, size_t n) { Held h; return syscall(SYS_read, fd, b, n); }
ssize_t write(int fd, const void* b, size_t n) { Held h; return syscall(SYS_write, fd, b, n); }
int fchdir(int fd) { Held h; return (int) syscall(SYS_fchdir, fd); }
int chdir(const char* p) { Held h; return (int) syscall(SYS_chdir, p); }
}
typedef std::vector<File> Files;
static bool ends(const str& s, const str& e) { return s.size() >= e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0; }
static str sha(const str& t) { unsigned char d[20]; SHA1((const unsigned char*) t.data(), t.size(), d); str s; char b[3]; for (auto c : d) { snprintf(b, 3, "%02x", c); s += b; } return s; }
// ---- the network: http://HOW/NAME delivers the file NAME of the directory www in the way HOW
enum How { WHOLE, BITS, LATE, PARTS, UNREACHABLE, MISSING, CUT, LAST_MOMENT, SLOW_MISSING, NOT_200, HOWS };
static const VS HOW = {"whole", "bits", "late", "parts", "unreachable", "missing", "cut", "lastmoment", "slowmissing", "redirect"};
static bool arrives(int h) { return h < UNREACHABLE; }
struct Transfer { str url; size_t (*write)(char*, size_t, size_t, void*) = nullptr; void* data = nullptr; long code = 0; };
static const char* const PROTOCOLS[] = {"file", "http", "https", nullptr};
static curl_version_info_data CURL_INFO = {"0", PROTOCOLS};
curl_version_info_data* curl_version_info(int) { return &CURL_INFO; }
CURLcode curl_global_init(long) { return 0; }
void curl_global_cleanup() {}
CURL* curl_easy_init() { return new Transfer; }
void curl_easy_cleanup(CURL* c) { delete (Transfer*) c; }
CURLcode curl_easy_setopt(CURL* c, CURLoption o, ...) {
    va_list a; va_start(a, o); Transfer& t = *(Transfer*) c;
    if (o == CURLOPT_URL) t.url = va_arg(a, const char*); else if (o == CURLOPT_WRITEDATA) t.data = va_arg(a, void*); else if (o == CURLOPT_WRITEFUNCTION) t.write = va_arg(a, size_t (*)(char*, size_t, size_t, void*));
    va_end(a); return 0;
}
CURLcode curl_easy_getinfo(CURL* c, CURLINFO i, ...) { va_list a; va_start(a, i); *va_arg(a, long*) = ((Transfer*) c)->code; va_end(a); return 0; }
static str base_dir;
static void nap(int ms) { struct timespec t = {0, ms * 1000000L}; nanosleep(&t, nullptr); }
CURLcode curl_easy_perform(CURL* c) {
    Transfer& t = *(Transfer*) c; size_t p = t.url.find("://"); if (p == str::npos) return 1; str rest = t.url.substr(p + 3); size_t s = rest.find('/'); str how = rest.substr(0, s), name = s == str::npos ? "" : rest.substr(s + 1);
    int h = 0; while (h < HOWS && HOW[h] != how) ++h; if (h == HOWS) return 6; 
    if (h == UNREACHABLE) return 7;
    if (h == MISSING) { t.code = 404; return 22; }
    if (h == SLOW_MISSING) { nap(4); t.code = 404; return 22; }
    str body = load(base_dir + "/www/" + name); size_t stop = h == CUT ? body.size() / 2 : body.size(), step = h == BITS ? 3 : h == PARTS ? (body.size() + 2) / 3 : 16384; t.code = h == NOT_200 ? 203 : 200; if (h == LATE) nap(4);
    for (size_t i = 0; i < stop; i += step) { size_t n = std::min(step, stop - i); std::string piece = body.substr(i, n); size_t done = t.write(&piece[0], 1, n, t.data); if (done != n) return 23; if (h == PARTS) nap(2); }
    return h == CUT ? 18 : h == LAST_MOMENT ? 56 : 0;
}

// ---- what is there to download
enum Kind { SOURCE, GZ, TGZ, UNIT, UNIT_GZ, ARCHIVE, EMPTY, BIG, PADDED, DAMAGED, GZ_MORE, UNIT_MORE, KINDS };
static const VS KIND = {"a.cpp", "b.cpp.gz", "c.tar.gz", "d.xml", "e.xml.gz", "f.xml", "g.cpp", "h.cpp", "i.tar", "j.tar", "k.cpp.gz", "l.xml.gz"};
static str big() { str s; while (s.size() < 40000) s += "int a" + std::to_string(s.size()) + ";\n"; return s; }
static const std::vector<Files> CONTENTS = {{{"a.cpp", "int a;\nint a2;\n"}}, {{"b.cpp", "int b = 1;\n"}}, {{"p/c.cpp", "int c;\n"}, {"p/c.c", "int cc;\n"}}, {{"d.cpp", "int d;\n"}}, {{"e.cpp", "int e;\n"}}, {{"f1.cpp", "int f1;\n"}, {"f2.cpp", "int f2;\n"}}, {{"g.cpp", ""}}, {{"h.cpp", big()}}, {{"i1.cpp", "int i1;\n"}, {"i2.cpp", "int i2;\n"}}, {{"j1.cpp", "int j1;\n"}}, {{"k.cpp", "int k;\n"}}, {{"l.cpp", "int l;\n"}}};
static void serve(const str& dir) {
    base_dir = dir; static std::vector<File> made;      // made once, by the tool
    if (made.empty()) {
        str d = dir + "/make"; for (int k : {UNIT, UNIT_GZ, ARCHIVE, UNIT_MORE}) { VS a; for (auto& f : CONTENTS[k]) { put(d + "/" + f.name, f.text); a.push_back(f.name); } a.insert(a.end(), {"-o", "o" + std::to_string(k)}); good(run(d, a)); }
        for (int k = 0; k < KINDS; ++k) { str f = dir + "/www/" + KIND[k]; switch (k) { case GZ: squeeze(f, CONTENTS[k][0].text, archive_write_add_filter_gzip); break; case TGZ: dirs(f); pack(f, CONTENTS[k], archive_write_set_format_ustar, archive_write_add_filter_gzip); break;
            case PADDED: dirs(f); pack(f, CONTENTS[k], archive_write_set_format_ustar, nullptr); put(f, load(f) + str(300000, 0)); break; case DAMAGED: dirs(f); pack(f, CONTENTS[k], archive_write_set_format_ustar, nullptr); put(f, load(f).substr(0, 1024) + str(300000, 'x')); break;
            case GZ_MORE: case UNIT_MORE: squeeze(f, k == GZ_MORE ? CONTENTS[k][0].text : load(d + "/o" + std::to_string(k)), archive_write_add_filter_gzip); put(f, load(f) + str(300000, 0)); break;
            case UNIT: case ARCHIVE: put(f, load(d + "/o" + std::to_string(k))); break; case UNIT_GZ: squeeze(f, load(d + "/o" + std::to_string(k)), archive_write_add_filter_gzip); break; default: put(f, CONTENTS[k][0].text); }
            made.push_back({KIND[k], load(f)}); }
    }
    for (auto& f : made) put(dir + "/www/" + f.name, f.text);
}

static bool srcml_kind(int k) { return k == UNIT || k == UNIT_MORE || k == UNIT_GZ || k == ARCHIVE; }
struct In { int kind, how; str url() const { return how < 0 ? "www/" + KIND[kind] : "http://" + HOW[how] + "/" + KIND[kind]; } bool ok() const { return kind != DAMAGED && (how < 0 || arrives(how)); } bool none() const { return how == UNREACHABLE || how == MISSING || how == SLOW_MISSING || how == NOT_200 || how == CUT && kind == EMPTY || how == LAST_MOMENT && kind == EMPTY; } };
typedef std::vector<In> Ins;
static str describe(const Ins& v) { str s; for (auto& i : v) s += i.url() + " "; return s; }
enum Form { DIRECT, LIST, REMOTE_LIST, FORMS };
static VS given(const str& dir, const Ins& v, int form, int list_how = WHOLE) {
    VS a; str l; for (auto& i : v) { if (form == DIRECT) a.push_back(i.url()); l += i.url() + "\n"; }
    if (form == LIST) { put(dir + "/list.txt", l); a = {"--files-from", "list.txt"}; }
    if (form == REMOTE_LIST) { put(dir + "/www/list.txt", l); a = {"--files-from", "http://" + HOW[list_how] + "/list.txt"}; }
    return a;
}
struct Unit { str name, text, hash, lang; };
static bool units_of(const str& x, std::vector<Unit>& out, str& why) {
    dom::Doc d(x); if (!d.ok()) { why = "not well formed: " + d.err; return false; } xmlNodePtr r = d.root(); if (str((const char*) r->name) != "unit") { why = "root " + str((const char*) r->name); return false; }
    auto take = [&](xmlNodePtr u) { out.push_back({dom::att(u, "filename", ""), dom::text(u), dom::att(u, "hash", ""), dom::att(u, "language", "")}); };
    bool inner = false; for (xmlNodePtr c = r->children; c; c = c->next) if (c->type == XML_ELEMENT_NODE && str((const char*) c->name) == "unit") inner = true;
    if (!inner) { if (dom::att(r, "language", "") != "") take(r); return true; }
    for (xmlNodePtr c = r->children; c; c = c->next) if (c->type == XML_ELEMENT_NODE) take(c);
    return true;
}
static str said(const Run& r) { return r.line + "\nstatus " + std::to_string(r.rc) + ", printed " + mc::show(r.err) + "\n" + mc::show(r.out); }
// all that is needed may have been read before the download failed
static bool complete_anyway(const In& i) { return i.how == CUT && (i.kind == PADDED || i.kind == GZ_MORE || i.kind == UNIT_MORE) || i.how == LAST_MOMENT && (i.kind == PADDED || i.kind == GZ_MORE || i.kind == UNIT_MORE); }
// every failing download is reported, in its name; nothing else is
static void reported(const Run& r, const Ins& v, bool all) {
    sound(r); bool bad = false, maybe = false; for (auto& i : v) maybe |= complete_anyway(i); for (auto& i : v) if (!i.ok()) { if (complete_anyway(i)) continue; bad = true; if (all || &i == &v[0]) MC_CHECK(r.err.find(HOW[i.how] + "/" + KIND[i.kind]) != str::npos, "a download that failed is not reported", said(r)); }
    if (!bad && maybe) return;
    MC_CHECK(bad == (r.rc != 0), bad ? "success although a download failed" : "failure although all downloads arrived", said(r)); if (!bad) MC_CHECK(r.err.empty(), "the tool complains although all downloads arrived", said(r));
}
// the units are those of the inputs that arrived; what arrived in part is not taken for all of it
static void check_units(const Run& r, const str& x, const Ins& v, bool all) {
    std::vector<Unit> got; str why; if (!all && x.empty()) return; bool any = false; for (auto& i : v) any |= i.ok();
    if (x.empty()) { MC_CHECK(!any, "there is no srcML although a download arrived", said(r)); return; }
    if (!units_of(x, got, why)) mc::fail("the srcML is not well formed", why + "\n" + said(r));
    for (auto& i : v) for (auto& j : v) if (!i.ok() && !i.none() && j.ok() && i.kind == j.kind && (i.kind == TGZ || srcml_kind(i.kind))) mc::prune();
    size_t at = 0; auto is = [&](const Unit& u, const File& f, const In& i) { bool one = i.kind == SOURCE || i.kind == EMPTY || i.kind == BIG || i.kind == GZ || i.kind == GZ_MORE; return ends(u.name, (one ? (i.how < 0 ? "www" : HOW[i.how]) + "/" : "") + f.name) && u.text == f.text && (u.hash.empty() || u.hash == sha(f.text)) && u.lang == (ends(f.name, ".c") ? "C" : "C++"); };
    for (auto& i : v) for (auto& f : CONTENTS[i.kind]) {
        bool here = at < got.size() && is(got[at], f, i); if (here) { ++at; MC_CHECK(i.ok() || i.how == LAST_MOMENT || (i.how == CUT && i.kind == TGZ) || (i.how == CUT && i.kind == ARCHIVE) || ((i.how == CUT || arrives(i.how)) && i.kind == DAMAGED) || (i.how == CUT && (i.kind == PADDED || i.kind == GZ_MORE || i.kind == UNIT_MORE)), "a unit of a download that failed", said(r)); continue; }
        if (!i.ok()) continue; if (!all && at == got.size()) continue;
        mc::fail("a unit is missing, in part, or not in its place", "wanted " + f.name + " of " + i.url() + "\n" + said(r));
    }
    MC_CHECK(at == got.size(), "a unit that is not one of the files, or only a part of one", said(r));
}
enum Use { TO_STDOUT, TO_FILE, TO_GZ, EACH, XPATH, SOURCE_OUT, SOURCE_DIR, USES };
static const VS USE = {"srcML on standard output", "a srcML file", "a compressed srcML file", "a directory of srcML files", "names", "source on standard output", "a directory of source files"};
static void use(const str& dir, const Ins& v, int form, int use) {
    VS a = given(dir, v, form); bool stops = false; for (auto& i : v) stops |= !i.ok() && (srcml_kind(i.kind) || i.none());
    bool all_srcml = true; for (auto& i : v) all_srcml &= srcml_kind(i.kind);
    switch (use) {
    case TO_STDOUT: a.push_back("-X"); break; case TO_FILE: a.insert(a.end(), {"-X", "-o", "out.xml"}); break; case TO_GZ: a.insert(a.end(), {"-X", "-o", "out.xml.gz"}); break;
    case EACH: if (all_srcml) mc::prune(); for (auto& i : v) if (srcml_kind(i.kind)) mc::prune(); a.insert(a.end(), {"--to-dir", "out"}); break; case XPATH: a.insert(a.end(), {"-X", "--xpath=//src:name"}); break;
    case SOURCE_OUT: if (v.size() > 1 || v[0].kind == ARCHIVE || form != DIRECT) mc::prune(); a.push_back("-S"); break; case SOURCE_DIR: if (!all_srcml || form != DIRECT) mc::prune(); a.insert(a.end(), {"-S", "--to-dir", "out"}); break;
    }
    Run r = run(dir, a); reported(r, v, !stops);
    switch (use) {
    case TO_STDOUT: check_units(r, r.out, v, !stops); break; case TO_FILE: check_units(r, exists(dir + "/out.xml") ? load(dir + "/out.xml") : "", v, !stops); MC_CHECK(r.out.empty(), "output where none was asked for", said(r)); break;
    case TO_GZ: check_units(r, exists(dir + "/out.xml.gz") ? expand(dir + "/out.xml.gz") : "", v, !stops); break;
    case EACH: { Files got = tree(dir + "/out"); std::map<str, Unit> have; for (auto& f : got) { std::vector<Unit> u; str why; if (!units_of(f.text, u, why) || u.size() != 1) mc::fail("the srcML is not well formed", f.name + " " + why + "\n" + said(r)); have[u[0].name] = u[0]; }
        for (auto& i : v) for (auto& f : CONTENTS[i.kind]) { bool found = false; for (auto& h : have) if (ends(h.first, f.name) && h.second.text == f.text) found = true; bool maybe = !i.ok() && (i.how == LAST_MOMENT || i.how == CUT && (i.kind == TGZ || i.kind == PADDED || i.kind == GZ_MORE || i.kind == UNIT_MORE) || i.kind == DAMAGED); if (i.ok() && stops) ; else if (i.ok()) MC_CHECK(found, "a file of srcML is missing", f.name + "\n" + said(r)); else if (!maybe) for (auto& h : have) if (ends(h.first, f.name)) { bool other = false; for (auto& j : v) other |= j.kind == i.kind && j.ok(); MC_CHECK(other, "a file of srcML for a download that failed", said(r)); } } break; }
    case XPATH: { std::vector<Unit> got; str why; if (r.out.empty()) { for (auto& i : v) if (i.ok() && !stops && i.kind != EMPTY) mc::fail("no result although a download arrived", said(r)); break; } dom::Doc d(r.out); if (!d.ok()) { if (stops) break; mc::fail("the result is not well formed", d.err + "\n" + said(r)); }
        str want, have; for (auto& i : v) if (i.ok()) for (auto& f : CONTENTS[i.kind]) { size_t p = 0; while ((p = f.text.find("int ", p)) != str::npos) { want += "int "; p += 4; size_t e = f.text.find_first_of(" ;", p); want += f.text.substr(p, e - p) + " "; } }
        std::function<void(xmlNodePtr)> look = [&](xmlNodePtr e) { for (; e; e = e->next) if (e->type == XML_ELEMENT_NODE) { if (str((const char*) e->name) == "name" && (!e->children || e->children->type == XML_TEXT_NODE)) have += dom::text(e) + " "; else look(e->children); } }; look(d.root()->children);
        bool exact = !stops; for (auto& i : v) if (i.how == LAST_MOMENT || i.how == CUT && (i.kind == TGZ || i.kind == PADDED || i.kind == GZ_MORE || i.kind == UNIT_MORE) || i.kind == DAMAGED) exact = false; if (exact) MC_CHECK(have == want, "the result is not that of the downloads that arrived", "wanted " + mc::show(want) + "\n" + said(r)); break; }
    case SOURCE_OUT: { str want = CONTENTS[v[0].kind][0].text; if (v[0].ok()) { if (srcml_kind(v[0].kind)) MC_CHECK(r.out == want || r.out == want + "\n" , "source of a download", said(r)); } break; }
    case SOURCE_DIR: { Files got = tree(dir + "/out"); size_t n = 0; for (auto& i : v) for (auto& f : CONTENTS[i.kind]) if (i.ok()) { bool found = false; for (auto& g : got) if (ends(g.name, f.name)) { found = true; MC_CHECK(g.text == f.text, "source of a download", g.name + "\n" + said(r)); } if (!stops) MC_CHECK(found, "a source file is missing", f.name + "\n" + said(r)); } break; }
    }
    mc::state(r.line + std::to_string(form)); mc::validated();
}
void mc_setup() {
    bool th = mc::thorough();
    mc::add("one download", "12 files (source, empty, several transfers long, compressed, an archive, one followed by padding, a damaged one, srcML, compressed srcML, an archive of srcML, compressed ones with more data after the end) x 10 courses of a download (at once, in small pieces, late, with pauses; unreachable, missing, missing after a while, cut off, failing at the last moment, without success) x by name, in a list, in a list that is downloaded x 7 uses", 2, 60, [=] {
        int k = mc::choose(KINDS), h = mc::choose(HOWS); if (k == EMPTY && h == NOT_200) mc::prune(); int form = mc::choose(FORMS), u = mc::choose(USES); str dir = fresh(); serve(dir); use(dir, {{k, h}}, form, u); });
    mc::add("several downloads", "every sequence of up to 3 of 7 files (5 of them downloaded, with 5 courses, 2 not) by name, in a list, in a list that is downloaded x 6 uses", 3, 60, [=] {
        static const std::vector<int> HS = {WHOLE, LATE, UNREACHABLE, CUT, SLOW_MISSING, PARTS, LAST_MOMENT}; static const std::vector<int> KS = {SOURCE, GZ, TGZ, UNIT, ARCHIVE};
        int n = 2 + mc::choose(2); Ins v; int spare = n == 2 ? 2 : th ? 2 : 1; for (int i = 0; i < n; ++i) { int k = mc::choose(7); if (k == 5) v.push_back({SOURCE, -1}); else if (k == 6) v.push_back({GZ, -1}); else if (i && spare <= 0 && n == 3) { v.push_back({KS[(size_t) k], WHOLE}); } else { int h = mc::choose(th ? 7 : 5); if (h) --spare; v.push_back({KS[(size_t) k], HS[(size_t) h]}); } }
        int form = mc::choose(FORMS), u = mc::choose(USES); if (n == 3 && (u != TO_STDOUT && u != SOURCE_DIR || form == REMOTE_LIST)) mc::prune(); str dir = fresh(); serve(dir); use(dir, v, form, u); });
    mc::add("lists that cannot be downloaded", "8 courses of the download of a list of 2 files", 1, 60, [=] {
        int h = mc::choose(HOWS); str dir = fresh(); serve(dir); Ins v = {{SOURCE, -1}, {SOURCE, WHOLE}}; VS a = given(dir, v, REMOTE_LIST, h); Run r = run(dir, a); sound(r); if (arrives(h)) { good(r); check_units(r, r.out, v, true); } else { MC_CHECK(r.rc != 0 && r.err.find("list.txt") != str::npos, "a list that could not be downloaded is not reported", said(r)); } mc::validated(); });
    struct C { Ins v; int form, use; };
    static const std::vector<C> CS = {{{{SOURCE, WHOLE}, {SOURCE, PARTS}}, DIRECT, TO_STDOUT}, {{{GZ, WHOLE}, {TGZ, CUT}, {SOURCE, -1}}, DIRECT, TO_FILE}, {{{UNIT_GZ, PARTS}}, DIRECT, XPATH}, {{{SOURCE, UNREACHABLE}, {SOURCE, WHOLE}, {GZ, -1}}, LIST, TO_GZ}, {{{ARCHIVE, WHOLE}}, DIRECT, SOURCE_DIR}, {{{UNIT_GZ, CUT}}, DIRECT, SOURCE_DIR}, {{{SOURCE, CUT}, {SOURCE, WHOLE}}, REMOTE_LIST, TO_STDOUT}};
    mc::add("a thread held up", "7 uses with downloads: the thread that makes the k-th system call on files is held up before or after it, for every k", 1, 60, [=] {
        auto& c = mc::pick(CS); int after = mc::choose(2), k = mc::choose(th ? 400 : 150); str dir = fresh(); serve(dir); Delay& d = *delay(); d.after = after; d.calls = 0; d.at = k; d.on = true; try { use(dir, c.v, c.form, c.use); } catch (...) { d.on = false; throw; } d.on = false; if (d.calls <= k) mc::prune(); });
}
MC_MAIN
