// P31: the tool from its command line to the files it writes.
#define main srcml_main
#include <srcml.cpp>
#undef main
#include "tool.hpp"
#include "sml.hpp"
#include "dom.hpp"
#include <openssl/sha.h>
#include <curl/curl.h>
// no network: a download fails at once
static const char* const PROTOCOLS[] = {"file", "http", "https", "ftp", nullptr};
static curl_version_info_data CURL_INFO = {"0", PROTOCOLS};
curl_version_info_data* curl_version_info(int) { return &CURL_INFO; }
CURLcode curl_global_init(long) { return 0; }
void curl_global_cleanup() {}
CURL* curl_easy_init() { return nullptr; }
CURLcode curl_easy_setopt(CURL*, CURLoption, ...) { return 0; }
CURLcode curl_easy_getinfo(CURL*, CURLINFO, ...) { return 0; }
CURLcode curl_easy_perform(CURL*) { return 1; }
void curl_easy_cleanup(CURL*) {}

using namespace tool;
// system calls of the tool and its libraries
extern "C" {
int open(const char* p, int fl, ...) { va_list a; va_start(a, fl); int m = fl & (O_CREAT | O_TMPFILE) ? va_arg(a, int) : 0; va_end(a); Held h; return (int) syscall(SYS_openat, AT_FDCWD, p, fl, m); }
int open64(const char* p, int fl, ...) { va_list a; va_start(a, fl); int m = fl & (O_CREAT | O_TMPFILE) ? va_arg(a, int) : 0; va_end(a); Held h; return (int) syscall(SYS_openat, AT_FDCWD, p, fl, m); }
int openat(int d, const char* p, int fl, ...) { va_list a; va_start(a, fl); int m = fl & (O_CREAT | O_TMPFILE) ? va_arg(a, int) : 0; va_end(a); Held h; return (int) syscall(SYS_openat, d, p, fl, m); }
int openat64(int d, const char* p, int fl, ...) { va_list a; va_start(a, fl); int m = fl & (O_CREAT | O_TMPFILE) ? va_arg(a, int) : 0; va_end(a); Held h; return (int) syscall(SYS_openat, d, p, fl, m); }
int close(int fd) { Held h; return (int) syscall(SYS_close, fd); }
ssize_t read(int fd, void* b, size_t n) { Held h; return syscall(SYS_read, fd, b, n); }
ssize_t write(int fd, const void* b, size_t n) { Held h; return syscall(SYS_write, fd, b, n); }
int fchdir(int fd) { Held h; return (int) syscall(SYS_fchdir, fd); }
int chdir(const char* p) { Held h; return (int) syscall(SYS_chdir, p); }
}
typedef std::vector<File> Files;
static str lang(const str& name) { static const std::map<str, str> L = {{".cpp", "C++"}, {".c", "C"}, {".h", "C"}, {".java", "Java"}, {".cs", "C#"}, {".hpp", "C++"}}; size_t d = name.rfind('.'); if (d == str::npos) return ""; auto i = L.find(name.substr(d)); return i == L.end() ? "" : i->second; }
static str big(size_t n) { str s; while (s.size() < n) s += "int a" + std::to_string(s.size()) + ";\n"; return s; }
static str sha(const str& t) { unsigned char d[20]; SHA1((const unsigned char*) t.data(), t.size(), d); str s; char b[3]; for (auto c : d) { snprintf(b, 3, "%02x", c); s += b; } return s; }
// choose one of n unless the variations are used up
static int vary(int n, int& budget) { if (budget <= 0) return 0; int k = mc::choose(n); if (k) --budget; return k; }
static bool ends(const str& s, const str& e) { return s.size() >= e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0; }

// ---- what the tool is given
static const VS TEXTS = {"int a;\n", "", "int a;", "if (a < b && c > \"d\") { }\n", "// \xc3\xa9\n", "a;\n\n\n", "\t\f x = '\\n';\n", "#if A\nint b;\n#endif\n", "\xef\xbb\xbf" "int c;\n", "}}} class {{ ;\n", " ", "\n", big(70000)};
struct Given { VS args; bool has_in = false; str in; Files want; bool archive = false; int form = 0; };
enum Form { FILES, DIRECTORY, TAR, TGZ, ZIP, CPIO, EACH_GZ, LIST, EACH_BZ2, MIXED, WITH_SRCML, TEXT, STDIN, TEXT_NAMED, STDIN_NAMED, FORMS };
static const VS FORM_NAMES = {"files", "a directory", "tar", "tar.gz", "zip", "cpio", ".gz files", "a list of files", ".bz2 files", "a file and a tar archive", "srcML and files", "--text", "standard input", "--text with a name", "standard input with a name"};
static Given give(const str& dir, const Files& fs, int form) {
    Given g; g.want = fs; g.form = form; g.archive = fs.size() > 1;
    auto archive = [&](const Files& v, const str& path, int (*format)(::archive*), int (*filter)(::archive*)) { pack(dir + "/" + path, v, format, filter); g.args.push_back(path); g.archive = true; };
    switch (form) {
    case FILES: for (auto& f : fs) { put(dir + "/" + f.name, f.text); g.args.push_back(f.name); } break;
    case DIRECTORY: for (auto& f : fs) put(dir + "/p/" + f.name, f.text); g.args = {"p"}; for (auto& f : g.want) f.name = "p/" + f.name; std::sort(g.want.begin(), g.want.end(), [](auto& a, auto& b) { return a.name < b.name; }); g.archive = true; break;
    case TAR: archive(fs, "in.tar", archive_write_set_format_ustar, nullptr); break;
    case TGZ: archive(fs, "in.tar.gz", archive_write_set_format_ustar, archive_write_add_filter_gzip); break;
    case ZIP: archive(fs, "in.zip", archive_write_set_format_zip, nullptr); break;
    case CPIO: archive(fs, "in.cpio", archive_write_set_format_cpio_newc, nullptr); break;
    case EACH_GZ: for (auto& f : fs) { squeeze(dir + "/" + f.name + ".gz", f.text, archive_write_add_filter_gzip); g.args.push_back(f.name + ".gz"); } break;
    case EACH_BZ2: for (auto& f : fs) { if (f.text.empty()) mc::prune(); squeeze(dir + "/" + f.name + ".bz2", f.text, archive_write_add_filter_bzip2); g.args.push_back(f.name + ".bz2"); } break;
    case LIST: { str l; for (auto& f : fs) { put(dir + "/" + f.name, f.text); l += f.name + "\n"; } put(dir + "/list.txt", l); g.args = {"--files-from", "list.txt"}; g.archive = true; break; }
    case MIXED: { if (fs.size() < 2) mc::prune(); put(dir + "/" + fs[0].name, fs[0].text); g.args.push_back(fs[0].name); archive(Files(fs.begin() + 1, fs.end()), "in.tar", archive_write_set_format_ustar, nullptr); break; }
    case WITH_SRCML: { if (fs.size() < 2) mc::prune(); put(dir + "/" + fs[0].name, fs[0].text); good(run(dir, {fs[0].name, "-o", "first.xml"})); g.args.push_back("first.xml"); for (size_t i = 1; i < fs.size(); ++i) { put(dir + "/" + fs[i].name, fs[i].text); g.args.push_back(fs[i].name); } break; }
    case TEXT: case TEXT_NAMED: if (fs.size() != 1 || fs[0].text.find('\\') != str::npos || fs[0].text.empty()) mc::prune(); g.args = {"--text=" + fs[0].text, "-l", lang(fs[0].name)}; break;
    case STDIN: case STDIN_NAMED: if (fs.size() != 1) mc::prune(); g.args = {"-l", lang(fs[0].name)}; g.has_in = true; g.in = fs[0].text; break;
    }
    if (form == TEXT || form == STDIN) g.want[0].name = "";
    if (form == TEXT_NAMED || form == STDIN_NAMED) { g.args.push_back("-f"); g.args.push_back(fs[0].name); }
    return g;
}
struct Option { VS args; bool plain = true; };
static const std::vector<Option> OPTIONS = {{{}}, {{"-r"}}, {{"--hash"}}, {{"--position"}}, {{"--cpp"}}, {{"--no-xml-declaration"}}, {{"--position", "--tabs", "4"}}, {{"--url", "u&r<l"}}, {{"-s", "v 1"}}, {{"--timestamp"}}, {{"--xmlns:p=http://p"}}, {{"--xml-encoding", "ISO-8859-1"}}, {{"--src-encoding", "UTF-8"}}, {{"-q"}}, {{"-j", "1"}}, {{"--url", "http://u/x"}}, {{"--cpp-markup-if0"}}, {{"--verbose"}}, {{"--xmlns:p=http://www.srcML.org/srcML/src"}}, {{"--xmlns:p=http://www.srcML.org/srcML/cpp"}}, {{"--xmlns:cpp=http://other"}}, {{"--xmlns:pos=http://other", "--position"}}};
static const VS XML = {"x.xml", "", "x.xml.gz", "x.xml.bz2", "d.d/x.xml"};      // "": standard output
static bool is_utf8_option(size_t o) { return OPTIONS[o].args.size() == 2 && OPTIONS[o].args[0] == "--src-encoding"; }
static bool named_archive(int form, size_t o) { return (form == TEXT_NAMED || form == STDIN_NAMED) && OPTIONS[o].args == VS{"-r"}; }     // refused
// source to srcML; returns the markup
static str mark_up(const str& dir, const Given& g, size_t opt, const str& dest, str& why) {
    VS a = g.args; a.insert(a.end(), OPTIONS[opt].args.begin(), OPTIONS[opt].args.end()); if (dest.empty()) a.push_back("-X"); else { a.push_back("-o"); a.push_back(dest); if (dest.find('/') != str::npos) dirs(dir + "/" + dest); }
    Run r = run(dir, a, g.has_in ? &g.in : nullptr); good(r); why += r.line + "\n"; bool said = OPTIONS[opt].args == VS{"--verbose"};
    MC_CHECK(said || r.err.empty(), "the tool complains", r.line + "\nprinted " + mc::show(r.err)); if (!dest.empty()) MC_CHECK(r.out.empty(), "the tool writes to standard output and to a file", r.line + "\n" + mc::show(r.out));
    str x = dest.empty() ? r.out : expand(dir + "/" + dest); return x;
}
static void check_markup(const str& x, const Given& g, size_t opt, const str& why) {
    dom::Doc d(x); MC_CHECK(d.ok(), "the srcML is not well formed", why + d.err + "\n" + mc::show(x));
    sml::Archive a(srcml_archive_create()); MC_CHECK(srcml_archive_read_open_memory(a.get(), x.data(), x.size()) == SRCML_STATUS_OK, "the srcML cannot be read", why + mc::show(x));
    const VS& o = OPTIONS[opt].args; bool r = o == VS{"-r"}; if (!g.want.empty()) MC_CHECK(!srcml_archive_is_solitary_unit(a.get()) == (g.archive || r), g.archive || r ? "several files do not make an archive" : "one file makes an archive", why + mc::show(x));
    bool utf8 = is_utf8_option(opt), stamped = g.form == TAR || g.form == TGZ || g.form == ZIP || g.form == CPIO; bool arch = g.archive || r;
    for (size_t i = 0; i < g.want.size(); ++i) {
        sml::Unit u(srcml_archive_read_unit(a.get())); MC_CHECK(u, "a file is left out of the srcML", why + g.want[i].name + " of " + mc::show(x)); auto& w = g.want[i];
        const char* n = srcml_unit_get_filename(u.get()); MC_CHECK(n ? w.name == n : w.name.empty(), "name of a unit", why + "got " + sml::s(n) + ", not " + w.name);
        str l = w.name.empty() ? "" : lang(w.name); if (!l.empty()) MC_CHECK(sml::s(srcml_unit_get_language(u.get())) == l, "language of a unit", why + w.name + " " + sml::s(srcml_unit_get_language(u.get())));
        if (utf8) srcml_archive_set_src_encoding(a.get(), "UTF-8"); char* b = nullptr; size_t nb = 0; srcml_unit_unparse_memory(u.get(), &b, &nb); str t(b ? b : "", nb); srcml_memory_free(b); str wt = w.text; if (wt.compare(0, 3, "\xef\xbb\xbf") == 0) wt.erase(0, 3);
        MC_CHECK(t == wt, "text of a unit", why + w.name + "\n" + mc::diff(t, wt));
        const char* h = srcml_unit_get_hash(u.get()); if (h) MC_CHECK(sha(w.text) == h, "hash of a unit", why + w.name + " " + h); else MC_CHECK(!(arch || o == VS{"--hash"}) || (g.form == WITH_SRCML && i == 0), "a unit without its hash", why + w.name + "\n" + mc::show(x));
        const char* ts = srcml_unit_get_timestamp(u.get()); if (o == VS{"--timestamp"}) { if (stamped) MC_CHECK(ts && str(ts).find("2017") != str::npos, "a unit without its timestamp", why + mc::show(x)); } else MC_CHECK(!ts, "a timestamp that was not asked for", why + ts);
        const char* v = srcml_unit_get_version(u.get()); const char* av = srcml_archive_get_version(a.get()); bool wv = o.size() == 2 && o[0] == "-s"; MC_CHECK(wv == ((v && str(v) == o[1]) || (av && str(av) == o[1])), "version of a unit", why + mc::show(x));
    }
    if (g.want.size()) { sml::Unit u(srcml_archive_read_unit(a.get())); MC_CHECK(!u, "more units than files", why + mc::show(x)); }
    if (o.size() == 2 && o[0] == "--url") MC_CHECK(sml::s(srcml_archive_get_url(a.get())) == o[1], "url of the srcML", why + sml::s(srcml_archive_get_url(a.get())));
    MC_CHECK((x.compare(0, 5, "<?xml") == 0) == (o != VS{"--no-xml-declaration"}), "the XML declaration", why + mc::show(x, 100));
    if (o == VS{"--xmlns:p=http://p"}) MC_CHECK(x.find(" xmlns:p=\"http://p\"") != str::npos, "a namespace that was asked for is not declared", why + mc::show(x));
}
// srcML to source
static const VS FROM = {"the file", "standard input", "a .gz file"};
enum To { STDOUT, STDOUT_S, FILE_OUT, FILE_GZ, OUT_TAR, OUT_TGZ, OUT_ZIP, OUT_CPIO, TO_DIR, OUT_SLASH, DOT_SLASH, NESTED_DIR, TO_DOT, UNIT, UNIT_FILE, UNIT_DIR, UNIT_TAR, EOL, TAR_STDOUT, TOS };
static str resolved(str n) { str o; size_t i = 0; while (i <= n.size()) { size_t j = std::min(n.find('/', i), n.size()); str c = n.substr(i, j - i); i = j + 1; if (c.empty() || c == ".") continue; o += (o.empty() ? "" : "/") + c; } return o; }
static void check_source(const str& dir, const str& x, const Given& g, size_t opt, int from, int to, str why) {
    VS a; bool in = false; if (from == 0) { put(dir + "/s.xml", x); a = {"s.xml"}; } else if (from == 1) { in = true; a = {}; } else { squeeze(dir + "/s.xml.gz", x, archive_write_add_filter_gzip); a = {"s.xml.gz"}; }
    VS texts; for (auto& w : g.want) { str t = w.text; if (t.compare(0, 3, "\xef\xbb\xbf") == 0) t.erase(0, 3); texts.push_back(t); } size_t n = texts.size(); if (n == 0) return;
    if (is_utf8_option(opt)) { a.push_back("--src-encoding"); a.push_back("UTF-8"); }
    bool unnamed = g.form == TEXT || g.form == STDIN;    // in a source archive these get a name, and the tool says so
    if (g.want[0].name.empty() && (to >= OUT_TAR && to <= TO_DOT || to == UNIT_DIR || to == UNIT_TAR || to == EOL)) mc::prune();      // unnamed
    auto src = [&](VS more) { a.insert(a.end(), more.begin(), more.end()); Run r = run(dir, a, in ? &x : nullptr); if (unnamed) { sound(r); } else good(r); why += r.line; MC_CHECK(r.err.find("srcml:") == str::npos, "the tool complains", why + "\nprinted " + mc::show(r.err)); return r; };
    auto same = [&](const str& got, const str& want, const char* what) { MC_CHECK(got == want, what, why + "\n" + mc::diff(got, want)); };
    auto in_archive = [&](const str& path, const Files& want) { Files got; bool ok = unpack(dir + "/" + path, got, false); str seen; for (auto& f : got) seen += " '" + f.name + "'"; MC_CHECK(ok || want.empty(), "the source archive is damaged", why + seen + " of " + mc::show(load(dir + "/" + path), 60)); MC_CHECK(got.size() == want.size(), "number of files in a source archive", why + "\ngot" + seen);
        for (size_t i = 0; i < got.size(); ++i) { if (!want[i].name.empty()) same(got[i].name, want[i].name, "name in a source archive"); same(got[i].text, want[i].text, "text in a source archive"); } };
    auto in_tree = [&](const str& d, Files want) { for (auto& w : want) { if (w.name.empty()) mc::prune(); w.name = resolved(w.name); } std::sort(want.begin(), want.end(), [](auto& p, auto& q) { return p.name < q.name; }); Files got = tree(dir + "/" + d); if (d == ".") got.erase(std::remove_if(got.begin(), got.end(), [&](auto& f) { return f.name == "s.xml" || f.name == "s.xml.gz"; }), got.end()); str seen; for (auto& f : got) seen += " '" + f.name + "'"; MC_CHECK(got.size() == want.size(), "number of files extracted", why + "\ngot" + seen);
        for (size_t i = 0; i < got.size(); ++i) { same(got[i].name, want[i].name, "name of an extracted file"); same(got[i].text, want[i].text, "text of an extracted file"); } };
    Files all = g.want; for (size_t i = 0; i < n; ++i) all[i].text = texts[i];
    str joined; for (size_t i = 0; i < n; ++i) joined += (i ? str(1, '\0') : str()) + texts[i];
    switch (to) {
    case STDOUT: same(src({}).out, joined, "the source on standard output"); break;
    case STDOUT_S: same(src({"-S"}).out, joined, "the source on standard output"); break;
    case FILE_OUT: if (n > 1) mc::prune(); same(src({"-o", "o.cpp"}).out, "", "output besides the file"); same(load(dir + "/o.cpp"), texts[0], "the source in a file"); break;
    case FILE_GZ: if (n > 1) mc::prune(); same(src({"-o", "o.cpp.gz"}).out, "", "output besides the file"); same(expand(dir + "/o.cpp.gz"), texts[0], "the source in a compressed file"); break;
    case OUT_TAR: src({"-o", "o.tar"}); in_archive("o.tar", all); break;
    case OUT_TGZ: src({"-o", "o.tar.gz"}); in_archive("o.tar.gz", all); break;
    case OUT_ZIP: src({"-o", "o.zip"}); in_archive("o.zip", all); break;
    case OUT_CPIO: src({"-o", "o.cpio"}); in_archive("o.cpio", all); break;
    case TO_DIR: src({"--to-dir", "o"}); in_tree("o", all); break;
    case OUT_SLASH: src({"-o", "o/"}); in_tree("o", all); break;
    case DOT_SLASH: src({"-o", "./o/"}); in_tree("o", all); break;
    case NESTED_DIR: src({"--to-dir", "o.d/p/q"}); in_tree("o.d/p/q", all); break;
    case TO_DOT: { str d2 = dir + "/here"; mkdir(d2.c_str(), 0755); if (from == 1) { a.push_back("--to-dir=."); Run r = run(d2, a, &x); if (unnamed) { sound(r); } else good(r); why += r.line; } else { a[0] = "../" + a[0]; a.push_back("--to-dir=."); Run r = run(d2, a); if (unnamed) { sound(r); } else good(r); why += r.line; } in_tree("here", all); break; }
    case UNIT: { int k = mc::choose((int) n); same(src({"-U", std::to_string(k + 1), "-S"}).out, texts[(size_t) k], "the source of one unit"); break; }
    case UNIT_FILE: { int k = mc::choose((int) n); src({"-U", std::to_string(k + 1), "-o", "o.cpp"}); same(load(dir + "/o.cpp"), texts[(size_t) k], "the source of one unit"); break; }
    case UNIT_DIR: { int k = mc::choose((int) n); src({"-U", std::to_string(k + 1), "--to-dir", "o"}); in_tree("o", {all[(size_t) k]}); break; }
    case UNIT_TAR: { int k = mc::choose((int) n); src({"-U", std::to_string(k + 1), "-o", "o.tar"}); in_archive("o.tar", {all[(size_t) k]}); break; }
    case EOL: { int k = mc::choose(4); for (auto& f : all) { str t; for (char c : f.text) t += c == '\n' ? "\r\n" : str(1, c); f.text = t; } joined = ""; for (size_t i = 0; i < n; ++i) joined += (i ? str(1, '\0') : str()) + all[i].text;
        if (k == 0) same(src({"-S", "--eol", "CRLF"}).out, joined, "line ends"); else if (k == 1) { if (n > 1) mc::prune(); src({"-o", "o.cpp", "--eol", "windows"}); same(load(dir + "/o.cpp"), all[0].text, "line ends"); } else if (k == 2) { src({"--to-dir", "o", "--eol", "CRLF"}); in_tree("o", all); } else { src({"-o", "o.tar", "--eol", "CRLF"}); in_archive("o.tar", all); } break; }
    case TAR_STDOUT: mc::prune();
    }
    mc::state(why); mc::validated();
}
// source straight to source
static void straight(const str& dir, const Given& g, int to) {
    VS a = g.args; str why; Files all = g.want; for (auto& f : all) if (f.text.compare(0, 3, "\xef\xbb\xbf") == 0) f.text.erase(0, 3);
    str joined; for (size_t i = 0; i < all.size(); ++i) joined += (i ? str(1, '\0') : str()) + all[i].text;
    bool unnamed = g.form == TEXT || g.form == STDIN;    // in a source archive these get a name, and the tool says so
    auto src = [&](VS more) { a.insert(a.end(), more.begin(), more.end()); Run r = run(dir, a, g.has_in ? &g.in : nullptr); if (unnamed) { sound(r); } else good(r); why += r.line; MC_CHECK(r.err.find("srcml:") == str::npos, "the tool complains", why + "\nprinted " + mc::show(r.err)); return r; };
    auto same = [&](const str& got, const str& want, const char* what) { MC_CHECK(got == want, what, why + "\n" + mc::diff(got, want)); };
    switch (to) {
    case 0: same(src({"-S"}).out, joined, "the source on standard output"); break;
    case 1: if (all.size() != 1) mc::prune(); src({"-S", "-o", "o.txt"}); same(load(dir + "/o.txt"), all[0].text, "the source in a file"); break;
    case 2: { for (auto& f : all) { if (f.name.empty()) mc::prune(); f.name = resolved(f.name); } std::sort(all.begin(), all.end(), [](auto& p, auto& q) { return p.name < q.name; }); src({"-S", "--to-dir", "o"}); Files got = tree(dir + "/o"); MC_CHECK(got.size() == all.size(), "number of files extracted", why + " " + std::to_string(got.size())); for (size_t i = 0; i < got.size(); ++i) { same(got[i].name, all[i].name, "name of an extracted file"); same(got[i].text, all[i].text, "text of an extracted file"); } break; }
    case 3: { Files got; src({"-S", "-o", "o.tar.gz"}); MC_CHECK(unpack(dir + "/o.tar.gz", got, false) && got.size() == all.size(), "number of files in a source archive", why + " " + std::to_string(got.size())); for (size_t i = 0; i < got.size(); ++i) same(got[i].text, all[i].text, "text in a source archive"); break; }
    }
    mc::state(why); mc::validated();
}

// srcML of each file on its own, in a directory
static void per_unit(const str& dir, const Given& g, const VS& more, const str& out) {
    VS a = g.args; a.insert(a.end(), more.begin(), more.end()); Run r = run(dir, a, g.has_in ? &g.in : nullptr); good(r); str why = r.line; MC_CHECK(r.out.empty() && r.err.empty(), "the tool complains", why + " printed " + mc::show(r.out + r.err));
    std::map<str, str> want; for (auto& w : g.want) want[resolved(w.name) + ".xml"] = w.text; Files got = tree(dir + "/" + out); str seen; for (auto& f : got) seen += " '" + f.name + "'"; MC_CHECK(got.size() == want.size(), "number of srcML files in a directory", why + "\ngot" + seen);
    for (auto& f : got) { MC_CHECK(want.count(f.name), "name of a srcML file in a directory", why + "\ngot" + seen); dom::Doc d(f.text); MC_CHECK(d.ok(), "the srcML is not well formed", why + "\n" + f.name + " " + d.err + mc::show(f.text)); sml::Archive ar(srcml_archive_create()); srcml_archive_read_open_memory(ar.get(), f.text.data(), f.text.size()); sml::Unit u(srcml_archive_read_unit(ar.get())); MC_CHECK(u && srcml_archive_is_solitary_unit(ar.get()), "a srcML file in a directory is not one unit", why + " " + f.name);
        MC_CHECK(f.name == resolved(sml::s(srcml_unit_get_filename(u.get()))) + ".xml", "name of a unit", why + " " + f.name + " has " + sml::s(srcml_unit_get_filename(u.get()))); char* b = nullptr; size_t nb = 0; srcml_unit_unparse_memory(u.get(), &b, &nb); str t(b ? b : "", nb); srcml_memory_free(b); MC_CHECK(t == want[f.name], "text of a unit", why + " " + f.name + "\n" + mc::diff(t, want[f.name])); }
    mc::state(why); mc::validated();
}
// ---- inputs that cannot be used
enum Kind { GOOD, BAD, STOP, FATAL };
struct Input { VS args; Kind kind; Files gives; str named; };
static std::vector<Input> INPUTS;
static str GZ, TARGZ, MARKUP;
static void make_inputs() {
    str d = root() + "/make"; mkdir(d.c_str(), 0755); squeeze(d + "/z", "<unit xmlns=\"http://www.srcML.org/srcML/src\" revision=\"1.0.0\" language=\"C\" filename=\"z.c\">z;</unit>", archive_write_add_filter_gzip); GZ = load(d + "/z"); pack(d + "/t", {{"t.c", "t;\n"}}, archive_write_set_format_ustar, archive_write_add_filter_gzip); TARGZ = load(d + "/t"); clean(d);
    MARKUP = "<unit xmlns=\"http://www.srcML.org/srcML/src\" revision=\"1.0.0\" language=\"C\" filename=\"s.c\">s;\n</unit>";
    INPUTS = {{{"a.cpp"}, GOOD, {{"a.cpp", "int a;\n"}}}, {{"C.java"}, GOOD, {{"C.java", "class C {}"}}}, {{"s.xml"}, GOOD, {{"s.c", "s;\n"}}}, {{"d"}, GOOD, {{"d/d.c", "d;\n"}}}, {{"z.xml.gz"}, GOOD, {{"z.c", "z;"}}}, {{"t.tar.gz"}, GOOD, {{"t.c", "t;\n"}}},
        {{"none.cpp"}, BAD, {}, "none.cpp"}, {{"nodir/"}, BAD, {}, "nodir"}, {{"none.tar.gz"}, BAD, {}, "none.tar.gz"}, {{"x.unk"}, BAD, {}, "x.unk"}, {{"cut.tar.gz"}, BAD, {}, "cut.tar.gz"}, {{"--files-from", "list"}, BAD, {{"l.c", "l;\n"}}, "missing.c"}, {{"none.cpp.gz"}, BAD, {}, "none.cpp.gz"},
        {{"none.xml"}, STOP, {}, "none.xml"}, {{"http://h/u.cpp"}, STOP, {}, "http://h/u.cpp"}, {{"http://h/u.tar.gz"}, STOP, {}, "http://h/u.tar.gz"}, {{"http://h/u.xml"}, STOP, {}, "http://h/u.xml"}, {{"--files-from", "nolist"}, STOP, {}, "nolist"},
        {{"bad.xml"}, FATAL, {}, ""}, {{"empty.xml"}, FATAL, {}, ""}, {{"cut.xml.gz"}, FATAL, {}, ""}, {{"none.xml.gz"}, FATAL, {}, ""}};
}
static void failing(const std::vector<const Input*>& in, int dest) {
    str dir = fresh(); put(dir + "/a.cpp", "int a;\n"); put(dir + "/C.java", "class C {}"); put(dir + "/d/d.c", "d;\n"); put(dir + "/s.xml", MARKUP); put(dir + "/z.xml.gz", GZ); put(dir + "/t.tar.gz", TARGZ); put(dir + "/x.unk", "x"); put(dir + "/cut.tar.gz", TARGZ.substr(0, TARGZ.size() / 2)); put(dir + "/list", "missing.c\nl.c\n"); put(dir + "/l.c", "l;\n"); put(dir + "/bad.xml", MARKUP.substr(0, MARKUP.size() - 9)); put(dir + "/empty.xml", ""); put(dir + "/cut.xml.gz", GZ.substr(0, GZ.size() / 2));
    VS a; for (auto i : in) a.insert(a.end(), i->args.begin(), i->args.end()); if (dest == 0) a.push_back("-X"); else if (dest == 1) a.insert(a.end(), {"-o", "x.xml"}); else if (dest == 2) a.insert(a.end(), {"-o", "x.xml.gz"}); else if (dest == 3) a.insert(a.end(), {"-X", "--to-dir", "o"}); else a.insert(a.end(), {"-S", "--to-dir", "o"});
    Run r = run(dir, a); sound(r); str why = r.line + "\nstatus " + std::to_string(r.rc) + ", printed " + mc::show(r.err) + "\n"; bool bad = false, fatal = false, stop = false; Files must, may; for (auto i : in) fatal |= i->kind == FATAL;
    for (auto i : in) { if (i->kind != GOOD) { bad = true; if (!stop && !fatal && !i->named.empty()) MC_CHECK(r.err.find(i->named) != str::npos, "what is wrong with an input is not said", why); } if (i->kind == STOP) stop = true; for (auto& f : i->gives) (stop ? may : must).push_back(f); }
    if (!(fatal && dest == 4)) MC_CHECK((r.rc != 0) == bad, bad ? "an input that cannot be used is not a failure" : "the tool reports a failure", why); MC_CHECK(bad == !r.err.empty(), bad ? "nothing is said of an input that cannot be used" : "the tool complains", why);
    if (fatal) { mc::state(why); mc::validated(); return; }
    Files got; str x;
    if (dest == 4) { for (auto& f : tree(dir + "/o")) got.push_back(f); }
    else if (dest == 3) { for (auto& f : tree(dir + "/o")) { sml::Archive ar(srcml_archive_create()); srcml_archive_read_open_memory(ar.get(), f.text.data(), f.text.size()); sml::Unit u(srcml_archive_read_unit(ar.get())); MC_CHECK(u, "the srcML cannot be read", why + f.name); char* b = nullptr; size_t nb = 0; srcml_unit_unparse_memory(u.get(), &b, &nb); got.push_back({f.name.substr(0, f.name.size() - 4), str(b ? b : "", nb)}); srcml_memory_free(b); } }
    else {
        x = dest == 0 ? r.out : expand(dir + "/" + a.back()); if (x.empty() && must.empty()) { mc::state(why); mc::validated(); return; }     // nothing to deliver
        dom::Doc d(x); MC_CHECK(d.ok(), "the srcML is not well formed", why + mc::show(x)); sml::Archive ar(srcml_archive_create()); srcml_archive_read_open_memory(ar.get(), x.data(), x.size());
        while (sml::Unit u{srcml_archive_read_unit(ar.get())}) { char* b = nullptr; size_t nb = 0; srcml_unit_unparse_memory(u.get(), &b, &nb); if (nb || srcml_unit_get_filename(u.get())) got.push_back({sml::s(srcml_unit_get_filename(u.get())), str(b ? b : "", nb)}); srcml_memory_free(b); }
    }
    if (dest >= 3) { auto by = [](const File& p, const File& q) { return p.name < q.name; }; std::sort(must.begin(), must.end(), by); std::sort(got.begin(), got.end(), by); must.erase(std::unique(must.begin(), must.end(), [](auto& p, auto& q) { return p.name == q.name; }), must.end()); }
    str seen; for (auto& f : got) seen += " '" + f.name + "'"; why += "got" + seen; size_t m = 0; for (auto& f : got) if (m < must.size() && f.name == must[m].name) { MC_CHECK(f.text == must[m].text, "text of a unit", why + " " + mc::diff(f.text, must[m].text)); ++m; } else { bool ok = false; for (auto& y : may) ok |= y.name == f.name && y.text == f.text; MC_CHECK(ok, "something that was not given", why); }
    MC_CHECK(m == must.size(), "an input is lost because of another", why); if (!stop) MC_CHECK(got.size() == must.size(), "more units than files", why);
    mc::state(why); mc::validated();
}
// ---- what is done with the srcML: the same for source files, srcML files, compressed ones and standard input, and to a file as to standard output
static const std::vector<VS> OPS = {{"-X"}, {"--output-srcml-outer"}, {"--output-srcml-inner"}, {"--cat"}, {"-S"}, {"--xpath=//src:name"}, {"--xpath=count(//src:name)"}, {"--xpath=string(//src:name)"}, {"--xpath=//src:name[.='a']"}, {"--xpath=boolean(//src:class)"}, {"--xpath=//src:name", "--attribute", "x:y=v", "--xmlns:x=http://x"}, {"--xpath=//src:name", "--element", "x:y", "--xmlns:x=http://x"}, {"--xslt=id.xsl"}, {"--xslt=p.xsl", "--xslt-param=p=v"}, {"--relaxng=c.rng"}, {"--xpath=//src:name", "-S"}, {"--xpath=//src:expr_stmt", "--xpath=//src:name"}, {"-X", "-r"}, {"-X", "--no-xml-declaration"}, {"-L"}, {"-i"}, {"-I"}, {"--show-language"}, {"--show-filename"}, {"--show-unit-count"}, {"--show-hash"}, {"--show-encoding"}, {"--pretty=%f %l\n"}, {"--xslt=ns.xsl"}, {"--xslt=root.xsl"}};
static bool shows(size_t op) { return op >= 19 && op < 28; }
static const str IDENTITY = "<xsl:stylesheet version=\"1.0\" xmlns:xsl=\"http://www.w3.org/1999/XSL/Transform\"><xsl:template match=\"@*|node()\"><xsl:copy><xsl:apply-templates select=\"@*|node()\"/></xsl:copy></xsl:template></xsl:stylesheet>";
static const str PARAM = "<xsl:stylesheet version=\"1.0\" xmlns:xsl=\"http://www.w3.org/1999/XSL/Transform\"><xsl:param name=\"p\" select=\"'none'\"/><xsl:output method=\"text\"/><xsl:template match=\"/\">[<xsl:value-of select=\"$p\"/>]</xsl:template></xsl:stylesheet>";
static const str SCHEMA = "<element name=\"unit\" ns=\"http://www.srcML.org/srcML/src\" xmlns=\"http://relaxng.org/ns/structure/1.0\"><zeroOrMore><attribute><anyName/></attribute></zeroOrMore><ref name=\"any\"/></element>";
static void helpers(const str& dir) { put(dir + "/id.xsl", IDENTITY); put(dir + "/p.xsl", PARAM); str id = IDENTITY.substr(0, IDENTITY.size() - 17);
    put(dir + "/ns.xsl", id + "<xsl:template match=\"s:name\" xmlns:s=\"http://www.srcML.org/srcML/src\"><q:n xmlns:q=\"http://q\" q:a='1'><xsl:copy-of select='.'/></q:n></xsl:template></xsl:stylesheet>"); put(dir + "/root.xsl", id + "<xsl:template match=\"/s:unit\" xmlns:s=\"http://www.srcML.org/srcML/src\"><xsl:copy><xsl:copy-of select='@*'/><xsl:attribute name='q:b' namespace='http://q'>1</xsl:attribute><xsl:apply-templates/></xsl:copy></xsl:template></xsl:stylesheet>"); put(dir + "/c.rng", "<grammar xmlns=\"http://relaxng.org/ns/structure/1.0\"><start><element><nsName ns=\"http://www.srcML.org/srcML/src\"/><zeroOrMore><attribute><anyName/></attribute></zeroOrMore><zeroOrMore><choice><text/><ref name=\"any\"/></choice></zeroOrMore></element></start><define name=\"any\"><element><anyName><except><name ns=\"http://www.srcML.org/srcML/src\">class</name></except></anyName><zeroOrMore><choice><attribute><anyName/></attribute><text/><ref name=\"any\"/></choice></zeroOrMore></element></define></grammar>"); }
static void same_everywhere(const Files& fs, size_t op, int from, int to, int unit) {
    str dir = fresh(), why; helpers(dir); Given g = give(dir, fs, FILES); Run m = run(dir, [&] { VS a = g.args; a.insert(a.end(), {"-o", "x.xml"}); return a; }()); good(m);
    VS tail = OPS[op]; if (unit) { tail.push_back("-U"); tail.push_back(std::to_string(unit)); }
    auto with = [&](VS a) { a.insert(a.end(), tail.begin(), tail.end()); return a; };
    Run base = run(dir, with({"x.xml"})); good(base); MC_CHECK(op == 14 || base.err.empty(), "the tool complains", base.line + "\nprinted " + mc::show(base.err));
    static const std::set<size_t> WHOLE = {0, 3, 5, 8, 10, 11, 12, 16, 17, 18, 28, 29}; if (WHOLE.count(op)) { dom::Doc d(base.out); MC_CHECK(d.ok(), "the srcML is not well formed", base.line + "\n" + d.err + mc::show(base.out)); }
    VS a; str in; bool has = false;
    switch (from) { case 0: a = {"x.xml"}; break; case 1: a = g.args; break; case 2: squeeze(dir + "/y.xml.gz", load(dir + "/x.xml"), archive_write_add_filter_gzip); a = {"y.xml.gz"}; break; case 3: has = true; in = load(dir + "/x.xml"); break; }
    a = with(a); if (to) { a.push_back("-o"); a.push_back(to == 1 ? "out.xml" : "out.xml.gz"); }
    if (has && op == 4) {}
    Run r = run(dir, a, has ? &in : nullptr); good(r); MC_CHECK(op == 14 || r.err.empty(), "the tool complains", r.line + "\nprinted " + mc::show(r.err)); str got = to == 0 ? r.out : to == 1 ? load(dir + "/out.xml") : expand(dir + "/out.xml.gz"); if (to) MC_CHECK(r.out.empty(), "the tool writes to standard output and to a file", r.line + "\n" + mc::show(r.out));
    MC_CHECK(got == base.out, from == 1 ? "a result differs for source files" : from ? "a result differs for another form of the srcML" : "a result differs in a file", r.line + "\nagainst " + base.line + "\n" + mc::diff(got, base.out)); mc::state(r.line + std::to_string(fs.size())); mc::validated();
}
void mc_setup() {
    bool th = mc::thorough(); str set = mc::opt("set", "P31");
    (void) set;
    mc::add("one file", "13 texts x 15 ways to give it (by name, in a directory, an archive, compressed, listed, on the command line, on standard input) x 22 options x 5 destinations for the srcML, then back from 3 places to 18 destinations, with up to " + std::to_string(th ? 4 : 3) + " of these other than the first", 3, 60, [=] {
        int b = th ? 4 : 3; str text = TEXTS[(size_t) vary((int) TEXTS.size(), b)]; int form = vary(FORMS, b); if (form == MIXED || form == WITH_SRCML) mc::prune(); size_t opt = (size_t) vary((int) OPTIONS.size(), b); str xml = XML[(size_t) vary((int) XML.size(), b)]; int from = vary((int) FROM.size(), b), to = vary(TAR_STDOUT, b);
        if (is_utf8_option(opt) && text.find("\xef\xbb\xbf") == 0) mc::prune(); if (named_archive(form, opt)) mc::prune();
        str dir = fresh(), why; Given g = give(dir, {{"a.cpp", text}}, form); str x = mark_up(dir, g, opt, xml, why); check_markup(x, g, opt, why); dir = fresh(); check_source(dir, x, g, opt, from, to, why); });
    static const Files SET = {{"a.cpp", "int a;\n"}, {"d/b.c", ""}, {"C.java", "class C { }"}, {"n&m <e.h", "if (a < b && c) { }\n"}, {"d/b.cs", "// \xc3\xa9\n"}, {"big.cpp", big(70000)}};
    mc::add("several files", "every sequence of up to " + std::to_string(th ? 4 : 3) + " of 6 files (empty and large ones, in directories, with other characters in their names) in those ways, with 2 of the rest other than the first for two of the first three files and 1 for others", 3, 60, [=] {
        Files fs; int max = th ? 4 : 3; for (int i = 0; i < max; ++i) { int k = mc::choose((int) SET.size() + 1); if (!k) break; for (auto& f : fs) if (f.name == SET[(size_t) k - 1].name) mc::prune(); fs.push_back(SET[(size_t) k - 1]); }
        if (fs.size() < 2) mc::prune(); bool small = true; for (auto& f : fs) for (size_t i = 3; i < SET.size(); ++i) small &= f.name != SET[i].name; int b = fs.size() > 2 || !small ? 1 : 2; if (th) ++b; int form = vary(FORMS, b); size_t opt = (size_t) vary((int) OPTIONS.size(), b); str xml = XML[(size_t) vary((int) XML.size(), b)]; int from = vary((int) FROM.size(), b), to = vary(TAR_STDOUT, b);
        if (named_archive(form, opt) || (form == WITH_SRCML && is_utf8_option(opt))) mc::prune();
        str dir = fresh(), why; Given g = give(dir, fs, form); str x = mark_up(dir, g, opt, xml, why); check_markup(x, g, opt, why); dir = fresh(); check_source(dir, x, g, opt, from, to, why); });
    mc::add("source to source", "every sequence of up to 3 of those files, in those ways, to standard output, a file, a directory and a source archive at once", 3, 60, [=] {
        Files fs; for (int i = 0; i < 3; ++i) { int k = mc::choose((int) SET.size() + 1); if (!k) break; for (auto& f : fs) if (f.name == SET[(size_t) k - 1].name) mc::prune(); fs.push_back(SET[(size_t) k - 1]); }
        if (fs.empty()) mc::prune(); int form = mc::choose(FORMS), to = mc::choose(4); str dir = fresh(); Given g = give(dir, fs, form); straight(dir, g, to); });
    mc::add("one srcML file each", "every sequence of up to 3 of those files, in those ways, to a directory of srcML files, with 3 spellings", 3, 60, [=] {
        Files fs; for (int i = 0; i < 3; ++i) { int k = mc::choose((int) SET.size() + 1); if (!k) break; for (auto& f : fs) if (f.name == SET[(size_t) k - 1].name) mc::prune(); fs.push_back(SET[(size_t) k - 1]); }
        if (fs.empty()) mc::prune(); int form = mc::choose(FORMS); if (form == TEXT || form == STDIN) mc::prune(); int how = mc::choose(3); str dir = fresh(); Given g = give(dir, fs, form); static const std::vector<VS> HOW = {{"-X", "--to-dir", "o"}, {"-X", "-o", "o/"}, {"--to-dir=o.d/p", "-X"}}; per_unit(dir, g, HOW[(size_t) how], how == 2 ? "o.d/p" : "o"); });
    make_inputs(); int fmax = th ? 4 : 3;
    mc::add("failing inputs", "every sequence of up to " + std::to_string(fmax) + " of 22 inputs (source, srcML, compressed, archives, directories, lists; missing, damaged, cut short, of an unknown kind, not to be downloaded) x 5 destinations", 3, 60, [=] {
        std::vector<const Input*> in; int n = 1 + mc::choose(fmax); bool list = false, any = false; for (int i = 0; i < n; ++i) { auto& x = INPUTS[(size_t) mc::choose((int) INPUTS.size())]; if (x.args.size() > 1) { if (list) mc::prune(); list = true; } any |= x.kind == GOOD; in.push_back(&x); }
        if (n > 2 && !any) mc::prune(); int dest = mc::choose(n > 2 && !th ? 2 : 5); failing(in, n > 2 && !th && dest == 1 ? 3 : dest); });
    static const std::vector<Files> SETS = {{{"a.cpp", "int a;\n"}}, {{"a.cpp", "a = b + a;\n"}, {"C.java", "class C { int a; }\n"}}, {{"a.cpp", ""}, {"b.c", "#if 1\nint c(a < 1);\n#endif\n"}, {"a.cs", "/* a */ x;"}}};
    mc::add("results", "3 sets of source files x 30 results (srcML, parts of it, source, XPath, attributes and elements, XSLT, RelaxNG, what is known of the units) x all or one unit x source files, srcML file, compressed, standard input x standard output, file, compressed file", 3, 60, [=] {
        auto& fs = mc::pick(SETS); size_t op = (size_t) mc::choose((int) OPS.size()); int from = mc::choose(4), to = mc::choose(shows(op) || op == 4 || op == 15 ? 1 : 3), unit = mc::choose((int) fs.size() + 1); if (from == 1 && (unit || (op == 17 && fs.size() == 1))) mc::prune(); /* of srcML, and a unit by itself has no hash */ same_everywhere(fs, op, from, to, unit); });
    struct C { int form, n, xml, from, to; };
    static const std::vector<C> CS = {{FILES, 2, 2, 0, TO_DIR}, {DIRECTORY, 2, 2, 2, OUT_TGZ}, {DIRECTORY, 3, 0, 1, OUT_ZIP}, {DIRECTORY, 3, 1, 2, STDOUT}, {TGZ, 2, 3, 2, UNIT}, {MIXED, 3, 2, 0, OUT_TAR}, {EACH_GZ, 2, 0, 2, TO_DIR}, {LIST, 2, 2, 0, DOT_SLASH}, {STDIN_NAMED, 1, 2, 2, FILE_GZ}, {WITH_SRCML, 2, 2, 0, STDOUT}};
    mc::add("a thread held up", "10 uses of the tool with several threads: the thread that makes the k-th system call on files is held up before or after it, for every k", 1, 60, [=] {
        auto& c = mc::pick(CS); int which = mc::choose(4), k = mc::choose(th ? 600 : 160); Files fs(SET.begin(), SET.begin() + c.n); str why; Delay& d = *delay();
        auto held = [&](bool on, std::function<void()> f) { d.on = on; d.calls = 0; d.at = k; d.after = which & 1; try { f(); } catch (...) { d.on = false; throw; } d.on = false; if (on && d.calls <= k) mc::prune(); };
        if (which < 2) { str dir = fresh(); Given g = give(dir, fs, c.form); str x; held(true, [&] { x = mark_up(dir, g, 0, XML[(size_t) c.xml], why); }); check_markup(x, g, 0, why); mc::state(why + std::to_string(k)); mc::validated(); }
        else { static std::map<size_t, std::pair<str, Given>> made; size_t ci = (size_t) (&c - &CS[0]); if (!made.count(ci)) { str dir = fresh(); Given g = give(dir, fs, c.form); str x = mark_up(dir, g, 0, "", why); made[ci] = {x, g}; } str dir = fresh(); held(true, [&] { check_source(dir, made[ci].first, made[ci].second, 0, c.from, c.to, "held at " + std::to_string(k) + " "); }); } });
    // ---- no room, no descriptors
    struct L { const char* what; VS args; VS files; };
    static const std::vector<L> LS = {{"srcML file", {"s", "-o", "out.xml"}, {"out.xml"}}, {"srcML on standard output", {"s"}, {}}, {"compressed srcML", {"s", "-o", "out.xml.gz"}, {"out.xml.gz"}}, {"a srcML file each", {"s", "--to-dir", "out"}, {"out/s/b.cpp.xml"}}, {"names", {"s", "--xpath=//src:name", "-o", "out.xml"}, {"out.xml"}}, {"XSLT", {"a.xml", "--xslt=p.xsl", "-o", "out.txt"}, {"out.txt"}},
        {"source files", {"a.xml", "-S", "--to-dir", "out"}, {"out/s/b.cpp"}}, {"a source file", {"a.xml", "-S", "-U", "2", "-o", "out.cpp"}, {"out.cpp"}}, {"source on standard output", {"a.xml", "-S"}, {}}, {"a source archive", {"a.xml", "-S", "-o", "out.tar"}, {"out.tar"}}, {"a compressed source archive", {"a.xml", "-S", "-o", "out.tar.gz"}, {"out.tar.gz"}}, {"a compressed source file", {"u.xml", "-S", "-o", "out.cpp.gz"}, {"out.cpp.gz"}}, {"a zip file", {"a.xml", "-S", "-o", "out.zip"}, {"out.zip"}}, {"a copy", {"a.xml", "-X", "-o", "out.xml"}, {"out.xml"}}, {"a unit of a copy", {"a.xml", "-X", "-U", "2", "-o", "out.xml"}, {"out.xml"}}, {"--cat", {"a.xml", "--cat"}, {}}};
    auto prepare = [](const str& dir) { helpers(dir); put(dir + "/s/a.cpp", "int a;\n"); put(dir + "/s/b.cpp", big(600)); put(dir + "/s/c.c", "int c;\n"); good(run(dir, {"s", "-o", "a.xml"})); good(run(dir, {"s/b.cpp", "-o", "u.xml"})); };
    mc::add("no room", "16 uses of the tool where each file can have only n bytes, for every n less than the size of the output" + str(th ? "" : " (beyond the first 100, each fourth)"), 2, 60, [=] {
        auto& l = mc::pick(LS); int k = mc::choose(2); int n = k * 100 + mc::choose(100); (void) n; int step = th ? 1 : 4; long limit = k == 0 ? n : 100 + (n - 100) * step; if (k && th) { limit = 100 + (n - 100) + 100 * mc::choose(12); }
        static std::map<str, std::map<str, str>> whole; str dir = fresh(); prepare(dir); auto& w = whole[l.what]; if (w.empty()) { Run r = run(dir, l.args); good(r); for (auto& f : l.files) w[f] = load(dir + "/" + f); if (l.files.empty()) w["-"] = r.out; dir = fresh(); prepare(dir); }
        size_t most = 0; for (auto& f : w) most = std::max(most, f.second.size()); if ((size_t) limit >= most) mc::prune();
        size_limit = limit; Run r; try { r = run(dir, l.args); } catch (...) { size_limit = -1; throw; } size_limit = -1; sound(r);
        MC_CHECK(r.rc != 0, "output that does not fit is lost without a failure", r.line + " with files of at most " + std::to_string(limit) + " bytes: printed " + mc::show(r.err)); if (limit > 0) MC_CHECK(!r.err.empty(), "output that does not fit is lost without a message", r.line + " with files of at most " + std::to_string(limit) + " bytes"); mc::state(r.line + std::to_string(limit)); mc::validated(); });
    mc::add("few descriptors", "16 uses of the tool with n descriptors, for n from 3 to 40", 2, 60, [=] {
        auto& l = mc::pick(LS); int n = 3 + mc::choose(38); str dir = fresh(); prepare(dir); static std::map<str, std::map<str, str>> whole; auto& w = whole[l.what]; auto result = [&](const Run& r) { std::map<str, str> v; for (auto& f : l.files) if (ends(f, ".tar") || ends(f, ".tar.gz") || ends(f, ".zip")) { std::vector<File> in; if (!unpack(dir + "/" + f, in, false)) v[f] = "(damaged)"; for (auto& x : in) v[f] += x.name + "\n" + x.text; } else v[f] = ends(f, ".gz") ? expand(dir + "/" + f) : load(dir + "/" + f); if (l.files.empty()) v["-"] = r.out; return v; };
        if (w.empty()) { Run r = run(dir, l.args); good(r); w = result(r); dir = fresh(); prepare(dir); }
        descriptor_limit = n; Run r; try { r = run(dir, l.args); } catch (...) { descriptor_limit = -1; throw; } descriptor_limit = -1; sound(r); if (r.rc == 0) MC_CHECK(result(r) == w && r.err.empty(), "success with another result when there are few descriptors", r.line + " with " + std::to_string(n) + " descriptors: printed " + mc::show(r.err)); else MC_CHECK(!r.err.empty(), "failure without a message", r.line + " with " + std::to_string(n) + " descriptors"); mc::state(r.line + std::to_string(n)); mc::validated(); });
    mc::add("not permitted", "every set of unreadable ones of 3 files, a directory and an archive below a directory, for a user without privileges x by name, as a directory, in a list; and outputs that may not be written x 16 uses", 3, 60, [=] {
        chmod(mc::scratch().c_str(), 0755); str dir = fresh(); chmod(dir.c_str(), 0777); struct Who { Who() { unprivileged = true; } ~Who() { unprivileged = false; } };
        if (mc::choose(2)) {
            auto& l = mc::pick(LS); int how = mc::choose(2); if (l.files.empty()) mc::prune(); prepare(dir); for (auto& f : l.files) { dirs(dir + "/" + f); if (how) put(dir + "/" + f, "old"); } str deny = l.files[0]; if (!how) { size_t s = deny.rfind('/'); deny = s == str::npos ? "" : deny.substr(0, s); }
            for (auto& f : l.files) for (size_t i = f.find('/'); i != str::npos; i = f.find('/', i + 1)) chmod((dir + "/" + f.substr(0, i)).c_str(), 0777); chmod((dir + (deny.empty() ? "" : "/" + deny)).c_str(), how ? 0444 : 0555);
            Run r; { Who w; r = run(dir, l.args); } sound(r); MC_CHECK(r.rc != 0, "output that may not be written is lost without a failure", r.line + " printed " + mc::show(r.err)); MC_CHECK(!r.err.empty(), "output that may not be written is lost without a message", r.line); if (how) MC_CHECK(load(dir + "/" + l.files[0]) == "old", "harness: was written", r.line); mc::state(r.line + std::to_string(how)); mc::validated(); return;
        }
        struct E { const char* name; std::vector<const char*> files; }; static const std::vector<E> ES = {{"s/a.cpp", {"s/a.cpp"}}, {"s/d", {"s/d/b.cpp"}}, {"s/e.cpp.gz", {"s/e.cpp"}}, {"s/f.c", {"s/f.c"}}, {"s/g/h.c", {"s/g/h.c"}}}; int form = mc::choose(4); Files want; VS denied; str all; VS args;
        auto text = [](const str& n) { return "int x" + std::to_string(n.size()) + ";\n"; };
        for (auto& e : ES) { bool deny = mc::choose(2); for (auto f : e.files) { str n = f; if (ends(e.name, ".gz")) squeeze(dir + "/" + e.name, text(n), archive_write_add_filter_gzip); else put(dir + "/" + n, text(n)); str given = ends(e.name, ".gz") ? e.name : n; args.push_back(given); all += given + "\n"; if (!deny) want.push_back({n, text(n)}); } chmod((dir + "/" + e.name).c_str(), deny ? 0 : str(e.name) == "s/d" ? 0755 : 0644); if (deny) denied.push_back(e.name); }
        chmod((dir + "/s").c_str(), 0755); if (form == 1) args = {"s"}; if (form == 2) { put(dir + "/l.txt", all); args = {"--files-from", "l.txt"}; } if (form == 3) { args = {"s", "--to-dir", "out"}; }
        Run r; { Who w; r = run(dir, args); } for (auto& e : ES) chmod((dir + "/" + e.name).c_str(), str(e.name) == "s/d" ? 0755 : 0644); sound(r); MC_CHECK((r.rc != 0) == !denied.empty(), denied.empty() ? "failure although all can be read" : "input that may not be read is lost without a failure", r.line + " printed " + mc::show(r.err)); for (auto& d : denied) MC_CHECK(r.err.find(d) != str::npos || (d == "s/d" && r.err.find("s/d/b.cpp") != str::npos), "input that may not be read is not reported", d + "\n" + r.line + " printed " + mc::show(r.err));
        if (form == 3) { auto got = tree(dir + "/out"); MC_CHECK(got.size() == want.size(), "inputs that can be read are lost", r.line + " printed " + mc::show(r.err)); }
        else if (want.empty()) { if (!r.out.empty()) { dom::Doc d(r.out); MC_CHECK(d.ok(), "the srcML is not well formed", r.line + mc::show(r.out)); } }
        else { dom::Doc d(r.out); MC_CHECK(d.ok(), "the srcML is not well formed", r.line + mc::show(r.out)); VS names; for (xmlNodePtr c = d.root()->children; c; c = c->next) if (c->type == XML_ELEMENT_NODE) { names.push_back(dom::att(c, "filename", "")); MC_CHECK(names.size() <= want.size() && names.back() == want[names.size() - 1].name && dom::text(c) == want[names.size() - 1].text, "inputs that can be read are lost", r.line + " printed " + mc::show(r.err) + "\n" + mc::show(r.out)); } MC_CHECK(names.size() == want.size(), "inputs that can be read are lost", r.line + " printed " + mc::show(r.err) + "\n" + mc::show(r.out)); }
        mc::state(r.line + all + r.err); mc::validated(); });
    // what the extensions of an output stand for
    struct X { str ext; int format; VS filters; }; static const std::vector<X> XS = {{".xml", 0, {}}, {".cpp", 0, {}}, {".tar", ARCHIVE_FORMAT_TAR, {}}, {".pax", ARCHIVE_FORMAT_TAR, {}}, {".zip", ARCHIVE_FORMAT_ZIP, {}}, {".7z", ARCHIVE_FORMAT_7ZIP, {}}, {".cpio", ARCHIVE_FORMAT_CPIO, {}}, {".ar", ARCHIVE_FORMAT_AR, {}}, {".iso", ARCHIVE_FORMAT_ISO9660, {}}, {".shar", ARCHIVE_FORMAT_SHAR, {}}, {".mtree", ARCHIVE_FORMAT_MTREE, {}}, {".xar", ARCHIVE_FORMAT_XAR, {}},
        {".tgz", ARCHIVE_FORMAT_TAR, {"gzip"}}, {".tbz", ARCHIVE_FORMAT_TAR, {"bzip2"}}, {".tbz2", ARCHIVE_FORMAT_TAR, {"bzip2"}}, {".tb2", ARCHIVE_FORMAT_TAR, {"bzip2"}}, {".taz", ARCHIVE_FORMAT_TAR, {"compress (.Z)"}}, {".tlz", ARCHIVE_FORMAT_TAR, {"lzma"}}, {".txz", ARCHIVE_FORMAT_TAR, {"xz"}}};
    static const std::vector<std::pair<str, str>> ZS = {{"", ""}, {".gz", "gzip"}, {".bz2", "bzip2"}, {".xz", "xz"}, {".lzma", "lzma"}, {".lz", "lzip"}, {".z", "compress (.Z)"}};
    mc::add("formats", "19 extensions of srcML files, source files and source archives x every chain of up to 2 of 6 compression extensions, the last for the outermost: the format and the compressions of the output are those, and what is in it, also for the tool itself", 2, 60, [=] {
        auto& x = mc::pick(XS); auto& c1 = mc::pick(ZS); auto& c2 = c1.first.empty() ? ZS[0] : mc::pick(ZS); str name = "out" + x.ext + c1.first + c2.first; VS want = x.filters, filters; for (auto& c : {c1.second, c2.second}) if (!c.empty()) want.push_back(c);
        str dir = fresh(), path = dir + "/" + name; put(dir + "/a.cpp", "a;"); put(dir + "/b.c", "bb;\n"); good(run(dir, {"a.cpp", "b.c", "-o", "a.xml"})); good(run(dir, {"a.cpp", "-o", "u.xml"})); Run r = run(dir, x.ext == ".xml" ? VS{"a.cpp", "b.c", "-o", name} : VS{x.ext == ".cpp" ? "u.xml" : "a.xml", "-S", "-o", name}); good(r); MC_CHECK(r.err.empty(), "the tool complains", r.line + "\nprinted " + mc::show(r.err));
        archive* in = archive_read_new(); if (!x.format || x.format == ARCHIVE_FORMAT_SHAR) archive_read_support_format_raw(in); else archive_read_support_format_all(in); archive_read_support_filter_all(in); MC_CHECK(archive_read_open_filename(in, path.c_str(), 16384) == ARCHIVE_OK, "output is not to be read", r.line); archive_entry* e; Files got;
        while (true) { int s = archive_read_next_header(in, &e); if (s != ARCHIVE_OK && s != ARCHIVE_WARN) break; str t; const void* b; size_t n; la_int64_t off; while (archive_read_data_block(in, &b, &n, &off) == ARCHIVE_OK) t.append((const char*) b, n); if (archive_entry_filetype(e) == AE_IFREG) got.push_back({archive_entry_pathname(e) ? archive_entry_pathname(e) : "", t}); }
        int format = archive_format(in) & ARCHIVE_FORMAT_BASE_MASK; str fs, ws, fname = archive_format_name(in) ? archive_format_name(in) : ""; for (int i = 0; i + 1 < archive_filter_count(in); ++i) { filters.push_back(archive_filter_name(in, i)); fs += filters.back() + " "; } for (auto& f : want) ws += f + " "; archive_read_free(in);
        MC_CHECK(filters == want, "compression of the output", r.line + ": from the inside to the outside " + fs + "instead of " + ws);
        if (!x.format) { MC_CHECK(got.size() == 1 && got[0].text == (x.ext == ".cpp" ? str("a;") : load(dir + "/a.xml")), "text of a compressed file", r.line + "\n" + (got.empty() ? str("empty") : mc::show(got[0].text))); }
        else if (x.format == ARCHIVE_FORMAT_SHAR) { MC_CHECK(got.size() == 1 && got[0].text.find("#!/bin/sh") == 0 && got[0].text.find("a;") != str::npos && got[0].text.find("bb;") != str::npos, "format of a source archive", r.line + " gives " + fname); return; }
        else {
            if (x.format == ARCHIVE_FORMAT_7ZIP && !want.empty()) mc::prune(); // only read from a file that can be sought
            MC_CHECK(format == x.format, "format of a source archive", r.line + " gives " + fname); MC_CHECK(got.size() == 2, "number of files in a source archive", r.line); if (x.format == ARCHIVE_FORMAT_MTREE) return; // has no contents
            MC_CHECK(got[0].name == "a.cpp" && got[1].name == "b.c" && got[0].text == "a;" && got[1].text == "bb;\n", "what is in a source archive", r.line + " " + got[0].name + " " + got[1].name); }
        Run back = run(dir, x.ext == ".xml" ? VS{name, "-S", "--to-dir", "o"} : VS{name, "-o", "b.xml"}); good(back); MC_CHECK(back.err.empty(), "the tool complains", back.line + "\nprinted " + mc::show(back.err));
        if (x.ext == ".xml") { auto t = tree(dir + "/o"); MC_CHECK(t.size() == 2 && t[0].name == "a.cpp" && t[0].text == "a;" && t[1].text == "bb;\n", "the tool does not read what it has written", back.line); }
        else { dom::Doc d(load(dir + "/b.xml")); MC_CHECK(d.ok() && dom::text(d.root()).find("a;") != str::npos && (x.ext == ".cpp" || dom::text(d.root()).find("bb;") != str::npos), "the tool does not read what it has written", back.line + "\n" + mc::show(load(dir + "/b.xml"))); }
        mc::state(r.line + fs + fname); mc::validated(); });
    static const VS VALUES = {"v", "a b", "a'b", "a\"b", "\"q\"", "a=b", "<&>]]>", "\xc3\xa9", "a\tb", "a\nb", "%s", "x:y", "\\n", "a;b", "=", "http://u/v", " v "};
    mc::add("values", "17 values (quotes, markup, other characters) x XSLT parameter, attribute, url, version, file name, namespace x source file, srcML file", 2, 60, [=] {
        str v = mc::pick(VALUES); int what = mc::choose(6), from = mc::choose(2); str dir = fresh(); helpers(dir); put(dir + "/a.cpp", "int a;\n"); if (from) good(run(dir, {"a.cpp", "-o", "x.xml"})); str in = from ? "x.xml" : "a.cpp"; VS a = {in};
        if (from && what > 1) mc::prune(); bool quoted = v[0] == '"'; if (quoted && what < 2) v = "\"q\"";
        switch (what) { case 0: a.insert(a.end(), {"--xslt=p.xsl", "--xslt-param=p=" + v}); break; case 1: a.insert(a.end(), {"--xpath=//src:name", "--attribute=x:y=" + v, "--xmlns:x=http://x"}); break; case 2: a.push_back("--url=" + v); break; case 3: a.push_back("--src-version=" + v); break; case 4: a = {"--text=a;", "-l", "C", "--filename=" + v}; break; case 5: a.push_back("--xmlns:x=" + v); break; }
        a.push_back("-X"); Run r = run(dir, a); good(r); MC_CHECK(r.err.empty(), "the tool complains", r.line + "\nprinted " + mc::show(r.err)); str want = quoted && what < 2 ? "q" : v;
        if (what == 0) { MC_CHECK(r.out == "[" + want + "]" || r.out == "[" + want + "]\n", "value of an XSLT parameter", r.line + "\n" + mc::show(r.out)); mc::state(r.line); mc::validated(); return; }
        dom::Doc d(r.out); MC_CHECK(d.d && (what == 5 || d.ok()), "the srcML is not well formed", r.line + "\n" + d.err + mc::show(r.out)); xmlNodePtr u = d.root();
        if (what == 5) { bool in = false; for (xmlNsPtr n = u->nsDef; n; n = n->next) in |= n->prefix && str((const char*) n->prefix) == "x" && (str((const char*) n->href) == want || want.find('<') != str::npos); MC_CHECK(in, "a namespace that was asked for is not declared", r.line + "\n" + mc::show(r.out)); }
        else if (what == 1) { int n = 0; std::function<void(xmlNodePtr)> look = [&](xmlNodePtr e) { for (; e; e = e->next) if (e->type == XML_ELEMENT_NODE) { if (str((const char*) e->name) == "name") { ++n; auto at = dom::atts(e); MC_CHECK(at.size() == 1 && at[0].first == "{http://x}y" && at[0].second == want, "value of an attribute", r.line + "\n" + mc::show(r.out)); } look(e->children); } }; look(u->children); MC_CHECK(n == 2, "value of an attribute", r.line + "\n" + mc::show(r.out)); }
        else { const char* name = what == 2 ? "url" : what == 3 ? "version" : "filename"; MC_CHECK(dom::att(u, name) == want, "value of an attribute of the unit", r.line + "\n" + mc::show(r.out)); }
        mc::state(r.line); mc::validated(); });
}
MC_MAIN
