// P30: archives, compressed files and directories given to the tool, in and out.
#include "mc.hpp"
#include "sml.hpp"
#include <iostream>
#include <memory>
#include <sys/stat.h>
#include <fcntl.h>
#include <locale.h>
#include <archive.h>
#include <archive_entry.h>
#include <srcml_cli.hpp>
#include <SRCMLStatus.hpp>
#include <src_input_libarchive.hpp>
#include <src_input_filesystem.hpp>
#include <src_output_libarchive.hpp>
#include <input_curl.hpp>

typedef std::string str;
typedef std::vector<str> VS;
static std::vector<std::shared_ptr<ParseRequest>> requests;
void srcml_consume(int, std::shared_ptr<ParseRequest> r, WriteQueue*) { requests.push_back(r); }
void WriteQueue::schedule(std::shared_ptr<ParseRequest> r) { requests.push_back(r); }
bool curl_supported(const std::string& p) { return p == "http" || p == "https" || p == "ftp"; }
int input_curl(srcml_input_src&) { return 0; }
bool getCurlErrors() { return false; }
bool getCurlErrors(int) { return false; }
int srcml_input_srcml(ParseQueue&, srcml_archive*, const srcml_request_t&, const srcml_input_src&, const boost::optional<size_t>&) { mc::fail("source treated as srcML", ""); return 0; }
struct Capture { std::ostringstream out, err; std::streambuf *o, *e; Capture() { o = std::cout.rdbuf(out.rdbuf()); e = std::cerr.rdbuf(err.rdbuf()); } ~Capture() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };

// ---- what is stored
struct File { str name, text; bool dir = false; };
static std::vector<File> KINDS;
static str lang(const str& name) {       // the languages of the extensions used here
    static const std::map<str, str> L = {{".cpp", "C++"}, {".c", "C"}, {".h", "C"}, {".java", "Java"}, {".cs", "C#"}, {".hpp", "C++"}};
    size_t d = name.rfind('.'); if (d == str::npos) return ""; auto i = L.find(name.substr(d)); return i == L.end() ? "" : i->second;
}
static str plain(str n) { while (n.compare(0, 2, "./") == 0) n.erase(0, 2); return n; }     // ./ has no meaning at the start of a name
static str scratch() { static int pid = 0; static str s; if (pid != getpid()) { pid = getpid(); s = mc::scratch() + "/d" + std::to_string(pid); mkdir(s.c_str(), 0755); } return s; }
static void put(const str& path, const str& text) { FILE* f = fopen(path.c_str(), "wb"); if (!f) mc::fail("harness: cannot write " + path, ""); fwrite(text.data(), 1, text.size(), f); fclose(f); }

// ---- archives
struct Format { str ext; int (*format)(archive*); int (*filter)(archive*); const char* opt = nullptr; bool utf8 = false; };    // utf8: names are stored as characters, and what the tool makes of those depends on the locale
static const std::vector<Format> FORMATS = {
    {".tar", archive_write_set_format_ustar, nullptr}, {".tar", archive_write_set_format_gnutar, nullptr}, {".tar", archive_write_set_format_pax, nullptr, "pax:hdrcharset=BINARY"}, {".tar.gz", archive_write_set_format_gnutar, archive_write_add_filter_gzip},
    {".tgz", archive_write_set_format_pax_restricted, archive_write_add_filter_gzip}, {".tar.bz2", archive_write_set_format_ustar, archive_write_add_filter_bzip2}, {".tar.xz", archive_write_set_format_ustar, archive_write_add_filter_xz},
    {".cpio", archive_write_set_format_cpio_newc, nullptr}, {".cpio", archive_write_set_format_cpio, nullptr}, {".zip", archive_write_set_format_zip, nullptr}, {".zip", archive_write_set_format_zip, nullptr, "zip:compression=store"}, {".7z", archive_write_set_format_7zip, nullptr, nullptr, true},
    {".tar", archive_write_set_format_pax, nullptr, nullptr, true}, {".zip", archive_write_set_format_zip, nullptr, "zip:hdrcharset=UTF-8", true}};
static str format_name(const Format& f, size_t i) { return std::to_string(i) + f.ext; }
static void pack(const str& path, const Format& f, const std::vector<File>& files) {
    struct Locale { bool on; Locale(bool o) : on(o) { if (on) setlocale(LC_CTYPE, "C.UTF-8"); } ~Locale() { if (on) setlocale(LC_CTYPE, "C"); } } locale(f.utf8);
    archive* a = archive_write_new(); f.format(a); if (f.filter) f.filter(a); if (f.opt) archive_write_set_options(a, f.opt); if (archive_write_open_filename(a, path.c_str()) != ARCHIVE_OK) mc::fail("harness: archive", archive_error_string(a));
    for (auto& x : files) {
        archive_entry* e = archive_entry_new(); archive_entry_set_pathname(e, x.name.c_str()); archive_entry_set_size(e, (la_int64_t) x.text.size()); archive_entry_set_filetype(e, x.dir ? AE_IFDIR : AE_IFREG); archive_entry_set_perm(e, 0644); archive_entry_set_mtime(e, 1500000000, 0);
        int r = archive_write_header(a, e); if (r < ARCHIVE_WARN) mc::fail("harness: entry", str(archive_error_string(a)) + x.name); if (!x.dir) archive_write_data(a, x.text.data(), x.text.size()); archive_entry_free(e);
    }
    archive_write_close(a); archive_write_free(a);
}
static void squeeze(const str& path, int (*filter)(archive*), const str& text) {
    archive* a = archive_write_new(); archive_write_set_format_raw(a); filter(a); archive_write_open_filename(a, path.c_str());
    archive_entry* e = archive_entry_new(); archive_entry_set_pathname(e, "data"); archive_entry_set_filetype(e, AE_IFREG); archive_write_header(a, e); archive_write_data(a, text.data(), text.size()); archive_entry_free(e); archive_write_close(a); archive_write_free(a);
}
// one request expected
struct Want { str name, text, language; bool known = true; bool ascii = true; };
static bool lossy(const Want& w) { if (!w.ascii) for (char ch : w.name) if (ch & 0x80) return true; return false; }
struct Opt { bool verbose = false, stamp = false, noarchive = false; str language, url, version; };
static str show(const Opt& o) { return str(o.verbose ? " --verbose" : "") + (o.stamp ? " --timestamp" : "") + (o.noarchive ? " --output to a directory" : "") + (o.language.empty() ? "" : " --language=" + o.language) + (o.url.empty() ? "" : " --url") + (o.version.empty() ? "" : " --src-version"); }
static srcml_request_t request(const Opt& o) {
    srcml_request_t r; r.command = (o.verbose ? SRCML_COMMAND_VERBOSE : 0) | (o.stamp ? SRCML_COMMAND_TIMESTAMP : 0) | (o.noarchive ? SRCML_COMMAND_NOARCHIVE : 0); SRCMLOptions::set(r.command);
    if (!o.language.empty()) r.att_language = o.language; if (!o.url.empty()) r.att_url = o.url; if (!o.version.empty()) r.att_version = o.version; r.output_filename = srcml_output_dest(str("out")); return r;
}
static void compare(const std::vector<Want>& want, const Opt& o, srcml_archive* a, const str& why, bool stamped = true) {
    auto all = [&] { str s = why + "\ngot "; for (auto& r : requests) s += "'" + (r->filename ? mc::show(*r->filename) : str("-")) + "' "; s += "\nwant "; for (auto& w : want) s += "'" + mc::show(w.name) + "' "; return s; };
    MC_CHECK(requests.size() == want.size(), requests.size() < want.size() ? "a source file is left out" : "more units than source files", all());
    for (size_t i = 0; i < want.size(); ++i) {
        auto& r = *requests[i]; const Want& w = want[i];
        MC_CHECK(r.filename && (*r.filename == w.name || (lossy(w) && !r.filename->empty() && lang(*r.filename) == lang(w.name))), "name of a source file", all());
        MC_CHECK((r.status == SRCML_STATUS_OK) == w.known, "a source file is not accepted, or a file without a language is", all() + std::to_string(r.status));
        if (w.known) { str got(r.buffer.begin(), r.buffer.end()); MC_CHECK(got == w.text, "bytes of a source file", why + " " + w.name + "\ngot " + std::to_string(got.size()) + " '" + mc::show(got, 200) + "'\nwant " + std::to_string(w.text.size()) + " '" + mc::show(w.text, 200) + "'"); MC_CHECK(r.language == w.language, "language of a source file", why + " " + w.name + " got " + r.language + " want " + w.language); }
        MC_CHECK(r.srcml_arch == a && r.needsparsing && !r.unit, "request", all());
        if (w.known) MC_CHECK((r.url ? *r.url : "") == o.url && (r.version ? *r.version : "") == o.version, "the url or the version asked for is lost", all());
        if (w.known && r.time_stamp) MC_CHECK(o.stamp && r.time_stamp->find("1970") == str::npos, "timestamp", all() + *r.time_stamp);
        if (w.known && stamped) { MC_CHECK(!!r.time_stamp == o.stamp, "timestamp", all()); if (o.stamp) MC_CHECK(r.time_stamp->find("2017") != str::npos && r.time_stamp->find('\n') == str::npos, "timestamp", why + *r.time_stamp); }
        if (w.known) MC_CHECK((r.disk_dir ? *r.disk_dir : "") == (o.noarchive ? "out" : ""), "directory of the output", all());
    }
    mc::validated(); mc::state(all());
}
static str language_of(const str& name, const Opt& o) { str l = lang(name); return l.empty() || o.language.empty() ? l : o.language; }
static std::vector<Want> expected(const std::vector<File>& fs, const Opt& o, const str& prefix = "", bool all = false) {     // all: the language given is for every file

    std::vector<Want> w;
    for (auto& f : fs) { if (f.dir) continue; str n = prefix + f.name; str l = all && !o.language.empty() ? o.language : language_of(n, o); if (l.empty() && !o.verbose) continue; w.push_back({n, f.text, l, !l.empty()}); }
    return w;
}
// open as a file name, a descriptor or a stream
static void run(const str& path, int how, const Opt& o, const std::function<void(srcml_archive*, const str&)>& judge) {
    requests.clear(); sml::Archive a(srcml_archive_create()); srcml_archive_enable_solitary_unit(a.get()); srcml_archive_disable_hash(a.get()); srcml_request_t rq = request(o); ParseQueue q(1, nullptr); str err; int fd = -1; FILE* f = nullptr;
    srcml_input_src in(how == 3 ? str("-") : path); if (how == 1 || how == 3) { fd = open(path.c_str(), O_RDONLY); in = fd; } if (how == 2) { f = fopen(path.c_str(), "rb"); in = f; }
    { Capture c; src_input_libarchive(q, a.get(), rq, in); err = c.out.str() + c.err.str(); }
    if (fd >= 0) close(fd); if (f) fclose(f); judge(a.get(), err);
}
static void archive_case(const Format& f, size_t fi, const std::vector<File>& fs, int how, const Opt& o) {
    str path = scratch() + "/in" + f.ext; pack(path, f, fs); str why = format_name(f, fi) + " of"; for (auto& x : fs) why += " '" + mc::show(x.name) + "'"; why += (how == 1 ? " by descriptor" : how == 2 ? " by stream" : how == 3 ? " on standard input" : "") + show(o);
    auto w = expected(fs, o, "", how == 3); if (f.utf8) for (auto& x : w) x.ascii = false;
    if (f.ext == ".7z") { if (how) mc::prune(); /* needs a file that can be sought */ std::stable_partition(w.begin(), w.end(), [](const Want& x) { return !x.text.empty(); }); /* as they are stored */ }
    run(path, how, o, [&](srcml_archive* a, const str& err) {
        // a name that cannot be told is reported
        auto told = [&](const str& n) { for (auto& r : requests) if (r->filename && *r->filename == n) return true; return false; };
        if (err.find("nable to read the filename") != str::npos) w.erase(std::remove_if(w.begin(), w.end(), [&](const Want& x) { return lossy(x) && !told(x.name); }), w.end());
        compare(w, o, a, why + " " + err); MC_CHECK(!srcml_archive_is_solitary_unit(a), "the files of an archive do not make an archive", why); }); unlink(path.c_str());
}
// ---- directories
static void clean(const str& d) { str c = "rm -rf -- '" + d + "'"; if (d.find(mc::scratch()) != 0 || system(c.c_str())) mc::fail("harness: cannot remove", d); }
static void dirs(const str& root, const str& name) { for (size_t i = name.find('/'); i != str::npos; i = name.find('/', i + 1)) mkdir((root + "/" + name.substr(0, i)).c_str(), 0755); }
static bool hidden(const str& n) { return n[0] == '.' || n.find("/.") != str::npos; }
static void directory_case(std::vector<File> fs, int form, const Opt& o) {
    str root = scratch() + "/t", top = root + "/p.q/src"; clean(root); mkdir(root.c_str(), 0755); mkdir((root + "/p.q").c_str(), 0755); mkdir(top.c_str(), 0755); mkdir((root + "/p.q/other").c_str(), 0755);
    for (auto& f : fs) { dirs(top, f.name); if (f.dir) mkdir((top + "/" + f.name).c_str(), 0755); else { put(top + "/" + f.name, f.text); struct timespec t[2] = {{1500000000, 0}, {1500000000, 0}}; utimensat(AT_FDCWD, (top + "/" + f.name).c_str(), t, 0); } }
    static const VS FORM = {"absolute", "src", "src/", "./src", ".", "../src", "..", "src/.", "p.q"};
    str arg, cwd = root + "/p.q", prefix;
    switch (form) { case 0: arg = top; prefix = top + "/"; break; case 1: arg = "src"; prefix = "src/"; break; case 2: arg = "src/"; prefix = "src/"; break; case 3: arg = "./src"; prefix = "src/"; break; case 4: arg = "."; cwd = top; prefix = top + "/"; break;
        case 5: arg = "../src"; cwd = root + "/p.q/other"; prefix = "../src/"; break; case 6: arg = ".."; cwd = top + "/../other"; prefix = "../src/"; break; case 7: arg = "src/."; prefix = "src/./"; break; case 8: arg = "p.q"; cwd = root; prefix = "p.q/src/"; break; }
    std::vector<File> keep; for (auto& f : fs) { if (hidden(f.name)) continue; size_t d = f.name.rfind('.'); str e = d == str::npos ? "" : f.name.substr(d); if (e == ".tar" || e == ".zip") { if (o.verbose) keep.push_back(f); continue; } keep.push_back(f); }
    auto w = expected(keep, o, prefix);
    std::sort(w.begin(), w.end(), [](const Want& a, const Want& b) { return a.name < b.name; });
    str why = "directory " + FORM[(size_t) form] + " with"; for (auto& x : fs) why += " '" + mc::show(x.name) + "'"; why += show(o);
    if (chdir(cwd.c_str())) mc::fail("harness: chdir", cwd);
    requests.clear(); sml::Archive a(srcml_archive_create()); srcml_request_t rq = request(o); ParseQueue q(1, nullptr); str err; { Capture c; src_input_filesystem(q, a.get(), rq, arg); err = c.out.str() + c.err.str(); }
    if (chdir("/")) mc::fail("harness: chdir", "/"); clean(root); compare(w, o, a.get(), why + " " + err, false);
}
// what libarchive says of a file: the files that are whole, and whether it ends as it should
static bool reads(const str& path, std::vector<std::pair<str, str>>& whole) {
    archive* a = archive_read_new(); for (auto f : {archive_read_support_format_ar, archive_read_support_format_cpio, archive_read_support_format_tar, archive_read_support_format_iso9660, archive_read_support_format_xar, archive_read_support_format_zip, archive_read_support_format_7zip, archive_read_support_format_cab, archive_read_support_format_lha, archive_read_support_format_rar, archive_read_support_format_raw}) f(a); archive_read_support_format_empty(a); archive_read_support_filter_all(a); bool ok = archive_read_open_filename(a, path.c_str(), 16384) == ARCHIVE_OK, bad = false; archive_entry* e = nullptr;
    while (ok) {
        int r = archive_read_next_header(a, &e); if (r == ARCHIVE_EOF) break; if (r != ARCHIVE_OK && r != ARCHIVE_WARN) { ok = false; break; }
        str t; const void* b; size_t n; la_int64_t off; while ((r = archive_read_data_block(a, &b, &n, &off)) == ARCHIVE_OK) t.append((const char*) b, n);
        if (r != ARCHIVE_EOF) bad = true; else if (archive_entry_filetype(e) != AE_IFDIR) whole.push_back({archive_format(a) == ARCHIVE_FORMAT_RAW ? "data" : archive_entry_pathname(e) ? archive_entry_pathname(e) : "", t});
    }
    archive_read_free(a); return ok && !bad;
}
static str noise(size_t n) { str s; unsigned x = 12345; for (size_t i = 0; i < n; ++i) { x = x * 1103515245 + 12345; s += (char) ('a' + (x >> 16) % 26); if (i % 40 == 39) s += '\n'; } return s; }
static str load(const str& path) { FILE* f = fopen(path.c_str(), "rb"); str s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
static void damage_case(const str& path, const str& why) {
    std::vector<std::pair<str, str>> whole; bool ok = reads(path, whole);
    run(path, 0, Opt(), [&](srcml_archive* a, const str& err) {
        bool told = err.find("srcml: ") != str::npos; auto left = whole;
        for (auto& r : requests) { str got(r->buffer.begin(), r->buffer.end()); bool in = false; for (size_t i = 0; i < left.size() && !in; ++i) if (left[i].second == got && (left[i].first == "data" || left[i].first == *r->filename)) { in = true; left.erase(left.begin() + (long) i); } if (!in) in = got.empty() && ok && whole.empty(); MC_CHECK(in, "part of a source file is parsed", why + " " + *r->filename + " of " + std::to_string(got.size()) + " bytes"); }
        if (ok) for (auto& w : left) MC_CHECK(w.first == "data" || lang(w.first).empty() || told, "a source file is left out", why + " " + w.first + " of " + std::to_string(w.second.size()) + " bytes, " + std::to_string(requests.size()) + " requests");
        if (!ok) MC_CHECK(told, "a damaged archive is not reported", why + "\nprinted " + err);
        mc::state(why + std::to_string(requests.size()) + std::to_string(ok)); mc::validated(); });
}
static str big(size_t n) { str s; while (s.size() < n) s += "int a" + std::to_string(s.size()) + ";\n"; s.resize(n); return s; }
void mc_setup() {
    bool th = mc::thorough();
    KINDS = {{"a.cpp", "a;\n"}, {"b.c", ""}, {"d", "", true}, {"d/e.java", "class e {}\r\n"}, {"README", "text"}, {"big.cpp", big(40000)}, {"\xc3\xa9.cpp", "int e;"}, {"./x.cs", "x;"}, {"n.h", str("a\0b\xff\n", 5)}, {"s p&<.hpp", "y;"}, {"data", "z"}, {"data.c", "z;"}};
    int max = th ? 4 : 3;
    static std::vector<Opt> OPTS(1); { Opt o; o.verbose = true; OPTS.push_back(o); o = Opt(); o.language = "C#"; o.url = "u"; o.version = "v"; OPTS.push_back(o); o = Opt(); o.stamp = true; o.noarchive = true; OPTS.push_back(o); }
    mc::add("archives", "every sequence of up to " + std::to_string(max) + " of " + std::to_string(KINDS.size()) + " entries (empty and large files, directories, files without a language, names with ./, spaces and other characters) x 14 archive formats and compressions x file, descriptor, stream, standard input x 4 sets of options", 2, 60, [=] {
        size_t fi = (size_t) mc::choose((int) FORMATS.size()); std::vector<File> fs; for (int i = 0; i < max; ++i) { int k = mc::choose((int) KINDS.size() + 1); if (!k) break; fs.push_back(KINDS[(size_t) k - 1]); }
        for (size_t i = 0; i < fs.size(); ++i) for (size_t j = 0; j < i; ++j) if (fs[i].name == fs[j].name) mc::prune();
        if (fs.empty()) mc::prune();
        int how = mc::choose(fs.size() > 2 ? 1 : 4); const Opt& o = OPTS[(size_t) mc::choose(fs.size() > 2 ? 1 : (int) OPTS.size())]; if (how == 3 && o.language.empty()) mc::prune(); /* taken for srcML */ archive_case(FORMATS[fi], fi, fs, how, o); });
    // one compressed file
    static const std::vector<std::pair<str, int (*)(archive*)>> FILTERS = {{".gz", archive_write_add_filter_gzip}, {".bz2", archive_write_add_filter_bzip2}, {".xz", archive_write_add_filter_xz}, {".z", archive_write_add_filter_compress}, {".lzma", archive_write_add_filter_lzma}};
    static const VS NAMES = {"a.cpp", "./b.c", "x/c.java", "README", "a.tab.hpp", "data", "e\xc3\xa9.cs", "././d.cpp"};
    static VS TEXTS = {"a;\n", "", str("\xef\xbb\xbf" "a\r\nb\0c\xff", 10), big(16384), big(70000), "\n", "#mtree\n", "PK", "begin 644 a\n"};
    mc::add("compressed files", "8 names x 9 contents (empty, binary, several buffers long) x 5 compressions, alone and with each of 2 around it x file, descriptor, stream x 4 sets of options", 2, 60, [=] {
        str n = mc::pick(NAMES), t = mc::pick(TEXTS); auto& f = mc::pick(FILTERS); int around = mc::choose(3); int how = mc::choose(3); const Opt& o = mc::pick(OPTS); str dir = scratch() + "/z"; clean(dir); mkdir(dir.c_str(), 0755); mkdir((dir + "/x").c_str(), 0755); if (chdir(dir.c_str())) mc::fail("harness: chdir", dir);
        str path = n + f.first; squeeze(path, f.second, t); if (around) { auto& g = FILTERS[(size_t) around - 1]; str b = load(path); path += g.first; squeeze(path, g.second, b); } std::vector<Want> w; str nn = plain(n), l = language_of(nn, o); if (t.empty() && f.first != ".gz") mc::prune(); /* an empty stream of these is no file */ if (!l.empty() || o.verbose) w.push_back({nn, t, l, !l.empty()}); str why = "compressed " + mc::show(path) + " with " + mc::show(t, 40) + " how " + std::to_string(how) + show(o);
        run(path, how, o, [&](srcml_archive* a, const str& err) { compare(w, o, a, why + " " + err, false); MC_CHECK(srcml_archive_is_solitary_unit(a), "one file makes an archive", why); });
        if (chdir("/")) mc::fail("harness: chdir", "/"); clean(dir); });
    // one plain file
    mc::add("plain files", "8 names x 9 contents x file, descriptor, stream x 4 sets of options", 2, 60, [=] {
        str n = mc::pick(NAMES), t = mc::pick(TEXTS); int how = mc::choose(3); const Opt& o = mc::pick(OPTS); str dir = scratch() + "/z"; clean(dir); mkdir(dir.c_str(), 0755); mkdir((dir + "/x").c_str(), 0755); if (chdir(dir.c_str())) mc::fail("harness: chdir", dir);
        put(n, t); std::vector<Want> w; str nn = plain(n), l = language_of(nn, o); if (!l.empty() || o.verbose) w.push_back({nn, t, l, !l.empty()}); str why = "file " + mc::show(n) + " with " + mc::show(t, 40) + " how " + std::to_string(how) + show(o);
        run(n, how, o, [&](srcml_archive* a, const str& err) { compare(w, o, a, why + " " + err, false); MC_CHECK(srcml_archive_is_solitary_unit(a), "one file makes an archive", why); });
        if (chdir("/")) mc::fail("harness: chdir", "/"); clean(dir); });
    // archives that are cut short or changed
    struct D { str path, bytes; }; static std::vector<D> DS; static std::map<str, str> DF = {{"a.cpp", noise(3000)}, {"b.cpp", "b;\n"}, {"c.cpp", noise(700)}, {"data", noise(3000)}};
    { std::vector<File> fs = {{"a.cpp", DF["a.cpp"]}, {"b.cpp", DF["b.cpp"]}, {"c.cpp", DF["c.cpp"]}}; for (size_t i = 0; i < FORMATS.size(); ++i) { if (i == 5 || i == 4) continue; str p = scratch() + "/cut" + FORMATS[i].ext; pack(p, FORMATS[i], fs); DS.push_back({FORMATS[i].ext, load(p)}); unlink(p.c_str()); } for (size_t i = 0; i < 3; ++i) { str p = scratch() + "/a.cpp" + FILTERS[i].first; squeeze(p, FILTERS[i].second, DF["data"]); DS.push_back({"/a.cpp" + FILTERS[i].first, load(p)}); unlink(p.c_str()); } }
    mc::add("damaged files", "15 archives and compressed files of three source files, cut at every length, or with one of every byte changed in 2 ways", 2, 60, [=] {
        size_t di = (size_t) mc::choose((int) DS.size()); auto& d = DS[di]; int at = mc::choose((int) d.bytes.size()), how = mc::choose(3); str b = d.bytes; if (how == 0) b.resize((size_t) at); else b[(size_t) at] = (char) (b[(size_t) at] ^ (how == 1 ? 1 : 0xff));
        if (!th && d.bytes.size() > 9000 && at % 7) mc::prune();
        str p = scratch() + (d.path[0] == '/' ? d.path : "/in" + d.path); put(p, b); damage_case(p, d.path + " " + std::to_string(di) + (how ? " changed at " : " cut at ") + std::to_string(at) + " of " + std::to_string(d.bytes.size())); unlink(p.c_str()); });
    static const std::vector<File> TREE = {{"a.cpp", "a;\n"}, {"b.c", ""}, {"README", "t"}, {".h.cpp", "h;"}, {".git/x.cpp", "g;"}, {"sub/c.java", "class c {}\r\n"}, {"sub/d/e.cs", "e;"}, {"sub.cpp/e.c", "f;"}, {"sub-a/z.cpp", "z;"}, {"\xc3\xa9.cpp", big(40000)}, {"e", "", true}, {"z.tar", "not an archive"}, {"a b&<.h", "s;"}};
    int dm = th ? 4 : 3;
    mc::add("directories", "every set of up to " + std::to_string(dm) + " of " + std::to_string(TREE.size()) + " files (hidden ones and directories, directories with the names of source files, empty ones, nested ones) x 9 spellings of the directory x 4 sets of options", 2, 60, [=] {
        std::vector<File> fs; int last = 0; for (int i = 0; i < dm; ++i) { int k = mc::choose((int) TREE.size() + 1 - last); if (!k) break; last += k; fs.push_back(TREE[(size_t) last - 1]); if (last == (int) TREE.size()) break; }
        int form = mc::choose(9); const Opt& o = mc::pick(OPTS); directory_case(fs, form, o); });
    // units to a source archive
    struct U { str name, lang, text; bool named = true; }; static const std::vector<U> US = {{"a.cpp", "C++", "a;\n"}, {"d/b.c", "C", ""}, {"a.cpp", "C++", "other;\n"}, {"", "Java", "class c {}\r\n", false}, {"", "C#", "x;", false}, {"", "", "y", false}, {"\xc3\xa9.cpp", "C++", "int e;"}, {"/abs.cpp", "C++", big(40000)}, {"./x.cs", "C#", "x;"}, {"README", "", "r"}, {"s p&<.hpp", "C++", "\"\xc3\xa9\" < 1 && 2;\n"}, {str(150, 'n') + ".cpp", "C++", "n;"}};
    static const std::vector<std::pair<str, VS>> OUT = {{".tar", {".tar"}}, {".tgz", {".tgz"}}, {".zip", {".zip"}}, {".cpio", {".cpio"}}, {".pax", {".pax"}}, {".tar.bz2", {".bz2", ".tar"}}, {".7z", {".7z"}}};
    mc::add("source archives", "every sequence of up to 3 of 12 units (without names, languages or text, with the same name, other characters, long names) x 7 formats", 2, 60, [=] {
        auto& of = mc::pick(OUT); std::vector<U> us; str doc = "<unit xmlns=\"http://www.srcML.org/srcML/src\" revision=\"1.0.0\">\n\n", why = of.first + " of"; std::vector<std::pair<str, str>> want;
        for (int i = 0; i < 3; ++i) { int k = mc::choose((int) US.size() + 1); if (!k) break; us.push_back(US[(size_t) k - 1]); }
        for (size_t i = 0; i < us.size(); ++i) {
            auto& u = us[i]; auto esc = [](const str& t, bool att) { str o; for (char c : t) o += c == '<' ? "&lt;" : c == '&' ? "&amp;" : c == '>' ? "&gt;" : c == '\r' ? "&#13;" : c == '"' && att ? "&quot;" : str(1, c); return o; };
            doc += "<unit revision=\"1.0.0\"" + (u.lang.empty() ? str() : " language=\"" + u.lang + "\"") + (u.named ? " filename=\"" + esc(u.name, true) + "\"" : "") + ">" + esc(u.text, false) + "</unit>\n\n"; why += " '" + (u.named ? mc::show(u.name, 20) : "-") + "'";
            static const std::map<str, str> EXT = {{"C++", ".cpp"}, {"C", ".c"}, {"Java", ".java"}, {"C#", ".cs"}, {"", ""}};
            want.push_back({u.named ? u.name : "srcml_unit_" + std::to_string(i + 1) + EXT.at(u.lang), u.text});
        }
        doc += "</unit>\n"; if (us.empty()) doc = "<unit xmlns=\"http://www.srcML.org/srcML/src\" revision=\"1.0.0\"/>"; str path = scratch() + "/out" + of.first;
        sml::Archive a(srcml_archive_create()); srcml_archive_read_open_memory(a.get(), doc.data(), doc.size()); srcml_archive_set_src_encoding(a.get(), "UTF-8"); archive* ar = archive_write_new(); srcml_output_dest dest(path);
        for (auto& e : dest.archives) archive_write_set_format_by_extension(ar, e.c_str()); for (auto& e : dest.compressions) archive_write_set_compression_by_extension(ar, e.c_str());
        if (archive_write_open_filename(ar, path.c_str()) != ARCHIVE_OK) mc::fail("harness: archive", archive_error_string(ar));
        str err; { Capture c; src_output_libarchive(a.get(), ar); err = c.out.str() + c.err.str(); } archive_write_close(ar); archive_write_free(ar); srcml_archive_close(a.get());
        std::vector<std::pair<str, str>> got; str seen; archive* in = archive_read_new(); archive_read_support_format_all(in); archive_read_support_filter_all(in); archive_read_open_filename(in, path.c_str(), 16384); archive_entry* e; setlocale(LC_CTYPE, "C.UTF-8");
        while (true) { int r = archive_read_next_header(in, &e); if (r != ARCHIVE_OK && r != ARCHIVE_WARN) break; str t; const void* b; size_t n; la_int64_t off; while (archive_read_data_block(in, &b, &n, &off) == ARCHIVE_OK) t.append((const char*) b, n); const char* p = archive_entry_pathname(e); got.push_back({p ? p : "", t}); seen += " '" + mc::show(got.back().first, 20) + "'"; }
        archive_read_free(in); setlocale(LC_CTYPE, "C"); unlink(path.c_str());
        if (us.empty()) { mc::state(why); return; }      // reads as one empty unit
        if (of.first == ".7z") std::stable_partition(want.begin(), want.end(), [](auto& x) { return !x.second.empty(); });
        MC_CHECK(got.size() == want.size(), got.size() < want.size() ? "a unit is not in the source archive" : "more files than units in the source archive", why + "\ngot" + seen + "\n" + err);
        for (size_t i = 0; i < got.size(); ++i) { bool ascii = true; for (char c : want[i].first) ascii &= !(c & 0x80);
            MC_CHECK(!ascii || got[i].first == want[i].first, "name in a source archive", why + "\ngot" + seen); MC_CHECK(got[i].second == want[i].second, "text in a source archive", why + " " + want[i].first + "\ngot  '" + mc::show(got[i].second, 60) + "'\nwant '" + mc::show(want[i].second, 60) + "'"); }
        mc::state(why); mc::validated(); });
}
MC_MAIN
