// P24: what each input argument is taken to be, and which handler gets it.
#include "mc.hpp"
#include "sml.hpp"
#include <iostream>
#include <sys/stat.h>
#include <srcml_cli.hpp>
#include <SRCMLStatus.hpp>
#include <create_srcml.hpp>
#include <src_input_text.hpp>
#include <src_input_file.hpp>
#include <src_input_filesystem.hpp>
#include <src_input_filelist.hpp>
#include <src_input_libarchive.hpp>
#include <srcml_input_srcml.hpp>
#include <transform_srcml.hpp>
#include <input_archive.hpp>
#include <input_curl.hpp>
#include <ParserTest.hpp>
#include <WriteQueue.hpp>

typedef std::string str;
typedef std::vector<str> VS;

// ---------------------------------------------------------------- stand-ins: every handler only records that it was called
static str calls; static int curl_ok = 1;
static void rec(const char* h, const srcml_input_src& in) { calls += str(h) + "(" + in.filename + (in.fd ? " fd " + std::to_string(*in.fd) : "") + ") "; }
int srcml_input_srcml(ParseQueue&, srcml_archive*, const srcml_request_t&, const srcml_input_src& in, const boost::optional<size_t>&) { rec("srcml", in); return 1; }
int src_input_text(ParseQueue&, srcml_archive*, const srcml_request_t&, const srcml_input_src& in) { rec("text", in); return 1; }
int src_input_filelist(ParseQueue&, srcml_archive* a, const srcml_request_t&, const std::string& f, const srcml_output_dest&) { calls += "filelist(" + f + ") "; return 1; }
int src_input_filesystem(ParseQueue&, srcml_archive*, const srcml_request_t&, const srcml_input_src& in) { rec("directory", in); return 1; }
int src_input_filesystem(ParseQueue&, srcml_archive*, const srcml_request_t&, const std::string& in) { calls += "directory(" + in + ") "; return 1; }
int src_input_file(ParseQueue&, srcml_archive*, const srcml_request_t&, const srcml_input_src& in) { rec("file", in); return 1; }
int src_input_libarchive(ParseQueue&, srcml_archive*, const srcml_request_t&, const srcml_input_src& in) { rec("libarchive", in); return 1; }
int input_archive(const srcml_input_src& in) { calls += "unpack(" + in.filename + ") "; return 77; }
bool curl_supported(const std::string& p) { return p == "http" || p == "https" || p == "ftp" || p == "file"; }
int input_curl(srcml_input_src& in) { calls += "fetch(" + in.filename + ") "; if (curl_ok) in.fd = 55; return curl_ok; }
bool getCurlErrors() { return false; }
bool getCurlErrors(int) { return false; }
void srcml_consume(int, std::shared_ptr<ParseRequest>, WriteQueue*) {}
void ParserTest::report(srcml_archive*) {}
WriteQueue::WriteQueue(TraceLog& l, const srcml_output_dest& d, bool o) : log(l), destination(d), ordered(o), maxposition(0) {}
void WriteQueue::schedule(std::shared_ptr<ParseRequest>) {}
void WriteQueue::stop() {}
int apply_xpath(srcml_archive*, srcml_archive*, const std::string&, const std::pair<boost::optional<element>, boost::optional<attribute>>&, const std::map<std::string, std::string>&) { return 0; }
int apply_xslt(srcml_archive*, const std::string&) { return 0; }
int apply_relaxng(srcml_archive*, const std::string&) { return 0; }

// ---------------------------------------------------------------- reference model
static bool in(const str& s, std::initializer_list<const char*> l) { for (auto p : l) if (s == p) return true; return false; }
static bool m_arch(const str& e) { return in(e, {".7z", ".ar", ".cpio", ".iso", ".mtree", ".pax", ".shar", ".tar", ".taz", ".tb2", ".tbz", ".tbz2", ".tgz", ".tlz", ".txz", ".xar", ".zip"}); }
static bool m_comp(const str& e) { return in(e, {".bz2", ".gz", ".lz", ".lzma", ".taz", ".tb2", ".tbz", ".tbz2", ".tgz", ".tlz", ".txz", ".xz", ".z"}); }
struct Model { str protocol, resource, filename, plain, ext; VS comp, arch; int state; bool dir, exists, dirform; };
static Model model(const str& arg, const std::map<str, bool>& fs) {        // fs: what exists -> is it a directory
    Model m; size_t p = arg.find("://");
    m.filename = p != str::npos ? arg : arg == "-" || arg == "/dev/stdin" ? "stdin://-" : "file://" + arg;
    p = m.filename.find("://"); m.protocol = m.filename.substr(0, p); m.resource = m.filename.substr(p + 3);
    if (!in(m.protocol, {"file", "text", "filelist", "stdin"})) m.resource = m.resource.substr(0, m.resource.find('?'));
    auto f = fs.find(m.resource); m.exists = m.protocol == "file" && f != fs.end(); m.dir = m.exists && f->second;
    if (m.protocol == "file" && m.resource.find_first_not_of("./") == str::npos) { struct stat st; m.exists = stat(m.resource.c_str(), &st) == 0; m.dir = m.exists && S_ISDIR(st.st_mode); }
    m.dirform = !m.resource.empty() && m.resource.back() == '/';
    if (!m.dir && m.protocol != "text") {
        m.plain = m.resource;
        for (;;) {
            size_t slash = m.plain.rfind('/'), dot = m.plain.rfind('.');
            m.ext = dot == str::npos || (slash != str::npos && slash > dot) ? "" : m.plain.substr(dot);
            if (!m_arch(m.ext) && !m_comp(m.ext)) break;
            if (m_comp(m.ext)) m.comp.push_back(m.ext);
            if (m_arch(m.ext)) m.arch.push_back(m.ext);
            m.plain.resize(m.plain.size() - m.ext.size());
        }
    }
    m.state = m.protocol == "text" ? SRC : m.resource == "-" ? INDETERMINATE : m.ext == ".xml" || m.ext == ".srcml" ? SRCML : SRC;
    return m;
}
static str show(const VS& v) { str o; for (auto& s : v) o += s + " "; return o; }
static str show(const Model& m) { return m.filename + " protocol=" + m.protocol + " resource=" + m.resource + " plain=" + m.plain + " ext=" + m.ext + " compressions=" + show(m.comp) + " archives=" + show(m.arch) + " state=" + std::to_string(m.state) + " dir=" + std::to_string(m.dir) + " exists=" + std::to_string(m.exists) + " form=" + std::to_string(m.dirform); }
static Model seen(const srcml_input_src& i) { return Model{i.protocol, i.resource, i.filename, i.plainfile, i.extension.find('/') == str::npos ? i.extension : "", VS(i.compressions.begin(), i.compressions.end()), VS(i.archives.begin(), i.archives.end()), i.state, i.isdirectory, i.exists, i.isdirectoryform}; }
static str expected_calls(const Model& m, bool fetch_ok) {
    str fd = m.protocol == "stdin" ? " fd 0" : "", o; bool remote = in(m.protocol, {"http", "https", "ftp"});
    bool packed = !m.comp.empty() || !m.arch.empty();
    if (m.state == SRCML) {
        if (remote) { o += "fetch(" + m.filename + ") "; if (!fetch_ok) return o; fd = " fd 55"; }
        if (packed) { o += "unpack(" + m.filename + ") "; fd = " fd 77"; }
        return o + "srcml(" + m.filename + fd + ") ";
    }
    if (m.protocol == "text") return "text(" + m.filename + ") ";
    if (m.protocol == "filelist") return "filelist(" + m.resource + ") ";
    if (m.protocol == "file" && m.dir) return "directory(" + m.resource + ") ";
    if (m.protocol == "file" && !packed) return "file(" + m.filename + ") ";
    if (remote) { o += "fetch(" + m.filename + ") "; if (!fetch_ok) return o; fd = " fd 55"; }
    return o + "libarchive(" + m.filename + fd + ") ";
}
static std::map<str, bool> fs;
static void check_one(const str& arg, const srcml_input_src& i) {
    Model w = model(arg, fs), g = seen(i);
    MC_CHECK(show(w) == show(g), "argument taken for something else", "'" + mc::show(arg) + "' is " + show(g) + " expected " + show(w));
    MC_CHECK(bool(i.fd) == (w.protocol == "stdin") && (!i.fd || *i.fd == 0) && !i.fileptr, "wrong descriptor for an argument", mc::show(arg));
    MC_CHECK(!i.skip && i.unit == 0 && i.arch == nullptr, "an argument starts with foreign settings", mc::show(arg));
}
static void check_dispatch(const str& arg, const srcml_input_src& i, bool fetch) {
    calls.clear(); curl_ok = fetch;
    sml::Archive a(srcml_archive_create()); srcml_archive_enable_solitary_unit(a.get()); srcml_request_t rq; ParseQueue q(1, nullptr); srcml_output_dest out("stdout://-");
    auto* e = std::cerr.rdbuf(nullptr);
    int n = srcml_handler_dispatch(q, a.get(), rq, i, out);
    std::cerr.rdbuf(e);
    str want = expected_calls(model(arg, fs), fetch);
    MC_CHECK(calls == want, "an argument is handled as something else", "'" + mc::show(arg) + "': " + calls + " expected " + want);
    bool handled = want.find("srcml(") != str::npos || want.find("text(") != str::npos || want.find("file(") != str::npos || want.find("filelist(") != str::npos || want.find("directory(") != str::npos || want.find("libarchive(") != str::npos;
    MC_CHECK((n == 1) == handled, "wrong result", std::to_string(n) + " " + mc::show(arg));
    MC_CHECK((srcml_archive_is_solitary_unit(a.get()) == 0) == (want.compare(0, 9, "filelist(") == 0), "solitary setting changed", mc::show(arg));
}

void mc_setup() {
    bool th = mc::thorough();
    // a real directory with names that look like other things
    if (fs.empty()) {
        str d = mc::scratch() + "/fs"; mkdir(d.c_str(), 0755);
        for (auto n : {"src", "tar.gz", "a.xml", "q?d"}) { mkdir((d + "/" + n).c_str(), 0755); fs[d + "/" + n] = true; fs[d + "/" + n + "/"] = true; }
        for (auto n : {"a.cpp", "b?c.cpp", "x.tar.gz", "src/A.xml", "q?d/e.c"}) { FILE* f = fopen((d + "/" + n).c_str(), "w"); if (f) fclose(f); fs[d + "/" + n] = false; }
    }
    static str root = mc::scratch() + "/fs"; mkdir((root + "/src/none").c_str(), 0755); chdir((root + "/src/none").c_str());
    static const VS PROTO = {"", "file://", "text://", "filelist://", "stdin://", "http://", "https://", "ftp://", "://"};
    static const VS DIR = {"", "d/", "./", "../", "/x/", "d.tar/", "v1.2/e.gz/", "://", "q?r/"};
    static const VS BASE = {"a", "a.cpp", ".hidden", "-", "", "a.b.c", "a b\xC3\xA9", "a?x=1.tar", ".xml"};
    static const VS EXT = {".xml", ".srcml", ".tar", ".gz", ".tgz", ".zip", ".z", ".cpp", ".", ".xz", ".XML", ".7z", "/"};
    auto arg = [=](int most) { str s = mc::pick(PROTO) + mc::pick(DIR) + mc::pick(BASE); int n = mc::choose(most + 1); for (int i = 0; i < n; ++i) s += mc::pick(EXT); return s; };
    int L = th ? 4 : 3;
    mc::add("arguments", "9 protocols x 9 directories x 9 base names x all chains of up to " + std::to_string(L) + " of 13 suffixes: every part of what the argument is taken for, and the handler it is given to (fetch succeeding and failing)", 3, 30, [=] {
        str s = arg(L); mc::note(s);
        srcml_input_src i(s); check_one(s, i); check_dispatch(s, i, true); check_dispatch(s, i, false);
        mc::validated(); mc::state(show(seen(i)));
    });
    mc::add("every suffix", "every archive and compression suffix known to the model, alone and in pairs", 1, 30, [=] {
        static const VS ALL = {".7z", ".ar", ".cpio", ".iso", ".mtree", ".pax", ".shar", ".tar", ".taz", ".tb2", ".tbz", ".tbz2", ".tgz", ".tlz", ".txz", ".xar", ".zip", ".bz2", ".gz", ".lz", ".lzma", ".xz", ".z", ".rar", ".xml", ".srcml", ".c", ""};
        str s = "a.cpp" + mc::pick(ALL) + mc::pick(ALL); srcml_input_src i(s); check_one(s, i); check_dispatch(s, i, true); mc::validated(); mc::state(show(seen(i)));
    });
    mc::add("file system", "every name in a directory that holds files and directories with misleading names, with and without protocol and trailing slash", 1, 30, [=] {
        static const VS N = {"src", "src/", "tar.gz", "tar.gz/", "a.xml", "a.xml/", "q?d", "q?d/", "q?d/e.c", "a.cpp", "b?c.cpp", "x.tar.gz", "src/A.xml", "missing", "missing/", "missing.tar", "src/../a.xml/.", ""};
        str n = mc::pick(N), p = mc::pick(VS{"", "file://", "filelist://"}); if (n == "src/../a.xml/.") { fs[root + "/" + n] = true; } if (n.empty()) fs[root + "/"] = true;
        str s = p + root + "/" + n; srcml_input_src i(s); check_one(s, i); check_dispatch(s, i, true); mc::validated(); mc::state(show(seen(i)));
    });
    mc::add("one after another", "all sequences of up to 4 of 12 arguments: each is taken for the same as when alone; copied, assigned and with a given descriptor as well", 2, 30, [=] {
        static const VS A = {"a.cpp", "-", "/dev/stdin", "text://a.xml", "x.tar.gz", "http://h/a.xml?q", "filelist://l", "a.xml", "a.xml.gz", "stdin://-", "", "d/"};
        std::vector<srcml_input_src> v; VS s; int n = mc::choose(4) + 1; for (int i = 0; i < n; ++i) { s.push_back(mc::pick(A)); v.emplace_back(s.back()); }
        for (int i = 0; i < n; ++i) check_one(s[(size_t) i], v[(size_t) i]);
        srcml_input_src t("z.tar"); for (int i = 0; i < n; ++i) { t = s[(size_t) i]; check_one(s[(size_t) i], t); }
        srcml_input_src w(s[0], 9); MC_CHECK(w.fd && *w.fd == 9, "the given descriptor is not used", s[0]); w.fd = v[0].fd; check_one(s[0], w);
        // the tool's own helpers agree
        for (auto& a : s) { Model m = model(a, fs); MC_CHECK(src_prefix_resource(m.filename) == m.filename.substr(m.protocol.size() + 3) && src_prefix_protocol(m.filename) == m.protocol, "parts recovered from the argument differ", a); }
        mc::validated(); str k; for (auto& x : s) k += x + "|"; mc::state(k);
    });
}
MC_MAIN
