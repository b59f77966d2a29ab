// P26 - the one-call conversion against the archive interface
//
// Every combination of input, output, program-wide language and settings of a set is converted by srcml() in a process
// of its own, and by the corresponding archive and unit calls; the files made, success and the message are compared.
#include "mc.hpp"
#include "sml.hpp"
#include <fcntl.h>
#include <functional>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
typedef std::string str; typedef std::vector<str> VS;

static str dir;
static void put(const str& n, const str& s) { FILE* f = fopen((dir + "/" + n).c_str(), "w"); if (!f || fwrite(s.data(), 1, s.size(), f) != s.size()) _exit(98); fclose(f); }
static str get(const str& p) { FILE* f = fopen(p.c_str(), "r"); if (!f) return "(none)"; str s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f))) s.append(b, n); fclose(f); return s; }
static const char* NS = "xmlns=\"http://www.srcML.org/srcML/src\"";
enum { SOURCE, XML, NEITHER };
struct Input { const char* name; int kind; str text; bool make; };
static std::vector<Input> inputs() {
    str u = str("<unit ") + NS;
    str solo = u + " revision=\"1.0.0\" language=\"C++\" filename=\"x.cpp\"><name>a\xC3\xA9</name>\n\tb\n</unit>\n";
    return {
        {"a.cpp", SOURCE, "int a;\n\tb(\"\xC3\xA9\");\n", true}, {"b.java", SOURCE, "class A { }\n", true}, {"c.c", SOURCE, "#if A\nint class;\n#endif\n", true}, {"d.C", SOURCE, "", true},
        {"f.zz", SOURCE, "int a;\n", true}, {"missing.cpp", SOURCE, "", false}, {"dir.cpp", SOURCE, "", false}, {"latin.cpp", SOURCE, "\xE9;\n", true},
        {"g.txt", NEITHER, "int a;\n", true}, {"plain", NEITHER, solo, true}, {"srcml", NEITHER, solo, true}, {"xml", NEITHER, solo, true}, {".xml", XML, solo, true},
        {"doc.xml", XML, solo, true}, {"doc.srcML", XML, solo, true}, {"s.srcml", XML, solo, true}, {"doc.XML", XML, solo, true},
        {"archive.xml", XML, u + ">\n\n<unit language=\"C\" filename=\"1.c\">one</unit>\n\n<unit language=\"C\" filename=\"2.c\">two</unit>\n</unit>\n", true},
        {"diff.xml", XML, u + " xmlns:diff=\"http://www.srcML.org/srcDiff\" filename=\"1|2\">a<diff:delete>b</diff:delete><diff:insert>c</diff:insert>\n</unit>\n", true},
        {"cut.xml", XML, u + ">\n\n<unit language=\"C\" filename=\"1.c\">on", true}, {"not.xml", XML, "<html><b>x</b></html>", true}, {"text.xml", XML, "int a;", true}, {"empty.xml", XML, "", true},
        {"missing.xml", XML, "", false}, {"dir.xml", XML, "", false}, {"none.xml", XML, u + "/>", true},
    };
}
// settings, program-wide and of an archive and a unit
struct Setting { const char* name; std::function<int()> global; std::function<int(srcml_archive*)> archive; };
static str unit_file, unit_time; static size_t unit_eol = SOURCE_OUTPUT_EOL_AUTO; static bool has_file, has_time;
static const std::vector<Setting>& settings() {
    static const std::vector<Setting> s = {
        {"no setting", [] { return 0; }, [](srcml_archive*) { return 0; }},
        {"source encoding UTF-8", [] { return srcml_set_src_encoding("UTF-8"); }, [](srcml_archive* a) { return srcml_archive_set_src_encoding(a, "UTF-8"); }},
        {"source encoding ISO-8859-1", [] { return srcml_set_src_encoding("ISO-8859-1"); }, [](srcml_archive* a) { return srcml_archive_set_src_encoding(a, "ISO-8859-1"); }},
        {"source encoding unknown", [] { return srcml_set_src_encoding("no-such"); }, [](srcml_archive* a) { return srcml_archive_set_src_encoding(a, "no-such"); }},
        {"XML encoding UTF-16", [] { return srcml_set_xml_encoding("UTF-16"); }, [](srcml_archive* a) { return srcml_archive_set_xml_encoding(a, "UTF-16"); }},
        {"XML encoding unknown", [] { return srcml_set_xml_encoding("no-such"); }, [](srcml_archive* a) { return srcml_archive_set_xml_encoding(a, "no-such"); }},
        {"filename", [] { return srcml_set_filename("my<.java"); }, [](srcml_archive*) { unit_file = "my<.java"; has_file = true; return 0; }},
        {"url", [] { return srcml_set_url("http://x"); }, [](srcml_archive* a) { return srcml_archive_set_url(a, "http://x"); }},
        {"version", [] { return srcml_set_version("v1"); }, [](srcml_archive* a) { return srcml_archive_set_version(a, "v1"); }},
        {"timestamp", [] { return srcml_set_timestamp("today"); }, [](srcml_archive*) { unit_time = "today"; has_time = true; return 0; }},
        {"position", [] { return srcml_enable_option(SRCML_OPTION_POSITION); }, [](srcml_archive* a) { return srcml_archive_enable_option(a, SRCML_OPTION_POSITION); }},
        {"options", [] { return srcml_set_options(SRCML_OPTION_CPP | SRCML_OPTION_CPP_TEXT_ELSE); }, [](srcml_archive* a) { return srcml_archive_set_options(a, SRCML_OPTION_CPP | SRCML_OPTION_CPP_TEXT_ELSE); }},
        {"tabs", [] { return srcml_set_tabstop(3); }, [](srcml_archive* a) { return srcml_archive_set_tabstop(a, 3); }},
        {"namespace", [] { return srcml_register_namespace("my", "urn:my"); }, [](srcml_archive* a) { return srcml_archive_register_namespace(a, "my", "urn:my"); }},
        {"srcML prefix", [] { return srcml_register_namespace("s", "http://www.srcML.org/srcML/src"); }, [](srcml_archive* a) { return srcml_archive_register_namespace(a, "s", "http://www.srcML.org/srcML/src"); }},
        {"instruction", [] { return srcml_set_processing_instruction("t", "d"); }, [](srcml_archive* a) { return srcml_archive_set_processing_instruction(a, "t", "d"); }},
        {"line ends CRLF", [] { return srcml_set_eol(SOURCE_OUTPUT_EOL_CRLF); }, [](srcml_archive*) { unit_eol = SOURCE_OUTPUT_EOL_CRLF; return 0; }},
        {"modified revision", [] { return srcml_set_srcdiff_revision(1); }, [](srcml_archive* a) { return srcml_archive_set_srcdiff_revision(a, 1); }},
        {"extension", [] { return srcml_register_file_extension("zz", "Java"); }, [](srcml_archive* a) { return srcml_archive_register_file_extension(a, "zz", "Java"); }},
        {"extension txt", [] { return srcml_register_file_extension("txt", "C"); }, [](srcml_archive* a) { return srcml_archive_register_file_extension(a, "txt", "C"); }},
    };
    return s;
}
static const char* LANG[] = {nullptr, "C++", "Java", "xml", "C"};

// the same by archive and unit calls: whether it succeeds
static bool by_archive(const Input& in, int kind, const str& input, const str& output, const char* lang, const std::vector<int>& set) {
    unit_file.clear(); unit_time.clear(); has_file = has_time = false; unit_eol = SOURCE_OUTPUT_EOL_AUTO;
    if (kind == NEITHER) return false;
    sml::Archive a(srcml_archive_create());
    if (lang) srcml_archive_set_language(a.get(), lang);
    for (int s : set) settings()[(size_t) s].archive(a.get());
    (void) in;
    if (kind == SOURCE) {
        srcml_archive_enable_solitary_unit(a.get());
        if (srcml_archive_write_open_filename(a.get(), output.c_str())) return false;
        sml::Unit u(srcml_unit_create(a.get()));
        if (lang) srcml_unit_set_language(u.get(), lang);
        srcml_unit_set_filename(u.get(), has_file ? unit_file.c_str() : input.c_str());
        if (srcml_archive_get_version(a.get())) srcml_unit_set_version(u.get(), srcml_archive_get_version(a.get()));
        if (has_time) srcml_unit_set_timestamp(u.get(), unit_time.c_str());
        if (srcml_unit_parse_filename(u.get(), input.c_str())) return false;
        if (srcml_archive_write_unit(a.get(), u.get())) return false;
        return srcml_archive_close(a.get()) == SRCML_STATUS_OK;
    }
    if (srcml_archive_read_open_filename(a.get(), input.c_str())) return false;
    sml::Unit u(srcml_archive_read_unit(a.get()));
    if (!u) return false;
    srcml_unit_set_eol(u.get(), unit_eol);
    return srcml_unit_unparse_filename(u.get(), output.c_str()) == SRCML_STATUS_OK;
}

static void judge(const Input& in, int out, const char* lang, const std::vector<int>& set, int calls) {
    // .xml, .srcml and the program-wide language xml are srcML, extensions with a language are source code
    int kind = in.kind;
    bool ext = false;
    for (int s : set) { if (str(settings()[(size_t) s].name) == "extension") ext = true; if (str(settings()[(size_t) s].name) == "extension txt" && str(in.name) == "g.txt") kind = SOURCE; }
    if (str(in.name) == "f.zz" && !ext) kind = NEITHER;
    if (kind == NEITHER && lang && str(lang) == "xml") kind = XML;
    str input = dir + "/" + in.name;
    const str me = std::to_string(getpid());
    const str outs[] = {dir + "/o" + me, dir + "/none/o" + me, "/dev/full"};
    str o1 = outs[out], o2 = out == 0 ? o1 + "b" : o1;
    str what = str(in.name) + " to " + (out == 0 ? "a file" : out == 1 ? "a missing directory" : "a full device") + ", language " + (lang ? lang : "not set");
    for (int s : set) if (s) what += str(", ") + settings()[(size_t) s].name;
    if (calls > 1) what += ", converted twice";
    mc::note(what);
    unlink(o2.c_str()); if (out == 0) { unlink(o1.c_str()); }
    // in a process of its own
    int p[2];
    if (pipe(p)) _exit(98);
    pid_t c = fork();
    if (!c) {
        close(p[0]);
        if (lang) srcml_set_language(lang);
        for (int s : set) settings()[(size_t) s].global();
        int rc = 0;
        str before = sml::s(srcml_error_string());
        for (int i = 0; i < calls; ++i) rc = srcml(input.c_str(), o1.c_str());
        str m = std::to_string(rc) + "\n" + sml::s(srcml_error_string());
        (void) before;
        if (write(p[1], m.data(), m.size()) < 0) _exit(98);
        _exit(0);
    }
    close(p[1]);
    str m; char b[512]; ssize_t n;
    while ((n = read(p[0], b, sizeof b)) > 0) m.append(b, (size_t) n);
    close(p[0]);
    int st = 0; waitpid(c, &st, 0);
    MC_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0 && !m.empty(), "crash", "srcml() ended its process with " + std::to_string(st) + ": " + what);
    int rc = atoi(m.c_str()); str message = m.substr(m.find('\n') + 1);
    str got = out == 0 ? get(o1) : "";
    bool ok = by_archive(in, kind, input, o2, lang, set);
    str exp = out == 0 ? get(o2) : "";
    unlink(o2.c_str()); if (out == 0) unlink(o1.c_str());
    mc::state(what + got + m);
    mc::validated();
    MC_CHECK((rc == SRCML_STATUS_OK) == ok, ok ? "fails" : "failure not reported", "srcml() gives " + std::to_string(rc) + " (" + message + ") where the archive interface " + (ok ? "succeeds" : "fails") + ": " + what);
    if (!ok) { MC_CHECK(!message.empty(), "no message", "srcml() gives " + std::to_string(rc) + " without a message: " + what); return; }
    MC_CHECK(got == exp, "other result", mc::diff(got, exp) + ": " + what);
}

void mc_setup() {
    bool th = mc::thorough();
    int nul = open("/dev/null", O_WRONLY); dup2(nul, 2);
    static std::vector<Input> in = inputs();
    static auto prepare = [] {
        if (!dir.empty()) return;
        dir = mc::scratch() + "/c" + std::to_string(getpid());
        mkdir(dir.c_str(), 0700);
        for (auto& i : in) if (i.make) put(i.name, i.text); else if (str(i.name).compare(0, 3, "dir") == 0) mkdir((dir + "/" + i.name).c_str(), 0700);
    };
    int n = (int) settings().size();
    mc::add("conversions", std::to_string(in.size()) + " inputs x three outputs x five languages x every pair of " + std::to_string(n) + " settings", 3, 60, [=] {
        prepare();
        auto& i = in[(size_t) mc::choose((int) in.size())];
        int lang = mc::choose(5), out = mc::choose(3);
        int a = mc::choose(n), b = out ? 0 : mc::choose(n);
        if (a < b) mc::prune();
        if (!th && b && lang > 2) mc::prune();
        judge(i, out, LANG[lang], {a, b}, 1);
    });
    if (th) mc::add("three settings", "inputs x two languages x every three settings", 3, 60, [=] {
        prepare();
        auto& i = in[(size_t) mc::choose((int) in.size())];
        int lang = mc::choose(2), a = mc::choose(n), b = mc::choose(n), c = mc::choose(n);
        if (!(a < b && b < c)) mc::prune();
        judge(i, 0, LANG[lang], {a, b, c}, 1);
    });
    mc::add("twice", "inputs x outputs x languages x settings, converted twice", 2, 60, [=] {
        prepare();
        auto& i = in[(size_t) mc::choose((int) in.size())];
        int lang = mc::choose(5), out = mc::choose(3), a = mc::choose(n);
        judge(i, out, LANG[lang], {a}, 2);
    });
    mc::add("null", "null arguments", 1, 60, [=] {
        prepare();
        int w = mc::choose(3);
        int rc = srcml(w & 1 ? nullptr : (dir + "/a.cpp").c_str(), w != 1 ? nullptr : (dir + "/o").c_str());
        if (w == 0) rc = srcml((dir + "/a.cpp").c_str(), nullptr);
        MC_CHECK(rc != SRCML_STATUS_OK && *srcml_error_string(), "null argument", "srcml() gives " + std::to_string(rc));
    });
}
MC_MAIN
