// P08 - archives in use at the same time do not affect each other
//
// The steps of scripts that use archives of their own (reading, writing, parsing, building by element, transforming,
// configuring, failing, the program-wide archive) are run in every interleaving, in one thread or in a thread for each
// script, and from the callbacks of each other. Every step has to return what it returns when its script runs alone in
// a process.
#include "mc.hpp"
#include "obs.hpp"
#include <condition_variable>
#include <fcntl.h>
#include <functional>
#include <mutex>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
typedef std::string str; typedef std::vector<str> VS;
typedef std::function<str()> Step;
struct Script { const char* name; bool global; std::function<std::vector<Step>()> make; };
#define NS "xmlns=\"http://www.srcML.org/srcML/src\""
// from left to right
static str operator<<(str a, const str& b) { a += b; return a; }
static str n(long i) { return std::to_string(i); }
static str path(const str& s) { return mc::scratch() + "/" + n(getpid()) + s; }
static void put(const str& p, const str& s) { FILE* f = fopen(p.c_str(), "w"); if (!f || fwrite(s.data(), 1, s.size(), f) != s.size()) _exit(98); fclose(f); }
static str get(const str& p) { FILE* f = fopen(p.c_str(), "r"); if (!f) return "(none)"; str s; char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, f))) s.append(b, k); fclose(f); return s; }

static const char ARCH[] = "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n<s:unit xmlns:s=\"http://www.srcML.org/srcML/src\" xmlns:cpp=\"http://www.srcML.org/srcML/cpp\" revision=\"1.0.0\" url=\"u&lt;\" my=\"mine\"><s:macro-list token=\"T\" type=\"src:macro\"/>\n\n"
    "<s:unit language=\"Java\" filename=\"1.java\" hash=\"h1\"><s:name>on\xC3\xA9</s:name> &amp; <s:escape char=\"0x3\"/></s:unit>\n\n<s:unit language=\"C\" filename=\"2.c\"><cpp:if>#<cpp:directive>if</cpp:directive></cpp:if></s:unit>\n\n<s:unit xmlns:x=\"urn:x\" language=\"C++\" version=\"3\"><x:y a=\"b\">three</x:y>\n</s:unit>\n</s:unit>\n";
static const char SOLO[] = "<unit " NS " xmlns:diff=\"http://www.srcML.org/srcDiff\" revision=\"0.9.5\" language=\"C++\" filename=\"a|b\">same<diff:delete>old</diff:delete><diff:insert>new</diff:insert>\n</unit>\n";
static const char BAD[] = "<unit " NS ">\n\n<unit language=\"C\" filename=\"1.c\">one</unit>\n\n<unit language=\"C\">tw</x></unit>";
static const char XSLT[] = "<xsl:stylesheet xmlns:xsl=\"http://www.w3.org/1999/XSL/Transform\" xmlns:src=\"http://www.srcML.org/srcML/src\" version=\"1.0\"><xsl:param name=\"p\" select=\"'none'\"/><xsl:template match=\"@*|node()\"><xsl:copy><xsl:apply-templates select=\"@*|node()\"/></xsl:copy></xsl:template><xsl:template match=\"src:name\"><src:was><xsl:value-of select=\"$p\"/></src:was></xsl:template></xsl:stylesheet>";
static const char RNG[] = "<grammar xmlns=\"http://relaxng.org/ns/structure/1.0\" datatypeLibrary=\"http://www.w3.org/2001/XMLSchema-datatypes\"><start><ref name=\"any\"/></start><define name=\"any\"><element><anyName/><zeroOrMore><choice><attribute><anyName/></attribute><text/><ref name=\"any\"/></choice></zeroOrMore></element></define></grammar>";

static const char XSLT2[] = "<xsl:stylesheet xmlns:xsl=\"http://www.w3.org/1999/XSL/Transform\" xmlns:src=\"http://www.srcML.org/srcML/src\" version=\"1.0\"><xsl:param name=\"p\" select=\"'unset'\"/><xsl:param name=\"q\"/><xsl:template match=\"/\"><src:unit of=\"{name(*)}\"><src:name><xsl:value-of select=\"concat($p, $q)\"/></src:name><xsl:copy-of select=\"//src:name\"/></src:unit></xsl:template></xsl:stylesheet>";
// nothing but text and src:name in a unit
static const char RNG2[] = "<grammar xmlns=\"http://relaxng.org/ns/structure/1.0\" ns=\"http://www.srcML.org/srcML/src\"><start><element name=\"unit\"><zeroOrMore><choice><attribute><anyName/></attribute><text/><element name=\"escape\"><attribute><anyName/></attribute></element></choice></zeroOrMore></element></start></grammar>";

// what other scripts do inside the callbacks of this one
static thread_local std::function<void()>* inside = nullptr;
static void poke() { if (inside) (*inside)(); }

struct A {        // an archive of a script and all that belongs to it
    srcml_archive* a = nullptr; srcml_unit* u = nullptr; srcml_transform_result* r = nullptr; char* p = nullptr; size_t n = 0; str out, in; size_t at = 0;
    srcml_archive* b = nullptr; char* bp = nullptr; size_t bn = 0;
    ~A() { if (r) srcml_transform_free(r); if (u) srcml_unit_free(u); if (b) { srcml_archive_close(b); srcml_archive_free(b); } if (a) { srcml_archive_close(a); srcml_archive_free(a); } srcml_memory_free(p); srcml_memory_free(bp); }
};
typedef std::shared_ptr<A> PA;
static int wr(void* c, const char* b, int k) { ((A*) c)->out.append(b, (size_t) k); poke(); return k; }
static int cl(void*) { poke(); return 0; }
static int rd(void* c, char* b, int k) { A* a = (A*) c; size_t m = std::min((size_t) k, std::min((size_t) 100, a->in.size() - a->at)); memcpy(b, a->in.data() + a->at, m); a->at += m; return (int) m; }
static ssize_t src(void* c, void* b, size_t k) { poke(); A* a = (A*) c; size_t m = std::min(k, std::min((size_t) 7, a->in.size() - a->at)); memcpy(b, a->in.data() + a->at, m); a->at += m; return (ssize_t) m; }
static str outof(srcml_unit* u) { sml::Out o; o.rc = srcml_unit_unparse_memory(u, &o.p, &o.n); return n(o.rc) + mc::show(o.str(), 4000); }
static str read(A& a) { if (a.u) srcml_unit_free(a.u); a.u = srcml_archive_read_unit(a.a); return a.u ? sml::obs_unit(a.u, false) : "no unit"; }
static str written(A& a) { if (a.u) { srcml_unit_free(a.u); a.u = nullptr; } int rc = srcml_archive_close(a.a); return n(rc) + (a.p ? str(a.p, a.n) : a.out); }
static str results(A& a) { str o; for (int i = 0; a.r && i < srcml_transform_get_unit_size(a.r); ++i) o += "\n" + sml::obs_unit(srcml_transform_get_unit(a.r, i), false); return o; }

static const std::vector<Script>& scripts() {
    static const std::vector<Script> s = {
        {"writer of C++ with positions", false, [] { auto a = std::make_shared<A>(); return std::vector<Step>{
            [=] { a->a = srcml_archive_create(); srcml_archive_enable_option(a->a, SRCML_OPTION_POSITION | SRCML_OPTION_CPP_MARKUP_IF0); srcml_archive_set_tabstop(a->a, 4); srcml_archive_set_url(a->a, "here"); return n(srcml_archive_write_open_memory(a->a, &a->p, &a->n)); },
            [=] { a->u = srcml_unit_create(a->a); srcml_unit_set_language(a->u, "C++"); srcml_unit_set_filename(a->u, "x.cpp"); return sml::obs_unit(a->u); },
            [=] { const char t[] = "#if 0\nint\ta;\n#endif\nclass B { \xC3\xA9 @ x; };\n"; int rc = srcml_unit_parse_memory(a->u, t, sizeof t - 1); return n(rc) << sml::obs_unit(a->u); },
            [=] { return n(srcml_archive_write_unit(a->a, a->u)); },
            [=] { return sml::obs_archive(a->a) << written(*a); } }; }},
        {"writer of Java and C", false, [] { auto a = std::make_shared<A>(); return std::vector<Step>{
            [=] { a->a = srcml_archive_create(); srcml_archive_register_namespace(a->a, "j", "http://www.srcML.org/srcML/src"); srcml_archive_set_xml_encoding(a->a, "ISO-8859-1"); srcml_archive_set_language(a->a, "Java"); return n(srcml_archive_write_open_io(a->a, a.get(), wr, cl)); },
            [=] { a->u = srcml_unit_create(a->a); srcml_unit_set_language(a->u, "Java"); a->in = "package p; class A { @B int \xC3\xA9 = 1 >>> 2; }\n"; int rc = srcml_unit_parse_io(a->u, a.get(), src, cl); return n(rc) << sml::obs_unit(a->u); },
            [=] { return n(srcml_archive_write_unit(a->a, a->u)) << outof(a->u); },
            [=] { srcml_unit_free(a->u); a->u = srcml_unit_create(a->a); srcml_unit_set_language(a->u, "C"); srcml_unit_set_src_encoding(a->u, "ISO-8859-1"); int rc = srcml_unit_parse_memory(a->u, "int class = \xE9; /* x", 19); return n(rc) << n(srcml_archive_write_unit(a->a, a->u)) << sml::obs_unit(a->u); },
            [=] { return sml::obs_archive(a->a) << written(*a); } }; }},
        {"builder", false, [] { auto a = std::make_shared<A>(); return std::vector<Step>{
            [=] { a->a = srcml_archive_create(); srcml_archive_register_namespace(a->a, "m", "urn:m"); int rc = srcml_archive_write_open_memory(a->a, &a->p, &a->n); a->u = srcml_unit_create(a->a); srcml_unit_set_language(a->u, "C"); return n(rc); },
            [=] { return n(srcml_write_start_unit(a->u)) << n(srcml_write_start_element(a->u, nullptr, "name", nullptr)); },
            [=] { return n(srcml_write_attribute(a->u, "m", "k", "urn:m", "<&\"")) << n(srcml_write_string(a->u, "t\x03&")) << n(srcml_write_start_element(a->u, "m", "e", "urn:m")); },
            [=] { return n(srcml_write_end_element(a->u)) << n(srcml_write_end_element(a->u)) << n(srcml_write_end_unit(a->u)) << sml::obs_unit(a->u) << outof(a->u); },
            [=] { return n(srcml_archive_write_unit(a->a, a->u)) << written(*a); } }; }},
        {"open unit of an archive", false, [] { auto a = std::make_shared<A>(); return std::vector<Step>{
            [=] { a->a = srcml_archive_create(); srcml_archive_set_version(a->a, "9"); return n(srcml_archive_write_open_io(a->a, a.get(), wr, cl)); },
            [=] { a->u = srcml_unit_create(a->a); srcml_unit_set_language(a->u, "C++"); srcml_unit_set_filename(a->u, "w"); return n(srcml_write_start_unit(a->u)) << n(srcml_write_start_element(a->u, nullptr, "b", nullptr)); },
            [=] { return n(srcml_write_string(a->u, "long <text>")); },
            [=] { return n(srcml_write_end_element(a->u)) << n(srcml_write_end_unit(a->u)) << n(srcml_archive_write_unit(a->a, a->u)); },
            [=] { return written(*a); } }; }},
        {"reader of an archive", false, [] { auto a = std::make_shared<A>(); return std::vector<Step>{
            [=] { a->a = srcml_archive_create(); return n(srcml_archive_read_open_memory(a->a, ARCH, sizeof ARCH - 1)) << sml::obs_archive(a->a); },
            [=] { return read(*a); },
            [=] { return outof(a->u) << n(srcml_archive_skip_unit(a->a)); },
            [=] { return read(*a) << read(*a); },
            [=] { int rc = srcml_archive_close(a->a); return n(rc) << sml::obs_archive(a->a); } }; }},
        {"reader through callbacks", false, [] { auto a = std::make_shared<A>(); return std::vector<Step>{
            [=] { a->a = srcml_archive_create(); a->in = ARCH; return n(srcml_archive_read_open_io(a->a, a.get(), rd, [](void*) { return 0; })); },
            [=] { return read(*a); },
            [=] { return read(*a); },
            [=] { return outof(a->u) << read(*a); },
            [=] { return n(srcml_archive_close(a->a)); } }; }},
        {"reader of a difference document", false, [] { auto a = std::make_shared<A>(); return std::vector<Step>{
            [=] { a->a = srcml_archive_create(); srcml_archive_set_srcdiff_revision(a->a, 1); return n(srcml_archive_read_open_memory(a->a, SOLO, sizeof SOLO - 1)); },
            [=] { return sml::obs_archive(a->a) << read(*a); },
            [=] { return outof(a->u) << sml::obs_unit(a->u, false); },
            [=] { return read(*a) << n(srcml_archive_close(a->a)); } }; }},
        {"reader of a damaged archive", false, [] { auto a = std::make_shared<A>(); return std::vector<Step>{
            [=] { a->a = srcml_archive_create(); return n(srcml_archive_read_open_memory(a->a, BAD, sizeof BAD - 1)); },
            [=] { return read(*a); },
            [=] { return read(*a); },
            [=] { int rc = srcml_archive_close(a->a); return n(rc) << sml::s(srcml_archive_error_string(a->a)) << n(srcml_archive_error_number(a->a)); } }; }},
        {"copier", false, [] { auto a = std::make_shared<A>(); return std::vector<Step>{
            [=] { a->a = srcml_archive_create(); int rc = srcml_archive_read_open_memory(a->a, ARCH, sizeof ARCH - 1); a->b = srcml_archive_clone(a->a); return n(rc) << sml::obs_archive(a->b); },
            [=] { int rc = srcml_archive_write_open_memory(a->b, &a->bp, &a->bn); return n(rc) << read(*a); },
            [=] { return n(srcml_archive_write_unit(a->b, a->u)) << read(*a); },
            [=] { return n(srcml_archive_write_unit(a->b, a->u)) << outof(a->u); },
            [=] { int rc = srcml_archive_close(a->b); return n(rc) << str(a->bp ? a->bp : "", a->bn) << read(*a); } }; }},
        {"XPath", false, [] { auto a = std::make_shared<A>(); return std::vector<Step>{
            [=] { a->a = srcml_archive_create(); srcml_archive_register_namespace(a->a, "m", "urn:m"); return n(srcml_archive_read_open_memory(a->a, ARCH, sizeof ARCH - 1)) << read(*a); },
            [=] { return n(srcml_append_transform_xpath_attribute(a->a, "//src:name", "m", "urn:m", "k", "v")) << n(srcml_append_transform_xpath(a->a, "//src:name")); },
            [=] { int rc = srcml_unit_apply_transforms(a->a, a->u, &a->r); return n(rc) << n(srcml_transform_get_type(a->r)); },
            [=] { return results(*a) << sml::obs_unit(a->u, false); } }; }},
        {"XPath that is wrong", false, [] { auto a = std::make_shared<A>(); return std::vector<Step>{
            [=] { a->a = srcml_archive_create(); return n(srcml_archive_read_open_memory(a->a, ARCH, sizeof ARCH - 1)) << read(*a); },
            [=] { return n(srcml_append_transform_xpath(a->a, "//src:name[")) << n(srcml_append_transform_xpath(a->a, "//none:name")); },
            [=] { int rc = srcml_unit_apply_transforms(a->a, a->u, &a->r); return n(rc); },
            [=] { return read(*a); } }; }},
        {"XSLT", false, [] { auto a = std::make_shared<A>(); return std::vector<Step>{
            [=] { a->a = srcml_archive_create(); return n(srcml_archive_read_open_memory(a->a, ARCH, sizeof ARCH - 1)) << read(*a); },
            [=] { return n(srcml_append_transform_xslt_memory(a->a, XSLT, sizeof XSLT - 1)) << n(srcml_append_transform_stringparam(a->a, "p", "it's")); },
            [=] { int rc = srcml_unit_apply_transforms(a->a, a->u, &a->r); return n(rc) << results(*a); },
            [=] { return n(srcml_clear_transforms(a->a)) << read(*a); } }; }},
        {"RelaxNG", false, [] { auto a = std::make_shared<A>(); return std::vector<Step>{
            [=] { a->a = srcml_archive_create(); return n(srcml_append_transform_relaxng_memory(a->a, RNG, sizeof RNG - 1)) << n(srcml_archive_read_open_memory(a->a, ARCH, sizeof ARCH - 1)) << read(*a); },
            [=] { int rc = srcml_unit_apply_transforms(a->a, a->u, &a->r); return n(rc) << results(*a); },
            [=] { return n(srcml_append_transform_relaxng_memory(a->a, "<no", 3)) << read(*a); } }; }},
        {"RelaxNG that rejects", false, [] { auto a = std::make_shared<A>(); return std::vector<Step>{
            [=] { a->a = srcml_archive_create(); return n(srcml_append_transform_relaxng_memory(a->a, RNG2, sizeof RNG2 - 1)) << n(srcml_archive_read_open_memory(a->a, ARCH, sizeof ARCH - 1)) << read(*a); },
            [=] { int rc = srcml_unit_apply_transforms(a->a, a->u, &a->r); return n(rc) << n(a->r ? srcml_transform_get_unit_size(a->r) : -1) << results(*a); },
            [=] { if (a->r) { srcml_transform_free(a->r); a->r = nullptr; } str o = read(*a) << read(*a); int rc = srcml_unit_apply_transforms(a->a, a->u, &a->r); return o << n(rc) << n(a->r ? srcml_transform_get_unit_size(a->r) : -1) << results(*a); } }; }},
        {"another XSLT", false, [] { auto a = std::make_shared<A>(); return std::vector<Step>{
            [=] { a->a = srcml_archive_create(); return n(srcml_archive_read_open_memory(a->a, ARCH, sizeof ARCH - 1)) << n(srcml_append_transform_xslt_memory(a->a, XSLT2, sizeof XSLT2 - 1)); },
            [=] { return read(*a) << n(srcml_append_transform_stringparam(a->a, "q", "other")); },
            [=] { int rc = srcml_unit_apply_transforms(a->a, a->u, &a->r); return n(rc) << results(*a); } }; }},
        {"holder of strings", false, [] { auto a = std::make_shared<A>(); auto k = std::make_shared<std::vector<const char*>>(); auto see = [k] { str o; for (auto p : *k) o += "|" + sml::s(p); return o; }; return std::vector<Step>{
            [=] { a->a = srcml_archive_create(); srcml_archive_set_version(a->a, "held"); srcml_archive_register_namespace(a->a, "h", "urn:h"); int rc = srcml_archive_read_open_memory(a->a, ARCH, sizeof ARCH - 1); *k = {srcml_archive_get_url(a->a), srcml_archive_get_version(a->a), srcml_archive_get_xml_encoding(a->a), srcml_archive_get_prefix_from_uri(a->a, "urn:h"), srcml_archive_get_namespace_uri(a->a, 0)}; return n(rc) << see(); },
            [=] { str o = see(); o += read(*a); *k = {srcml_unit_get_filename(a->u), srcml_unit_get_language(a->u), srcml_unit_get_hash(a->u), srcml_unit_get_srcml_inner(a->u)}; return o << see(); },
            [=] { str o = see(); k->back() = srcml_unit_get_srcml_outer(a->u); return o << see(); },
            [=] { str o = see(); k->back() = srcml_unit_get_srcml(a->u); return o << see(); },
            [=] { return see(); } }; }},
        {"settings", false, [] { auto a = std::make_shared<A>(); return std::vector<Step>{
            [=] { a->a = srcml_archive_create(); return sml::obs_archive(a->a) << sml::s(srcml_archive_check_extension(a->a, "a.zz")) << sml::s(srcml_archive_check_extension(a->a, "a.cpp")); },
            [=] { return n(srcml_archive_register_file_extension(a->a, "zz", "Java")) << n(srcml_archive_register_file_extension(a->a, "cpp", "C")) << n(srcml_archive_register_namespace(a->a, "zz", "urn:zz")); },
            [=] { return n(srcml_archive_set_options(a->a, SRCML_OPTION_POSITION)) << n(srcml_archive_set_tabstop(a->a, 3)) << n(srcml_archive_set_processing_instruction(a->a, "t", "d")) << n(srcml_archive_set_language(a->a, "C#")) << n(srcml_archive_set_src_encoding(a->a, "UTF-16")); },
            [=] { return sml::obs_archive(a->a) << sml::s(srcml_archive_check_extension(a->a, "a.zz")) << sml::s(srcml_archive_check_extension(a->a, "a.cpp")); } }; }},
        {"failing opens", false, [] { auto a = std::make_shared<A>(); return std::vector<Step>{
            [=] { a->a = srcml_archive_create(); srcml_archive_set_xml_encoding(a->a, "no-such"); return n(srcml_archive_write_open_memory(a->a, &a->p, &a->n)); },
            [=] { return n(srcml_archive_read_open_memory(a->a, "<x", 2)) << n(srcml_archive_read_open_filename(a->a, "/none/x")); },
            [=] { a->u = srcml_unit_create(a->a); srcml_unit_set_language(a->u, "C"); srcml_unit_set_src_encoding(a->u, "UTF-8"); return n(srcml_unit_parse_memory(a->u, "a\xff", 2)) << sml::obs_unit(a->u); },
            [=] { return n(srcml_unit_parse_memory(a->u, "a;", 2)) << sml::obs_unit(a->u); } }; }},
        {"program-wide archive", true, [] { auto a = std::make_shared<A>(); return std::vector<Step>{
            [=] { put(path(".g.java"), "class A { }\n"); return n(srcml_set_url("global")) << n(srcml_set_options(SRCML_OPTION_POSITION)) << n(srcml_set_tabstop(5)) << n(srcml_set_version("gv")); },
            [=] { return n(srcml_register_namespace("g", "urn:g")) << n(srcml_register_file_extension("qq", "C")) << sml::s(srcml_check_extension("a.qq")); },
            [=] { str o = path(".g.xml"); unlink(o.c_str()); int rc = srcml(path(".g.java").c_str(), o.c_str()); str d = get(o); size_t k; while ((k = d.find(mc::scratch() + "/" + n(getpid()))) != str::npos) d.erase(k, (mc::scratch() + "/" + n(getpid())).size()); return n(rc) << d; },
            [=] { str o = path(".g.out"); unlink(o.c_str()); int rc = srcml(path(".g.xml").c_str(), o.c_str()); return n(rc) << get(o) << n(srcml("/none/x.xml", o.c_str())) << sml::s(srcml_error_string()); },
            [=] { return sml::s(srcml_get_url()) << n(srcml_get_options()) << n((long) srcml_get_tabstop()) << sml::s(srcml_get_version()) << sml::s(srcml_get_prefix_from_uri("urn:g")) << n((long) srcml_get_namespace_size()) << sml::s(srcml_check_extension("a.qq")) << sml::s(srcml_get_language()); } }; }},
    };
    return s;
}

// alone, in a process of its own
static std::vector<VS> alone_;
static void compute() {
    for (auto& sc : scripts()) {
        int p[2]; if (pipe(p)) _exit(98);
        fflush(nullptr);
        pid_t c = fork();
        if (!c) {
            close(p[0]);
            FILE* f = fdopen(p[1], "w");
            auto st = sc.make();
            for (auto& s : st) { str o = s(); fprintf(f, "%zu\n", o.size()); fwrite(o.data(), 1, o.size(), f); }
            fclose(f); _exit(0);
        }
        close(p[1]);
        FILE* f = fdopen(p[0], "r"); VS v; size_t k;
        while (fscanf(f, "%zu", &k) == 1) { fgetc(f); str o(k, 0); if (k && fread(&o[0], 1, k, f) != k) _exit(97); v.push_back(o); }
        fclose(f);
        int st; waitpid(c, &st, 0);
        if (st || v.size() != sc.make().size()) { fprintf(stderr, "script %s does not run alone\n", sc.name); _exit(97); }
        alone_.push_back(v);
    }
}

// a thread that runs the steps given to it
struct Runner {
    std::mutex m; std::condition_variable c; Step* job = nullptr; str out; bool done = false, end = false; std::thread t;
    Runner() : t([this] { std::unique_lock<std::mutex> l(m); for (;;) { c.wait(l, [this] { return job || end; }); if (end) return; out = (*job)(); job = nullptr; done = true; c.notify_all(); } }) {}
    str run(Step& s) { std::unique_lock<std::mutex> l(m); done = false; job = &s; c.notify_all(); c.wait(l, [this] { return done; }); return out; }
    ~Runner() { { std::lock_guard<std::mutex> l(m); end = true; c.notify_all(); } t.join(); }
};

static bool conflict(const std::vector<int>& w) { int g = 0; for (int i : w) g += scripts()[(size_t) i].global; return g > 1; }
static void compare(int script, size_t at, const str& got, const str& how) {
    mc::step();
    const str& want = alone_[(size_t) script][at];
    if (got != want) mc::fail("a script differs from running alone", str(scripts()[(size_t) script].name) + ", step " + n((long) at + 1) + ", " + how + ": " + mc::diff(got, want));
}

// every interleaving with at most `most` changes of script before one has ended (-1: any)
static void interleave(const std::vector<int>& who, int most, bool threads) {
    size_t k = who.size();
    std::vector<std::vector<Step>> st; std::vector<size_t> at(k, 0);
    for (int w : who) st.push_back(scripts()[(size_t) w].make());
    std::vector<std::unique_ptr<Runner>> run(k);
    if (threads) for (auto& r : run) r.reset(new Runner);
    str how = threads ? "in threads: " : ""; for (int w : who) how += str(scripts()[(size_t) w].name) + "; ";
    how += "order ";
    int last = -1, changes = 0;
    for (;;) {
        std::vector<int> can;
        bool goes = last >= 0 && at[(size_t) last] < st[(size_t) last].size();
        if (goes && most >= 0 && changes >= most) can.push_back(last);
        else for (size_t i = 0; i < k; ++i) if (at[i] < st[i].size()) can.push_back((int) i);
        if (can.empty()) break;
        int w = can.size() == 1 ? can[0] : can[(size_t) mc::choose((int) can.size())];
        if (goes && w != last) ++changes;
        last = w;
        how += n(w + 1);
        str got = threads ? run[(size_t) w]->run(st[(size_t) w][at[(size_t) w]]) : st[(size_t) w][at[(size_t) w]]();
        compare(who[(size_t) w], at[(size_t) w]++, got, how);
    }
    mc::note(how);
    mc::validated();
    mc::state(how);
}

// steps of one script in the callbacks of the other
static void nested(const std::vector<int>& who) {
    auto a = scripts()[(size_t) who[0]].make(), b = scripts()[(size_t) who[1]].make();
    str how = str(scripts()[(size_t) who[1]].name) + " in the callbacks of " + scripts()[(size_t) who[0]].name + ": ";
    std::string wrong[2];
    size_t bi = 0; int left = mc::choose((int) b.size()) + 1, calls = 0; int first = mc::choose(16);
    std::function<void()> f = [&] {
        if (calls++ < first) return;
        auto keep = inside; inside = nullptr;
        if (left > 0 && bi < b.size()) { how += "(" + n((long) bi + 1) + ")"; str got = b[bi](); size_t i = bi++; --left; try { compare(who[1], i, got, how); } catch (mc::Violation& v) { if (wrong[0].empty()) { wrong[0] = v.sig; wrong[1] = v.msg; } } }
        inside = keep;
    };
    for (size_t i = 0; i < a.size(); ++i) { how += n((long) i + 1); inside = &f; str got; try { got = a[i](); } catch (...) { inside = nullptr; throw; } inside = nullptr; if (!wrong[0].empty()) mc::fail(wrong[0], wrong[1]); compare(who[0], i, got, how); }
    if (!bi) mc::prune();
    while (bi < b.size()) { how += "then " + n((long) bi + 1); str got = b[bi](); compare(who[1], bi++, got, how); }
    mc::note(how); mc::validated(); mc::state(how);
}

// a unit used with other archives while its own goes on
static void moved() {
    struct Act { const char* name; std::function<void(A&)> f; };
    static const std::vector<Act> acts = {
        {"nothing", [](A&) {}}, {"read the next", [](A& a) { if (auto u = srcml_archive_read_unit(a.a)) srcml_unit_free(u); }}, {"skip the next", [](A& a) { srcml_archive_skip_unit(a.a); }},
        {"close its archive", [](A& a) { srcml_archive_close(a.a); }}, 
        {"outer view", [](A& a) { srcml_unit_get_srcml_outer(a.u); }}, {"inner view", [](A& a) { srcml_unit_get_srcml_inner(a.u); }}, {"archive view", [](A& a) { srcml_unit_get_srcml(a.u); }}, {"unparse", [](A& a) { outof(a.u); }},
        {"write to a third", [](A& a) { if (!a.b) { a.b = srcml_archive_create(); srcml_archive_set_xml_encoding(a.b, "ISO-8859-1"); srcml_archive_register_namespace(a.b, "t", "http://www.srcML.org/srcML/src"); srcml_archive_write_open_memory(a.b, &a.bp, &a.bn); } srcml_archive_write_unit(a.b, a.u); }},
    };
    auto once = [&](const std::vector<int>& before, bool solo, int which) {
        A a; a.a = srcml_archive_create();
        if (which == 3) { a.u = srcml_unit_create(a.a); srcml_unit_set_language(a.u, "C++"); srcml_unit_set_filename(a.u, "p"); srcml_unit_parse_memory(a.u, "#if A\nint a;\n", 13); }
        else { srcml_archive_read_open_memory(a.a, ARCH, sizeof ARCH - 1); for (int i = 0; i <= which; ++i) { if (a.u) srcml_unit_free(a.u); a.u = srcml_archive_read_unit(a.a); } }
        A w; w.a = srcml_archive_create(); if (solo) srcml_archive_enable_solitary_unit(w.a);
        srcml_archive_write_open_memory(w.a, &w.p, &w.n);
        for (int i : before) acts[(size_t) i].f(a);
        int rc = srcml_archive_write_unit(w.a, a.u);
        srcml_unit_free(a.u); a.u = nullptr;
        return n(rc) + written(w);
    };
    bool solo = mc::choose(2); int which = mc::choose(4);
    std::vector<int> b; str how = str(solo ? "solitary" : "archive") + ", unit " + n(which);
    for (int i = 0; i < (mc::thorough() ? 4 : 3); ++i) { b.push_back(mc::choose((int) acts.size())); how += str("; ") + acts[(size_t) b.back()].name; }
    mc::note(how);
    str want = once({}, solo, which), got = once(b, solo, which);
    mc::step((long) b.size() + 1);
    MC_CHECK(got == want, "a unit written to another archive depends on its own", how + ": " + mc::diff(got, want));
    mc::validated(); mc::state(how);
}

void mc_setup() {
    compute();
    const int k = (int) scripts().size(); bool t = mc::thorough();
    auto two = [k] { std::vector<int> w; w.push_back(mc::choose(k)); w.push_back(w[0] + mc::choose(k - w[0])); if (conflict(w)) mc::prune(); return w; };
    mc::add("pairs", "every two of " + n(k) + " scripts of three to five steps, in every interleaving", 3, 60, [=] { auto w = two(); interleave(w, -1, false); });
    mc::add("pairs in threads", "every two scripts in threads of their own, steps in every interleaving" + str(t ? "" : " with up to four switches"), 3, 60, [=] { auto w = two(); interleave(w, t ? -1 : 4, true); });
    std::vector<int> of; for (int i = 0; i < k; ++i) if (t || i == 0 || i == 2 || i == 4 || i == 6 || i == 8 || i == 9 || i == 11 || i == 13 || i == 15 || i == 18) of.push_back(i);
    mc::add("triples", "every three of " + n((long) of.size()) + " scripts, interleavings with up to " + str(t ? "four" : "two") + " switches", 4, 60, [=] {
        int m = (int) of.size(), x = mc::choose(m), y = x + mc::choose(m - x), z = y + mc::choose(m - y); std::vector<int> w{of[(size_t) x], of[(size_t) y], of[(size_t) z]};
        if (conflict(w)) mc::prune();
        interleave(w, t ? 4 : 2, false); });
    mc::add("in callbacks", "the steps of every script in the callbacks of every other", 2, 60, [=] { std::vector<int> w{mc::choose(k), mc::choose(k)}; if (conflict(w)) mc::prune(); nested(w); });
    mc::add("moved units", "units of an archive written to another after every three calls", 3, 60, moved);
}
#include "mc.hpp"
MC_MAIN
