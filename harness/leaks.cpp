// P25 - everything the library acquires is released
//
// Every sequence of calls up to a length, from several beginnings, is run repeatedly; when everything has been
// released, blocks of memory, file descriptors and threads are counted. A run after the first that leaves more than
// the one before, twice, has lost something.
#include "mc.hpp"
#include "sml.hpp"
#include <atomic>
#include <dirent.h>
#include <fcntl.h>
#include <functional>
#include <malloc.h>
#include <unistd.h>
typedef std::string str;

// ---- counting every block of the process
static std::atomic<long> live{0}, bytes{0};
extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
static void* in(void* p) { if (p) { ++live; bytes += (long) malloc_usable_size(p); } return p; }
static void out(void* p) { if (p) { --live; bytes -= (long) malloc_usable_size(p); } }
void* malloc(size_t n) { return in(__libc_malloc(n)); }
void free(void* p) { out(p); __libc_free(p); }
void* calloc(size_t n, size_t m) { return in(__libc_calloc(n, m)); }
void* realloc(void* p, size_t n) { out(p); void* q = __libc_realloc(p, n); if (!q && n) { in(p); return q; } return in(q); }
void* memalign(size_t a, size_t n) { return in(__libc_memalign(a, n)); }
void* aligned_alloc(size_t a, size_t n) { return in(__libc_memalign(a, n)); }
int posix_memalign(void** p, size_t a, size_t n) { *p = in(__libc_memalign(a, n)); return *p ? 0 : ENOMEM; }
}
static int entries(const char* d) { DIR* x = opendir(d); if (!x) return -1; int n = 0; while (readdir(x)) ++n; closedir(x); return n; }
struct Count { long live, bytes; int fds, threads; };
static Count count() {
    Count c;
    for (int i = 0; i < 200; ++i) { c.threads = entries("/proc/self/task") - 2; if (c.threads <= 1) break; usleep(1000); }   // a finished thread may still be on its way out
    c.fds = entries("/proc/self/fd") - 3;
    c.live = live; c.bytes = bytes;
    return c;
}

// ---- what the calls work on
static const char SOLO[] = "<unit xmlns=\"http://www.srcML.org/srcML/src\" revision=\"1.0.0\" language=\"C++\" filename=\"a.cpp\" my=\"1\"><expr_stmt><expr><name>a</name></expr>;</expr_stmt>\n</unit>";
static const char ARCH[] = "<?xml version=\"1.0\"?>\n<?p d?><unit xmlns=\"http://www.srcML.org/srcML/src\" xmlns:my=\"u\" revision=\"1.0.0\" url=\"x\" my:at=\"1\">\n<macro-list token=\"M\" type=\"src:macro\"/>\n<unit language=\"C++\" filename=\"a.cpp\"><name>a</name></unit>\n<unit language=\"C\" filename=\"b.c\" my:at=\"2\"><name>b</name><!-- c --></unit>\n</unit>";
static const char CUT[] = "<unit xmlns=\"http://www.srcML.org/srcML/src\" revision=\"1.0.0\">\n<unit language=\"C++\" filename=\"a.cpp\"><name>a</name></unit>\n<unit language=\"C\"><name>b</na";
static const char NOT[] = "<html><b>x</b></html>";
static const char BAD[] = "int a;";
static const char SRC[] = "int a = f(1); // c\nclass A { };\n";
static const char XSLT[] = "<xsl:stylesheet version=\"1.0\" xmlns:xsl=\"http://www.w3.org/1999/XSL/Transform\"><xsl:template match=\"@*|node()\"><xsl:copy><xsl:apply-templates select=\"@*|node()\"/></xsl:copy></xsl:template></xsl:stylesheet>";
static const char XSLTNUM[] = "<xsl:stylesheet version=\"1.0\" xmlns:xsl=\"http://www.w3.org/1999/XSL/Transform\"><xsl:output method=\"text\"/><xsl:template match=\"/\"><xsl:value-of select=\"1\"/></xsl:template></xsl:stylesheet>";
static const char XSLTDIE[] = "<xsl:stylesheet version=\"1.0\" xmlns:xsl=\"http://www.w3.org/1999/XSL/Transform\"><xsl:template match=\"/\"><xsl:message terminate=\"yes\">x</xsl:message></xsl:template></xsl:stylesheet>";
static const char RNG[] = "<grammar xmlns=\"http://relaxng.org/ns/structure/1.0\"><start><ref name=\"a\"/></start><define name=\"a\"><element><anyName/><zeroOrMore><choice><attribute><anyName/></attribute><text/><ref name=\"a\"/></choice></zeroOrMore></element></define></grammar>";

static str path(const char* n) { return mc::scratch() + "/l" + std::to_string(getpid()) + n; }
static void put(const str& p, const char* s) { FILE* f = fopen(p.c_str(), "w"); if (!f || fputs(s, f) < 0) _exit(98); fclose(f); }

static int wr_ok(void*, const char*, int n) { return n; }
static int wr_fail(void*, const char*, int) { return -1; }
static int cl_ok(void*) { return 0; }
static int cl_fail(void*) { return -1; }
static int rd_fail(void*, char*, int) { return -1; }
static ssize_t src_fail(void*, void*, size_t) { return -1; }
static ssize_t src_late(void* c, void* b, size_t n) { if (*(int*) c) return -1; *(int*) c = 1; memset(b, 'a', std::min(n, (size_t) 4)); return (ssize_t) std::min(n, (size_t) 4); }
struct Rd { const char* p; };
static int rd_ok(void* c, char* b, int n) { Rd* r = (Rd*) c; int k = std::min(n, (int) strlen(r->p)); memcpy(b, r->p, k); r->p += k; return k; }
static ssize_t src_ok(void* c, void* b, size_t n) { return rd_ok(c, (char*) b, (int) n); }

struct Ctx {
    std::vector<srcml_archive*> as; std::vector<srcml_unit*> us; std::vector<srcml_transform_result*> rs;
    struct Mem { char* p = nullptr; size_t n = 0; }; std::vector<Mem*> mems;
    std::vector<FILE*> files; std::vector<int> fds; std::vector<Rd*> rds;
    srcml_archive* a() { if (as.empty()) as.push_back(srcml_archive_create()); return as.back(); }
    srcml_archive* fresh() { as.push_back(srcml_archive_create()); return as.back(); }
    srcml_unit* u() { if (us.empty()) us.push_back(srcml_unit_create(a())); return us.back(); }
    Mem* mem() { mems.push_back(new Mem); return mems.back(); }
    FILE* file(const str& p, const char* m) { FILE* f = fopen(p.c_str(), m); files.push_back(f); return f; }
    int fd(const str& p, int flags) { int f = open(p.c_str(), flags, 0600), g = fcntl(f, F_DUPFD, 300); close(f); fds.push_back(g); return g; }
    Rd* rd(const char* p) { rds.push_back(new Rd{p}); return rds.back(); }
    void release(int order) {
        auto units = [&] { for (auto u : us) srcml_unit_free(u); us.clear(); };
        auto results = [&] { for (auto r : rs) srcml_transform_free(r); rs.clear(); };
        auto archives = [&](bool back) { if (back) std::reverse(as.begin(), as.end()); for (auto a : as) { if (order != 2) srcml_archive_close(a); srcml_archive_free(a); } as.clear(); };
        if (order == 1) { for (auto a : as) srcml_archive_close(a); }
        results(); units(); archives(order == 1);
        for (auto f : files) if (f) fclose(f);
        for (int f : fds) if (fcntl(f, F_GETFD) >= 0) close(f);
        for (auto m : mems) { srcml_memory_free(m->p); delete m; }
        for (auto r : rds) delete r;
    }
};
struct Op { const char* name; std::function<void(Ctx&)> f; };
#define M(x) x, sizeof x - 1
static str SRCF, ARCHF, XSLTF, RNGF, OUT, NODIR;
static void files() { SRCF = path(".cpp"); ARCHF = path(".xml"); XSLTF = path(".xsl"); RNGF = path(".rng"); OUT = path(".out"); NODIR = path("-none/x"); put(SRCF, SRC); put(ARCHF, ARCH); put(XSLTF, XSLT); put(RNGF, RNG); }
static const std::vector<Op>& ops() {
    static const std::vector<Op> o = {
        {"another archive", [](Ctx& c) { c.fresh(); }},
        {"write_open_memory", [](Ctx& c) { auto m = c.mem(); srcml_archive_write_open_memory(c.a(), &m->p, &m->n); }},
        {"write_open_filename", [](Ctx& c) { srcml_archive_write_open_filename(c.a(), OUT.c_str()); }},
        {"write_open_filename (no such directory)", [](Ctx& c) { srcml_archive_write_open_filename(c.a(), NODIR.c_str()); }},
        {"write_open_FILE", [](Ctx& c) { srcml_archive_write_open_FILE(c.a(), c.file(OUT, "w")); }},
        {"write_open_fd", [](Ctx& c) { srcml_archive_write_open_fd(c.a(), c.fd(OUT, O_WRONLY | O_CREAT)); }},
        {"write_open_io", [](Ctx& c) { srcml_archive_write_open_io(c.a(), &c, wr_ok, cl_ok); }},
        {"write_open_io (fails)", [](Ctx& c) { srcml_archive_write_open_io(c.a(), &c, wr_fail, cl_fail); }},
        {"write_open_io (null)", [](Ctx& c) { srcml_archive_write_open_io(c.a(), &c, nullptr, cl_ok); }},
        {"write_open_memory (bad encoding)", [](Ctx& c) { srcml_archive_set_xml_encoding(c.a(), "no-such"); auto m = c.mem(); srcml_archive_write_open_memory(c.a(), &m->p, &m->n); }},
        {"read_open_memory (solitary)", [](Ctx& c) { srcml_archive_read_open_memory(c.a(), M(SOLO)); }},
        {"read_open_memory (archive)", [](Ctx& c) { srcml_archive_read_open_memory(c.a(), M(ARCH)); }},
        {"read_open_memory (cut)", [](Ctx& c) { srcml_archive_read_open_memory(c.a(), M(CUT)); }},
        {"read_open_memory (not srcML)", [](Ctx& c) { srcml_archive_read_open_memory(c.a(), M(NOT)); }},
        {"read_open_memory (not XML)", [](Ctx& c) { srcml_archive_read_open_memory(c.a(), M(BAD)); }},
        {"read_open_memory (empty)", [](Ctx& c) { srcml_archive_read_open_memory(c.a(), "", 0); }},
        {"read_open_filename", [](Ctx& c) { srcml_archive_read_open_filename(c.a(), ARCHF.c_str()); }},
        {"read_open_filename (missing)", [](Ctx& c) { srcml_archive_read_open_filename(c.a(), NODIR.c_str()); }},
        {"read_open_FILE", [](Ctx& c) { srcml_archive_read_open_FILE(c.a(), c.file(ARCHF, "r")); }},
        {"read_open_fd", [](Ctx& c) { srcml_archive_read_open_fd(c.a(), c.fd(ARCHF, O_RDONLY)); }},
        {"read_open_io", [](Ctx& c) { srcml_archive_read_open_io(c.a(), c.rd(ARCH), rd_ok, cl_ok); }},
        {"read_open_io (fails)", [](Ctx& c) { srcml_archive_read_open_io(c.a(), &c, rd_fail, cl_fail); }},
        {"read_unit", [](Ctx& c) { if (auto u = srcml_archive_read_unit(c.a())) c.us.push_back(u); }},
        {"skip_unit", [](Ctx& c) { srcml_archive_skip_unit(c.a()); }},
        {"close", [](Ctx& c) { srcml_archive_close(c.a()); }},
        {"clone archive", [](Ctx& c) { if (auto a = srcml_archive_clone(c.a())) c.as.push_back(a); }},
        {"settings", [](Ctx& c) { auto a = c.a(); for (int i = 0; i < 2; ++i) { srcml_archive_set_url(a, i ? "y" : "a long enough address to be stored elsewhere"); srcml_archive_set_version(a, "2"); srcml_archive_set_language(a, "Java"); srcml_archive_set_src_encoding(a, "UTF-8"); srcml_archive_set_tabstop(a, 4); srcml_archive_register_namespace(a, "my", i ? "urn:a" : "urn:b"); srcml_archive_register_file_extension(a, "zz", "C++"); srcml_archive_set_processing_instruction(a, "t", "d"); srcml_archive_enable_option(a, SRCML_OPTION_POSITION); } }},
        {"unit", [](Ctx& c) { if (auto u = srcml_unit_create(c.a())) c.us.push_back(u); }},
        {"unit settings", [](Ctx& c) { auto u = c.u(); for (int i = 0; i < 2; ++i) { srcml_unit_set_filename(u, i ? "b" : "a long enough name to be stored elsewhere.cpp"); srcml_unit_set_version(u, "1"); srcml_unit_set_language(u, "Java"); srcml_unit_set_timestamp(u, "t"); srcml_unit_set_src_encoding(u, "ISO-8859-1"); srcml_unit_set_eol(u, SOURCE_OUTPUT_EOL_CRLF); } }},
        {"parse_memory", [](Ctx& c) { srcml_unit_set_language(c.u(), "C++"); srcml_unit_parse_memory(c.u(), M(SRC)); }},
        {"parse_memory (null)", [](Ctx& c) { srcml_unit_parse_memory(c.u(), nullptr, 1); }},
        {"parse_memory (unknown language)", [](Ctx& c) { srcml_unit_set_language(c.u(), "Cobol"); srcml_unit_parse_memory(c.u(), M(SRC)); }},
        {"parse_memory (bad encoding)", [](Ctx& c) { srcml_unit_set_language(c.u(), "C"); srcml_unit_set_src_encoding(c.u(), "no-such"); srcml_unit_parse_memory(c.u(), M(SRC)); }},
        {"parse_memory (not UTF-8)", [](Ctx& c) { srcml_unit_set_language(c.u(), "C"); srcml_unit_set_src_encoding(c.u(), "UTF-8"); srcml_unit_parse_memory(c.u(), "a;\xff\xfe\xc3;", 6); }},
        {"parse_filename", [](Ctx& c) { srcml_unit_parse_filename(c.u(), SRCF.c_str()); }},
        {"parse_filename (missing)", [](Ctx& c) { srcml_unit_set_language(c.u(), "C++"); srcml_unit_parse_filename(c.u(), NODIR.c_str()); }},
        {"parse_FILE", [](Ctx& c) { srcml_unit_set_language(c.u(), "C++"); srcml_unit_parse_FILE(c.u(), c.file(SRCF, "r")); }},
        {"parse_fd", [](Ctx& c) { srcml_unit_set_language(c.u(), "C++"); srcml_unit_parse_fd(c.u(), c.fd(SRCF, O_RDONLY)); }},
        {"parse_fd (closed)", [](Ctx& c) { srcml_unit_set_language(c.u(), "C++"); srcml_unit_parse_fd(c.u(), 299); }},
        {"parse_io", [](Ctx& c) { srcml_unit_set_language(c.u(), "C++"); srcml_unit_parse_io(c.u(), c.rd(SRC), src_ok, cl_ok); }},
        {"parse_io (fails later)", [](Ctx& c) { int once = 0; srcml_unit_set_language(c.u(), "C++"); srcml_unit_parse_io(c.u(), &once, src_late, cl_ok); }},
        {"parse_io (fails)", [](Ctx& c) { srcml_unit_set_language(c.u(), "C++"); srcml_unit_parse_io(c.u(), &c, src_fail, cl_fail); }},
        {"start_unit", [](Ctx& c) { srcml_write_start_unit(c.u()); }},
        {"start_element", [](Ctx& c) { srcml_write_start_element(c.u(), nullptr, "name", nullptr); }},
        {"namespace, attribute, string", [](Ctx& c) { srcml_write_namespace(c.u(), "q", "urn:q"); srcml_write_attribute(c.u(), "q", "k", "urn:q", "v"); srcml_write_string(c.u(), "text"); }},
        {"end_element", [](Ctx& c) { srcml_write_end_element(c.u()); }},
        {"end_unit", [](Ctx& c) { srcml_write_end_unit(c.u()); }},
        {"write_unit", [](Ctx& c) { srcml_archive_write_unit(c.a(), c.u()); }},
        {"write_string", [](Ctx& c) { srcml_archive_write_string(c.a(), "abc", 3); }},
        {"clone unit", [](Ctx& c) { if (auto u = srcml_unit_clone(c.u())) c.us.push_back(u); }},
        {"views", [](Ctx& c) { srcml_unit_get_srcml(c.u()); srcml_unit_get_srcml_outer(c.u()); srcml_unit_get_srcml_inner(c.u()); }},
        {"unparse_memory", [](Ctx& c) { auto m = c.mem(); srcml_unit_unparse_memory(c.u(), &m->p, &m->n); }},
        {"unparse_memory (bad encoding)", [](Ctx& c) { srcml_unit_set_src_encoding(c.u(), "no-such"); auto m = c.mem(); srcml_unit_unparse_memory(c.u(), &m->p, &m->n); }},
        {"unparse_filename", [](Ctx& c) { srcml_unit_unparse_filename(c.u(), OUT.c_str()); }},
        {"unparse_filename (no such directory)", [](Ctx& c) { srcml_unit_unparse_filename(c.u(), NODIR.c_str()); }},
        {"unparse_FILE", [](Ctx& c) { srcml_unit_unparse_FILE(c.u(), c.file(OUT, "w")); }},
        {"unparse_fd", [](Ctx& c) { srcml_unit_unparse_fd(c.u(), c.fd(OUT, O_WRONLY | O_CREAT)); }},
        {"unparse_io (fails)", [](Ctx& c) { srcml_unit_unparse_io(c.u(), &c, wr_fail, cl_fail); }},
        {"free unit", [](Ctx& c) { if (!c.us.empty()) { srcml_unit_free(c.us.back()); c.us.pop_back(); } }},
        {"revision", [](Ctx& c) { srcml_archive_set_srcdiff_revision(c.a(), 1); }},
        {"append xpath", [](Ctx& c) { srcml_append_transform_xpath(c.a(), "//src:name"); }},
        {"append xpath (attributes)", [](Ctx& c) { srcml_append_transform_xpath(c.a(), "//@*|//text()"); }},
        {"append xpath (number)", [](Ctx& c) { srcml_append_transform_xpath(c.a(), "count(//src:name)"); }},
        {"append xpath (string)", [](Ctx& c) { srcml_append_transform_xpath(c.a(), "string(//src:name)"); }},
        {"append xpath (invalid)", [](Ctx& c) { srcml_append_transform_xpath(c.a(), "//src:name["); }},
        {"append xpath (unknown prefix)", [](Ctx& c) { srcml_append_transform_xpath(c.a(), "//nobody:name"); }},
        {"append mark", [](Ctx& c) { srcml_append_transform_xpath_element(c.a(), "//src:name", "m", "urn:m", "mark"); }},
        {"append attribute", [](Ctx& c) { srcml_append_transform_xpath_attribute(c.a(), "//src:name", "m", "urn:m", "k", "v"); }},
        {"append xslt_memory", [](Ctx& c) { srcml_append_transform_xslt_memory(c.a(), M(XSLT)); }},
        {"append xslt_memory (text)", [](Ctx& c) { srcml_append_transform_xslt_memory(c.a(), M(XSLTNUM)); }},
        {"append xslt_memory (stops)", [](Ctx& c) { srcml_append_transform_xslt_memory(c.a(), M(XSLTDIE)); }},
        {"append xslt_memory (not XSLT)", [](Ctx& c) { srcml_append_transform_xslt_memory(c.a(), M(NOT)); }},
        {"append xslt_memory (not XML)", [](Ctx& c) { srcml_append_transform_xslt_memory(c.a(), M(BAD)); }},
        {"append xslt_filename", [](Ctx& c) { srcml_append_transform_xslt_filename(c.a(), XSLTF.c_str()); }},
        {"append xslt_filename (missing)", [](Ctx& c) { srcml_append_transform_xslt_filename(c.a(), NODIR.c_str()); }},
        {"append xslt_FILE", [](Ctx& c) { srcml_append_transform_xslt_FILE(c.a(), c.file(XSLTF, "r")); }},
        {"append xslt_fd", [](Ctx& c) { srcml_append_transform_xslt_fd(c.a(), c.fd(XSLTF, O_RDONLY)); }},
        {"append params", [](Ctx& c) { srcml_append_transform_param(c.a(), "p", "1"); srcml_append_transform_stringparam(c.a(), "q", "it's"); }},
        {"append relaxng_memory", [](Ctx& c) { srcml_append_transform_relaxng_memory(c.a(), M(RNG)); }},
        {"append relaxng_memory (not RelaxNG)", [](Ctx& c) { srcml_append_transform_relaxng_memory(c.a(), M(NOT)); }},
        {"append relaxng_filename", [](Ctx& c) { srcml_append_transform_relaxng_filename(c.a(), RNGF.c_str()); }},
        {"append relaxng_filename (missing)", [](Ctx& c) { srcml_append_transform_relaxng_filename(c.a(), NODIR.c_str()); }},
        {"append relaxng_fd", [](Ctx& c) { srcml_append_transform_relaxng_fd(c.a(), c.fd(RNGF, O_RDONLY)); }},
        {"apply", [](Ctx& c) { srcml_transform_result* r = nullptr; srcml_unit_apply_transforms(c.a(), c.u(), &r); if (r) c.rs.push_back(r); }},
        {"apply (no result asked)", [](Ctx& c) { srcml_unit_apply_transforms(c.a(), c.u(), nullptr); }},
        {"clear transforms", [](Ctx& c) { srcml_clear_transforms(c.a()); }},
    };
    return o;
}
static int at(const char* n) { for (size_t i = 0; i < ops().size(); ++i) if (str(ops()[i].name) == n) return (int) i; fprintf(stderr, "no operation %s\n", n); _exit(97); }

static void judge(const std::vector<int>& seq, int order) {
    str s; for (int o : seq) s += str(s.empty() ? "" : "; ") + ops()[(size_t) o].name;
    s += order == 0 ? "; close, free" : order == 1 ? "; close, free backwards" : "; free without close";
    mc::note(s);
    mc::state(s);
    auto once = [&] { { Ctx c; for (int o : seq) { mc::step(); ops()[(size_t) o].f(c); } c.release(order); } return count(); };
    once();
    Count a = once(), b = once();
    auto more = [](const Count& x, const Count& y) { return y.live > x.live || y.fds > x.fds || y.threads > x.threads; };
    if (!more(a, b)) return;
    Count d = once();
    for (int i = 0; i < 3 && more(b, d); ++i) {
        Count e = once();
        if (!more(d, e)) return;
        if (i < 2) { b = d; d = e; continue; }
        str what = e.fds > d.fds ? "file descriptors" : e.threads > d.threads ? "threads" : "memory";
        mc::fail(what + " not released", std::to_string(e.fds - d.fds) + " descriptors, " + std::to_string(e.threads - d.threads) + " threads, " + std::to_string(e.live - d.live) + " blocks of " + std::to_string(e.bytes - d.bytes) + " bytes remain after: " + s);
    }
}
static const std::vector<std::vector<const char*>> BEGIN = {
    {},
    {"write_open_memory", "unit", "parse_memory"},
    {"read_open_memory (archive)", "read_unit"},
    {"read_open_memory (solitary)", "read_unit"},
    {"write_open_memory", "unit", "start_unit", "start_element"},
    {"unit", "parse_memory"},
};
static const std::vector<std::vector<const char*>> TRANSFORM = {
    {"append xpath"}, {"append xpath (attributes)"}, {"append xpath (number)"}, {"append xpath (string)"}, {"append xpath (unknown prefix)"}, {"append mark"}, {"append attribute"},
    {"append xslt_memory"}, {"append xslt_memory (text)"}, {"append xslt_memory (stops)"}, {"append xslt_fd"}, {"append relaxng_memory"}, {"append relaxng_filename"}, {"append params"},
};

void mc_setup() {
    bool th = mc::thorough();
    int nul = open("/dev/null", O_WRONLY); dup2(nul, 2); dup2(nul, 1);
    int n = (int) ops().size();
    mc::add("sequences", "six beginnings x every sequence of up to " + str(th ? "three" : "two") + " of " + std::to_string(n) + " calls x three ways of releasing", 3, 120, [=] {
        files();
        std::vector<int> seq;
        for (auto p : BEGIN[(size_t) mc::choose((int) BEGIN.size())]) seq.push_back(at(p));
        int len = 1 + mc::choose(th ? 3 : 2);
        int order = mc::choose(3);
        for (int i = 0; i < len; ++i) seq.push_back(mc::choose(n));
        judge(seq, order);
    });
    mc::add("transformations", "unit parsed or read x every " + str(th ? "three" : "two") + " of fourteen transformations, applied to one or two units, results released or not before the next x three ways of releasing", 2, 120, [=] {
        files();
        std::vector<int> seq;
        for (auto p : BEGIN[(size_t) (1 + mc::choose(3))]) seq.push_back(at(p));
        int order = mc::choose(3);
        int len = 1 + mc::choose(th ? 3 : 2);
        for (int i = 0; i < len; ++i) for (auto p : TRANSFORM[(size_t) mc::choose((int) TRANSFORM.size())]) seq.push_back(at(p));
        seq.push_back(at("apply"));
        if (mc::choose(2)) seq.push_back(at("apply"));
        if (mc::choose(2)) { seq.push_back(at("clear transforms")); seq.push_back(at("apply")); }
        judge(seq, order);
    });
}
MC_MAIN
