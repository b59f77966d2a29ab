// P09: every call with an argument or in a state that does not allow it, at every point of sixteen scripts; and archives opened again and again.
#include "mc.hpp"
#include "obs.hpp"
#include "arch.hpp"
#include <math.h>
#include <sys/wait.h>

const char* srcml_archive_get_macro_token_type(const struct srcml_archive* archive, const char* token);   // C++ linkage
static const char* XSLT = "<xsl:stylesheet version=\"1.0\" xmlns:xsl=\"http://www.w3.org/1999/XSL/Transform\"><xsl:template match=\"/\"><xsl:copy-of select=\".\"/></xsl:template></xsl:stylesheet>";
static const char* RNG = "<grammar xmlns=\"http://relaxng.org/ns/structure/1.0\" ns=\"http://www.srcML.org/srcML/src\"><start><ref name=\"any\"/></start><define name=\"any\"><element><anyName/><zeroOrMore><choice><attribute><anyName/></attribute><text/><ref name=\"any\"/></choice></zeroOrMore></element></define></grammar>";
struct Sink { str got; };
static int io_write(void* c, const char* b, int n) { ((Sink*) c)->got.append(b, (size_t) n); return n; }
static int io_close(void*) { return 0; }
static ssize_t src_read(void*, void*, size_t) { return 0; }
static int arc_read(void*, char*, int) { return 0; }

struct Ctx {
    srcml_archive* a = nullptr; srcml_unit* u = nullptr;        // the archive and the unit the calls are made on
    srcml_archive* other = nullptr; srcml_unit* good = nullptr; // another archive, and a parsed unit of it
    srcml_transform_result* res = nullptr; char* buf = nullptr; size_t size = 0; str log;
    // what holds in this state
    enum Open { NO, WRITE, READ } open = NO; bool body = false, by_element = false, in_element = false, in_tag = false, transforms = false, lang = true, unit_reads = false;
};
typedef std::function<void(Ctx&)> Step;
struct State { str name; Step make, finish; };
static str g_doc;
static str look(Ctx& c) {
    str o = sml::obs_archive(c.a) + " macros=" + arch::macros(c.a) + "\n";
    o += sml::obs_unit_meta(c.u) + " eol=" + std::to_string(srcml_unit_get_eol(c.u)) + " loc=" + std::to_string(srcml_unit_get_loc(c.u));
    if (!c.by_element) { o += "\n outer=" + sml::q(srcml_unit_get_srcml_outer(c.u)) + "\n srcml=" + sml::q(srcml_unit_get_srcml(c.u)) + "\n inner=" + sml::q(srcml_unit_get_srcml_inner(c.u)); }
    o += "\n good " + sml::obs_unit(c.good) + "\n other " + sml::obs_archive(c.other);
    if (c.res) o += "\n result " + std::to_string(srcml_transform_get_type(c.res)) + " " + std::to_string(srcml_transform_get_unit_size(c.res)) + (srcml_transform_get_unit_size(c.res) ? sml::q(srcml_unit_get_srcml_inner(srcml_transform_get_unit(c.res, 0))) : "");
    return o;
}
static void parse(srcml_unit* u, const char* s, Ctx& c) { c.log += "parse " + std::to_string(srcml_unit_parse_memory(u, s, strlen(s))) + "\n"; }
static void shut(Ctx& c) {
    c.log += look(c);
    srcml_archive_close(c.a); if (c.buf) c.log += str(c.buf, c.size); srcml_memory_free(c.buf); c.buf = nullptr;
    c.log += sml::obs_archive(c.a); if (c.res) srcml_transform_free(c.res);
    srcml_unit_free(c.u); srcml_archive_free(c.a); srcml_unit_free(c.good); srcml_archive_free(c.other);
}
static void fresh(Ctx& c) {
    c = Ctx(); c.other = srcml_archive_create(); c.good = srcml_unit_create(c.other); srcml_unit_set_language(c.good, "C"); srcml_unit_parse_memory(c.good, "g;\n", 3);
    c.a = srcml_archive_create(); srcml_archive_set_url(c.a, "url"); srcml_archive_register_namespace(c.a, "e", "http://e/");
}
static void opened(Ctx& c) { c.log += "open " + std::to_string(srcml_archive_write_open_memory(c.a, &c.buf, &c.size)) + "\n"; c.open = Ctx::WRITE; }
static void unit(Ctx& c, bool lang = true) { c.u = srcml_unit_create(c.a); if (lang) srcml_unit_set_language(c.u, "C++"); c.lang = lang; srcml_unit_set_filename(c.u, "a.cpp"); }
static void parsed(Ctx& c) { parse(c.u, "a<b;\n", c); c.body = true; }
static void write(Ctx& c, srcml_unit* u) { c.log += "write " + std::to_string(srcml_archive_write_unit(c.a, u)) + "\n"; }
static void open_read(Ctx& c) { c.log += "open " + std::to_string(srcml_archive_read_open_memory(c.a, g_doc.data(), g_doc.size())) + "\n"; c.open = Ctx::READ; c.unit_reads = true; }
static void read(Ctx& c) { if (c.u) srcml_unit_free(c.u); c.u = srcml_archive_read_unit(c.a); c.log += c.u ? "unit\n" : "no unit\n"; if (!c.u) c.u = srcml_unit_create(c.a); else c.body = true; }
static void rest(Ctx& c) { while (srcml_unit* u = srcml_archive_read_unit(c.a)) { c.log += sml::obs_unit(u) + "\n"; srcml_unit_free(u); } }
static void element(Ctx& c) { c.log += std::to_string(srcml_write_start_unit(c.u)); c.by_element = true; }
static std::vector<State> states() {
    std::vector<State> s;
    auto add = [&](const str& n, Step m, Step f) { s.push_back({n, m, f}); };
    auto from_unit = [](Ctx& c) { parsed(c); opened(c); write(c, c.u); };
    add("archive not opened, unit without content", [](Ctx& c) { unit(c); }, from_unit);
    add("archive not opened, unit without language", [](Ctx& c) { unit(c, false); srcml_unit_set_filename(c.u, "x"); }, [=](Ctx& c) { srcml_unit_set_language(c.u, "C"); from_unit(c); });
    add("archive not opened, parsed unit", [](Ctx& c) { unit(c); parsed(c); }, [](Ctx& c) { opened(c); write(c, c.u); });
    add("opened for writing, unit without content", [](Ctx& c) { opened(c); unit(c); }, [](Ctx& c) { parsed(c); write(c, c.u); });
    add("opened for writing, parsed unit", [](Ctx& c) { opened(c); unit(c); parsed(c); }, [](Ctx& c) { write(c, c.u); write(c, c.good); });
    add("opened for writing, one unit written", [](Ctx& c) { opened(c); unit(c); parsed(c); write(c, c.u); }, [](Ctx& c) { write(c, c.u); });
    add("solitary, written", [](Ctx& c) { srcml_archive_enable_solitary_unit(c.a); opened(c); unit(c); parsed(c); write(c, c.u); }, [](Ctx&) {});
    add("by element, unit started", [](Ctx& c) { opened(c); unit(c); element(c); c.in_tag = true; }, [](Ctx& c) { c.log += std::to_string(srcml_write_start_element(c.u, 0, "x", 0)); c.log += std::to_string(srcml_write_end_unit(c.u)); c.by_element = false; write(c, c.u); });
    add("by element, element started", [](Ctx& c) { opened(c); unit(c); element(c); c.log += std::to_string(srcml_write_start_element(c.u, 0, "x", 0)); c.in_element = c.in_tag = true; }, [](Ctx& c) { c.log += std::to_string(srcml_write_attribute(c.u, 0, "b", 0, "v")); c.log += std::to_string(srcml_write_end_element(c.u)); c.log += std::to_string(srcml_write_end_unit(c.u)); c.by_element = false; write(c, c.u); });
    add("by element, text written", [](Ctx& c) { unit(c); element(c); c.log += std::to_string(srcml_write_start_element(c.u, 0, "x", 0)); c.log += std::to_string(srcml_write_string(c.u, "t")); c.in_element = true; }, [](Ctx& c) { c.log += std::to_string(srcml_write_end_unit(c.u)); c.by_element = false; opened(c); write(c, c.u); });
    add("by element, ended", [](Ctx& c) { opened(c); unit(c); element(c); c.log += std::to_string(srcml_write_string(c.u, "t")); c.log += std::to_string(srcml_write_end_unit(c.u)); c.by_element = false; c.body = true; }, [](Ctx& c) { write(c, c.u); });
    add("written and closed", [](Ctx& c) { opened(c); unit(c); parsed(c); write(c, c.u); srcml_archive_close(c.a); c.open = Ctx::NO; c.log += str(c.buf, c.size); srcml_memory_free(c.buf); c.buf = nullptr; }, [](Ctx&) {});
    add("opened for reading", [](Ctx& c) { open_read(c); unit(c); }, [](Ctx& c) { c.by_element = false; rest(c); });
    add("one of two units read", [](Ctx& c) { open_read(c); read(c); }, [](Ctx& c) { rest(c); });
    add("all units read", [](Ctx& c) { open_read(c); read(c); read(c); srcml_unit* n = srcml_archive_read_unit(c.a); c.log += n ? "third" : "end"; }, [](Ctx& c) { rest(c); });
    add("read and closed", [](Ctx& c) { open_read(c); read(c); srcml_archive_close(c.a); c.open = Ctx::NO; }, [](Ctx&) {});
    add("transformations and a result", [](Ctx& c) { unit(c); parsed(c); srcml_append_transform_xpath(c.a, "//src:name"); c.log += std::to_string(srcml_unit_apply_transforms(c.a, c.u, &c.res)); c.transforms = true; }, [](Ctx& c) { srcml_transform_result* r = nullptr; c.log += std::to_string(srcml_unit_apply_transforms(c.a, c.u, &r)); c.log += r ? std::to_string(srcml_transform_get_unit_size(r)) : "none"; if (r) srcml_transform_free(r); });
    add("an XSLT transformation", [](Ctx& c) { unit(c); parsed(c); c.log += std::to_string(srcml_append_transform_xslt_memory(c.a, XSLT, strlen(XSLT))); c.transforms = true; }, [](Ctx& c) { srcml_transform_result* r = nullptr; c.log += std::to_string(srcml_unit_apply_transforms(c.a, c.u, &r)); c.log += r ? std::to_string(srcml_transform_get_unit_size(r)) : "none"; if (r) srcml_transform_free(r); });
    add("opening failed", [](Ctx& c) { c.log += std::to_string(srcml_archive_read_open_filename(c.a, "/none/such.xml") != 0) + std::to_string(srcml_archive_write_open_filename(c.a, "/none/such.xml") != 0); unit(c); parsed(c); }, [](Ctx& c) { opened(c); write(c, c.u); });
    return s;
}
// ---- the calls
struct W { str name; std::function<str(Ctx&)> run; std::function<bool(const Ctx&)> can; };
static str bad(int s) { return s == SRCML_STATUS_OK ? "status OK" : ""; }
static str arg(int s) { return s == SRCML_STATUS_INVALID_ARGUMENT ? "" : "status " + std::to_string(s); }
static str is(int s, int w) { return s == w ? "" : "status " + std::to_string(s) + " instead of " + std::to_string(w); }
static str nul(const void* p) { return p ? "not null" : ""; }
static str zero(long n) { return n == 0 ? "" : std::to_string(n); }
static bool always(const Ctx&) { return true; }
static std::vector<W> calls() {
    std::vector<W> w; typedef Ctx& X;
    static Sink sink; static char* b; static size_t n; static FILE* f = fopen("/dev/null", "r+"); static int fd = open("/dev/null", O_RDWR); static str tmp = mc::scratch() + "/t"; static char D[] = "x";
#define A(e, chk) w.push_back({#e, [](X c) { (void) c; return chk(e); }, always})
#define IFX(cond, e, chk) w.push_back({#e, [](X c) { return chk(e); }, [](const Ctx& c) { (void) c; return cond; }})
    srcml_archive* const N = nullptr; (void) N;
    // ---- program-wide
    A(srcml_check_language(nullptr), zero); A(srcml_check_language(""), zero); A(srcml_check_language("c"), zero); A(srcml_check_language("C++ "), zero);
    A(srcml_check_extension(nullptr), nul); A(srcml_check_extension(""), nul); A(srcml_get_language_list(srcml_get_language_list_size()), nul); A(srcml_get_language_list((size_t) -1), nul);
    A(srcml_check_encoding(nullptr), zero); A(srcml_check_encoding("none such"), zero); A(srcml_get_namespace_prefix(srcml_get_namespace_size()), nul); A(srcml_get_namespace_prefix((size_t) -1), nul); A(srcml_get_namespace_uri(srcml_get_namespace_size()), nul); A(srcml_get_namespace_uri((size_t) -1), nul);
    A(srcml_get_prefix_from_uri(nullptr), nul); A(srcml_get_uri_from_prefix(nullptr), nul); A(srcml_get_prefix_from_uri("http://none/"), nul); A(srcml_get_uri_from_prefix("none"), nul);
    A(srcml_register_file_extension(nullptr, "C"), arg); A(srcml_register_file_extension("x", nullptr), arg); A(srcml_register_file_extension("x", "none"), bad);
    A(srcml_register_namespace(nullptr, "http://x/"), arg); A(srcml_register_namespace("x", nullptr), arg); A(srcml_set_processing_instruction(nullptr, "d"), arg); A(srcml_set_processing_instruction("t", nullptr), arg);
    A(srcml_set_eol(4), bad); A(srcml_set_eol((size_t) -1), bad); A(srcml(nullptr, tmp.c_str()), bad); A(srcml("/none/such.cpp", nullptr), bad); A((srcml_memory_free(nullptr), 0), zero);
    // ---- archive: null
    A(srcml_archive_clone(nullptr), nul); A(srcml_archive_write_unit(nullptr, c.good), arg); A(srcml_archive_write_unit(c.a, nullptr), arg); A(srcml_archive_write_string(nullptr, "x", 1), arg); A(srcml_archive_write_string(c.a, nullptr, 1), arg); A(srcml_archive_write_string(c.a, "x", -1), arg);
    A((srcml_archive_close(nullptr), 0), zero); A((srcml_archive_free(nullptr), 0), zero); A(srcml_archive_error_number(nullptr), [](int v) { return zero(v == 0); }); A((srcml_archive_error_string(nullptr), 0), zero);
    A(srcml_archive_write_open_filename(nullptr, tmp.c_str()), arg); A(srcml_archive_write_open_filename(c.a, nullptr), arg); A(srcml_archive_write_open_memory(nullptr, &b, &n), arg); A(srcml_archive_write_open_memory(c.a, nullptr, &n), arg); A(srcml_archive_write_open_memory(c.a, &b, nullptr), arg);
    A(srcml_archive_write_open_FILE(nullptr, f), arg); A(srcml_archive_write_open_FILE(c.a, nullptr), arg); A(srcml_archive_write_open_fd(nullptr, fd), arg); A(srcml_archive_write_open_fd(c.a, -1), arg); A(srcml_archive_write_open_io(nullptr, &sink, io_write, io_close), arg); A(srcml_archive_write_open_io(c.a, nullptr, io_write, io_close), arg); A(srcml_archive_write_open_io(c.a, &sink, nullptr, io_close), arg);
    A(srcml_archive_read_open_filename(nullptr, "/dev/null"), arg); A(srcml_archive_read_open_filename(c.a, nullptr), arg); A(srcml_archive_read_open_memory(nullptr, "x", 1), arg); A(srcml_archive_read_open_memory(c.a, nullptr, 1), arg); A(srcml_archive_read_open_memory(c.a, "x", 0), arg); A(srcml_archive_read_open_FILE(nullptr, f), arg); A(srcml_archive_read_open_FILE(c.a, nullptr), arg);
    A(srcml_archive_read_open_fd(nullptr, fd), arg); A(srcml_archive_read_open_fd(c.a, -1), arg); A(srcml_archive_read_open_io(nullptr, &sink, arc_read, io_close), arg); A(srcml_archive_read_open_io(c.a, nullptr, arc_read, io_close), arg); A(srcml_archive_read_open_io(c.a, &sink, nullptr, io_close), arg);
    A(srcml_archive_is_solitary_unit(nullptr), zero); A(srcml_archive_enable_solitary_unit(nullptr), arg); A(srcml_archive_disable_solitary_unit(nullptr), arg); A(srcml_archive_has_hash(nullptr), zero); A(srcml_archive_enable_hash(nullptr), arg); A(srcml_archive_disable_hash(nullptr), arg);
    A(srcml_archive_set_xml_encoding(nullptr, "UTF-8"), arg); A(srcml_archive_set_src_encoding(nullptr, "UTF-8"), arg); A(srcml_archive_set_language(nullptr, "C"), arg); A(srcml_archive_set_options(nullptr, 0), arg); A(srcml_archive_enable_option(nullptr, 2), arg); A(srcml_archive_disable_option(nullptr, 2), arg); A(srcml_archive_set_tabstop(nullptr, 4), arg);
    A(srcml_archive_register_file_extension(nullptr, "x", "C"), arg); A(srcml_archive_register_file_extension(c.a, nullptr, "C"), arg); A(srcml_archive_register_file_extension(c.a, "x", nullptr), arg); A(srcml_archive_register_file_extension(c.a, "x", "none"), bad);
    A(srcml_archive_register_namespace(nullptr, "x", "http://x/"), arg); A(srcml_archive_register_namespace(c.a, nullptr, "http://x/"), arg); A(srcml_archive_register_namespace(c.a, "x", nullptr), arg); A(srcml_archive_set_processing_instruction(nullptr, "t", "d"), arg); A(srcml_archive_set_processing_instruction(c.a, nullptr, "d"), arg); A(srcml_archive_set_processing_instruction(c.a, "t", nullptr), arg);
    A(srcml_archive_register_macro(nullptr, "t", "src:macro"), arg); A(srcml_archive_register_macro(c.a, nullptr, "src:macro"), arg); A(srcml_archive_register_macro(c.a, "t", nullptr), arg); A((long) srcml_archive_get_macro_list_size(nullptr), zero); A(srcml_archive_get_macro_token(nullptr, 0), nul); A(srcml_archive_get_macro_type(nullptr, 0), nul); A(srcml_archive_get_macro_token(c.a, srcml_archive_get_macro_list_size(c.a)), nul); A(srcml_archive_get_macro_token(c.a, (size_t) -1), nul); A(srcml_archive_get_macro_type(c.a, srcml_archive_get_macro_list_size(c.a)), nul); A(srcml_archive_get_macro_type(c.a, (size_t) -1), nul); A(srcml_archive_get_macro_token(c.a, (size_t) 1 << 63), nul); A(srcml_archive_get_macro_type(c.a, (size_t) 1 << 63), nul);
    A(srcml_archive_get_macro_token_type(nullptr, "t"), nul); A(srcml_archive_get_macro_token_type(c.a, nullptr), nul); A(srcml_archive_get_macro_token_type(c.a, "none"), nul);
    A(srcml_archive_set_url(nullptr, "u"), arg); A(srcml_archive_set_version(nullptr, "v"), arg); A(srcml_archive_set_srcdiff_revision(nullptr, 0), arg);
    A(srcml_archive_get_xml_encoding(nullptr), nul); A(srcml_archive_get_src_encoding(nullptr), nul); A(srcml_archive_get_revision(nullptr), nul); A(srcml_archive_get_language(nullptr), nul); A(srcml_archive_get_url(nullptr), nul); A(srcml_archive_get_version(nullptr), nul); A(srcml_archive_get_options(nullptr), zero); A((long) srcml_archive_get_tabstop(nullptr), zero); A((long) srcml_archive_get_namespace_size(nullptr), zero);
    A(srcml_archive_get_namespace_prefix(nullptr, 0), nul); A(srcml_archive_get_namespace_uri(nullptr, 0), nul); A(srcml_archive_get_namespace_prefix(c.a, srcml_archive_get_namespace_size(c.a)), nul); A(srcml_archive_get_namespace_uri(c.a, srcml_archive_get_namespace_size(c.a)), nul); A(srcml_archive_get_namespace_prefix(c.a, (size_t) -1), nul); A(srcml_archive_get_namespace_uri(c.a, (size_t) -1), nul);
    A(srcml_archive_get_prefix_from_uri(nullptr, "http://e/"), nul); A(srcml_archive_get_prefix_from_uri(c.a, nullptr), nul); A(srcml_archive_get_uri_from_prefix(nullptr, "e"), nul); A(srcml_archive_get_uri_from_prefix(c.a, nullptr), nul); A(srcml_archive_get_prefix_from_uri(c.a, "http://none/"), nul); A(srcml_archive_get_uri_from_prefix(c.a, "none"), nul);
    A(srcml_archive_get_processing_instruction_target(nullptr), nul); A(srcml_archive_get_processing_instruction_data(nullptr), nul); A(srcml_archive_check_extension(nullptr, "a.c"), nul); A(srcml_archive_check_extension(c.a, nullptr), nul); A(srcml_archive_check_extension(c.a, ""), nul); A(srcml_archive_read_unit(nullptr), nul); A(srcml_archive_skip_unit(nullptr), zero);
    A((long) (srcml_archive_get_srcdiff_revision(nullptr) == 2), [](long v) { return zero(v == 0); });
    // ---- archive: state
    IFX(c.open != Ctx::WRITE, srcml_archive_write_unit(c.a, c.good), [](int s) { return is(s, SRCML_STATUS_INVALID_IO_OPERATION); }); IFX(c.open != Ctx::WRITE, srcml_archive_write_string(c.a, "x", 1), [](int s) { return is(s, SRCML_STATUS_INVALID_IO_OPERATION); });
    IFX(!c.body, srcml_archive_write_unit(c.a, c.u), bad); IFX(c.open != Ctx::READ, srcml_archive_read_unit(c.a), nul); IFX(c.open != Ctx::READ, srcml_archive_skip_unit(c.a), zero);
    IFX(c.open == Ctx::NO, srcml_archive_read_open_filename(c.a, "/none/such.xml"), bad); IFX(c.open == Ctx::NO, srcml_archive_write_open_filename(c.a, "/none/such.xml"), bad); IFX(c.open == Ctx::NO, srcml_archive_write_open_filename(c.a, "/"), bad); IFX(c.open == Ctx::NO, (srcml_archive_close(c.a), 0), zero);
    IFX(c.open != Ctx::NO, srcml_archive_write_open_memory(c.a, &b, &n), bad); IFX(c.open != Ctx::NO, srcml_archive_write_open_filename(c.a, "/dev/null"), bad); IFX(c.open != Ctx::NO, srcml_archive_write_open_FILE(c.a, f), bad); IFX(c.open != Ctx::NO, srcml_archive_write_open_fd(c.a, fd), bad); IFX(c.open != Ctx::NO, srcml_archive_write_open_io(c.a, &sink, io_write, io_close), bad);
    IFX(c.open != Ctx::NO, srcml_archive_read_open_memory(c.a, g_doc.data(), g_doc.size()), bad); IFX(c.open != Ctx::NO, srcml_archive_read_open_filename(c.a, "/dev/null"), bad); IFX(c.open != Ctx::NO, srcml_archive_read_open_FILE(c.a, f), bad); IFX(c.open != Ctx::NO, srcml_archive_read_open_fd(c.a, fd), bad); IFX(c.open != Ctx::NO, srcml_archive_read_open_io(c.a, &sink, arc_read, io_close), bad);
    // ---- transformations
    A(srcml_append_transform_xpath(nullptr, "//x"), arg); A(srcml_append_transform_xpath(c.a, nullptr), arg); A(srcml_append_transform_xpath_attribute(nullptr, "//x", "p", "http://p/", "n", "v"), arg); A(srcml_append_transform_xpath_attribute(c.a, nullptr, "p", "http://p/", "n", "v"), arg); A(srcml_append_transform_xpath_attribute(c.a, "//x", nullptr, "http://p/", "n", "v"), arg); A(srcml_append_transform_xpath_attribute(c.a, "//x", "p", nullptr, "n", "v"), arg); A(srcml_append_transform_xpath_attribute(c.a, "//x", "p", "http://p/", nullptr, "v"), arg); A(srcml_append_transform_xpath_attribute(c.a, "//x", "p", "http://p/", "n", nullptr), arg);
    A(srcml_append_transform_xpath_element(nullptr, "//x", "p", "http://p/", "n"), arg); A(srcml_append_transform_xpath_element(c.a, nullptr, "p", "http://p/", "n"), arg); A(srcml_append_transform_xpath_element(c.a, "//x", nullptr, "http://p/", "n"), arg); A(srcml_append_transform_xpath_element(c.a, "//x", "p", nullptr, "n"), arg); A(srcml_append_transform_xpath_element(c.a, "//x", "p", "http://p/", nullptr), arg);
    A(srcml_append_transform_xslt_filename(nullptr, "/dev/null"), arg); A(srcml_append_transform_xslt_filename(c.a, nullptr), arg); A(srcml_append_transform_xslt_memory(nullptr, XSLT, strlen(XSLT)), arg); A(srcml_append_transform_xslt_memory(c.a, nullptr, 1), arg); A(srcml_append_transform_xslt_memory(c.a, XSLT, 0), arg); A(srcml_append_transform_xslt_FILE(nullptr, f), arg); A(srcml_append_transform_xslt_FILE(c.a, nullptr), arg); A(srcml_append_transform_xslt_fd(nullptr, fd), arg); A(srcml_append_transform_xslt_fd(c.a, -1), arg);
    A(srcml_append_transform_relaxng_filename(nullptr, "/dev/null"), arg); A(srcml_append_transform_relaxng_filename(c.a, nullptr), arg); A(srcml_append_transform_relaxng_memory(nullptr, RNG, strlen(RNG)), arg); A(srcml_append_transform_relaxng_memory(c.a, nullptr, 1), arg); A(srcml_append_transform_relaxng_memory(c.a, RNG, 0), arg); A(srcml_append_transform_relaxng_FILE(nullptr, f), arg); A(srcml_append_transform_relaxng_FILE(c.a, nullptr), arg); A(srcml_append_transform_relaxng_fd(nullptr, fd), arg); A(srcml_append_transform_relaxng_fd(c.a, -1), arg);
    A(srcml_append_transform_xslt_filename(c.a, "/none/such.xsl"), bad); A(srcml_append_transform_xslt_memory(c.a, "<a", 2), bad); A(srcml_append_transform_xslt_FILE(c.a, f), bad); A(srcml_append_transform_xslt_fd(c.a, fd), bad); A(srcml_append_transform_relaxng_filename(c.a, "/none/such.rng"), bad); A(srcml_append_transform_relaxng_memory(c.a, "<a", 2), bad); A(srcml_append_transform_relaxng_FILE(c.a, f), bad); A(srcml_append_transform_relaxng_fd(c.a, fd), bad); A(srcml_append_transform_xslt_memory(c.a, "<a/>", 4), bad); A(srcml_append_transform_relaxng_memory(c.a, "<a/>", 4), bad);
    A(srcml_append_transform_param(nullptr, "p", "1"), arg); A(srcml_append_transform_param(c.a, nullptr, "1"), arg); A(srcml_append_transform_param(c.a, "p", nullptr), arg); A(srcml_append_transform_stringparam(nullptr, "p", "1"), arg); A(srcml_append_transform_stringparam(c.a, nullptr, "1"), arg); A(srcml_append_transform_stringparam(c.a, "p", nullptr), arg);
    IFX(!c.transforms, srcml_append_transform_param(c.a, "p", "1"), [](int s) { return is(s, SRCML_STATUS_NO_TRANSFORMATION); }); IFX(!c.transforms, srcml_append_transform_stringparam(c.a, "p", "1"), [](int s) { return is(s, SRCML_STATUS_NO_TRANSFORMATION); });
    static srcml_transform_result* r; A(srcml_unit_apply_transforms(nullptr, c.good, &r), arg); A(srcml_unit_apply_transforms(c.a, nullptr, &r), arg); IFX(c.transforms && !c.body, srcml_unit_apply_transforms(c.a, c.u, &r), bad);
    A(srcml_transform_get_type(nullptr), zero); A(srcml_transform_get_unit_size(nullptr), zero); A(srcml_transform_get_unit(nullptr, 0), nul); A(srcml_transform_get_string(nullptr), nul); A((long) (srcml_transform_get_number(nullptr) == srcml_transform_get_number(nullptr)), [](long) { return str(); }); A(srcml_transform_get_bool(nullptr), [](int) { return str(); }); A(srcml_transform_free(nullptr), bad); A(srcml_clear_transforms(nullptr), arg);
    IFX(c.res, srcml_transform_get_unit(c.res, -1), nul); IFX(c.res, srcml_transform_get_unit(c.res, srcml_transform_get_unit_size(c.res)), nul); IFX(c.res, srcml_transform_get_unit(c.res, INT32_MAX), nul); IFX(c.res, srcml_transform_get_unit(c.res, INT32_MIN), nul); IFX(c.res, srcml_transform_get_string(c.res), nul);
    // ---- units: null
    A(srcml_unit_create(nullptr), nul); A(srcml_unit_clone(nullptr), nul); A((srcml_unit_free(nullptr), 0), zero); A(srcml_unit_error_number(nullptr), [](int v) { return zero(v == 0); }); A((srcml_unit_error_string(nullptr), 0), zero);
    A(srcml_unit_set_src_encoding(nullptr, "UTF-8"), arg); A(srcml_unit_set_language(nullptr, "C"), arg); A(srcml_unit_set_filename(nullptr, "f"), arg); A(srcml_unit_set_version(nullptr, "v"), arg); A(srcml_unit_set_timestamp(nullptr, "t"), arg); A(srcml_unit_set_eol(nullptr, 1), arg); A(srcml_unit_set_eol(c.u, 4), bad); A(srcml_unit_set_eol(c.u, (size_t) -1), bad);
    A(srcml_unit_get_src_encoding(nullptr), nul); A(srcml_unit_get_revision(nullptr), nul); A(srcml_unit_get_language(nullptr), nul); A(srcml_unit_get_filename(nullptr), nul); A(srcml_unit_get_version(nullptr), nul); A(srcml_unit_get_timestamp(nullptr), nul); A(srcml_unit_get_hash(nullptr), nul); A(srcml_unit_get_loc(nullptr), [](int v) { return zero(v > 0); }); A((long) srcml_unit_get_eol(nullptr), [](long) { return str(); });
    A(srcml_unit_get_srcml(nullptr), nul); A(srcml_unit_get_srcml_outer(nullptr), nul); A(srcml_unit_get_srcml_inner(nullptr), nul);
    A(srcml_unit_parse_filename(nullptr, "/dev/null"), arg); A(srcml_unit_parse_filename(c.u, nullptr), arg); A(srcml_unit_parse_memory(nullptr, D, 1), arg); A(srcml_unit_parse_memory(c.u, nullptr, 1), arg); A(srcml_unit_parse_FILE(nullptr, f), arg); A(srcml_unit_parse_FILE(c.u, nullptr), arg); A(srcml_unit_parse_fd(nullptr, fd), arg); A(srcml_unit_parse_fd(c.u, -1), arg); A(srcml_unit_parse_io(nullptr, &sink, src_read, io_close), arg); A(srcml_unit_parse_io(c.u, nullptr, src_read, io_close), arg); A(srcml_unit_parse_io(c.u, &sink, nullptr, io_close), arg);
    A(srcml_unit_unparse_filename(nullptr, tmp.c_str()), arg); A(srcml_unit_unparse_filename(c.u, nullptr), arg); A(srcml_unit_unparse_memory(nullptr, &b, &n), arg); A(srcml_unit_unparse_memory(c.u, nullptr, &n), arg); A(srcml_unit_unparse_memory(c.u, &b, nullptr), arg); A(srcml_unit_unparse_FILE(nullptr, f), arg); A(srcml_unit_unparse_FILE(c.u, nullptr), arg); A(srcml_unit_unparse_fd(nullptr, fd), arg); A(srcml_unit_unparse_fd(c.u, -1), arg); A(srcml_unit_unparse_io(nullptr, &sink, io_write, io_close), arg); A(srcml_unit_unparse_io(c.u, nullptr, io_write, io_close), arg); A(srcml_unit_unparse_io(c.u, &sink, nullptr, io_close), arg);
    A(srcml_write_start_unit(nullptr), arg); A(srcml_write_end_unit(nullptr), arg); A(srcml_write_start_element(nullptr, nullptr, "n", nullptr), arg); A(srcml_write_start_element(c.u, nullptr, nullptr, nullptr), arg); A(srcml_write_end_element(nullptr), arg); A(srcml_write_namespace(nullptr, "p", "http://p/"), arg); A(srcml_write_namespace(c.u, "p", nullptr), arg); A(srcml_write_attribute(nullptr, nullptr, "n", nullptr, "v"), arg); A(srcml_write_attribute(c.u, nullptr, nullptr, nullptr, "v"), arg); A(srcml_write_string(nullptr, "s"), arg);
    // ---- units: state
    IFX(!c.by_element, srcml_write_end_unit(c.u), bad); IFX(!c.by_element, srcml_write_start_element(c.u, nullptr, "n", nullptr), bad); IFX(!c.in_element, srcml_write_end_element(c.u), bad); IFX(!c.by_element, srcml_write_namespace(c.u, "p", "http://p/"), bad); IFX(!c.by_element, srcml_write_attribute(c.u, nullptr, "n", nullptr, "v"), bad); IFX(!c.by_element, srcml_write_string(c.u, "s"), bad);
    IFX(c.by_element && !c.in_tag, srcml_write_attribute(c.u, nullptr, "n", nullptr, "v"), bad); IFX(c.by_element && !c.in_tag, srcml_write_namespace(c.u, "p", "http://p/"), bad);
    IFX(!c.body && !c.by_element, srcml_unit_get_srcml(c.u), nul); IFX(!c.body && !c.by_element, srcml_unit_get_srcml_outer(c.u), nul); IFX(!c.body && !c.by_element, srcml_unit_get_srcml_inner(c.u), nul);
    IFX(!c.body || c.open != Ctx::READ, srcml_unit_unparse_memory(c.u, &b, &n), bad); IFX(!c.body || c.open != Ctx::READ, srcml_unit_unparse_filename(c.u, tmp.c_str()), bad); IFX(!c.body || c.open != Ctx::READ, srcml_unit_unparse_FILE(c.u, f), bad); IFX(!c.body || c.open != Ctx::READ, srcml_unit_unparse_fd(c.u, fd), bad); IFX(!c.body || c.open != Ctx::READ, srcml_unit_unparse_io(c.u, &sink, io_write, io_close), bad);
    IFX(!c.lang, srcml_unit_parse_memory(c.u, D, 1), [](int s) { return is(s, SRCML_STATUS_UNSET_LANGUAGE); }); IFX(!c.lang, srcml_unit_parse_FILE(c.u, f), [](int s) { return is(s, SRCML_STATUS_UNSET_LANGUAGE); }); IFX(!c.lang, srcml_unit_parse_fd(c.u, fd), [](int s) { return is(s, SRCML_STATUS_UNSET_LANGUAGE); }); IFX(!c.lang, srcml_unit_parse_io(c.u, &sink, src_read, io_close), [](int s) { return is(s, SRCML_STATUS_UNSET_LANGUAGE); });
    A(srcml_unit_parse_filename(c.u, "/none/such.cpp"), bad); A(srcml_unit_parse_filename(c.u, "/"), bad); A(srcml_unit_parse_fd(c.u, 1000), bad);
    return w;
}
void mc_setup() {
    bool th = mc::thorough(); int nul_ = open("/dev/null", O_WRONLY); dup2(nul_, 2);
    { arch::C c; arch::U u; u.file = "r.cpp"; u.src = "r;\n"; c.units = {u, u}; c.url = "doc"; g_doc = arch::build(c).bytes; }
    static auto S_ = states(); static auto W_ = calls();
    static std::vector<str> clean; for (auto& s : S_) { Ctx c; fresh(c); s.make(c); s.finish(c); shut(c); clean.push_back(c.log); if (getenv("CLEAN")) printf("== %s\n%s\n", s.name.c_str(), c.log.c_str()); }
    auto body = [](const std::vector<int>& which, int st, bool thread_of_calls) {
        Ctx c; fresh(c); S_[(size_t) st].make(c); bool obs = !thread_of_calls; str before = obs ? look(c) : "", why = S_[(size_t) st].name + ": ";
        for (int i : which) {
            W& w = W_[(size_t) i]; if (!w.can(c)) mc::prune(); why += w.name + "; "; mc::note(why);
            str r = w.run(c); MC_CHECK(r.empty(), w.name + " returned " + r, why);
            if (obs) { str after = look(c); MC_CHECK(after == before, w.name + " changed something", why + "\n" + mc::diff(after, before)); }
        }
        S_[(size_t) st].finish(c); shut(c);
        MC_CHECK(c.log == clean[(size_t) st], W_[(size_t) which.back()].name + " changed what follows", why + "\n" + mc::diff(c.log, clean[(size_t) st]));
        mc::step((long) which.size() + 1); mc::validated(); mc::state(why);
    };
    mc::add("one wrong call", std::to_string(W_.size()) + " calls with a wrong argument or in a wrong state, at each of " + std::to_string(S_.size()) + " points, then the rest of the script; the archive looked at before and after, or not", 1, 20, [=] {
        int w = mc::choose((int) W_.size()), s = mc::choose((int) S_.size()); body({w}, s, mc::choose(2));
    });
    mc::add("two wrong calls", "every pair of the wrong calls, at " + std::string(th ? "every point" : "four points"), 2, 20, [=] {
        static const std::vector<int> P = {0, 4, 13, 16}; int s = th ? mc::choose((int) S_.size()) : mc::pick(P);
        int a = mc::choose((int) W_.size()), b = mc::choose((int) W_.size()); body({a, b}, s, true);
    });
    // ---- sources that cannot be read
    mc::add("source that cannot be read", "sources of 1 to 3000 bytes whose reading fails at any read, or with a byte that is wrong in their encoding at any position around the ends of the buffer, over every input, into new and parsed units: an error, and the unit is as before", 3, 20, [=] {
        static const std::vector<int> L = {1, 2, 5, 1023, 1024, 1025, 2049, 3000}; int n = mc::pick(L), parsed_before = mc::choose(2), kind = mc::choose(7);
        str src; while ((int) src.size() < n) src += "a;\n"; src.resize((size_t) n); const char* enc = nullptr; bool fail = true; long at = -1;
        struct In { str s; size_t pos = 0, chunk; long fail; long calls = 0; bool closed = false; } in;
        if (kind == 0) { static const std::vector<int> CH = {1, 100, 1024}; in.chunk = (size_t) mc::pick(CH); at = mc::choose(5); long calls = (long) ((src.size() + in.chunk - 1) / in.chunk); in.fail = at; if (in.chunk == 1) in.fail = (long[]) {0, 1, 2, n - 1, n}[at]; fail = in.fail <= calls; }
        else { in.chunk = 1024; in.fail = -1;
            static const std::vector<int> P = {0, 1, 2, 3, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 2047, 2048}; int p = mc::choose((int) P.size() + 1); size_t pos = p == (int) P.size() ? src.size() - 1 : (size_t) P[(size_t) p]; if (pos >= src.size()) mc::prune();
            if (kind == 1) { enc = "UTF-8"; src[pos] = (char) 0xff; } else if (kind == 2) { enc = "UTF-8"; src[pos] = (char) 0xc3; } else if (kind == 3) { enc = "UTF-8"; src[pos] = (char) 0x80; } else if (kind == 4) { enc = "US-ASCII"; src[pos] = (char) 0xe9; }
            else if (kind == 5) { enc = "UTF-16LE"; str w; for (char ch : src) { w += ch; w += '\0'; } w.resize(w.size() - 1); src = w; if (p) mc::prune(); } else { if (p) mc::prune(); fail = false; }
        }
        int chan = kind == 0 ? 2 : mc::choose(3); in.s = src;
        srcml_archive* a = srcml_archive_create(); srcml_unit* u = srcml_unit_create(a); srcml_unit_set_language(u, "C++"); if (parsed_before) srcml_unit_parse_memory(u, "x<y;\n", 5);
        auto obs = [&] { return sml::obs_unit(u) + " " + std::to_string(srcml_unit_get_eol(u)) + " " + std::to_string(srcml_unit_get_loc(u)); };
        srcml_unit_set_src_encoding(u, enc);
        str before = obs(); int st = 0; str what = std::to_string(n) + " bytes, " + (kind == 0 ? "read " + std::to_string(in.fail) + " of at most " + std::to_string(in.chunk) + " bytes fails" : "encoding " + str(enc ? enc : "none") + " kind " + std::to_string(kind)) + ", input " + std::to_string(chan) + (parsed_before ? ", parsed unit" : ", new unit"); mc::note(what);
        auto go = [&](In& i, srcml_unit* t) -> int {
            if (chan == 0) return srcml_unit_parse_memory(t, i.s.data(), i.s.size());
            if (chan == 1) { str fn = mc::scratch() + "/src" + std::to_string(getpid()) + ".cpp"; FILE* o = fopen(fn.c_str(), "w"); fwrite(i.s.data(), 1, i.s.size(), o); fclose(o); int r = srcml_unit_parse_filename(t, fn.c_str()); unlink(fn.c_str()); return r; }
            return srcml_unit_parse_io(t, &i, [](void* c, void* b, size_t len) -> ssize_t { In& q = *(In*) c; if (q.fail == q.calls++) { errno = EIO; return -1; } size_t m = std::min({len, q.chunk, q.s.size() - q.pos}); memcpy(b, q.s.data() + q.pos, m); q.pos += m; return (ssize_t) m; }, [](void* c) { ((In*) c)->closed = true; return 0; });
        };
        st = go(in, u); str after = obs();
        MC_CHECK(!fail || st != SRCML_STATUS_OK, "a source that cannot be read is parsed without an error", what); MC_CHECK(fail || kind == 0 || st == SRCML_STATUS_OK, "a source that can be read is not parsed", what);
        if (chan == 2) MC_CHECK(in.closed, "the input is not closed", what);
        if (st != SRCML_STATUS_OK) MC_CHECK(after == before, "a failed parse changes the unit", what + "\n" + mc::diff(after, before));
        // and the unit can be parsed again
        In good; good.s = "i<j;\n"; good.chunk = 1024; good.fail = -1; srcml_unit_set_src_encoding(u, nullptr); srcml_unit* f = srcml_unit_create(a); srcml_unit_set_language(f, "C++");
        MC_CHECK(go(good, u) == SRCML_STATUS_OK, "the unit cannot be parsed again", what); In good2; good2.s = good.s; good2.chunk = 1024; good2.fail = -1; go(good2, f);
        str x = sml::obs_unit(u), y = sml::obs_unit(f); MC_CHECK(x == y, "a failed parse changes the next one", what + "\n" + mc::diff(x, y));
        srcml_unit_free(u); srcml_unit_free(f); srcml_archive_free(a); mc::validated(); mc::state(what);
    });
    // ---- an archive opened, used and closed again and again
    mc::add("opened again", std::string("every sequence of up to ") + (th ? "5" : "4") + " sessions on one archive (write no, one or two units to memory or callbacks, a raw string, a hand-written unit; read all, one or no unit; open what is not there; close twice), each like on an archive used for nothing else", 2, 20, [=] {
        srcml_archive* a = srcml_archive_create(); srcml_archive_set_url(a, "doc"); str all; int N = 1 + mc::choose(th ? 5 : 4); bool read_before = false;
        for (int i = 0; i < N; ++i) {
            int k = mc::choose(9); char* b = nullptr; size_t n = 0; str got, want; Sink s; all += std::to_string(k) + " ";
            srcml_archive* f = srcml_archive_create(); srcml_archive_set_url(f, "doc"); 
            auto use = [&](srcml_archive* x) -> str {
                str o; Sink sk; b = nullptr; n = 0;
                if (k <= 5) {
                    o += std::to_string(k == 2 ? srcml_archive_write_open_io(x, &sk, io_write, io_close) : srcml_archive_write_open_memory(x, &b, &n));
                    for (int j = 0; j < (k <= 2 ? k : 0); ++j) { srcml_unit* u = srcml_unit_create(x); srcml_unit_set_language(u, "C++"); srcml_unit_parse_memory(u, "a;\n", 3); o += std::to_string(srcml_archive_write_unit(x, u)); srcml_unit_free(u); }
                    if (k == 3) o += std::to_string(srcml_archive_write_string(x, "<r/>", 4));
                    if (k == 4) { srcml_unit* u = srcml_unit_create(x); srcml_write_start_unit(u); srcml_write_string(u, "t"); srcml_write_end_unit(u); o += std::to_string(srcml_archive_write_unit(x, u)); srcml_unit_free(u); }
                    if (k == 5) { srcml_unit* u = srcml_unit_create(x); srcml_unit_set_language(u, "C++"); srcml_unit_parse_memory(u, "a;\n", 3); o += std::to_string(srcml_archive_write_unit(x, u)); srcml_unit_free(u); o += std::to_string(srcml_archive_write_string(x, "<r/>", 4)); }
                    srcml_archive_close(x); if (k % 2) srcml_archive_close(x); o += b ? str(b, n) : sk.got; srcml_memory_free(b);
                } else if (k <= 7) {
                    o += std::to_string(srcml_archive_read_open_memory(x, g_doc.data(), g_doc.size()));
                    for (int j = 0; j < (k == 6 ? 9 : 1); ++j) { srcml_unit* u = srcml_archive_read_unit(x); if (!u) break; o += sml::obs_unit(u); char* t = nullptr; size_t tn = 0; o += std::to_string(srcml_unit_unparse_memory(u, &t, &tn)) + (t ? str(t, tn) : ""); srcml_memory_free(t); srcml_unit_free(u); }
                    srcml_archive_close(x); if (k % 2) srcml_archive_close(x);
                } else o += srcml_archive_read_open_filename(x, "/none/such.xml") ? "none" : "opened", srcml_archive_close(x);
                return o;
            };
            got = use(a);
            if (read_before) { char* rb = nullptr; size_t rn = 0; (void) rb; (void) rn; srcml_archive_read_open_memory(f, g_doc.data(), g_doc.size()); str ob = sml::obs_archive(f); srcml_archive* cl = srcml_archive_clone(f); srcml_archive_close(f); srcml_archive_free(f); f = cl; }
            want = use(f); srcml_archive_free(f); if (k == 6 || k == 7) read_before = true;
            MC_CHECK(got == want, "session of an archive used before differs", "sessions " + all + "\n" + mc::diff(got, want)); mc::step();
            mc::state(got);
        }
        srcml_archive_free(a); mc::validated();
    });
}
MC_MAIN
