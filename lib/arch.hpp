// arch.hpp - building and reading archives for the archive harnesses
#pragma once
#include "mc.hpp"
#include "obs.hpp"
#include <fcntl.h>
#include <unistd.h>
typedef const char* S;
typedef std::string str;
typedef std::vector<str> VS;
int srcml_archive_register_macro(srcml_archive*, const char*, const char*); size_t srcml_archive_get_macro_list_size(const srcml_archive*);
             const char* srcml_archive_get_macro_token(const srcml_archive*, size_t); const char* srcml_archive_get_macro_type(const srcml_archive*, size_t);
namespace arch {
// ---- one unit to be made
struct U { int kind = 0; S lang = "C++"; S file = nullptr, version = nullptr, ts = nullptr; str src = "a;\n"; };
// ---- settings of an archive
struct C {
    S xml = nullptr; size_t opts = 0; bool sol = false, hash = true; S url = nullptr, version = nullptr; int tab = 8;
    std::vector<std::pair<S, S>> ns; S pit = nullptr, pid = nullptr; std::vector<std::pair<S, S>> macros; std::vector<U> units;
};
inline str z(S p) { return p ? "'" + mc::show(p, 60) + "'" : "null"; }
inline str show(const C& c) {
    str o = "xml_encoding " + z(c.xml) + ", options " + std::to_string(c.opts) + (c.sol ? ", solitary" : "") + (c.hash ? "" : ", no hash") + ", url " + z(c.url) + ", version " + z(c.version) + ", tabs " + std::to_string(c.tab);
    for (auto& n : c.ns) o += ", ns " + z(n.first) + "=" + z(n.second);
    if (c.pit) o += ", pi " + z(c.pit) + " " + z(c.pid);
    for (auto& n : c.macros) o += ", macro " + z(n.first) + " " + z(n.second);
    for (auto& u : c.units) o += ", unit(" + std::to_string(u.kind) + " " + u.lang + " file " + z(u.file) + " version " + z(u.version) + " timestamp " + z(u.ts) + " src '" + mc::show(u.src, 60) + "')";
    return o;
}
inline void set(srcml_archive* a, const C& c) {
    if (c.xml) srcml_archive_set_xml_encoding(a, c.xml);
    srcml_archive_enable_option(a, c.opts);
    if (c.sol) srcml_archive_enable_solitary_unit(a);
    if (!c.hash) srcml_archive_disable_hash(a);
    if (c.url) srcml_archive_set_url(a, c.url);
    if (c.version) srcml_archive_set_version(a, c.version);
    srcml_archive_set_tabstop(a, (size_t) c.tab);
    for (auto& n : c.ns) srcml_archive_register_namespace(a, n.first, n.second);
    if (c.pit) srcml_archive_set_processing_instruction(a, c.pit, c.pid);
    for (auto& n : c.macros) srcml_archive_register_macro(a, n.first, n.second);
}
inline srcml_unit* make(srcml_archive* a, const U& c) {
    srcml_unit* u = srcml_unit_create(a);
    srcml_unit_set_language(u, c.lang);
    if (c.file) srcml_unit_set_filename(u, c.file);
    if (c.version) srcml_unit_set_version(u, c.version);
    if (c.ts) srcml_unit_set_timestamp(u, c.ts);
    srcml_unit_set_src_encoding(u, "UTF-8");
    if (c.kind == 0) srcml_unit_parse_memory(u, c.src.data(), c.src.size());
    else {      // element by element
        srcml_write_start_unit(u);
        srcml_write_start_element(u, nullptr, "name", nullptr); if (c.kind > 1) srcml_write_attribute(u, nullptr, "type", nullptr, "<&\"'>");
        srcml_write_string(u, str(c.src).c_str()); srcml_write_end_element(u);
        srcml_write_end_unit(u);
    }
    return u;
}
inline str text(srcml_unit* u) { return sml::text_of(sml::scan(srcml_unit_get_srcml(u) ? srcml_unit_get_srcml(u) : "")); }
// references to characters beyond ASCII, and the characters themselves, are the same text
inline str decref(const str& s) {
    str o;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '&' && i + 2 < s.size() && s[i + 1] == '#') {
            size_t e = s.find(';', i); bool hex = s[i + 2] == 'x'; long c = e == str::npos ? 0 : strtol(s.c_str() + i + (hex ? 3 : 2), nullptr, hex ? 16 : 10);
            if (c >= 0x80 && c < 0x800) { o += (char) (0xC0 | (c >> 6)); o += (char) (0x80 | (c & 63)); i = e; continue; }
            if (c >= 0x800 && c < 0x10000) { o += (char) (0xE0 | (c >> 12)); o += (char) (0x80 | ((c >> 6) & 63)); o += (char) (0x80 | (c & 63)); i = e; continue; }
        }
        o += s[i];
    }
    return o;
}
struct Doc { str bytes; std::vector<str> units; int rc = 0; };     // units: what each unit showed before it was written
inline str unit_obs(srcml_unit* u, bool enc = false) {
    str o = sml::obs_unit_meta(u, enc); o += " loc=" + std::to_string(srcml_unit_get_loc(u));
    const char* x = srcml_unit_get_srcml_inner(u); o += "\n inner=" + decref(sml::q(x));
    o += "\n text='" + mc::show(text(u), 4000) + "'";
    return o;
}
inline Doc build(const C& c) {
    Doc d; char* b = nullptr; size_t n = 0;
    srcml_archive* a = srcml_archive_create(); set(a, c);
    srcml_archive_write_open_memory(a, &b, &n);
    for (auto& uc : c.units) { srcml_unit* u = make(a, uc); d.units.push_back(unit_obs(u)); int r = srcml_archive_write_unit(a, u); if (r) d.rc = r; srcml_unit_free(u); }
    srcml_archive_close(a); srcml_archive_free(a);
    d.bytes.assign(b ? b : "", n); srcml_memory_free(b);
    return d;
}
// ---- reading
enum { MEM, FNAME, FILE_, FD, IO1, IO2, NCH };
static const char* CHN[] = {"memory", "filename", "FILE", "fd", "io (16 bytes)", "io (100 bytes)"};
struct In { str b; size_t at = 0; size_t step = 1; int closed = 0; };
inline int in_read(void* x, char* b, int n) { In* i = (In*) x; size_t k = std::min({(size_t) n, i->step, i->b.size() - i->at}); memcpy(b, i->b.data() + i->at, k); i->at += k; return (int) k; }
inline int in_close(void* x) { ++((In*) x)->closed; return 0; }
struct Reader {
    srcml_archive* a; In in; str b; FILE* f = nullptr; int fd = -1; str path; int rc;
    Reader(int ch, const str& bytes) : b(bytes) {
        a = srcml_archive_create();
        if (ch == FNAME || ch == FILE_ || ch == FD) { path = mc::scratch() + "/r" + std::to_string(getpid()); int w = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); if (write(w, b.data(), b.size()) < 0) _exit(98); close(w); }
        switch (ch) {
        case MEM: rc = srcml_archive_read_open_memory(a, b.data(), b.size()); break;
        case FNAME: rc = srcml_archive_read_open_filename(a, path.c_str()); break;
        case FILE_: f = fopen(path.c_str(), "r"); rc = srcml_archive_read_open_FILE(a, f); break;
        case FD: fd = open(path.c_str(), O_RDONLY); rc = srcml_archive_read_open_fd(a, fd); break;
        default: in.b = b; in.step = ch == IO1 ? 16 : 100; rc = srcml_archive_read_open_io(a, &in, in_read, in_close); break;
        }
    }
    ~Reader() { srcml_archive_close(a); srcml_archive_free(a); if (f) fclose(f); if (fd >= 0) close(fd); if (path.size()) unlink(path.c_str()); }
};
inline str macros(srcml_archive* a) { str o; for (size_t i = 0; i < srcml_archive_get_macro_list_size(a); ++i) o += sml::q(srcml_archive_get_macro_token(a, i)) + ":" + sml::q(srcml_archive_get_macro_type(a, i)) + ","; return o; }
struct Seen { str arch; std::vector<str> units; bool solitary; };
inline Seen read_all(srcml_archive* a, bool full = true) {
    Seen s; s.arch = sml::obs_archive(a) + " macros=" + macros(a); s.solitary = srcml_archive_is_solitary_unit(a) != 0;
    while (srcml_unit* u = srcml_archive_read_unit(a)) { s.units.push_back((full ? sml::obs_unit(u) + "\n text='" + mc::show(text(u), 4000) + "'" : unit_obs(u))); srcml_unit_free(u); }
    return s;
}
}
