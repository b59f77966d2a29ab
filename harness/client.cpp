// The tool's own pieces (src/client), one set per property:
//  P21 extraction to a directory, P22 text arguments, P23 metadata templates, P28 file lists.
#include "mc.hpp"
#include "sml.hpp"
#include <iostream>
#include <memory>
#include <archive.h>
#include <archive_entry.h>
#include <srcml_cli.hpp>
#include <SRCMLStatus.hpp>
#include <src_input_text.hpp>
#include <src_input_filelist.hpp>
#include <src_output_filesystem.hpp>
#include <srcml_pretty.hpp>
#include <srcml_display_metadata.hpp>
#include <create_srcml.hpp>
#include <input_curl.hpp>

typedef std::string str;
typedef std::vector<str> VS;

// ---------------------------------------------------------------- stand-ins at the edge of what is checked
static std::vector<std::shared_ptr<ParseRequest>> requests;
void srcml_consume(int, std::shared_ptr<ParseRequest> r, WriteQueue*) { requests.push_back(r); }
void WriteQueue::schedule(std::shared_ptr<ParseRequest> r) { requests.push_back(r); }
bool curl_supported(const std::string& p) { return p == "http" || p == "https" || p == "ftp"; }
int input_curl(srcml_input_src&) { return 0; }
bool getCurlErrors() { return false; }
bool getCurlErrors(int) { return false; }
static VS dispatched; static int dispatch_fails = -1;
int srcml_handler_dispatch(ParseQueue&, srcml_archive*, const srcml_request_t&, const srcml_input_src& in, const srcml_output_dest&) {
    dispatched.push_back(in.filename);
    return (int) dispatched.size() == dispatch_fails ? -1 : 1;
}
// what would be done to the file system is recorded, never done
struct Act { bool dir; str path, content; };
static std::vector<Act> acts; static int sink_fails = -1;
extern "C" {
int __wrap_srcml_unit_unparse_filename(srcml_unit* u, const char* path) {
    char* b = nullptr; size_t n = 0;
    srcml_unit_unparse_memory(u, &b, &n);
    int files = 0; for (auto& a : acts) files += !a.dir;
    acts.push_back({false, path ? path : "(null)", str(b ? b : "", n)});
    srcml_memory_free(b);
    return files + 1 == sink_fails ? SRCML_STATUS_IO_ERROR : SRCML_STATUS_OK;
}
int __wrap_archive_write_header(struct archive*, struct archive_entry* e) { acts.push_back({true, archive_entry_pathname(e), ""}); return ARCHIVE_OK; }
int __wrap_archive_write_finish_entry(struct archive*) { return ARCHIVE_OK; }
}
struct Capture {        // what the tool prints
    std::ostringstream out, err; std::streambuf *o, *e;
    Capture() { o = std::cout.rdbuf(out.rdbuf()); e = std::cerr.rdbuf(err.rdbuf()); }
    ~Capture() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
};
static str join(const VS& v, const str& sep) { str o; for (size_t i = 0; i < v.size(); ++i) o += (i ? sep : "") + v[i]; return o; }
static str quoted(const VS& v) { str o; for (auto& s : v) o += "'" + mc::show(s, 200) + "' "; return o; }

// ---------------------------------------------------------------- P22
static bool hexd(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static bool octd(char c) { return c >= '0' && c <= '7'; }
static VS decode(const str& t) {
    VS parts(1);
    static const std::map<char, char> simple = {{'n', 10}, {'t', 9}, {'f', 12}, {'a', 7}, {'b', 8}, {'e', 27}, {'r', 13}, {'v', 11}};
    for (size_t i = 0; i < t.size();) {
        if (t[i] != '\\' || i + 1 == t.size()) { parts.back() += t[i++]; continue; }
        char c = t[i + 1];
        auto s = simple.find(c);
        if (s != simple.end()) { parts.back() += s->second; i += 2; continue; }
        size_t from = i + 2, to = from;
        bool number = false; long value = 0;
        if (c == 'x') { while (to < t.size() && to - from < 2 && hexd(t[to])) ++to; number = to > from; if (number) value = strtol(t.substr(from, to - from).c_str(), 0, 16); }
        else if (octd(c)) {     // \NNN, or \0NNN
            size_t most = c == '0' ? 4 : 3; from = i + 1; to = from;
            while (to < t.size() && to - from < most && octd(t[to])) ++to;
            number = true; value = strtol(t.substr(from, to - from).c_str(), 0, 8);
        }
        if (!number) { parts.back() += t[i]; parts.back() += c; i += 2; continue; }
        if (value > 255) mc::prune();
        if (value == 0) parts.emplace_back(); else parts.back() += (char) value;
        i = to;
    }
    return parts;
}
static void text_case(const str& t) {
    requests.clear();
    sml::Archive a(srcml_archive_create());
    srcml_archive_enable_solitary_unit(a.get());
    srcml_request_t rq; rq.att_language = str("C++"); rq.att_filename = str("f.cpp"); rq.att_version = str("v1");
    ParseQueue q(1, nullptr);
    VS want = decode(t);
    srcml_input_src in(src_prefix_add_uri("text", t));
    int n = src_input_text(q, a.get(), rq, in);
    VS got; for (auto& r : requests) got.emplace_back(r->buffer.begin(), r->buffer.end());
    MC_CHECK(got == want, "the text of the units is not what the argument denotes", "argument " + mc::show(t) + " units " + quoted(got) + " expected " + quoted(want));
    MC_CHECK(n == (int) want.size(), "wrong number of inputs reported", std::to_string(n));
    MC_CHECK((srcml_archive_is_solitary_unit(a.get()) != 0) == (want.size() == 1), "solitary setting wrong", mc::show(t));
    for (size_t i = 0; i < requests.size(); ++i) {
        auto& r = *requests[i];
        MC_CHECK(r.language == "C++" && r.filename && *r.filename == "f.cpp" && r.version && *r.version == "v1" && r.status == 0 && r.position == (int) i + 1 && r.srcml_arch == a.get(), "a unit lost the requested attributes", mc::show(t));
    }
    mc::validated(); mc::state(join(got, "|"));
}

// ---------------------------------------------------------------- P28
static VS list_model(const str& t) {
    VS o; std::istringstream in(t); str l;
    while (std::getline(in, l)) {
        const char* ws = " \n\r\t\f\v"; size_t b = l.find_first_not_of(ws), e = l.find_last_not_of(ws);
        if (b == str::npos || l[b] == '#') continue;
        l = l.substr(b, e - b + 1);
        o.push_back(l.find("://") != str::npos ? l : l == "-" || l == "/dev/stdin" ? "stdin://-" : "file://" + l);
    }
    return o;
}
static void list_case(const str& t, const str& show, int fails = -1) {
    str path = mc::scratch() + "/list"; { FILE* f = fopen(path.c_str(), "wb"); fwrite(t.data(), 1, t.size(), f); fclose(f); }
    dispatched.clear(); dispatch_fails = fails;
    sml::Archive a(srcml_archive_create()); srcml_request_t rq; ParseQueue q(1, nullptr); srcml_output_dest dest("stdout://-");
    int n; str err; { Capture c; n = src_input_filelist(q, a.get(), rq, path, dest); err = c.err.str(); }
    VS want = list_model(t); bool all = fails < 0 || fails > (int) want.size();
    if (!all) want.resize((size_t) fails);
    MC_CHECK(dispatched == want, "the inputs taken from the list are not its lines", "list " + show + ": " + quoted(dispatched).substr(0, 300) + " expected " + quoted(want).substr(0, 300) + " " + err);
    MC_CHECK((n == -1) == !all, "wrong result for the list", std::to_string(n) + " " + show);
    mc::validated(); mc::state(join(dispatched, "|"));
}

// ---------------------------------------------------------------- P21
static bool normal(const str& path, VS* out, bool abs_keeps = true) {      // lexical; false: leaves the start
    VS o; str part; bool left = false; size_t i = 0;
    if (abs_keeps && !path.empty() && path[0] == '/') o.push_back("/");
    size_t base = o.size();
    while (i <= path.size()) {
        if (i == path.size() || path[i] == '/') {
            if (part == "..") { if (o.size() > base && o.back() != "..") o.pop_back(); else { left = true; o.push_back(".."); } }
            else if (!part.empty() && part != ".") o.push_back(part);
            part.clear(); ++i;
        } else part += path[i++];
    }
    *out = o; return !left;
}
static void extract_case(const VS& names, const std::vector<bool>& named, const str& dest, int fails) {
    // the archive
    char* b = nullptr; size_t n = 0;
    {
        sml::Archive a(srcml_archive_create()); srcml_archive_write_open_memory(a.get(), &b, &n);
        for (size_t i = 0; i < names.size(); ++i) {
            sml::Unit u(srcml_unit_create(a.get())); srcml_unit_set_language(u.get(), "C++"); if (named[i]) srcml_unit_set_filename(u.get(), names[i].c_str());
            str src = "u" + std::to_string(i) + ";\n"; srcml_unit_parse_memory(u.get(), src.data(), src.size()); srcml_archive_write_unit(a.get(), u.get());
        }
    }
    str doc(b, n); free(b);
    acts.clear(); sink_fails = fails;
    str err;
    {
        sml::Archive a(srcml_archive_create()); srcml_archive_read_open_memory(a.get(), doc.data(), doc.size());
        Capture c; TraceLog log; src_output_filesystem(a.get(), dest, log); err = c.err.str();
    }
    str all; for (auto& a : acts) all += str(a.dir ? "mkdir " : "write ") + a.path + "; ";
    VS base; normal(dest, &base);
    size_t at = 0; int unusable = 0, files = 0;
    for (size_t i = 0; i < names.size(); ++i) {
        const str& name = names[i];
        VS rel, full; bool inside = normal(name, &rel, false); normal(dest.empty() ? name.substr(name.find_first_not_of('/') == str::npos ? name.size() : name.find_first_not_of('/')) : dest + "/" + name, &full);
        str last = name.substr(name.rfind('/') == str::npos ? 0 : name.rfind('/') + 1);
        bool usable = named[i] && !last.empty() && last != "." && last != "..";
        bool below = full.size() > base.size() && std::equal(base.begin(), base.end(), full.begin());
        bool may = usable && below, must = may && inside;
        // the actions for this unit
        str want_src = "u" + std::to_string(i) + ";\n";
        size_t k = at; while (k < acts.size() && acts[k].dir) ++k;
        bool wrote = k < acts.size() && acts[k].content == want_src;
        if (wrote) {
            MC_CHECK(may, "a unit without a usable name was written", "name '" + mc::show(name) + "' destination '" + dest + "': " + all);
            VS got; normal(acts[k].path, &got);
            MC_CHECK(got == full, "a unit was written at the wrong place", "name '" + mc::show(name) + "' destination '" + dest + "': " + all);
            // its directory was made before (now or for an earlier unit)
            VS dir(full.begin(), full.end() - 1); bool made = dir.empty() || (dir.size() == 1 && dir[0] == "/");
            for (size_t j = 0; j < k; ++j) if (acts[j].dir) { VS p; normal(acts[j].path, &p); made |= p == dir; }
            MC_CHECK(made || (dir == base && (dest == "." || dest == "./" || dest.empty())), "the directory of a unit's file was not made", "name '" + mc::show(name) + "' destination '" + dest + "': " + all);
            at = k + 1; ++files;
        } else {
            MC_CHECK(!must, "a unit with a usable name was not written", "name '" + mc::show(name) + "' destination '" + dest + "': " + all);
            ++unusable;
        }
    }
    for (; at < acts.size(); ++at) MC_CHECK(acts[at].dir, "a file was written that is no unit's", all);
    for (auto& a : acts) { VS p; normal(a.path, &p); MC_CHECK(p.size() >= base.size() && std::equal(base.begin(), base.end(), p.begin()), "outside of the destination", "destination '" + dest + "': " + a.path); }
    if (unusable) MC_CHECK(!err.empty(), "a unit that was not written is not reported", "destination '" + dest + "': " + all);
    if (fails > 0 && fails <= files) MC_CHECK(!err.empty(), "a failed write is not reported", all);
    mc::validated(); mc::state(all);
}

// ---------------------------------------------------------------- P23
struct Doc { str name, bytes; };
static std::vector<Doc> docs() {
    std::vector<Doc> d;
    auto make = [&](const str& name, int units, bool solo, bool full) {
        char* b = nullptr; size_t n = 0;
        {
            sml::Archive a(srcml_archive_create());
            if (solo) srcml_archive_enable_solitary_unit(a.get());
            if (full) { srcml_archive_set_url(a.get(), "url/of%s{1}"); srcml_archive_set_version(a.get(), "7 %d"); srcml_archive_register_namespace(a.get(), "ns", "http://a.b/ns"); srcml_archive_set_src_encoding(a.get(), "UTF-8"); }
            srcml_archive_write_open_memory(a.get(), &b, &n);
            for (int i = 0; i < units; ++i) {
                sml::Unit u(srcml_unit_create(a.get())); srcml_unit_set_language(u.get(), i % 2 ? "Java" : "C++");
                if (full || i == 1) { srcml_unit_set_filename(u.get(), i == 1 ? "d/%f {x}.cpp" : "a.cpp"); srcml_unit_set_timestamp(u.get(), "T"); srcml_unit_set_version(u.get(), i == 1 ? "" : "v2"); }
                str src = "a" + std::to_string(i) + ";\n"; srcml_unit_set_src_encoding(u.get(), "UTF-8"); srcml_unit_parse_memory(u.get(), src.data(), src.size()); srcml_archive_write_unit(a.get(), u.get());
            }
        }
        d.push_back({name, str(b, n)}); free(b);
    };
    make("three units, all attributes", 3, false, true);
    make("two units, few attributes", 2, false, false);
    make("solitary unit, all attributes", 1, true, true);
    make("solitary unit, few attributes", 1, true, false);
    make("no units", 0, false, true);
    make("one unit in an archive", 1, false, false);
    return d;
}
typedef std::pair<bool, str> OV;       // present?, value
static OV ov(const char* p) { return {p != nullptr, p ? p : ""}; }
struct Facts { std::map<str, OV> archive; std::vector<std::map<str, OV>> units; VS info; bool solitary; };
static Facts facts(const str& bytes) {
    Facts f; sml::Archive a(srcml_archive_create()); srcml_archive_read_open_memory(a.get(), bytes.data(), bytes.size());
    f.solitary = srcml_archive_is_solitary_unit(a.get()) != 0;
    auto& m = f.archive;
    m["S"] = ov(srcml_archive_get_src_encoding(a.get())); m["U"] = ov(srcml_archive_get_url(a.get())); m["V"] = ov(srcml_archive_get_version(a.get())); m["X"] = ov(srcml_archive_get_xml_encoding(a.get()));
    VS full, p, u;
    for (size_t i = 0; i < srcml_archive_get_namespace_size(a.get()); ++i) {
        p.push_back(sml::s(srcml_archive_get_namespace_prefix(a.get(), i))); u.push_back(sml::s(srcml_archive_get_namespace_uri(a.get(), i)));
        full.push_back((p.back().empty() ? "xmlns=" : "xmlns:" + p.back() + "=") + u.back());
        f.info.push_back((p.back().empty() ? "xmlns=\"" : "xmlns:" + p.back() + "=\"") + u.back() + "\"");
    }
    m["N"] = {true, join(full, " ")}; m["N:u"] = {true, join(u, " ")}; m["N:p"] = {true, join(p, " ")};
    while (srcml_unit* un = srcml_archive_read_unit(a.get())) {
        std::map<str, OV> x; x["f"] = ov(srcml_unit_get_filename(un)); x["h"] = ov(srcml_unit_get_hash(un)); x["l"] = ov(srcml_unit_get_language(un)); x["s"] = ov(srcml_unit_get_src_encoding(un)); x["t"] = ov(srcml_unit_get_timestamp(un)); x["v"] = ov(srcml_unit_get_version(un));
        x["loc"] = {true, std::to_string(srcml_unit_get_loc(un))};
        f.units.push_back(x); srcml_unit_free(un);
    }
    return f;
}
// a template section: text and field codes; false: an unknown code
struct Sec { std::vector<std::pair<bool, str>> t; };
static bool sec(const str& s, const str& allowed, Sec* o) {
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] != '%' || i + 1 == s.size()) { o->t.push_back({false, str(1, s[i])}); continue; }
        char c = s[++i];
        if (c == '%' || c == '{' || c == '}') { o->t.push_back({false, str(1, c)}); continue; }
        if (allowed.find(c) == str::npos) return false;
        str f(1, c); if (c == 'N' && i + 2 < s.size() && s[i + 1] == ':' && (s[i + 2] == 'u' || s[i + 2] == 'p')) { f = s.substr(i, 3); i += 2; }
        o->t.push_back({true, f});
    }
    return true;
}
static str fill(const Sec& s, const std::map<str, OV>& a, const std::map<str, OV>& u) {
    size_t nf = 0; for (auto& t : s.t) nf += t.first;
    str o;
    for (auto& t : s.t) {
        if (!t.first) { o += t.second; continue; }
        auto i = u.find(t.second); OV v = i != u.end() ? i->second : a.count(t.second) ? a.at(t.second) : OV(false, "");
        if (!v.first && nf == 1) return "";          // a section that consists of one missing field is left out
        o += v.second;
    }
    return o;
}
static bool pretty_model(const str& t, const Facts& f, int unit, int index_base, str* out) {
    size_t open = str::npos, close = str::npos;
    for (size_t i = 0; i < t.size(); ++i) { if (t[i] == '%') { ++i; continue; } if (t[i] == '{' && open == str::npos) open = i; if (t[i] == '}' && close == str::npos) close = i; }
    Sec h, b, e; str hs, bs, es; bool parts = false;
    if (open == str::npos && close == str::npos) bs = t;
    else if (open == str::npos || close == str::npos || close < open) return false;
    else {
        parts = true; hs = t.substr(0, open); bs = t.substr(open + 1, close - open - 1); es = t.substr(close + 1);
        if (!hs.empty() && hs.back() == ' ') hs.pop_back();
        if (!bs.empty() && bs[0] == ' ') bs.erase(0, 1);
        if (!bs.empty() && bs.back() == ' ') bs.pop_back();
        if (!es.empty() && es[0] == ' ') es.erase(0, 1);
    }
    (void) parts;
    if (!sec(hs, "NSUVX", &h) || !sec(bs, "fhilNSstUVvX", &b) || !sec(es, "CNSUVX", &e)) return false;
    *out = fill(h, f.archive, {});
    for (size_t i = 0; i < f.units.size(); ++i) {
        if (unit > 0 && (int) i + 1 != unit) continue;
        auto u = f.units[i]; u["i"] = {true, std::to_string((int) i + index_base)};
        *out += fill(b, f.archive, u);
    }
    *out += fill(e, f.archive, {{"C", {true, std::to_string(f.units.size())}}});
    return true;
}
static void pretty_case(const str& t, const Doc& d, int unit) {
    static std::map<str, Facts> cache; if (!cache.count(d.name)) cache[d.name] = facts(d.bytes);
    const Facts& f = cache[d.name];
    srcml_request_t rq; rq.unit = unit;
    str out, err; int rc; SRCMLOptions::set(0);
    { sml::Archive a(srcml_archive_create()); srcml_archive_read_open_memory(a.get(), d.bytes.data(), d.bytes.size()); Capture c; rc = srcml_pretty(a.get(), t, rq); out = c.out.str(); err = c.err.str(); }
    str w0, w1; bool ok = pretty_model(t, f, unit, 0, &w0); pretty_model(t, f, unit, 1, &w1);
    str what = "template " + mc::show(t) + " on " + d.name + ", unit " + std::to_string(unit) + ": " + mc::show(out) + " expected " + mc::show(w0) + " rc " + std::to_string(rc) + " " + mc::show(err);
    if (!ok) { MC_CHECK(out.empty(), "something is printed for a malformed template", what); MC_CHECK(rc != 0 && !err.empty(), "a malformed template is not reported", what); }
    else { MC_CHECK(rc == 0, "a proper template is refused", what); MC_CHECK(out == w0 || out == w1, "the output is not the template with its fields replaced", what); }
    mc::validated(); mc::state(t + out);
}
// the same, for several inputs and through the tool's command
static void pretty_inputs_case(const str& t, const std::vector<const Doc*>& in) {
    srcml_request_t rq; rq.pretty_format = t; SRCMLOptions::set(0);
    srcml_input_t src; int k = 0; str out, want, err;
    for (auto d : in) { str p = mc::scratch() + "/p" + std::to_string(k++) + ".xml"; FILE* f = fopen(p.c_str(), "wb"); fwrite(d->bytes.data(), 1, d->bytes.size(), f); fclose(f); src.emplace_back(p); str w; pretty_model(t, facts(d->bytes), 0, 0, &w); want += w; }
    { Capture c; srcml_display_metadata(rq, src, srcml_output_dest("stdout://-")); out = c.out.str(); err = c.err.str(); }
    MC_CHECK(out == want, "the output is not the template for each input", "template " + mc::show(t) + ": " + mc::show(out) + " expected " + mc::show(want) + " " + err);
    mc::validated(); mc::state(out);
}
static VS words(const str& s) { VS o; std::istringstream i(s); str w; while (i >> w) o.push_back(w); return o; }
static void metadata_case(int cmd, const std::vector<const Doc*>& in) {
    srcml_request_t rq; rq.command = cmd; SRCMLOptions::set(cmd);
    srcml_input_t src; int k = 0; str out, err;
    for (auto d : in) { str p = mc::scratch() + "/d" + std::to_string(k++) + ".xml"; FILE* f = fopen(p.c_str(), "wb"); fwrite(d->bytes.data(), 1, d->bytes.size(), f); fclose(f); src.emplace_back(p); }
    { Capture c; srcml_display_metadata(rq, src, srcml_output_dest("stdout://-")); out = c.out.str(); err = c.err.str(); }
    SRCMLOptions::set(0);
    struct Fl { int flag; const char *name, *code; bool head; };
    static const Fl F[] = {{SRCML_COMMAND_DISPLAY_SRCML_ENCODING, "encoding", "X", true}, {SRCML_COMMAND_DISPLAY_SRCML_URL, "url", "U", true}, {SRCML_COMMAND_DISPLAY_SRCML_FILENAME, "filename", "f", false}, {SRCML_COMMAND_DISPLAY_SRCML_LANGUAGE, "language", "l", false}, {SRCML_COMMAND_DISPLAY_SRCML_SRC_VERSION, "version", "v", false}, {SRCML_COMMAND_DISPLAY_SRCML_HASH, "hash", "h", false}, {SRCML_COMMAND_DISPLAY_SRCML_TIMESTAMP, "timestamp", "t", false}};
    str want; bool exact = true;
    int flags = 0; for (auto& f : F) flags += (cmd & f.flag) != 0;
    for (auto d : in) {
        Facts f = facts(d->bytes);
        auto part = [&](bool head, const std::map<str, OV>& m) {
            int n = 0, missing = 0; str o;
            for (auto& x : F) if (x.head == head && (cmd & x.flag)) { ++n; OV v = m.at(x.code); missing += !v.first; o += flags == 1 ? v.second + "\n" : str(x.name) + "=\"" + v.second + "\"\n"; }
            return n == 1 && missing ? str() : o;
        };
        want += part(true, f.archive);
        for (auto& u : f.units) want += part(false, u);
        int count = 0; long loc = 0; for (auto& u : f.units) { count += u.at("l").first; loc += atol(u.at("loc").second.c_str()); }
        if (cmd & SRCML_COMMAND_UNITS) want += std::to_string(count) + "\n";
        if (cmd & (SRCML_COMMAND_INFO | SRCML_COMMAND_LONGINFO)) {
            for (auto& l : f.info) want += l + "\n";
            want += "encoding=\"" + f.archive["X"].second + "\"\n";
            if (f.solitary && !f.units.empty() && f.units[0]["l"].first) want += "language=\"" + f.units[0]["l"].second + "\"\n";
            if (f.archive["U"].first) want += "url=\"" + f.archive["U"].second + "\"\n";
            if (f.solitary && !f.units.empty() && f.units[0]["f"].first) want += "filename=\"" + f.units[0]["f"].second + "\"\n";
            if (cmd & SRCML_COMMAND_LONGINFO) want += "units=\"" + std::to_string(count) + "\"\n";
        }
        if (cmd & SRCML_COMMAND_LIST) {
            exact = false; want += "XML encoding: " + f.archive["X"].second + "\n"; int i = 0;
            for (auto& u : f.units) want += std::to_string(++i) + " " + u.at("l").second + " " + u.at("loc").second + " " + u.at("h").second + " " + u.at("f").second + "\n";
            want += "units: " + std::to_string(f.units.size()) + " LOC: " + std::to_string(loc) + "\n";
        }
    }
    str what = "command " + std::to_string(cmd) + " on"; for (auto d : in) what += " [" + d->name + "]"; what += ": " + mc::show(out, 600) + " expected " + mc::show(want, 600) + " " + err;
    if (exact) MC_CHECK(out == want, "the metadata shown is not that of the archive", what); else MC_CHECK(words(out) == words(want), "the listing shown is not that of the archive", what);
    mc::validated(); mc::state(out);
}

// ---------------------------------------------------------------- scenarios
void mc_setup() {
    bool th = mc::thorough();
    str set = mc::opt("set", "P22");
    auto strings = [](const VS& sy, int most, size_t* len = nullptr) { str s; int n = mc::choose(most + 1); for (int i = 0; i < n; ++i) s += mc::pick(sy); if (len) *len = (size_t) n; return s; };
    if (set == "P22") {
        static const VS SY = {"\\", "x", "0", "1", "7", "8", "a", "n", "F", "g", ":", "/", "\xC3\xA9", " "};
        int L = th ? 7 : 6;
        mc::add("all strings", "all strings of up to " + std::to_string(L) + " of the symbols \\ x 0 1 7 8 a n F g : / e-acute space, through the same path as --text", 4, 30, [=] { text_case(strings(SY, L)); });
        static const VS ES = {"\\n", "\\t", "\\f", "\\a", "\\b", "\\e", "\\r", "\\v", "\\x4", "\\x41", "\\x00", "\\0", "\\101", "\\0101", "\\7", "\\q", "\\\\", "\\\"", "\\", "://", "text://", "?q", "a", "0"};
        int E = th ? 6 : 5;
        mc::add("escapes", "all sequences of up to " + std::to_string(E) + " of 24 escapes and texts (every documented escape, incomplete and unknown ones, ://, ?)", 3, 30, [=] { text_case(strings(ES, E)); });
        mc::add("every byte", "every two-digit hex escape, every octal escape of one to three digits, every character after a backslash, each between two characters", 2, 30, [=] {
            int k = mc::choose(4); char b[16]; str s;
            if (k == 0) { snprintf(b, sizeof b, "\\x%02x", mc::choose(256)); s = b; }
            if (k == 1) { int d = mc::choose(3) + 1, v = mc::choose(d == 1 ? 8 : d == 2 ? 64 : 256); snprintf(b, sizeof b, "\\%0*o", d, v); s = b; }
            if (k == 2) { int d = mc::choose(3) + 1, v = mc::choose(d == 1 ? 8 : d == 2 ? 64 : 256); snprintf(b, sizeof b, "\\0%0*o", d, v); s = b; }
            if (k == 3) s = str("\\") + (char) (mc::choose(255) + 1);
            static const VS after = {"", "b", "7", "F", "\\"}; text_case("a" + s + mc::pick(after));
        });
    }
    if (set == "P28") {
        static const VS SY = {"a", "#", " ", "\n", "\r", "b/c.cpp", "-", "\t"};
        int L = th ? 7 : 5;
        mc::add("all lists", "all contents of up to " + std::to_string(L) + " of the symbols a # space newline CR b/c.cpp - tab", 3, 30, [=] { str t = strings(SY, L); list_case(t, mc::show(t)); });
        mc::add("block boundaries", "lists whose length is around 1, 2 and 4 of the 16384-byte blocks they are read in x line lengths x last line with or without newline", 2, 60, [=] {
            static const std::vector<int> blocks = {1, 2, 4}, widths = {1, 7, 100, 5000, 40000};
            int total = mc::pick(blocks) * 16384 + mc::choose(th ? 41 : 9) - (th ? 20 : 4), w = mc::pick(widths), nl = mc::choose(2);
            str t; int i = 0; while ((int) t.size() < total) { str l = std::to_string(i++); while ((int) l.size() < w) l += 'x'; t += l + "\n"; }
            t.resize((size_t) total); if (nl) t.back() = '\n'; else if (t.back() == '\n') t.back() = 'y';
            list_case(t, std::to_string(total) + " bytes, lines of " + std::to_string(w) + (nl ? "" : ", no newline at the end"));
        });
        mc::add("failing inputs", "lists of up to 5 lines x the input that cannot be handled: the rest is not handled and the failure is passed on", 1, 30, [=] {
            int n = mc::choose(6), bad = mc::choose(7); str t; for (int i = 0; i < n; ++i) t += "f" + std::to_string(i) + "\n"; list_case(t, mc::show(t), bad ? bad : -1);
        });
    }
    if (set == "P21") {
        static const VS PART = {"a", "b.cpp", "", ".", "..", "\xC3\xA9 %s", "..."};
        static VS DEST = {"d", "d/", "./d", ".", "./", "", "d/e", "/tmp/verif-nowhere/d"};
        int L = th ? 5 : 4;
        auto name = [=](int most) { VS p; int n = mc::choose(most) + 1; for (int i = 0; i < n; ++i) p.push_back(mc::pick(PART)); return join(p, "/"); };
        mc::add("names", "an archive of two units, the first named by every sequence of up to " + std::to_string(L) + " parts out of a b.cpp (empty) . .. 'e-acute %s' ... x 8 spellings of the destination (what would be written is recorded, not done)", 3, 30, [=] { str d = mc::pick(DEST), n = name(L); mc::note(d + " <- " + n); extract_case({n, "ok.cpp"}, {true, true}, d, -1); });
        mc::add("several units", "archives of three units with names of up to 2 parts or none x 3 destinations x the write that fails", 3, 30, [=] {
            static const VS D = {"d", ".", "d/"}; str d = mc::pick(D); VS n; std::vector<bool> has;
            for (int i = 0; i < 3; ++i) { has.push_back(mc::choose(2) == 0); n.push_back(has.back() ? name(i == 1 ? 2 : th ? 2 : 1) : ""); }
            int fails = mc::choose(4); extract_case(n, has, d, fails ? fails : -1);
        });
        static const VS IN = {"x.cpp", "a/x.cpp", "ab/x.cpp", "a/b/x.cpp", "a/bc/x.cpp", "b/x.cpp", "b/a/x.cpp", "abc.cpp"};
        mc::add("directories in order", "archives of every sequence of up to " + std::to_string(th ? 5 : 4) + " of 8 units in directories whose names begin with, contain and end with one another x 3 destinations", 3, 30, [=] {
            static const VS D = {"d", ".", "a"}; VS n; for (int i = 0; i < (th ? 5 : 4); ++i) { int k = mc::choose((int) IN.size() + 1); if (!k) break; n.push_back(IN[(size_t) k - 1]); } if (n.empty()) mc::prune();
            extract_case(n, std::vector<bool>(n.size(), true), mc::pick(D), -1);
        });
    }
    if (set == "P23") {
        static const std::vector<Doc> D = docs();
        static const VS SY = {"%f", "%l", "%i", "%N", "%N:u", ":p", "%C", "%v", "%U", "%X", "%q", "%", "{", "}", " ", "x", "\n"};
        int L = th ? 5 : 4;
        mc::add("templates", "all templates of up to " + std::to_string(L) + " of %f %l %i %N %N:u :p %C %v %U %X %q % { } space x newline, on an archive of three units", 3, 30, [=] { str t = strings(SY, L); mc::note(t); pretty_case(t, D[0], 0); });
        static const VS S2 = {"%f", "%h", "%s", "%t", "%S", "%V", "%N:p", "%%", "%{", "%}", " { ", " } ", "{", "}", "y %i", "%C"};
        int M = th ? 4 : 3;
        mc::add("archives", "all templates of up to " + std::to_string(M) + " of 16 other pieces x 6 archives and solitary units (missing attributes, percent signs in values, no units) x --unit 0..4", 3, 30, [=] { str t = strings(S2, M); auto& d = mc::pick(D); int u = mc::choose(5); mc::note(t + " on " + d.name); pretty_case(t, d, u); });
        mc::add("sections", "every header x body x footer out of 9 each, with and without separating spaces, x 6 archives x --unit 0..2", 3, 30, [=] {
            static const VS H = {"", "h", "%U", "%X %U\n", "%N", "%f", "100%%", "%", "%{"}, B = {"", "b\n", "%f\n", "%f %l", "%i:%h\n", "%C", "%t", "%%f", "%}"}, F = {"", "e", "%C", "units %C %V\n", "%U", "%f", "%i", "%", "%N:p"};
            static const VS O = {"{", " { ", " {", "{ "}, C = {"}", " } "}; str t = mc::pick(H) + mc::pick(O) + mc::pick(B) + mc::pick(C) + mc::pick(F);
            auto& d = mc::pick(D); pretty_case(t, d, mc::choose(3));
        });
        mc::add("several inputs", "10 templates x every sequence of up to three of the 6 archives", 2, 30, [=] {
            static const VS T = {"%f\n", "%U", "{%l}", "%U {%f } %C\n", "x", "%h", "%{", "%N {%v}", "{ } %C", "%t"};
            str t = mc::pick(T); std::vector<const Doc*> in; int n = mc::choose(3) + 1; for (int i = 0; i < n; ++i) in.push_back(&mc::pick(D)); pretty_inputs_case(t, in);
        });
        mc::add("show options", "every subset of the seven --show options, and each of --units --info --longinfo --list alone, x every sequence of one or two of the 6 archives", 2, 30, [=] {
            static const int FL[] = {SRCML_COMMAND_DISPLAY_SRCML_LANGUAGE, SRCML_COMMAND_DISPLAY_SRCML_URL, SRCML_COMMAND_DISPLAY_SRCML_FILENAME, SRCML_COMMAND_DISPLAY_SRCML_SRC_VERSION, SRCML_COMMAND_DISPLAY_SRCML_TIMESTAMP, SRCML_COMMAND_DISPLAY_SRCML_HASH, SRCML_COMMAND_DISPLAY_SRCML_ENCODING};
            static const int ONE[] = {SRCML_COMMAND_UNITS, SRCML_COMMAND_INFO, SRCML_COMMAND_LONGINFO, SRCML_COMMAND_LIST};
            int k = mc::choose(131), cmd = 0; if (k < 127) { for (int i = 0; i < 7; ++i) if ((k + 1) >> i & 1) cmd |= FL[i]; } else cmd = ONE[k - 127];
            std::vector<const Doc*> in; int n = mc::choose(2) + 1; for (int i = 0; i < n; ++i) in.push_back(&mc::pick(D));
            metadata_case(cmd, in);
        });
    }
}
MC_MAIN
