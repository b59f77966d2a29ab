// P16: the views of a unit, asked for in every order, against each other.
#include "mc.hpp"
#include "obs.hpp"
#include "sml.hpp"
#include "arch.hpp"
#include <libxml/parser.h>
#include <libxml/tree.h>
#include <functional>
using VS = std::vector<str>; using VP = std::vector<std::pair<str, str>>;
static const char* SRCNS = "http://www.srcML.org/srcML/src";
// the start tag of a document's root element: its attributes as written, and where it ends
struct Tag { bool ok = false, empty = false; size_t begin = 0, end = 0; str name; VP atts; };
static Tag tag_at(const str& s, size_t at = 0) {
    Tag t; size_t i = s.find('<', at); if (i == str::npos) return t;
    t.begin = i++; while (i < s.size() && !strchr(" \t\n\r/>", s[i])) t.name += s[i++];
    for (;;) {
        while (i < s.size() && strchr(" \t\n\r", s[i])) ++i;
        if (i >= s.size()) return t;
        if (s[i] == '/') { t.empty = true; ++i; continue; }
        if (s[i] == '>') { t.end = i + 1; t.ok = true; return t; }
        size_t e = s.find('=', i); if (e == str::npos) return t;
        str n = s.substr(i, e - i); while (n.size() && strchr(" \t\n\r", n.back())) n.pop_back();
        i = e + 1; while (i < s.size() && strchr(" \t\n\r", s[i])) ++i;
        char q = s[i]; if (q != '"' && q != '\'') return t;
        size_t f = s.find(q, i + 1); if (f == str::npos) return t;
        t.atts.push_back({n, s.substr(i + 1, f - i - 1)}); i = f + 1;
    }
}
static str rest_of(const str& s, const Tag& t) { return t.empty ? "" : s.substr(t.end); }
static bool is_ns(const str& n) { return n == "xmlns" || n.rfind("xmlns:", 0) == 0; }
static str atts(const VP& a, const std::vector<str>& without, bool ns = false) { VS o; for (auto& x : a) if ((ns || !is_ns(x.first)) && std::find(without.begin(), without.end(), x.first) == without.end()) o.push_back(x.first + "=" + x.second); std::sort(o.begin(), o.end()); str r; for (auto& x : o) r += x + " "; return r; }
static str content(xmlNodePtr n) { // children, as a canonical text
    str o; for (xmlNodePtr c = n->children; c; c = c->next) {
        if (c->type == XML_TEXT_NODE || c->type == XML_CDATA_SECTION_NODE) o += (const char*) c->content;
        else if (c->type == XML_COMMENT_NODE) o += "<!--" + str((const char*) c->content) + "-->";
        else if (c->type == XML_PI_NODE) o += "<?" + str((const char*) c->name) + " " + (c->content ? (const char*) c->content : "") + "?>";
        else if (c->type == XML_ELEMENT_NODE) {
            o += "\x1{" + str(c->ns ? (const char*) c->ns->href : "") + "}" + (const char*) c->name; VS as;
            for (xmlAttrPtr a = c->properties; a; a = a->next) { xmlChar* v = xmlNodeListGetString(c->doc, a->children, 1); as.push_back(" {" + str(a->ns ? (const char*) a->ns->href : "") + "}" + (const char*) a->name + "='" + str(v ? (const char*) v : "") + "'"); xmlFree(v); }
            std::sort(as.begin(), as.end()); for (auto& a : as) o += a;
            o += "\x2" + content(c) + "\x3";
        }
    }
    return o;
}
// the text, with escapes replaced by the character
static str text(xmlNodePtr n) {
    str o; for (xmlNodePtr c = n->children; c; c = c->next) {
        if (c->type == XML_TEXT_NODE || c->type == XML_CDATA_SECTION_NODE) o += (const char*) c->content;
        else if (c->type == XML_ELEMENT_NODE) { if (str((const char*) c->name) == "escape") { xmlChar* v = xmlGetProp(c, BAD_CAST "char"); o += (char) strtol((const char*) v, nullptr, 0); xmlFree(v); } o += text(c); }
    }
    return o;
}
struct X { xmlDocPtr d; str err; X(const str& b) { xmlParserCtxtPtr c = xmlNewParserCtxt(); d = xmlCtxtReadMemory(c, b.data(), (int) b.size(), "d", nullptr, XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_NONET | XML_PARSE_HUGE); if (!c->wellFormed || !c->nsWellFormed || !d) err = c->lastError.message ? c->lastError.message : "not well-formed"; xmlFreeParserCtxt(c); } ~X() { if (d) xmlFreeDoc(d); } xmlNodePtr root() { return d ? xmlDocGetRootElement(d) : nullptr; } };

enum { FULL, OUTER, INNER, UNPARSE, WRITE, WRITE_SOL, META, WRITE_AS, VIEWS };
static const char* VN[] = {"srcml", "outer", "inner", "unparse", "write", "write solitary", "metadata", "write with its options"};
static str view(srcml_unit* u, int v, size_t opts) {
    switch (v) {
    case FULL: return sml::s(srcml_unit_get_srcml(u));
    case OUTER: return sml::s(srcml_unit_get_srcml_outer(u));
    case INNER: return sml::s(srcml_unit_get_srcml_inner(u));
    case UNPARSE: { char* b = nullptr; size_t n = 0; int rc = srcml_unit_unparse_memory(u, &b, &n); str o = std::to_string(rc) + ":" + (b ? str(b, n) : ""); srcml_memory_free(b); return o; }
    case META: return sml::obs_unit_meta(u) + " loc=" + std::to_string(srcml_unit_get_loc(u));
    default: {
        char* b = nullptr; size_t n = 0; srcml_archive* a = srcml_archive_create(); if (v == WRITE_SOL) srcml_archive_enable_solitary_unit(a); srcml_archive_disable_hash(a); if (v == WRITE_AS && opts) srcml_archive_enable_option(a, opts);
        srcml_archive_write_open_memory(a, &b, &n); int rc = srcml_archive_write_unit(a, u); srcml_archive_close(a); srcml_archive_free(a); str o = std::to_string(rc) + ":" + (b ? str(b, n) : ""); srcml_memory_free(b); return o; }
    }
}
// one unit, made anew each time
struct Made { std::vector<srcml_archive*> as; srcml_unit* u = nullptr; str held; char* buf = nullptr; size_t n = 0; ~Made() { if (u) srcml_unit_free(u); for (auto a : as) { srcml_archive_close(a); srcml_archive_free(a); } srcml_memory_free(buf); } };
struct Case { str name; std::function<void(Made&)> make; bool reading; bool latin = false; str source; bool has_source = false; size_t opts = 0; };
static str scanned_text(const str& full) { X x(full); return x.root() ? text(x.root()) : ""; }
static void agree(const Case& c, const VS& v, const str& why) {
    const str &full = v[FULL], &outer = v[OUTER], &inner = v[INNER];
    X x(full); MC_CHECK(x.err.empty(), "the unit is not well-formed", why + ": " + x.err + "\n" + full);
    Tag t = tag_at(full, full.rfind("<?xml", 0) == 0 ? 5 : 0), o = tag_at(outer); MC_CHECK(t.ok && o.ok, "the unit has no start tag", why + "\n" + full + "\n" + outer);
    str rest = rest_of(full, t), in = t.empty ? "" : rest.substr(0, rest.rfind("</"));
    MC_CHECK(inner == in, "the inner view is not the content of the unit", why + "\ninner '" + inner + "'\nunit  " + full);
    MC_CHECK(o.name == t.name && o.empty == t.empty && rest_of(outer, o) == rest, "the outer view has other content than the unit", why + "\nouter " + outer + "\nunit  " + full);
    MC_CHECK(atts(o.atts, {"url"}) == atts(t.atts, {"url"}), "the outer view has other attributes than the unit", why + "\nouter " + outer + "\nunit  " + full);
    for (auto& a : o.atts) if (is_ns(a.first)) MC_CHECK(std::find(t.atts.begin(), t.atts.end(), a) != t.atts.end(), "the outer view declares another namespace", why + "\nouter " + outer + "\nunit  " + full);
    str txt = text(x.root());
    if (c.has_source) MC_CHECK(txt == c.source, "the text of the unit is not the source", why + "\n'" + mc::show(txt) + "' not '" + mc::show(c.source) + "'");
    if (c.reading) MC_CHECK(v[UNPARSE] == "0:" + txt, "unparsing gives other text than the unit holds", why + "\n'" + mc::show(v[UNPARSE]) + "' not '" + mc::show(txt) + "'");
    str loc = " loc=" + std::to_string(std::count(txt.begin(), txt.end(), '\n') + (!txt.empty() && txt.back() != '\n'));
    MC_CHECK(v[META].size() > loc.size() && v[META].substr(v[META].size() - loc.size()) == loc, "lines of code", why + ": " + v[META] + ", not" + loc);
    for (int w : {WRITE, WRITE_SOL, WRITE_AS}) {
        MC_CHECK(v[w].rfind("0:", 0) == 0, "the unit cannot be written", why + " " + v[w]);
        str b = v[w].substr(2); X y(b); MC_CHECK(y.err.empty(), "the archive of the unit is not well-formed", why + ": " + y.err + "\n" + b);
        xmlNodePtr r = y.root(); if (w != WRITE_SOL) { r = r->children; while (r && r->type != XML_ELEMENT_NODE) r = r->next; } MC_CHECK(r, "no unit in the archive", why + "\n" + b);
        if (!r) continue;
        MC_CHECK(content(r) == content(x.root()), "the archive holds other content than the unit", why + "\narchive " + b + "\nunit    " + full);
        auto vals = [](xmlNodePtr n) { VS o; for (xmlAttrPtr p = n->properties; p; p = p->next) { str m((const char*) p->name); if (m == "url" || m == "revision" || m == "tabs") continue; xmlChar* v = xmlNodeListGetString(n->doc, p->children, 1); o.push_back((p->ns && str((const char*) p->ns->href) != SRCNS ? "{" + str((const char*) p->ns->href) + "}" : str()) + m + "='" + str(v ? (const char*) v : "") + "'"); xmlFree(v); } std::sort(o.begin(), o.end()); str r; for (auto& x : o) r += x + " "; return r; };
        MC_CHECK(vals(r) == vals(x.root()), "the archive holds other attributes than the unit", why + "\narchive " + b + "\nunit    " + full);
#if 0
        size_t at = b.find("<unit"); if (at == str::npos) at = b.find(":unit") == str::npos ? 0 : b.rfind('<', b.find(":unit")); if (w != WRITE_SOL) { Tag root = tag_at(b, at); at = root.end; }
        Tag k = tag_at(b, at);
        MC_CHECK(atts(k.atts, {"url"}) == atts(t.atts, {"url"}), "the archive holds other attributes than the unit", why + "\narchive " + b + "\nunit    " + full);
#endif
    }
}
void mc_setup() {
    int nul = open("/dev/null", O_WRONLY); dup2(nul, 2); xmlInitParser();
    bool th = mc::thorough();
    static std::vector<Case> cases;
    static const VS SRCS = {"", " ", "\n", "a;", "a;\n", "\n\n int main() { return a<b && \"x'\\n\" > '<'; }\n\n", "// <unit url=\"x\"> & ]]>\n", "#define A(b) <b>\nA(</unit>)\n", "\x01 \x0c;\n", "\xC3\xA9 = \"\xE2\x82\xAC\";", "/>", "</unit>", ">", "\"", "&", "s = \" url=\\\"a\\\"\";"};
    struct Set { S name; unsigned long long opts; S file, url, version, ts; };
    static const std::vector<Set> SETS = {{"plain", 0, nullptr, nullptr, nullptr, nullptr}, {"all attributes", 0, "d/a.cpp", "http://u/", "1.0", "now"}, {"attributes with markup", 0, "a \" url='x' > /> < &.cpp", "u\">'&", " url=\"1\"", " xmlns=\"x\""}, {"positions and cpp", SRCML_OPTION_POSITION | SRCML_OPTION_CPP, "a.cpp", nullptr, nullptr, nullptr}};
    auto setup = [](srcml_archive* a, const Set& s) { srcml_archive_disable_hash(a); if (s.opts & SRCML_OPTION_POSITION) srcml_archive_enable_option(a, SRCML_OPTION_POSITION); if (s.opts & SRCML_OPTION_CPP) srcml_archive_enable_option(a, SRCML_OPTION_CPP); if (s.url) srcml_archive_set_url(a, s.url); };
    auto meta = [](srcml_unit* u, const Set& s) { srcml_unit_set_language(u, "C++"); srcml_unit_set_src_encoding(u, "UTF-8"); if (s.file) srcml_unit_set_filename(u, s.file); if (s.version) srcml_unit_set_version(u, s.version); if (s.ts) srcml_unit_set_timestamp(u, s.ts); };
    auto written = [=](Made& m, const Set& s, bool sol) { auto a = srcml_archive_create(); m.as.push_back(a); setup(a, s); if (sol) srcml_archive_enable_solitary_unit(a); srcml_archive_write_open_memory(a, &m.buf, &m.n); auto u = srcml_unit_create(a); meta(u, s); return u; };
    for (auto& src : SRCS) for (auto& s : SETS) {
        str t = " " + str(s.name) + " '" + mc::show(src) + "'";
        cases.push_back({"parsed" + t, [=](Made& m) { m.u = written(m, s, false); srcml_unit_parse_memory(m.u, src.data(), src.size()); }, false, false, src, true, (size_t) s.opts});
        cases.push_back({"parsed twice" + t, [=](Made& m) { m.u = written(m, s, true); srcml_unit_parse_memory(m.u, "int x ;\n", 8); for (int v = 0; v < VIEWS; ++v) view(m.u, v, s.opts); srcml_unit_parse_memory(m.u, src.data(), src.size()); }, false, false, src, true, (size_t) s.opts});
        bool ctl = src.find('\x01') != str::npos;
        if (!ctl) cases.push_back({"written by elements" + t, [=](Made& m) { m.u = written(m, s, false); srcml_write_start_unit(m.u); if (src.size() > 1) srcml_write_start_element(m.u, nullptr, "name", nullptr); str k = src; srcml_write_string(m.u, k.c_str()); srcml_write_end_unit(m.u); }, false, false, src, true, (size_t) s.opts});
        for (int how = 0; how < 4; ++how) cases.push_back({str(how < 2 ? "read" : "read after another") + (how % 2 ? ", solitary" : "") + t, [=](Made& m) {
            if (how == 3) { Made k; }
            bool sol = how % 2; Made w; { auto a = srcml_archive_create(); setup(a, s); if (sol) srcml_archive_enable_solitary_unit(a); srcml_archive_write_open_memory(a, &w.buf, &w.n);
                for (int i = 0; i < (how == 2 ? 3 : 1); ++i) { auto u = srcml_unit_create(a); meta(u, s); if (how == 2 && i != 1) srcml_unit_parse_memory(u, "#define x\n", 10); else srcml_unit_parse_memory(u, src.data(), src.size()); srcml_archive_write_unit(a, u); srcml_unit_free(u); }
                srcml_archive_close(a); srcml_archive_free(a); }
            m.held.assign(w.buf, w.n); auto a = srcml_archive_create(); m.as.push_back(a); srcml_archive_set_src_encoding(a, "UTF-8"); srcml_archive_read_open_memory(a, m.held.data(), m.held.size());
            if (how == 2) { auto x = srcml_archive_read_unit(a); srcml_unit_free(x); }
            m.u = srcml_archive_read_unit(a);
        }, true, false, src, true, (size_t) s.opts});
    }
    // documents that other tools write
    static const str N = " xmlns=\"" + str(SRCNS) + "\"";
    static const VS DOCS = {
        "<unit" + N + " language=\"C++\" filename='a \"b\".cpp'>a;</unit>", "<unit" + N + ">a;\n</unit>", "<unit" + N + "/>", "<unit" + N + " url=\"u\">a;</unit>", "<unit url=\"u\"" + N + ">a;</unit>", "<unit  url='u'" + N + " xmlns:a='http://a/' language='C++' />", "<unit language=\"C++\"" + N + " filename=\"a.cpp\">a;\n</unit>", "<unit language=\"C++\" revision=\"1.0.0\" url=\"u\" filename=\"a.cpp\"" + N + "/>",
        "<unit\n" + N + "\n  language = \"C++\"  >a;</unit >", "<unit" + N + " language=\"C++\">>a<name>b</name>></unit>", "<unit" + N + " language=\"C++\"><!-- c --><name>a<!-- d --></name>;<?p q?></unit>", "<unit" + N + " language=\"C++\"><![CDATA[a<b&]]>;<name><![CDATA[]]></name></unit>",
        "<src:unit xmlns:src=\"" + str(SRCNS) + "\" language=\"C++\"><src:name>a</src:name>;</src:unit>", "<unit xmlns:cpp=\"http://www.srcML.org/srcML/cpp\"" + N + " language=\"C++\"><cpp:endif>#<cpp:directive>endif</cpp:directive></cpp:endif></unit>",
        "<unit" + N + " language=\"C++\" filename='a&gt;b'><name a='>'>x</name><name b=\"&quot;'\"/></unit>", "<unit" + N + " language='C++'></unit>", "<unit" + N + " language='C++' filename=' url=x'> </unit>", "<unit" + N + " language=\"C++\">&#10;&#x41;&lt;&amp;&gt;&quot;&apos;&#233;</unit>",
        "<unit" + N + " language=\"C++\"><block>{<block_content>\n</block_content>}</block>\n<escape char=\"0x1\"/></unit>", "<unit" + N + " xmlns:e=\"http://e/\" language=\"C++\" e:x=\"1\" e:y=\"2\" e:filename=\"n\" e:hash=\"h\" x=\"3\">a<e:z e:k=\"v\">b</e:z></unit>",
    };
    static const VS HEADS = {"", "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n", "<!-- c -->\n<?a b?>"};
    for (auto& d : DOCS) for (auto& h : HEADS) for (int nested = 0; nested < 3; ++nested) {
        str doc = h; Tag t = tag_at(d);
        if (nested == 1) { bool pre = t.name != "unit"; doc += "<" + t.name; for (auto& a : t.atts) if (is_ns(a.first)) doc += " " + a.first + "=\"" + a.second + "\""; doc += " revision=\"1.0.0\" url=\"U\">\n\n"; str in = d; for (auto& a : t.atts) if (is_ns(a.first)) { str k = " " + a.first + "=\"" + a.second + "\""; size_t p = in.find(k); if (p != str::npos) in.erase(p, k.size()); } doc += in + "\n\n</" + t.name + ">"; (void) pre; }
        else if (nested == 2) doc += "<unit" + N + ">" + d + "</unit>";
        else doc += d;
        cases.push_back({"document " + doc, [=](Made& m) { m.held = doc; auto a = srcml_archive_create(); m.as.push_back(a); srcml_archive_set_src_encoding(a, "UTF-8"); srcml_archive_read_open_memory(a, m.held.data(), m.held.size()); m.u = srcml_archive_read_unit(a); }, true});
    }
    const int len = th ? 4 : 3;
    mc::add("views in every order", std::to_string(cases.size()) + " units (parsed once and twice, written by elements, read from archives and solitary units, alone and between others; documents other tools write) x every sequence of " + std::to_string(len) + " of 8 views (full, outer, inner, source, written to a plain archive, written solitary, written to an archive with its options, metadata)", 1, 60, [=] {
        int ci = mc::choose((int) cases.size()); const Case& c = cases[(size_t) ci];
        static int last = -1; static VS ref; static int reps;
        if (last != ci) {
            // what each view shows when it is the first that is asked for
            ref.clear(); last = ci; reps = 0; for (int v = 0; v < VIEWS; ++v) { Made m; c.make(m); MC_CHECK(m.u, "no unit", c.name); ref.push_back(m.u ? view(m.u, v, c.opts) : ""); }
        }
        if (!reps++) agree(c, ref, c.name);
        Made m; c.make(m); str h = c.name + ":"; if (!m.u) return;
        for (int i = 0; i < len; ++i) { int v = mc::choose(VIEWS); mc::step(); h += str(" ") + VN[v]; str g = view(m.u, v, c.opts); MC_CHECK(g == ref[(size_t) v], "a view depends on what was asked before", h + "\nnow   " + g + "\nfirst " + ref[(size_t) v]); }
        mc::validated(); mc::state(ref[FULL]);
    });
    // strings of one unit stay while those of another are asked for
    static std::vector<int> some; for (size_t i = 0; i < cases.size(); i += cases.size() / (th ? 60 : 24)) some.push_back((int) i);
    const int calls = th ? 4 : 3;
    mc::add("strings of two units", std::to_string(some.size()) + " of these units by the same, every two x every sequence of " + std::to_string(calls) + " of the three views of either: each string stays until the next of its unit", 3, 20, [=] {
        int ci[2]; for (int& k : ci) k = some[(size_t) mc::choose((int) some.size())];
        Made m[2]; for (int k = 0; k < 2; ++k) { cases[(size_t) ci[k]].make(m[k]); if (!m[k].u) return; }
        static int last[2] = {-1, -1}; static VS ref[2];
        for (int k = 0; k < 2; ++k) if (last[k] != ci[k]) { last[k] = ci[k]; ref[k].clear(); for (int v : {FULL, OUTER, INNER}) { Made f; cases[(size_t) ci[k]].make(f); ref[k].push_back(f.u ? view(f.u, v, 0) : ""); } }
        const char* held[2] = {nullptr, nullptr}; int which[2] = {0, 0}; str h = cases[(size_t) ci[0]].name + " and " + cases[(size_t) ci[1]].name + ":";
        for (int i = 0; i < calls; ++i) {
            int k = mc::choose(2), v = mc::choose(3); mc::step(); h += str(" ") + VN[v] + " of " + (k ? "second" : "first");
            held[k] = v == FULL ? srcml_unit_get_srcml(m[k].u) : v == OUTER ? srcml_unit_get_srcml_outer(m[k].u) : srcml_unit_get_srcml_inner(m[k].u); which[k] = v;
            for (int j = 0; j < 2; ++j) if (held[j]) MC_CHECK(sml::s(held[j]) == ref[j][(size_t) which[j]], j == k ? "a view depends on another unit" : "a view of a unit changes when another unit is asked for one", h + "\nnow   " + sml::s(held[j]) + "\nfirst " + ref[j][(size_t) which[j]]);
        }
        mc::validated(); mc::state(h);
    });
}
MC_MAIN
