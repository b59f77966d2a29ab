// P13: XPath on a unit: queries and marks, against a DOM of the unit that libsrcml did not make.
// P14: sequences of transformations, against hand-written functions on such DOMs.
#include "mc.hpp"
#include "obs.hpp"
#include "sml.hpp"
#include <libxml/parser.h>
#include <libxml/tree.h>
#include <libxml/xpath.h>
#include <libxml/xpathInternals.h>
#include <fcntl.h>
#include <unistd.h>
#include <functional>
#include <cmath>
#include <map>
#include <set>
using str = std::string; using VS = std::vector<str>;
static const char *SRC = "http://www.srcML.org/srcML/src", *CPP = "http://www.srcML.org/srcML/cpp", *FOO = "http://foo.com/";
static str uri(xmlNsPtr n) { return n && n->href ? (const char*) n->href : ""; }
static str value(xmlAttrPtr a) { xmlChar* v = xmlNodeListGetString(a->doc, a->children, 1); str s = v ? (const char*) v : ""; xmlFree(v); return s; }
static bool is_el(xmlNodePtr n) { return n->type == XML_ELEMENT_NODE; }
static bool is_unit(xmlNodePtr n) { return is_el(n) && str((const char*) n->name) == "unit"; }
static const str TABS = "{http://www.srcML.org/srcML/position}tabs"; // written as the options of the archive say
// marks: nodes that are wrapped in an element, and elements that get an attribute
struct Marks { std::set<const void*> wrap, att; str el_uri, el, at_uri, at, val; bool el_at = false; };
static str atts(xmlNodePtr n, const Marks* m, const std::set<str>& without = {}) {
    std::map<str, str> as; for (xmlAttrPtr a = n->properties; a; a = a->next) as["{" + uri(a->ns) + "}" + (const char*) a->name] = value(a);
    if (m && m->att.count(n)) { str k = "{" + m->at_uri + "}" + m->at; auto i = as.find(k); if (i == as.end()) as[k] = m->val; else if (i->second != m->val) i->second += " " + m->val; }
    str o; for (auto& a : as) if (!without.count(a.first) && !(is_unit(n) && (a.first == TABS || a.first == "{}revision"))) o += " " + a.first + "='" + a.second + "'"; return o;
}
static str canon(xmlNodePtr n, const Marks* m = nullptr);
static str inside(xmlNodePtr n, const Marks* m = nullptr) { str o; for (xmlNodePtr c = n->children; c; c = c->next) o += canon(c, m); return o; }
static str wrapped(const Marks* m, const str& in) { return "\x1{" + m->el_uri + "}" + m->el + (m->el_at ? " {" + m->at_uri + "}" + m->at + "='" + m->val + "'" : "") + "\x2" + in + "\x3"; }
static str canon(xmlNodePtr n, const Marks* m) {
    str o;
    switch (n->type) {
    case XML_TEXT_NODE: case XML_CDATA_SECTION_NODE: o = (const char*) n->content; break;
    case XML_COMMENT_NODE: o = "<!--" + str((const char*) n->content) + "-->"; break;
    case XML_PI_NODE: o = "<?" + str((const char*) n->name) + " " + (n->content ? (const char*) n->content : "") + "?>"; break;
    case XML_ATTRIBUTE_NODE: o = str((const char*) n->name) + "=\"" + value((xmlAttrPtr) n) + "\""; break;
    case XML_ELEMENT_NODE: { str in = inside(n, m); bool top = is_unit(n) && m && m->wrap.count(n); if (top) in = wrapped(m, in); o = "\x1{" + uri(n->ns) + "}" + (const char*) n->name + atts(n, m) + "\x2" + in + "\x3"; if (top) return o; break; }
    default: o = "?" + std::to_string(n->type);
    }
    if (m && m->wrap.count(n)) o = wrapped(m, o);
    return o;
}
using Doc = std::shared_ptr<xmlDoc>;
static Doc own(xmlDocPtr d) { return Doc(d, [](xmlDocPtr d) { if (d) xmlFreeDoc(d); }); }
static Doc read(const str& b) { return own(xmlReadMemory(b.data(), (int) b.size(), "d", nullptr, XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_NONET | XML_PARSE_HUGE)); }
// what an XPath expression gives, in document order
struct Eval { bool bad = false; int type = 0; std::vector<xmlNodePtr> nodes; double num = 0; bool b = false; str s; bool ns = false, doc = false; };
static int after(xmlNodePtr a, xmlNodePtr b) { return xmlXPathCmpNodes(a, b) == 1; }
static Eval eval(xmlDocPtr d, const str& e, const std::map<str, str>& more) {
    Eval r; xmlXPathContextPtr c = xmlXPathNewContext(d); c->error = [](void*, xmlErrorPtr) {};
    for (auto& p : std::map<str, str>{{"src", SRC}, {"cpp", CPP}, {"err", "http://www.srcML.org/srcML/srcerr"}, {"omp", "http://www.srcML.org/srcML/openmp"}, {"pos", "http://www.srcML.org/srcML/position"}, {"diff", "http://www.srcML.org/srcDiff"}}) xmlXPathRegisterNs(c, BAD_CAST p.first.c_str(), BAD_CAST p.second.c_str());
    for (auto& p : more) xmlXPathRegisterNs(c, BAD_CAST p.first.c_str(), BAD_CAST p.second.c_str());
    c->node = (xmlNodePtr) d;
    xmlXPathObjectPtr o = xmlXPathEvalExpression(BAD_CAST e.c_str(), c);
    if (!o) r.bad = true; else {
        r.type = o->type;
        if (o->type == XPATH_NODESET && o->nodesetval) for (int i = 0; i < o->nodesetval->nodeNr; ++i) { xmlNodePtr n = o->nodesetval->nodeTab[i]; if (n->type == XML_NAMESPACE_DECL) { r.ns = true; continue; } if (n->type == XML_DOCUMENT_NODE) { r.doc = true; n = xmlDocGetRootElement(d); } if (std::find(r.nodes.begin(), r.nodes.end(), n) == r.nodes.end()) r.nodes.push_back(n); }
        // attributes of one element keep their order
        std::stable_sort(r.nodes.begin(), r.nodes.end(), [](xmlNodePtr a, xmlNodePtr b) { return a != b && after(a, b); });
        if (o->type == XPATH_NUMBER) r.num = o->floatval; if (o->type == XPATH_BOOLEAN) r.b = o->boolval; if (o->type == XPATH_STRING) r.s = (const char*) o->stringval;
        xmlXPathFreeObject(o);
    }
    xmlXPathFreeContext(c); return r;
}
static std::map<str, str> prefixes(xmlDocPtr d) { std::map<str, str> m; for (xmlNsPtr n = xmlDocGetRootElement(d)->nsDef; n; n = n->next) if (n->prefix) m[(const char*) n->prefix] = (const char*) n->href; return m; }
// what a sequence of transformations should give
struct Item { Doc d; xmlNodePtr n; };
struct Want { bool bad = false; int type = SRCML_RESULT_NONE; VS items; str scalar; };
static str show_item(xmlNodePtr n, const Marks* m, xmlNodePtr unit) {
    if (is_unit(n)) return "unit" + atts(n, m) + ": " + (m && m->wrap.count(n) ? wrapped(m, inside(n, m)) : inside(n, m));
    return "item" + atts(unit, nullptr, {"{}hash"}) + ": " + canon(n, m);
}
// ---- units
struct Made { std::vector<srcml_archive*> as; srcml_archive* a = nullptr; srcml_unit* u = nullptr; str held; ~Made() { if (u) srcml_unit_free(u); for (auto x : as) { srcml_archive_close(x); srcml_archive_free(x); } } };
struct UnitDef { str name; std::function<void(Made&)> make; };
static std::vector<UnitDef> units;
static void parsed(Made& m, const str& src, const char* lang, size_t opts, const char* file) {
    m.a = srcml_archive_create(); m.as.push_back(m.a); if (opts) srcml_archive_enable_option(m.a, opts); m.u = srcml_unit_create(m.a); srcml_unit_set_language(m.u, lang); srcml_unit_set_src_encoding(m.u, "UTF-8"); if (file) { srcml_unit_set_filename(m.u, file); srcml_unit_set_version(m.u, "1 \"<&"); } srcml_unit_parse_memory(m.u, src.data(), src.size());
}
static void given(Made& m, const str& doc) { m.held = doc; m.a = srcml_archive_create(); m.as.push_back(m.a); srcml_archive_read_open_memory(m.a, m.held.data(), m.held.size()); m.u = srcml_archive_read_unit(m.a); }
static void make_units() {
    auto P = [](const str& n, const str& s, const char* l = "C++", size_t o = 0, const char* f = nullptr) { units.push_back({n + " '" + mc::show(s) + "'", [=](Made& m) { parsed(m, s, l, o, f); }}); };
    P("parsed", "a = f(b, \"<&'\") < g(f(1)); // x & <y>\n", "C++", 0, "d/a b.cpp");
    P("parsed", "#define F(x) x\nint f(int a) { if (a) { return f(a - 1); } }\n#ifdef b\n#endif\n");
    P("parsed", "", "Java"); P("parsed", "\xC3\xA9 = 1;\n\n", "Java", 0, "\xC3\xA9.java"); P("parsed with positions", "a;\nb = c;\n", "C", SRCML_OPTION_POSITION); P("parsed", "x", "C#");
    auto G = [](const str& n, const str& d) { units.push_back({n + " " + d, [=](Made& m) { given(m, d); }}); };
    str N = " xmlns=\"" + str(SRC) + "\"";
    G("read", "<unit" + N + " xmlns:cpp=\"" + CPP + "\" xmlns:e=\"http://e/\" language=\"C++\" filename=\"\"><!-- c & d --><name>a<name e:k=\"&quot;'&lt;\" k=\"\">b</name></name><e:z>&lt;<?p q r?></e:z><name/><cpp:endif>#<cpp:directive>endif</cpp:directive></cpp:endif> <expr><name type=\"t\">c</name> <expr>&amp;</expr></expr></unit>");
    G("read", "<unit" + N + " revision=\"1.0.0\">\n\n<unit revision=\"1.0.0\" language=\"C\" filename=\"x.c\" hash=\"abc\"><expr><name>f</name></expr></unit>\n\n<unit language=\"C\"/>\n\n</unit>");
    // usual prefixes bound to something else
    G("read", "<unit" + N + " xmlns:cpp=\"http://e/\" xmlns:src=\"http://s/\" xmlns:pos=\"http://p/\" language=\"C++\"><cpp:endif>#<src:name pos:start=\"1\">x</src:name></cpp:endif><name cpp:k=\"v\">a</name></unit>");
    G("read", "<s:unit xmlns:s=\"" + str(SRC) + "\" language=\"C++\"><s:expr><s:name s:at=\"1\">a</s:name></s:expr>;</s:unit>");
}
// ---- transformations
enum { XP, EL, AT, ELAT, XSL, RNG, CLEAR };
struct T { int k; str a, b; str el = "mark", pre = "pre", uri = FOO, at = "att", val = "v"; VS params; bool sp = false; int chan = 0; };
static str show(const T& t) { static const char* N[] = {"xpath ", "element mark ", "attribute mark ", "element and attribute mark ", "xslt ", "relaxng ", "clear"}; str o = N[t.k] + t.a; if (t.k == EL || t.k == ELAT) o += " <" + t.pre + ":" + t.el + ">"; if (t.k == AT || t.k == ELAT) o += " @" + t.pre + ":" + t.at; for (auto& p : t.params) o += " param " + p; return o; }
static str sheet(const str& body) { return "<xsl:stylesheet xmlns:xsl=\"http://www.w3.org/1999/XSL/Transform\" xmlns:s=\"" + str(SRC) + "\" xmlns=\"" + SRC + "\" xmlns:math=\"http://exslt.org/math\" exclude-result-prefixes=\"s math\" version=\"1.0\">" + body + "</xsl:stylesheet>"; }
static const str COPY = "<xsl:template match=\"@*|node()\"><xsl:copy><xsl:apply-templates select=\"@*|node()\"/></xsl:copy></xsl:template>";
static bool refused(const T& t) { return t.a == "not XML" || t.a == "not a program" || t.a == "wrong select"; }
static str program(const T& t) {
    if (t.k == RNG && !refused(t)) {
        str any = "<define name=\"any\"><element><anyName/><zeroOrMore><choice><attribute><anyName/></attribute><text/><ref name=\"any\"/></choice></zeroOrMore></element></define>";
        str start = t.a == "any" ? "<ref name=\"any\"/>" : "<element name=\"" + t.a + "\" ns=\"" + SRC + "\"><zeroOrMore><choice><attribute><anyName/></attribute><text/><ref name=\"any\"/></choice></zeroOrMore></element>";
        return "<grammar xmlns=\"http://relaxng.org/ns/structure/1.0\"><start>" + start + "</start>" + any + "</grammar>";
    }
    if (t.a == "identity") return sheet(COPY);
    if (t.a == "rename") return sheet(COPY + "<xsl:template match=\"s:name\"><id><xsl:apply-templates select=\"@*|node()\"/></id></xsl:template>");
    if (t.a == "param") return sheet("<xsl:param name=\"p\">none</xsl:param>" + COPY + "<xsl:template match=\"/*\"><xsl:copy><xsl:copy-of select=\"@*\"/><xsl:attribute name=\"p\"><xsl:value-of select=\"$p\"/></xsl:attribute><xsl:apply-templates/></xsl:copy></xsl:template>");
    if (t.a == "text") return sheet("<xsl:output method=\"text\"/><xsl:template match=\"/\"><xsl:value-of select=\"concat('t:', .)\"/></xsl:template>");
    if (t.a == "html") return sheet("<xsl:template match=\"/\"><h xmlns=\"http://h/\" n=\"{count(//s:name)}\">&lt;<b/></h></xsl:template>");
    if (t.a == "split") return sheet("<xsl:template match=\"/\"><xsl:comment>c</xsl:comment><xsl:for-each select=\"//s:expr\"><xsl:copy-of select=\".\"/></xsl:for-each></xsl:template>");
    if (t.a == "max") return sheet("<xsl:output method=\"text\"/><xsl:template match=\"/\"><xsl:value-of select=\"math:max(//*/@*[false()] | //s:none)\"/><xsl:text>m</xsl:text></xsl:template>");
    if (t.a == "nothing") return sheet("<xsl:template match=\"/\"/>");
    if (t.a == "comment") return sheet("<xsl:template match=\"/\"><xsl:comment>c</xsl:comment></xsl:template>");
    if (t.a == "not XML") return "<xsl:stylesheet";
    if (t.a == "not a program") return t.k == XSL ? "<a><b/></a>" : "<grammar xmlns=\"http://relaxng.org/ns/structure/1.0\"><start><ref name=\"none\"/></start></grammar>";
    if (t.a == "wrong select") return sheet("<xsl:template match=\"/[\"/>");
    return "";
}
// the program from memory, a file, a stream or a descriptor
static int from(srcml_archive* a, bool xslt, int chan, const str& p) {
    if (!chan) return xslt ? srcml_append_transform_xslt_memory(a, p.data(), p.size()) : srcml_append_transform_relaxng_memory(a, p.data(), p.size());
    str f = mc::scratch() + "/program" + std::to_string(getpid()); FILE* o = fopen(f.c_str(), "wb"); fwrite(p.data(), 1, p.size(), o); fclose(o); int r = -1;
    if (chan == 1) r = xslt ? srcml_append_transform_xslt_filename(a, f.c_str()) : srcml_append_transform_relaxng_filename(a, f.c_str());
    if (chan == 2) { FILE* i = fopen(f.c_str(), "rb"); r = xslt ? srcml_append_transform_xslt_FILE(a, i) : srcml_append_transform_relaxng_FILE(a, i); fclose(i); }
    if (chan == 3) { int d = open(f.c_str(), O_RDONLY); r = xslt ? srcml_append_transform_xslt_fd(a, d) : srcml_append_transform_relaxng_fd(a, d); close(d); }
    unlink(f.c_str()); return r;
}
static int append(srcml_archive* a, const T& t) {
    switch (t.k) {
    case XP: return srcml_append_transform_xpath(a, t.a.c_str());
    case EL: return srcml_append_transform_xpath_element(a, t.a.c_str(), t.pre.c_str(), t.uri.c_str(), t.el.c_str());
    case AT: return srcml_append_transform_xpath_attribute(a, t.a.c_str(), t.pre.c_str(), t.uri.c_str(), t.at.c_str(), t.val.c_str());
    case ELAT: { int r = srcml_append_transform_xpath_element(a, t.a.c_str(), t.pre.c_str(), t.uri.c_str(), t.el.c_str()); return r ? r : srcml_append_transform_xpath_attribute(a, t.a.c_str(), t.pre.c_str(), t.uri.c_str(), t.at.c_str(), t.val.c_str()); }
    case CLEAR: return srcml_clear_transforms(a);
    default: { str p = program(t); int r = from(a, t.k == XSL, t.chan, p); for (auto& x : t.params) { if (r) break; r = t.sp ? srcml_append_transform_stringparam(a, "p", x.c_str()) : srcml_append_transform_param(a, "p", x.c_str()); } return r; }
    }
}
static void rename(xmlNodePtr n) { if (is_el(n) && str((const char*) n->name) == "name" && uri(n->ns) == SRC) xmlNodeSetName(n, BAD_CAST "id"); for (xmlNodePtr c = n->children; c; c = c->next) rename(c); }
static void mark_dom(xmlDocPtr d, const std::vector<xmlNodePtr>& ns, const T& t);
// one step on one document: nodes, or a scalar
struct Step { std::vector<Item> items; int type = 0; str scalar; bool bad = false; };
static str num(double d) { char b[64]; snprintf(b, sizeof b, "%.17g", d); return b; }
static Marks marks(const T& t, const std::vector<xmlNodePtr>& ns) {
    Marks m; m.el_uri = t.pre.empty() ? str(SRC) : t.uri; m.el = t.el; m.at_uri = t.pre.empty() ? "" : t.uri; m.at = t.at; m.val = t.val; m.el_at = t.k == ELAT;
    for (auto n : ns) { if (t.k == AT) { if (is_el(n)) m.att.insert(n); } else if (n->type == XML_ELEMENT_NODE || n->type == XML_TEXT_NODE || n->type == XML_COMMENT_NODE || n->type == XML_PI_NODE || n->type == XML_CDATA_SECTION_NODE) m.wrap.insert(n); }
    return m;
}
// rebuild a tree with its marks
static void rebuild(xmlNodePtr from, xmlNodePtr into, xmlDocPtr d, const Marks& m);
static xmlNsPtr ns_for(xmlNodePtr n, const str& u, const str& p) { if (u.empty()) return nullptr; xmlNsPtr x = xmlSearchNsByHref(n->doc, n, BAD_CAST u.c_str()); return x && (p.empty() || x->prefix) ? x : xmlNewNs(n, BAD_CAST u.c_str(), p.empty() ? nullptr : BAD_CAST p.c_str()); }
static xmlNodePtr wrapper(xmlNodePtr into, const Marks& m) { xmlNodePtr w = xmlNewChild(into, nullptr, BAD_CAST m.el.c_str(), nullptr); xmlSetNs(w, ns_for(w, m.el_uri, m.el_uri == SRC ? "" : "pre")); if (m.el_at) xmlNewNsProp(w, m.at_uri.empty() ? nullptr : ns_for(w, m.at_uri, "pre"), BAD_CAST m.at.c_str(), BAD_CAST m.val.c_str()); return w; }
static xmlNodePtr shell(xmlNodePtr from, xmlNodePtr parent, xmlDocPtr d, const Marks& m) {
    xmlNodePtr e = xmlNewDocNode(d, nullptr, from->name, nullptr); if (parent) xmlAddChild(parent, e); else xmlDocSetRootElement(d, e);
    for (xmlNsPtr n = from->nsDef; n; n = n->next) xmlNewNs(e, n->href, n->prefix);
    if (from->ns) { xmlNsPtr n = xmlSearchNs(d, e, from->ns->prefix); if (!n || uri(n) != uri(from->ns)) n = xmlNewNs(e, from->ns->href, from->ns->prefix); xmlSetNs(e, n); }
    for (xmlAttrPtr a = from->properties; a; a = a->next) { xmlNsPtr n = nullptr; if (a->ns) { n = xmlSearchNs(d, e, a->ns->prefix); if (!n || uri(n) != uri(a->ns)) n = xmlNewNs(e, a->ns->href, a->ns->prefix); } xmlNewNsProp(e, n, a->name, BAD_CAST value(a).c_str()); }
    if (m.att.count(from)) { str old; bool has = false; for (xmlAttrPtr a = from->properties; a; a = a->next) if (str((const char*) a->name) == m.at && uri(a->ns) == m.at_uri) { has = true; old = value(a); } xmlNsPtr n = m.at_uri.empty() ? nullptr : ns_for(e, m.at_uri, "pre"); xmlSetNsProp(e, n, BAD_CAST m.at.c_str(), BAD_CAST (has && old != m.val ? old + " " + m.val : m.val).c_str()); }
    return e;
}
static void rebuild(xmlNodePtr from, xmlNodePtr into, xmlDocPtr d, const Marks& m) {
    for (xmlNodePtr c = from->children; c; c = c->next) {
        xmlNodePtr at = m.wrap.count(c) ? wrapper(into, m) : into;
        if (is_el(c)) { xmlNodePtr e = shell(c, at, d, m); rebuild(c, e, d, m); }
        else xmlAddChild(at, xmlDocCopyNode(c, d, 1));
    }
}
static Doc marked(xmlDocPtr d, const Marks& m) {
    Doc r = own(xmlNewDoc(BAD_CAST "1.0")); xmlNodePtr root = xmlDocGetRootElement(d);
    if (m.wrap.count(root) && !is_unit(root)) { xmlNodePtr w = xmlNewDocNode(r.get(), nullptr, BAD_CAST m.el.c_str(), nullptr); xmlDocSetRootElement(r.get(), w); xmlSetNs(w, xmlNewNs(w, BAD_CAST m.el_uri.c_str(), m.el_uri == SRC ? nullptr : BAD_CAST "pre")); if (m.el_at) xmlNewNsProp(w, m.at_uri.empty() ? nullptr : w->ns, BAD_CAST m.at.c_str(), BAD_CAST m.val.c_str()); rebuild(root, shell(root, w, r.get(), m), r.get(), m); }
    else { xmlNodePtr e = shell(root, nullptr, r.get(), m); if (m.wrap.count(root)) { xmlNodePtr w = wrapper(e, m); rebuild(root, w, r.get(), m); } else rebuild(root, e, r.get(), m); }
    return r;
}
static Doc copy_of(xmlNodePtr n) { Doc r = own(xmlNewDoc(BAD_CAST "1.0")); xmlNodePtr e = shell(n, nullptr, r.get(), Marks()); rebuild(n, e, r.get(), Marks()); return r; }
static Step one(const T& t, Doc d, const std::map<str, str>& base) {
    Step s; xmlNodePtr root = xmlDocGetRootElement(d.get());
    auto px = base; for (auto& p : prefixes(d.get())) px[p.first] = p.second;
    switch (t.k) {
    case XP: case EL: case AT: case ELAT: {
        Eval e = eval(d.get(), t.a, px); if (e.bad) { s.bad = true; return s; }
        if (e.type != XPATH_NODESET) { s.type = e.type; s.scalar = e.type == XPATH_NUMBER ? num(e.num) : e.type == XPATH_BOOLEAN ? str(e.b ? "true" : "false") : e.s; return s; }
        if (t.k == XP) { for (auto n : e.nodes) s.items.push_back({d, n}); if (e.nodes.size()) s.type = SRCML_RESULT_UNITS; return s; }
        if (e.doc) mc::prune(); /* not decided what marking the document does */ Doc r = marked(d.get(), marks(t, e.nodes)); s.items.push_back({r, xmlDocGetRootElement(r.get())}); s.type = SRCML_RESULT_UNITS; return s; }
    case RNG: if (t.a == "any" || (str((const char*) root->name) == t.a && uri(root->ns) == SRC)) { s.items.push_back({d, root}); s.type = SRCML_RESULT_UNITS; } return s;
    case XSL: {
        xmlChar* c = xmlNodeGetContent(root); str txt = c ? (const char*) c : ""; xmlFree(c);
        if (t.a == "nothing") return s;
        if (t.a == "comment") { s.type = SRCML_RESULT_STRING; return s; }
        if (t.a == "text") { s.type = SRCML_RESULT_STRING; s.scalar = "t:" + txt; return s; }
        if (t.a == "max") { s.type = SRCML_RESULT_STRING; s.scalar = "NaNm"; return s; }
        Doc r;
        if (t.a == "html") { Eval e = eval(d.get(), "count(//src:name)", {}); r = read("<h xmlns=\"http://h/\" n=\"" + std::to_string((int) e.num) + "\">&lt;<b/></h>"); }
        else if (t.a == "split") { Eval e = eval(d.get(), "//src:expr", {}); for (auto n : e.nodes) { Doc k = copy_of(n); s.items.push_back({k, xmlDocGetRootElement(k.get())}); } s.type = e.nodes.empty() ? SRCML_RESULT_STRING : SRCML_RESULT_UNITS; return s; }
        else r = copy_of(root);
        if (t.a == "rename") rename(xmlDocGetRootElement(r.get()));
        if (t.a == "param") xmlSetProp(xmlDocGetRootElement(r.get()), BAD_CAST "p", BAD_CAST t.b.c_str());
        s.items.push_back({r, xmlDocGetRootElement(r.get())}); s.type = SRCML_RESULT_UNITS; return s; }
    }
    return s;
}
static Want want(const str& full, const std::vector<T>& seq) {
    Want w; Doc d = read(full); if (!d) mc::fail("the unit is not well-formed", full); auto base = prefixes(d.get()); std::vector<Item> cur{{d, xmlDocGetRootElement(d.get())}}; std::vector<Doc> docs{d}; Step last; int n = 0; std::vector<Item> keep;
    for (auto& t : seq) {
        if (n++) { docs.clear(); for (auto& i : cur) if (is_el(i.n)) docs.push_back(copy_of(i.n)); }
        std::vector<Item> next; last = Step(); bool first = true;
        for (auto& x : docs) { Step s = one(t, x, base); if (s.bad) { w.bad = true; return w; } for (auto& i : s.items) next.push_back(i); if (s.type != SRCML_RESULT_NONE && s.type != SRCML_RESULT_UNITS && first) { last = s; first = false; } }
        cur = next; if (cur.empty()) break;
    }
    if (!cur.empty()) { w.type = SRCML_RESULT_UNITS; for (auto& i : cur) w.items.push_back(show_item(i.n, nullptr, xmlDocGetRootElement(d.get()))); }
    else { w.type = last.type; w.scalar = last.scalar; }
    return w;
}
// what the library gives
static str unit_state(srcml_unit* u) { return sml::obs_unit_meta(u) + "\n" + sml::s(srcml_unit_get_srcml(u)); }
static Want got(Made& m, srcml_transform_result* r, int rc, const str& why, bool raw = false) {
    Want w; if (rc != SRCML_STATUS_OK) { w.bad = true; MC_CHECK(!r, "a result together with an error", why); return w; }
    w.type = srcml_transform_get_type(r); size_t n = srcml_transform_get_unit_size(r);
    if (w.type == SRCML_RESULT_STRING) w.scalar = sml::s(srcml_transform_get_string(r));
    if (w.type == SRCML_RESULT_NUMBER) w.scalar = num(srcml_transform_get_number(r));
    if (w.type == SRCML_RESULT_BOOLEAN) w.scalar = srcml_transform_get_bool(r) ? "true" : "false";
    if (w.type != SRCML_RESULT_UNITS) { MC_CHECK(n == 0 && !srcml_transform_get_unit(r, 0), "units in a result of another type", why); return w; }
    sml::Out o; srcml_archive* a = srcml_archive_create(); m.as.push_back(a); srcml_archive_register_namespace(a, "pre", FOO); srcml_archive_register_namespace(a, "e", "http://e/"); srcml_archive_register_namespace(a, "s", SRC); srcml_archive_register_namespace(a, "", SRC); srcml_archive_write_open_memory(a, &o.p, &o.n);
    for (size_t i = 0; i < n; ++i) { srcml_unit* u = srcml_transform_get_unit(r, (int) i); MC_CHECK(u, "a result unit is missing", why); int k = srcml_archive_write_unit(a, u); MC_CHECK(!k, "a result cannot be written", why + " " + std::to_string(k)); }
    srcml_archive_close(a); Doc d = read(o.str()); MC_CHECK(d, "the results make an archive that is not well-formed", why + "\n" + o.str());
    int k = 0; for (xmlNodePtr c = xmlDocGetRootElement(d.get())->children; c; c = c->next) {
        if (!is_el(c)) continue; ++k; xmlChar* it = xmlGetNoNsProp(c, BAD_CAST "item"); str item = it ? (const char*) it : ""; xmlFree(it);
        if (!item.empty()) MC_CHECK(item == std::to_string(k), "item number", why + "\n" + o.str());
        w.items.push_back((item.empty() ? "unit" : "item") + atts(c, nullptr, {"{}item"}) + ": " + inside(c));
    }
    MC_CHECK(k == (int) n, "results are missing in the archive", why + "\n" + o.str());
    return w;
}
static void compare(const Want& g, const Want& w, const str& why) {
    MC_CHECK(g.bad == w.bad, w.bad ? "an error is reported as success" : "a transformation fails", why);
    if (w.bad) return;
    MC_CHECK(g.type == w.type, "result type", why + "\ngot " + std::to_string(g.type) + " want " + std::to_string(w.type));
    MC_CHECK(g.scalar == w.scalar, "result value", why + "\ngot " + g.scalar + "\nwant " + w.scalar);
    MC_CHECK(g.items.size() == w.items.size(), "number of results", why + "\ngot " + std::to_string(g.items.size()) + " want " + std::to_string(w.items.size()));
    for (size_t i = 0; i < g.items.size(); ++i) MC_CHECK(g.items[i] == w.items[i], "a result has other content", why + "\nresult " + std::to_string(i + 1) + "\ngot  " + mc::show(g.items[i], 3000) + "\nwant " + mc::show(w.items[i], 3000));
}
static void check(int ui, const std::vector<T>& seq, int times = 1) {
    static Made m; static int last = -1; static str full, state;
    if (last != ui) { if (m.u) srcml_unit_free(m.u); for (auto x : m.as) { srcml_archive_close(x); srcml_archive_free(x); } m.as.clear(); m.u = nullptr; units[(size_t) ui].make(m); MC_CHECK(m.u, "no unit", units[(size_t) ui].name); last = ui; full = sml::s(srcml_unit_get_srcml(m.u)); state = unit_state(m.u); }
    str why = units[(size_t) ui].name; std::vector<T> eff; for (auto& t : seq) { why += "; " + show(t) + (t.chan ? " (channel " + std::to_string(t.chan) + ")" : ""); if (refused(t)) continue; if (t.k == CLEAR) eff.clear();
        else if (t.k == AT && !eff.empty() && eff.back().k == EL && eff.back().a == t.a) { T& e = eff.back(); if (e.pre != t.pre) mc::prune(); e.k = ELAT; e.at = t.at; e.val = t.val; } // the attribute of the new element
        else eff.push_back(t); }
    srcml_clear_transforms(m.a); for (auto& t : seq) { mc::step(); int r = append(m.a, t); if (refused(t)) { MC_CHECK(r != SRCML_STATUS_OK, "a program that does not load is accepted", why); continue; } MC_CHECK(r == SRCML_STATUS_OK, "a transformation cannot be appended", why + ": " + show(t) + " " + std::to_string(r)); }
    Want w; if (!eff.empty()) w = want(full, eff);
    for (int i = 0; i < times; ++i) {
        srcml_transform_result* r = nullptr; mc::step(); int rc = srcml_unit_apply_transforms(m.a, m.u, &r); size_t had = m.as.size();
        if (eff.empty()) { MC_CHECK(rc == SRCML_STATUS_OK && !r, "a result without a transformation", why); }
        else { Want g = got(m, r, rc, why); srcml_transform_free(r); while (m.as.size() > had) { srcml_archive_free(m.as.back()); m.as.pop_back(); } compare(g, w, why + (i ? " (again)" : "")); }
        str now = unit_state(m.u); MC_CHECK(now == state, "applying transformations changes the unit", why + "\n" + mc::diff(now, state));
    }
    mc::state(full + show(seq.empty() ? T{CLEAR} : seq[0]) + std::to_string(w.type) + (w.items.empty() ? w.scalar : w.items[0])); mc::validated();
}
void mc_setup() {
    int nul = open("/dev/null", O_WRONLY); dup2(nul, 2); xmlInitParser(); make_units();
    bool th = mc::thorough(); const int nu = (int) units.size(); str un = std::to_string(nu) + " units (parsed, with and without attributes and positions, read from archives, written by hand with foreign elements, comments, instructions, quotes, nested units, a prefixed root)";
    static const VS AX = {"child", "descendant", "descendant-or-self", "self", "parent", "ancestor", "ancestor-or-self", "following", "following-sibling", "preceding", "preceding-sibling", "attribute"};
    static const VS TE = {"node()", "*", "src:name", "src:expr", "text()", "comment()", "cpp:*", "type", "src:unit", "processing-instruction()"};
    static const VS PR = {"", "[1]", "[last()]", "[position()=2]", "[src:name]", "[.='f']", "[@type]", "[not(*)]"};
    static const VS ST = {"/", "//", "/src:unit/", "//src:expr/", "//src:name/", "//@*/", "//text()/"};
    static const VS MORE = {"/", "/*", "//namespace::*", "//src:name/namespace::*", "//src:name | //src:expr", "//src:expr | //src:name | //comment() | //@*", "//text() | /", "/ | //*", "(//src:name)[2]", "(//src:name)[last()] | (//src:name)[1]", "//src:name[../src:name]", "//src:unit//src:name", "//s:name", "//e:z | //@e:k", "//*[@*='']", "//@*[.='']",
        "count(//src:name)", "count(//*) div 0", "0 div 0", "-1.5", "string(//src:name)", "string(/)", "string(//none)", "'<&\"'", "concat(//src:name, ' & ')", "not(//src:name)", "//src:name = 'f'", "boolean(//none)", "sum(//none)", "name(//src:expr/*)", "local-name(/*)", "namespace-uri(/*)", "string-length(/)", "//none", "//cpp:*", "//pos:*", "//@pos:*", "//@*[namespace-uri() != '']", "id('x')",
        "", " ", "/[", "//src:name[", "f(", "unknown(1)", "//nope:name", "$x", "//src:name/", "'", "1 +", "//@", "src:unit[", "count()"};
    str set = mc::opt("set", "P13");
    static std::vector<VS> exprs; VS e1;
    for (auto& s : ST) for (auto& a : AX) for (auto& t : TE) for (auto& p : PR) e1.push_back(s + a + "::" + t + p);
    if (th) for (auto& a : AX) for (auto& t : TE) for (auto& b : AX) for (auto& p : PR) e1.push_back("//src:name/" + a + "::" + t + "/" + b + "::node()" + p);
    for (auto& e : MORE) e1.push_back(e);
    static VS E = e1, M = MORE; static int EN = (int) E.size();
    // marks are made with fewer expressions
    static VS EM; for (auto& s : VS{"/", "//", "//src:expr/"}) for (auto& a : VS{"child", "descendant-or-self", "parent", "ancestor-or-self", "following-sibling", "attribute"}) for (auto& t : TE) for (auto& p : VS{"", "[1]", "[last()]"}) EM.push_back(s + a + "::" + t + p);
    for (auto& e : MORE) EM.push_back(e);
    if (set == "P13") {
        mc::add("queries", un + " x " + std::to_string(EN) + " expressions (seven starts, every axis, ten node tests, eight predicates; unions, functions, scalars, documents, namespaces, invalid expressions)", 2, 60, [=] { int u = mc::choose(nu); const str& e = mc::pick(E); check(u, {T{XP, e}}); });
        static std::vector<T> KINDS; { T a{EL}; KINDS.push_back(a); T b{AT}; KINDS.push_back(b); T c{ELAT}; KINDS.push_back(c); T d{EL}; d.pre = ""; d.uri = ""; KINDS.push_back(d); T f{AT}; f.pre = ""; f.uri = ""; f.at = "type"; f.val = "<&\"'"; KINDS.push_back(f); T g{AT}; g.pre = "pre"; g.at = "k"; g.val = ""; KINDS.push_back(g); T h{EL}; h.el = "name"; KINDS.push_back(h); T i{AT}; i.val = "v w"; KINDS.push_back(i); T j{AT}; j.val = "av"; KINDS.push_back(j); }
        mc::add("marks", un + " x " + std::to_string(EM.size()) + " expressions x 9 marks (element, attribute, both, without a prefix, an attribute that is there already, an empty value, values that contain one another)", 2, 60, [=] { int u = mc::choose(nu); const str& e = mc::pick(EM); T t = mc::pick(KINDS); t.a = e; check(u, {t}); });
        static const VS E2 = {"//src:name", "//src:expr", "/src:unit", "//text()", "//src:expr/src:name[1]", "//comment()", "/", "//@*", "//none", "//pre:mark", "//*[@pre:att]"};
        mc::add("marks on marks", un + " x every pair of 11 expressions x 9 x 9 marks", 2, 60, [=] { int u = mc::choose(nu); T a = mc::pick(KINDS), b = mc::pick(KINDS); a.a = mc::pick(E2); b.a = mc::pick(E2); if (a.a.find("pre:") != str::npos) mc::prune(); if (b.a.find("pre:") != str::npos) mc::prune(); check(u, {a, b}); });
    }
    if (set == "P14") {
        static std::vector<T> TS;
        for (auto& e : {"//src:name", "//src:expr", "/src:unit", "//text()", "//none", "count(//src:name)", "string(/)", "//src:name/@*", "/", "/*/*", "//["}) TS.push_back(T{XP, e});
        for (auto& e : {"//src:name", "/*", "//src:expr"}) { TS.push_back(T{EL, e}); TS.push_back(T{AT, e}); }
        { T i{AT, "//src:name"}; i.val = "v w"; TS.push_back(i); }
        for (auto& e : {"identity", "rename", "text", "html", "split", "max", "nothing", "comment"}) TS.push_back(T{XSL, e});
        { T p{XSL, "param", "none"}; TS.push_back(p); p.params = {"1 + 1"}; p.b = "2"; TS.push_back(p); p.sp = true; p.b = "1 + 1"; TS.push_back(p); p.params = {"a\"b'<&"}; p.b = "a\"b'<&"; TS.push_back(p); }
        for (auto& e : {"any", "unit", "name"}) TS.push_back(T{RNG, e});
        TS.push_back(T{CLEAR});
        int n = th ? 4 : 3; static int N = n;
        mc::add("sequences", un + " x every sequence of up to " + std::to_string(n) + " of " + std::to_string(TS.size()) + " transformations (queries, element and attribute marks, XSLT programs with and without parameters, RelaxNG schemas, clear)", 2, 60, [=] {
            int u = mc::choose(nu); std::vector<T> s; for (int i = 0; i < N; ++i) { int k = mc::choose((int) TS.size() + 1); if (!k) break; s.push_back(TS[(size_t) k - 1]); }
            check(u, s, s.size() == 1 ? 3 : 1); });
        static std::vector<T> PS; for (auto& t : TS) if (t.k == XSL || t.k == RNG) PS.push_back(t); for (auto& e : {"not XML", "not a program"}) { PS.push_back(T{XSL, e}); PS.push_back(T{RNG, e}); } PS.push_back(T{XSL, "wrong select"});
        mc::add("programs", "every pair of " + std::to_string(PS.size()) + " XSLT and RelaxNG programs, those that do not load included, from memory, a file, a stream and a descriptor each, x " + std::to_string(nu) + " units", 2, 60, [=] {
            int u = mc::choose(nu); std::vector<T> s; for (int i = 0; i < 2; ++i) { T t = mc::pick(PS); t.chan = mc::choose(4); s.push_back(t); } check(u, s); });
        // two archives whose transformations live at the same time
        mc::add("other transformations", "every pair of two archives' XSLT programs, the one released before the other is applied, x " + std::to_string(nu) + " units", 2, 60, [=] {
            int u = mc::choose(nu); std::vector<int> xs; for (size_t i = 0; i < TS.size(); ++i) if (TS[i].k == XSL || TS[i].k == RNG) xs.push_back((int) i);
            const T &a = TS[(size_t) mc::pick(xs)], &b = TS[(size_t) mc::pick(xs)]; int when = mc::choose(3);
            srcml_archive* o = srcml_archive_create(); append(o, b); Made m; units[(size_t) u].make(m); str full = sml::s(srcml_unit_get_srcml(m.u)); str why = units[(size_t) u].name + "; " + show(a) + ", other archive " + show(b);
            append(m.a, a); if (when == 0) srcml_archive_free(o); if (when == 1) srcml_clear_transforms(o);
            srcml_transform_result* r = nullptr; int rc = srcml_unit_apply_transforms(m.a, m.u, &r); Want g = got(m, r, rc, why); srcml_transform_free(r); if (when) srcml_archive_free(o);
            compare(g, want(full, {a}), why); mc::validated(); mc::state(why); });
    }
}
MC_MAIN
