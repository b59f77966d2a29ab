// P29 - a document means the same however its XML is spelled
//
// Every document of a grammar of XML spellings is read by an independent parser and by libsrcml; what libsrcml says
// about each unit, and writes when the unit is copied, is compared with that reading.
#include "mc.hpp"
#include "sml.hpp"
#include "dom.hpp"
typedef std::string str; typedef std::vector<str> VS;
static const char* SRC = "http://www.srcML.org/srcML/src";
enum { SOLITARY, ARCHIVE, SHAPES };

struct Spell {
    int shape = SOLITARY;
    str decl = "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n", before, after, between = "\n\n", prefix;
    str root_tag;                    // attributes of the root as spelled, after the namespace
    str body = "a<name>b</name>;";
    str atts = " revision=\"1.0.0\" language=\"C++\" filename=\"one.cpp\"";
    str ns;                          // further declarations at the root
    str tag_end, quote = "\"";
    str enc;                         // transcoded to
};
static str spell(const Spell& p) {
    str u = p.prefix.empty() ? "unit" : p.prefix + ":unit";
    str ns = " xmlns" + (p.prefix.empty() ? "" : ":" + p.prefix) + "=" + p.quote + SRC + p.quote + p.ns;
    str one = p.body.empty() ? p.tag_end + "/>" : p.tag_end + ">" + p.body + "</" + u + p.tag_end + ">";
    str o = p.decl + p.before;
    if (p.shape == SOLITARY) o += "<" + u + ns + p.atts + one;
    else {
        o += "<" + u + ns + " revision=\"1.0.0\"" + p.tag_end + ">" + p.between + "<" + u + " revision=\"1.0.0\" language=\"C\" filename=\"zero.c\">z</" + u + ">" + p.between
           + "<" + u + p.atts + one + p.between + "<" + u + " revision=\"1.0.0\" language=\"Java\" filename=\"two.java\"/>" + p.between + "</" + u + ">";
    }
    o += p.after;
    if (p.enc.empty()) return o;
    str t;
    auto it = [&](unsigned c, bool le) { if (le) { t += (char) (c & 255); t += (char) (c >> 8); } else { t += (char) (c >> 8); t += (char) (c & 255); } };
    for (size_t i = 0; i < o.size(); ++i) {
        unsigned c = (unsigned char) o[i];
        if (c >= 0xC0) { c = (c & 31) << 6 | ((unsigned char) o[++i] & 63); }
        if (p.enc == "latin") t += (char) c; else it(c, p.enc == "le");
    }
    return p.enc == "le" ? "\xFF\xFE" + t : p.enc == "be" ? "\xFE\xFF" + t : t;
}

struct Io { str b; size_t at; size_t chunk; };
static int io_read(void* c, char* buf, int len) { Io* i = (Io*) c; size_t n = std::min({(size_t) len, i->b.size() - i->at, i->chunk}); memcpy(buf, i->b.data() + i->at, n); i->at += n; return (int) n; }
static int io_close(void*) { return 0; }

static const char* ATTS[] = {"language", "filename", "version", "timestamp", "hash", "revision"};
static const char* get(srcml_unit* u, int i) {
    switch (i) { case 0: return srcml_unit_get_language(u); case 1: return srcml_unit_get_filename(u); case 2: return srcml_unit_get_version(u); case 3: return srcml_unit_get_timestamp(u); case 4: return srcml_unit_get_hash(u); default: return srcml_unit_get_revision(u); }
}

static void check(const str& doc, int shape, size_t chunk, int skip = 0) {
    mc::state(doc);
    mc::note((chunk ? "read by callbacks of " + std::to_string(chunk) + ": " : "") + mc::show(doc.size() > 2000 ? doc.substr(0, 600) + "..." : doc));
    dom::Doc d(doc);
    if (!d.d) mc::prune();                      // not a document
    if (chunk) {                                // the XML library cannot read every document in small pieces
        Io io{doc, 0, chunk};
        xmlDocPtr t = xmlReadIO(io_read, io_close, &io, "d", nullptr, XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_NONET | XML_PARSE_HUGE);
        if (!t) mc::prune();
        xmlFreeDoc(t);
    }
    mc::validated();
    std::vector<xmlNodePtr> units;
    if (shape == SOLITARY) units.push_back(d.root());
    else for (xmlNodePtr n = d.root()->children; n; n = n->next) if (n->type == XML_ELEMENT_NODE && dom::s(n->name) == "unit") units.push_back(n);

    sml::Archive a(srcml_archive_create());
    Io io{doc, 0, chunk};
    int rc = chunk ? srcml_archive_read_open_io(a.get(), &io, io_read, io_close) : srcml_archive_read_open_memory(a.get(), doc.data(), doc.size());
    MC_CHECK(rc == SRCML_STATUS_OK, "not opened", "status " + std::to_string(rc));
    MC_CHECK(srcml_archive_is_solitary_unit(a.get()) == (shape == SOLITARY), "solitary", "solitary is " + std::to_string(srcml_archive_is_solitary_unit(a.get())));
    sml::Out out;
    sml::Archive w(srcml_archive_create());
    if (shape == SOLITARY) srcml_archive_enable_solitary_unit(w.get()); else srcml_archive_disable_solitary_unit(w.get());
    for (size_t i = 0; i < srcml_archive_get_namespace_size(a.get()); ++i)
        srcml_archive_register_namespace(w.get(), srcml_archive_get_namespace_prefix(a.get(), i), srcml_archive_get_namespace_uri(a.get(), i));
    srcml_archive_write_open_memory(w.get(), &out.p, &out.n);
    for (size_t k = 0; k < units.size(); ++k) {
        if (skip >> k & 1) { MC_CHECK(srcml_archive_skip_unit(a.get()), "not skipped", "unit " + std::to_string(k)); continue; }
        sml::Unit u(srcml_archive_read_unit(a.get()));
        MC_CHECK(u, "unit missing", "unit " + std::to_string(k) + " is not there");
        for (int i = 0; i < 6; ++i) {
            str g = sml::s(get(u.get(), i)), e = dom::att(units[k], ATTS[i], "(null)");
            if (i == 5 && e == "(null)") continue;
            MC_CHECK(g == e, str("attribute ") + ATTS[i], str(ATTS[i]) + " is " + mc::show(g) + ", in the document " + mc::show(e));
        }
        str v = sml::s(srcml_unit_get_srcml(u.get()));
        dom::Doc x(v);
        MC_CHECK(x.d, "view not well formed", x.err + ": " + mc::show(v));
        str g = dom::content(x.root()), e = dom::content(units[k]);
        MC_CHECK(g == e, "markup", "markup of unit " + std::to_string(k) + " is " + mc::show(g) + ", in the document " + mc::show(e));
        srcml_unit_set_src_encoding(u.get(), "UTF-8");
        sml::Out o; o.rc = srcml_unit_unparse_memory(u.get(), &o.p, &o.n);
        MC_CHECK(o.rc == SRCML_STATUS_OK, "unparse", "status " + std::to_string(o.rc));
        e = dom::text(units[k]);
        MC_CHECK(o.str() == e, "source", "source of unit " + std::to_string(k) + " is " + mc::show(o.str()) + ", in the document " + mc::show(e));
        int loc = (int) std::count(e.begin(), e.end(), '\n') + (!e.empty() && e.back() != '\n');
        MC_CHECK(srcml_unit_get_loc(u.get()) == loc, "loc", "loc " + std::to_string(srcml_unit_get_loc(u.get())) + ", expected " + std::to_string(loc));
        MC_CHECK(srcml_archive_write_unit(w.get(), u.get()) == SRCML_STATUS_OK, "not written", "");
    }
    MC_CHECK(!srcml_archive_read_unit(a.get()), "one unit too many", "");
    srcml_archive_close(w.get());
    dom::Doc c(out.str());
    MC_CHECK(c.d, "copy not well formed", c.err + ": " + mc::show(out.str()));
    size_t k = 0;
    for (xmlNodePtr n = shape == SOLITARY ? c.root() : c.root()->children; n; n = shape == SOLITARY ? nullptr : n->next) if (n->type == XML_ELEMENT_NODE) {
        while (k < units.size() && skip >> k & 1) ++k;
        MC_CHECK(k < units.size(), "copy has more units", mc::show(out.str()));
        str g = dom::content(n), e = dom::content(units[k]);
        MC_CHECK(g == e, "copied markup", "copy of unit " + std::to_string(k) + " is " + mc::show(g) + ", in the document " + mc::show(e) + "\n" + mc::show(out.str()));
        for (int i = 0; i < 5; ++i) {
            if (i == 4) continue;
            g = dom::att(n, ATTS[i]); e = dom::att(units[k], ATTS[i]);
            MC_CHECK(g == e, str("copied attribute ") + ATTS[i], str(ATTS[i]) + " is " + mc::show(g) + ", in the document " + mc::show(e));
        }
        ++k;
    }
    while (k < units.size() && skip >> k & 1) ++k;
    MC_CHECK(k == units.size(), "copy has fewer units", mc::show(out.str()));
}

static size_t channel() { static const size_t c[] = {0, 100, 4000}; return c[mc::choose(3)]; }

// what the contents of a unit are spelled with
static const VS PIECES = {
    "a", "<name>n</name>", "&lt;", "&#60;", "&#x3C;", "&amp;", "&#38;", "&quot;", "&apos;", "&gt;", ">", "'", "\"", "<![CDATA[<b>&]]>", "<![CDATA[]]>", "<![CDATA[x\n]]>", "<!-- c > ' -->", "<?p d > ?>",
    "<name\n>n</name >", "<name></name>", "<name/>", "<name />", "<literal type='>'/>", "<literal type=\"&quot;&#39;\"\n\t/>", "<x:y xmlns:x='u' x:z=\"&lt;\"/>", "\n", "\r\n", "&#13;", "&#10;", "\t", " ", "\xC3\xA9", "&#233;", "&#xE9;",
    "<escape char='0x1'/>", "<name xmlns=\"http://www.srcML.org/srcML/src\">n</name>", "]", "]]&gt;",
};
static void contents(int n) {
    Spell p;
    p.shape = mc::choose(SHAPES);
    int k = mc::choose(n) + 1;
    size_t ch = k < 4 ? channel() : 0;
    p.body.clear();
    for (int i = 0; i < k; ++i) p.body += mc::pick(PIECES);
    check(spell(p), p.shape, ch);
}
static void prefixed() {
    static const VS pieces = {"a", "<P:name>n</P:name>", "<P:name/>", "<![CDATA[<b>&]]>", "<!-- c -->", "<P:escape char='0x2'/>", "<name>no namespace</name>", "<P:name xmlns:P=\"http://www.srcML.org/srcML/src\">n</P:name>", "<P:literal type=\"1\"/>", "\n"};
    Spell p;
    p.shape = mc::choose(SHAPES);
    static const VS prefixes = {"src", "s", "p.x-y"};
    p.prefix = mc::pick(prefixes);
    size_t ch = channel();
    p.body.clear();
    int k = mc::choose(3);
    for (int i = 0; i < k; ++i) { str s = mc::pick(pieces); for (size_t at; (at = s.find('P')) != str::npos;) s.replace(at, 1, p.prefix); p.body += s; }
    check(spell(p), p.shape, ch);
}
static void declarations() {
    static const VS decl = {"", "<?xml version=\"1.0\"?>", "<?xml version='1.0' encoding='UTF-8'?>", "<?xml version = \"1.0\"  encoding = \"utf-8\" standalone='no' ?>\r\n", "\xEF\xBB\xBF", "\xEF\xBB\xBF<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n"};
    static const VS misc = {"", "\n", " \t\r\n\n", "<!-- c <unit> -->", "\n<!-- c --><!-- d -->\n", "<?p d?>\n"};
    static const VS after = {"", "\n", "\n\n  ", "<!-- e -->\n", "<?q?>", "\n<!-- > --><?q r?>\n"};
    static const VS bodies = {"", "a", "\xC3\xA9<name>b</name>"};
    Spell p;
    p.shape = mc::choose(SHAPES);
    size_t ch = channel();
    int how = mc::choose((int) decl.size() + 5);
    if (how < (int) decl.size()) p.decl = decl[how];
    else switch (how - decl.size()) {
        case 0: p.enc = "latin"; p.decl = "<?xml version=\"1.0\" encoding=\"ISO-8859-1\"?>\n"; break;
        case 1: p.enc = "le"; p.decl = "<?xml version=\"1.0\" encoding=\"UTF-16\"?>\n"; break;
        case 2: p.enc = "be"; p.decl = "<?xml version=\"1.0\" encoding=\"UTF-16\"?>\n"; break;
        case 3: p.enc = "le"; p.decl = ""; break;
        case 4: p.enc = "be"; p.decl = ""; break;
    }
    p.before = mc::pick(misc); p.after = mc::pick(after); p.body = mc::pick(bodies);
    check(spell(p), p.shape, ch);
}
static void tags() {
    static const VS sp = {" ", "\n", "\t ", "\r\n"}, eq = {"=", " = ", "=\n"}, end = {"", " ", "\n"};
    static const VS values = {"one.cpp", "a b.cpp", "a&amp;b.cpp", "&#97;.cpp", "&lt;x&gt;.cpp", "&quot;&apos;", "a>b", "\xC3\xA9.cpp", "&#233;.cpp", "a\nb", "a&#10;b", "", "&amp;lt;"};
    static const VS names = {"filename", "version", "timestamp", "hash"};
    Spell p;
    p.shape = mc::choose(SHAPES);
    p.quote = mc::choose(2) ? "'" : "\"";
    str s = mc::pick(sp), e = mc::pick(eq);
    p.tag_end = mc::pick(end);
    str n = mc::pick(names), v = mc::pick(values), q = p.quote;
    str one = s + "language" + e + q + "C++" + q, two = s + n + e + q + v + q, three = s + "revision" + e + q + "1.0.0" + q;
    switch (mc::choose(3)) { case 0: p.atts = one + two + three; break; case 1: p.atts = two + three + one; break; default: p.atts = three + two + one; }
    static const VS bodies = {"", "a"};
    p.body = mc::pick(bodies);
    check(spell(p), p.shape, 0);
}
static void between() {
    static const VS gap = {"", "\n", "\n\n", " ", "\r\n\r\n", "<!-- c -->", "\n<!-- <unit> -->\n", "<?p d?>", "\n\n\n\n\n\n", "&#10;", "<![CDATA[ ]]>", "<![CDATA[\n]]>\n"};
    static const VS bodies = {"", "a", "<name>b</name>\n", "<!-- c -->"};
    Spell p;
    p.shape = ARCHIVE;
    size_t ch = channel();
    str a = mc::pick(gap), b = mc::pick(gap);
    p.between = a + b; p.body = mc::pick(bodies);
    check(spell(p), p.shape, ch, mc::choose(8));
}
// long contents, where the buffers of the XML parser are refilled and moved
static void longer(bool th) {
    static const VS pieces = {"a", "<name>n</name>", "&lt;", "<![CDATA[<b>&]]>", "<!-- c > ' -->", "\n", "\xC3\xA9", "<literal type='>'/>"};
    static const size_t sizes[] = {60, 90, 240, 500, 1000, 3900, 4090, 8100, 20000, 70000, 310000};
    Spell p;
    p.shape = mc::choose(SHAPES);
    static const size_t ch[] = {0, 100, 1000, 4000, 4096};
    size_t c = ch[mc::choose(5)];
    str a = mc::pick(pieces), b = mc::pick(pieces);
    size_t size = sizes[mc::choose(th ? 11 : 10)];
    int shift = mc::choose(th ? 24 : 3);
    p.body = str((size_t) shift, 'z');
    while (p.body.size() < size) p.body += a + b;
    p.body += b;
    check(spell(p), p.shape, c);
}

// one long construct
static void construct(bool th) {
    static const VS items = {"a", " ", "\n", "\r\n", "\t", "a\n", "\xC3\xA9", "\xC3\xA9\n", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "&lt;", "&amp;", "&#233;", "&#13;", "a&lt;", "\xC3\xA9&lt;", ">", "]", "'"};
    static const char* open[] = {"", "<name>", "<![CDATA[", "<!-- ", "<?p ", "<literal type=\"", "<name ", "<escape char='0x1'/>"};
    static const char* close[] = {"", "</name>", "]]>", " -->", "?>", "\">b</literal>", ">b</name>", ""};
    static const size_t sizes[] = {75, 250, 310, 330, 460, 500, 1100, 3950, 4100, 8150, 20000, 310000};
    Spell p;
    p.shape = mc::choose(SHAPES);
    static const size_t chs[] = {0, 100, 1000, 4096};
    size_t c = chs[mc::choose(th ? 4 : 3)];
    int k = mc::choose(8);
    const str& it = mc::pick(items);
    if (k == 6 && it.find_first_not_of(" \n\r\t") != str::npos) mc::prune();
    size_t size = sizes[mc::choose(12)];
    int shift = mc::choose(th ? 12 : 2);
    bool around = mc::choose(2);
    str t; while (t.size() < size) t += it;
    p.body = str((size_t) shift * (th ? 3 : 17), 'z') + (around ? "<name>b</name>" : "") + open[k] + t + close[k] + (around ? "&amp;<name>c</name>\n" : "");
    check(spell(p), p.shape, c);
}

void mc_setup() {
    bool th = mc::thorough();
    int nul = open("/dev/null", O_WRONLY); dup2(nul, 2);
    mc::add("contents", "every sequence of up to " + str(th ? "four" : "three") + " of 38 spellings of contents x solitary unit and archive x three channels", 3, 60, [th] { contents(th ? 4 : 3); });
    mc::add("prefixed", "three prefixes of the srcML namespace x sequences of up to two of ten contents x shapes x channels", 2, 60, prefixed);
    mc::add("declarations", "eleven declarations and encodings x six kinds of text before and after the root x contents x shapes x channels", 3, 60, declarations);
    mc::add("tags", "quotes x white space x order of attributes x thirteen spellings of the value of four attributes", 3, 60, tags);
    mc::add("between units", "pairs of twelve texts between the units of an archive, units read or skipped", 2, 60, between);
    mc::add("one long construct", "text, text of an element, CDATA, comment, instruction, attribute, tag made of one of nineteen items x twelve sizes x shifts x shapes x channels", 3, 60, [th] { construct(th); });
    mc::add("long contents", "pairs of eight contents repeated to ten sizes x shifts x shapes x five channels", 3, 60, [th] { longer(th); });
}
MC_MAIN
