// P15 - the revision of a difference document
//
// Difference documents are generated exhaustively as trees (regions common, deleted and inserted, nested in each
// other and in elements, text before, between and after them), read by the real library, and every view of the unit
// in every revision is compared with a filter over the generated tree.
#include "mc.hpp"
#include "obs.hpp"
#include "sml.hpp"
#include <cstring>
#include <functional>

namespace {

enum Kind { TEXT, LT, EMPTY, ATT, ESC, ELEM, COMMON, DELETE, INSERT, DATT };
struct Node { Kind k; char id; std::vector<Node> sub; };
typedef std::vector<Node> Forest;

std::string P = "diff";      // prefix of the difference namespace

// markup of a forest: rev -1 is everything, otherwise what is in that revision
// visible: the innermost region around is in the revision
std::string markup(const Forest& f, int rev, bool visible = true) {
    std::string o;
    for (auto& n : f) {
        std::string id(1, n.id);
        if (n.k == COMMON || n.k == DELETE || n.k == INSERT || n.k == DATT) {
            const char* name = n.k == COMMON ? "common" : n.k == INSERT ? "insert" : "delete";
            bool in = n.k == COMMON || (rev == 0 ? n.k != INSERT : n.k == INSERT);
            if (rev >= 0) { o += markup(n.sub, rev, in); continue; }
            std::string inside = markup(n.sub, rev, true);
            o += "<" + P + ":" + name + (n.k == DATT ? " type=\"a&gt;b\"" : "") + (inside.empty() ? "/>" : ">" + inside + "</" + P + ":" + name + ">");
            continue;
        }
        std::string mine, end;
        switch (n.k) {
        case TEXT: mine = id; break;
        case LT: mine = "&lt;" + P + ":delete&gt;&amp;"; break;
        case EMPTY: mine = "<literal/>"; break;
        case ATT: mine = "<literal type=\"" + id + "&gt;2\"/>"; break;
        case ESC: mine = "<escape char=\"0x1\"/>"; break;
        default: break;
        }
        if (n.k != ELEM) { if (visible || rev < 0) o += mine; continue; }
        std::string inside = markup(n.sub, rev, visible);
        // an element all of whose contents is in regions not in the revision keeps both of its tags
        std::string all = markup(n.sub, -1);
        if (visible || rev < 0) o += all.empty() ? "<name/>" : "<name>" + inside + "</name>";
        else o += inside;
    }
    return o;
}

std::string source(const Forest& f, int rev, bool visible = true) {
    std::string o;
    for (auto& n : f) {
        if (n.k == COMMON || n.k == DELETE || n.k == INSERT || n.k == DATT) {
            bool in = rev < 0 || n.k == COMMON || (rev == 0 ? n.k != INSERT : n.k == INSERT);
            o += source(n.sub, rev, in);
        } else if (n.k == ELEM) o += source(n.sub, rev, visible);
        else if (!visible) continue;
        else if (n.k == TEXT) o += n.id;
        else if (n.k == LT) o += "<" + P + ":delete>&";
        else if (n.k == ESC) o += '\x01';
    }
    return o;
}

// every forest with up to `budget` nodes
void grow(Forest& f, int& budget, int depth, char& id, const std::vector<Kind>& leaves, const std::vector<Kind>& inner) {
    while (budget > 0) {
        int n = 1 + (int) leaves.size() + (depth ? (int) inner.size() : 0);
        int c = mc::choose(n);
        if (c == 0) return;
        --budget;
        Node x;
        x.id = id++;
        if (c <= (int) leaves.size()) {
            x.k = leaves[c - 1];
            if (x.k == TEXT && !f.empty() && f.back().k == TEXT) mc::prune();
            f.push_back(x);
        } else {
            x.k = inner[c - 1 - leaves.size()];
            grow(x.sub, budget, depth - 1, id, leaves, inner);
            f.push_back(x);
        }
    }
}

typedef std::vector<std::pair<std::string, std::string>> Atts;

const char* DIFF = "http://www.srcML.org/srcDiff";
const char* SRC = "http://www.srcML.org/srcML/src";

enum Wrap { SOLITARY, ROOTED, OWN };
std::string document(Wrap w, const Atts& atts, const std::string& inner, bool diffns = true) {
    std::string a, ns = diffns ? " xmlns:" + P + "=\"" + DIFF + "\"" : "";
    for (auto& p : atts) a += " " + p.first + "=\"" + p.second + "\"";
    std::string body = inner.empty() ? "/>" : ">" + inner + "</unit>";
    std::string head = "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n";
    if (w == SOLITARY)
        return head + "<unit xmlns=\"" + SRC + "\"" + ns + " revision=\"1.0.0\" language=\"C++\"" + a + body + "\n";
    std::string first = "<unit revision=\"1.0.0\" language=\"C\" filename=\"first\">q<name>r</name></unit>";
    return head + "<unit xmlns=\"" + SRC + "\"" + (w == ROOTED ? ns : "") + " revision=\"1.0.0\">\n\n" + first + "\n\n<unit"
        + (w == OWN ? ns : "") + " revision=\"1.0.0\" language=\"C++\"" + a + body + "\n\n</unit>\n";
}

std::string half(const std::string& v, int rev) {
    auto p = v.find('|');
    if (p == std::string::npos || rev < 0) return v;
    return rev == 0 ? v.substr(0, p) : v.substr(p + 1);
}

enum View { V_SRCML, V_OUTER, V_INNER, V_SRC, V_WRITE, VIEWS };
const char* VNAME[] = { "srcml", "outer", "inner", "unparse", "write" };

struct Doc { Wrap w; Atts atts; Forest f; bool diffns = true; };

// contents of the unit at event `i` of a scanned document, verbatim
bool contents(const std::string& s, const sml::Xml& x, size_t i, std::string& out) {
    size_t b = x.ev[i].at;
    bool q = false; char qc = 0;
    size_t e = b;
    for (; e < s.size(); ++e) {
        if (q) { if (s[e] == qc) q = false; continue; }
        if (s[e] == '"' || s[e] == '\'') { q = true; qc = s[e]; continue; }
        if (s[e] == '>') break;
    }
    if (s[e - 1] == '/') { out.clear(); return true; }
    int depth = 0;
    for (size_t j = i; j < x.ev.size(); ++j) {
        if (x.ev[j].k == sml::Event::START) ++depth;
        if (x.ev[j].k == sml::Event::END && --depth == 0) {
            size_t end = s.rfind("</", x.ev[j].at);
            out = s.substr(e + 1, end - e - 1);
            return true;
        }
    }
    return false;
}

std::string local(const std::string& n) { auto c = n.find(':'); return c == std::string::npos ? n : n.substr(c + 1); }

void check_atts(const Doc& d, int rev, const sml::Event& e, const std::string& what, bool url, const std::string& view) {
    for (auto& p : d.atts) {
        if (p.first == "url" && !url) continue;
        std::string got = "(none)";
        for (auto& q : e.atts) if (q.first == p.first) got = q.second;
        MC_CHECK(got == half(p.second, rev), what + " attribute", what + ": attribute " + p.first + "=\"" + p.second + "\" is \"" + got + "\", expected \"" + half(p.second, rev) + "\": " + mc::show(view));
    }
}

void check_view(srcml_unit* u, const Doc& d, int rev, View v) {
    mc::step();
    int r = d.diffns ? rev : -1;
    std::string what = std::string(VNAME[v]) + (rev < 0 ? " without a revision" : rev ? " of the modified revision" : " of the original revision");
    std::string in = markup(d.f, r), got, view;
    auto same = [&](const std::string& got) {
        MC_CHECK(got == in, what + " contents", what + " has " + mc::show(got) + ", expected " + mc::show(in) + " from " + mc::show(markup(d.f, -1)));
    };
    if (v == V_INNER) {
        const char* p = srcml_unit_get_srcml_inner(u);
        MC_CHECK(p != nullptr, what + " null", what + " is null");
        same(p);
    } else if (v == V_SRC) {
        srcml_unit_set_src_encoding(u, "UTF-8");
        sml::Out o;
        o.rc = srcml_unit_unparse_memory(u, &o.p, &o.n);
        MC_CHECK(o.rc == SRCML_STATUS_OK, what + " status", what + ": status " + std::to_string(o.rc));
        std::string exp = source(d.f, r);
        MC_CHECK(o.str() == exp, what + " contents", what + " is " + mc::show(o.str()) + ", expected " + mc::show(exp) + " from " + mc::show(markup(d.f, -1)));
    } else if (v == V_WRITE) {
        for (int solitary = 0; solitary < 2; ++solitary) {
            sml::Out o;
            sml::Archive a(srcml_archive_create());
            if (solitary) srcml_archive_enable_solitary_unit(a.get()); else srcml_archive_disable_solitary_unit(a.get());
            srcml_archive_write_open_memory(a.get(), &o.p, &o.n);
            int rc = srcml_archive_write_unit(a.get(), u);
            MC_CHECK(rc == SRCML_STATUS_OK, what + " status", what + ": status " + std::to_string(rc));
            srcml_archive_close(a.get());
            view = o.str();
            auto x = sml::scan(view);
            MC_CHECK(x.ok(), what + " well formed", what + ": " + x.err + ": " + mc::show(view));
            size_t at = 0;
            if (!solitary) { for (at = 1; at < x.ev.size() && x.ev[at].k != sml::Event::START; ++at); }
            MC_CHECK(at < x.ev.size() && x.ev[at].name == "unit", what + " unit", what + ": no unit: " + mc::show(view));
            check_atts(d, r, x.ev[at], what, solitary, view);
            if (r >= 0)
                for (auto& q : x.ev[at].atts) MC_CHECK(q.second != DIFF, what + " namespace", what + ": srcDiff namespace still declared: " + mc::show(view));
            MC_CHECK(contents(view, x, at, got), what + " unit", "no end of unit " + mc::show(view));
            same(got);
        }
    } else {
        const char* p = v == V_SRCML ? srcml_unit_get_srcml(u) : srcml_unit_get_srcml_outer(u);
        MC_CHECK(p != nullptr, what + " null", what + " is null");
        view = p;
        auto x = v == V_SRCML ? sml::scan(view) : sml::scan(view, true, { P });
        MC_CHECK(x.ok() && !x.ev.empty(), what + " well formed", what + ": " + x.err + ": " + mc::show(view));
        check_atts(d, r, x.ev[0], what, v == V_SRCML, view);
        MC_CHECK(contents(view, x, 0, got), what + " unit", "no end of unit " + mc::show(view));
        same(got);
    }
}

struct Opened {
    std::string text;
    sml::Archive a;
    sml::Unit u;
    Opened(const Doc& d, int before = -1) : text(document(d.w, d.atts, markup(d.f, -1), d.diffns)), a(srcml_archive_create()) {
        if (before >= 0) srcml_archive_set_srcdiff_revision(a.get(), before);
        mc::note("document " + mc::show(text));
        int rc = srcml_archive_read_open_memory(a.get(), text.data(), text.size());
        MC_CHECK(rc == SRCML_STATUS_OK, "open", "status " + std::to_string(rc));
        if (d.w != SOLITARY) {
            u.reset(srcml_archive_read_unit(a.get()));
            MC_CHECK(u, "first unit", "first unit is not there");
            Doc first{ d.w, { { "filename", "first" } }, { Node{ TEXT, 'q', {} }, Node{ ELEM, 'x', { Node{ TEXT, 'r', {} } } } } };
            if (before >= 0) for (int v = 0; v < VIEWS; ++v) check_view(u.get(), first, before, (View) v);
        }
        u.reset(srcml_archive_read_unit(a.get()));
        MC_CHECK(u, "unit", "unit is not there");
    }
    void revision(int r) {
        MC_CHECK(srcml_archive_set_srcdiff_revision(a.get(), r) == SRCML_STATUS_OK, "set", "revision not set");
        MC_CHECK(srcml_archive_get_srcdiff_revision(a.get()) == (size_t) r, "get", "revision is another one");
    }
};

// -------------------------------------------------------------------------------------------------------------------
void documents(int size, std::vector<Kind> leaves, std::vector<Kind> inner, int depth) {
    Doc d;
    d.w = SOLITARY;
    d.atts = { { "filename", "a.cpp" } };
    int budget = size;
    char id = 'a';
    grow(d.f, budget, depth, id, leaves, inner);
    mc::state(markup(d.f, -1));
    Opened o(d);
    check_view(o.u.get(), d, -1, V_INNER);      // the tree is what was read
    mc::validated();
    for (int rev = 0; rev < 2; ++rev) {
        o.revision(rev);
        for (int v = 0; v < VIEWS; ++v) check_view(o.u.get(), d, rev, (View) v);
    }
}

// documents used where something else is enumerated
std::vector<Forest> some() {
    auto T = [](char c) { return Node{ TEXT, c, {} }; };
    auto R = [](Kind k, Forest f) { return Node{ k, 'z', f }; };
    return {
        {},
        { T('a') },
        { R(DELETE, { T('a') }), R(INSERT, { T('b') }) },
        { T('a'), R(DELETE, { R(ELEM, { T('b'), R(COMMON, { T('c') }) }) }), R(INSERT, {}), T('d') },
        { R(ELEM, { R(DATT, { T('a') }), R(INSERT, { T('b') }) }), R(ESC, {}), T('c') },
        { R(DELETE, { R(INSERT, { T('a') }), T('b') }), R(ELEM, { R(INSERT, { T('c') }) }) },
        { R(COMMON, { R(LT, {}), R(DELETE, { R(ATT, {}) }) }) },
        { R(INSERT, { R(ELEM, { R(ELEM, { T('a') }), R(DELETE, { T('b') }), R(COMMON, { R(EMPTY, {}) }) }) }) },
    };
}

void attributes() {
    static const char* names[] = { "filename", "version", "timestamp", "hash", "url", "my" };
    static const std::string values[] = { "a", "a|b", "|b", "a|", "|", "src/a/quite/long/name/of/the/original.cpp|src/another/quite/long/name/of/the/modified.cpp", "a &amp; b|c &lt; d" };
    static const std::string plain[] = { "a", "a|b", "|b", "a|", "|", "src/a/quite/long/name/of/the/original.cpp|src/another/quite/long/name/of/the/modified.cpp", "a & b|c < d" };
    Doc d, raw;
    d.w = (Wrap) mc::choose(3);
    P = mc::choose(2) ? "d" : "diff";
    d.diffns = mc::choose(2) == 0;
    int one = mc::choose(6), two = mc::choose(6);
    if (two < one) mc::prune();
    int v1 = mc::choose(7), v2 = two == one ? v1 : mc::choose(7);
    auto forests = some();
    d.f = d.diffns ? forests[2] : forests[1];
    raw = d;
    raw.atts.push_back({ names[one], values[v1] });
    d.atts.push_back({ names[one], plain[v1] });
    if (two != one) { raw.atts.push_back({ names[two], values[v2] }); d.atts.push_back({ names[two], plain[v2] }); }
    // an attribute of nobody's is no difference attribute, whatever its value
    if (d.w != SOLITARY) for (auto it = d.atts.begin(); it != d.atts.end();) it = it->first == "url" ? d.atts.erase(it) : it + 1;
    int before = mc::choose(3) - 1;
    std::string my;
    for (auto it = d.atts.begin(); it != d.atts.end();) if (it->first == "my") { my = it->second; it = d.atts.erase(it); } else ++it;
    (void) my;
    Opened o(raw, before);
    mc::state(o.text);
    for (int rev = 0; rev < 2; ++rev) {
        o.revision(before == 1 ? 1 - rev : rev);
        for (int v = 0; v < VIEWS; ++v) check_view(o.u.get(), d, before == 1 ? 1 - rev : rev, (View) v);
    }
}

// views and revisions in every order
void orders(int length) {
    auto forests = some();
    Doc d;
    d.w = (Wrap) mc::choose(3);
    P = mc::choose(2) ? "d" : "diff";
    d.f = forests[mc::choose((int) forests.size())];
    d.atts = { { "filename", "one.cpp|two.cpp" } };
    int before = mc::choose(3) - 1;
    Opened o(d, before);
    int rev = before;
    for (int i = 0; i < length; ++i) {
        int op = mc::choose(VIEWS + 2);
        if (op >= VIEWS) { rev = op - VIEWS; o.revision(rev); if (i + 1 == length) mc::prune(); continue; }
        check_view(o.u.get(), d, rev, (View) op);
    }
    mc::state(o.text + std::to_string(rev));
}

// a document made from two versions gives those versions
void versions(int length) {
    static const char* text[] = { "a;", "b ;\n", "if (c) d();", "x = '<';" };
    static std::vector<std::string> marks;
    if (marks.empty())
        for (auto t : text) {
            sml::Archive a(srcml_archive_create());
            sml::Out o;
            srcml_archive_write_open_memory(a.get(), &o.p, &o.n);
            sml::Unit u(srcml_unit_create(a.get()));
            srcml_unit_set_language(u.get(), "C++");
            srcml_unit_parse_memory(u.get(), t, strlen(t));
            marks.push_back(sml::s(srcml_unit_get_srcml_inner(u.get())));
        }
    P = "diff";
    int split = mc::choose(2);       // every statement in a region of its own, or regions as long as possible
    std::string body, version[2];
    int last = -1;
    static const char* region[] = { "common", "delete", "insert" };
    for (int i = 0; i < length; ++i) {
        int c = mc::choose(13);
        if (c == 0) break;
        --c;
        int s = c % 4, how = c / 4;
        if (how != 2) version[0] += text[s];
        if (how != 1) version[1] += text[s];
        if (last >= 0 && (split || last != how)) { if (last) body += std::string("</diff:") + region[last] + ">"; last = -1; }
        if (last < 0 && how) body += std::string("<diff:") + region[how] + ">";
        body += marks[s];
        last = how;
    }
    if (last > 0) body += std::string("</diff:") + region[last] + ">";
    Doc d;
    std::string doc = document(SOLITARY, { { "filename", "one.cpp|two.cpp" } }, body);
    mc::state(doc);
    mc::note("document " + mc::show(doc));
    sml::Archive a(srcml_archive_create());
    MC_CHECK(srcml_archive_read_open_memory(a.get(), doc.data(), doc.size()) == SRCML_STATUS_OK, "open", "not opened");
    sml::Unit u(srcml_archive_read_unit(a.get()));
    MC_CHECK(u, "unit", "no unit");
    srcml_unit_set_src_encoding(u.get(), "UTF-8");
    for (int rev = 0; rev < 2; ++rev) {
        srcml_archive_set_srcdiff_revision(a.get(), rev);
        sml::Out o;
        o.rc = srcml_unit_unparse_memory(u.get(), &o.p, &o.n);
        MC_CHECK(o.rc == SRCML_STATUS_OK && o.str() == version[rev], "version source", "source of revision " + std::to_string(rev) + " is " + mc::show(o.str()) + ", expected " + mc::show(version[rev]));
        // the markup is what parsing the version gives
        sml::Archive b(srcml_archive_create());
        sml::Out ob;
        srcml_archive_write_open_memory(b.get(), &ob.p, &ob.n);
        sml::Unit w(srcml_unit_create(b.get()));
        srcml_unit_set_language(w.get(), "C++");
        srcml_unit_parse_memory(w.get(), version[rev].data(), version[rev].size());
        std::string got = sml::s(srcml_unit_get_srcml_inner(u.get())), exp = sml::s(srcml_unit_get_srcml_inner(w.get()));
        MC_CHECK(got == exp, "version markup", "markup of revision " + std::to_string(rev) + " is " + mc::show(got) + ", expected " + mc::show(exp));
        mc::validated();
    }
}

// anything but the two revisions is refused and changes nothing
void invalid() {
    auto forests = some();
    Doc d;
    d.w = SOLITARY;
    P = "diff";
    d.f = forests[mc::choose((int) forests.size())];
    d.atts = { { "filename", "one.cpp|two.cpp" } };
    static const size_t bad[] = { 2, 3, 256, (size_t) -1, (size_t) 1 << 32, ((size_t) 1 << 32) + 1 };
    int before = mc::choose(3) - 1;
    Opened o(d, before);
    size_t b = bad[mc::choose(6)];
    MC_CHECK(srcml_archive_set_srcdiff_revision(o.a.get(), b) != SRCML_STATUS_OK, "accepted", "revision " + std::to_string(b) + " accepted");
    MC_CHECK(srcml_archive_get_srcdiff_revision(o.a.get()) == (before < 0 ? SRCDIFF_REVISION_INVALID : (size_t) before), "kept", "revision changed");
    for (int v = 0; v < VIEWS; ++v) check_view(o.u.get(), d, before, (View) v);
}

}

void mc_setup() {
    bool t = mc::thorough();
    auto B = [](const std::string& s) { return s; };
    mc::add("documents", B(t ? "every forest of up to 6 nodes" : "every forest of up to 5 nodes") + ": text, element, common, deleted, inserted", 3, 60, [t] { P = "diff"; documents(t ? 6 : 5, { TEXT }, { ELEM, COMMON, DELETE, INSERT }, 6); });
    mc::add("kinds", B(t ? "every forest of up to 4 nodes" : "every forest of up to 3 nodes") + ": text, escaped text, empty element, element with attribute, control character; element, regions with and without attribute", 2, 60, [t] { P = "diff"; documents(t ? 4 : 3, { TEXT, LT, EMPTY, ATT, ESC }, { ELEM, COMMON, DELETE, INSERT, DATT }, 6); });
    mc::add("prefix", "every forest of up to 3 nodes with other prefixes of the difference namespace", 2, 60, [t] { static const char* ps[] = { "d", "diff2", "di", "differences" }; P = ps[mc::choose(4)]; documents(t ? 4 : 3, { TEXT, LT }, { ELEM, COMMON, DELETE, INSERT }, 6); });
    mc::add("attributes", "pairs of six attributes x seven values x three kinds of document x two prefixes x with and without the namespace x revision set before", 3, 60, attributes);
    mc::add("orders", "eight documents x three kinds x two prefixes x every sequence of views and revisions", 4, 60, [t] { orders(t ? 5 : 3); });
    mc::add("versions", "every edit script over four statements", 2, 60, [t] { versions(t ? 5 : 3); });
    mc::add("invalid", "six invalid revisions x eight documents", 1, 60, invalid);
}
MC_MAIN
