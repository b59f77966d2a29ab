// P18: units written element by element, against a tree that the calls describe.
#include "mc.hpp"
#include "obs.hpp"
#include "sml.hpp"
#include <libxml/parser.h>
#include <libxml/tree.h>
#include <algorithm>
#include <map>
#include <memory>
using str = std::string; using VS = std::vector<str>; using S = const char*;
static const char* SRC = "http://www.srcML.org/srcML/src"; static const char* CPP = "http://www.srcML.org/srcML/cpp";

// ---- what the calls describe
struct El; using P = std::shared_ptr<El>;
struct El { str prefix, local; bool has_uri = false; str uri; std::map<str, str> ns; std::vector<std::array<str, 4>> at; std::vector<std::pair<str, P>> kids; };   // at: prefix, uri ("" none), name, value
using Scope = std::map<str, str>;
static void text_add(El& e, const str& t) { if (t.empty()) return; if (!e.kids.empty() && !e.kids.back().second) e.kids.back().first += t; else e.kids.push_back({t, nullptr}); }
static str dump(const El& e, Scope sc) {
    for (auto& n : e.ns) sc[n.first] = n.second;
    if (e.has_uri) sc[e.prefix] = e.uri;
    for (auto& a : e.at) if (!a[1].empty()) sc[a[0]] = a[1];
    str o = "<{" + sc[e.prefix] + "}" + e.local; VS as;
    for (auto& a : e.at) as.push_back(" {" + (a[0].empty() ? str() : sc[a[0]]) + "}" + a[2] + "='" + a[3] + "'");
    std::sort(as.begin(), as.end()); for (auto& a : as) o += a;
    o += ">"; for (auto& k : e.kids) o += k.second ? dump(*k.second, sc) : mc::show(k.first, 400);
    return o + "</>";
}
static str dump_kids(const El& e, Scope sc) { str o; for (auto& k : e.kids) o += k.second ? dump(*k.second, sc) : mc::show(k.first, 400); return o; }
static str text(const El& e) { str o; for (auto& k : e.kids) o += k.second ? text(*k.second) : k.first; return o; }

// ---- what a document holds
static str xdump(xmlNodePtr n, bool tag = true) {
    if (n->type == XML_TEXT_NODE || n->type == XML_CDATA_SECTION_NODE) return mc::show((const char*) n->content, 400);
    if (n->type != XML_ELEMENT_NODE) return "?";
    str o = "<{" + str(n->ns ? (const char*) n->ns->href : "") + "}" + (const char*) n->name; VS as;
    for (xmlAttrPtr a = n->properties; a; a = a->next) { xmlChar* v = xmlNodeListGetString(n->doc, a->children, 1); as.push_back(" {" + str(a->ns ? (const char*) a->ns->href : "") + "}" + (const char*) a->name + "='" + str(v ? (const char*) v : "") + "'"); xmlFree(v); }
    std::sort(as.begin(), as.end()); for (auto& a : as) o += a;
    o += ">"; str k; for (xmlNodePtr c = n->children; c; c = c->next) k += xdump(c);
    return tag ? o + k + "</>" : k;
}
struct Doc { xmlDocPtr d; str err; Doc(const str& b) { xmlParserCtxtPtr c = xmlNewParserCtxt(); d = xmlCtxtReadMemory(c, b.data(), (int) b.size(), "d", "UTF-8", XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_NONET | XML_PARSE_HUGE);
        if (!c->wellFormed || !c->nsWellFormed || !d) err = c->lastError.message ? c->lastError.message : "not well-formed"; xmlFreeParserCtxt(c); } ~Doc() { if (d) xmlFreeDoc(d); } };

// ---- the calls
struct Op { enum K { START, END, SE, EE, NS, AT, STR } k; S p = nullptr, n = nullptr, u = nullptr, v = nullptr; };
static str z(S p) { return p ? "'" + mc::show(p, 60) + "'" : "null"; }
static str show(const Op& o) {
    switch (o.k) {
    case Op::START: return "start_unit"; case Op::END: return "end_unit"; case Op::EE: return "end_element";
    case Op::SE: return "start_element(" + z(o.p) + "," + z(o.n) + "," + z(o.u) + ")"; case Op::NS: return "namespace(" + z(o.p) + "," + z(o.u) + ")";
    case Op::AT: return "attribute(" + z(o.p) + "," + z(o.n) + "," + z(o.u) + "," + z(o.v) + ")"; default: return "string(" + z(o.v) + ")"; }
}
static int call(srcml_unit* u, const Op& o) {
    switch (o.k) {
    case Op::START: return srcml_write_start_unit(u); case Op::END: return srcml_write_end_unit(u); case Op::EE: return srcml_write_end_element(u);
    case Op::SE: return srcml_write_start_element(u, o.p, o.n, o.u); case Op::NS: return srcml_write_namespace(u, o.p, o.u);
    case Op::AT: return srcml_write_attribute(u, o.p, o.n, o.u, o.v); default: return srcml_write_string(u, o.v); }
}
enum Must { OK_, NO, ANY };
struct Model {
    bool building = false, have = false; P root, done; std::vector<P> stack; bool tag_open = false, empty_text = false;
    Scope scope(size_t upto) const { Scope s{{"", SRC}, {"xml", "x"}}; for (size_t i = 0; i < upto; ++i) { auto& e = *stack[i]; for (auto& n : e.ns) s[n.first] = n.second; if (e.has_uri) s[e.prefix] = e.uri; for (auto& a : e.at) if (!a[1].empty()) s[a[0]] = a[1]; } return s; }
    Must must(const Op& o) const {
        if (o.k == Op::START) return building ? ANY : OK_;
        if (!building) return NO;
        El* top = stack.back().get();
        switch (o.k) {
        case Op::END: return OK_;
        case Op::SE: return str(o.n) == "unit" ? NO : OK_;
        case Op::EE: return stack.size() > 1 ? OK_ : NO;
        case Op::NS: {
            if (!tag_open) return NO;
            if (empty_text) return ANY;
            str p = o.p ? o.p : "";
            if (stack.size() == 1) return ANY;
            if (top->ns.count(p)) return top->ns[p] == o.u ? ANY : NO;
            if (top->has_uri && top->prefix == p) return top->uri == o.u ? ANY : NO;
            for (auto& a : top->at) if (!a[1].empty() && a[0] == p) return a[1] == o.u ? ANY : NO;
            return OK_; }
        case Op::AT: {
            if (!tag_open) return NO;
            if (empty_text || !o.v) return ANY;
            for (auto& a : top->at) if (a[0] == (o.p ? o.p : "") && a[2] == o.n) return NO;
            if (o.p && o.u) {      // a prefix means one thing in a tag
                if (top->ns.count(o.p) && top->ns[o.p] != o.u) return NO;
                if (top->has_uri && top->prefix == o.p && top->uri != o.u) return NO;
                for (auto& a : top->at) if (a[0] == o.p && !a[1].empty() && a[1] != o.u) return NO;
            }
            return stack.size() == 1 ? ANY : OK_; }
        default: return OK_; }
    }
    void apply(const Op& o) {       // accepted
        switch (o.k) {
        case Op::START: building = true; root = std::make_shared<El>(); stack = {root}; tag_open = true; empty_text = false; break;
        case Op::END: building = false; have = true; done = root; stack.clear(); break;
        case Op::SE: { auto e = std::make_shared<El>(); e->prefix = o.p ? o.p : ""; e->local = o.n; if (o.u) { e->has_uri = true; e->uri = o.u; } stack.back()->kids.push_back({"", e}); stack.push_back(e); tag_open = true; empty_text = false; break; }
        case Op::EE: stack.pop_back(); tag_open = false; break;
        case Op::NS: stack.back()->ns[o.p ? o.p : ""] = o.u; break;
        case Op::AT: stack.back()->at.push_back({o.p ? o.p : "", o.p && o.u ? o.u : "", o.n, o.v ? o.v : ""}); break;
        case Op::STR: empty_text = !*o.v; text_add(*stack.back(), o.v); tag_open = tag_open && !*o.v; break;
        }
    }
};
static Scope ROOT{{"", SRC}};
// views of the finished unit
static str views(srcml_unit* u) { return sml::s(srcml_unit_get_srcml(u)) + "\n" + sml::s(srcml_unit_get_srcml_outer(u)) + "\n" + sml::s(srcml_unit_get_srcml_inner(u)) + "\n" + std::to_string(srcml_unit_get_loc(u)); }
static void check_views(srcml_unit* u, const El& want, const str& why) {
    str full = sml::s(srcml_unit_get_srcml(u)), inner = sml::s(srcml_unit_get_srcml_inner(u)), outer = sml::s(srcml_unit_get_srcml_outer(u));
    Doc d(full); MC_CHECK(d.err.empty(), "a unit is not well-formed", why + ": " + d.err + "\n" + full);
    xmlNodePtr r = xmlDocGetRootElement(d.d); str k = dump_kids(want, ROOT);
    MC_CHECK(xdump(r, false) == k, "a unit is not the elements that were written", why + "\nwanted  " + k + "\nholds   " + xdump(r, false) + "\n" + full);
    for (auto& a : want.at) { xmlChar* v = a[1].empty() ? xmlGetNoNsProp(r, BAD_CAST a[2].c_str()) : xmlGetNsProp(r, BAD_CAST a[2].c_str(), BAD_CAST a[1].c_str()); str g = v ? (const char*) v : "(none)"; xmlFree(v); MC_CHECK(g == a[3], "an attribute of the unit is lost", why + "\n" + full); }
    Doc di("<x xmlns=\"" + str(SRC) + "\">" + inner + "</x>"); MC_CHECK(di.err.empty() && xdump(xmlDocGetRootElement(di.d), false) == k, "the inner view is not the elements that were written", why + "\n" + inner);
    Doc dout(outer); str ko = k; MC_CHECK(outer.find(inner) != str::npos && outer.rfind("<unit ", 0) == 0, "the outer view is not a unit with the inner view", why + "\n" + outer);
    str t = text(want); int loc = (int) std::count(t.begin(), t.end(), '\n') + (!t.empty() && t.back() != '\n');
    MC_CHECK(srcml_unit_get_loc(u) == loc, "lines of code", why + ": " + std::to_string(srcml_unit_get_loc(u)) + ", not " + std::to_string(loc));
}
struct Arch { srcml_archive* a; char* b = nullptr; size_t n = 0; Arch(bool sol) { a = srcml_archive_create(); srcml_archive_disable_hash(a); if (sol) srcml_archive_enable_solitary_unit(a); srcml_archive_write_open_memory(a, &b, &n); } str close() { if (a) { srcml_archive_close(a); srcml_archive_free(a); a = nullptr; } return b ? str(b, n) : str(); } ~Arch() { close(); srcml_memory_free(b); } };
static void check_archive(const str& bytes, bool sol, const std::vector<const El*>& want, const str& why) {
    Doc d(bytes); MC_CHECK(d.err.empty(), "the archive is not well-formed", why + ": " + d.err + "\n" + bytes);
    xmlNodePtr r = xmlDocGetRootElement(d.d); VS got;
    if (sol) got.push_back(xdump(r, false)); else for (xmlNodePtr c = r->children; c; c = c->next) if (c->type == XML_ELEMENT_NODE) { MC_CHECK(str((const char*) c->name) == "unit", "something other than a unit in the archive", why + "\n" + bytes); got.push_back(xdump(c, false)); }
    MC_CHECK(got.size() == want.size(), "wrong number of units in the archive", why + ": " + std::to_string(got.size()) + ", not " + std::to_string(want.size()) + "\n" + bytes);
    for (size_t i = 0; i < got.size(); ++i) MC_CHECK(got[i] == dump_kids(*want[i], ROOT), "the archive does not hold the elements that were written", why + "\nwanted  " + dump_kids(*want[i], ROOT) + "\nholds   " + got[i] + "\n" + bytes);
    // and back
    srcml_archive* a = srcml_archive_create(); srcml_archive_set_src_encoding(a, "UTF-8"); srcml_archive_read_open_memory(a, bytes.data(), bytes.size());
    for (size_t i = 0; i < want.size(); ++i) {
        srcml_unit* u = srcml_archive_read_unit(a); MC_CHECK(u, "a unit cannot be read back", why + "\n" + bytes);
        if (!u) break;
        check_views(u, *want[i], why + "; read back");
        char* p = nullptr; size_t n = 0; int rc = srcml_unit_unparse_memory(u, &p, &n); str t = p ? str(p, n) : "";
        MC_CHECK(rc == SRCML_STATUS_OK && t == text(*want[i]), "the text of a unit read back is not the text written", why + ": '" + mc::show(t) + "', not '" + mc::show(text(*want[i])) + "'");
        srcml_memory_free(p); srcml_unit_free(u);
    }
    srcml_unit* x = srcml_archive_read_unit(a); MC_CHECK(!x, "a unit too many read back", why); if (x) srcml_unit_free(x);
    srcml_archive_close(a); srcml_archive_free(a);
}
static str hist(const std::vector<Op>& ops) { str o; for (auto& p : ops) o += (o.empty() ? "" : " ") + show(p); return o; }
// make the call and judge its status
static void step(srcml_unit* u, Model& m, const Op& o, std::vector<Op>& done, VS& log) {
    Must w = m.must(o); str before = m.building ? "" : views(u);
    char lit[64] = ""; Op c = o; if (c.v) { snprintf(lit, sizeof lit, "%s", c.v); }
    int rc = call(u, o); done.push_back(o); log.push_back(std::to_string(rc));
    str h = hist(done);
    MC_CHECK(!c.v || !strcmp(lit, c.v), "the caller's text was changed", h);
    MC_CHECK(!(w == OK_ && rc != SRCML_STATUS_OK), "a right call is refused", h + ": " + std::to_string(rc));
    MC_CHECK(!(w == NO && rc == SRCML_STATUS_OK), "a wrong call is accepted", h);
    if (rc == SRCML_STATUS_OK) m.apply(o);
    else if (!m.building) MC_CHECK(views(u) == before, "a refused call changed the unit", h + "\n" + before + "\n-- after --\n" + views(u));
}
static void finish(srcml_unit* u, Model& m, std::vector<Op>& ops, bool sol, int how) {
    // how: 0 end the unit if need be, 1 leave it unfinished
    VS log;
    if (how == 0 && m.building) step(u, m, {Op::END}, ops, log);
    if (m.have && !m.building) check_views(u, *m.done, hist(ops));
}
void mc_setup() {
    int nul = open("/dev/null", O_WRONLY); dup2(nul, 2); xmlInitParser();
    bool th = mc::thorough();
    static const std::vector<Op> A = {
        {Op::SE, nullptr, "a", nullptr}, {Op::EE}, {Op::STR, 0, 0, 0, "x"}, {Op::AT, nullptr, "k", nullptr, "v"}, {Op::END}, {Op::START},
        {Op::SE, "p", "b", "http://p/"}, {Op::STR, 0, 0, 0, "<&>\"'\n"}, {Op::NS, "p", 0, "http://p/"}, {Op::AT, "p", "k", "http://p/", "<\"&'>"},
        {Op::SE, nullptr, "name", SRC}, {Op::SE, nullptr, "unit", nullptr}, {Op::STR, 0, 0, 0, ""}, {Op::SE, nullptr, "d", "http://d/"}, {Op::AT, nullptr, "n", nullptr, nullptr},
        {Op::SE, "cpp", "directive", CPP}, {Op::AT, "p", "j", "http://other/", "w"}, {Op::NS, "p", 0, "http://other/"}, {Op::NS, nullptr, 0, "http://d/"}, {Op::AT, nullptr, "k", nullptr, "again"},
    };
    // every sequence of calls after start_unit
    auto seqs = [=](const str& name, int len, size_t nops, bool started) {
        mc::add(name, "every sequence of up to " + std::to_string(len) + " of " + std::to_string(nops) + " calls (elements, attributes, namespaces, texts, ends, restarts, with and without prefixes)" + (started ? " after start_unit" : " on a new unit") + "; written to an archive and to a solitary unit, ended or left open", 3, 60, [=] {
            bool sol = mc::choose(2); int how = mc::choose(2);
            Arch ar(sol); Model m; std::vector<Op> ops; VS log; std::vector<std::shared_ptr<El>> keep; std::vector<const El*> want; str why;
            {
                srcml_unit* u = srcml_unit_create(ar.a); srcml_unit_set_language(u, "C++"); srcml_unit_set_filename(u, "a.cpp"); srcml_unit_set_src_encoding(u, "UTF-8");
                if (started) step(u, m, {Op::START}, ops, log);
                for (int i = 0; i < len; ++i) { int c = mc::choose((int) nops + 1); if (c == (int) nops) break; mc::step(); step(u, m, A[(size_t) c], ops, log); }
                finish(u, m, ops, sol, how);
                str h = hist(ops);
                if (m.building && m.have) { str v = views(u); (void) v; }
                int rc = srcml_archive_write_unit(ar.a, u); log.push_back(std::to_string(rc)); why = h + " write_unit=" + std::to_string(rc);
                if (!m.building) MC_CHECK((rc == SRCML_STATUS_OK) == m.have, "writing the unit", why);
                if (rc == SRCML_STATUS_OK) {
                    // an unfinished unit may be refused, be completed, or be what it was before
                    keep.push_back(m.building ? m.root : m.done); want.push_back(keep.back().get());
                    if (m.building) {
                        // both are fine; the archive says which
                        if (m.have) keep.push_back(m.done);
                    }
                }
                srcml_unit_free(u);
            }
            str bytes = ar.close();
            if (want.empty()) { Doc d(bytes); MC_CHECK(sol || bytes.empty() || d.err.empty(), "the archive is not well-formed", why + "\n" + bytes); }
            else if (keep.size() == 2 && bytes.size()) { Doc d(bytes); bool first = false; if (d.err.empty()) { xmlNodePtr r = xmlDocGetRootElement(d.d); if (!sol) { r = r->children; while (r && r->type != XML_ELEMENT_NODE) r = r->next; } first = r && xdump(r, false) == dump_kids(*keep[1], ROOT); } check_archive(bytes, sol, {keep[first ? 1 : 0].get()}, why); }
            else check_archive(bytes, sol, want, why);
            mc::validated(); mc::state(bytes); 
        });
    };
    seqs("calls on a new unit", th ? 5 : 4, 10, false);
    seqs("calls after start_unit", th ? 6 : 5, 10, true);
    seqs("many calls after start_unit", th ? 5 : 4, A.size(), true);
    // texts and attribute values
    static const VS C = {"a", "<", ">", "&", "\"", "'", "\n", "\t", "\r", " ", "\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "]]>", "&amp;", "\x01"};
    mc::add("texts", "every text and attribute value of up to 3 of 16 pieces (markup, quotes, white space, non-ASCII, a control character)", 2, 60, [=] {
        str t; for (int i = 0; i < 3; ++i) { int c = mc::choose((int) C.size() + 1); if (c == (int) C.size()) break; t += C[(size_t) c]; }
        int where = mc::choose(4); bool sol = mc::choose(2); bool bad = t.find('\x01') != str::npos;
        Arch ar(sol); Model m; std::vector<Op> ops; VS log;
        srcml_unit* u = srcml_unit_create(ar.a); srcml_unit_set_language(u, "C++"); srcml_unit_set_src_encoding(u, "UTF-8");
        step(u, m, {Op::START}, ops, log); step(u, m, {Op::SE, nullptr, "a", nullptr}, ops, log);
        str keepv = t; Op o{where < 2 ? Op::STR : Op::AT, nullptr, "k", nullptr, keepv.c_str()};
        if (where == 1) step(u, m, {Op::STR, 0, 0, 0, "z"}, ops, log);
        if (where == 3) { o.p = "p"; o.u = "http://p/"; }
        if (bad) { int rc = call(u, o); ops.push_back(o); MC_CHECK(rc != SRCML_STATUS_OK, "text that XML cannot hold is accepted", hist(ops)); }
        else step(u, m, o, ops, log);
        step(u, m, {Op::EE}, ops, log); step(u, m, {Op::END}, ops, log);
        check_views(u, *m.done, hist(ops)); srcml_archive_write_unit(ar.a, u); srcml_unit_free(u);
        check_archive(ar.close(), sol, {m.done.get()}, hist(ops)); mc::validated(); mc::state(t + std::to_string(where));
    });
    // every name of an element and of an attribute
    mc::add("names", "elements of 20 names (those of srcML, names that begin with, end in or differ in case from the refused one, non-ASCII, one letter) with 4 prefixes, inside elements of the same names, with attributes of 14 names", 2, 60, [=] {
        static const VS N = {"a", "name", "units", "unit1", "unit-x", "unitx", "uni", "aunit", "Unit", "UNIT", "_unit", "expr_stmt", "macro", "comment", "literal", "caf\xC3\xA9", "x.y-z_0", "xmlx", "src", "un"};
        static const VS T = {"unit", "units", "k", "filename", "language", "hash", "xmlnsx", "xmln", "xml_", "revision", "caf\xC3\xA9", "x.y-z_0", "tabs", "K"};
        static const std::vector<std::pair<S, S>> Q = {{nullptr, nullptr}, {nullptr, SRC}, {"p", "http://p/"}, {"cpp", CPP}};
        auto outer = mc::choose((int) N.size()); auto q1 = Q[(size_t) mc::choose(2) * 2]; auto inner = mc::choose((int) N.size()); auto q2 = Q[(size_t) mc::choose((int) Q.size())]; auto at = mc::choose((int) T.size()); bool pre = mc::choose(2); bool sol = mc::choose(2);
        Arch ar(sol); Model m; std::vector<Op> ops; VS log;
        srcml_unit* u = srcml_unit_create(ar.a); srcml_unit_set_language(u, "C++"); srcml_unit_set_src_encoding(u, "UTF-8");
        step(u, m, {Op::START}, ops, log); step(u, m, {Op::SE, q1.first, N[(size_t) outer].c_str(), q1.second}, ops, log); step(u, m, {Op::STR, 0, 0, 0, "x"}, ops, log);
        step(u, m, {Op::SE, q2.first, N[(size_t) inner].c_str(), q2.second}, ops, log); step(u, m, {Op::AT, pre ? "r" : nullptr, T[(size_t) at].c_str(), pre ? "http://r/" : nullptr, "v"}, ops, log);
        step(u, m, {Op::EE}, ops, log); step(u, m, {Op::EE}, ops, log); step(u, m, {Op::END}, ops, log);
        check_views(u, *m.done, hist(ops)); srcml_archive_write_unit(ar.a, u); srcml_unit_free(u);
        check_archive(ar.close(), sol, {m.done.get()}, hist(ops)); mc::validated(); mc::state(hist(ops));
    });
    // several units in one archive, in any order of building and writing
    mc::add("two units", "two units built side by side, every order of " + std::to_string(th ? 7 : 6) + " calls from start, element, text, end and write for either", 3, 60, [=] {
        bool sol = false; Arch ar(sol); Model m[2]; std::vector<Op> ops[2]; VS log; srcml_unit* u[2]; std::vector<std::shared_ptr<El>> keep; str h;
        for (int i = 0; i < 2; ++i) { u[i] = srcml_unit_create(ar.a); srcml_unit_set_language(u[i], "C++"); }
        static const Op B[] = {{Op::START}, {Op::SE, nullptr, "a", nullptr}, {Op::STR, 0, 0, 0, "x\n"}, {Op::END}};
        for (int i = 0; i < (th ? 7 : 6); ++i) {
            int c = mc::choose(11); if (c == 10) break; int w = c / 5, k = c % 5;
            if (k < 4) { step(u[w], m[w], B[k], ops[w], log); h += std::to_string(w) + ":" + show(B[k]) + " "; }
            else {
                if (m[w].building) mc::prune();      // see the sequences above
                int rc = srcml_archive_write_unit(ar.a, u[w]); h += std::to_string(w) + ":write=" + std::to_string(rc) + " "; MC_CHECK((rc == SRCML_STATUS_OK) == m[w].have, "writing the unit", h);
                if (rc == SRCML_STATUS_OK) keep.push_back(m[w].done);
            }
        }
        srcml_unit_free(u[0]); srcml_unit_free(u[1]); std::vector<const El*> want; for (auto& k : keep) want.push_back(k.get());
        str bytes = ar.close(); if (want.empty()) { mc::validated(); return; }
        check_archive(bytes, sol, want, h); mc::validated(); mc::state(bytes);
    });
}
MC_MAIN
