// P01 (source text survives) and P02 (markup well-formed and balanced): exhaustive enumeration of
// token sequences, contexts, characters and single edits of a corpus, on the real parser.
//   --opt set=P01 | P02
#include "mc.hpp"
#include "sml.hpp"
#include "alphabet.hpp"
#include "dom.hpp"

static bool P01;

static srcml_archive* arch(const std::string& lang, size_t opt) {
    static std::map<std::string, srcml_archive*> m;
    auto& a = m[lang + " " + std::to_string(opt)];
    if (!a) {
        a = srcml_archive_create();
        srcml_archive_set_language(a, lang.c_str());
        srcml_archive_set_src_encoding(a, "UTF-8");
        if (opt) srcml_archive_enable_option(a, opt);
    }
    return a;
}

// text content without requiring well-formedness
static std::string lenient(const std::string& x) {
    std::string o;
    for (size_t i = 0; i < x.size();) {
        if (x[i] == '<') {
            size_t e = x.find('>', i);
            if (e == std::string::npos) return o;
            size_t c = x.compare(i, 8, "<escape ") == 0 ? x.find("char=\"", i) : std::string::npos;
            if (c != std::string::npos && c < e) o += (char) strtol(x.c_str() + c + 6, 0, 0);
            i = e + 1;
        } else if (x[i] == '&') {
            if (!x.compare(i, 4, "&lt;")) { o += '<'; i += 4; } else if (!x.compare(i, 4, "&gt;")) { o += '>'; i += 4; }
            else if (!x.compare(i, 5, "&amp;")) { o += '&'; i += 5; } else if (!x.compare(i, 6, "&quot;")) { o += '"'; i += 6; }
            else if (!x.compare(i, 5, "&#xD;") || !x.compare(i, 5, "&#13;")) { o += '\r'; i += 5; }
            else o += x[i++];
        } else o += x[i++];
    }
    return o;
}

// line endings are normalised to line feeds
static std::string lf(const std::string& s) {
    std::string o;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '\r') { o += '\n'; if (i + 1 < s.size() && s[i + 1] == '\n') ++i; }
        else o += s[i];
    }
    return o;
}

// one parse; full: also through the other observation points
static void check(const std::string& lang, size_t opt, const std::string& src, bool full) {
    mc::note(lang + (opt ? " opt=" + std::to_string(opt) : "") + ": " + src);
    sml::Unit u(srcml_unit_create(arch(lang, opt)));
    int rc = srcml_unit_parse_memory(u.get(), src.data(), src.size());
    MC_CHECK(rc == SRCML_STATUS_OK, "parse status " + std::to_string(rc), src);
    const char* px = srcml_unit_get_srcml_outer(u.get());
    MC_CHECK(px != nullptr, "no markup", src);
    std::string x = px;
    mc::step();
    if (P01) {
        std::string want = lf(src);
        std::string t = lenient(x);
        MC_CHECK(t == want, "text content differs from the source", "text   " + mc::show(t) + "\nsource " + mc::show(want) + "\n" + x);
        if (full) {
            // written in an archive, read back, and unparsed
            sml::Archive a(srcml_archive_create());
            sml::Out o;
            srcml_archive_set_language(a.get(), lang.c_str());
            srcml_archive_set_src_encoding(a.get(), "UTF-8");
            srcml_archive_write_open_memory(a.get(), &o.p, &o.n);
            rc = srcml_archive_write_unit(a.get(), u.get());
            MC_CHECK(rc == 0, "write status " + std::to_string(rc), src);
            srcml_archive_close(a.get());
            sml::Archive r(srcml_archive_create());
            rc = srcml_archive_read_open_memory(r.get(), o.p, o.n);
            MC_CHECK(rc == 0, "cannot open the written archive", src + "\n" + o.str());
            sml::Unit v(srcml_archive_read_unit(r.get()));
            MC_CHECK(v.get() != nullptr, "no unit in the written archive", src + "\n" + o.str());
            srcml_unit_set_src_encoding(v.get(), "UTF-8");
            sml::Out q;
            q.rc = srcml_unit_unparse_memory(v.get(), &q.p, &q.n);
            MC_CHECK(q.rc == SRCML_STATUS_OK, "unparse status " + std::to_string(q.rc), src);
            MC_CHECK(q.str() == want, "unparsed text differs from the source", "text   " + mc::show(q.str()) + "\nsource " + mc::show(want) + "\n" + x);
            mc::step();
        }
    } else {
        sml::Xml d = sml::scan(x);
        MC_CHECK(d.ok(), "not well-formed: " + d.err.substr(0, d.err.find(" at ")), src + "\n" + x);
        MC_CHECK(!d.ev.empty() && d.ev[0].k == sml::Event::START && d.ev[0].name == "unit", "root is not a unit", x);
        for (size_t i = 1; i < d.ev.size(); ++i) if (d.ev[i].k == sml::Event::START) MC_CHECK(d.ev[i].name != "unit", "unit inside the unit", x);
    }
    if (mc::state(x)) {}
    mc::validated();
    if (full && !P01) {
        // the written archive, with this unit between two others
        sml::Archive a(srcml_archive_create());
        sml::Out o;
        srcml_archive_set_language(a.get(), lang.c_str());
        if (opt) srcml_archive_enable_option(a.get(), opt);
        srcml_archive_write_open_memory(a.get(), &o.p, &o.n);
        for (int i = 0; i < 2; ++i) {
            sml::Unit v(srcml_unit_create(a.get()));
            rc = srcml_unit_parse_memory(v.get(), src.data(), src.size());
            MC_CHECK(rc == 0, "parse status in an archive", src);
            rc = srcml_archive_write_unit(a.get(), v.get());
            MC_CHECK(rc == 0, "write status", src);
        }
        srcml_archive_close(a.get());
        sml::Xml d = sml::scan(o.str());
        MC_CHECK(d.ok(), "archive not well-formed: " + d.err.substr(0, d.err.find(" at ")), src + "\n" + o.str());
        int units = 0;
        for (auto& e : d.ev) if (e.k == sml::Event::START && e.name == "unit") ++units;
        MC_CHECK(units == 3, "archive has " + std::to_string(units) + " unit elements", o.str());
        mc::validated();
    }
}

static std::string cat(const VS& v) { std::string s; for (auto& x : v) s += x + " "; return s; }

// every registration of namespaces: the output is well-formed XML in which every element and attribute is in its namespace
typedef std::vector<std::pair<std::string, std::string>> Regs;
static const char* const NSURI[] = {"http://www.srcML.org/srcML/src", "http://www.srcML.org/srcML/cpp", "http://www.srcML.org/srcML/position", "http://www.srcML.org/srcML/error", "http://x", "http://y"};
static const char* const NSPRE[] = {"", "cpp", "pos", "err"};
static std::string produce(const Regs& r, bool solitary, const std::vector<std::pair<std::string, std::string>>& srcs) {
    sml::Archive a(srcml_archive_create()); char* b = nullptr; size_t n = 0; int st = 0;
    if (solitary) srcml_archive_enable_solitary_unit(a.get()); else srcml_archive_disable_solitary_unit(a.get());
    for (auto& x : r) st |= srcml_archive_register_namespace(a.get(), x.first.c_str(), x.second.c_str());
    st |= srcml_archive_write_open_memory(a.get(), &b, &n);
    for (auto& x : srcs) {
        srcml_unit* u = srcml_unit_create(a.get()); srcml_unit_set_language(u, x.first.c_str()); st |= srcml_unit_parse_memory(u, x.second.data(), x.second.size());
        st |= srcml_archive_write_unit(a.get(), u); srcml_unit_free(u);
    }
    st |= srcml_archive_close(a.get()); std::string o(b ? b : "", n); free(b);
    MC_CHECK(st == SRCML_STATUS_OK, "a call fails", std::to_string(st)); return o;
}
static void namespaces(int max) {
    static const std::vector<std::string> PRE = {"", "cpp", "pos", "src", "foo"};
    mc::add("namespaces", "every sequence of up to " + std::to_string(max) + " registrations of 5 prefixes for 6 namespaces x solitary units and archives of two units, with and without directives", 2, 30, [=] {
        Regs r, base; std::map<std::string, std::string> now; for (int i = 0; i < 4; ++i) now[NSURI[i]] = NSPRE[i];
        for (int i = 0; i < max; ++i) {
            int k = mc::choose((int) PRE.size() * 6 + 1); if (!k--) break;
            std::string p = PRE[(size_t) k / 6], u = NSURI[k % 6]; r.push_back({p, u}); now[u] = p; if (k % 6 < 4) base.push_back({NSPRE[k % 6], u});
        }
        for (int i = 0; i < 4; ++i) for (int j = 0; j < i; ++j) if (now[NSURI[i]] == now[NSURI[j]]) mc::prune();     // not decided
        if (now[NSURI[2]].empty()) mc::prune();     // attributes have no default namespace
        bool solitary = mc::choose(2) == 0; int src = mc::choose(2);
        std::vector<std::pair<std::string, std::string>> ss = {{"C++", src ? "#define A 1\nint a;\n" : "int a;\n"}}; if (!solitary) ss.push_back({"Java", "class A { int a; }"});
        std::string got = produce(r, solitary, ss), why = solitary ? "unit" : "archive"; for (auto& x : r) why += " " + x.first + "=" + x.second; why += "\n" + mc::show(got.substr(0, 600));
        dom::Doc d(got), w(produce(base, solitary, ss)); MC_CHECK(d.ok() && w.ok(), "not well-formed with namespaces registered", why + " " + d.err);
        MC_CHECK(dom::s(d.root()->name) == "unit" && d.root()->ns && dom::s(d.root()->ns->href) == NSURI[0], "namespace of the root", why);
        MC_CHECK(dom::content(d.root()) == dom::content(w.root()) && dom::atts(d.root()) == dom::atts(w.root()), "elements or attributes not in their namespaces", why + mc::diff(dom::content(w.root()), dom::content(d.root())));
        // a namespace whose prefix is its own is declared
        for (int i = 4; i < 6; ++i) { auto f = now.find(NSURI[i]); if (f == now.end()) continue; bool own = true; for (auto& x : now) own &= x.first == f->first || x.second != f->second; if (!own) continue;
            bool has = false; for (xmlNsPtr n = d.root()->nsDef; n; n = n->next) has |= dom::s(n->href) == f->first && dom::s(n->prefix) == f->second; MC_CHECK(has, "a registered namespace is not declared", why); }
        mc::state(got); mc::validated(); });
}
void mc_setup() {
    if (mc::opt("set", "") == "P02") namespaces(mc::thorough() ? 4 : 3);
    P01 = mc::E().opts["set"] != "P02";
    bool th = mc::thorough();
    const double HANG = 10;
    for (int li = 0; li < 5; ++li) {
        std::string lang = LANGS[li];
        VS all = EXTRA; for (auto& k : keywords(lang)) all.push_back(k); all = uniq(all);
        VS ctx = CTX[li];
        // every ordered pair of all tokens of the language in every context
        mc::add("pairs " + lang, std::to_string(all.size()) + "^2 token pairs after each of " + std::to_string(ctx.size()) + " contexts, separated by spaces", 2, HANG, [=] {
            std::string src = mc::pick(ctx); src += mc::pick(all) + " "; src += mc::pick(all);
            check(lang, 0, src, false); });
        // no separator
        mc::add("adjacent pairs " + lang, std::to_string(all.size()) + "^2 token pairs without separator, in two contexts", 2, HANG, [=] {
            std::string src = mc::choose(2) ? "int f ( ) { a " : ""; src += mc::pick(all); src += mc::pick(all) + "\n";
            check(lang, 0, src, true); });
        // triples of the core alphabet
        mc::add("triples " + lang, std::to_string(CORE.size()) + "^3 core token triples", 2, HANG, [=] {
            std::string src; for (int i = 0; i < 3; ++i) src += mc::pick(CORE) + " ";
            check(lang, 0, src, false); });
        // options
        VS pp = {"a", ";", "{", "}", "(", ")", "if ( a )", "else", "\n#if 0\n", "\n#if 1\n", "\n#if a\n", "\n#else\n", "\n#elif a\n", "\n#endif\n", "\n#define a b", "/*c*/", "//c\n", "\t"};
        std::vector<size_t> opts = {SRCML_OPTION_POSITION, SRCML_OPTION_CPP_TEXT_ELSE, SRCML_OPTION_CPP_MARKUP_IF0, SRCML_OPTION_CPP_TEXT_ELSE | SRCML_OPTION_CPP_MARKUP_IF0 | SRCML_OPTION_POSITION, SRCML_OPTION_CPP, 0};
        int ppn = th ? 5 : 4;
        mc::add("preprocessor branches " + lang, std::to_string(pp.size()) + "^" + std::to_string(ppn) + " sequences of statements and conditional directives x 6 option sets", 3, HANG, [=] {
            size_t o = mc::pick(opts); std::string src; for (int i = 0; i < ppn; ++i) src += mc::pick(pp) + " ";
            check(lang, o, src, false); });
        if (th) {
            mc::add("quadruples " + lang, std::to_string(SMALL.size()) + "^4 token sequences after each of " + std::to_string(ctx.size()) + " contexts", 3, HANG, [=] {
                std::string src = mc::pick(ctx); for (int i = 0; i < 4; ++i) src += mc::pick(SMALL) + " ";
                check(lang, 0, src, false); });
            mc::add("core quadruples " + lang, std::to_string(CORE.size()) + "^4 core token sequences", 3, HANG, [=] {
                std::string src; for (int i = 0; i < 4; ++i) src += mc::pick(CORE) + " ";
                check(lang, 0, src, false); });
            mc::add("positions triples " + lang, std::to_string(CORE.size()) + "^3 core token triples with position marking", 2, HANG, [=] {
                std::string src; for (int i = 0; i < 3; ++i) src += mc::pick(CORE) + " ";
                check(lang, SRCML_OPTION_POSITION, src, false); });
        }
        // characters
        VS chars = {"\"", "'", "\\", "/", "*", "\n", "\r", "#", "a", "0", " ", "\t", "(", ")", "R", "<", "&", ">", "\f", "\xc3\xa9", "]", "\x01", "@", ".", "?"};
        int cn = th ? 5 : 4;
        mc::add("characters " + lang, std::to_string(chars.size()) + "^" + std::to_string(cn) + " character strings", 3, HANG, [=] {
            std::string src; for (int i = 0; i < cn; ++i) src += mc::pick(chars);
            check(lang, 0, src, false); });
        // every byte value in every lexical place
        VS lex = {"", "a", "\"", "'", "//", "/*", "#", "#define a ", "#if ", "0", "/**", "R\"(", "\"\\", "a ", "{", "#include <", "1.", "@", "$", "\\"};
        VS tail = {"", "a", "\"", "'", "*/", "\n", " ;", ")\"", "\x7f", "\r\n"};
        mc::add("bytes " + lang, "every code point 0..255 (as UTF-8), twice in 20 left and 10 right places", 2, HANG, [=] {
            int b = mc::choose(256);
            std::string src = mc::pick(lex); sml::utf8(src, b); if (mc::choose(2)) sml::utf8(src, b); src += mc::pick(tail);
            check(lang, 0, src, true); });
        // single edits of the corpus
        auto* corp = new std::vector<std::vector<std::string>>();
        for (auto& t : corpus(lang)) corp->push_back(lex_tokens(t));
        VS ins = th ? VS{";", "(", ")", "{", "}", "[", "]", "<", ">", ":", ",", "a", "if", "class", "\n#if 0\n", "\n#else\n", "\n#endif\n", "//c\n", "/*c*/", "\"", "=", "?", "else", "template", "~", "operator", "#define a\n", "\\"}
                    : VS{";", ")", "{", "}", "(", "<", "\n#if 0\n", "//c\n"};
        mc::add("corpus edits " + lang, std::to_string(corp->size()) + " corpus snippets: as is, and every deletion, duplication, swap, truncation and insertion of each of " + std::to_string(ins.size()) + " tokens at every place", 1, HANG, [=] {
            const auto& t = (*corp)[mc::choose((int) corp->size())];
            int n = (int) t.size();
            int kind = mc::choose(5);
            std::string src;
            if (kind == 0) { for (auto& x : t) src += x; check(lang, 0, src, true); return; }
            int at = mc::choose(n);
            if (kind == 1) { for (int i = 0; i < n; ++i) if (i != at) src += t[i]; }
            else if (kind == 2) { for (int i = 0; i <= at; ++i) src += t[i]; }
            else if (kind == 3) { for (int i = 0; i < n; ++i) { if (i == at && i + 1 < n) { src += t[i + 1] + t[i]; ++i; } else src += t[i]; } }
            else { const std::string& k = mc::pick(ins); for (int i = 0; i < n; ++i) { if (i == at) src += " " + k + " "; src += t[i]; } }
            check(lang, 0, src, false); });
    }
}
MC_MAIN
