// P06: an archive read back is the archive that was written.
#include "arch.hpp"
#include "dom.hpp"
using namespace arch;

static const str L300 = str(150, 'l') + "&" + str(150, 'm'), L5000 = str(5000, 'n');
static const std::vector<S> VALS{nullptr, "v", "", "a b", " lead", "trail ", "a&b", "<x>", "\"q\"", "'", "a\tb", "a\nb", "\xC3\xA9", "&amp;", "&#38;", "]]>", "a|b", "|", "%s%n", "a,b", "\\", "http://x/y?z=1&w=2#f", L300.c_str(), L5000.c_str()};
static const std::vector<str> SRCS{"a;\n", "", "\n", " ", "a<b>&\"c\";\n", "\xC3\xA9;\n", "// x\n", "a;\n\n\nb;", "#define A 1\n", "\x01", "a\x0c" "b;", "if (a) {\n\tb;\n}\n", "]]>", "&amp;", "a\r\nb\r\n", "s = \"\\\"\";\n", "struct A {\n  int b;\n};\n", "#if 0\nx\n#else\ny\n#endif\n", "#pragma omp parallel for\n", "\n\n a;\n", "/* c\n */"};
static const std::vector<S> LG{"C++", "C", "Java", "C#", "Objective-C"};
static const std::vector<std::vector<std::pair<S, S>>> NSS{{}, {{"p", "http://x"}}, {{"p", "http://x"}, {"q", "http://y&z"}}, {{"src", "http://www.srcML.org/srcML/src"}}, {{"c", "http://www.srcML.org/srcML/cpp"}}, {{"c", "http://www.srcML.org/srcML/cpp"}, {"s", "http://www.srcML.org/srcML/src"}, {"", "http://x"}},
    {{"ps", "http://www.srcML.org/srcML/position"}}, {{"o", "http://www.srcML.org/srcML/openmp"}}, {{"e", "http://www.srcML.org/srcML/error"}}, {{"p", "a\"b<c"}}};
static const std::vector<std::pair<S, S>> PIS{{nullptr, nullptr}, {"t", "d"}, {"t", ""}, {"t", "a b=\"c\" <&>"}, {"xml-stylesheet", "type=\"text/xsl\" href=\"a.xsl\""}};
static const std::vector<std::vector<std::pair<S, S>>> MACS{{}, {{"M", "src:macro"}}, {{"M", "src:name"}, {"N", "a&b\"<>"}}};
static const std::vector<S> ENCS{nullptr, "UTF-8", "ISO-8859-1", "UTF-16", "US-ASCII"};
static const std::vector<size_t> OPTS{0, SRCML_OPTION_NO_XML_DECL, SRCML_OPTION_POSITION, SRCML_OPTION_CPP, SRCML_OPTION_CPP_TEXT_ELSE, SRCML_OPTION_CPP_MARKUP_IF0, SRCML_OPTION_STORE_ENCODING, SRCML_OPTION_CPP_TEXT_ELSE | SRCML_OPTION_CPP_MARKUP_IF0, 126 & ~SRCML_OPTION_NO_XML_DECL};
static const std::vector<int> TABS{8, 1, 4, 1000};

// dimensions of the space: the number of values of each, and how value k is set
struct Dim { str name; int n; std::function<void(C&, int)> set; };
static U& unit(C& c, size_t k) { while (c.units.size() <= k) { c.units.push_back(U()); } return c.units[k]; }
static std::vector<Dim> dims() {
    std::vector<Dim> d;
    d.push_back({"units", 4, [](C& c, int k) { if (k == 1) unit(c, 1).src = "b;\n"; if (k == 2) { unit(c, 2).src = "c;\n"; unit(c, 1).lang = "Java"; } if (k == 3 && !c.sol) c.units.clear(); }});
    d.push_back({"solitary", 2, [](C& c, int k) { c.sol = k; if (k) c.units.resize(1); }});
    d.push_back({"hash", 2, [](C& c, int k) { c.hash = !k; }});
    d.push_back({"xml encoding", (int) ENCS.size(), [](C& c, int k) { c.xml = ENCS[(size_t) k]; }});
    d.push_back({"options", (int) OPTS.size(), [](C& c, int k) { c.opts = OPTS[(size_t) k]; }});
    d.push_back({"url", (int) VALS.size(), [](C& c, int k) { c.url = VALS[(size_t) k]; }});
    d.push_back({"version", (int) VALS.size(), [](C& c, int k) { c.version = VALS[(size_t) k]; }});
    d.push_back({"tabs", (int) TABS.size(), [](C& c, int k) { c.tab = TABS[(size_t) k]; }});
    d.push_back({"namespaces", (int) NSS.size(), [](C& c, int k) { c.ns = NSS[(size_t) k]; }});
    d.push_back({"pi", (int) PIS.size(), [](C& c, int k) { c.pit = PIS[(size_t) k].first; c.pid = PIS[(size_t) k].second; }});
    d.push_back({"macros", (int) MACS.size(), [](C& c, int k) { c.macros = MACS[(size_t) k]; }});
    d.push_back({"unit file", (int) VALS.size(), [](C& c, int k) { if (k) unit(c, 0).file = VALS[(size_t) k]; }});
    d.push_back({"unit version", (int) VALS.size(), [](C& c, int k) { if (k) unit(c, 0).version = VALS[(size_t) k]; }});
    d.push_back({"unit timestamp", (int) VALS.size(), [](C& c, int k) { if (k) unit(c, 0).ts = VALS[(size_t) k]; }});
    d.push_back({"unit language", (int) LG.size(), [](C& c, int k) { if (k) unit(c, 0).lang = LG[(size_t) k]; }});
    d.push_back({"source", (int) SRCS.size(), [](C& c, int k) { if (k) unit(c, 0).src = SRCS[(size_t) k]; }});
    d.push_back({"unit kind", 3, [](C& c, int k) { if (k) { U& u = unit(c, 0); u.kind = k; if (u.src == "\x01" || u.src == "a\x0c" "b;") u.src = "x"; } }});
    return d;
}
static str field(const str& obs, const str& name) {     // value of name=... in an observation
    size_t p = obs.find(" " + name + "="); if (p == str::npos) p = obs.compare(0, name.size() + 1, name + "=") ? str::npos : 0; else ++p;
    if (p == str::npos) return "?";
    p += name.size() + 1; size_t e = p;
    if (obs[p] == '\'') { e = obs.find("' ", p + 1); while (e != str::npos) { size_t q = obs.find('=', e + 2), s = obs.find(' ', e + 2), nl = obs.find('\n', e + 2); (void) nl; if (q != str::npos && (s == str::npos || q < s)) break; e = obs.find("' ", e + 1); } return obs.substr(p, e == str::npos ? e : e + 1 - p); }
    e = obs.find(' ', p); return obs.substr(p, e - p);
}
static str canon(const str& raw) {      // the attributes of every unit tag in one order
    str obs = decref(raw), o; size_t p = 0;
    for (size_t t; (t = obs.find("<unit ", p)) != str::npos;) {
        o.append(obs, p, t + 6 - p); std::vector<str> v; size_t i = t + 6;
        while (i < obs.size() && obs[i] != '>' && obs.compare(i, 2, "/>")) { size_t q = obs.find('"', i); q = q == str::npos ? q : obs.find('"', q + 1); if (q == str::npos) { i = obs.size(); break; } v.push_back(obs.substr(i, q + 1 - i)); i = q + 1; while (i < obs.size() && obs[i] == ' ') ++i; }
        std::sort(v.begin(), v.end()); for (auto& x : v) o += x + " ";
        p = i;
    }
    return o.append(obs, p, str::npos);
}
static void check_config(const C& c, bool channels, bool copy) {
    str s = show(c); mc::note(s);
    Doc d = build(c);
    MC_CHECK(d.rc == 0, "writing a unit fails", s);
    if (c.opts & SRCML_OPTION_NO_XML_DECL && c.xml && str(c.xml) == "UTF-16") mc::prune();      // without a declaration nothing says what the bytes are
    if (c.opts & SRCML_OPTION_NO_XML_DECL && c.xml && str(c.xml) == "ISO-8859-1") for (char ch : d.bytes) if (ch & 0x80) mc::prune();
    Seen first;
    for (int ch = 0; ch < (channels ? (int) NCH : 1); ++ch) {
        if (ch == IO1 && c.xml && str(c.xml) == "UTF-16") continue;      // libxml2 needs more than 16 bytes of the declaration at once
        Reader r(ch, d.bytes); MC_CHECK(r.rc == 0, "an archive that was written cannot be opened", s + " through " + CHN[ch] + ": status " + std::to_string(r.rc) + " document " + mc::show(d.bytes, 600));
        Seen x = read_all(r.a); mc::step((int) x.units.size() + 1);
        if (!ch) first = x;
        else {
            MC_CHECK(x.arch == first.arch, "the way an archive is opened changes its metadata", s + " through " + CHN[ch] + ": " + mc::diff(x.arch, first.arch));
            MC_CHECK(x.units == first.units, "the way an archive is opened changes its units", s + " through " + CHN[ch] + ": " + std::to_string(x.units.size()) + " units" + (x.units.size() == first.units.size() && x.units.size() ? ": " + mc::diff(x.units[0], first.units[0]) : ""));
        }
    }
    auto doc = [&] { return " document " + mc::show(d.bytes, 900); };
    // the archive
    auto same = [&](const str& name, const str& want) { str got = field(first.arch, name); MC_CHECK(got == want, "archive metadata changes when written and read (" + name + ")", s + ": " + name + " is " + got + ", expected " + want + doc()); };
    bool sol = c.sol, none = c.units.empty();
    if (!(c.opts & SRCML_OPTION_NO_XML_DECL)) same("xml_encoding", sml::q(c.xml ? c.xml : "UTF-8"));
    same("revision", "'1.0.0'");
    if (!sol) {
        same("url", sml::q(c.url)); same("version", sml::q(c.version));
        MC_CHECK(first.arch.find(" macros=" + [&] { str o; for (auto& m : c.macros) o += sml::q(m.first) + ":" + sml::q(m.second) + ","; return o; }()) != str::npos, "archive metadata changes when written and read (macros)", s + ": " + mc::show(first.arch, 900) + doc());
    } else { same("url", sml::q(c.units[0].kind ? nullptr : c.url)); same("version", sml::q(c.units[0].version)); }
    if (c.opts & SRCML_OPTION_POSITION) same("tabstop", std::to_string(c.tab));
    if (!none) same("solitary", sol ? "1" : "0");
    MC_CHECK(first.arch.find(" pi=" + sml::q(c.pit) + "," + sml::q(c.pid) + " ") != str::npos, "archive metadata changes when written and read (processing instruction)", s + ": " + mc::show(first.arch, 900) + doc());
    int o = atoi(field(first.arch, "options").c_str()), keep = SRCML_OPTION_POSITION | SRCML_OPTION_CPP_TEXT_ELSE | SRCML_OPTION_CPP_MARKUP_IF0;
    size_t wo = c.opts; for (auto& n : c.ns) if (str(n.second) == "http://www.srcML.org/srcML/position") wo |= SRCML_OPTION_POSITION;
    MC_CHECK((o & keep) == ((int) wo & keep), "archive metadata changes when written and read (options)", s + ": options " + std::to_string(o) + doc());
    for (auto& n : c.ns) if (str(n.second).find("srcML.org") == str::npos || str(n.second).find("position") != str::npos) MC_CHECK(first.arch.find("'" + str(n.first) + "':'" + n.second + "',") != str::npos, "archive metadata changes when written and read (namespaces)", s + ": " + mc::show(first.arch, 900) + doc());
    // the units
    size_t want = none ? 1 : d.units.size();
    MC_CHECK(first.units.size() == want, "the number of units changes when written and read", s + ": " + std::to_string(first.units.size()) + " units" + doc());
    Reader r(MEM, d.bytes); Seen x = read_all(r.a, false);
    if (!none) for (size_t i = 0; i < want; ++i) MC_CHECK(x.units[i] == d.units[i], "a unit changes when written and read", s + ": unit " + std::to_string(i) + ": read " + mc::diff(x.units[i], d.units[i]) + doc());
    if (copy && !none) {      // copying every unit to an archive with the same settings
      for (int same_settings = 0; same_settings < 2; ++same_settings) {
        Reader r2(MEM, d.bytes); srcml_archive* w = same_settings ? srcml_archive_create() : srcml_archive_clone(r2.a); if (same_settings) set(w, c);
        char* b = nullptr; size_t n = 0; srcml_archive_write_open_memory(w, &b, &n);
        while (srcml_unit* u = srcml_archive_read_unit(r2.a)) { int rc = srcml_archive_write_unit(w, u); srcml_unit_free(u); MC_CHECK(rc == 0, "a unit that was read cannot be written", s); }
        srcml_archive_close(w); srcml_archive_free(w); str two(b ? b : "", n); srcml_memory_free(b);
        Reader r3(MEM, two); MC_CHECK(r3.rc == 0, "a copied archive cannot be opened", s + " copy " + mc::show(two, 600)); Seen y = read_all(r3.a);
        if (!same_settings || !sol) MC_CHECK(y.arch == first.arch, "a copied archive has other metadata", s + ": " + mc::diff(y.arch, first.arch) + doc() + " copy " + mc::show(two, 600));
        MC_CHECK(y.units.size() == first.units.size(), "a copied archive has another number of units", s + " copy " + mc::show(two, 600));
        for (size_t i = 0; i < want; ++i) { str g = canon(y.units[i]), e = canon(first.units[i]); MC_CHECK(g == e, "a copied unit differs", s + ": " + mc::diff(g, e) + doc() + " copy " + mc::show(two, 600)); }
      }
    }
    mc::validated(); mc::state(s);
}
static void pairs(int depth) {
    auto D = dims(); C c; unit(c, 0); std::vector<std::pair<int, int>> pick; int lo = 0;
    for (int i = 0; i < depth; ++i) { int k = lo + mc::choose((int) D.size() - lo); lo = k + 1; if (lo >= (int) D.size() && i + 1 < depth) mc::prune(); pick.push_back({k, mc::choose(D[(size_t) k].n)}); }
    for (auto& p : pick) D[(size_t) p.first].set(c, p.second);      // in the order of the dimensions
    for (auto& p : pick) if (D[(size_t) p.first].name == "solitary" && p.second) c.units.resize(1);
    if (c.sol && c.units.empty()) mc::prune();
    check_config(c, depth <= 1 || mc::thorough(), true);
}
static void sequences(int len) {
    C c; c.sol = false; c.opts = mc::pick(std::vector<size_t>{0, SRCML_OPTION_POSITION, SRCML_OPTION_STORE_ENCODING});
    for (int i = 0; i < len; ++i) { U u; u.src = mc::pick(SRCS); u.lang = mc::choose(2) ? "Java" : "C++"; if (mc::choose(2)) u.file = "a&b.cpp"; if (i & 1) u.version = "2"; c.units.push_back(u); }
    check_config(c, false, true);
}
// a document with something of everything, arriving in pieces
static C rich(int k) {
    C c; c.url = "u&<\"'>"; c.version = "v"; c.ns = NSS[2]; c.pit = "t"; c.pid = "a=\"b\""; c.macros = MACS[2]; c.opts = k == 1 ? SRCML_OPTION_POSITION : 0;
    for (int i = 0; i < 4; ++i) { U u; u.src = SRCS[(size_t) (k * 4 + i * 3) % SRCS.size()]; u.file = VALS[(size_t) (6 + i + k)]; u.lang = LG[(size_t) i]; u.kind = i == 3 ? 2 : 0; if (u.kind) u.src = "x&y\n"; c.units.push_back(u); }
    if (k == 2) { c.sol = true; c.units.resize(1); c.units[0].src = SRCS[11] + SRCS[16]; }
    if (k == 3) { c.units[1].src = "\n\n" + str(5000, 'a') + " /* " + str(3000, '&') + " */\n"; c.units[2].file = L5000.c_str(); }
    return c;
}
static void pieces(int lo, int hi) {
    int k = mc::choose(4), step = lo + mc::choose(hi - lo);
    static std::map<int, std::pair<Doc, Seen>> memo;
    if (!memo.count(k)) { Doc d = build(rich(k)); Reader r(MEM, d.bytes); memo[k] = {d, read_all(r.a)}; }
    auto& m = memo[k]; str s = "document " + std::to_string(k) + " of " + std::to_string(m.first.bytes.size()) + " bytes in pieces of " + std::to_string(step); mc::note(s);
    In in; in.b = m.first.bytes; in.step = (size_t) step; srcml_archive* a = srcml_archive_create(); int rc = srcml_archive_read_open_io(a, &in, in_read, in_close);
    MC_CHECK(rc == 0, "an archive that was written cannot be opened", s);
    Seen x = read_all(a); srcml_archive_close(a); srcml_archive_free(a); mc::step((int) x.units.size());
    MC_CHECK(x.arch == m.second.arch, "the way an archive is opened changes its metadata", s + ": " + mc::diff(x.arch, m.second.arch));
    MC_CHECK(x.units.size() == m.second.units.size(), "the way an archive is opened changes its units", s + ": " + std::to_string(x.units.size()) + " units, expected " + std::to_string(m.second.units.size()));
    for (size_t i = 0; i < x.units.size(); ++i) MC_CHECK(x.units[i] == m.second.units[i], "the way an archive is opened changes its units", s + ": unit " + std::to_string(i) + " " + mc::diff(x.units[i], m.second.units[i]));
    mc::validated(); mc::state(s);
}
// attributes of the user and of other tools, which no call sets: they come with a document that is read
static str esc(const str& v) { str o; for (char c : v) switch (c) { case '&': o += "&amp;"; break; case '<': o += "&lt;"; break; case '"': o += "&quot;"; break; case '\t': o += "&#9;"; break; case '\n': o += "&#10;"; break; default: o += c; } return o; }
typedef std::vector<std::pair<str, str>> VP;
static str tag(const VP& v) { str o; for (auto& a : v) o += " " + a.first + "=\"" + esc(a.second) + "\""; return o; }
static VP expect(const VP& v) { VP o; for (auto& a : v) o.push_back({!a.first.compare(0, 2, "x:") ? "{urn:x}" + a.first.substr(2) : !a.first.compare(0, 2, "y:") ? "{urn:y}" + a.first.substr(2) : "{}" + a.first, a.second}); return o; }
static void attributes(bool many) {
    static const std::vector<S> rn{"mine", "x:our", "a", "url", "version", "x:url"}, un{"mine", "x:our", "y:z", "item2", "filename", "version", "timestamp", "y:filename"};
    auto choose = [many](const std::vector<S>& names, VP& to) {
        int k = many ? mc::choose(4) : mc::choose(2);
        for (int i = 0; i < k; ++i) { str nm = names[(size_t) mc::choose((int) names.size())]; for (auto& a : to) if (a.first == nm) mc::prune(); to.push_back({nm, many ? mc::pick(std::vector<str>{"v", ""}) : str(VALS[1 + (size_t) mc::choose((int) VALS.size() - 1)])}); }
    };
    bool solo = mc::choose(2), same = many ? true : mc::choose(2); VP r, u;
    if (!solo) choose(rn, r);
    if (solo || !many || r.size() < 2) choose(un, u);
    str body = tag(u) + ">a;</unit>", head = "<unit xmlns=\"http://www.srcML.org/srcML/src\" xmlns:x=\"urn:x\"";
    str d = solo ? head + " xmlns:y=\"urn:y\" revision=\"1.0.0\" language=\"C\"" + body + "\n" : head + " revision=\"1.0.0\"" + tag(r) + ">\n\n<unit xmlns:y=\"urn:y\" revision=\"1.0.0\" language=\"C\"" + body + "\n\n<unit revision=\"1.0.0\" language=\"C\">b;</unit>\n\n</unit>\n";
    str s = mc::show(d, 900); mc::note(s);
    VP base{{"{}revision", "1.0.0"}}, er = expect(r), eu = expect(u);
    er.insert(er.end(), base.begin(), base.end()); eu.insert(eu.end(), base.begin(), base.end()); eu.push_back({"{}language", "C"}); std::sort(er.begin(), er.end()); std::sort(eu.begin(), eu.end());
    auto text = [](const VP& v) { str o; for (auto& a : v) o += a.first + "='" + mc::show(a.second, 400) + "' "; return o; };
    str now = d;
    for (int time = 0; time < 2; ++time) {      // a copy, and a copy of the copy
        str out;
        { Reader rd(MEM, now); MC_CHECK(rd.rc == 0, "a document with attributes of the user cannot be read", s);
          srcml_archive* w = same ? srcml_archive_clone(rd.a) : srcml_archive_create(); if (!same && solo) srcml_archive_enable_solitary_unit(w);
          char* b = nullptr; size_t n = 0; srcml_archive_write_open_memory(w, &b, &n);
          while (srcml_unit* un = srcml_archive_read_unit(rd.a)) { for (auto f : {srcml_unit_get_srcml_outer, srcml_unit_get_srcml}) if (!solo || f == srcml_unit_get_srcml) (void) f(un); int rc = srcml_archive_write_unit(w, un); srcml_unit_free(un); MC_CHECK(rc == 0, "a unit that was read cannot be written", s); }
          srcml_archive_close(w); srcml_archive_free(w); out.assign(b ? b : "", n); srcml_memory_free(b); }
        mc::step(2);
        dom::Doc x(out); xmlNodePtr root = x.root();
        MC_CHECK(root, "a copy is not well-formed", s + " copy " + mc::show(out, 900));
        if (!solo && same) MC_CHECK(dom::atts(root) == er, "attributes of the archive change in a copy", s + ": " + text(dom::atts(root)) + ", expected " + text(er));
        xmlNodePtr first = solo ? root : xmlFirstElementChild(root);
        MC_CHECK(first, "a unit is missing in a copy", s + " copy " + mc::show(out, 900));
        MC_CHECK(dom::atts(first) == eu, "attributes of a unit change in a copy", s + ": " + text(dom::atts(first)) + ", expected " + text(eu));
        now = out;
    }
    mc::validated(); mc::state(s);
}
void mc_setup() {
    int nul = open("/dev/null", O_WRONLY); dup2(nul, 2); mc::scratch();
    bool th = mc::thorough(); str n = std::to_string(dims().size());
    mc::add("one setting", "every value of every one of " + n + " settings of an archive and its units, the others as by default; opened in six ways", 1, 10, [=] { pairs(1); });
    mc::add("two settings", "every pair of values of every pair of settings", 2, 10, [=] { pairs(2); });
    mc::add("unit sequences", "all sequences of up to two units over 18 texts, two languages, with and without a file name, for three options", 2, 10, [=] { sequences(1 + mc::choose(2)); });
    mc::add("pieces", "four documents with something of everything (one of 14 kB), read in pieces of every size from 16 to " + str(th ? "5000" : "700") + " bytes", 2, 10, [=] { pieces(16, th ? 5001 : 701); });
    mc::add("attributes of the user", "documents with an attribute of the user, in a namespace or none, or a known one on the archive and on the unit, every one of 23 values each; copied twice, with the same settings and with none", 3, 10, [] { attributes(false); });
    mc::add("several attributes", "up to three attributes in every order on the archive or the unit, with and without a value", 3, 10, [] { attributes(true); });
    if (th) mc::add("three settings", "every triple of values of every three settings, opened in six ways", 3, 10, [=] { pairs(3); });
}
MC_MAIN
