// P10: settings are independent variables; P11: extensions and language names.
#include "mc.hpp"
#include "obs.hpp"
#include <cmath>
#include <fcntl.h>

typedef const char* S;
typedef std::string str;
struct Opt { bool has = false; str v; Opt() {} Opt(S p) : has(p != nullptr), v(p ? p : "") {} str q() const { return has ? "'" + v + "'" : "null"; } };
static const char* SRC = "http://www.srcML.org/srcML/src"; static const char* CPPU = "http://www.srcML.org/srcML/cpp"; static const char* POSU = "http://www.srcML.org/srcML/position";
static const char* OMPU = "http://www.srcML.org/srcML/openmp"; static const char* ERRU = "http://www.srcML.org/srcML/error";
static const char* LANGS[] = {"C", "C++", "C#", "Java", "Objective-C"};
static bool published(const str& s) { for (S l : LANGS) if (s == l) return true; return false; }

// ------------------------------------------------------------------ reference model
struct Exts {        // registrations in order, on top of the documented defaults
    std::vector<std::pair<str, str>> v;
    Exts() { for (S e : {"c", "h", "i"}) v.push_back({e, "C"}); for (S e : {"cpp", "CPP", "cp", "hpp", "cxx", "hxx", "cc", "hh", "c++", "h++", "C", "H", "tcc", "ii"}) v.push_back({e, "C++"});
             for (S e : {"java", "aj"}) v.push_back({e, "Java"}); v.push_back({"cs", "C#"}); }
    bool add(const str& e, const str& l) { if (!published(l)) return false; v.push_back({e, l}); return true; }
    str find(str f) const {      // "" when there is none
        if (f.size() > 3 && f.compare(f.size() - 3, 3, ".gz") == 0) f.erase(f.size() - 3);
        size_t p = f.rfind('.');
        if (p == str::npos) return "";
        str e = f.substr(p + 1);
        for (size_t i = v.size(); i-- > 0;) if (v[i].first == e) return v[i].second;
        return "";
    }
};
struct MA {
    Opt xml, src, lang, url, ver, pit, pid; int opts = 0; bool solitary = false, hash = true; size_t tab = 8; std::vector<std::pair<str, str>> ns{{"", SRC}}; long rev = SRCDIFF_REVISION_INVALID; Exts ext;
};
struct MU { Opt lang, file, ver, ts, hash, enc; size_t eol = 0; int loc = -1; bool body = false; };
struct World { srcml_archive* a[2] = {}; srcml_unit* u[2] = {}; MA ma[2]; MU mu[2]; ~World() { for (auto x : u) if (x) srcml_unit_free(x); for (auto x : a) if (x) srcml_archive_free(x); } };

static const std::vector<str> FILES = {"a.c", "a.C", "a.cpp", "a.java", "a.x", "a.", "a", "", ".c", "c", ".gz", "a.gz", "a.c.gz", "a.x.gz", "a.gz.gz", "a.c.gz.gz", "d.c/a", "d.x/a.c", "a.b.x", "a.x ", "a.X", "a.c.bz2", "x.", "a.c++", "a.c#", "/a.x", "a.x.c", "a.c.x"};
static const std::vector<str> URIS = {SRC, CPPU, POSU, OMPU, ERRU, "http://x", "http://y", ""};
static const std::vector<str> PREFS = {"", "p", "cpp", "pos", "q"};

// several namespaces may have the same prefix; which of them a prefix stands for is left open (header: the first; a test of the project: the last)
typedef std::vector<std::pair<str, str>> NS;
static str uri_set(const NS& ns, const str& p) { str o; for (auto& n : ns) if (n.first == p) o += "'" + n.second + "'|"; return o.empty() ? "null" : o; }
static str uri_one(const NS& ns, const str& p, S got) { if (!got) return "null"; for (auto& n : ns) if (n.first == p && n.second == got) return uri_set(ns, p); return str("wrong '") + got + "'"; }
static NS ns_of(srcml_archive* a) { NS v; for (size_t i = 0; i < srcml_archive_get_namespace_size(a); ++i) { S p = srcml_archive_get_namespace_prefix(a, i), u = srcml_archive_get_namespace_uri(a, i); v.push_back({p ? p : "(null)", u ? u : "(null)"}); } return v; }

static str ma_str(const MA& m) {
    str o = "xml_encoding=" + m.xml.q() + " src_encoding=" + m.src.q() + " revision='1.0.0' language=" + m.lang.q() + " url=" + m.url.q() + " version=" + m.ver.q() + " tabstop=" + std::to_string(m.tab) + " options=" + std::to_string(m.opts);
    o += " solitary=" + std::to_string(m.solitary) + " hash=" + std::to_string(m.hash) + " ns(" + std::to_string(m.ns.size()) + ")=";
    for (auto& n : m.ns) o += "'" + n.first + "':'" + n.second + "',";
    o += " pi=" + m.pit.q() + "," + m.pid.q() + " rev=" + std::to_string(m.rev) + " prefix:";
    for (auto& u : URIS) { Opt r; for (auto& n : m.ns) if (n.second == u) { r = Opt(n.first.c_str()); break; } o += " " + r.q(); }
    o += " uri:";
    for (auto& p : PREFS) o += " " + uri_set(m.ns, p);
    o += " ext:"; for (S f : {"a.c", "a.x", "a.y.gz"}) { str l = m.ext.find(f); o += " " + Opt(l.empty() ? nullptr : l.c_str()).q(); }
    o += " error=0";
    return o;
}
static str ra_str(srcml_archive* a) {
    str o = sml::obs_archive(a) + " prefix:";
    for (auto& u : URIS) o += " " + sml::q(srcml_archive_get_prefix_from_uri(a, u.c_str()));
    o += " uri:"; for (auto& p : PREFS) o += " " + uri_one(ns_of(a), p, srcml_archive_get_uri_from_prefix(a, p.c_str()));
    o += " ext:"; for (S f : {"a.c", "a.x", "a.y.gz"}) o += " " + sml::q(srcml_archive_check_extension(a, f));
    o += " error=" + std::to_string(srcml_archive_error_number(a));
    return o;
}
static str mu_str(const MU& m) {
    return "language=" + m.lang.q() + " filename=" + m.file.q() + " version=" + m.ver.q() + " timestamp=" + m.ts.q() + " hash=" + m.hash.q() + " revision='1.0.0' encoding=" + m.enc.q() + " eol=" + std::to_string(m.eol) + " loc=" + std::to_string(m.loc) + " body=" + std::to_string(m.body) + " error=0";
}
static str ru_str(srcml_unit* u) {
    return sml::obs_unit_meta(u) + " eol=" + std::to_string(srcml_unit_get_eol(u)) + " loc=" + std::to_string(srcml_unit_get_loc(u)) + " body=" + std::to_string(srcml_unit_get_srcml(u) != nullptr) + " error=" + std::to_string(srcml_unit_error_number(u));
}
static int ms(bool ok, int bad = SRCML_STATUS_INVALID_ARGUMENT) { return ok ? SRCML_STATUS_OK : bad; }
static str z(S p) { return p ? "'" + str(p) + "'" : "null"; }

// ------------------------------------------------------------------ operations: real call, model
struct Op { str name; std::function<int(World&)> real; std::function<int(World&)> model; std::function<bool(World&)> can; };
typedef int (*AS)(srcml_archive*, S); typedef int (*AN)(srcml_archive*, size_t); typedef int (*US)(srcml_unit*, S);
static void a_ops(std::vector<Op>& v, int k, bool rich) {
    str w = k ? "B." : "A.";
    auto can = [k](World& x) { return x.a[k] != nullptr; };
    auto sv = [&](const char* n, AS f, Opt MA::*m, std::vector<S> vals) { for (S p : vals) v.push_back({w + n + "(" + z(p) + ")", [=](World& x) { return f(x.a[k], p); }, [=](World& x) { x.ma[k].*m = Opt(p); return 0; }, can}); };
    std::vector<S> few{"s1", nullptr}, all{"s1", "s2", nullptr, ""};
    auto& vals = rich ? all : few;
    sv("set_xml_encoding", srcml_archive_set_xml_encoding, &MA::xml, vals); sv("set_src_encoding", srcml_archive_set_src_encoding, &MA::src, vals);
    sv("set_language", srcml_archive_set_language, &MA::lang, rich ? std::vector<S>{"C++", "Java", nullptr, "", "zz"} : std::vector<S>{"C++", nullptr});
    sv("set_url", srcml_archive_set_url, &MA::url, vals); sv("set_version", srcml_archive_set_version, &MA::ver, vals);
    std::vector<int> masks = rich ? std::vector<int>{0, 2, 4, 8, 16, 32, 64, 126, 6, 1 << 8, 1 << 14, 1 << 15, -1} : std::vector<int>{0, 4, 8, 126};
    for (int m : masks) {
        v.push_back({w + "set_options(" + std::to_string(m) + ")", [=](World& x) { return srcml_archive_set_options(x.a[k], (size_t) m); }, [=](World& x) { x.ma[k].opts = m & 127; return 0; }, can});
        v.push_back({w + "enable_option(" + std::to_string(m) + ")", [=](World& x) { return srcml_archive_enable_option(x.a[k], (size_t) m); }, [=](World& x) { x.ma[k].opts |= m & 127; return 0; }, can});
        v.push_back({w + "disable_option(" + std::to_string(m) + ")", [=](World& x) { return srcml_archive_disable_option(x.a[k], (size_t) m); }, [=](World& x) { x.ma[k].opts &= ~(m & 127); return 0; }, can});
    }
    typedef int (*A0)(srcml_archive*);
    auto flag = [&](const char* n, A0 f, bool MA::*m, bool b) { v.push_back({w + n + "()", [=](World& x) { return f(x.a[k]); }, [=](World& x) { x.ma[k].*m = b; return 0; }, can}); };
    flag("enable_solitary_unit", srcml_archive_enable_solitary_unit, &MA::solitary, true); flag("disable_solitary_unit", srcml_archive_disable_solitary_unit, &MA::solitary, false);
    flag("enable_hash", srcml_archive_enable_hash, &MA::hash, true); flag("disable_hash", srcml_archive_disable_hash, &MA::hash, false);
    for (size_t t : rich ? std::vector<size_t>{0, 1, 4, 8, 1000} : std::vector<size_t>{4}) v.push_back({w + "set_tabstop(" + std::to_string(t) + ")", [=](World& x) { return srcml_archive_set_tabstop(x.a[k], t); }, [=](World& x) { x.ma[k].tab = t; return 0; }, can});
    std::vector<std::pair<S, S>> ns{{"p", "http://x"}, {"q", "http://x"}, {"p", SRC}, {"p", CPPU}};
    if (rich) for (auto p : std::vector<std::pair<S, S>>{{"p", "http://y"}, {"", "http://y"}, {"q", SRC}, {"pos", POSU}, {"err", ERRU}, {"q", OMPU}, {"cpp", CPPU}, {"p", ""}}) ns.push_back(p);
    for (auto& p : ns) { S a = p.first, b = p.second; v.push_back({w + "register_namespace(" + z(a) + "," + z(b) + ")", [=](World& x) { return srcml_archive_register_namespace(x.a[k], a, b); },
        [=](World& x) { MA& m = x.ma[k]; bool f = false; for (auto& n : m.ns) if (n.second == b) { n.first = a; f = true; break; } if (!f) m.ns.push_back({a, b});
            if (str(b) == CPPU) m.opts |= SRCML_OPTION_CPP; if (str(b) == POSU) m.opts |= SRCML_OPTION_POSITION; return 0; }, can}); }
    for (auto& p : std::vector<std::pair<S, S>>{{"t", "d"}, {"t2", ""}}) { S a = p.first, b = p.second; v.push_back({w + "set_processing_instruction(" + z(a) + "," + z(b) + ")", [=](World& x) { return srcml_archive_set_processing_instruction(x.a[k], a, b); }, [=](World& x) { x.ma[k].pit = Opt(a); x.ma[k].pid = Opt(b); return 0; }, can}); }
    for (size_t r : rich ? std::vector<size_t>{0, 1, 2, (size_t) -1} : std::vector<size_t>{1}) v.push_back({w + "set_srcdiff_revision(" + std::to_string((long) r) + ")", [=](World& x) { return srcml_archive_set_srcdiff_revision(x.a[k], r); }, [=](World& x) { if (r > 1) return ms(false); x.ma[k].rev = (long) r; return 0; }, can});
    std::vector<std::pair<S, S>> ex{{"x", "Java"}, {"c", "C#"}}; if (rich) for (auto p : std::vector<std::pair<S, S>>{{"x", "C++"}, {"y", "Objective-C"}, {"x", "zz"}, {"x", ""}}) ex.push_back(p);
    for (auto& p : ex) { S a = p.first, b = p.second; v.push_back({w + "register_file_extension(" + z(a) + "," + z(b) + ")", [=](World& x) { return srcml_archive_register_file_extension(x.a[k], a, b) != 0; }, [=](World& x) { return x.ma[k].ext.add(a, b) ? 0 : 1; }, can}); }
}
static void u_ops(std::vector<Op>& v, int k, bool rich) {
    str w = k ? "V." : "U.";
    auto can = [k](World& x) { return x.u[k] != nullptr; };
    auto sv = [&](const char* n, US f, Opt MU::*m, std::vector<S> vals) { for (S p : vals) v.push_back({w + n + "(" + z(p) + ")", [=](World& x) { return f(x.u[k], p); }, [=](World& x) { x.mu[k].*m = Opt(p); return 0; }, can}); };
    std::vector<S> few{"s1", nullptr}, all{"s1", "s2", nullptr, ""};
    auto& vals = rich ? all : few;
    sv("set_language", srcml_unit_set_language, &MU::lang, rich ? std::vector<S>{"C++", "Java", nullptr, "", "zz"} : std::vector<S>{"C++", nullptr});
    sv("set_filename", srcml_unit_set_filename, &MU::file, vals); sv("set_version", srcml_unit_set_version, &MU::ver, vals); sv("set_timestamp", srcml_unit_set_timestamp, &MU::ts, vals);
    sv("set_src_encoding", srcml_unit_set_src_encoding, &MU::enc, rich ? std::vector<S>{"UTF-8", "ISO-8859-1", nullptr} : std::vector<S>{"UTF-8", nullptr});
    for (size_t e : rich ? std::vector<size_t>{0, 1, 2, 3, 4, (size_t) -1} : std::vector<size_t>{2}) v.push_back({w + "set_eol(" + std::to_string((long) e) + ")", [=](World& x) { return srcml_unit_set_eol(x.u[k], e); }, [=](World& x) { if (e > 3) return ms(false); x.mu[k].eol = e; return 0; }, can});
    // parsing sets the hash, the line count and the encoding, nothing else
    v.push_back({w + "parse('a;\\n')", [=](World& x) { return srcml_unit_parse_memory(x.u[k], "a;\n", 3); }, [=](World& x) {
        MU& m = x.mu[k]; MA& a = x.ma[0]; str l = m.lang.has ? m.lang.v : a.lang.has ? a.lang.v : ""; if (!published(l)) return (int) SRCML_STATUS_UNSET_LANGUAGE;
        str e = m.enc.has ? m.enc.v : a.src.has ? a.src.v : ""; if (e == "s1" || e == "s2") return ms(false);
        m.hash = a.hash ? Opt("aa2a72b26cf958d8718a2e9bc6b84679a81d54cb") : Opt(); m.loc = 1; m.body = true; m.enc = Opt(e.empty() ? "ISO-8859-1" : e.c_str()); return 0; }, can});
}
static void link_ops(std::vector<Op>& v, bool units) {
    v.push_back({"B = clone(A)", [](World& x) { if (x.a[1]) srcml_archive_free(x.a[1]); x.a[1] = srcml_archive_clone(x.a[0]); return x.a[1] ? 0 : 1; }, [](World& x) { x.ma[1] = x.ma[0]; return 0; }, nullptr});
    v.push_back({"B = create()", [](World& x) { if (x.a[1]) srcml_archive_free(x.a[1]); x.a[1] = srcml_archive_create(); return x.a[1] ? 0 : 1; }, [](World& x) { x.ma[1] = MA(); return 0; }, nullptr});
    v.push_back({"A.clear_transforms()", [](World& x) { return srcml_clear_transforms(x.a[0]); }, [](World&) { return 0; }, nullptr});
    v.push_back({"A.append_transform_xpath(//a)", [](World& x) { return srcml_append_transform_xpath(x.a[0], "//a"); }, [](World&) { return 0; }, nullptr});
    v.push_back({"A.close()", [](World& x) { srcml_archive_close(x.a[0]); return 0; }, [](World&) { return 0; }, nullptr});
    if (!units) return;
    v.push_back({"V = clone(U)", [](World& x) { if (x.u[1]) srcml_unit_free(x.u[1]); x.u[1] = srcml_unit_clone(x.u[0]); return x.u[1] ? 0 : 1; }, [](World& x) { x.mu[1] = x.mu[0]; x.mu[1].loc = -1; x.mu[1].body = false; return 0; }, nullptr});
    v.push_back({"V = create(A)", [](World& x) { if (x.u[1]) srcml_unit_free(x.u[1]); x.u[1] = srcml_unit_create(x.a[0]); return x.u[1] ? 0 : 1; }, [](World& x) { x.mu[1] = MU(); return 0; }, nullptr});
}
static void run_ops(const std::vector<Op>& ops, int len) {
    World x; x.a[0] = srcml_archive_create(); x.u[0] = srcml_unit_create(x.a[0]);
    str s;
    auto check = [&](const str& after) {
        for (int k = 0; k < 2; ++k) if (x.a[k]) { str r = ra_str(x.a[k]), m = ma_str(x.ma[k]); MC_CHECK(r == m, "a setting of an archive is not what was set last", str("archive ") + "AB"[k] + " after " + after + ": " + mc::diff(r, m)); }
        for (int k = 0; k < 2; ++k) if (x.u[k]) { str r = ru_str(x.u[k]), m = mu_str(x.mu[k]); MC_CHECK(r == m, "a setting of a unit is not what was set last", str("unit ") + "UV"[k] + " after " + after + ": " + mc::diff(r, m)); }
    };
    if (len == 0) check("creation");
    for (int i = 0; i < len; ++i) {
        const Op& o = ops[(size_t) mc::choose((int) ops.size())];
        if (o.can && !o.can(x)) mc::prune();
        s += (i ? "; " : "") + o.name; mc::note(s);
        int r = o.real(x), m = o.model(x);
        MC_CHECK(r == m, "a setting call does not return its documented status", o.name + " returned " + std::to_string(r) + ", expected " + std::to_string(m));
        check(o.name); mc::step();
    }
    mc::validated(); mc::state(s);
}

// ------------------------------------------------------------------ program-wide defaults (each execution in a child: they cannot be reset)
static str in_child(const std::function<str()>& f) {
    int p[2]; if (pipe(p)) _exit(98);
    pid_t k = fork();
    if (!k) { str s; try { s = "=" + f(); } catch (...) { s = "!exception"; } size_t at = 0; while (at < s.size()) { ssize_t n = write(p[1], s.data() + at, s.size() - at); if (n <= 0) break; at += (size_t) n; } _exit(0); }
    close(p[1]); str o; char b[65536]; ssize_t n; while ((n = read(p[0], b, sizeof b)) > 0) o.append(b, (size_t) n);
    close(p[0]); int st; waitpid(k, &st, 0);
    return WIFEXITED(st) && WEXITSTATUS(st) == 0 ? o : "!child died of " + std::to_string(st);
}
struct GM { MA a; MU u; };
struct GOp { str name; std::function<int()> real; std::function<int(GM&)> model; };
static std::vector<GOp> g_ops() {
    std::vector<GOp> v;
    auto sv = [&](const char* n, int (*f)(S), std::function<Opt&(GM&)> m, std::vector<S> vals) { for (S p : vals) v.push_back({str("srcml_") + n + "(" + z(p) + ")", [=] { return f(p); }, [=](GM& g) { m(g) = Opt(p); return 0; }}); };
    std::vector<S> vals{"s1", nullptr, ""};
    sv("set_src_encoding", srcml_set_src_encoding, [](GM& g) -> Opt& { return g.a.src; }, vals); sv("set_xml_encoding", srcml_set_xml_encoding, [](GM& g) -> Opt& { return g.a.xml; }, vals);
    sv("set_language", srcml_set_language, [](GM& g) -> Opt& { return g.a.lang; }, vals); sv("set_filename", srcml_set_filename, [](GM& g) -> Opt& { return g.u.file; }, vals);
    sv("set_url", srcml_set_url, [](GM& g) -> Opt& { return g.a.url; }, vals); sv("set_version", srcml_set_version, [](GM& g) -> Opt& { return g.a.ver; }, vals); sv("set_timestamp", srcml_set_timestamp, [](GM& g) -> Opt& { return g.u.ts; }, vals);
    for (int m : {0, 4, 8, 126, 1 << 14}) {
        str t = std::to_string(m);
        v.push_back({"srcml_set_options(" + t + ")", [=] { return srcml_set_options((size_t) m); }, [=](GM& g) { g.a.opts = m & 127; return 0; }});
        v.push_back({"srcml_enable_option(" + t + ")", [=] { return srcml_enable_option((size_t) m); }, [=](GM& g) { g.a.opts |= m & 127; return 0; }});
        v.push_back({"srcml_disable_option(" + t + ")", [=] { return srcml_disable_option((size_t) m); }, [=](GM& g) { g.a.opts &= ~(m & 127); return 0; }});
    }
    for (size_t t : {0, 4}) v.push_back({"srcml_set_tabstop(" + std::to_string(t) + ")", [=] { return srcml_set_tabstop(t); }, [=](GM& g) { g.a.tab = t; return 0; }});
    for (auto& p : std::vector<std::pair<S, S>>{{"p", "http://x"}, {"q", "http://x"}, {"p", SRC}, {"p", CPPU}, {"", "http://y"}}) { S a = p.first, b = p.second; v.push_back({"srcml_register_namespace(" + z(a) + "," + z(b) + ")", [=] { return srcml_register_namespace(a, b); },
        [=](GM& g) { MA& m = g.a; bool f = false; for (auto& n : m.ns) if (n.second == b) { n.first = a; f = true; break; } if (!f) m.ns.push_back({a, b}); if (str(b) == CPPU) m.opts |= SRCML_OPTION_CPP; return 0; }}); }
    for (auto& p : std::vector<std::pair<S, S>>{{"x", "Java"}, {"c", "C#"}, {"x", "zz"}}) { S a = p.first, b = p.second; v.push_back({"srcml_register_file_extension(" + z(a) + "," + z(b) + ")", [=] { return (int) (srcml_register_file_extension(a, b) != 0); }, [=](GM& g) { return g.a.ext.add(a, b) ? 0 : 1; }}); }
    v.push_back({"srcml_set_processing_instruction('t','d')", [=] { return srcml_set_processing_instruction("t", "d"); }, [=](GM& g) { g.a.pit = Opt("t"); g.a.pid = Opt("d"); return 0; }});
    for (size_t e : {1, 3, 4}) v.push_back({"srcml_set_eol(" + std::to_string(e) + ")", [=] { return srcml_set_eol(e); }, [=](GM& g) { if (e > 3) return ms(false); g.u.eol = e; return 0; }});
    for (size_t r : {0, 1, 2}) v.push_back({"srcml_set_srcdiff_revision(" + std::to_string(r) + ")", [=] { return srcml_set_srcdiff_revision(r); }, [=](GM& g) { if (r > 1) return ms(false); g.a.rev = (long) r; return 0; }});
    return v;
}
static str g_real() {
    str o = "xml_encoding=" + sml::q(srcml_get_xml_encoding()) + " src_encoding=" + sml::q(srcml_get_src_encoding()) + " revision=" + sml::q(srcml_get_revision()) + " language=" + sml::q(srcml_get_language()) + " filename=" + sml::q(srcml_get_filename());
    o += " url=" + sml::q(srcml_get_url()) + " version=" + sml::q(srcml_get_version()) + " timestamp=" + sml::q(srcml_get_timestamp()) + " hash=" + sml::q(srcml_get_hash()) + " loc=" + std::to_string(srcml_get_loc()) + " eol=" + std::to_string(srcml_get_eol());
    o += " options=" + std::to_string(srcml_get_options()) + " tabstop=" + std::to_string(srcml_get_tabstop()) + " pi=" + sml::q(srcml_get_processing_instruction_target()) + "," + sml::q(srcml_get_processing_instruction_data()) + " rev=" + std::to_string((long) srcml_get_srcdiff_revision());
    o += " ns(" + std::to_string(srcml_get_namespace_size()) + ")="; for (size_t i = 0; i < srcml_get_namespace_size(); ++i) o += sml::q(srcml_get_namespace_prefix(i)) + ":" + sml::q(srcml_get_namespace_uri(i)) + ",";
    o += " prefix:"; for (auto& u : URIS) o += " " + sml::q(srcml_get_prefix_from_uri(u.c_str()));
    o += " uri:"; std::vector<std::pair<str, str>> all; for (size_t i = 0; i < srcml_get_namespace_size(); ++i) all.push_back({srcml_get_namespace_prefix(i), srcml_get_namespace_uri(i)});
    for (auto& p : PREFS) o += " " + uri_one(all, p, srcml_get_uri_from_prefix(p.c_str()));
    o += " ext:"; for (S f : {"a.c", "a.x", "a.java"}) o += " " + sml::q(srcml_check_extension(f));
    return o;
}
static str g_model(const GM& g) {
    str o = "xml_encoding=" + g.a.xml.q() + " src_encoding=" + g.a.src.q() + " revision='1.0.0' language=" + g.a.lang.q() + " filename=" + g.u.file.q() + " url=" + g.a.url.q() + " version=" + g.a.ver.q() + " timestamp=" + g.u.ts.q() + " hash=null loc=-1 eol=" + std::to_string(g.u.eol);
    o += " options=" + std::to_string(g.a.opts) + " tabstop=" + std::to_string(g.a.tab) + " pi=" + g.a.pit.q() + "," + g.a.pid.q() + " rev=" + std::to_string(g.a.rev) + " ns(" + std::to_string(g.a.ns.size()) + ")=";
    for (auto& n : g.a.ns) o += "'" + n.first + "':'" + n.second + "',";
    o += " prefix:"; for (auto& u : URIS) { Opt r; for (auto& n : g.a.ns) if (n.second == u) { r = Opt(n.first.c_str()); break; } o += " " + r.q(); }
    o += " uri:"; for (auto& p : PREFS) o += " " + uri_set(g.a.ns, p);
    o += " ext:"; for (S f : {"a.c", "a.x", "a.java"}) { str l = g.a.ext.find(f); o += " " + Opt(l.empty() ? nullptr : l.c_str()).q(); }
    return o;
}
static void run_globals(const std::vector<GOp>& ops, int len) {
    std::vector<int> k; str s; for (int i = 0; i < len; ++i) { k.push_back(mc::choose((int) ops.size())); s += (i ? "; " : "") + ops[(size_t) k.back()].name; }
    mc::note(s);
    str r = in_child([&]() -> str {
        GM g; srcml_archive* other = srcml_archive_create(); str was = ra_str(other);
        for (int i : k) {
            int a = ops[(size_t) i].real(), m = ops[(size_t) i].model(g);
            if (a != m) return ops[(size_t) i].name + " returned " + std::to_string(a) + ", expected " + std::to_string(m);
            str x = g_real(), y = g_model(g); if (x != y) return "after " + ops[(size_t) i].name + ": " + mc::diff(x, y);
        }
        srcml_archive* later = srcml_archive_create();
        if (ra_str(other) != was) return "an archive created before changed: " + mc::diff(ra_str(other), was);
        if (ra_str(later) != was) return "an archive created after differs: " + mc::diff(ra_str(later), was);
        return "";
    });
    MC_CHECK(r == "=", "a program-wide default is not what was set last", r.empty() ? str("no answer") : r.substr(1));
    mc::step(len); mc::validated(); mc::state(s);
}

// ------------------------------------------------------------------ P11
static const std::vector<std::pair<str, str>>& regs() {
    static std::vector<std::pair<str, str>> v;
    if (v.empty()) for (S e : {"c", "x", "cpp", "C", "", "gz", "X", "c.gz", "java", "b.x", ".x"}) for (S l : {"C", "C++", "Java", "C#", "Objective-C", "zz", ""}) v.push_back({e, l});
    return v;
}
static void run_exts(int len, bool few) {
    std::vector<std::pair<str, str>> R; for (size_t i = 0; i < regs().size(); ++i) if (!few || i % 7 < 2 || regs()[i].first == "x") R.push_back(regs()[i]);
    World x; x.a[0] = srcml_archive_create(); x.a[1] = srcml_archive_create(); str s;
    for (int i = 0; i < len; ++i) {
        int k = mc::choose(2); auto& p = mc::pick(R);
        s += str(i ? "; " : "") + "AB"[k] + ".register(" + p.first + "," + p.second + ")"; mc::note(s);
        int r = srcml_archive_register_file_extension(x.a[k], p.first.c_str(), p.second.c_str());
        bool m = x.ma[k].ext.add(p.first, p.second);
        MC_CHECK((r == SRCML_STATUS_OK) == m, "registering accepts an unpublished language or refuses a published one", s + " returned " + std::to_string(r)); mc::step();
    }
    for (int k = 0; k < 2; ++k) for (auto& f : FILES) {
        S g = srcml_archive_check_extension(x.a[k], f.c_str()); str m = x.ma[k].ext.find(f);
        MC_CHECK(str(g ? g : "") == m && (!g || *g), "the language of a file name is not the one registered last", str("archive ") + "AB"[k] + " after " + s + ": '" + f + "' is " + sml::q(g) + ", expected '" + m + "'");
    }
    for (auto& f : FILES) { S g = srcml_check_extension(f.c_str()); MC_CHECK(str(g ? g : "") == Exts().find(f), "a registration on an archive changes the program-wide one", s + ": " + f + " is " + sml::q(g)); }
    mc::validated(); mc::state(s);
}
static str SCRATCH;
static const char* CODE = "class A { public: int b; };\nusing C;\n@interface D : E @end\nstruct F { int g; };\n";
static std::map<str, str> INNER;      // the markup of that text in each language
static void run_lang(bool th) {
    static const std::vector<S> UL{nullptr, "C", "C++", "C#", "Java", "Objective-C"};
    static const std::vector<str> F{"a.c", "a.cpp", "a.java", "a.cs", "a.x", "a", "a.c.gz", "a.x.c", "d.c/a"};
    S ul = mc::pick(UL), al = mc::pick(UL); int way = mc::choose(3); str f = mc::pick(F); auto reg = mc::pick(std::vector<std::pair<str, str>>{{"", ""}, {"x", "Java"}, {"c", "C#"}, {"x", "zz"}, {"c", "C++"}}); int twice = mc::choose(3);
    str s = "unit " + z(ul) + ", archive " + z(al) + ", file " + f + ", registered " + reg.first + "->" + reg.second + (way == 0 ? " by name" : way == 1 ? " from memory" : " by descriptor") + (twice ? ", registered again" : ""); mc::note(s);
    World x; x.a[0] = srcml_archive_create(); Exts e;
    if (!reg.first.empty()) { srcml_archive_register_file_extension(x.a[0], reg.first.c_str(), reg.second.c_str()); e.add(reg.first, reg.second); }
    if (twice == 1) { srcml_archive_register_file_extension(x.a[0], "x", "C"); e.add("x", "C"); }
    if (twice == 2) { srcml_archive_register_file_extension(x.a[0], "c", "Objective-C"); e.add("c", "Objective-C"); }
    srcml_archive_set_language(x.a[0], al);
    srcml_unit* u = x.u[0] = srcml_unit_create(x.a[0]); srcml_unit_set_language(u, ul);
    str p = SCRATCH + "/" + f; int rc;
    if (way == 0) rc = srcml_unit_parse_filename(u, p.c_str()); else if (way == 1) rc = srcml_unit_parse_memory(u, CODE, strlen(CODE)); else { int fd = open(p.c_str(), O_RDONLY); rc = srcml_unit_parse_fd(u, fd); close(fd); }
    str want = ul ? ul : al ? al : way ? "" : e.find(p);
    if (want.empty()) MC_CHECK(rc == SRCML_STATUS_UNSET_LANGUAGE, "parsing without a language is not refused", s + ": status " + std::to_string(rc));
    else {
        MC_CHECK(rc == SRCML_STATUS_OK, "parsing with a language is refused", s + ": status " + std::to_string(rc));
        str o = srcml_unit_get_srcml_inner(u), l = " language=\"" + want + "\"";
        MC_CHECK(o == INNER[want], "a file is parsed in another language than its own", s + ": expected " + want + ": " + mc::diff(o, INNER[want]));
        // the archive says the same
        char* b = nullptr; size_t n = 0; srcml_archive* w = x.a[1] = srcml_archive_create(); srcml_archive_write_open_memory(w, &b, &n); srcml_archive_write_unit(w, u); srcml_archive_close(w);
        str d(b ? b : "", n); srcml_memory_free(b);
        MC_CHECK(d.find("<unit revision=\"1.0.0\"" + l) != str::npos, "a written unit states another language than it was parsed in", s + ": expected " + want + ": " + mc::show(d, 300));
    }
    mc::step(2); mc::validated(); mc::state(s);
}
static void check_name(const str& n) {
    mc::note("name '" + mc::show(n) + "'");
    bool ok = published(n);
    MC_CHECK((srcml_check_language(n.c_str()) != 0) == ok, "a language name is wrongly accepted or refused", n);
    World x; x.a[0] = srcml_archive_create(); srcml_unit* u = x.u[0] = srcml_unit_create(x.a[0]);
    MC_CHECK((srcml_archive_register_file_extension(x.a[0], "zz", n.c_str()) == 0) == ok, "a language name is wrongly accepted or refused for an extension", n);
    S g = srcml_archive_check_extension(x.a[0], "a.zz"); MC_CHECK(str(g ? g : "") == (ok ? n : ""), "the language of a file name is not the one registered last", n + ": " + sml::q(g));
    srcml_unit_set_language(u, n.c_str());
    int rc = srcml_unit_parse_memory(u, "a;", 2); MC_CHECK(rc == (ok ? SRCML_STATUS_OK : SRCML_STATUS_UNSET_LANGUAGE), "parsing accepts or refuses a language wrongly", n + ": status " + std::to_string(rc));
    mc::step(4); mc::validated(); mc::state(n);
}
static void edits(const std::vector<str>& base, const std::vector<str>& alpha, int depth) {
    str n = mc::pick(base);
    for (int i = 0; i < depth; ++i) {
        int k = mc::choose(5); if (k == 0) break;
        int at = mc::choose((int) n.size() + 1); size_t p = (size_t) at;
        if (k == 1) { if (p >= n.size()) mc::prune(); n.erase(p, 1); }
        else if (k == 2) n.insert(p, mc::pick(alpha));
        else if (k == 3) { if (p >= n.size()) mc::prune(); n.replace(p, 1, mc::pick(alpha)); }
        else { if (p >= n.size() || !isalpha(n[p])) mc::prune(); n[p] ^= 32; }
    }
    check_name(n);
}

void mc_setup() {
    bool th = mc::thorough(); str set = mc::opt("set", "P10");
    int nul = open("/dev/null", O_WRONLY); dup2(nul, 2);
    if (set == "P10") {
        auto full = std::make_shared<std::vector<Op>>(); a_ops(*full, 0, true); a_ops(*full, 1, true); u_ops(*full, 0, true); u_ops(*full, 1, true); link_ops(*full, true);
        auto few = std::make_shared<std::vector<Op>>(); a_ops(*few, 0, false); a_ops(*few, 1, false); u_ops(*few, 0, false); u_ops(*few, 1, false); link_ops(*few, true);
        auto arch = std::make_shared<std::vector<Op>>(); a_ops(*arch, 0, true); link_ops(*arch, false);
        auto unit = std::make_shared<std::vector<Op>>(); u_ops(*unit, 0, true); u_ops(*unit, 1, true); a_ops(*unit, 0, false); link_ops(*unit, true);
        auto n = [](auto& v) { return std::to_string(v->size()); };
        str how = " calls on an archive, its clone, a unit and its clone, every getter of all four compared with the model after each call";
        mc::add("start", "the state of a new archive and unit", 0, 10, [=] { run_ops(*full, 0); });
        mc::add("pairs", "all sequences of 2 of " + n(full) + how, 1, 10, [=] { run_ops(*full, 2); });
        mc::add("triples", "all sequences of 3 of " + n(few) + how, 2, 10, [=] { run_ops(*few, 3); });
        mc::add("archive triples", "all sequences of 3 of " + n(arch) + " calls on one archive", 2, 10, [=] { run_ops(*arch, 3); });
        if (th) {
            mc::add("unit triples", "all sequences of 3 of " + n(unit) + how, 2, 10, [=] { run_ops(*unit, 3); });
            mc::add("full triples", "all sequences of 3 of " + n(full) + how, 2, 10, [=] { run_ops(*full, 3); });
            mc::add("sequences of 4", "all sequences of 4 of " + n(few) + how, 2, 10, [=] { run_ops(*few, 4); });
        }
        auto g = std::make_shared<std::vector<GOp>>(g_ops());
        mc::add("program-wide", "all sequences of 2 of " + n(g) + " program-wide setting calls, each in a process of its own", 1, 10, [=] { run_globals(*g, 2); });
        if (th) mc::add("program-wide triples", "all sequences of 3 of " + n(g) + " program-wide setting calls, each in a process of its own", 2, 10, [=] { run_globals(*g, 3); });
    } else {
        SCRATCH = mc::scratch(); if (system(("mkdir " + SCRATCH + "/d.c").c_str())) _exit(98);
        for (S f : {"a.c", "a.cpp", "a.java", "a.cs", "a.x", "a", "a.c.gz", "a.x.c", "d.c/a"}) { int fd = open((SCRATCH + "/" + f).c_str(), O_CREAT | O_WRONLY, 0600); if (write(fd, CODE, strlen(CODE)) < 0) _exit(98); close(fd); }
        for (S l : LANGS) { World x; x.a[0] = srcml_archive_create(); x.u[0] = srcml_unit_create(x.a[0]); srcml_unit_set_language(x.u[0], l); srcml_unit_parse_memory(x.u[0], CODE, strlen(CODE)); INNER[l] = srcml_unit_get_srcml_inner(x.u[0]); }
        for (S l : LANGS) for (S k : LANGS) if (l != k && INNER[l] == INNER[k]) { fprintf(stdout, "languages %s and %s not told apart\n", l, k); _exit(98); }
        mc::add("extensions", "all sequences of up to 2 of " + std::to_string(regs().size()) + " registrations on two archives, then every file-name shape", 2, 10, [=] { run_exts(mc::choose(3), false); });
        mc::add("extensions, three", "all sequences of 3 registrations of a part of them on two archives, then every file-name shape", 3, 10, [=] { run_exts(3, !th); });
        if (th) mc::add("extensions, four", "all sequences of 4 registrations of a part of them on two archives, then every file-name shape", 3, 10, [=] { run_exts(4, true); });
        mc::add("language", "unit language x archive language x registrations x file name x way of parsing", 3, 10, [=] { run_lang(th); });
        std::vector<str> base{"C", "C++", "C#", "Java", "Objective-C", "", "none", "xml", "CXX", "c++", "ObjectiveC", "Python", "C++11", "JavaScript"};
        std::vector<str> al{"C", "+", "#", "c", "J", "a", "v", "-", " ", "O", "\n", "\xC3\xA9", "x"};
        mc::add("names", "the published names and others with up to " + str(th ? "3" : "2") + " characters deleted, inserted, replaced or changed in case", 2, 10, [=] { edits(base, al, th ? 3 : 2); });
    }
}
MC_MAIN
