// P03: a parse depends only on its text, language and options, not on what was parsed before or at the same time.
#include "sched.hpp"
#include "obs.hpp"
#include "alphabet.hpp"
#include <thread>

struct Item { std::string lang, text; int options = 0; int tab = 8; int ns = 0; bool hash = true; const char* enc = nullptr; bool fails = false; };
static std::string name_of(const Item& i) {
    std::string o = i.lang + " " + mc::show(i.text, 60);
    if (i.options) o += " options " + std::to_string(i.options);
    if (i.tab != 8) o += " tabs " + std::to_string(i.tab);
    if (i.ns) o += " prefixes " + std::to_string(i.ns);
    if (!i.hash) o += " no hash";
    if (i.enc) o += std::string(" ") + i.enc;
    return o;
}
static std::vector<Item> items() {
    std::vector<Item> v;
    auto a = [&](const char* l, const char* t, int opt = 0, int tab = 8, int ns = 0, bool hash = true, const char* enc = nullptr) { v.push_back({l, t, opt, tab, ns, hash, enc}); };
    const int POS = SRCML_OPTION_POSITION;
    a("C++", "a;\n"); a("C++", "\tint f(int a) { return a; }\n", POS); a("C++", "\tint f(int a) { return a; }\n", POS, 4); a("C++", "\tint f(int a) { return a; }\n");
    a("C++", "#define A\n#if 0\nx;\n#else\ny;\n#endif\n"); a("C++", "#define A\n#if 0\nx;\n#else\ny;\n#endif\n", SRCML_OPTION_CPP_TEXT_ELSE); a("C++", "#if 0\nx;\n#endif\n", SRCML_OPTION_CPP_MARKUP_IF0);
    a("C++", "class A : public B { public: A(); template <class T> void f(T<int> & a) const; };\n"); a("C++", "if (a) { b; } else if (c) d;"); a("C++", "");
    a("C++", "a;\n", POS, 8, 1); a("C++", "#define A\na;\n", POS, 8, 2); a("C++", "#define A\na;\n", 0, 8, 1); a("C++", "x \x01 y;\n", POS); a("C++", "a < b > c; }} ) ( \"x", POS);
    a("C++", "/* a", 0); a("C++", "// a", POS); a("C++", "#if A\n"); a("C++", "// \xC3\xA9\n", 0, 8, 0, true, "UTF-8"); a("C++", "// \xC3\xA9\n", 0, 8, 0, true, "ISO-8859-1");
    a("C++", "\xEF\xBB\xBF" "a;\n"); a("C++", "a;\n", 0, 8, 0, false); a("C++", "M(a) b;\n"); a("C++", "a;\n", SRCML_OPTION_STORE_ENCODING);
    a("C", "struct class { int a; } b;\n"); a("C", "int f(a) int a; { return _Generic(a, int : 1, default : 2); }\n"); a("C", "", POS);
    a("Java", "package a; import b.c; class D extends E implements F { @X int a() throws G { for (int i : j) k(); } }\n"); a("Java", "/** a */ enum A { B, C }\n", POS);
    a("C#", "using A; namespace B { class C { int D { get; set; } event E F; } }\n"); a("C#", "/// a\nfrom a in b where c select d;\n", POS); a("C#", "[A] class B { int this[int i] { get { return i; } } }");
    a("Objective-C", "@interface A : B - (int) a: (int) b; @end\n"); a("Objective-C", "[a b: c];\n@\"x\";", POS);
    a("C++", "R\"x(a)x\"; L'a' 0x1; \"s\\\"\"\n"); a("C", "R\"x(a)x\"\n"); a("Java", "class class class {", POS);
    v.push_back({"", "a;"}); v.push_back({"C++", "a;", 0, 8, 0, true, "NOSUCH"});
    return v;
}

static srcml_archive* fresh(const Item& i) {
    srcml_archive* a = srcml_archive_create();
    for (int b = 1; b < 7; ++b) srcml_archive_disable_option(a, 1u << b);
    if (i.options) srcml_archive_enable_option(a, (size_t) i.options);
    srcml_archive_set_tabstop(a, (size_t) i.tab);
    if (i.ns) { Item n = i; if (n.ns == 1) { srcml_archive_register_namespace(a, "p", "http://www.srcML.org/srcML/position"); srcml_archive_register_namespace(a, "c", "http://www.srcML.org/srcML/cpp"); }
        else { srcml_archive_register_namespace(a, "s", "http://www.srcML.org/srcML/src"); srcml_archive_register_namespace(a, "q", "http://www.srcML.org/srcML/position"); } }
    if (!i.hash) srcml_archive_disable_hash(a);
    return a;
}
// settings of an archive that can be changed back
static void reconfigure(srcml_archive* a, const Item& i) {
    for (int b = 1; b < 7; ++b) if (!i.ns || 1u << b != SRCML_OPTION_POSITION) srcml_archive_disable_option(a, 1u << b);
    if (i.options) srcml_archive_enable_option(a, (size_t) i.options);
    srcml_archive_set_tabstop(a, (size_t) i.tab);
    if (i.hash) srcml_archive_enable_hash(a); else srcml_archive_disable_hash(a);
}
static bool same_archive_ok(const Item& x, const Item& y) { return x.ns == y.ns && (!x.ns || (x.options & SRCML_OPTION_POSITION) == (y.options & SRCML_OPTION_POSITION)); }    // turning positions off removes their registered prefix
struct Io { std::string b; size_t at = 0; size_t chunk; };
static ssize_t io_read(void* c, void* buf, size_t len) { Io* i = (Io*) c; sched::yield(); size_t n = std::min({len, i->b.size() - i->at, i->chunk}); memcpy(buf, i->b.data() + i->at, n); i->at += n; return (ssize_t) n; }
static int io_close(void*) { sched::yield(); return 0; }
// the archive has to be there for as long as the unit
static std::string parse(srcml_unit* u, const Item& i, size_t chunk = 0) {
    srcml_unit_set_language(u, i.lang.empty() ? nullptr : i.lang.c_str());
    srcml_unit_set_src_encoding(u, i.enc);
    Io io{i.text, 0, chunk ? chunk : i.text.size() + 1};
    int rc = chunk ? srcml_unit_parse_io(u, &io, io_read, io_close) : srcml_unit_parse_memory(u, i.text.data(), i.text.size());
    std::string o = "status " + std::to_string(rc);
    if (rc == SRCML_STATUS_OK) o += " " + sml::obs_unit(u);
    return o;
}
static std::string parse_new(srcml_archive* a, const Item& i, size_t chunk = 0) {
    srcml_unit* u = srcml_unit_create(a); std::string o = parse(u, i, chunk); srcml_unit_free(u); return o;
}
static std::vector<Item> I;
static std::vector<std::string> REF, OUT;    // what each item gives in a process of its own: the observation of the unit, and of it in an archive
static std::string in_child(const std::function<std::string()>& f) {
    int p[2]; if (pipe(p)) _exit(98);
    pid_t k = fork();
    if (!k) { std::string s = f(); size_t at = 0; while (at < s.size()) { ssize_t n = write(p[1], s.data() + at, s.size() - at); if (n <= 0) break; at += (size_t) n; } _exit(0); }
    close(p[1]); std::string o; char b[65536]; ssize_t n; while ((n = read(p[0], b, sizeof b)) > 0) o.append(b, (size_t) n);
    close(p[0]); int st; waitpid(k, &st, 0);
    return WIFEXITED(st) && WEXITSTATUS(st) == 0 ? o : "child failed";
}
static std::string whole(const Item& i) {
    srcml_archive* a = fresh(i); srcml_archive_disable_solitary_unit(a);
    char* b = nullptr; size_t n = 0; srcml_archive_write_open_memory(a, &b, &n);
    srcml_unit* u = srcml_unit_create(a); std::string o = parse(u, i);
    o += " write " + std::to_string(srcml_archive_write_unit(a, u));
    srcml_unit_free(u); srcml_archive_close(a); o += "\n" + std::string(b ? b : "", n); srcml_archive_free(a); srcml_memory_free(b);
    return o;
}
enum { NEW_ARCHIVE, SAME_ARCHIVE, SAME_UNIT, WHOLE, NMODE };
static const char* MN[] = {"new archive", "same archive", "same unit", "written archive"};

// short texts: what one of them leaves in a lexer or parser shows in another
struct Short { int lang; std::string text, ref; };
static std::string short_parse(srcml_archive* a, const Short& t) {
    srcml_unit* u = srcml_unit_create(a); srcml_unit_set_language(u, LANGS[t.lang]);
    int rc = srcml_unit_parse_memory(u, t.text.data(), t.text.size());
    std::string o = std::to_string(rc) + " " + sml::s(srcml_unit_get_srcml_outer(u)) + " " + std::to_string(srcml_unit_get_loc(u));
    srcml_unit_free(u); return o;
}
static srcml_archive* short_archive() { srcml_archive* a = srcml_archive_create(); srcml_archive_enable_option(a, SRCML_OPTION_POSITION); return a; }
static std::vector<Short> shorts(const std::vector<Short>& in) {
    std::vector<Short> v = in;
    for (auto& t : v) t.ref = in_child([&] { return short_parse(short_archive(), t); });
    return v;
}
static void short_case(const std::vector<const std::vector<Short>*>& sets, bool three) {
    const auto& V = *sets[(size_t) mc::choose((int) sets.size())];
    const Short &x = V[(size_t) mc::choose((int) V.size())], &y = V[(size_t) mc::choose((int) V.size())];
    srcml_archive* a = short_archive();
    auto say = [&] { return std::string(LANGS[x.lang]) + " '" + mc::show(x.text) + "' then " + LANGS[y.lang] + " '" + mc::show(y.text) + "'"; };
    std::vector<const Short*> order{&x, &y}; if (three) order.push_back(&x);
    for (size_t i = 0; i < order.size(); ++i) { std::string o = short_parse(a, *order[i]); mc::step(); if (o != order[i]->ref) { srcml_archive_free(a); mc::note(say()); mc::fail("the parse of a short text depends on an earlier one", say() + ", parse " + std::to_string(i + 1) + ": " + mc::diff(o, order[i]->ref)); } }
    srcml_archive_free(a); mc::validated(); mc::state(say());
}

void mc_setup() {
    bool th = mc::thorough();
    int nul = open("/dev/null", O_WRONLY); dup2(nul, 2);
    I = items();
    for (auto& i : I) {
        REF.push_back(in_child([&] { srcml_archive* a = fresh(i); return parse_new(a, i); }));
        OUT.push_back(in_child([&] { return whole(i); }));
    }
    int n = (int) I.size();
    auto seq = [=](int len, const std::vector<int>& pool) {
        std::vector<int> k; for (int j = 0; j < len; ++j) k.push_back(pool[(size_t) mc::choose((int) pool.size())]);
        std::vector<int> mode{NEW_ARCHIVE}; for (int j = 1; j < len; ++j) mode.push_back(mc::choose(NMODE));
        std::string s; for (int j = 0; j < len; ++j) s += (j ? std::string("; then in ") + MN[mode[j]] + ": " : "") + name_of(I[k[j]]);
        mc::note(s);
        for (int j = 1; j < len; ++j) if ((mode[j] == SAME_ARCHIVE || mode[j] == SAME_UNIT) && (!same_archive_ok(I[k[j - 1]], I[k[j]]) || mode[j - 1] == WHOLE)) mc::prune();
        srcml_archive* a = nullptr; srcml_unit* u = nullptr;
        auto drop = [&] { if (u) srcml_unit_free(u); if (a) { srcml_archive_close(a); srcml_archive_free(a); } u = nullptr; a = nullptr; };
        for (int j = 0; j < len; ++j) {
            const Item& i = I[k[j]];
            std::string o, want = mode[j] == WHOLE ? OUT[k[j]] : REF[k[j]];
            if (mode[j] == WHOLE) { drop(); o = whole(i); }
            else {
                if (mode[j] == NEW_ARCHIVE) { drop(); a = fresh(i); u = srcml_unit_create(a); }
                else { reconfigure(a, i); if (mode[j] == SAME_ARCHIVE) { srcml_unit_free(u); u = srcml_unit_create(a); } }
                o = parse(u, i);
            }
            if (o != want) { drop(); mc::fail(std::string("a parse depends on an earlier one (") + MN[mode[j]] + ")", "parse " + std::to_string(j + 1) + " " + mc::diff(o, want)); }
            mc::step();
        }
        // the same text again in the same unit
        if (mode[(size_t) len - 1] != WHOLE) { std::string o = parse(u, I[k[(size_t) len - 1]]); if (o != REF[k[(size_t) len - 1]]) { drop(); mc::fail("parsing the same text again differs", mc::diff(o, REF[k[(size_t) len - 1]])); } }
        drop();
        mc::validated(); mc::state(s);
    };
    std::vector<int> all; for (int i = 0; i < n; ++i) all.push_back(i);
    std::vector<int> few; for (int i = 0; i < n; ++i) if (th || i % 3 == 1) few.push_back(i);
    std::string how = " x (new archive, same archive, same unit, written archive), each compared with the same parse in a process of its own";
    mc::add("pairs", "all ordered pairs of " + std::to_string(n) + " items (texts, languages, options, prefixes, tab stops, encodings)" + how, 2, 20, [=] { seq(2, all); });
    mc::add("triples", "all ordered triples of " + std::to_string(few.size()) + " items" + how, 3, 20, [=] { seq(3, few); });
    if (th) { std::vector<int> f4; for (int i = 0; i < n; ++i) if (i % 3 == 1) f4.push_back(i); mc::add("sequences of four", "all ordered sequences of 4 of " + std::to_string(f4.size()) + " items" + how, 3, 20, [=] { seq(4, f4); }); }
    {
        static const VS CH = {"\"", "'", "\\", "/", "*", "#", "\n", "R", "(", ")", "a", "0", ".", "<", "@", "L", "\x01", "$", ":", "E"};
        static std::vector<Short> sets[6]; static std::vector<const std::vector<Short>*> one, across;
        for (int l = 0; l < 5; ++l) {
            VS t = CH;
            for (auto& a : CH) for (auto& b : CH) t.push_back(a + b);
            for (auto& w : SMALL) t.push_back(w);
            for (auto& w : CORE) t.push_back(w);
            for (auto& w : CTX[l]) t.push_back(w);
            std::vector<Short> v; for (auto& w : uniq(t)) if (!w.empty()) v.push_back({l, w, ""});
            sets[l] = shorts(v); one.push_back(&sets[l]);
            for (auto& x : sets[l]) if (x.text.size() == 1 || std::find(CTX[l].begin(), CTX[l].end(), x.text) != CTX[l].end()) sets[5].push_back(x);
        }
        across.push_back(&sets[5]);
        mc::add("short texts", "every ordered pair of " + std::to_string(sets[3].size()) + " to " + std::to_string(sets[0].size()) + " texts of each language (all of one and two characters that matter to a lexer, tokens, unfinished contexts), with positions, each compared with the same parse in a process of its own", 2, 20, [] { short_case(one, false); });
        if (th) mc::add("texts of three characters", "every text of three of " + std::to_string(CH.size()) + " characters before every of the short texts, in each language", 3, 20, [] {
            int l = mc::choose(5); std::string t; for (int i = 0; i < 3; ++i) t += CH[(size_t) mc::choose((int) CH.size())];
            srcml_archive* a = short_archive(); const Short& y = sets[l][(size_t) mc::choose((int) sets[l].size())];
            short_parse(a, {l, t, ""}); std::string o = short_parse(a, y); srcml_archive_free(a); mc::step(2);
            MC_CHECK(o == y.ref, "the parse of a short text depends on an earlier one", std::string(LANGS[l]) + " '" + mc::show(t) + "' then '" + mc::show(y.text) + "': " + mc::diff(o, y.ref)); mc::validated();
        });
        mc::add("short texts of two languages", "every ordered pair of " + std::to_string(sets[5].size()) + " texts of the five languages, and the first again", 2, 20, [] { short_case(across, true); });
    }
    auto conc = [=](int T, int per, const std::vector<int>& pool, int maxpre, size_t chunk) {
        std::vector<int> k; for (int j = 0; j < T * per; ++j) k.push_back(pool[(size_t) mc::choose((int) pool.size())]);
        std::string s; for (int j = 0; j < T * per; ++j) s += (j % per ? "; then " : j ? " || " : "") + name_of(I[k[j]]);
        mc::note(s);
        std::vector<std::string> o((size_t) (T * per));
        sched::run(maxpre, 0, [&] {
            std::vector<std::thread> t;
            for (int x = 0; x < T; ++x) t.emplace_back([&, x] { for (int y = 0; y < per; ++y) { int j = x * per + y; srcml_archive* a = fresh(I[k[j]]); o[j] = parse_new(a, I[k[j]], chunk); srcml_archive_free(a); } });
            for (auto& x : t) x.join();
        });
        for (int j = 0; j < T * per; ++j) MC_CHECK(o[j] == REF[k[j]], "a parse depends on another at the same time", mc::diff(o[j], REF[k[j]]));
        mc::validated(); mc::state(s);
    };
    std::vector<int> P; for (int i = 0; i < n; ++i) if (!I[i].text.empty() && I[i].enc == nullptr && !I[i].lang.empty()) P.push_back(i);
    std::vector<int> Pf; for (size_t i = 0; i < P.size(); ++i) if (i % (th ? 3 : 8) == 1) Pf.push_back(P[i]);
    mc::add("two threads", "all pairs of " + std::to_string(P.size()) + " items parsed in two threads, input in two or more reads x all interleavings of the reads with up to " + std::to_string(th ? 6 : 2) + " preemptions", 3, 30, [=] { conc(2, 1, P, th ? 6 : 2, 30); });
    mc::add("two threads, two parses each", "all choices of 4 of " + std::to_string(Pf.size()) + " items x all interleavings of the reads with up to " + std::to_string(th ? 3 : 2) + " preemptions", 5, 30, [=] { conc(2, 2, Pf, th ? 3 : 2, 40); });
    mc::add("three threads", "all triples of " + std::to_string(Pf.size()) + " items in three threads x all interleavings with up to " + std::to_string(th ? 4 : 2) + " preemptions", 4, 30, [=] { conc(3, 1, Pf, th ? 4 : 2, 30); });
}
MC_MAIN
