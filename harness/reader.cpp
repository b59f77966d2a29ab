// P07: every schedule of the reader thread against every sequence of reading calls.
#include "sched.hpp"
#include "obs.hpp"

typedef std::vector<std::string> VS;
static const std::string NS = "xmlns=\"http://www.srcML.org/srcML/src\"";
struct Doc { std::string name, xml; VS units; bool solo; bool broken; };       // units: file name|inner text of each complete unit

static std::string unit_xml(int i, const std::string& body, const std::string& ns) {
    return "<unit" + ns + " revision=\"1.0.0\" language=\"C++\" filename=\"f" + std::to_string(i) + ".cpp\">" + body + "</unit>";
}
static std::vector<Doc> docs() {
    std::vector<Doc> d;
    const std::string decl = "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n";
    const std::string E1 = "<expr_stmt><expr><name>a</name></expr>;</expr_stmt>", E2 = "<name>b</name>\n";
    auto arch = [&](const std::string& inside) { return decl + "<unit " + NS + " revision=\"1.0.0\">\n\n" + inside + "\n\n</unit>\n"; };
    d.push_back({"solitary", decl + unit_xml(0, E1, " " + NS) + "\n", {"f0.cpp|a;"}, true, false});
    d.push_back({"two units", arch(unit_xml(0, E1, "") + "\n\n" + unit_xml(1, E2, "")), {"f0.cpp|a;", "f1.cpp|b\n"}, false, false});
    d.push_back({"empty tag", decl + "<unit " + NS + " revision=\"1.0.0\" language=\"C++\" filename=\"f0.cpp\"/>\n", {"f0.cpp|"}, true, false});
    d.push_back({"one unit", arch(unit_xml(0, E1, "")), {"f0.cpp|a;"}, false, false});
    d.push_back({"text only", decl + unit_xml(0, "x", " " + NS) + "\n", {"f0.cpp|x"}, true, false});
    d.push_back({"macro list first", arch("<macro-list token=\"M\" type=\"src:macro\"/>\n" + unit_xml(0, E1, "")), {"f0.cpp|a;"}, false, false});
    d.push_back({"empty unit among others", arch(unit_xml(0, E1, "") + unit_xml(1, "", "") + unit_xml(2, E2, "")), {"f0.cpp|a;", "f1.cpp|", "f2.cpp|b\n"}, false, false});
    d.push_back({"not srcML", "<a><b>c</b></a>", {}, false, true});
    d.push_back({"not srcML, empty", "<a/>", {}, false, true});
    d.push_back({"not XML", "int a;\n", {}, false, true});
    d.push_back({"only a declaration", decl, {}, false, true});
    d.push_back({"cut in the root tag", (decl + "<unit " + NS + " revision=\"1.0").substr(0), {}, false, true});
    d.push_back({"cut in the first unit", decl + "<unit " + NS + " revision=\"1.0.0\">\n\n<unit language=\"C++\" filename=\"f0.cpp\"><name>a</na", {}, false, true});
    d.push_back({"cut before the second unit", decl + "<unit " + NS + " revision=\"1.0.0\">\n\n" + unit_xml(0, E1, "") + "\n\n<un", {"f0.cpp|a;"}, false, true});
    d.push_back({"cut in a solitary unit", decl + "<unit " + NS + " language=\"C++\" filename=\"f0.cpp\"><name>a</name>", {}, true, true});
    d.push_back({"text after the root", decl + unit_xml(0, E1, " " + NS) + "\nrest", {"f0.cpp|a;"}, true, true});
    d.push_back({"unit mismatch", arch(unit_xml(0, E1, "") + "<unit><a></b></unit>"), {"f0.cpp|a;"}, false, true});
    d.push_back({"archive without units, open", decl + "<unit " + NS + " revision=\"1.0.0\">\n\n", {}, false, true});
    return d;
}
static std::string inner(srcml_unit* u) {
    sml::Xml x = sml::scan(sml::s(srcml_unit_get_srcml_outer(u)));
    return x.ok() ? sml::text_of(x) : "not well-formed: " + x.err;
}
struct Io { std::string b; size_t at = 0; int chunk; int closes = 0; };
static int io_read(void* c, char* buf, int len) { Io* i = (Io*) c; sched::yield(); size_t n = std::min<size_t>({(size_t) len, i->b.size() - i->at, (size_t) i->chunk}); memcpy(buf, i->b.data() + i->at, n); i->at += n; return (int) n; }
static int io_close(void* c) { ++((Io*) c)->closes; return 0; }

enum { READ, SKIP, ENDCALLS };
// one session; what it yields, as text
static std::string session(const Doc& d, const std::vector<int>& calls, int chunk, bool reopen) {
    std::string o;
    srcml_archive* a = srcml_archive_create();
    Io io{d.xml, 0, chunk ? chunk : 1 << 20};
    int rc = chunk ? srcml_archive_read_open_io(a, &io, io_read, io_close) : srcml_archive_read_open_memory(a, d.xml.data(), d.xml.size());
    o += "open " + std::to_string(rc) + " solo " + std::to_string(srcml_archive_is_solitary_unit(a)) + " rev " + sml::s(srcml_archive_get_revision(a)) + "\n";
    size_t k = 0; bool ended = false;
    for (int c : calls) {
        if (c == READ) {
            srcml_unit* u = srcml_archive_read_unit(a);
            std::string got = u ? sml::s(srcml_unit_get_filename(u)) + "|" + inner(u) : "";
            o += u ? "unit " + sml::obs_unit(u) + "\n" : "no unit\n";
            if (u) srcml_unit_free(u);
            std::string want = k < d.units.size() && !ended ? d.units[k] : "";
            if (!d.broken || u) MC_CHECK(got == want, "wrong unit read", "got " + mc::show(got) + " want " + mc::show(want) + " as unit " + std::to_string(k));
            if (!u) ended = true;
            ++k;
        } else {
            int r = srcml_archive_skip_unit(a);
            o += "skip " + std::to_string(r) + "\n";
            int want = k < d.units.size() && !ended;
            if (!d.broken) MC_CHECK((r != 0) == (want != 0), "wrong result of skip", std::to_string(r) + " for unit " + std::to_string(k));
            if (!r) ended = true;
            ++k;
        }
    }
    srcml_archive_close(a);
    (void) reopen;
    srcml_archive_free(a);
    if (chunk) MC_CHECK(io.closes == 1, "close callback called " + std::to_string(io.closes) + " times", "");
    return o;
}
static const char* CN[] = {"read", "skip"};

void mc_setup() {
    bool th = mc::thorough();
    // the library's messages are not judged here
    int nul = open("/dev/null", O_WRONLY); dup2(nul, 2);
    auto body = [=](int maxcalls, int maxpre, int maxspur, const std::vector<int>& chunks, int first, int ndocs) {
        static std::vector<Doc> D = docs();
        const Doc& d = D[(size_t) (first + mc::choose(ndocs))];
        int n = mc::choose(maxcalls + 1);
        std::vector<int> calls; for (int i = 0; i < n; ++i) calls.push_back(mc::choose(2));
        int chunk = mc::pick(chunks);
        std::string s = d.name + ":"; for (int c : calls) s += std::string(" ") + CN[c]; if (chunk) s += " io " + std::to_string(chunk);
        mc::note(s);
        for (int i = n; i < 5; ++i) mc::choose(1);            // same number of choices before the schedule begins
        static std::string key, base;
        if (key != s) {
            sched::run(0, 0, [&] { base = session(d, calls, chunk, false); });  // reference: no preemption
            key = s;
        }
        std::string o;
        sched::run(maxpre, maxspur, [&] { o = session(d, calls, chunk, false); });
        MC_CHECK(o == base, "result depends on the schedule", o + "\n-- without preemption --\n" + base);
        mc::validated();
        mc::state(s + o);
    };
    int nd = (int) docs().size();
    std::string what = std::to_string(nd) + " documents (solitary, archives, empty, not srcML, cut) x all sequences of ";
    mc::add("interleavings", what + "up to " + std::to_string(th ? 5 : 4) + " read/skip calls then close and free x all schedules with up to " + std::to_string(th ? 6 : 4) + " preemptions", 8, 60,
            [=] { body(th ? 5 : 4, th ? 6 : 4, 0, {0}, 0, nd); });
    mc::add("spurious wake-ups", what + "up to " + std::to_string(th ? 4 : 3) + " read/skip calls x all schedules with up to " + std::to_string(th ? 3 : 2) + " preemptions and " + std::to_string(th ? 2 : 1) + " spurious wake-ups", 8, 60,
            [=] { body(th ? 4 : 3, th ? 3 : 2, th ? 2 : 1, {0}, 0, nd); });
    mc::add("two archives", "two archives read in every merge of up to " + std::to_string(th ? 3 : 2) + " read/skip calls each, documents of 5, x all schedules with up to " + std::to_string(th ? 2 : 1) + " preemptions of the three threads", 5, 40, [=] {
        static std::vector<Doc> D = docs();
        const int sel[] = {0, 1, 6, 7, 13};
        const Doc *d[2]; size_t k[2] = {0, 0};
        for (int i = 0; i < 2; ++i) d[i] = &D[(size_t) sel[mc::choose(5)]];
        int calls = th ? 3 : 2;
        // merge: which archive is used next, and by which call
        std::vector<int> who, what; int left[2] = {calls, calls}; std::string s = d[0]->name + " / " + d[1]->name + ":";
        bool late = mc::choose(2) != 0;               // the second archive is opened after the first call on the first one
        while (left[0] || left[1]) {
            int w = left[0] && left[1] ? mc::choose(2) : left[0] ? 0 : 1;
            if (late && who.empty() && w == 1) mc::prune();
            --left[w]; who.push_back(w); what.push_back(mc::choose(2)); s += " " + std::string(1, "AB"[w]) + CN[what.back()];
        }
        mc::note(s + (late ? " B opened late" : ""));
        auto run = [&](std::string* o) {
            srcml_archive* a[2] = {srcml_archive_create(), srcml_archive_create()};
            auto open = [&](int i) { int rc = srcml_archive_read_open_memory(a[i], d[i]->xml.data(), d[i]->xml.size()); *o += "open " + std::to_string(rc) + "\n"; };
            open(0); if (!late) open(1);
            bool ended[2] = {false, false};
            for (size_t j = 0; j < who.size(); ++j) {
                int w = who[j];
                if (what[j] == READ) {
                    srcml_unit* u = srcml_archive_read_unit(a[w]);
                    std::string got = u ? sml::s(srcml_unit_get_filename(u)) + "|" + inner(u) : "", want = k[w] < d[w]->units.size() && !ended[w] ? d[w]->units[k[w]] : "";
                    MC_CHECK(got == want || (d[w]->broken && !u), "wrong unit read", "got " + mc::show(got) + " want " + mc::show(want));
                    if (!u) ended[w] = true; else srcml_unit_free(u);
                    *o += got + "\n";
                } else { int r = srcml_archive_skip_unit(a[w]); if (!d[w]->broken) MC_CHECK(r == (int) (k[w] < d[w]->units.size() && !ended[w]), "wrong result of skip", std::to_string(r)); if (!r) ended[w] = true; *o += "skip " + std::to_string(r) + "\n"; }
                ++k[w];
                if (late && j == 0) open(1);
            }
            for (int i = 0; i < 2; ++i) { srcml_archive_close(a[i]); srcml_archive_free(a[i]); }
        };
        std::string o;
        sched::run(th ? 2 : 1, 0, [&] { run(&o); });
        mc::validated();
        mc::state(s + o);
    });
    mc::add("slow input", what + "up to 2 read/skip calls, input through callbacks of 40 or 200 bytes with a scheduling point at every read x up to " + std::to_string(th ? 3 : 2) + " preemptions", 8, 60,
            [=] { body(th ? 3 : 2, th ? 3 : 2, 0, {40, 200}, 0, nd); });
}
MC_MAIN
