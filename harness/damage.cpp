// P19: archives cut at every byte, or with every byte changed, removed or doubled.
#include "sched.hpp"
#include "obs.hpp"
#include "arch.hpp"

struct Damaged { str name, bytes; std::vector<size_t> ends; VS units; };      // ends: where each unit's end tag ends
static std::vector<Damaged> docs() {
    using namespace arch;
    std::vector<Damaged> d;
    auto add = [&](const str& n, const C& c) {
        Damaged x; x.name = n; x.bytes = build(c).bytes;
        sml::Xml t = sml::scan(x.bytes); int depth = 0; if (!t.ok()) { printf("mc: setup: %s\n", t.err.c_str()); _exit(98); }
        for (auto& e : t.ev) { if (e.k == sml::Event::START) ++depth; if (e.k == sml::Event::END && --depth == (c.sol ? 0 : 1) && e.name == "unit") x.ends.push_back(e.at); }
        d.push_back(x);
    };
    C c; c.url = "u"; c.version = "1"; U u; u.file = "a.cpp"; u.src = "a<b;\n"; c.units = {u, u}; c.units[1].file = "d/b.cpp"; c.units[1].src = "if(x)\"&\";"; c.ns = {{"e", "http://e/"}}; add("archive of two units", c);
    C s; s.sol = true; s.units = {u}; s.opts = SRCML_OPTION_POSITION; add("solitary unit with positions", s);
    C m; m.units = {u, u, u}; m.macros = {{"M", "src:macro"}}; m.pit = "pi"; m.pid = "data"; m.units[0].src = "\x01 \xC3\xA9;"; m.units[1].src = ""; m.units[2].kind = 2; add("macros, a processing instruction, an escape, an empty and a hand-written unit", m);
    return d;
}
struct In { const str* b; size_t at = 0, chunk; int closes = 0; };
static int in_read(void* c, char* buf, int len) { In* i = (In*) c; size_t n = std::min<size_t>({(size_t) len, i->b->size() - i->at, i->chunk}); memcpy(buf, i->b->data() + i->at, n); i->at += n; return (int) n; }
static int in_close(void* c) { ++((In*) c)->closes; return 0; }
static str look(srcml_unit* u) {
    str o = sml::obs_unit_meta(u, true) + sml::s(srcml_unit_get_srcml_outer(u)) + "|" + sml::s(srcml_unit_get_srcml_inner(u)) + "|" + sml::s(srcml_unit_get_srcml(u));
    char* b = nullptr; size_t n = 0; int rc = srcml_unit_unparse_memory(u, &b, &n); o += "|" + std::to_string(rc) + (b ? str(b, n) : ""); srcml_memory_free(b);
    return o;
}
// what reading yields; the units are looked at in full
enum { ALL, SKIPPING, TWO_THEN_CLOSE, IO, WAYS };
static VS read_way(const str& bytes, int way, str* rest) {
    VS o; srcml_archive* a = srcml_archive_create(); In in{&bytes, 0, way == IO ? (size_t) 100 : (size_t) 1 << 20};
    int rc = way == IO ? srcml_archive_read_open_io(a, &in, in_read, in_close) : srcml_archive_read_open_memory(a, bytes.data(), bytes.size());
    *rest = "open " + std::to_string(rc);
    if (rc == SRCML_STATUS_OK) {
        *rest += " " + sml::obs_archive(a);
        for (int i = 0; i < 12; ++i) {
            if (way == TWO_THEN_CLOSE && i == 2) break;
            if (way == SKIPPING && i % 2 == 0) { if (!srcml_archive_skip_unit(a)) break; o.push_back("skipped"); continue; }
            srcml_unit* u = srcml_archive_read_unit(a);
            if (!u) break;
            o.push_back(look(u)); srcml_unit_free(u);
            MC_CHECK(i < 11, "units without end", "");
        }
        if (way != TWO_THEN_CLOSE) { srcml_unit* u = srcml_archive_read_unit(a); *rest += u ? " unit after the end" : ""; if (u) srcml_unit_free(u); }
    }
    srcml_archive_close(a); srcml_archive_free(a);
    if (way == IO) MC_CHECK(in.closes == 1, "close callback called " + std::to_string(in.closes) + " times", "");
    return o;
}
void mc_setup() {
    bool th = mc::thorough();
    int nul = open("/dev/null", O_WRONLY); dup2(nul, 2);
    static std::vector<Damaged> D = docs();
    static std::vector<std::vector<VS>> intact(D.size(), std::vector<VS>(WAYS));
    for (size_t i = 0; i < D.size(); ++i) for (int w = 0; w < WAYS; ++w) { str r; intact[i][(size_t) w] = read_way(D[i].bytes, w, &r); if (w == ALL && intact[i][0].size() != D[i].ends.size()) { printf("mc: setup: %s: %zu units\n", D[i].name.c_str(), intact[i][0].size()); } }
    // the first byte that differs is at `at`
    auto check = [](int d, int way, const str& bytes, size_t at, int pre) {
        VS got; str rest;
        sched::run(pre, 0, [&] { got = read_way(bytes, way, &rest); });
        size_t before = 0; for (size_t e : D[(size_t) d].ends) before += e <= at;
        const VS& want = intact[(size_t) d][(size_t) way];
        str why = D[(size_t) d].name + ", byte " + std::to_string(at) + ", ..." + mc::show(bytes.substr(at > 30 ? at - 30 : 0, 60)) + ": " + std::to_string(got.size()) + " units, " + rest;
        for (size_t i = 0; i < got.size() && i < before && i < want.size(); ++i) MC_CHECK(got[i] == want[i], "a unit before the damage is not what was written", why + "\n" + mc::show(got[i], 900) + "\n-- intact --\n" + mc::show(want[i], 900));
        MC_CHECK(rest.find("unit after the end") == str::npos, "a unit after the end", why);
        size_t most = std::min(before, want.size());
        MC_CHECK(got.size() >= most, "a unit before the damage is missing", why);
        mc::validated(); mc::state(rest + std::to_string(got.size()) + (got.empty() ? "" : got.back()));
    };
    mc::add("cut", "3 archives cut after every byte x 4 ways of reading (all, skipping every other, two units then close, callbacks of 100 bytes) x all schedules of the reader thread with up to " + std::to_string(th ? 2 : 1) + " preemptions", 3, 60, [=] {
        int d = mc::choose((int) D.size()), way = mc::choose(WAYS); size_t at = (size_t) mc::choose((int) D[(size_t) d].bytes.size());
        check(d, way, D[(size_t) d].bytes.substr(0, at), at, th ? 2 : 1);
    });
    static const str R = th ? str("<>&\"'/= ;-?!:a\n\x00\x80\xff\xc3[]x#\t\x01", 25) : str("<>&\"/= a\x00\xff;!", 12);
    mc::add("one byte", "3 archives, every byte replaced by each of " + std::to_string(R.size()) + " bytes, removed, doubled, or exchanged with the next x 4 ways of reading", 3, 60, [=] {
        int d = mc::choose((int) D.size()), way = mc::choose(WAYS); size_t at = (size_t) mc::choose((int) D[(size_t) d].bytes.size());
        int k = mc::choose((int) R.size() + 3); str b = D[(size_t) d].bytes;
        if (k < (int) R.size()) { if (b[at] == R[(size_t) k]) mc::prune(); b[at] = R[(size_t) k]; }
        else if (k == (int) R.size()) b.erase(at, 1);
        else if (k == (int) R.size() + 1) b.insert(at, 1, b[at]);
        else { if (at + 1 >= b.size() || b[at] == b[at + 1]) mc::prune(); std::swap(b[at], b[at + 1]); }
        check(d, way, b, at, 0);
    });
    mc::add("pieces", "3 archives split into tags and texts: every piece removed, doubled, or put in place of every other piece x 2 ways of reading", 3, 60, [=] {
        int d = mc::choose((int) D.size()), way = mc::choose(2); const str& b = D[(size_t) d].bytes;
        std::vector<std::pair<size_t, size_t>> p; for (size_t i = 0; i < b.size();) { size_t e = b[i] == '<' ? b.find('>', i) : b.find('<', i); e = e == str::npos ? b.size() : b[i] == '<' ? e + 1 : e; p.push_back({i, e - i}); i = e; }
        size_t i = (size_t) mc::choose((int) p.size()), j = (size_t) mc::choose((int) p.size() + 1);
        str x = b, pi = b.substr(p[i].first, p[i].second);
        if (j == p.size()) x.erase(p[i].first, p[i].second); else x.replace(p[i].first, p[i].second, b.substr(p[j].first, p[j].second) + (j == i ? pi : ""));
        size_t at = 0; while (at < x.size() && at < b.size() && x[at] == b[at]) ++at;
        check(d, way, x, at, 0);
    });
}
MC_MAIN
