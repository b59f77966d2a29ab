// P33: the parser test of the tool (--parser-test): which stored markup is not what the parser gives.
#define main srcml_main
#include <srcml.cpp>
#undef main
#include "tool.hpp"
#include "sml.hpp"
#include <math.h>
#include <curl/curl.h>
// no downloads
static const char* const PROTOCOLS[] = {"file", "http", "https", "ftp", nullptr};
static curl_version_info_data CURL_INFO = {"0", PROTOCOLS};
curl_version_info_data* curl_version_info(int) { return &CURL_INFO; }
CURLcode curl_global_init(long) { return 0; }
void curl_global_cleanup() {}
CURL* curl_easy_init() { return nullptr; }
CURLcode curl_easy_setopt(CURL*, CURLoption, ...) { return 0; }
CURLcode curl_easy_getinfo(CURL*, CURLINFO, ...) { return 0; }
CURLcode curl_easy_perform(CURL*) { return 1; }
void curl_easy_cleanup(CURL*) {}
using namespace tool;
typedef std::vector<int> VI;
struct PUnit { str lang, inner, want; bool wrong; };       // the markup that is stored, and what its text is parsed to
static str esc(const str& t) { str o; for (char c : t) o += c == '<' ? "&lt;" : c == '&' ? "&amp;" : c == '>' ? "&gt;" : str(1, c); return o; }
static str parse(const str& lang, const str& text) {
    sml::Archive a(srcml_archive_create()); char* b = nullptr; size_t n = 0; srcml_archive_write_open_memory(a.get(), &b, &n); sml::Unit u(srcml_unit_create(a.get())); srcml_unit_set_language(u.get(), lang.c_str()); srcml_unit_set_src_encoding(u.get(), "UTF-8");
    if (srcml_unit_parse_memory(u.get(), text.data(), text.size()) != SRCML_STATUS_OK) mc::fail("harness: parse", text); str r = sml::s(srcml_unit_get_srcml_inner(u.get())); u.reset(); srcml_archive_close(a.get()); free(b); return r;
}
static str text_of(const str& in) { str o; for (size_t i = 0; i < in.size(); ++i) if (in[i] == '<') { while (in[i] != '>') ++i; } else o += in[i]; for (auto& e : std::vector<std::pair<str, str>>{{"&lt;", "<"}, {"&gt;", ">"}, {"&amp;", "&"}}) for (size_t p = 0; (p = o.find(e.first, p)) != str::npos; ++p) o.replace(p, e.first.size(), e.second); return o; }
static void swap_name(str& s, size_t at) { if (at == str::npos) return; s.replace(at, 6, "<nam>"); size_t e = s.find("</name>", at); s.replace(e, 7, "</nam>"); }
static const int ALTER = 11;
static str alter(const str& m, int how) {
    str s = m; size_t line = s.find('\n'), mid = s.find('\n', s.size() / 2);
    switch (how) {
    case 1: swap_name(s, s.find("<name>")); break;
    case 2: { size_t at = s.rfind("<name>"), open = at == str::npos ? at : s.rfind("<name><name>", at); swap_name(s, open == str::npos ? at : at); } break;
    case 3: s = esc(text_of(m)); break;                                    // no markup
    case 4: s = "<name>q</name>" + s; break;
    case 5: s += "<name>q</name>"; break;
    case 6: if (mid != str::npos) s.insert(mid + 1, "q\n"); break;
    case 7: if (line != str::npos) s.insert(line + 1, "<empty/>"); break;
    case 8: s += "\n\n<x>q</x>\n\n"; break;
    case 9: if (mid != str::npos) s = s.substr(0, mid + 1) + esc(text_of(s.substr(mid + 1))); break;
    case 10: if (line != str::npos) s = esc(text_of(s.substr(0, line + 1))) + s.substr(line + 1); break;
    }
    return s;
}
static std::vector<PUnit> UNITS;
static void make_units() {
    str ten, equal; for (int i = 0; i < 10; ++i) { ten += "int a" + std::to_string(i) + " = " + std::to_string(i) + " < 2;\n"; if (i < 8) equal += "a;\n"; }
    for (auto& l : VS{"C++", "Java"}) for (auto& t : VS{"", "x;\n", ten, ten.substr(0, ten.size() - 1), equal, "\n\n\n\n\n\n\n\n"}) { if (l == "Java" && t != "x;\n" && t != ten) continue;
        str m = parse(l, t); for (int h = 0; h < ALTER; ++h) { PUnit u{l, alter(m, h), "", false}; if (h && u.inner == m) continue; u.want = parse(l, text_of(u.inner)); u.wrong = u.inner != u.want; bool seen = false; for (auto& o : UNITS) seen |= o.lang == l && o.inner == u.inner; if (!seen) UNITS.push_back(u); } }
}
static str document(const std::vector<const PUnit*>& us, const str& url) {
    str x = "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n<unit xmlns=\"http://www.srcML.org/srcML/src\" revision=\"1.0.0\"" + (url.empty() ? "" : " url=\"" + url + "\"") + ">\n\n";
    for (auto u : us) x += "<unit revision=\"1.0.0\" language=\"" + u->lang + "\">" + u->inner + "</unit>\n\n"; return x + "</unit>\n";
}
static VS words(const str& s) { VS v; std::istringstream in(s); str w; while (in >> w) v.push_back(w); return v; }
static str cut(const str& s, size_t a, size_t b) { return a == str::npos || b == str::npos || b < a ? "" : s.substr(a, b - a); }
struct Given33 { str name, url; std::vector<const PUnit*> units; };
static void uncolor(str& s) { for (size_t p = 0; (p = s.find('\033', p)) != str::npos;) s.erase(p, s.find('m', p) - p + 1); }
static void judge(const Run& r, const std::vector<Given33>& fs, bool color) {
    str o = r.out, why; for (auto& f : fs) { why += "\n" + f.name + ":"; for (auto u : f.units) why += " " + u->lang + (u->wrong ? "-" : "+"); } why = r.line + why + "\nprinted " + mc::show(r.out, 1500) + " " + mc::show(r.err, 200);
    auto check = [&](bool ok, const char* what, const str& more = "") { MC_CHECK(ok, what, why + (more.empty() ? "" : "\n" + more)); };
    if (color) { // the wrong ones are red
        str list = cut(o, 0, o.find("\n\nErrors:\n")); VI red; size_t n = 0; for (auto& f : fs) for (auto u : f.units) { (void) u; ++n; } size_t p = 0, seen = 0; std::vector<bool> wrong; for (auto& f : fs) for (auto u : f.units) wrong.push_back(u->wrong);
        while ((p = list.find("\033[0;3", p)) != str::npos) { check(seen < n && list.compare(p, 7, wrong[seen] ? "\033[0;31m" : "\033[0;33m") == 0, "color of a unit"); ++seen; p += 7; } check(seen == n, "color of the units"); uncolor(o); }
    size_t e = o.find("\n\nErrors:\n"), s = o.find("\n\nSummary:\n"), c = o.find("\nCounts: "); check(e != str::npos && s != str::npos && c != str::npos && e < s && s < c, "parts of the report");
    // the numbers
    VS got = words(cut(o, 0, e)), want; size_t width = 0;
    for (auto& f : fs) { want.push_back(f.units[0]->lang); if (!f.url.empty()) want.push_back(f.url); width = 0; int k = 0; for (auto u : f.units) { ++k; if (width >= 75) { want.push_back("..."); width = 0; } width += std::to_string(k).size() + 1; want.push_back((u->wrong && !color ? "-" : "") + std::to_string(k)); } }
    str gs, ws; for (auto& w : got) gs += w + " "; for (auto& w : want) ws += w + " "; check(gs == ws, "the units that are right and wrong", "got " + gs + "\nwant " + ws);
    // the errors, in order
    size_t at = e + 10; int total = 0, failed = 0; std::map<str, std::pair<int, int>> by; std::map<str, VS> listed;
    for (auto& f : fs) { int k = 0; for (auto u : f.units) {
        ++k; ++total; ++by[u->lang].second; if (!u->wrong) continue; ++failed; ++by[u->lang].first; listed[u->lang + " " + f.name].push_back(std::to_string(k));
        str head = u->lang + "\t" + f.url + "\t" + f.name + "\t" + std::to_string(k) + "\n test:\n"; check(o.compare(at, head.size(), head) == 0, "an error is not reported as it should", head + "\nat " + mc::show(o.substr(at, 200))); at += head.size();
        bool fits = false; size_t next = 0; const str &I = u->inner, &R = u->want; size_t lines = std::max(std::count(I.begin(), I.end(), '\n'), std::count(R.begin(), R.end(), '\n'));
        // what is shown are the two texts without lines that are the same at the start and at the end
        size_t most = 0; while (most < I.size() && most < R.size() && I[most] == R[most]) ++most;
        for (size_t p = 0; p <= most && !fits; ++p) { if (p && (lines <= 5 || I[p - 1] != '\n')) continue; size_t tail = 0, room = std::min(I.size(), R.size()) - p;
            for (tail = 0; tail <= room; ++tail) { if (tail && (I[I.size() - tail] != R[R.size() - tail] || lines <= 5)) break; str a = I.substr(p, I.size() - p - tail), b = R.substr(p, R.size() - p - tail); str body = a + (a.empty() || a.back() != '\n' ? "\n" : "") + "srcml:\n" + b + "\n"; if (o.compare(at, body.size(), body) == 0) { size_t after = at + body.size(); bool ends = after == s || (o[after] != '\n' && after < s); if (ends) { fits = true; next = after; break; } } } }
        check(fits, "the difference that is shown is not that of the unit", "unit " + mc::show(I, 600) + "\nparsed " + mc::show(R, 600) + "\nat " + mc::show(o.substr(at, 500))); at = next; } }
    check(at == s, "more errors than there are");
    // the summary and the counts
    std::map<str, VS> sum; { std::istringstream in(cut(o, s + 11, c)); str l; while (std::getline(in, l)) { VS w = words(l); if (w.empty()) continue; check(w.size() >= 3, "line of the summary", l); str num; std::istringstream ns(w.back()); while (std::getline(ns, num, ',')) sum[w[0] + " " + w[w.size() - 2]].push_back(num); } }
    for (auto* m : {&sum, &listed}) for (auto& x : *m) std::sort(x.second.begin(), x.second.end()); check(sum == listed, "the summary is not of the units that are wrong");
    std::istringstream in(o.substr(c + 1)); str l; std::map<str, std::pair<int, int>> counts; while (std::getline(in, l)) { VS w = words(l); if (!w.empty() && w[0] == "Counts:") w.erase(w.begin()); if (w.size() != 4) continue; counts[w[0]] = {atoi(w[1].c_str()), atoi(w[2].c_str())}; str pc = w[3]; int n = counts[w[0]].first, of = counts[w[0]].second; if (pc.empty() || pc.back() != '%') check(false, "percentage", l); pc.pop_back(); double exact = of ? 100.0 * n / of : 0; if (pc == "<1") check(exact > 0 && exact < 1, "percentage", l); else { check(pc.find_first_not_of("0123456789.") == str::npos && fabs(atof(pc.c_str()) - exact) <= 1, "percentage", l); } }
    by["Total"] = {failed, total}; check(counts == by, "counts of the units"); mc::state(gs + std::to_string(failed)); mc::validated();
}
void mc_setup() {
    bool th = mc::thorough(); make_units();
    mc::add("units", "every archive of one or two of " + std::to_string(UNITS.size()) + " units (2 languages, 6 texts, 11 ways their markup differs from that of the parser) x with and without colors", 2, 60, [=] {
        Given33 f{"t.xml", "", {}}; f.units.push_back(&mc::pick(UNITS)); int k = mc::choose((int) UNITS.size() + 1); if (k) f.units.push_back(&UNITS[(size_t) k - 1]); bool color = mc::choose(2); str dir = fresh(); put(dir + "/t.xml", document(f.units, "")); VS a = {"--parser-test", "t.xml"}; if (!color) a.insert(a.begin() + 1, "--no-color"); Run r = run(dir, a); good(r); judge(r, {f}, color); });
    static const std::vector<std::pair<int, int>> SHAPE = {{1, 0}, {3, 0}, {0, 3}, {2, 2}, {40, 0}, {120, 1}};
    mc::add("files", "every sequence of up to " + str(th ? "4" : "3") + " files of 6 numbers of right and wrong units in 2 languages, with and without a url x by name, as a directory, a list x all or one unit x number of threads", 2, 60, [=] {
        int max = th ? 4 : 3; std::vector<Given33> fs; str dir = fresh(), list; VS names;
        for (int i = 0; i < max; ++i) { int k = mc::choose((int) SHAPE.size() * 2 + 1); if (!k) break; --k; auto& sh = SHAPE[(size_t) k / 2]; str name = str("s/") + (char) ('a' + i) + ".xml"; Given33 f{name, k & 1 ? "U" + std::to_string(i) : "", {}}; str lang = k & 1 ? "Java" : "C++"; std::vector<const PUnit*> good_, bad; for (auto& u : UNITS) if (u.lang == lang) (u.wrong ? bad : good_).push_back(&u);
            for (int j = 0; j < std::max(sh.first, sh.second); ++j) { if (j < sh.first) f.units.push_back(good_[(size_t) j % good_.size()]); if (j < sh.second) f.units.push_back(bad[(size_t) (j * 3 + i) % bad.size()]); } fs.push_back(f); put(dir + "/" + name, document(f.units, f.url)); names.push_back(name); list += name + "\n"; }
        if (fs.empty()) mc::prune(); int form = mc::choose(2), threads = mc::choose(2); VS a = {"--parser-test", "--no-color"}; if (threads) a.insert(a.end(), {"--jobs", "4"}); if (form == 0) a.insert(a.end(), names.begin(), names.end()); else a.push_back("s"); Run r = run(dir, a); good(r); judge(r, fs, false); });
}
MC_MAIN
