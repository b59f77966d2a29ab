// P12: position attributes give the exact place of each element, and change nothing else.
#include "mc.hpp"
#include "sml.hpp"
#include "alphabet.hpp"
#include <map>

static srcml_archive* arch(const std::string& lang, size_t opt, int tab) {
    static std::map<std::string, srcml_archive*> m;
    auto& a = m[lang + " " + std::to_string(opt) + " " + std::to_string(tab)];
    if (!a) {
        a = srcml_archive_create();
        srcml_archive_set_language(a, lang.c_str());
        srcml_archive_set_src_encoding(a, "UTF-8");
        srcml_archive_set_tabstop(a, (size_t) tab);
        if (opt) srcml_archive_enable_option(a, opt);
    }
    return a;
}
static std::string parse(const std::string& lang, size_t opt, int tab, const std::string& src) {
    sml::Unit u(srcml_unit_create(arch(lang, opt, tab)));
    int rc = srcml_unit_parse_memory(u.get(), src.data(), src.size());
    MC_CHECK(rc == SRCML_STATUS_OK, "parse status " + std::to_string(rc), src);
    const char* p = srcml_unit_get_srcml_outer(u.get());
    MC_CHECK(p, "no markup", src);
    return p;
}
static std::string at(int l, int c) { return std::to_string(l) + ":" + std::to_string(c); }

static void check(const std::string& lang, size_t opt, int tab, const std::string& src) {
    mc::note(lang + (opt ? " opt=" + std::to_string(opt) : "") + " tab=" + std::to_string(tab) + ": " + src);
    std::string x = parse(lang, opt | SRCML_OPTION_POSITION, tab, src), plain = parse(lang, opt, tab, src);
    mc::step();
    sml::Xml d = sml::scan(x), p = sml::scan(plain);
    if (!d.ok() || !p.ok()) mc::prune();    // P02
    if (mc::state(x)) {}
    struct El { std::string name, start, end; bool prev; };
    // the option adds position attributes and nothing else
    size_t j = 0;
    std::string text;
    std::vector<El> all; std::vector<std::pair<size_t, size_t>> range;
    std::vector<size_t> idx;
    for (auto& e : d.ev) {
        std::string s, t;
        std::vector<std::pair<std::string, std::string>> rest;
        if (e.k == sml::Event::START) for (auto& a : e.atts) {
            if (a.first == "pos:start") s = a.second; else if (a.first == "pos:end") t = a.second; else if (a.first == "pos:tabs") MC_CHECK(a.second == std::to_string(tab), "tabs attribute", x);
            else if (a.first != "xmlns:pos") rest.push_back(a);
        }
        bool same = j < p.ev.size() && p.ev[j].k == e.k && p.ev[j].name == e.name && p.ev[j].text == e.text && p.ev[j].atts == rest;
        MC_CHECK(same, "positions change the markup", x + "\n-- without --\n" + plain);
        ++j;
        if (e.k == sml::Event::TEXT) text += e.text;
        else if (e.k == sml::Event::START) {
            if (e.name == "escape") for (auto& a : e.atts) if (a.first == "char") text += (char) strtol(a.second.c_str(), 0, 0);
            idx.push_back(all.size()); bool pv = false; for (auto& a : e.atts) if (a.first == "ref" && a.second == "prev") pv = true; all.push_back({e.name, s, t, pv}); range.push_back({text.size(), 0}); }
        else { range[idx.back()].second = text.size(); idx.pop_back(); }
    }
    MC_CHECK(j == p.ev.size(), "positions change the markup", x + "\n-- without --\n" + plain);
    // line and column of every byte
    std::vector<std::pair<int, int>> lc; int l = 1, c = 1;
    for (char ch : text) { lc.push_back({l, c}); if (ch == '\n') { ++l; c = 1; } else if (ch == '\t') c = ((c - 1) / tab + 1) * tab + 1; else ++c; }
    auto after = [&](size_t i) { return text[i] == '\t' ? at(lc[i].first, ((lc[i].second - 1) / tab + 1) * tab) : at(lc[i].first, lc[i].second); };    // the last column of a character
    // what an element skips at its edges: white space, comments and preprocessor directives
    auto cpp = [&](size_t i) { return all[i].name.compare(0, 4, "cpp:") == 0; };
    auto comment = [&](size_t i) { return all[i].name == "comment"; };
    // white space in comments and literals is not skipped
    std::vector<char> solid(text.size());
    for (size_t i = 0; i < all.size(); ++i) if (comment(i) || all[i].name == "literal" || all[i].name == "cpp:literal") for (size_t k = range[i].first; k < range[i].second; ++k) solid[k] = 1;
    auto cpps = [&](size_t i) { for (size_t k = 0; k <= i; ++k) if (cpp(k) && range[k].first <= range[i].first && range[i].second <= range[k].second) return true; return false; };
    for (size_t i = 1; i < all.size(); ++i) {
        size_t b = range[i].first, e = range[i].second;
        auto skips = [&](size_t k) { return comment(k) || all[k].name == "asm" || (cpp(k) && !cpp(i)); };
        auto space = [&](size_t k) { return !solid[k] && (strchr(" \t\n\r\f", text[k]) || (text[k] == '\\' && k + 1 < text.size() && text[k + 1] == '\n')); };
        bool more = true, unclear = false;
        while (more && !comment(i)) {
            more = false;
            while (b < e && space(b)) ++b;
            while (e > b && space(e - 1)) --e;
            for (size_t k = i + 1; k < all.size() && range[k].first < range[i].second && b < e; ++k) {
                if (!skips(k) || range[k].first == range[k].second) continue;
                if (range[k].first <= b && range[k].second > b) { b = range[k].second; more = true; unclear = unclear || all[k].name == "asm"; }
                else if (range[k].second >= e && range[k].first < e) { e = range[k].first; more = true; unclear = unclear || all[k].name == "asm"; }
            }
        }
        if (all[i].start.empty()) { MC_CHECK(all[i].name == "unit" || all[i].name == "escape" || b == e, "element without position: " + all[i].name, x); continue; }
        // a type that refers to the previous one has that one's place
        if (all[i].name == "type" && all[i].prev) continue;
        if (b == e) continue;
        // not decided: an asm block at the edge (part of the element or skipped), a directive or literal over several lines
        if (unclear || text[e - 1] == '\n') continue;
        for (size_t k = i + 1; k < all.size() && range[k].first < range[i].second; ++k)    // text left out by #if 0 is skipped as well
            if (all[k].name == "cpp:else" || all[k].name == "cpp:elif" || (all[k].name == "cpp:if" && text.substr(range[k].first, range[k].second - range[k].first).find('0') != std::string::npos)) unclear = true;
        if (unclear) continue;
        if (cpps(i) && text.substr(range[i].first, range[i].second - range[i].first).find_first_of("\"'") != std::string::npos) continue;
        if (cpps(i) && text.substr(range[i].first, range[i].second - range[i].first).find('\n') != std::string::npos) continue;
        std::string ws = at(lc[b].first, lc[b].second), we = after(e - 1);
        MC_CHECK(all[i].start == ws, "start of " + all[i].name, "expected " + ws + " got " + all[i].start + "\n" + x);
        MC_CHECK(all[i].end == we, "end of " + all[i].name, "expected " + we + " got " + all[i].end + "\n" + x);
    }
    mc::validated();
}

void mc_setup() {
    bool th = mc::thorough();
    for (int li = 0; li < 5; ++li) {
        std::string lang = LANGS[li];
        VS corp; for (auto& k : corpus(lang)) corp.push_back(k);
        mc::add("corpus " + lang, std::to_string(corp.size()) + " snippets, three tab sizes", 1, 10, [=] { int t = mc::pick(std::vector<int>{8, 4, 3}); check(lang, 0, t, mc::pick(corp)); });
        VS all = EXTRA; for (auto& k : keywords(lang)) all.push_back(k); all = uniq(all);
        VS ctx; for (size_t i = 0; i < CTX[li].size(); ++i) if (th || i % 4 == 0) ctx.push_back(CTX[li][i]);
        mc::add("pairs " + lang, std::to_string(all.size()) + "^2 token pairs after each of " + std::to_string(ctx.size()) + " contexts", 2, 10, [=] {
            std::string src = mc::pick(ctx); src += mc::pick(all) + " "; src += mc::pick(all);
            check(lang, 0, 8, src); });
        mc::add("triples " + lang, std::to_string(CORE.size()) + "^3 core token triples", 2, 10, [=] {
            std::string src; for (int i = 0; i < 3; ++i) src += mc::pick(CORE) + " ";
            check(lang, 0, 8, src); });
        std::vector<VS> toks; for (auto& t : corp) toks.push_back(lex_tokens(t));
        const int every = th ? 1 : 3;
        VS gap = {"\t", " \t", "\n", "/*\t*/", "//\xc3\xa9\n", "\\\n", "/** a\n\tb */", "\n#define a\n", "\r\n", "  "};
        mc::add("white space " + lang, std::to_string(corp.size()) + " snippets with each of " + std::to_string(gap.size()) + " tabs, line ends, comments and directives put in at every " + std::string(th ? "place" : "third place") + ", three tab sizes", 2, 10, [=] {
            const auto& t = toks[(size_t) mc::choose((int) toks.size())];
            int tab = mc::pick(std::vector<int>{8, 4, 1});
            const std::string& g = mc::pick(gap);
            int n = mc::choose(((int) t.size() + every) / every) * every;
            std::string src; for (int i = 0; i <= (int) t.size(); ++i) { if (i == n) src += g; if (i < (int) t.size()) src += t[(size_t) i]; }
            check(lang, 0, tab, src); });
    }
}
MC_MAIN
