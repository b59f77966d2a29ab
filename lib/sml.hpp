// sml.hpp - small helpers over the public libsrcml API, and an independent XML reader used as oracle.
#pragma once
#include <srcml.h>
#include <memory>
#include <string>
#include <utility>
#include <vector>

namespace sml {

// ---------------------------------------------------------------- independent XML scanner
// Strict enough to decide well-formedness (with namespaces) of what srcML writes: elements,
// attributes, entity/char references, comments, PIs, one XML declaration.  No DTD.
struct Event { enum K { START, END, TEXT } k; std::string name; std::vector<std::pair<std::string, std::string>> atts; std::string text; size_t at; };

struct Xml {
    std::string err;
    std::vector<Event> ev;
    bool ok() const { return err.empty(); }
};

inline bool name_start(unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || c >= 0x80; }
inline bool name_char(unsigned char c) { return name_start(c) || (c >= '0' && c <= '9') || c == '-' || c == '.'; }

inline void utf8(std::string& o, unsigned long c) {
    if (c < 0x80) o += (char) c;
    else if (c < 0x800) { o += (char) (0xC0 | c >> 6); o += (char) (0x80 | (c & 63)); }
    else if (c < 0x10000) { o += (char) (0xE0 | c >> 12); o += (char) (0x80 | (c >> 6 & 63)); o += (char) (0x80 | (c & 63)); }
    else { o += (char) (0xF0 | c >> 18); o += (char) (0x80 | (c >> 12 & 63)); o += (char) (0x80 | (c >> 6 & 63)); o += (char) (0x80 | (c & 63)); }
}
inline bool valid_utf8(const std::string& s) {
    size_t i = 0, n = s.size();
    while (i < n) {
        unsigned char c = s[i]; int k; unsigned long v;
        if (c < 0x80) { ++i; continue; }
        if (c >= 0xC2 && c <= 0xDF) { k = 1; v = c & 31; } else if (c >= 0xE0 && c <= 0xEF) { k = 2; v = c & 15; }
        else if (c >= 0xF0 && c <= 0xF4) { k = 3; v = c & 7; } else return false;
        if (i + k >= n + 0 && i + k > n - 1) return false;
        for (int j = 1; j <= k; ++j) { unsigned char d = s[i + j]; if ((d & 0xC0) != 0x80) return false; v = v << 6 | (d & 63); }
        if ((k == 2 && v < 0x800) || (k == 3 && (v < 0x10000 || v > 0x10FFFF)) || (v >= 0xD800 && v <= 0xDFFF)) return false;
        i += k + 1;
    }
    return true;
}
inline bool xml_char(unsigned long c) { return c == 9 || c == 10 || c == 13 || (c >= 0x20 && c <= 0xD7FF) || (c >= 0xE000 && c <= 0xFFFD) || (c >= 0x10000 && c <= 0x10FFFF); }

// fragment: more than one root / text at top level is allowed; `known` are prefixes declared outside
inline Xml scan(const std::string& s, bool fragment = false, const std::vector<std::string>& known = {}) {
    Xml x;
    size_t i = 0, n = s.size();
    std::vector<std::string> open;
    std::vector<size_t> nsmark;
    std::vector<std::string> ns(known);
    ns.push_back("xml");
    int roots = 0;
    auto bad = [&](const std::string& e) { x.err = e + " at " + std::to_string(i); };
    if (!valid_utf8(s)) { x.err = "not UTF-8"; return x; }
    if (!fragment && s.compare(0, 6, "<?xml ") == 0) {
        size_t e = s.find("?>");
        if (e == std::string::npos) { bad("xml declaration"); return x; }
        i = e + 2;
    }
    auto declared = [&](const std::string& p) { for (auto& q : ns) if (q == p) return true; return false; };
    auto ref = [&](std::string& o) -> bool {      // at '&'
        size_t e = s.find(';', i);
        if (e == std::string::npos || e - i > 12) { bad("reference"); return false; }
        std::string r = s.substr(i + 1, e - i - 1);
        if (r == "lt") o += '<'; else if (r == "gt") o += '>'; else if (r == "amp") o += '&';
        else if (r == "quot") o += '"'; else if (r == "apos") o += '\'';
        else if (r.size() > 1 && r[0] == '#') {
            char* q; unsigned long c = r[1] == 'x' ? strtoul(r.c_str() + 2, &q, 16) : strtoul(r.c_str() + 1, &q, 10);
            if (*q || !xml_char(c)) { bad("character reference"); return false; }
            utf8(o, c);
        } else { bad("entity"); return false; }
        i = e + 1;
        return true;
    };
    auto qname = [&](std::string& o) -> bool {
        size_t b = i;
        if (i >= n || !name_start(s[i])) { bad("name"); return false; }
        while (i < n && name_char(s[i])) ++i;
        if (i < n && s[i] == ':') { ++i; if (i >= n || !name_start(s[i])) { bad("name"); return false; } while (i < n && name_char(s[i])) ++i; }
        o = s.substr(b, i - b);
        return true;
    };
    while (i < n) {
        if (s[i] != '<') {
            std::string t; size_t at = i;
            while (i < n && s[i] != '<') {
                unsigned char c = s[i];
                if (c == '&') { if (!ref(t)) return x; continue; }
                if (c < 0x20 && c != 9 && c != 10 && c != 13) { bad("control character"); return x; }
                if (c == ']' && s.compare(i, 3, "]]>") == 0) { bad("]]>"); return x; }
                t += (char) c; ++i;
            }
            if (open.empty() && !fragment) { for (char c : t) if (!strchr(" \t\r\n", c)) { bad("text outside the root"); return x; } }
            else x.ev.push_back(Event{Event::TEXT, "", {}, t, at});
            continue;
        }
        if (s.compare(i, 4, "<!--") == 0) {
            size_t e = s.find("--", i + 4);
            if (e == std::string::npos || s.compare(e, 3, "-->")) { bad("comment"); return x; }
            i = e + 3; continue;
        }
        if (s.compare(i, 9, "<![CDATA[") == 0) { bad("CDATA"); return x; }
        if (s.compare(i, 2, "<?") == 0) {
            size_t e = s.find("?>", i);
            if (e == std::string::npos) { bad("PI"); return x; }
            if (s.compare(i, 6, "<?xml ") == 0) { bad("xml declaration inside"); return x; }
            i = e + 2; continue;
        }
        if (s.compare(i, 2, "</") == 0) {
            i += 2; std::string q;
            if (!qname(q)) return x;
            while (i < n && strchr(" \t\r\n", s[i])) ++i;
            if (i >= n || s[i] != '>') { bad("end tag"); return x; }
            ++i;
            if (open.empty() || open.back() != q) { bad("mismatched end tag </" + q + "> for <" + (open.empty() ? "" : open.back()) + ">"); return x; }
            open.pop_back(); ns.resize(nsmark.back()); nsmark.pop_back();
            x.ev.push_back(Event{Event::END, q, {}, "", i});
            continue;
        }
        Event e; e.k = Event::START; e.at = i;
        ++i;
        if (!qname(e.name)) return x;
        bool empty = false;
        nsmark.push_back(ns.size());
        while (true) {
            bool sp = false;
            while (i < n && strchr(" \t\r\n", s[i])) { ++i; sp = true; }
            if (i >= n) { bad("start tag"); return x; }
            if (s[i] == '>') { ++i; break; }
            if (s[i] == '/') { if (i + 1 >= n || s[i + 1] != '>') { bad("start tag"); return x; } i += 2; empty = true; break; }
            if (!sp) { bad("space between attributes"); return x; }
            std::string a, v;
            if (!qname(a)) return x;
            if (i + 1 >= n || s[i] != '=' || (s[i + 1] != '"' && s[i + 1] != '\'')) { bad("attribute"); return x; }
            char qc = s[i + 1]; i += 2;
            while (i < n && s[i] != qc) {
                unsigned char c = s[i];
                if (c == '<') { bad("< in attribute"); return x; }
                if (c == '&') { if (!ref(v)) return x; continue; }
                if (c < 0x20 && c != 9 && c != 10 && c != 13) { bad("control character in attribute"); return x; }
                v += (c == 9 || c == 10 || c == 13) ? ' ' : (char) c; ++i;
            }
            if (i >= n) { bad("attribute value"); return x; }
            ++i;
            for (auto& p : e.atts) if (p.first == a) { bad("duplicate attribute " + a); return x; }
            if (a.compare(0, 6, "xmlns:") == 0) ns.push_back(a.substr(6));
            e.atts.push_back({a, v});
        }
        auto c = e.name.find(':');
        if (c != std::string::npos && !declared(e.name.substr(0, c))) { bad("undeclared prefix of <" + e.name + ">"); return x; }
        for (auto& p : e.atts) {
            auto d = p.first.find(':');
            if (d != std::string::npos && p.first.compare(0, 6, "xmlns:") && !declared(p.first.substr(0, d))) { bad("undeclared prefix of attribute " + p.first); return x; }
        }
        if (open.empty() && ++roots > 1 && !fragment) { bad("second root"); return x; }
        x.ev.push_back(e);
        if (empty) { x.ev.push_back(Event{Event::END, e.name, {}, "", i}); ns.resize(nsmark.back()); nsmark.pop_back(); }
        else open.push_back(e.name);
    }
    if (!open.empty()) { bad("unclosed <" + open.back() + ">"); return x; }
    if (!fragment && !roots) bad("no root");
    return x;
}

// source text of a scanned document: text plus <escape char="0x..."/>
inline std::string text_of(const Xml& x) {
    std::string o;
    for (auto& e : x.ev) {
        if (e.k == Event::TEXT) o += e.text;
        else if (e.k == Event::START) {
            auto c = e.name.find(':');
            if ((c == std::string::npos ? e.name : e.name.substr(c + 1)) == "escape")
                for (auto& a : e.atts) if (a.first == "char") o += (char) strtol(a.second.c_str(), 0, 0);
        }
    }
    return o;
}

// ---------------------------------------------------------------- RAII
struct ArchiveDel { void operator()(srcml_archive* a) const { if (a) { srcml_archive_close(a); srcml_archive_free(a); } } };
struct UnitDel { void operator()(srcml_unit* u) const { if (u) srcml_unit_free(u); } };
typedef std::unique_ptr<srcml_archive, ArchiveDel> Archive;
typedef std::unique_ptr<srcml_unit, UnitDel> Unit;

inline std::string s(const char* p) { return p ? p : "(null)"; }

struct Out { int rc = 0; char* p = nullptr; size_t n = 0; std::string str() const { return p ? std::string(p, n) : ""; } ~Out() { srcml_memory_free(p); } };
}
