// dom.hpp - an independent reading of XML (libxml2's tree), and canonical texts of it
#pragma once
#include <libxml/parser.h>
#include <libxml/tree.h>
#include <algorithm>
#include <cstring>
#include <string>
#include <vector>
namespace dom {
typedef std::string str;
inline str s(const xmlChar* p) { return p ? (const char*) p : ""; }
struct Doc {
    xmlDocPtr d = nullptr; str err;
    explicit Doc(const str& b) {
        xmlParserCtxtPtr c = xmlNewParserCtxt();
        d = xmlCtxtReadMemory(c, b.data(), (int) b.size(), "d", nullptr, XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_NONET | XML_PARSE_HUGE);
        if (!d) { auto e = xmlCtxtGetLastError(c); err = e && e->message ? e->message : "not parsed"; }
        else if (auto e = xmlCtxtGetLastError(c)) if (e->level >= XML_ERR_ERROR) err = e->message ? e->message : "error";
        xmlFreeParserCtxt(c);
    }
    ~Doc() { if (d) xmlFreeDoc(d); }
    Doc(const Doc&) = delete; Doc& operator=(const Doc&) = delete;
    bool ok() const { return d != nullptr && err.empty(); }
    xmlNodePtr root() const { return d ? xmlDocGetRootElement(d) : nullptr; }
};
inline str value(xmlAttrPtr a) { xmlChar* v = xmlNodeListGetString(a->doc, a->children, 1); str o = s(v); xmlFree(v); return o; }
inline std::vector<std::pair<str, str>> atts(xmlNodePtr n) {
    std::vector<std::pair<str, str>> o;
    for (xmlAttrPtr a = n->properties; a; a = a->next) o.push_back({"{" + (a->ns ? s(a->ns->href) : "") + "}" + s(a->name), value(a)});
    std::sort(o.begin(), o.end());
    return o;
}
inline str att(xmlNodePtr n, const char* name, const char* none = "(none)") { for (xmlAttrPtr a = n->properties; a; a = a->next) if (!a->ns && s(a->name) == name) return value(a); return none; }
// everything in an element, as one text
inline str content(xmlNodePtr n) {
    str o;
    for (xmlNodePtr c = n->children; c; c = c->next) switch (c->type) {
        case XML_TEXT_NODE: case XML_CDATA_SECTION_NODE: o += s(c->content); break;
        case XML_COMMENT_NODE: o += "<!--" + s(c->content) + "-->"; break;
        case XML_PI_NODE: o += "<?" + s(c->name) + " " + s(c->content) + "?>"; break;
        case XML_ELEMENT_NODE:
            o += "\x1{" + (c->ns ? s(c->ns->href) : "") + "}" + s(c->name);
            for (auto& a : atts(c)) o += " " + a.first + "='" + a.second + "'";
            o += "\x2" + content(c) + "\x3"; break;
        default: o += "\x4";
    }
    return o;
}
// the source: text, with escapes replaced by the character
inline str text(xmlNodePtr n) {
    str o;
    for (xmlNodePtr c = n->children; c; c = c->next) {
        if (c->type == XML_TEXT_NODE || c->type == XML_CDATA_SECTION_NODE) o += s(c->content);
        else if (c->type == XML_ELEMENT_NODE) { if (s(c->name) == "escape") o += (char) strtol(att(c, "char", "").c_str(), nullptr, 0); else o += text(c); }
    }
    return o;
}
}
