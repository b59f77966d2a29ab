// enc.hpp - independent encoders for the encodings explored
#pragma once
#include <string>
#include <vector>
namespace enc {
typedef std::vector<unsigned> Text;      // code points
inline bool can(const std::string& e, const Text& t) {
    for (unsigned c : t) {
        if (e == "ISO-8859-1" && c > 0xFF) return false;
        if (e == "windows-1252" && !(c < 0x80 || (c >= 0xA0 && c <= 0xFF) || c == 0x20AC)) return false;
        if (e == "US-ASCII" && c > 0x7F) return false;
    }
    return true;
}
inline void u16(std::string& o, unsigned v, bool be) { if (be) { o += (char) (v >> 8); o += (char) v; } else { o += (char) v; o += (char) (v >> 8); } }
inline std::string encode(const std::string& e, const Text& t) {
    std::string o;
    for (unsigned c : t) {
        if (e == "UTF-8") {
            if (c < 0x80) o += (char) c;
            else if (c < 0x800) { o += (char) (0xC0 | c >> 6); o += (char) (0x80 | (c & 63)); }
            else if (c < 0x10000) { o += (char) (0xE0 | c >> 12); o += (char) (0x80 | (c >> 6 & 63)); o += (char) (0x80 | (c & 63)); }
            else { o += (char) (0xF0 | c >> 18); o += (char) (0x80 | (c >> 12 & 63)); o += (char) (0x80 | (c >> 6 & 63)); o += (char) (0x80 | (c & 63)); }
        } else if (e == "ISO-8859-1" || e == "US-ASCII") o += (char) c;
        else if (e == "windows-1252") o += (char) (c == 0x20AC ? 0x80 : c);
        else if (e == "UTF-16LE" || e == "UTF-16BE") {
            bool be = e == "UTF-16BE";
            if (c < 0x10000) u16(o, c, be);
            else { u16(o, 0xD800 + ((c - 0x10000) >> 10), be); u16(o, 0xDC00 + ((c - 0x10000) & 0x3FF), be); }
        } else if (e == "UTF-32LE" || e == "UTF-32BE") {
            for (int i = 0; i < 4; ++i) o += (char) (c >> (e == "UTF-32LE" ? 8 * i : 24 - 8 * i));
        } else abort();
    }
    return o;
}
// CR LF and CR become LF
inline Text lf(const Text& t) {
    Text o;
    for (size_t i = 0; i < t.size(); ++i) {
        if (t[i] == '\r') { o.push_back('\n'); if (i + 1 < t.size() && t[i + 1] == '\n') ++i; }
        else o.push_back(t[i]);
    }
    return o;
}
inline int lines(const Text& t) {       // of a text with LF line endings
    int n = 0;
    for (unsigned c : t) n += c == '\n';
    return n + (!t.empty() && t.back() != '\n');
}
}
