// corpus of source snippets (data/corpus.txt), and a simple tokenizer for single edits
#pragma once
#include <cstdio>
#include <cstdlib>
#include <map>
#include <string>
#include <vector>
static const std::vector<std::string>& corpus(const std::string& lang) {
    static std::map<std::string, std::vector<std::string>> m;
    if (m.empty()) {
        FILE* f = fopen(VERIF_DIR "/data/corpus.txt", "r");
        if (!f) { fprintf(stderr, "no corpus\n"); exit(2); }
        char* l = nullptr; size_t n = 0; ssize_t r;
        while ((r = getline(&l, &n, f)) > 0) {
            std::string s(l, r); while (!s.empty() && s.back() == '\n') s.pop_back();
            size_t t = s.find('\t'); std::string o;
            for (size_t i = t + 1; i < s.size(); ++i) {
                if (s[i] == '\\' && i + 1 < s.size()) { ++i; o += s[i] == 'n' ? '\n' : s[i] == 'r' ? '\r' : s[i] == 't' ? '\t' : s[i]; }
                else o += s[i];
            }
            m[s.substr(0, t)].push_back(o);
        }
        free(l); fclose(f);
    }
    return m[lang];
}
// words, numbers, runs of blanks, single other characters (multi-byte characters kept whole)
static std::vector<std::string> lex_tokens(const std::string& s) {
    std::vector<std::string> v;
    for (size_t i = 0; i < s.size();) {
        size_t b = i;
        auto word = [&](unsigned char c) { return isalnum(c) || c == '_' || c >= 0x80; };
        if (word(s[i])) while (i < s.size() && word(s[i])) ++i;
        else if (s[i] == ' ' || s[i] == '\t') while (i < s.size() && (s[i] == ' ' || s[i] == '\t')) ++i;
        else ++i;
        v.push_back(s.substr(b, i - b));
    }
    return v;
}
