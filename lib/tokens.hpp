// keywords per language (taken once from the keyword lexer)
#pragma once
#include <string>
#include <vector>
static const std::vector<std::string>& keywords(const std::string& l) {
    static const std::vector<std::string> C = {"if", "else", "while", "for", "do", "break", "continue", "switch", "case", "default", "return", "enum", "static", "const", ")", ";", "(", "~", ":", "}", ",", "]", "{", "[", "<", ">", "&", "=", ".", "*", "*=", "%=", "/=", "/", "^", "^=", "|=", "||=", "+=", "-=", "->", "->*", "?", "..", "...", "&=", "&&=", ">>=", "<<=", ".*", "<<<", "@", "main", "typedef", "include", "define", "elif", "endif", "error", "warning", "ifdef", "ifndef", "line", "pragma", "undef", "union", "struct", "void", "inline", "extern", "asm", "__asm__", "__asm", "goto", "sizeof", "register", "volatile", "__volatile__", "auto", "restrict", "_Alignas", "_Alignof", "_Atomic", "_Complex", "_Generic", "_Imaginary", "_Noreturn", "_Static_assert", "_Thread_local", "__block", "__weak", "__strong", "omp"};
    static const std::vector<std::string> X = {"if", "else", "while", "for", "do", "break", "continue", "switch", "case", "default", "return", "enum", "static", "const", ")", ";", "(", "~", ":", "}", ",", "]", "{", "[", "<", ">", "&", "=", ".", "*", "*=", "%=", "/=", "/", "^", "^=", "|=", "||=", "+=", "-=", "->", "->*", "?", "..", "...", "&=", "&&=", ">>=", "<<=", ".*", "<<<", "@", "main", "typedef", "include", "define", "elif", "endif", "error", "warning", "ifdef", "ifndef", "line", "pragma", "undef", "union", "struct", "void", "inline", "extern", "asm", "__asm__", "__asm", "goto", "sizeof", "register", "mutable", "volatile", "__volatile__", "auto", "try", "catch", "throw", "class", "public", "private", "protected", "new", "signals", "foreach", "forever", "emit", "virtual", "friend", "operator", "explicit", "namespace", "using", "template", "delete", "::", "&&", "false", "true", "final", "override", "constexpr", "noexcept", "thread_local", "nullptr", "decltype", "alignas", "typename", "alignof", "typeid", "const_cast", "dynamic_cast", "reinterpret_cast", "static_cast", "static_assert", "and", "and_eq", "bitand", "bitor", "compl", "not", "not_eq", "or", "or_eq", "xor", "xor_eq", "__block", "__weak", "__strong", "restrict", "omp"};
    static const std::vector<std::string> J = {"if", "else", "while", "for", "do", "break", "continue", "switch", "case", "default", "return", "enum", "static", "const", ")", ";", "(", "~", ":", "}", ",", "]", "{", "[", "<", ">", "&", "=", ".", "*", "*=", "%=", "/=", "/", "^", "^=", "|=", "||=", "+=", "-=", "->", "->*", "?", "..", "...", "&=", "&&=", ">>=", "<<=", "-", "+", "@", "include", "define", "elif", "endif", "error", "warning", "ifdef", "ifndef", "line", "pragma", "undef", "void", "goto", "volatile", "try", "catch", "throw", "class", "public", "private", "protected", "new", "false", "true", "throws", "finally", "interface", "extends", "implements", "super", "import", "package", "final", "abstract", "synchronized", "native", "strictfp", "transient", "|", "null", "instanceof", "assert"};
    static const std::vector<std::string> S = {"if", "else", "while", "for", "do", "break", "continue", "switch", "case", "default", "return", "enum", "static", "const", ")", ";", "(", "~", ":", "}", ",", "]", "{", "[", "<", ">", "&", "=", ".", "*", "*=", "%=", "/=", "/", "^", "^=", "|=", "||=", "+=", "-=", "->", "->*", "?", "..", "...", "&=", "&&=", ">>=", "<<=", ".*", "=>", "@", "main", "typedef", "include", "define", "elif", "endif", "error", "warning", "ifdef", "ifndef", "line", "pragma", "undef", "struct", "void", "inline", "extern", "asm", "__asm__", "__asm", "goto", "sizeof", "volatile", "__volatile__", "try", "catch", "throw", "class", "public", "private", "protected", "new", "virtual", "operator", "explicit", "namespace", "using", "::", "&&", "false", "true", "foreach", "ref", "out", "in", "lock", "is", "internal", "sealed", "override", "implicit", "stackalloc", "as", "interface", "delegate", "fixed", "checked", "unchecked", "finally", "region", "endregion", "unsafe", "readonly", "partial", "get", "set", "add", "remove", "await", "abstract", "event", "async", "this", "yield", "params", "null", "typeof", "alias", "from", "where", "select", "let", "orderby", "ascending", "descending", "group", "by", "join", "on", "equals", "into", "omp"};
    static const std::vector<std::string> O = {"if", "else", "while", "for", "do", "break", "continue", "switch", "case", "default", "return", "enum", "static", "const", ")", ";", "(", "~", ":", "}", ",", "]", "{", "[", "<", ">", "&", "=", ".", "*", "*=", "%=", "/=", "/", "^", "^=", "|=", "||=", "+=", "-=", "->", "->*", "?", "..", "...", "&=", "&&=", ">>=", "<<=", ".*", "@", "main", "typedef", "include", "define", "elif", "endif", "error", "warning", "ifdef", "ifndef", "line", "pragma", "undef", "struct", "void", "inline", "extern", "asm", "__asm__", "__asm", "goto", "sizeof", "volatile", "__volatile__", "@interface", "@implementation", "@protocol", "@end", "@private", "@protected", "@public", "@required", "@optional", "import", "@try", "@catch", "@finally", "@throw", "@synchronized", "@property", "@synthesize", "@dynamic", "in", "@YES", "@NO", "YES", "NO", "@true", "@false", "@encode", "@selector", "@autoreleasepool", "@compatibility_alias", "@class", "nil", "@(", "@[", "@{", "__block", "__weak", "__strong", "omp"};
    return l == "C" ? C : l == "C++" ? X : l == "Java" ? J : l == "C#" ? S : O;
}
