// alphabets shared by the harnesses that enumerate source texts
#pragma once
#include "tokens.hpp"
#include "corpus.hpp"
#include <set>
typedef std::vector<std::string> VS;
static const char* LANGS[] = {"C++", "C", "Java", "C#", "Objective-C"};
static VS uniq(const VS& v) { VS r; std::set<std::string> s; for (auto& x : v) if (s.insert(x).second) r.push_back(x); return r; }

static const VS CORE = {"a", "b", "1", "(", ")", "{", "}", "[", "]", ";", ",", ":", "::", "=", "+", "*", "&", "<", ">", "->", ".", "#", "\n", "\"s\"", "'c'", "//c\n", "/*c*/",
    "if", "else", "while", "for", "do", "switch", "case", "default", "return", "class", "struct", "int", "const", "template", "operator", "namespace", "using", "~", "new", "enum", "typedef",
    "#define a b\n", "\n#if 0\n", "\n#endif\n", "\n#else\n", "throw", "try", "catch", "goto", "?", "static", "public", "extern", "virtual"};
static const VS SMALL = {"a", "1", "(", ")", "{", "}", "[", "]", ";", ",", ":", "=", "<", ">", "if", "else", "for", "class", "int", "template", "?", "\n#if 0\n", "\n#endif\n", "~", "operator", "//c\n"};
static const VS EXTRA = {"a", "b", "1", "\"s\"", "'c'", "//c\n", "/*c*/", "\n", "\t", "\r\n", "\\\n", "#", "\n#if a\n", "\n#if 0\n", "\n#if 1\n", "\n#else\n", "\n#elif a\n", "\n#endif\n", "\n#ifdef a\n", "\n#define a b\n", "\n#define f(x) x\n",
    "\n#include <a>\n", "\n#pragma omp parallel for\n", "\n#line 1 \"a\"\n", "\n#undef a\n", "\n#error a b\n", "\n#region a\n", "\n#endregion\n", "\"", "'", "/*", "*/", "//", "/**d*/", "///d\n", "int", "char", "R\"(x)\"", "L'a'", "0x1F", "1.5e-3f", "$", "`", "\\", "\xc3\xa9", "==", "++", "--", "!", "%", "|", "[]", "()", "{}", "<>", "<<", ">>", "#"};
static const VS CTX[] = {
    // C++
    {"", "class A { ", "void f ( ) { ", "f ( ", "if ( a ) ", "x = ", "enum E { ", "switch ( a ) { case 1 : ", "template < ", "for ( ", "int a [ ", "int a ( ", "struct { int a : ", "do ", "try { } ", "A :: A ( ) : ", "auto x = [ ", "#define a ", "#if ", "\n#if 0\n", "if ( a ) { } else ", "a < b > ", "new ", "operator ", "return ", "namespace ", "( ", "{ ", "int a = { ", "static const ", "a ? b : ", "using "},
    // C
    {"", "struct A { ", "void f ( ) { ", "f ( ", "if ( a ) ", "x = ", "enum E { ", "switch ( a ) { case 1 : ", "for ( ", "int a [ ", "int a ( ", "struct { int a : ", "do ", "#define a ", "#if ", "\n#if 0\n", "if ( a ) { } else ", "return ", "( ", "{ ", "int a = { ", "static const ", "a ? b : ", "typedef ", "_Generic ( "},
    // Java
    {"", "class A { ", "class A { void f ( ) { ", "f ( ", "if ( a ) ", "x = ", "enum E { ", "switch ( a ) { case 1 : ", "class A < ", "for ( ", "int a [ ", "do ", "try { } ", "try ( ", "@A ", "@A ( ", "if ( a ) { } else ", "new ", "return ", "( ", "{ ", "int a = { ", "interface A { ", "import ", "a ? b : ", "synchronized ( "},
    // C#
    {"", "class A { ", "class A { void f ( ) { ", "f ( ", "if ( a ) ", "x = ", "enum E { ", "switch ( a ) { case 1 : ", "class A < ", "for ( ", "foreach ( ", "int a [ ", "do ", "try { } ", "using ( ", "[ ", "from a in b ", "if ( a ) { } else ", "new ", "return ", "( ", "{ ", "int a { ", "delegate ", "a => ", "#if ", "a ? b : ", "where ", "lock ( ", "fixed ( "},
    // Objective-C
    {"", "@interface A ", "@interface A { ", "@implementation A ", "void f ( ) { ", "f ( ", "if ( a ) ", "x = ", "[ a ", "[ a b : ", "@property ( ", "@protocol A ", "@try { } ", "- ( ", "@selector ( ", "^ ", "@[ ", "@{ ", "enum E { ", "for ( ", "#define a ", "#if ", "@synthesize ", "struct A { "}};

