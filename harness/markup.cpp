// P34: source code that is derived from a grammar is marked up by that grammar.
#include "mc.hpp"
#include "sml.hpp"
typedef std::string str;
typedef std::vector<str> VS;
enum Lang { C, CPP, JAVA, CS }; static const VS LANGS = {"C", "C++", "Java", "C#"};
static Lang L; static int budget, names; static str SP = " ";
static str el(const char* tag, const str& in) { str t = tag; return "<" + t + ">" + in + "</" + t.substr(0, t.find(' ')) + ">"; }
static str name(const str& n) { return el("name", n); }
static str fresh() { str s; int k = names++; s = (char) ('a' + k % 26); if (k >= 26) s += std::to_string(k / 26); return s; }
static str id() { return name(fresh() + "_"); }
static str op(const str& o) { return el("operator", o); }
static str type(const str& t) { return el("type", t); }
static str num(int n) { return el("literal type=\"number\"", std::to_string(n)); }
static str source(const str& m) { str o; for (size_t i = 0; i < m.size(); ++i) { if (m[i] == '<') { while (m[i] != '>') ++i; } else if (m.compare(i, 4, "&lt;") == 0) { o += '<'; i += 3; } else if (m.compare(i, 4, "&gt;") == 0) { o += '>'; i += 3; } else if (m.compare(i, 5, "&amp;") == 0) { o += '&'; i += 4; } else o += m[i]; } return o; }

// ---- expressions
static str expr();
static str stmts(int n);
static bool take() { if (budget <= 0) return false; return mc::choose(2) == 0 ? false : (--budget, true); }
static str arg(const str& e) { return el("argument", el("expr", e)); }
static str args(int n) { str s; for (int i = 0; i < n; ++i) s += (i ? "," + SP : "") + arg(expr()); return el("argument_list", "(" + s + ")"); }
static int exprs; // alternatives that are taken up
static str operand() {          // what binds tighter than any binary operator
    int k = budget > 0 ? mc::choose(exprs) : 0; if (k) --budget;
    switch (k) {
    case 0: return id();
    case 1: return op("(") + expr() + op(")");
    case 2: return el("call", name(fresh()) + args(1));
    case 3: return el("call", name(fresh()) + args(2));
    case 4: { str o = operand(); if (o.compare(0, 11, "<operator>-") == 0) mc::prune(); return op("-") + o; }
    case 5: return el("name", name(fresh()) + el("index", "[" + el("expr", expr()) + "]"));
    case 6: return el("call", name(fresh()) + args(0));
    case 7: return op("!") + operand();
    case 8: return id() + op("++");
    case 9: return el("name", name(fresh()) + op(".") + name(fresh()));
    case 10: return el("call", el("name", name(fresh()) + op(".") + name(fresh())) + args(1));
    case 11: return num(budget);
    case 12: return el("literal type=\"string\"", "\"s)\"");
    case 13: return el("literal type=\"char\"", "'('");
    // the language's own
    case 14: if (L == JAVA || L == CS) return op("new") + SP + el("call", name("T") + args(1)); if (L == CPP) return op("new") + SP + el("call", name("T") + args(1)); return op("*") + operand();
    case 15: if (L == C || L == CPP) return el("sizeof", "sizeof" + el("argument_list", "(" + arg(expr()) + ")")); if (L == JAVA) return el("name", name("this") + op(".") + name(fresh())); return el("call", el("name", name("this") + op(".") + name(fresh())) + args(1));
    case 16: if (L == CPP) return el("call", el("name", name("std") + op("::") + name(fresh())) + args(1)); if (L == C) return el("name", name(fresh()) + op("-&gt;") + name(fresh())); { str o = operand(); if (o.compare(0, 6, "<call>") == 0) mc::prune(); return op("~") + o; }   // ~f() is the call of a destructor
    case 17: if (L == CPP) return el("cast type=\"static\"", "static_cast" + el("argument_list type=\"generic\"", "&lt;" + arg(name("int")) + "&gt;") + el("argument_list", "(" + arg(expr()) + ")")); return op("(") + name("int") + op(")") + operand();
    }
    mc::fail("harness: expr", ""); return "";
}
static const int OPERANDS = 18;
static str expr() {
    str s = operand(); while (budget > 0) { int k = mc::choose(7); if (!k) break; --budget;
        if (k == 6) { s = el("ternary", el("condition", el("expr", s) + SP + "?") + el("then", SP + el("expr", operand()) + SP) + el("else", ":" + SP + el("expr", operand()))); break; }
        static const VS OPS = {"+", "&lt;", "&amp;&amp;", "==", "*"}; s += SP + op(OPS[(size_t) k - 1]) + SP + operand(); }
    return s;
}
static str ex(const str& e) { return el("expr", e); }
static bool with_exprs = false;
static str e() { return ex(with_exprs ? expr() : id()); }

// ---- statements
struct S { str m; bool block = false, is_if = false, open = false; };     // open: an else that follows would belong to it
static S stmt(bool in_sequence = false);
static str cond() { return el("condition", "(" + e() + ")"); }
static str block(const str& in) { return el("block", "{" + el("block_content", in) + "}"); }
static str body(const S& s) { return s.block ? SP + s.m : el("block type=\"pseudo\"", el("block_content", SP + s.m)); }
static str decl(const str& t, bool init) { return el("decl", type(name(t)) + SP + id() + (init ? SP + el("init", "=" + SP + e()) : "")); }
static str simple() {
    static int turn; turn = names; switch (turn % 7) { case 1: return el("return", "return" + SP + e() + ";"); case 2: return el("decl_stmt", decl("int", true) + ";"); case 3: return el("expr_stmt", ex(el("call", name(fresh()) + el("argument_list", "(" + arg(id()) + ")"))) + ";"); case 4: return el("empty_stmt", ";"); case 5: return el("expr_stmt", ex(id() + SP + op("=") + SP + id()) + ";"); case 6: return el("break", "break;"); }
    if (!with_exprs) return el("expr_stmt", e() + ";"); str a = id(); return el("expr_stmt", ex(a + SP + op("=") + SP + expr()) + ";");
}
static S sub(bool no_if = false, bool closed = false) { S s = stmt(); if (no_if && s.is_if) mc::prune(); if (closed && s.open) mc::prune(); return s; }
static const int COMMON = 18;
static int compounds() { return L == C ? COMMON : L == CPP ? COMMON + 6 : L == JAVA ? COMMON + 5 : COMMON + 6; }
static S stmt(bool in_sequence) {
    S r; int k = budget > 0 ? mc::choose(compounds() + 1) : 0; if (!k) { r.m = simple(); return r; } --budget;
    switch (k) {
    case 1: { S t = sub(); r.m = el("if_stmt", el("if", "if" + SP + cond() + body(t))); r.is_if = r.open = true; return r; }
    case 2: { str c = cond(); S t = sub(false, true), f = sub(true); r.m = el("if_stmt", el("if", "if" + SP + c + body(t)) + SP + el("else", "else" + body(f))); r.is_if = true; r.open = f.open; return r; }
    case 3: { str c = cond(); S t = sub(false, true); str c2 = cond(); S f = sub(); r.m = el("if_stmt", el("if", "if" + SP + c + body(t)) + SP + el("if type=\"elseif\"", "else" + SP + "if" + SP + c2 + body(f))); r.is_if = r.open = true; return r; }
    case 4: { str c = cond(); S t = sub(false, true); str c2 = cond(); S f = sub(false, true), g = sub(true); r.m = el("if_stmt", el("if", "if" + SP + c + body(t)) + SP + el("if type=\"elseif\"", "else" + SP + "if" + SP + c2 + body(f)) + SP + el("else", "else" + body(g))); r.is_if = true; r.open = g.open; return r; }
    case 5: { str c = cond(); S t = sub(); r.m = el("while", "while" + SP + c + body(t)); r.open = t.open; return r; }
    case 6: { S t = sub(); r.m = el("for", "for" + SP + "<control>(<init>;</init><condition>;</condition><incr/>)</control>" + body(t)); r.open = t.open; return r; }
    case 7: { str h = el("control", "(" + el("init", decl("int", true) + ";") + SP + el("condition", e() + ";") + SP + el("incr", ex(id() + op("++"))) + ")"); S t = sub(); r.m = el("for", "for" + SP + h + body(t)); r.open = t.open; return r; }
    case 8: { S t = sub(); r.m = el("do", "do" + body(t) + SP + "while" + SP + cond() + ";"); return r; }
    case 9: { str c = cond(); r.m = el("switch", "switch" + SP + c + SP + block(SP + el("case", "case" + SP + ex(num(1)) + ":") + SP + stmts(1) + SP + el("default", "default:") + SP + stmts(1) + SP)); return r; }
    case 10: r.m = block(stmts(1)); r.block = true; return r;
    case 11: r.m = block(SP + stmts(2) + SP); r.block = true; return r;
    case 12: r.m = "<block>{<block_content/>}</block>"; r.block = true; return r;
    case 13: { str c = cond(); r.m = el("while", "while" + SP + c + SP + block(SP + stmts(1) + SP)); return r; }
    case 14: { str c = cond(); str t = stmts(1), f = stmts(1); r.m = el("if_stmt", el("if", "if" + SP + c + SP + block(t)) + SP + el("else", "else" + SP + block(f))); r.is_if = true; return r; }
    case 15: { str c = cond(); r.m = el("switch", "switch" + SP + c + SP + block(SP + el("case", "case" + SP + ex(num(1)) + ":") + SP + el("case", "case" + SP + ex(num(2)) + ":") + SP + stmts(1) + SP + el("break", "break;") + SP)); return r; }
    case 16: { str c = cond(); r.m = el("do", "do" + SP + block(stmts(1)) + SP + "while" + SP + c + ";"); return r; }
    case 17: { if (!in_sequence) mc::prune(); r.m = el("label", name(fresh() + "_l") + ":") + SP + stmts(1); return r; }
    case 18: { str c = cond(); str t = stmts(1); r.m = el("if_stmt", el("if", "if" + SP + c + SP + block(t))); r.is_if = r.open = true; return r; }
    }
    k -= COMMON;
    str catches = el("catch", "catch" + SP + el("parameter_list", "(" + el("parameter", el("decl", type(name("E")) + SP + name("e"))) + ")") + SP);
    auto catch_ = [&](const str& in) { str c = catches; return c.substr(0, c.size() - 8) + block(in) + "</catch>"; };
    switch (k) {
    case 1: r.m = el("try", "try" + SP + block(stmts(1)) + SP + catch_(stmts(1))); return r;
    case 2: { str t = stmts(1), a = stmts(1); if (L == CPP) r.m = el("try", "try" + SP + block(t) + SP + catch_(a) + SP + catch_("x")), mc::prune(); else r.m = el("try", "try" + SP + block(t) + SP + el("finally", "finally" + SP + block(a))); return r; }
    case 3: { str h; if (L == CS) h = el("control", "(" + el("init", el("decl", type(name("T")) + SP + id() + SP + el("range", "in" + SP + e()))) + ")"); else h = el("control", "(" + el("init", el("decl", type(name("T")) + SP + id() + SP + el("range", ":" + SP + e()))) + ")"); S t = sub(); r.m = L == CS ? el("foreach", "foreach" + SP + h + body(t)) : el("for", "for" + SP + h + body(t)); r.open = t.open; return r; }
    case 4: if (L == CPP) { r.m = el("expr_stmt", ex(id() + SP + op("=") + SP + el("lambda", el("capture", "[]") + el("parameter_list", "(" + el("parameter", el("decl", type(name("int")) + SP + id())) + ")") + SP + block(SP + stmts(1) + SP))) + ";"); return r; }
        if (L == JAVA) { r.m = el("synchronized", "synchronized" + SP + el("init", "(" + e() + ")") + SP + block(SP + stmts(1) + SP)); return r; }
        { str i = el("init", "(" + e() + ")"); r.m = el("using_stmt", "using" + SP + i + SP + block(SP + stmts(1) + SP)); return r; }
    case 5: if (L == CPP) { if (!in_sequence) mc::prune(); r.m = el("struct", "struct" + SP + name("T") + SP + el("block", "{" + el("public type=\"default\"", SP + el("function", type(name("void")) + SP + id() + el("parameter_list", "()") + SP + block(SP + stmts(1) + SP)) + SP) + "}") + ";"); return r; }
        if (L == JAVA) { if (!in_sequence) mc::prune(); r.m = el("class", "class" + SP + name("T") + SP + el("block", "{" + SP + el("function", type(name("void")) + SP + id() + el("parameter_list", "()") + SP + block(SP + stmts(1) + SP)) + SP + "}")); return r; }
        { str i = el("init", "(" + e() + ")"); r.m = el("lock", "lock" + SP + i + SP + block(SP + stmts(1) + SP)); return r; }
    case 6: if (L == CPP) { str h = el("control", "(" + el("init", el("decl", type(name("T")) + SP + id() + "," + el("range", SP + e()))) + ")"); S t = sub(); r.m = el("foreach", "foreach" + SP + h + body(t)); r.open = t.open; return r; }
        r.m = el("checked", "checked" + SP + block(SP + stmts(1) + SP)); return r;
    }
    mc::fail("harness: stmt", ""); return r;
}
static str stmts(int n) { str s; for (int i = 0; i < n; ++i) s += (i ? SP : "") + stmt(true).m; return s; }
static str function(const str& in) { return el("function", type(name("void")) + SP + name("t") + el("parameter_list", "()") + SP + block(SP + in + SP)); }
static str program(const str& f) { return L == JAVA || L == CS ? el("class", "class" + SP + name("A") + SP + el("block", "{" + SP + f + SP + "}")) : f; }

// ---- declarations
enum Where { TOP, NS, CLS, IFACE };
static int alt(int n) { if (budget <= 0) return 0; int k = mc::choose(n); if (k) --budget; return k; }
static str T() { return name(str("T") + (char) ('0' + names++ % 10)); }
static str type_() {        // the contents of a type
    switch (alt(7)) {
    case 0: return name("int");
    case 1: return L == C || L == CPP ? name("int") + "<modifier>*</modifier>" : el("name", name("int") + "<index>[]</index>");
    case 2: return L == C ? name("unsigned") + SP + name("int") : L == CPP ? el("specifier", "const") + SP + T() + "<modifier>&amp;</modifier>" : L == JAVA ? el("specifier", "final") + SP + T() : T() + "<modifier>?</modifier>";
    case 3: return L == C ? el("name", name("struct") + SP + T()) : el("name", name("List") + el("argument_list type=\"generic\"", "&lt;" + el("argument", L == CPP ? el("expr", name("int")) : T()) + "&gt;"));
    case 4: return L == C ? el("specifier", "const") + SP + name("char") + "<modifier>*</modifier>" : el("name", name("A") + op(L == CPP ? "::" : ".") + name("B"));
    case 5: return L == C ? name("int") + "<modifier>*</modifier><modifier>*</modifier>" : L == CPP ? T() + "<modifier>&amp;&amp;</modifier>" : el("name", name("Map") + el("argument_list type=\"generic\"", "&lt;" + el("argument", T()) + "," + SP + el("argument", T()) + "&gt;"));
    default: return T();
    }
}
static str params() {
    int n = alt(4); if (n == 3) { if (L == C) return el("parameter_list", "(" + el("parameter", el("decl", type(name("void")))) + ")"); if (L == CPP) return el("parameter_list", "(" + el("parameter", el("decl", type(type_()) + SP + id() + SP + el("init", "=" + SP + ex(num(1))))) + ")"); n = 1; }
    str r; for (int i = 0; i < n; ++i) r += (i ? "," + SP : "") + el("parameter", el("decl", type(type_()) + SP + id())); return el("parameter_list", "(" + r + ")");
}
static str spec(Where w) { if (L == C && w == CLS) return ""; switch (alt(3)) { case 1: return el("specifier", w == CLS && L != CPP ? "public" : "static") + SP; case 2: return w == TOP || w == NS ? (L == C || L == CPP ? el("specifier", "extern") + SP : str()) : el("specifier", L == CPP ? "static" : "private") + SP + (L == CPP ? "" : el("specifier", "static") + SP); } return ""; }
static str fbody() { if (alt(2)) { return block(SP + simple() + SP); } return block(SP); }
static str members(Where w, int n, const str& cls = "");
static str klass() { str n = fresh(); n[0] = (char) (n[0] - 32); return n; }
static str declaration(Where w, const str& cls) {
    bool java = L == JAVA, cs = L == CS, cc = L == C || L == CPP, cpp = L == CPP; enum { VAR, FUN, CLASS, ENUM, TWO, PROTO, CTOR, DTOR, SPACE, TYPEDEF, TEMPL, IFC, GEN, PROP, COND, BASE, DEFINE, ANN, N };
    int k = alt(N); bool in = w == CLS; if (w == IFACE && k != PROTO) mc::prune();
    bool unit = w == TOP || w == NS;
    if (!cc && unit && (k == VAR || k == FUN || k == TWO || k == PROTO || k == PROP || k == ANN)) k = k == VAR ? -1 : (mc::prune(), 0);
    auto struct_ = [&](const str& kw, const str& n, const str& extra, const str& head = "") {
        if (L == C) return el("struct", "struct" + SP + name(n) + SP + el("block", "{" + SP + members(CLS, 1, n) + "}") + ";");
        if (!cpp) return el(kw.c_str(), head + kw + SP + (extra.compare(0, 5, "<name") == 0 ? extra : name(n) + extra) + SP + el("block", "{" + SP + members(CLS, 1, n) + "}"));
        str def = kw == "class" ? "private" : "public"; str m = el((def + " type=\"default\"").c_str(), SP + members(CLS, 1, n));
        switch (alt(3)) { case 1: m += el("public", "public:" + SP + members(CLS, 1, n)); break; case 2: m += el("protected", "protected:" + SP + members(CLS, 1, n)) + el("private", "private:" + SP + members(CLS, 1, n)); break; }
        return el(kw.c_str(), head + kw + SP + name(n) + extra + SP + el("block", "{" + m + "}") + ";"); };
    switch (k) {
    case -1: { str n = klass(); return el("class", "class" + SP + name(n) + SP + el("block", "{" + SP + "}")); }
    case VAR: { str sp = spec(w); str t = type(sp + type_()); int i = alt(3); str nm = id(); if (i == 2) { if (!cc) mc::prune(); nm = el("name", nm + el("index", "[" + ex(num(2)) + "]")); } return el("decl_stmt", el("decl", t + SP + nm + (i == 1 ? SP + el("init", "=" + SP + ex(num(1))) : "")) + ";"); }
    case TWO: return el("decl_stmt", el("decl", type(type_()) + SP + id()) + "," + SP + el("decl", "<type ref=\"prev\"/>" + id()) + ";");
    case FUN: { if (L == C && in) mc::prune(); str sp = spec(w); str t = type(sp + type_()); str n = id(); str p = params(); return el("function", t + SP + n + p + SP + fbody()); }
    case PROTO: { if ((L == C || java || cs) && in) { if (L == C) mc::prune(); str p = params(); return el("function_decl", type(el("specifier", "abstract") + SP + type_()) + SP + id() + p + ";"); } str t = type(type_()); str n = id(); return el("function_decl", t + SP + n + params() + ";"); }
    case CLASS: { str n = klass(); if (cpp && alt(2)) return struct_("struct", n, ""); return struct_("class", n, ""); }
    case ENUM: { str n = klass(); str r; int c = 1 + alt(3); for (int i = 0; i < c; ++i) r += (i ? "," + SP : "") + el("decl", id() + (!java && alt(2) ? SP + el("init", "=" + SP + ex(num(i))) : "")); return el("enum", "enum" + SP + name(n) + SP + el("block", "{" + SP + r + SP + "}") + (cc ? ";" : "")); }
    case CTOR: { if (!in || L == C) mc::prune(); if (cpp && alt(2)) return el("constructor_decl", name(cls) + params() + ";"); str p = params(); if (cpp && alt(2)) return el("constructor", name(cls) + p + SP + el("member_init_list", ":" + SP + el("call", id() + el("argument_list", "(" + arg(num(1)) + ")")) + SP) + fbody()); return el("constructor", name(cls) + p + SP + fbody()); }
    case DTOR: { if (!in || L == C || java) mc::prune(); if (cpp && alt(2)) return el("destructor_decl", name("~" + cls) + "<parameter_list>()</parameter_list>;"); return el("destructor", name("~" + cls) + "<parameter_list>()</parameter_list>" + SP + fbody()); }
    case SPACE: { if (!unit || java) mc::prune(); if (L == C) mc::prune(); str n = klass(); return el("namespace", "namespace" + SP + name(n) + SP + el("block", "{" + SP + members(NS, 1) + "}")); }
    case TYPEDEF: { if (java) { if (!in) mc::prune(); return el("static", "static" + SP + fbody()); } if (cs) { if (!in) mc::prune(); return el("delegate", "delegate" + SP + type(type_()) + SP + id() + params() + ";"); } if (cpp && alt(2)) return el("using", "using" + SP + id() + SP + el("init", "=" + SP + type(type_())) + ";"); return el("typedef", "typedef" + SP + type(type_()) + SP + id() + ";"); }
    case TEMPL: { if (!cpp) mc::prune(); str h = el("template", "template" + el("parameter_list", "&lt;" + el("parameter", type(name("class")) + SP + name("T")) + "&gt;")) + SP; if (alt(2)) { str n = klass(); return struct_("class", n, "", h); } str t = type(type_()); str n = id(); str p = params(); return el("function", h + t + SP + n + p + SP + fbody()); }
    case IFC: { if (cc) mc::prune(); str n = klass(); return el("interface", "interface" + SP + name(n) + SP + el("block", "{" + SP + (alt(2) ? el("function_decl", type(type_()) + SP + id() + params() + ";") + SP : str()) + "}")); }
    case GEN: { if (cc) mc::prune(); str n = klass(); return struct_("class", n, el("name", name(n) + (java ? el("parameter_list", "&lt;" + el("parameter", name("T")) + "&gt;") : el("argument_list type=\"generic\"", "&lt;" + el("argument", name("T")) + "&gt;")))); }
    case PROP: { if (!cs) mc::prune(); str t = type(type_()); str n = id(); if (alt(2)) return el("property", t + SP + n + SP + el("block", "{" + SP + el("function", name("get") + SP + fbody()) + SP + el("function", name("set") + SP + fbody()) + SP + "}")); return el("property", t + SP + n + SP + el("block", "{" + SP + el("function_decl", "<name>get</name>;") + SP + el("function_decl", "<name>set</name>;") + SP + "}")); }
    case COND: { if (!cc) mc::prune(); str c = "<cpp:if>#<cpp:directive>if</cpp:directive> " + ex(name("A")) + "</cpp:if>\n"; str a = declaration(w, cls); str b; if (alt(2)) b = "<cpp:else>#<cpp:directive>else</cpp:directive></cpp:else>\n" + declaration(w, cls) + "\n"; return "\n" + c + a + "\n" + b + "<cpp:endif>#<cpp:directive>endif</cpp:directive></cpp:endif>\n"; }
    case BASE: { if (L == C) mc::prune(); str n = klass(); str s; if (cpp) s = SP + el("super_list", ":" + SP + el("super", el("specifier", "public") + SP + name("B")) + (alt(2) ? "," + SP + el("super", name("D")) : "")); else if (cs) s = SP + el("super_list", ":" + SP + el("super", name("B")) + (alt(2) ? "," + SP + el("super", name("D")) : "")); else { int a = alt(2); s = SP + el("super_list", (a ? el("extends", "extends" + SP + el("super", name("B"))) + SP : "") + el("implements", "implements" + SP + el("super", name("D")))); } return struct_("class", n, s); }
    case DEFINE: { if (!cc) mc::prune(); return "\n<cpp:define>#<cpp:directive>define</cpp:directive> <cpp:macro>" + id() + "</cpp:macro> <cpp:value>1</cpp:value></cpp:define>\n"; }
    case ANN: { if (cc) mc::prune(); str a = java ? el("annotation", "@" + name("B")) : el("attribute", "[" + ex(name("B")) + "]"); str t = type(type_()); str n = id(); str p = params(); return el("function", a + SP + t + SP + n + p + SP + fbody()); }
    }
    mc::fail("harness: declaration", ""); return "";
}
static str members(Where w, int n, const str& cls) { str r; int c = alt(n + 2); for (int i = 0; i < c; ++i) { str d = declaration(w, cls); r += d + SP; } return r; }

// ---- forms: a table of statements and expressions, put into each other
#include "markup_forms.inc"
static const VS& statements() { return L == C ? STATEMENTS_C : L == CPP ? STATEMENTS_CPP : L == JAVA ? STATEMENTS_JAVA : STATEMENTS_CS; }
static const VS& expressions() { return L == C ? EXPRESSIONS_C : L == CPP ? EXPRESSIONS_CPP : L == JAVA ? EXPRESSIONS_JAVA : EXPRESSIONS_CS; }
static bool ends(const str& s, const str& t) { return s.size() >= t.size() && s.compare(s.size() - t.size(), t.size(), t) == 0; }
static bool starts(const str& s, const str& t) { return s.compare(0, t.size(), t) == 0; }
static bool one_element(const str& f) { int d = 0; for (size_t i = 0; i < f.size(); ++i) if (f[i] == '<') { if (f[i + 1] == '/') --d; else if (f[f.find('>', i) - 1] != '/') ++d; if (!d && f.find('>', i) + 1 < f.size()) return false; } return true; }
static str form_fill(const str& f);
static str form_expr(bool full, bool value) {     // full: up to the end of an expression; value: of an initialisation, an argument or an assignment
    int k = budget > 0 ? mc::choose((int) expressions().size() + 1) : 0; if (!k) return id(); --budget; const str& f = expressions()[(size_t) k - 1];
    bool valued = starts(f, "<block") || starts(f, "<lambda") || starts(f, "<linq") || starts(f, "<delegate"); if (valued && !value) mc::prune();
    if (!full && (valued || starts(f, "<ternary") || starts(f, "<sizeof>sizeof $") || !one_element(f))) mc::prune();
    return form_fill(f);
}
static str form_stmt() {
    int n = (int) statements().size(), k = budget > 0 ? mc::choose(n + (int) expressions().size() + 1) : 0; if (!k) return el("expr_stmt", ex(id()) + ";"); --budget;
    if (k > n) return el("expr_stmt", ex(name("a") + " " + op("=") + " " + form_fill(expressions()[(size_t) (k - n) - 1])) + ";"); return form_fill(statements()[(size_t) k - 1]);
}
static str form_fill(const str& f) {
    str r; for (size_t i = 0; i < f.size(); ++i) { if (f[i] != '$') { r += f[i]; continue; } ++i; if (f[i] == 'S') { r += form_stmt(); continue; }
        bool assigned = ends(r, "=</operator> "), full = (assigned || ends(r, "<expr>")) && f.compare(i + 1, 7, "</expr>") == 0 && f.compare(i + 1, 9, "</expr> ?") != 0; r += form_expr(full, assigned || ends(r, "= <expr>") || ends(r, "<argument><expr>")); }
    return r;
}

static void judge(const str& want) {
    str src = source(want), got; mc::note(src);
    { sml::Archive a(srcml_archive_create()); char* b = nullptr; size_t n = 0; srcml_archive_write_open_memory(a.get(), &b, &n); sml::Unit u(srcml_unit_create(a.get())); srcml_unit_set_language(u.get(), LANGS[L].c_str()); srcml_unit_set_src_encoding(u.get(), "UTF-8");
      MC_CHECK(srcml_unit_parse_memory(u.get(), src.data(), src.size()) == SRCML_STATUS_OK, "source code is not parsed", src); got = sml::s(srcml_unit_get_srcml_inner(u.get())); u.reset(); srcml_archive_close(a.get()); free(b); }
    if (got != want) { size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i; while (i && got[i - 1] != '<' && got[i - 1] != '>') --i; if (i) --i; size_t from = i > 60 ? i - 60 : 0; mc::fail("markup is not that of the grammar", LANGS[L] + ": " + src + "\ngot  ..." + got.substr(from, 300) + "\nwant ..." + want.substr(from, 300)); }
    mc::state(LANGS[L] + src); mc::validated();
}
void mc_setup() {
    bool th = mc::thorough(); int n = th ? 4 : 3; exprs = OPERANDS;
    for (int l = 0; l < 4; ++l) {
        mc::add("statements of " + LANGS[(size_t) l], "every function body of one or two statements with up to " + std::to_string(n) + " compound ones nested in every way (selections with and without else and with else if, loops, switches, blocks, exception handling and those of the language; with blocks and without)", 3, 30, [=] {
            L = (Lang) l; budget = n; names = mc::choose(2) * 3; with_exprs = false; SP = " "; str in = stmts(1); if (budget && mc::choose(2)) in += SP + stmts(1); judge(program(function(in))); });
        mc::add("expressions of " + LANGS[(size_t) l], "every expression of up to " + std::to_string(n) + " operators, calls, indexes and others nested in every way x 7 places", 3, 30, [=] {
            L = (Lang) l; budget = 0; names = 0; SP = " "; int where = mc::choose(7); budget = n; str x = ex(expr()); budget = 0; str in;
            switch (where) { case 0: in = el("return", "return" + SP + x + ";"); break; case 1: in = el("if_stmt", el("if", "if" + SP + el("condition", "(" + x + ")") + body({simple()}))); break; case 2: in = el("decl_stmt", el("decl", type(name("int")) + SP + id() + SP + el("init", "=" + SP + x)) + ";"); break; case 3: in = el("expr_stmt", ex(id() + SP + op("=") + SP + x.substr(6, x.size() - 13)) + ";"); break;
            case 4: in = el("expr_stmt", ex(el("call", name(fresh()) + el("argument_list", "(" + el("argument", x) + ")"))) + ";"); break; case 5: in = el("for", "for" + SP + el("control", "(" + el("init", ";") + SP + el("condition", x + ";") + SP + "<incr/>)") + body({simple()})); break; case 6: in = el("while", "while" + SP + el("condition", "(" + x + ")") + SP + block(SP + simple() + SP)); break; }
            judge(program(function(in))); });
        mc::add("declarations of " + LANGS[(size_t) l], "every sequence of up to two declarations with up to " + std::to_string(n + 2) + " alternatives: types, parameters, specifiers, initial values, functions, classes with sections, bases and members, enumerations, namespaces, templates and generics, properties, preprocessor conditions", 3, 30, [=] {
            L = (Lang) l; budget = n + 2; names = 0; SP = " "; str in = declaration(TOP, ""); if (budget && mc::choose(2)) in += SP + declaration(TOP, ""); judge(in); });
        mc::add("statements with expressions of " + LANGS[(size_t) l], "every function body of one or two statements with up to " + std::to_string(n) + " compound statements and operators, calls and others, nested in every way", 3, 30, [=] {
            L = (Lang) l; budget = n; names = mc::choose(2) * 3; with_exprs = true; SP = " "; str in = stmts(1); if (budget && mc::choose(2)) in += SP + stmts(1); judge(program(function(in))); });
        mc::add("forms of " + LANGS[(size_t) l], "every function body of one or two of " + std::to_string((L = (Lang) l, statements().size() + expressions().size())) + " forms of statements and expressions, with up to " + std::string("two") + " forms put into each other", 2, 30, [=] {
            L = (Lang) l; budget = 2; names = 0; SP = " "; str in = form_stmt(); if (budget && mc::choose(2)) in += SP + form_stmt(); judge(program(function(in))); });
        if (l == 1) mc::add("default values of C++", "every function with one or two parameters that have a value of up to two of the forms of expressions put into each other without lambdas, declared and defined, alone and in a class", 2, 30, [=] {
            L = CPP; budget = 2; names = 0; SP = " "; auto par = [](const str& n) { str v = form_fill("= <expr>$E</expr>"); size_t at = v.find("<lambda"); if (at != str::npos) mc::prune(); return el("parameter", el("decl", type(name("int")) + " " + name(n) + " " + el("init", v))); };
            int where = mc::choose(4); str p = "("; int both = mc::choose(3); if (both != 1) p += par("m"); if (both == 2) p += ", "; if (both) p += par("n"); if (both == 1) p = "(" + el("parameter", el("decl", type(name("int")) + " " + name("k"))) + ", " + p.substr(1);
            str h = type(name("void")) + " " + name("f") + el("parameter_list", p + ")"), f = where % 2 ? el("function", h + " <block>{<block_content> " + el("expr_stmt", ex(name("a")) + ";") + " </block_content>}</block>") : el("function_decl", h + ";");
            judge(where / 2 ? el("class", "class " + name("A") + " <block>{<private type=\"default\"> " + f + " </private>}</block>;") : f); });
        mc::add("layout of " + LANGS[(size_t) l], "function bodies and declarations with up to " + std::to_string(n) + " alternatives, with 5 kinds of white space between the tokens", 3, 30, [=] {
            static const VS W = {"\n", "\t", "  ", "\n\n\t", " \n "};
            L = (Lang) l; SP = W[(size_t) mc::choose((int) W.size())]; names = mc::choose(2) * 3; with_exprs = false; int what = mc::choose(3); budget = n; str in;
            if (what == 0) in = program(function(stmts(1))); else if (what == 1) in = declaration(TOP, ""); else { with_exprs = true; in = program(function(el("return", "return" + SP + e() + ";"))); }
            judge(in); });
    }
}
MC_MAIN
