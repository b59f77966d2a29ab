// Forms of statements ($S: a statement, $E: an expression or operand) and of what follows "a =", for P34.
static const VS STATEMENTS_C = {
    R"x(<decl_stmt><decl><type><name><name>struct</name> <name>S</name></name></type> <name>a</name> <init>= <expr><block>{ <expr><operator>.</operator><name>b</name> <operator>=</operator> $E</expr> }</block></expr></init></decl>;</decl_stmt>)x",
    R"x(<decl_stmt><decl><type><name>int</name></type> <name><name>a</name><index>[]</index></name> <init>= <expr><block>{<expr>$E</expr>, <expr>$E</expr>}</block></expr></init></decl>;</decl_stmt>)x",
    R"x(<decl_stmt><decl><type><name>int</name></type> <name><name>a</name><index>[<expr><literal type="number">2</literal></expr>]</index></name> <init>= <expr><block>{<expr>$E</expr>}</block></expr></init></decl>;</decl_stmt>)x",
    R"x(<decl_stmt><decl><type><name>int</name></type> <name>a</name></decl>, <decl><type ref="prev"><modifier>*</modifier></type><name>b</name></decl>;</decl_stmt>)x",
    R"x(<decl_stmt><decl><type><name>int</name> <modifier>*</modifier></type><name>a</name> <init>= <expr>$E</expr></init></decl>;</decl_stmt>)x",
    R"x(<decl_stmt><decl><type><name>int</name> <modifier>*</modifier></type><name><name>a</name><index>[<expr><literal type="number">2</literal></expr>]</index></name></decl>;</decl_stmt>)x",
    R"x(<function_decl><type><name>int</name></type> (<modifier>*</modifier><name>a</name>)<parameter_list>(<parameter><decl><type><name>int</name></type></decl></parameter>)</parameter_list> <init>= <expr>$E</expr></init>;</function_decl>)x",
    R"x(<expr_stmt><expr><name>a</name> <operator>+=</operator> $E</expr>;</expr_stmt>)x",
    R"x(<asm>asm("x");</asm>)x",
    R"x(<expr_stmt><expr><operator>*</operator><name>a</name> <operator>=</operator> $E</expr>;</expr_stmt>)x",
    R"x(<expr_stmt><expr><operator>*</operator><operator>*</operator><name>a</name> <operator>=</operator> $E</expr>;</expr_stmt>)x",
    R"x(<decl_stmt><decl><type><specifier>register</specifier> <name>int</name></type> <name>a</name></decl>;</decl_stmt>)x",
    R"x(<decl_stmt><decl><type><name>unsigned</name> <name>long</name></type> <name>a</name> <init>= <expr>$E</expr></init></decl>;</decl_stmt>)x",
    R"x(<decl_stmt><decl><type><specifier>static</specifier> <specifier>const</specifier> <name>char</name><modifier>*</modifier></type> <name>a</name> <init>= <expr>$E</expr></init></decl>;</decl_stmt>)x",
    R"x(<decl_stmt><decl><type><name><name>struct</name> <name>T</name></name></type> <name>a</name> <init>= <expr>$E</expr></init></decl>;</decl_stmt>)x",
    R"x(<decl_stmt><decl><type><name><name>struct</name> <name>T</name></name><modifier>*</modifier></type> <name>a</name> <init>= <expr>$E</expr></init></decl>;</decl_stmt>)x",
    R"x(<decl_stmt><decl><type><name><name>union</name> <name>T</name></name></type> <name>a</name></decl>;</decl_stmt>)x",
    R"x(<decl_stmt><decl><type><name><name>enum</name> <name>T</name></name></type> <name>a</name> <init>= <expr>$E</expr></init></decl>;</decl_stmt>)x",
    R"x(<expr_stmt><expr><name><name>a</name><operator>-&gt;</operator><name>b</name></name> <operator>=</operator> $E</expr>;</expr_stmt>)x",
    R"x(<expr_stmt><expr><call><name><name>a</name><operator>-&gt;</operator><name>b</name><operator>-&gt;</operator><name>c</name></name><argument_list>(<argument><expr>$E</expr></argument>)</argument_list></call></expr>;</expr_stmt>)x",
    R"x(<expr_stmt><expr><name><name>a</name><operator>.</operator><name>b</name><index>[<expr>$E</expr>]</index></name> <operator>=</operator> $E</expr>;</expr_stmt>)x",
    R"x(<expr_stmt><expr><call>(<modifier>*</modifier><name>a</name>)<argument_list>(<argument><expr>$E</expr></argument>)</argument_list></call></expr>;</expr_stmt>)x",
    R"x(<goto>goto <name>l</name>;</goto>)x",
    R"x(<return>return;</return>)x",
    R"x(<continue>continue;</continue>)x",
    R"x(<for>for <control>(<init><expr><name>a</name> <operator>=</operator> $E</expr>;</init> <condition><expr>$E</expr>;</condition> <incr><expr><operator>++</operator><name>b</name></expr></incr>)</control><block type="pseudo"><block_content> $S</block_content></block></for>)x",
    R"x(<for>for <control>(<init><decl><type><name>int</name></type> <name>a</name> <init>= <expr>$E</expr></init></decl>, <decl><type ref="prev"/><name>b</name> <init>= <expr>$E</expr></init></decl>;</init> <condition><expr>$E</expr>;</condition> <incr><expr><name>a</name><operator>++</operator></expr><operator>,</operator> <expr><name>b</name><operator>++</operator></expr></incr>)</control><block type="pseudo"><block_content> $S</block_content></block></for>)x",
    R"x(<typedef>typedef <type><name>int</name></type> <name>a</name>;</typedef>)x",
    R"x(<enum>enum <block>{ <decl><name>a</name></decl>, <decl><name>b</name></decl> }</block>;</enum>)x",
    R"x(<enum>enum <name>T</name> <block>{ <decl><name>a</name> <init>= <expr>$E</expr></init></decl>, <decl><name>b</name></decl> }</block>;</enum>)x",
    R"x(<struct>struct <block>{ <decl_stmt><decl><type><name>int</name></type> <name>a</name></decl>;</decl_stmt> }</block> <decl><name>b</name></decl>;</struct>)x",
    R"x(<struct>struct <name>T</name> <block>{ <decl_stmt><decl><type><name>int</name></type> <name>a</name></decl>;</decl_stmt> }</block> <decl><name>b</name></decl>;</struct>)x",
    R"x(<decl_stmt><decl><type><specifier>extern</specifier> <name>int</name></type> <name>a</name></decl>;</decl_stmt>)x",
    R"x(<decl_stmt><decl><type><specifier>volatile</specifier> <name>int</name></type> <name>a</name> <init>= <expr>$E</expr></init></decl>;</decl_stmt>)x",
    R"x(<switch>switch <condition>(<expr>$E</expr>)</condition> <block>{<block_content> <case>case <expr><name>b</name></expr>:</case> $S <break>break;</break> <default>default:</default> $S </block_content>}</block></switch>)x",
    R"x(<expr_stmt><expr><name>a</name> <operator>|=</operator> $E</expr>;</expr_stmt>)x",
    R"x(<decl_stmt><decl><type><name>T</name></type> <name>a</name> <init>= <expr>$E</expr></init></decl>;</decl_stmt>)x",
    R"x(<decl_stmt><decl><type><name>T</name><modifier>*</modifier></type> <name>a</name> <init>= <expr>$E</expr></init></decl>;</decl_stmt>)x",
    R"x(<decl_stmt><decl><type><specifier>const</specifier> <name>T</name><modifier>*</modifier> <specifier>const</specifier></type> <name>a</name> <init>= <expr>$E</expr></init></decl>;</decl_stmt>)x",
    R"x(<decl_stmt><decl><type><name>int</name></type> <name>a</name> <init>= <expr>$E</expr></init></decl>, <decl><type ref="prev"/><name>b</name> <init>= <expr>$E</expr></init></decl>;</decl_stmt>)x",
    R"x(<do>do <block>{<block_content> $S </block_content>}</block> while <condition>(<expr>$E</expr>)</condition>;</do>)x",
    R"x(<while>while <condition>(<expr><operator>*</operator><name>a</name><operator>++</operator> <operator>=</operator> <operator>*</operator><name>b</name><operator>++</operator></expr>)</condition><block type="pseudo"><block_content> $S</block_content></block></while>)x",
    R"x(<if_stmt><if>if <condition>(<expr><operator>!</operator><name>a</name></expr>)</condition><block type="pseudo"><block_content> $S</block_content></block></if></if_stmt>)x",
};
static const VS EXPRESSIONS_C = {
    R"x($E <operator>&lt;&lt;</operator> $E)x",
    R"x(<sizeof>sizeof<argument_list>(<argument><expr><name>int</name></expr></argument>)</argument_list></sizeof>)x",
    R"x(<sizeof>sizeof $E</sizeof>)x",
    R"x(<operator>(</operator><name>int</name><operator>)</operator> $E)x",
    R"x(<operator>(</operator><name>int</name><operator>*</operator><operator>)</operator> $E)x",
    R"x(<operator>&amp;</operator><name>b</name>)x",
    R"x(<operator>&amp;</operator><name><name>b</name><index>[<expr>$E</expr>]</index></name>)x",
    R"x(<operator>*</operator><name>b</name><operator>++</operator>)x",
    R"x(<ternary><condition><expr>$E</expr> ?</condition><then> <expr>$E</expr> </then><else>: <expr><name>b</name></expr></else></ternary>)x",
    R"x(<call><call><name>b</name><argument_list>(<argument><expr>$E</expr></argument>)</argument_list></call><argument_list>(<argument><expr>$E</expr></argument>)</argument_list></call>)x",
    R"x(<alignof>_Alignof<argument_list>(<argument><expr><name>int</name></expr></argument>)</argument_list></alignof>)x",
    R"x(<literal type="string">"b"</literal> <literal type="string">"c"</literal>)x",
    R"x(<literal type="string">L"b"</literal>)x",
    R"x(<literal type="number">0x1FUL</literal>)x",
    R"x(<operator>-</operator>$E)x",
    R"x(<name>NULL</name>)x",
};
static const VS STATEMENTS_CPP = {
    R"x(<decl_stmt><decl><type><name>auto</name><modifier>&amp;</modifier></type> <name>a</name> <init>= <expr>$E</expr></init></decl>;</decl_stmt>)x",
    R"x(<decl_stmt><decl><type><name>auto</name><modifier>*</modifier></type> <name>a</name> <init>= <expr>$E</expr></init></decl>, <decl><type ref="prev"/><name>b</name> <init>= <expr>$E</expr></init></decl>;</decl_stmt>)x",
    R"x(<for>for <control>(<init><decl><type><name>auto</name><modifier>&amp;</modifier></type> <name>a</name> <range>: <expr>$E</expr></range></decl></init>)</control><block type="pseudo"><block_content> $S</block_content></block></for>)x",
    R"x(<throw>throw <expr>$E</expr>;</throw>)x",
    R"x(<expr_stmt><expr><operator>delete</operator> $E</expr>;</expr_stmt>)x",
    R"x(<return>return;</return>)x",
    R"x(<goto>goto <name>l</name>;</goto>)x",
    R"x(<continue>continue;</continue>)x",
    R"x(<decl_stmt><decl><type><name>int</name></type> <name>a</name> <init>= <expr><block>{<expr>$E</expr>, <expr>$E</expr>}</block></expr></init></decl>;</decl_stmt>)x",
    R"x(<decl_stmt><decl><type><name>int</name></type> <name>a</name><argument_list>{<argument><expr>$E</expr></argument>}</argument_list></decl>;</decl_stmt>)x",
    R"x(<decl_stmt><decl><type><name>T</name></type> <name>a</name><argument_list>(<argument><expr><literal type="number">1</literal></expr></argument>)</argument_list></decl>;</decl_stmt>)x",
    R"x(<decl_stmt><decl><type><name>int</name></type> <name>a</name> <init>= <expr>$E</expr></init></decl>, <decl><type ref="prev"><modifier>*</modifier></type><name>b</name></decl>;</decl_stmt>)x",
    R"x(<if_stmt><if>if <condition>(<decl><type><name>int</name></type> <name>a</name> <init>= <expr>$E</expr></init></decl>)</condition><block type="pseudo"><block_content> $S</block_content></block></if></if_stmt>)x",
    R"x(<while>while <condition>(<decl><type><name>T</name><modifier>*</modifier></type> <name>a</name> <init>= <expr>$E</expr></init></decl>)</condition><block type="pseudo"><block_content> $S</block_content></block></while>)x",
    R"x(<for>for <control>(<init><decl><type><name>int</name></type> <name>a</name> <init>= <expr>$E</expr></init></decl>, <decl><type ref="prev"/><name>b</name> <init>= <expr>$E</expr></init></decl>;</init> <condition><expr>$E</expr>;</condition> <incr><expr>$E</expr></incr>)</control><block type="pseudo"><block_content> $S</block_content></block></for>)x",
    R"x(<try>try <block>{<block_content> $S </block_content>}</block> <catch>catch <parameter_list>(<parameter><decl><type><modifier>...</modifier></type></decl></parameter>)</parameter_list> <block>{<block_content> $S </block_content>}</block></catch></try>)x",
    R"x(<try>try <block>{<block_content> $S </block_content>}</block> <catch>catch <parameter_list>(<parameter><decl><type><name>T</name><modifier>&amp;</modifier></type> <name>a</name></decl></parameter>)</parameter_list> <block>{<block_content> $S </block_content>}</block></catch> <catch>catch <parameter_list>(<parameter><decl><type><modifier>...</modifier></type></decl></parameter>)</parameter_list> <block>{<block_content> $S </block_content>}</block></catch></try>)x",
    R"x(<typedef>typedef <type><name>int</name></type> <name>a</name>;</typedef>)x",
    R"x(<using>using <namespace>namespace <name>std</name>;</namespace></using>)x",
    R"x(<using>using <name><name>std</name><operator>::</operator><name>a</name></name>;</using>)x",
    R"x(<using>using <name>a</name> <init>= <type><name>T</name></type></init>;</using>)x",
    R"x(<decl_stmt><decl><type><specifier>extern</specifier> <name>int</name></type> <name>a</name></decl>;</decl_stmt>)x",
    R"x(<decl_stmt><decl><type><specifier>static</specifier> <specifier>const</specifier> <name>T</name></type> <name>a</name> <init>= <expr>$E</expr></init></decl>;</decl_stmt>)x",
    R"x(<decl_stmt><decl><type><specifier>const</specifier> <name>T</name><modifier>&amp;</modifier></type> <name>a</name> <init>= <expr>$E</expr></init></decl>;</decl_stmt>)x",
    R"x(<decl_stmt><decl><type><name>auto</name></type> <name>a</name> <init>= <expr>$E</expr></init></decl>;</decl_stmt>)x",
    R"x(<decl_stmt><decl><type><name><name>std</name><operator>::</operator><name>vector</name><argument_list type="generic">&lt;<argument><expr><name>T</name></expr></argument>&gt;</argument_list></name></type> <name>a</name></decl>;</decl_stmt>)x",
    R"x(<decl_stmt><decl><type><name><name>std</name><operator>::</operator><name>map</name><argument_list type="generic">&lt;<argument><expr><name>T</name></expr></argument>, <argument><expr><name><name>std</name><operator>::</operator><name>vector</name><argument_list type="generic">&lt;<argument><expr><name>U</name></expr></argument>&gt;</argument_list></name></expr></argument>&gt;</argument_list></name></type> <name>a</name> <init>= <expr>$E</expr></init></decl>;</decl_stmt>)x",
    R"x(<decl_stmt><decl><type><name><name>T</name><operator>::</operator><name>U</name></name></type> <name>a</name></decl>;</decl_stmt>)x",
    R"x(<decl_stmt><decl><type><name>T</name><modifier>*</modifier></type> <name>a</name> <init>= <expr>$E</expr></init></decl>;</decl_stmt>)x",
    R"x(<enum>enum <name>T</name> <block>{ <decl><name>a</name></decl>, <decl><name>b</name></decl> }</block>;</enum>)x",
    R"x(<if_stmt><if>if <specifier>constexpr</specifier> <condition>(<expr>$E</expr>)</condition><block type="pseudo"><block_content> $S</block_content></block></if></if_stmt>)x",
    R"x(<assert type="static">static_assert<argument_list>(<argument><expr>$E</expr></argument>, <argument><expr><literal type="string">"b"</literal></expr></argument>)</argument_list>;</assert>)x",
    R"x(<expr_stmt><expr><call><name>f</name><argument_list>(<argument><expr><block>{<expr>$E</expr>}</block></expr></argument>)</argument_list></call></expr>;</expr_stmt>)x",
    R"x(<expr_stmt><expr><name>a</name> <operator>+=</operator> $E</expr>;</expr_stmt>)x",
    R"x(<expr_stmt><expr><operator>++</operator><name>a</name></expr>;</expr_stmt>)x",
    R"x(<expr_stmt><expr><operator>*</operator><name>a</name> <operator>=</operator> $E</expr>;</expr_stmt>)x",
    R"x(<expr_stmt><expr><call><name><operator>::</operator><name>f</name></name><argument_list>(<argument><expr>$E</expr></argument>)</argument_list></call></expr>;</expr_stmt>)x",
};
static const VS EXPRESSIONS_CPP = {
    R"x(<call><name><name>f</name><argument_list type="generic">&lt;<argument><expr><name>int</name></expr></argument>&gt;</argument_list></name><argument_list>(<argument><expr>$E</expr></argument>)</argument_list></call>)x",
    R"x(<operator>new</operator> <name><name>T</name><index>[<expr>$E</expr>]</index></name>)x",
    R"x(<operator>new</operator> <name>T</name>)x",
    R"x(<block>{<expr>$E</expr>, <expr>$E</expr>}</block>)x",
    R"x(<lambda><capture>[]</capture><parameter_list>(<parameter><decl><type><name>int</name></type> <name>b</name></decl></parameter>)</parameter_list> <block>{<block_content> $S </block_content>}</block></lambda>)x",
    R"x(<lambda><capture>[<argument><modifier>&amp;</modifier></argument>]</capture> <block>{<block_content> $S </block_content>}</block></lambda>)x",
    R"x(<lambda><capture>[<argument><modifier>=</modifier></argument>, <argument><modifier>&amp;</modifier><name>c</name></argument>]</capture><parameter_list>(<parameter><decl><type><name>int</name></type> <name>b</name></decl></parameter>)</parameter_list> -&gt; <type><name>int</name></type> <block>{<block_content> $S </block_content>}</block></lambda>)x",
    R"x(<sizeof>sizeof<argument_list>(<argument><expr><name>int</name></expr></argument>)</argument_list></sizeof>)x",
    R"x(<call><name>T</name><argument_list>{<argument><expr>$E</expr></argument>}</argument_list></call>)x",
    R"x(<name><name>b</name><operator>-&gt;</operator><name>c</name></name>)x",
    R"x(<name><name>b</name><index>[<expr>$E</expr>]</index><index>[<expr>$E</expr>]</index></name>)x",
    R"x(<call>(<modifier>*</modifier><name>b</name>)<argument_list>(<argument><expr>$E</expr></argument>)</argument_list></call>)x",
    R"x(<call><call><name>b</name><argument_list>(<argument><expr>$E</expr></argument>)</argument_list></call><argument_list>(<argument><expr>$E</expr></argument>)</argument_list></call>)x",
    R"x(<call><name><name>b</name><operator>.</operator><name>c</name></name><argument_list>(<argument><expr>$E</expr></argument>)</argument_list></call><operator>.</operator><call><name>d</name><argument_list>()</argument_list></call>)x",
    R"x(<operator>&amp;</operator><name>b</name>)x",
    R"x(<cast type="dynamic">dynamic_cast<argument_list type="generic">&lt;<argument><expr><name>T</name><operator>*</operator></expr></argument>&gt;</argument_list><argument_list>(<argument><expr>$E</expr></argument>)</argument_list></cast>)x",
    R"x(<call><name><name>std</name><operator>::</operator><name>move</name></name><argument_list>(<argument><expr>$E</expr></argument>)</argument_list></call>)x",
    R"x(<operator>(</operator><name>int</name><operator>)</operator> $E)x",
    R"x($E <operator>&lt;&lt;</operator>  $E)x",
    R"x(<operator>not</operator> $E <operator>and</operator> $E)x",
    R"x(<name><name>this</name><operator>-&gt;</operator><name>b</name></name>)x",
    R"x(<literal type="null">nullptr</literal>)x",
    R"x(<literal type="boolean">true</literal>)x",
    R"x(<literal type="number">1.5e3</literal>)x",
    R"x(<noexcept>noexcept<argument_list>(<argument><expr>$E</expr></argument>)</argument_list></noexcept>)x",
    R"x(<alignof>alignof<argument_list>(<argument><expr><name>T</name></expr></argument>)</argument_list></alignof>)x",
    R"x(<typeid>typeid<argument_list>(<argument><expr>$E</expr></argument>)</argument_list></typeid>)x",
};
static const VS STATEMENTS_JAVA = {
    R"x(<expr_stmt><expr><call><name>f</name><argument_list>(<argument><expr><lambda><parameter_list>(<parameter><decl><name>x</name></decl></parameter>)</parameter_list> -&gt; <block>{<block_content> $S </block_content>}</block></lambda></expr></argument>)</argument_list></call></expr>;</expr_stmt>)x",
    R"x(<try>try <init>(<decl><type><name>T</name></type> <name>a</name> <init>= <expr>$E</expr></init></decl>)</init> <block>{<block_content> $S </block_content>}</block></try>)x",
    R"x(<try>try <block>{<block_content> $S </block_content>}</block> <catch>catch <parameter_list>(<parameter><decl><type><name>T</name></type> | <type><name>U</name></type> <name>e</name></decl></parameter>)</parameter_list> <block>{<block_content> $S </block_content>}</block></catch> <finally>finally <block>{<block_content> $S </block_content>}</block></finally></try>)x",
    R"x(<assert>assert <expr>$E <operator>:</operator> $E</expr>;</assert>)x",
    R"x(<throw>throw <expr>$E</expr>;</throw>)x",
    R"x(<decl_stmt><decl><type><specifier>final</specifier> <name>int</name></type> <name>a</name> <init>= <expr>$E</expr></init></decl>;</decl_stmt>)x",
    R"x(<label><name>l</name>:</label> <for>for <control>(<init>;</init><condition>;</condition><incr/>)</control> <block>{<block_content> <break>break <name>l</name>;</break> </block_content>}</block></for>)x",
    R"x(<decl_stmt><decl><type><name><name>int</name><index>[]</index></name></type> <name>a</name> <init>= <expr><block>{<expr>$E</expr>, <expr>$E</expr>}</block></expr></init></decl>;</decl_stmt>)x",
    R"x(<decl_stmt><decl><type><name><name>List</name><argument_list type="generic">&lt;<argument><name><name>Map</name><argument_list type="generic">&lt;<argument><name>T</name></argument>, <argument><name>U</name></argument>&gt;</argument_list></name></argument>&gt;</argument_list></name></type> <name>a</name> <init>= <expr>$E</expr></init></decl>;</decl_stmt>)x",
    R"x(<decl_stmt><decl><type><name><name>List</name><argument_list type="generic">&lt;<argument><name>?</name> <extends>extends <name>T</name></extends></argument>&gt;</argument_list></name></type> <name>a</name></decl>;</decl_stmt>)x",
    R"x(<decl_stmt><decl><type><name>int</name></type> <name><name>a</name><index>[]</index></name></decl>;</decl_stmt>)x",
    R"x(<expr_stmt><expr><call><name><name>super</name><operator>.</operator><name>f</name></name><argument_list>(<argument><expr>$E</expr></argument>)</argument_list></call></expr>;</expr_stmt>)x",
    R"x(<for>for <control>(<init><decl><type><name>int</name></type> <name>a</name> <range>: <expr>$E</expr></range></decl></init>)</control><block type="pseudo"><block_content> $S</block_content></block></for>)x",
    R"x(<for>for <control>(<init><decl><type><specifier>final</specifier> <name>T</name></type> <name>a</name> <range>: <expr>$E</expr></range></decl></init>)</control><block type="pseudo"><block_content> $S</block_content></block></for>)x",
    R"x(<for>for <control>(<init><decl><type><name>int</name></type> <name>a</name> <init>= <expr>$E</expr></init></decl>, <decl><type ref="prev"/><name>b</name> <init>= <expr>$E</expr></init></decl>;</init> <condition><expr>$E</expr>;</condition> <incr><expr><name>a</name><operator>++</operator></expr><operator>,</operator> <expr><name>b</name><operator>++</operator></expr></incr>)</control><block type="pseudo"><block_content> $S</block_content></block></for>)x",
    R"x(<expr_stmt><expr><name>a</name> <operator>&lt;&lt;=</operator> $E</expr>;</expr_stmt>)x",
    R"x(<continue>continue;</continue>)x",
    R"x(<continue>continue <name>l</name>;</continue>)x",
    R"x(<switch>switch <condition>(<expr>$E</expr>)</condition> <block>{<block_content> <case>case <expr><name>T</name></expr>:</case> $S <break>break;</break> <default>default:</default> $S </block_content>}</block></switch>)x",
    R"x(<decl_stmt><decl><type><name><name>java</name><operator>.</operator><name>util</name><operator>.</operator><name>List</name></name></type> <name>a</name> <init>= <expr>$E</expr></init></decl>;</decl_stmt>)x",
    R"x(<decl_stmt><decl><type><name>T</name></type> <name>a</name> <init>= <expr>$E</expr></init></decl>, <decl><type ref="prev"/><name>b</name> <init>= <expr>$E</expr></init></decl>;</decl_stmt>)x",
    R"x(<return>return;</return>)x",
    R"x(<expr_stmt><expr><name><name>this</name><operator>.</operator><name>a</name></name> <operator>=</operator> $E</expr>;</expr_stmt>)x",
    R"x(<decl_stmt><decl><type><name>var</name></type> <name>a</name> <init>= <expr>$E</expr></init></decl>;</decl_stmt>)x",
    R"x(<decl_stmt><decl><annotation>@<name>B</name></annotation> <type><name>int</name></type> <name>a</name> <init>= <expr>$E</expr></init></decl>;</decl_stmt>)x",
    R"x(<expr_stmt><expr><name>a</name> <operator>-=</operator> $E</expr>;</expr_stmt>)x",
};
static const VS EXPRESSIONS_JAVA = {
    R"x(<lambda><parameter_list type="pseudo"><parameter><decl><name>x</name></decl></parameter></parameter_list> -&gt;<block type="pseudo"><block_content> <expr>$E</expr></block_content></block></lambda>)x",
    R"x(<lambda><parameter_list>(<parameter><decl><name>x</name></decl></parameter>, <parameter><decl><name>y</name></decl></parameter>)</parameter_list> -&gt;<block type="pseudo"><block_content> <expr>$E</expr></block_content></block></lambda>)x",
    R"x(<lambda><parameter_list>(<parameter><decl><type><name>int</name></type> <name>x</name></decl></parameter>)</parameter_list> -&gt;<block type="pseudo"><block_content> <expr>$E</expr></block_content></block></lambda>)x",
    R"x(<operator>new</operator> <class><super><name>T</name></super><argument_list>()</argument_list> <block>{ <decl_stmt><decl><type><name>int</name></type> <name>b</name></decl>;</decl_stmt> }</block></class>)x",
    R"x($E <operator>instanceof</operator> <name>T</name>)x",
    R"x(<operator>new</operator> <name><name>int</name><index>[<expr>$E</expr>]</index></name>)x",
    R"x(<name>T</name><operator>::</operator><name>f</name>)x",
    R"x($E <operator>&gt;&gt;&gt;</operator> $E)x",
    R"x(<operator>(</operator><name>T</name><operator>)</operator> $E)x",
    R"x(<name><name>super</name><operator>.</operator><name>b</name></name>)x",
    R"x(<call><name><name>b</name><operator>.</operator><name>c</name></name><argument_list>(<argument><expr>$E</expr></argument>)</argument_list></call><operator>.</operator><call><name>d</name><argument_list>()</argument_list></call>)x",
    R"x(<operator>new</operator> <name><name>int</name><index>[]</index></name> <block>{<expr>$E</expr>, <expr>$E</expr>}</block>)x",
    R"x(<name><name>T</name><operator>.</operator><name>class</name></name>)x",
    R"x(<literal type="string">"b"</literal> <operator>+</operator> $E)x",
    R"x(<operator>new</operator> <call><name><name>T</name><argument_list type="generic">&lt;&gt;</argument_list></name><argument_list>(<argument><expr>$E</expr></argument>)</argument_list></call>)x",
    R"x(<name><name>b</name><index>[<expr>$E</expr>]</index><index>[<expr>$E</expr>]</index></name>)x",
    R"x(<literal type="boolean">true</literal>)x",
    R"x(<literal type="null">null</literal>)x",
    R"x(<ternary><condition><expr><call><name>f</name><argument_list>()</argument_list></call></expr> ?</condition><then> <expr>$E</expr> </then><else>: <expr>$E</expr></else></ternary>)x",
    R"x(<literal type="char">'c'</literal>)x",
    R"x(<operator>~</operator>$E)x",
    R"x(<literal type="number">0x1F</literal>)x",
    R"x(<literal type="number">1L</literal>)x",
    R"x(<call><name><name>b</name><operator>.</operator><name>f</name></name><argument_list>(<argument><expr><lambda><parameter_list type="pseudo"><parameter><decl><name>x</name></decl></parameter></parameter_list> -&gt;<block type="pseudo"><block_content> <expr>$E</expr></block_content></block></lambda></expr></argument>, <argument><expr>$E</expr></argument>)</argument_list></call>)x",
};
static const VS STATEMENTS_CS = {
    R"x(<expr_stmt><expr><call><name>f</name><argument_list>(<argument><expr><lambda><parameter_list>(<parameter><decl><name>x</name></decl></parameter>)</parameter_list> =&gt; <block>{<block_content> $S </block_content>}</block></lambda></expr></argument>)</argument_list></call></expr>;</expr_stmt>)x",
    R"x(<decl_stmt><decl><type><name>var</name></type> <name>a</name> <init>= <expr>$E</expr></init></decl>;</decl_stmt>)x",
    R"x(<return><specifier>yield</specifier> return <expr>$E</expr>;</return>)x",
    R"x(<break><specifier>yield</specifier> break;</break>)x",
    R"x(<unsafe>unsafe <block>{<block_content> $S </block_content>}</block></unsafe>)x",
    R"x(<fixed>fixed <init>(<decl><type><name>T</name><modifier>*</modifier></type> <name>a</name> <init>= <expr>$E</expr></init></decl>)</init> <block>{<block_content> $S </block_content>}</block></fixed>)x",
    R"x(<expr_stmt><expr><call><name>f</name><argument_list>(<argument><modifier>ref</modifier> <expr>$E</expr></argument>, <argument><modifier>out</modifier> <expr><name>b</name></expr></argument>)</argument_list></call></expr>;</expr_stmt>)x",
    R"x(<expr_stmt><expr><call><name>f</name><argument_list>(<argument><name>c</name>: <expr>$E</expr></argument>)</argument_list></call></expr>;</expr_stmt>)x",
    R"x(<throw>throw <expr>$E</expr>;</throw>)x",
    R"x(<using_stmt>using <init>(<decl><type><name>T</name></type> <name>a</name> <init>= <expr>$E</expr></init></decl>)</init> $S</using_stmt>)x",
    R"x(<goto>goto <name>l</name>;</goto>)x",
    R"x(<decl_stmt><decl><type><specifier>const</specifier> <name>int</name></type> <name>a</name> <init>= <expr>$E</expr></init></decl>;</decl_stmt>)x",
    R"x(<decl_stmt><decl><type><name><name>int</name><index>[]</index></name></type> <name>a</name> <init>= <expr><block>{<expr>$E</expr>, <expr>$E</expr>}</block></expr></init></decl>;</decl_stmt>)x",
    R"x(<decl_stmt><decl><type><name><name>List</name><argument_list type="generic">&lt;<argument><name><name>Map</name><argument_list type="generic">&lt;<argument><name>T</name></argument>, <argument><name>U</name></argument>&gt;</argument_list></name></argument>&gt;</argument_list></name></type> <name>a</name> <init>= <expr>$E</expr></init></decl>;</decl_stmt>)x",
    R"x(<decl_stmt><decl><type><name>T</name><modifier>?</modifier></type> <name>a</name> <init>= <expr>$E</expr></init></decl>;</decl_stmt>)x",
    R"x(<try>try <block>{<block_content> $S </block_content>}</block> <catch>catch <block>{<block_content> $S </block_content>}</block></catch> <finally>finally <block>{<block_content> $S </block_content>}</block></finally></try>)x",
    R"x(<try>try <block>{<block_content> $S </block_content>}</block> <catch>catch <parameter_list>(<parameter><decl><type><name>T</name></type> <name>e</name></decl></parameter>)</parameter_list> <block>{<block_content> $S </block_content>}</block></catch></try>)x",
    R"x(<try>try <block>{<block_content> $S </block_content>}</block> <catch>catch <parameter_list>(<parameter><decl><type><name>T</name></type></decl></parameter>)</parameter_list> <block>{<block_content> $S </block_content>}</block></catch></try>)x",
    R"x(<foreach>foreach <control>(<init><decl><type><name>var</name></type> <name>a</name> <range>in <expr>$E</expr></range></decl></init>)</control><block type="pseudo"><block_content> $S</block_content></block></foreach>)x",
    R"x(<foreach>foreach <control>(<init><decl><type><name>T</name></type> <name>a</name> <range>in <expr>$E</expr></range></decl></init>)</control> <block>{<block_content> $S </block_content>}</block></foreach>)x",
    R"x(<checked>checked <block>{<block_content> $S </block_content>}</block></checked>)x",
    R"x(<unchecked>unchecked <block>{<block_content> $S </block_content>}</block></unchecked>)x",
    R"x(<lock>lock <init>(<expr>$E</expr>)</init> <block>{<block_content> $S </block_content>}</block></lock>)x",
    R"x(<decl_stmt><decl><type><name><name>System</name><operator>.</operator><name>T</name></name></type> <name>a</name> <init>= <expr>$E</expr></init></decl>;</decl_stmt>)x",
    R"x(<decl_stmt><decl><type><name>int</name></type> <name>a</name> <init>= <expr>$E</expr></init></decl>, <decl><type ref="prev"/><name>b</name> <init>= <expr>$E</expr></init></decl>;</decl_stmt>)x",
    R"x(<for>for <control>(<init><decl><type><name>int</name></type> <name>a</name> <init>= <expr>$E</expr></init></decl>, <decl><type ref="prev"/><name>b</name> <init>= <expr>$E</expr></init></decl>;</init> <condition><expr>$E</expr>;</condition> <incr><expr><name>a</name><operator>++</operator></expr><operator>,</operator> <expr><name>b</name><operator>++</operator></expr></incr>)</control><block type="pseudo"><block_content> $S</block_content></block></for>)x",
    R"x(<return>return;</return>)x",
    R"x(<expr_stmt><expr><name>a</name> <operator>+=</operator> $E</expr>;</expr_stmt>)x",
    R"x(<switch>switch <condition>(<expr>$E</expr>)</condition> <block>{<block_content> <case>case <expr><name>T</name></expr>:</case> $S <break>break;</break> <default>default:</default> $S </block_content>}</block></switch>)x",
    R"x(<continue>continue;</continue>)x",
    R"x(<decl_stmt><decl><type><name>dynamic</name></type> <name>a</name> <init>= <expr>$E</expr></init></decl>;</decl_stmt>)x",
    R"x(<throw>throw;</throw>)x",
    R"x(<expr_stmt><expr><name>a</name> <operator>^=</operator> $E</expr>;</expr_stmt>)x",
};
static const VS EXPRESSIONS_CS = {
    R"x(<lambda><parameter_list type="pseudo"><parameter><decl><name>x</name></decl></parameter></parameter_list> =&gt;<block type="pseudo"><block_content> <expr>$E</expr></block_content></block></lambda>)x",
    R"x(<lambda><parameter_list>(<parameter><decl><name>x</name></decl></parameter>, <parameter><decl><name>y</name></decl></parameter>)</parameter_list> =&gt;<block type="pseudo"><block_content> <expr>$E</expr></block_content></block></lambda>)x",
    R"x($E <operator>is</operator> <name>T</name>)x",
    R"x($E <operator>as</operator> <name>T</name>)x",
    R"x($E <operator>??</operator> $E)x",
    R"x(<typeof>typeof<argument_list>(<argument><expr><name>T</name></expr></argument>)</argument_list></typeof>)x",
    R"x(<linq><from>from <expr><name>b</name></expr> <in>in <expr><name>c</name></expr></in></from> <where>where <expr>$E</expr></where> <select>select <expr>$E</expr></select></linq>)x",
    R"x(<operator>new</operator> <name>T</name> <block>{ <expr><name>b</name> <operator>=</operator> $E</expr> }</block>)x",
    R"x(<operator>new</operator> <call><name>T</name><argument_list>()</argument_list></call>)x",
    R"x(<operator>new</operator> <block>{ <expr><name>b</name> <operator>=</operator> $E</expr> }</block>)x",
    R"x(<operator>new</operator><index>[]</index> <block>{<expr>$E</expr>, <expr>$E</expr>}</block>)x",
    R"x(<operator>new</operator> <name><name>int</name><index>[<expr>$E</expr>]</index></name>)x",
    R"x(<operator>await</operator> $E)x",
    R"x(<operator>(</operator><name>T</name><operator>)</operator> $E)x",
    R"x(<delegate><name>delegate</name> <parameter_list>(<parameter><decl><type><name>int</name></type> <name>b</name></decl></parameter>)</parameter_list> <block>{<block_content> $S </block_content>}</block></delegate>)x",
    R"x(<default>default<argument_list>(<argument><expr><name>T</name></expr></argument>)</argument_list></default>)x",
    R"x(<call><name><name>base</name><operator>.</operator><name>b</name></name><argument_list>(<argument><expr>$E</expr></argument>)</argument_list></call>)x",
    R"x(<name><name>this</name><operator>.</operator><name>b</name></name>)x",
    R"x(<literal type="string">@"b"</literal>)x",
    R"x(<name><name>b</name><index>[<expr>$E</expr>, <expr>$E</expr>]</index></name>)x",
    R"x(<checked>checked<argument_list>(<argument><expr>$E</expr></argument>)</argument_list></checked>)x",
    R"x(<literal type="null">null</literal>)x",
    R"x(<literal type="boolean">true</literal>)x",
    R"x(<call><name><name>b</name><operator>.</operator><name>c</name></name><argument_list>(<argument><expr>$E</expr></argument>)</argument_list></call><operator>.</operator><call><name>d</name><argument_list>()</argument_list></call>)x",
    R"x(<sizeof>sizeof<argument_list>(<argument><expr><name>int</name></expr></argument>)</argument_list></sizeof>)x",
    R"x(<operator>stackalloc</operator> <name><name>int</name><index>[<expr>$E</expr>]</index></name>)x",
    R"x(<call><name><name>f</name><argument_list type="generic">&lt;<argument><name>T</name></argument>&gt;</argument_list></name><argument_list>(<argument><expr>$E</expr></argument>)</argument_list></call>)x",
    R"x($E <operator>&lt;&lt;</operator> $E)x",
    R"x(<call><name><name>b</name><operator>.</operator><name>f</name></name><argument_list>(<argument><expr><lambda><parameter_list type="pseudo"><parameter><decl><name>x</name></decl></parameter></parameter_list> =&gt;<block type="pseudo"><block_content> <expr>$E</expr></block_content></block></lambda></expr></argument>, <argument><expr>$E</expr></argument>)</argument_list></call>)x",
    R"x(<call><name>nameof</name><argument_list>(<argument><expr>$E</expr></argument>)</argument_list></call>)x",
};
