"""Which harnesses decide which property."""
LINK = ["-lantlr-pic", "-lxml2", "-lxslt", "-lexslt", "-lcrypto", "-lpthread", "-ldl"]
TODO = {}
CHECKS = {
 "P01": {"harness": [{"name": "parse01", "src": ["parse.cpp"], "args": ["--opt", "set=P01"]}],
         "technique": "bounded exhaustive exploration of the real parser (token, character and edit alphabets), oracle: text equality",
         "note": "every token pair in every context, triples, directive sequences, code points and single edits of 2892 snippets, five languages; one parse per execution",
         "assumptions": ["token sequences longer than the bound and tokens outside the alphabet are not explored"]},
 "P02": {"harness": [{"name": "parse02", "src": ["parse.cpp"], "args": ["--opt", "set=P02"]}],
         "technique": "bounded exhaustive exploration of the real parser, oracle: independent XML well-formedness scanner and a termination bound",
         "note": "same space as P01; crashes and executions over 10 s are violations",
         "assumptions": ["token sequences longer than the bound and tokens outside the alphabet are not explored"]},
 "P03": {"harness": [{"name": "history03", "src": ["history.cpp"]}],
         "technique": "exhaustive exploration of operation sequences and of thread schedules of the real parser, oracle: the same parse alone in a process of its own",
         "note": "all ordered pairs and triples of texts, languages and settings, in new and reused archives and units; pairs and triples of parses in threads under every interleaving of their reads",
         "assumptions": ["threads are switched where input is read; code between two reads is taken as atomic"]},
 "P04": {"harness": [{"name": "deliver04", "src": ["deliver.cpp"], "args": ["--opt", "set=P04"], "link": ["-Wl,--wrap=read"]}],
         "technique": "exhaustive enumeration of read splits and delivery channels over bounded inputs, oracle: the memory parse, an independent SHA-1 and line count",
         "note": "every split of short sources, every character class at every offset around the internal buffer boundaries, five delivery channels, 13 encodings/BOM forms",
         "assumptions": ["reads return a prefix of what remains; failing reads are outside this property"]},
 "P05": {"harness": [{"name": "deliver05", "src": ["deliver.cpp"], "args": ["--opt", "set=P05"], "link": ["-Wl,--wrap=read"]}],
         "technique": "bounded exhaustive enumeration of texts and encoding settings on the real code, oracle: independent encoders",
         "note": "every short text over ten character classes, for every combination of unit encoding, archive encoding, BOM, output encoding and line ending",
         "assumptions": ["characters an output encoding cannot represent are outside the property"]},
 "P10": {"harness": [{"name": "api10", "src": ["api.cpp"], "args": ["--opt", "set=P10"]}],
         "technique": "exhaustive exploration of sequences of setting calls on the real library, oracle: a reference model of independent variables compared after every call",
         "note": "every sequence of two of all setter, option, namespace, extension, clone and parse calls with ordinary, empty and null values, every sequence of three of a part of them; the program-wide settings in a process of their own",
         "assumptions": ["which of several namespaces with one prefix srcml_archive_get_uri_from_prefix returns is not decided: the header says the first, a test of the project demands the last", "macros, which have no public getter, are decided by their effect only in P06"]},
 "P11": {"harness": [{"name": "api11", "src": ["api.cpp"], "args": ["--opt", "set=P11"]}],
         "technique": "exhaustive exploration of sequences of registrations and of file-name shapes on the real library, oracle: a reference model of the registry",
         "note": "sequences of registrations on two archives, every file-name shape after each; every combination of the places a language can be stated in; language names by all edits up to a distance",
         "assumptions": ["compression suffix means .gz, the only one the library removes"]},
 "P12": {"harness": [{"name": "position12", "src": ["position.cpp"]}],
         "technique": "bounded exhaustive exploration of the real parser, oracle: independent line and column count over the text of the markup, and the same parse without positions",
         "note": "every token pair in contexts, core token triples, and the corpus with tabs, line ends, comments and directives put in at every place, five languages, several tab sizes",
         "assumptions": ["columns count bytes", "edges that are an asm block, text left out by #if 0, or a directive over several lines are not decided"]},
 "P06": {"harness": [{"name": "archive06", "src": ["archive.cpp"], "args": ["--opt", "set=P06"]}],
         "technique": "exhaustive enumeration of archive configurations and delivery channels on the real writer and reader, oracle: what was given to the writer",
         "note": "every value of every setting and unit attribute, every pair of them, every sequence of two units; read back through six channels and in pieces of every size, copied by clone and by equal settings",
         "assumptions": ["read callbacks deliver at least 16 bytes while there are that many (the XML library's declaration parser needs them; 100 for UTF-16)", "a character and a numeric reference to it are the same text", "UTF-16 or ISO-8859-1 without an XML declaration cannot be read by anyone"]},
 "P07": {"harness": [{"name": "reader07", "src": ["reader.cpp"]}],
         "technique": "stateless model checking of the real reader under a controlled scheduler (all schedules up to a preemption bound, spurious wake-ups included), oracle: the units the documents were made of",
         "note": "every read/skip/close sequence on 18 documents (solitary, archives, empty, not srcML, cut); two archives with their two parser threads in every merge",
         "assumptions": ["scheduling points are lock, unlock, wait, notify, thread start, thread end, join and input callbacks; code between them is taken as atomic"]},
}
CLI = ["src/client/" + f + ".cpp" for f in ("WriteQueue", "srcml_consume", "srcml_write", "SRCMLStatus", "TraceLog", "srcml_options", "ParserTest", "mkDir", "OpenFileLimiter", "srcml_input_src", "src_prefix", "src_archive")]
CHECKS.update({
 "P20": {"harness": [{"name": "queue20", "src": ["queue.cpp"], "args": ["--opt", "set=P20"], "inc": ["stub"], "repo_src": CLI, "link": ["-larchive"]}],
         "technique": "stateless model checking of the tool's real queues, consumer and writer under a controlled scheduler, oracle: the inputs in order",
         "note": "the real ParseQueue, WriteQueue, srcml_consume and srcml_write_request with a stand-in for the CTPL pool (not available offline); every request sequence and schedule within the bounds",
         "assumptions": ["the CTPL pool runs pushed tasks first come first served and stop(true) waits for them", "scheduling points are synchronisation operations; code between them is taken as atomic"]},
 "P27": {"harness": [{"name": "queue27", "src": ["queue.cpp"], "args": ["--opt", "set=P27"], "inc": ["stub"], "repo_src": CLI, "link": ["-larchive"]}],
         "technique": "stateless model checking of the real limiter under a controlled scheduler (preemptions and spurious wake-ups bounded)",
         "note": "two to four threads around the limit, every schedule within the bounds",
         "assumptions": ["scheduling points are synchronisation operations; code between them is taken as atomic"]},
})

CLI2 = ["src/client/" + f + ".cpp" for f in ("src_input_text", "srcml_input_src", "src_prefix", "src_archive", "src_output_filesystem", "mkDir", "srcml_pretty", "srcml_display_metadata", "SRCMLStatus", "srcml_options", "TraceLog", "OpenFileLimiter", "src_input_filelist", "src_input_libarchive")]
def client(set, n):
    return [{"name": n, "src": ["client.cpp"], "args": ["--opt", "set=" + set], "inc": ["stub2"], "repo_src": CLI2, "link": ["-Wl,--wrap=srcml_unit_unparse_filename,--wrap=archive_write_header,--wrap=archive_write_finish_entry", "-larchive"]}]
CHECKS.update({
 "P21": {"harness": client("P21", "client21"),
         "technique": "bounded exhaustive enumeration of archives and destinations on the tool's real extraction code with a recording stand-in for the file system, oracle: lexical path model",
         "note": "every unit name of up to four parts (plain, empty, dot, dot-dot, absolute, trailing slash) x eight spellings of the destination; three units with the n-th write failing; nothing is really written",
         "assumptions": ["no symbolic links below the destination", "a name that leaves the destination and comes back to it may be written or reported"]},
 "P22": {"harness": client("P22", "client22"),
         "technique": "bounded exhaustive enumeration of argument strings through the tool's real argument and text handling, oracle: an independent decoder",
         "note": "every string of up to six of fourteen characters, every sequence of up to five of 24 escapes, every single hex, octal and character escape",
         "assumptions": ["octal escapes above 255 are not decided"]},
 "P23": {"harness": client("P23", "client23"),
         "technique": "bounded exhaustive enumeration of templates, archives and option sets on the tool's real output code, oracle: an independent template model over the values the library reports",
         "note": "every template of up to four pieces out of 17, header x body x footer shapes, six archives, unit numbers, all 127 subsets of the --show options, --units, --info, --longinfo and --list",
         "assumptions": ["%F is not decided (there is no file name of an archive)", "one space on either side of a brace is a separator", "unit indices may start at 0 or 1", "a section whose only field is missing prints nothing"]},
 "P24": {"harness": [{"name": "dispatch24", "src": ["dispatch.cpp"], "inc": ["stub2"], "repo_src": ["src/client/" + f + ".cpp" for f in ("srcml_input_src", "src_prefix", "src_archive", "create_srcml", "SRCMLStatus", "srcml_options", "TraceLog")], "link": ["-larchive"]}],
         "technique": "bounded exhaustive enumeration of arguments on the tool's real classification and dispatch, oracle: a reference model",
         "note": "protocol x directory x base name x chains of up to three suffixes; real directories and files with misleading names; sequences of arguments; the handler each one is given to",
         "assumptions": ["the handlers themselves are stand-ins that record the call"]},
 "P28": {"harness": client("P28", "client28"),
         "technique": "bounded exhaustive enumeration of file lists on the tool's real list reader, oracle: an independent line splitter",
         "note": "every content of up to five of eight symbols; lists whose size is around the blocks they are read in; every position of an input that cannot be handled",
         "assumptions": ["lines that hold only part of a multi-byte white space are outside the alphabet"]},
})
CHECKS.update({
 "P16": {"harness": [{"name": "views16", "src": ["views.cpp"]}],
         "technique": "explicit-state model checking of the real unit interface: every sequence of views up to a length, oracle: the views asked for first, and an independent XML parser on each",
         "note": "units parsed, read back, built by element and written to other archives; every sequence of the outer, inner, archive, fragment and unparsed views and of the calls that change the unit between them",
         "assumptions": ["what the documents say is compared by libxml2's tree parser, used apart from the library's own reader"]},
 "P18": {"harness": [{"name": "byhand18", "src": ["byhand.cpp"]}],
         "technique": "explicit-state model checking of the real by-element interface against a tree model: every call sequence up to a length, oracle: an independent XML parser on the unit, its views, the archive and the unit read back",
         "note": "element, attribute, namespace and text calls in every order, those that would unbalance the unit included; every character and string of a set at every place of a value",
         "assumptions": ["the names the caller gives are XML names", "prefixes used without a namespace are declared by the caller"]},
 "P19": {"harness": [{"name": "damage19", "src": ["damage.cpp"]}],
         "technique": "fault enumeration on the real reader: every cut, byte change and piece exchange of a set of archives, with the schedules of the reader thread for the cuts",
         "note": "each damaged document is opened and read to its end in a child process with a time limit; what is read has to be leading units of the original or a status that says so",
         "assumptions": ["a change that leaves a well-formed document is only required to end"]},
})
CHECKS.update({
 "P17": {"harness": [{"name": "sinks17", "src": ["sinks.cpp"]}],
         "technique": "fault enumeration on the real writers: every kind of sink failing at every byte, write, open and close, oracle: what the sink got and the independently encoded text",
         "note": "sources of lengths around the blocks that are written, encodings and line ends; nine archives; descriptors, streams, files and callbacks that are full after every byte, fail or shorten every write, cannot be opened or closed",
         "assumptions": ["a sink that accepts all bytes and then fails on closing has failed", "an empty source may be reported either way on a sink that cannot be written"]},
})
CHECKS.update({
 "P09": {"harness": [{"name": "wrong09", "src": ["wrong.cpp"]}],
         "technique": "explicit-state model checking of the real interface: every wrong call, and every pair of them, at every point of the life cycle, oracle: the same script without the wrong call",
         "note": "330 calls with a null, invalid or out-of-range argument or in a state that does not allow them, at 19 points of the life of archives, units and transformations; sources whose reading fails at every read or that are wrong in their encoding at every position; every sequence of sessions on one archive",
         "assumptions": ["an XPath expression may be checked when it is first applied", "an archive has to be closed before it is opened again"]},
})
CHECKS.update({
 "P13": {"harness": [{"name": "xpath13", "src": ["xpath.cpp"], "args": ["--opt", "set=P13"]}],
         "technique": "bounded exhaustive exploration of the real transformation interface over a grammar of XPath expressions, oracle: XPath evaluation on an independently parsed tree",
         "note": "seven starts x twelve axes x ten node tests x eight predicates, unions, functions, scalars and invalid expressions on nine units; each as a query and with seven kinds of marks, and every pair of marks; results are written to an archive and read back by an independent parser",
         "assumptions": ["the XML library's XPath evaluator is right; what libsrcml makes of its results is checked", "namespaces of marks are registered on the archive the results are written to", "marking the document itself, and results that are namespace nodes, are not decided", "revision and tab attributes of a result are those of the archive it is written to"]},
 "P14": {"harness": [{"name": "xpath14", "src": ["xpath.cpp"], "args": ["--opt", "set=P14"]}],
         "technique": "explicit-state model checking of the real transformation interface: every sequence of transformations up to a length, oracle: hand-written functions on independently parsed trees",
         "note": "queries, element and attribute marks, XSLT programs with parameters, RelaxNG schemas and clear in every sequence of three (thorough: four) on nine units; programs from four channels, those that do not load in between; programs of two archives released in every order",
         "assumptions": ["the value is that of the first result of the previous step when a later step gives a value for several", "results that are not elements are not transformed further", "what XSLT itself does is that of the XSLT library"]},
})
CHECKS.update({
 "P15": {"harness": [{"name": "revision15", "src": ["revision.cpp"]}],
         "technique": "bounded exhaustive enumeration of difference documents on the real reader, oracle: a filter over the tree each document was generated from",
         "note": "every forest of up to five nodes of text, elements and common, deleted and inserted regions nested in each other; kinds of text and attributes; prefixes; attributes of the unit; every sequence of views and revisions; every edit script over four statements, where both revisions are the versions it was made from",
         "assumptions": ["a region inside a region of the other revision belongs to no revision"]},
 "P29": {"harness": [{"name": "spelling29", "src": ["spelling.cpp"]}],
         "technique": "bounded exhaustive enumeration of XML spellings on the real reader, oracle: an independent XML parser on the same document and on the copy that was written",
         "note": "every sequence of up to three of 38 spellings of contents; declarations, encodings and text around the root; tags; text between units, read or skipped; single constructs and contents of sizes around the parts that are read, shifted",
         "assumptions": ["no document type declarations", "documents the XML library itself cannot read in small parts are left out", "text outside of units is not part of a document"]},
 "P25": {"harness": [{"name": "leaks25", "src": ["leaks.cpp"]}],
         "technique": "explicit-state model checking of the real interface: every sequence of calls up to a length, oracle: the blocks of memory, descriptors and threads of the process after everything is released",
         "note": "85 calls of archives, units and transformations, those that fail included, in every pair from six beginnings and with three ways of releasing; every pair of fourteen transformations; each sequence is repeated, so that caches that are filled once do not count",
         "assumptions": ["memory the caller is told to release is released", "caches of the libraries used that stop growing are not losses", "extension functions of XSLT stay loaded"]},
 "P26": {"harness": [{"name": "onecall26", "src": ["onecall.cpp"]}],
         "technique": "bounded exhaustive enumeration of conversions and settings, oracle: the archive interface with the same settings",
         "note": "26 inputs (source, srcML, damaged, missing, other) x three outputs x five languages x every pair of twenty program-wide settings, each in a process of its own; two conversions in a row; null arguments",
         "assumptions": ["the extensions .xml and .srcml and the program-wide language xml mean srcML"]},
})
CHECKS.update({
 "P08": {"harness": [{"name": "interleave08", "src": ["interleave.cpp"]}],
         "technique": "systematic exploration of interleavings of the real interface: every order of the steps of two and three scripts, in one thread, in threads and from callbacks, oracle: each script alone in a process",
         "note": "sixteen scripts of three to five steps: parsing in several languages, building by element, reading, difference documents, damaged and failing archives, copying, XPath, XSLT, RelaxNG, settings, the program-wide archive; units written to another archive after every three calls on their own",
         "assumptions": ["steps of different threads do not overlap in time; parses that overlap are explored by P03 and reader threads by P07", "the program-wide archive is used by one script"]},
})
CHECKS.update({
 "P30": {"harness": [{"name": "inputs30", "src": ["inputs.cpp"], "inc": ["stub2"], "repo_src": ["src/client/" + f + ".cpp" for f in ("srcml_input_src", "src_prefix", "src_archive", "SRCMLStatus", "srcml_options", "OpenFileLimiter", "src_input_libarchive", "src_input_filesystem", "src_output_libarchive")], "link": ["-larchive"]}],
         "technique": "bounded exhaustive enumeration of archives, compressed files, directories and damage to them on the tool's real readers and writer, oracle: what was stored, and libarchive used apart from the tool",
         "note": "every sequence of up to three of ten entries in 14 archive formats, by name, descriptor and stream; compressed and plain files up to several buffers; every set of up to three of 13 files of a directory with nine spellings of its name; archives cut at every length and changed at every byte; every sequence of up to three of 12 units written to seven archive formats and read back",
         "assumptions": ["threads, parsing and libcurl are stand-ins", "names that the C locale cannot represent may be reported in place of being read", "with --verbose, what is said of an archive that only has directories is not decided"]},
})

CHECKS.update({
 "P31": {"harness": [{"name": "tool31", "src": ["tool.cpp"], "inc": ["stub3"], "repo_src": ["src/client/*.cpp"], "repo_skip": ["srcml.cpp"], "link": ["-larchive"]}],
         "technique": "bounded exhaustive enumeration of uses of the whole command-line tool (inputs, forms, options, destinations, failures, and every system call at which a thread can be held up), each run of the real tool in a directory of its own; oracle: the source given, libarchive, an independent XML reading, and what is documented of each option",
         "note": "every run is a process with the real main program of the tool, its real threads and the real library, for all combinations of inputs, forms of giving them, options and destinations in the stated bounds. What it printed, its status and every file it left are compared with the source that went in. One scenario holds up the thread that makes the k-th system call on files, for every k, so that the other threads run past it. Others limit the size of files, the number of descriptors and the permissions in turn, and go through the formats and compressions of the extensions.",
         "assumptions": ["command-line parsing (CLI11), the thread pool, libcurl and boost are stand-ins; the tool's own test suite gives the same results with them except where the order of options or the network matters", "no network", "srcML that is malformed or cut short and is extracted to a directory only has to be reported; inputs that stop the tool (srcML that cannot be opened, urls, a missing list) need not deliver the inputs after them"]},
})

CHECKS.update({
 "P32": {"harness": [{"name": "fetch32", "src": ["fetch.cpp"], "inc": ["stub3"], "repo_src": ["src/client/" + f + ".cpp" for f in ("input_curl", "srcml_input_src", "src_prefix", "src_archive", "SRCMLStatus", "srcml_options")], "link": ["-larchive"]},
                     {"name": "download32", "src": ["download.cpp"], "inc": ["stub3"], "repo_src": ["src/client/*.cpp"], "repo_skip": ["srcml.cpp"], "link": ["-larchive"]}],
         "technique": "bounded exhaustive exploration: all thread schedules of the real downloading code under a controlled scheduler (preemption bound 2, a spurious wake-up), and all combinations of files, courses of a download, forms and uses of the whole tool; oracle: the bytes that were served",
         "note": "every sequence of two downloads (three in the thorough tier) with seven courses, read to the end or left, under every schedule with at most two preemptions; then the whole tool with every file, course, form and use, with lists that are themselves downloaded, and with the thread that makes the k-th system call held up for every k.",
         "assumptions": ["libcurl is a stand-in that follows its documentation; no network", "a url that delivers nothing, or srcML that cannot be read, may end the run", "what follows the end of an archive or of compressed data need not be downloaded"]},
})

CHECKS.update({
 "P33": {"harness": [{"name": "ptest33", "src": ["ptest.cpp"], "inc": ["stub3"], "repo_src": ["src/client/*.cpp"], "repo_skip": ["srcml.cpp"], "link": ["-larchive"]}],
         "technique": "bounded exhaustive enumeration of srcML archives given to the parser test of the whole tool: every pair of units, each with its markup altered in every listed way, and every sequence of files; oracle: the library parses the text of every unit, and the report has to be the one that follows",
         "note": "each unit is right or wrong by comparing what is stored with what the library parses its text to; the list of numbers, every reported difference (which has to be the two texts less whole lines that are common at their start and end), the summary, counts and percentages are recomputed from that.",
         "assumptions": ["every unit has a language, and no text of the report", "the stand-ins of P31"]},
 "P34": {"harness": [{"name": "markup34", "src": ["markup.cpp"]}],
         "technique": "bounded exhaustive enumeration of derivations: every program of a grammar with up to a number of alternatives is generated together with its markup and given to the real parser; oracle: the derivation itself",
         "note": "the generator derives the marked up program, and the source code is that without tags, so that no second parser is needed; statements of every kind nested with and without blocks, expressions in seven places, expressions inside nested statements, declarations, types and class members, tables of over a hundred forms of statements and expressions put into each other, default values of parameters, and kinds of white space, in four languages. The alternatives that are marked wrong in a way that was not repaired are known findings, one for each program.",
         "assumptions": ["the source code is complete and of the grammar in the harness", "what begins a statement is not both a declaration and an expression, and ~f() at the start of an expression is the call of a destructor, as the tests of the parser have it", "a minus is not followed by a minus", "a default value of a parameter is without lambdas"]},
})
