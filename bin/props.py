#!/usr/bin/env python3
"""Writes properties.jsonl (the text of every property lives here)."""
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, observe=None, state=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": q},
         "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)

p("P01", "Source text survives parsing unchanged, whatever the text",
  "For every source text of a supported language, with or without syntax errors and with any parsing option, parsing ends with success and the parsed unit gives back exactly the original characters: the text content of its markup, and what unparsing it writes after it was stored in an archive, equal the input with its line endings normalised to line feeds. No token, white space, line ending, comment or unbalanced bracket is lost, repeated, reordered or invented.",
  ["inputs", "configurations"], "all token sequences of a language up to a length, after every statement-context prefix, for every language and parsing option",
  "Tests compare a few thousand hand-picked snippets, nearly all valid code; the parser is a mode stack whose behaviour on token combinations nobody listed (unbalanced brackets, keywords in wrong places, directives between any two tokens) is unconstrained.",
  ["src/parser/srcMLParser.g", "src/parser/StreamMLParser.hpp", "src/parser/srcMLOutput.cpp", "src/parser/TextLexer.g", "src/libsrcml/srcml_translator.cpp", "src/libsrcml/srcml_unit.cpp"],
  [("token streaming keeps skipped tokens in order", "src/parser/StreamMLParser.hpp"), ("every consumed token is output", "src/parser/srcMLOutput.cpp"), ("text recovery when unparsing", "src/libsrcml/srcml_unit.cpp srcml_unit_unparse_*")],
  ["srcml_unit_get_srcml_outer", "srcml_unit_unparse_memory"])

p("P02", "Produced markup is always well-formed, balanced srcML",
  "For every source text of a supported language, parsing produces one complete unit whose markup is well-formed namespace-aware XML: every start tag has its matching end tag inside the unit, nothing follows the unit, special characters are escaped, characters XML forbids are represented as escape elements, and every prefix is declared. Parsing always terminates.",
  ["inputs", "configurations"], "all token sequences of a language up to a length in every statement context, and all byte values in every lexical context",
  "Balanced output depends on the parser's mode stack and on the element stack staying in step for every token combination; tests check only the expected markup of chosen snippets.",
  ["src/parser/srcMLParser.g", "src/parser/ModeStack.hpp", "src/parser/srcMLState.hpp", "src/parser/StreamMLParser.hpp", "src/parser/srcMLOutput.cpp"],
  [("modes carry the elements opened in them and close them when they end", "src/parser/ModeStack.hpp, src/parser/srcMLState.hpp"), ("escaping of text and attribute values", "src/parser/srcMLOutput.cpp")],
  ["srcml_unit_get_srcml_outer", "srcml_archive_write_unit"])

p("P03", "A parse depends only on its text, language and options",
  "The markup, hash and line count produced for a source text are the same whatever was parsed before it, in whichever archive or unit, and whatever other units are being parsed at the same time in other threads. Parsing the same text again gives the same result.",
  ["histories", "schedules"], "all ordered pairs and triples of units over a set of texts, languages and options, in one thread, and all interleavings of concurrent parses at their input reads",
  "Tests parse each snippet once in a fresh process; caches kept in static and per-thread variables only matter for particular successions of parses.",
  ["src/parser/srcMLOutput.cpp", "src/parser/srcMLParser.g", "src/parser/KeywordLexer.g", "src/libsrcml/srcml_translator.cpp", "src/libsrcml/srcml_unit.cpp"],
  [("parser, lexer and output objects are created per unit", "src/libsrcml/srcml_translator.cpp"), ("caches in thread-local statics", "src/parser/srcMLOutput.cpp")])

p("P04", "How source bytes are delivered does not change the result",
  "A source text gives the same status, markup, SHA-1 hash and line count whether it is parsed from memory, a file, a FILE stream, a file descriptor or read callbacks, and however the reads are split. The hash is the SHA-1 of the source bytes, and the line count counts its lines.",
  ["inputs", "fault_sequences"], "all texts of an alphabet with multi-byte characters and line endings placed around the internal buffer boundary, times all ways of splitting the reads (short reads, one byte at a time)",
  "Tests use inputs far smaller than the buffer and readers that always deliver everything asked for.",
  ["src/parser/UTF8CharBuffer.cpp", "src/libsrcml/srcml_unit.cpp"],
  [("buffered conversion to UTF-8", "src/parser/UTF8CharBuffer.cpp readChars"), ("one entry point per source kind", "src/libsrcml/srcml_unit.cpp srcml_unit_parse_*")],
  ["srcml_unit_get_srcml_outer", "srcml_unit_get_hash", "srcml_unit_get_loc"])

p("P05", "Source encodings and byte-order marks are decoded and restored",
  "Source bytes in a supported encoding decode to the characters they stand for, whether the encoding was stated on the unit, stated on the archive, or implied by a UTF-8 byte-order mark, which is not part of the text. Unparsing a unit in an encoding, with a chosen line ending, writes the same characters in that encoding with that line ending.",
  ["inputs", "configurations"], "all short character sequences over every encoding-relevant class, for each combination of unit encoding, archive encoding, byte-order mark, output encoding and line ending",
  "Tests pick a handful of strings in one or two encodings; which setting wins and what happens to each class of character is a product of independent settings.",
  ["src/parser/UTF8CharBuffer.cpp", "src/libsrcml/srcml_unit.cpp", "src/libsrcml/srcml_archive.cpp"],
  [("encoding selection and iconv conversion", "src/parser/UTF8CharBuffer.cpp"), ("output encoder and eol filter", "src/libsrcml/srcml_unit.cpp srcml_unit_unparse_*")])

p("P06", "An archive read back is the archive that was written",
  "Whatever attributes, namespaces, macros, processing instruction and units an archive was given, closing it and opening the result, from memory, file, stream, descriptor or callbacks, yields the same archive metadata and the same units, in order, with the same attributes, hash and source. Copying every unit read to a new archive with the same settings gives an equivalent archive.",
  ["histories", "configurations"], "all combinations of archive attributes, options and unit attributes over values with special characters, and all short unit sequences",
  "Tests cover one attribute at a time with plain values and mostly one unit.",
  ["src/libsrcml/srcml_archive.cpp", "src/libsrcml/srcml_translator.cpp", "src/parser/srcMLOutput.cpp", "src/libsrcml/srcml_sax2_reader.cpp", "src/libsrcml/srcml_reader_handler.hpp"],
  [("archive and unit start tags", "src/parser/srcMLOutput.cpp, src/libsrcml/srcml_translator.cpp"), ("attributes collected at the root and at each unit", "src/libsrcml/srcml_reader_handler.hpp")])

p("P07", "Reading an archive gives the same units under every thread schedule",
  "However the thread that parses the archive and the thread that asks for units are scheduled, opening, reading, skipping and closing an archive at any point terminates and yields exactly the units of the archive, in order and complete. No schedule deadlocks, loses a wake-up or makes the two threads use a unit at the same time.",
  ["schedules", "histories"], "all interleavings at synchronisation points, up to a preemption bound, of the reader with every sequence of read, skip and early-close calls on solitary, multi-unit and empty archives, and on documents that are not srcML or end early",
  "A test run sees one schedule per call; a lost wake-up or an early notification needs a preemption at one particular instruction.",
  ["src/libsrcml/srcml_sax2_reader.cpp", "src/libsrcml/srcml_reader_handler.hpp"],
  [("turn-taking with a mutex and a condition variable", "src/libsrcml/srcml_reader_handler.hpp wait/resume/stop/done"), ("reader thread start and join", "src/libsrcml/srcml_sax2_reader.cpp")],
  ["srcml_archive_read_unit", "srcml_archive_skip_unit", "srcml_archive_close"])

p("P08", "Archives in use at the same time do not affect each other",
  "When several archives are created, opened, read, written, configured, transformed and closed in any interleaved order, each call returns what it would return if its archive were the only one. This holds for archives being read, archives being written, units moved between them, and the program-wide default archive.",
  ["histories"], "all interleavings of the call sequences of two and three archives (readers, writers and parsers)",
  "Tests finish with one archive before they touch the next, so shared static state is never disturbed.",
  ["src/libsrcml/sax2_srcsax_handler.cpp", "src/libsrcml/srcml_archive.cpp", "src/libsrcml/libsrcml.cpp", "src/parser/srcMLOutput.cpp"],
  [("all reading state is in a per-reader context", "src/libsrcml/srcsax.hpp"), ("per-archive translator and namespaces", "src/libsrcml/srcml_types.hpp")])

p("P09", "Wrong calls return the documented error and change nothing",
  "Every library function called with a null or invalid argument, or on an archive or unit in a state that does not allow it (not open, open for the other direction, already closed, no content), returns the documented error status or empty value and does not crash. Afterwards the archive and unit behave as if the call had not been made. A source that cannot be read, or is not valid in its encoding, is an error that leaves the unit as it was; an archive that was closed can be opened again and is like new.",
  ["histories", "inputs"], "all call sequences up to a length over the archive and unit life cycle, with each argument valid, empty or null",
  "Tests try single wrong calls in one state each.",
  ["src/libsrcml/srcml_archive.cpp", "src/libsrcml/srcml_unit.cpp", "src/libsrcml/libsrcml.cpp", "src/libsrcml/srcml_transform.cpp"],
  [("argument and mode guards at the start of each function", "src/libsrcml/srcml_archive.cpp, src/libsrcml/srcml_unit.cpp")])

p("P10", "Archive and unit settings behave like independent variables",
  "After any sequence of set, enable, disable, register, clear and clone calls, every getter of an archive, a unit or the program-wide defaults returns the value last set through it, or the documented default. A clone starts equal and from then on changes to either do not show in the other.",
  ["histories"], "all sequences up to a length of setter, option, namespace, macro and clone calls, compared after every step with a reference model",
  "Tests set one value and read it back; interference between settings needs particular successions.",
  ["src/libsrcml/srcml_archive.cpp", "src/libsrcml/srcml_unit.cpp", "src/libsrcml/libsrcml.cpp", "src/libsrcml/srcmlns.cpp"],
  [("fields of srcml_archive and srcml_unit", "src/libsrcml/srcml_types.hpp"), ("namespace container", "src/libsrcml/srcmlns.cpp")])

p("P11", "File-name extensions map to languages as registered, last one wins",
  "The language used for a file is the one stated on the unit, else the one stated on the archive, else the one registered last for the file name's extension (ignoring a compression suffix), else none, in which case parsing is refused. Every language name of the published list is accepted, every other name is refused, and registrations on one archive affect no other.",
  ["histories", "inputs"], "all sequences of registrations up to a length, followed by queries for every file-name shape, against a reference model",
  "Tests register an extension and look it up once; overriding, several dots, compression suffixes, empty parts and letter case multiply.",
  ["src/libsrcml/language_extension_registry.cpp", "src/parser/Language.cpp", "src/libsrcml/srcml_unit.cpp"],
  [("registry searched from the end", "src/libsrcml/language_extension_registry.cpp")])

p("P12", "Position attributes give the exact place of each element in the source",
  "With position marking on, each element's start and end attributes are the line and column of its first and last character in the source, leaving out white space, comments and preprocessor directives at its edges, with columns counted in bytes and with the tab size in force. The option changes nothing else in the markup.",
  ["inputs", "configurations"], "all token sequences up to a length with tabs, multi-byte characters and all line endings, for all tab sizes of a set",
  "Tests check positions in a few snippets; the end positions come from a look-back over skipped tokens that depends on what precedes and follows each element.",
  ["src/parser/srcMLOutput.cpp", "src/parser/StreamMLParser.hpp", "src/parser/TextLexer.g", "src/parser/srcMLParser.g"],
  [("token line/column and deferred end position", "src/parser/StreamMLParser.hpp, src/parser/srcMLOutput.cpp")])

p("P13", "XPath queries select what standard XPath evaluation selects",
  "Applying an XPath expression to a unit yields, in document order, exactly the nodes or the value that XPath 1.0 evaluation of that expression on the unit's markup gives, and the unit itself is unchanged. Element marking and attribute adding mark exactly those nodes and nothing else.",
  ["inputs", "programs"], "all expressions of a grammar of axes, node tests and predicates up to a size, on several units, alone and with element or attribute marking",
  "Tests run single expressions; result assembly depends on node kind, nesting and the number of results.",
  ["src/libsrcml/xpathTransformation.cpp", "src/libsrcml/srcml_transform.cpp"],
  [("results wrapped or annotated in place", "src/libsrcml/xpathTransformation.cpp")])

p("P14", "Transformation pipelines compose in order and leave the input alone",
  "Applying a list of appended transformations equals applying each of them, in the order appended, to the results of the one before; clearing the list restores a plain copy. XSLT and RelaxNG steps give what standard processing of that program on the unit's markup gives, and a program that fails to load is refused without side effects.",
  ["histories", "programs"], "all sequences up to a length of XPath, XSLT, RelaxNG, parameter and clear operations on several units, each applied repeatedly",
  "Tests apply one or two transformations to one unit.",
  ["src/libsrcml/srcml_transform.cpp", "src/libsrcml/Transformation.hpp", "src/libsrcml/xsltTransformation.cpp", "src/libsrcml/relaxngTransformation.cpp"],
  [("results of each step feed the next", "src/libsrcml/srcml_transform.cpp srcml_unit_apply_transforms")])

p("P15", "Extracting a srcDiff revision yields exactly that version",
  "For a difference document, selecting a revision gives the markup and source of that version alone: common parts, plus the parts only in it, without the parts only in the other and without difference markup. Both revisions extracted from a document built from two versions are those versions.",
  ["inputs"], "all documents of a bounded size over common, deleted, inserted and nested difference regions, with difference attributes on units and elements",
  "Tests extract from a couple of documents; nesting and adjacency of regions, and text around them, multiply.",
  ["src/libsrcml/unit_utilities.cpp", "src/libsrcml/srcml_unit.cpp", "src/libsrcml/srcml_archive.cpp"],
  [("revision filter", "src/libsrcml/unit_utilities.cpp extract_revision")])

p("P16", "All views of a unit agree with each other",
  "The outer markup, the unit without its tag, the archive form of the unit, and the text obtained by unparsing describe the same content for every unit, whether it was parsed, read from an archive, written by elements, copied or produced by a transformation, and whichever view is asked for first or again. The views are stable: asking for one never changes another.",
  ["histories", "inputs"], "all sequences of view requests up to a length on units of every origin and content shape (empty, only white space, special characters, nested)",
  "Tests ask for one view of a unit once.",
  ["src/libsrcml/srcml_unit.cpp", "src/libsrcml/unit_utilities.cpp", "src/libsrcml/srcml_sax2_reader.cpp"],
  [("offsets into the stored markup", "src/libsrcml/srcml_unit.cpp srcml_unit_get_srcml*"), ("view caches", "src/libsrcml/srcml_types.hpp")])

p("P17", "Writing succeeds completely on every sink or reports an error",
  "Unparsed source and archives are byte-for-byte the same whether written to memory, a file, a FILE stream, a file descriptor or through write callbacks. If the sink rejects or shortens any write or cannot be opened, the call or the closing of the archive reports an error instead of success.",
  ["fault_sequences", "configurations"], "every sink kind times every content and option of a set, and every single fault position in the sequence of write calls",
  "Tests write to healthy sinks, mostly memory.",
  ["src/libsrcml/srcml_unit.cpp", "src/libsrcml/srcml_archive.cpp", "src/libsrcml/srcml_translator.cpp", "src/parser/srcMLOutput.cpp"],
  [("one output buffer per sink kind", "src/libsrcml/srcml_archive.cpp srcml_archive_write_open_*, src/libsrcml/srcml_unit.cpp srcml_unit_unparse_*")])

p("P18", "Hand-written units are exactly the elements that were written",
  "A unit built element by element contains exactly the written elements, attributes, namespaces and text, properly escaped and closed; calls that would unbalance it (an end without a start, content outside the unit, ending with elements open) are refused or completed so that the archive stays well-formed. Reading the unit back gives the written structure.",
  ["histories"], "all sequences up to a length of start-unit, start-element, attribute, namespace, string, character-data, end-element and end-unit calls",
  "Tests follow one correct protocol sequence.",
  ["src/libsrcml/srcml_archive.cpp", "src/libsrcml/srcml_unit.cpp", "src/libsrcml/srcml_translator.cpp"],
  [("element writing through an XML writer", "src/libsrcml/srcml_translator.cpp add_start_element ...")])

p("P19", "Damaged archives are reported, never a crash or a hang",
  "Opening and reading an archive that was cut at any byte, or had any byte changed, always ends: it yields some of the archive's leading units, unchanged when the damage lies after them, then an error status or the end. No damage makes the library crash or wait forever.",
  ["fault_sequences", "inputs"], "every truncation length and every single-byte replacement of a set, of several archives, read by every way of reading",
  "Tests read intact archives; the interplay of a parse error with the reader thread depends on where the damage is.",
  ["src/libsrcml/srcml_sax2_reader.cpp", "src/libsrcml/sax2_srcsax_handler.cpp", "src/libsrcml/srcsax_controller.cpp", "src/libsrcml/srcml_reader_handler.hpp"],
  [("errors unwind the reader thread", "src/libsrcml/srcml_sax2_reader.cpp, src/libsrcml/srcml_reader_handler.hpp")])

p("P20", "The command-line tool writes units in input order under every schedule",
  "However its worker threads are scheduled, the tool writes each successfully handled input exactly once and, in ordered mode, in the order of the inputs; failed inputs are reported, do not block the others and are not written. The run always terminates, with every queued unit written before it ends.",
  ["schedules", "histories"], "all interleavings up to a preemption bound of the parsing workers, the queueing thread and the writing thread, for all short request sequences mixing good and failing inputs",
  "Client tests run whole commands where each worker finishes too quickly to be overtaken.",
  ["src/client/WriteQueue.cpp", "src/client/WriteQueue.hpp", "src/client/ParseQueue.hpp", "src/client/srcml_consume.cpp"],
  [("priority queue on input position and a condition variable", "src/client/WriteQueue.cpp")])

p("P21", "Extracting to a directory writes only below that directory",
  "Writing the units of an archive as files under a destination directory creates each file at the destination joined with the unit's file name and never outside the destination, whatever the file names in the archive are. A unit without a usable name is reported and skipped, and the others are still written.",
  ["inputs"], "all file names composed of a set of path parts (names, empty, dot, dot-dot, absolute, trailing slash) up to a length, times destination spellings",
  "Tests extract archives made by the tool itself with plain relative names.",
  ["src/client/src_output_filesystem.cpp", "src/client/mkDir.cpp"],
  [("prefixing of the output directory", "src/client/src_output_filesystem.cpp")])

p("P22", "Text given on the command line is decoded exactly",
  "The source text passed as a command-line argument is parsed as the text it denotes: documented escape sequences stand for their character, everything else stands for itself, for any text. Malformed or incomplete escapes never read beyond the argument.",
  ["inputs"], "all strings up to a length over the characters significant to the escape syntax",
  "Tests use a few well-formed escapes.",
  ["src/client/src_input_text.cpp"],
  [("escape decoding loop", "src/client/src_input_text.cpp")])

p("P23", "Metadata templates print exactly the requested fields",
  "The metadata and listing output of the tool is the template with each field code replaced by that field of the archive or unit, for any template and any archive, including missing fields, unknown codes and archives without units. Nothing is read outside the template.",
  ["inputs", "configurations"], "all templates up to a length over the field codes and separators, for several archives and unit numbers",
  "Tests print fixed templates.",
  ["src/client/srcml_pretty.cpp", "src/client/srcml_display_metadata.cpp"],
  [("template splitting and substitution", "src/client/srcml_pretty.cpp")])

p("P24", "The tool recognises what each input argument is",
  "Every input argument is classified by its protocol, extension, compression and archive suffixes the same way regardless of the other arguments, and the resource name and protocol recovered from it are the argument's own parts.",
  ["inputs"], "all arguments built from protocol, directory, base name and suffix parts up to a length, against a reference model",
  "Tests name a handful of files.",
  ["src/client/srcml_input_src.cpp", "src/client/src_prefix.cpp", "src/client/input_file.cpp"],
  [("prefix split and extension peeling", "src/client/src_prefix.cpp, src/client/srcml_input_src.cpp")])

p("P25", "Library calls release everything they acquire",
  "After the archives, units, transformation results and buffers of any sequence of calls are released, no file descriptor, thread or memory acquired by those calls remains, also when calls failed on the way.",
  ["histories", "fault_sequences"], "all short call sequences including failing opens, failing parses, early closes and unfinished units",
  "Tests exit right after use and never look.",
  ["src/libsrcml/srcml_archive.cpp", "src/libsrcml/srcml_unit.cpp", "src/parser/UTF8CharBuffer.cpp", "src/libsrcml/srcml_sax2_reader.cpp"],
  [("ownership in free and close functions", "src/libsrcml/srcml_archive.cpp, src/libsrcml/srcml_unit.cpp")])

p("P26", "The one-call conversion equals the archive interface",
  "Converting with the single convenience call, in either direction and between any file kinds, gives the same result as the corresponding archive and unit calls with the program-wide settings, and reports an error, with a message, whenever they would fail.",
  ["configurations", "inputs"], "all combinations of input kind, output kind, program-wide language, encoding, attributes and options of a set",
  "Tests convert a few files with default settings.",
  ["src/libsrcml/libsrcml.cpp"],
  [("dispatch on the file kinds", "src/libsrcml/libsrcml.cpp srcml()")])

p("P27", "The open-file limiter never blocks forever nor exceeds its limit",
  "With any number of threads opening and closing files through the tool's limiter, the number held open never exceeds the limit and every waiting thread proceeds once another closes. No count is lost.",
  ["schedules"], "all interleavings up to a preemption bound of several threads that open and close around the limit",
  "Tests never have enough files open at once.",
  ["src/client/OpenFileLimiter.cpp"],
  [("counter with mutex and condition", "src/client/OpenFileLimiter.cpp")])
p("P28", "Every line of a file list becomes one input",
  "The inputs taken from a file list are its non-blank lines that are not comments, without surrounding white space, each once and in order, whatever the length of the list or of its lines and whether or not the last line is ended. An input that cannot be handled stops the list and is reported.",
  ["inputs"], "all short list contents over the significant characters, and lists whose size is around the size of the blocks they are read in",
  "Tests use a few short, well-formed lists.",
  ["src/client/src_input_filelist.cpp"], [("reading and splitting of the list", "src/client/src_input_filelist.cpp")])

p("P29", "A document means the same however its XML is spelled",
  "What is read from a srcML document, and what is written when its units are copied, depends only on its XML content: not on how characters are escaped or wrapped in CDATA, on quotes and white space in tags, on the encoding and declaration, on comments and instructions around, on the length of any construct, or on the parts in which it is read. Reading or skipping one unit does not change the next.",
  ["inputs", "histories"], "all short sequences of spellings of content, tags, declarations and text between units, and constructs of sizes around the parts that are read, through every input channel",
  "Tests read documents the library itself wrote, all spelled alike and short.",
  ["src/libsrcml/sax2_srcsax_handler.cpp", "src/libsrcml/srcml_sax2_reader.cpp", "src/libsrcml/srcml_reader_handler.hpp"],
  [("raw text taken from the parser's input", "src/libsrcml/sax2_srcsax_handler.cpp")])

p("P30", "Files of archives, compressed files and directories are taken exactly, and back",
  "When the tool is given an archive, a compressed file or a directory, each source file in it becomes exactly one input, in order, with its own name, its own bytes, its language and the attributes asked for; files without a language and, in directories, hidden files are left out. A source archive made from units has exactly one file for each of them, with its name and text. What cannot be read or written is reported, and part of a file is never taken for all of it.",
  ["inputs", "damage"], "all sequences of entries in all formats, all sets of files in a directory, every cut and changed byte of an archive, all sequences of units",
  "Tests of the tool use a few well-formed archives with plain names.",
  ["src/client/src_input_libarchive.cpp", "src/client/src_input_filesystem.cpp", "src/client/src_output_libarchive.cpp", "src/client/srcml_input_src.cpp", "src/client/src_archive.cpp"],
  [("the entries of an archive", "src/client/src_input_libarchive.cpp")])

p("P31", "The tool delivers what it is asked for, whole, from every input to every output",
  "For every way of giving source or srcML to the tool (files, directories, archives, compressed files, lists, text on the command line, standard input), every combination of options and every destination, each source file becomes exactly one unit, in order, with its name, language, attributes and text; source that is taken out is the source that went in, in the file, directory, archive or stream asked for and nowhere else; queries and transformations use the values given. If a part cannot be read or written the tool says so, still delivers the others, and never hangs. None of it depends on which thread is fast.",
  ["inputs", "options", "schedules", "faults"], "all combinations of inputs, forms, options and destinations in the stated bounds, every system call at which a thread can be held up",
  "Tests of the tool run single fixed command lines; what breaks is in combinations of input form, option and destination and in which thread is late.",
  ["src/client/srcml_cli.cpp", "src/client/srcml_execute.cpp", "src/client/create_srcml.cpp", "src/client/create_src.cpp", "src/client/src_output_filesystem.cpp", "src/client/src_input_filesystem.cpp", "src/client/transform_srcml.cpp", "src/client/srcml_pipe.cpp"],
  [("the steps of a request", "src/client/srcml_execute.cpp"), ("source out of srcML", "src/client/create_src.cpp"), ("the request on the command line", "src/client/srcml_cli.cpp")])

p("P32", "A download is read whole, or reported, and never stops the tool",
  "A source file, archive, compressed file, srcML or list of files that is given as a url becomes exactly the inputs that it would be as a local file. When a download cannot start, is refused, is cut off, or fails at its end, the tool says so and fails, nothing that arrived only in part is taken for the whole, the other inputs are not affected, and whatever thread is fast or slow, and however much of the data is needed, the tool ends.",
  ["schedules", "faults", "inputs"], "all thread schedules up to the preemption bound, all courses of the downloads, all sequences of inputs in the stated bounds",
  "There are no tests of downloads, which need a network and a particular timing.",
  ["src/client/input_curl.cpp", "src/client/srcml_pipe.cpp", "src/client/create_srcml.cpp", "src/client/src_input_libarchive.cpp", "src/client/decompress_srcml.cpp", "src/client/unarchive_srcml.cpp", "src/client/src_input_filelist.cpp"],
  [("waiting for a download", "src/client/input_curl.cpp")])

p("P33", "The parser test finds exactly the units whose markup the parser does not give",
  "For srcML archives of any units the parser test of the tool lists every unit, by its file and number, as right when parsing its source text gives the markup that is stored, and as wrong otherwise. Each wrong unit is reported once, with what is stored and what the parser gives, of which only whole lines that are the same are left out, and the summary and the counts, in all and by language, are those of the units. No units, alike or not, short or long, stop it, whatever the number of files and of threads.",
  ["inputs"], "all sequences of units and files in the stated bounds, all the ways of altering markup that are listed",
  "The parser test is what the tests of the parser are run with; it has no tests of its own, and how differences are cut out depends on where the two texts begin and end to differ.",
  ["src/client/ParserTest.cpp", "src/client/srcml_input_srcml.cpp", "src/client/srcml_write.cpp", "src/client/src_input_filesystem.cpp"],
  [("the comparison and the report", "src/client/ParserTest.cpp")])

p("P34", "Source code is marked up by the grammar of its language",
  "For source code that is derived from the grammar of C, C++, Java or C#, the markup is that derivation: every statement, expression, declaration, type, parameter, member, section and preprocessor directive is an element of its kind around exactly its own tokens, nested as the derivation is, however the constructs are nested in each other. In particular an else belongs to the if that the language says, a statement without a block is a block of its own, operators, calls, indexes, casts and ternaries have their own operands, and members belong to the class and the section that they are declared in. White space between the tokens does not change it.",
  ["inputs"], "all derivations with up to the stated number of alternatives from the stated grammar",
  "The tests of the parser are samples of each construct; how constructs interact when they are nested in each other is what parsers get wrong, and the number of ways is beyond samples.",
  ["src/parser/srcMLParser.g", "src/parser/ModeStack.hpp", "src/parser/KeywordLexer.g", "src/parser/OperatorLexer.g", "src/libsrcml/srcMLOutput.cpp"],
  [("statements and their ends", "src/parser/srcMLParser.g"), ("the names of the elements", "src/libsrcml/srcMLOutput.cpp")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
