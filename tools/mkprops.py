#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/mkprops.py). One entry per property."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("P01", "The layout of OGDL text determines the tree",
  "For every well-formed OGDL document, parsing yields exactly the tree its layout describes: indentation gives parents (a line is a child of the nearest earlier line that is indented less), further words on a line nest one inside the other, and the words keep their exact content and order whether written bare, in single, double or back quotes (with \\\" \\' and \\\\ as escapes in single and double quotes, and continuation lines of a quoted string stripped of the indentation of its line), or as an indented block (lines joined by newlines, without their leading white space). "
  "Blank lines, comments ('#' followed by a space or tab, up to the end of the line), trailing white space, the amount of indentation used per level, spaces versus tabs (used consistently), blank lines after the last line of a block, and whether lines end in LF, CRLF or (outside blocks) a lone CR (quoted strings keep their bytes) never change the tree. "
  "The domain is documents whose first line is not indented more than any other, with no control characters other than tab and line ends, no words beginning with a comma, no blank lines inside blocks, and continuation lines of quoted strings indented at least as much as the line they continue.",
  ["inputs", "configurations"], "all well-formed documents: all trees, and all ways of laying each one out",
  "the parser tests pin 14 short documents; nesting depth, dedents, the mixing of quoting, blocks, comments and indentation, and sizes beyond one screen are unbounded",
  ["block.go", "lexer.go", "parser.go", "event.go"],
  [("line/tree recursion over indentation", "block.go"), ("scalar productions: quoted, block, string, comment", "lexer.go"), ("levels to tree", "event.go")],
  ["FromString", "FromBytes", "FromReader", "FromFile"],
  [("indentation stack", "the recursion depth of the tree production together with the event level", "block.go")])

p("P02", "Parsing does not depend on how or where the bytes arrive",
  "The tree obtained from an OGDL document is a function of its bytes only: reading it through any reader (one byte at a time, arbitrary chunk sizes, empty reads in between, data delivered together with the end-of-file) or from memory or a file gives the same tree, and so does reading a document with any amount of comment lines put before it; a reader that fails, or that stops delivering, counts as the end of the document at that byte. "
  "The same holds for binary OGDL read from a reader, and for long templates, paths and expressions, whose elements mean the same at any offset, including words and multi-byte characters that straddle internal buffer boundaries.",
  ["inputs", "schedules"], "all documents, all splittings of their bytes into reads, all offsets of a construct relative to the start of the stream",
  "tests only parse short in-memory strings, which fit in the first buffer fill; no test uses a reader that returns short reads or a document above 4096 bytes",
  ["lexer.go", "parser.go", "binary.go", "template.go", "flow.go"],
  [("buffer fill keeping half for unread", "lexer.go: fill"), ("byte/rune cursor and unread", "lexer.go: Byte, Rune, UnreadByte, UnreadRune")],
  ["FromReader", "FromBytes", "FromBinaryReader", "NewTemplate", "NewPath"],
  [("read buffer", "window over the stream with a read position and an end mark", "lexer.go: Lexer")])

p("P03", "Text written by the library reads back as the same tree",
  "For every tree whose top-level nodes are single plain words (non-empty, no white space, quotes, commas, parentheses or control characters, not a lone backslash), and whose deeper nodes hold arbitrary non-empty text (any Unicode, spaces, quotes, backslashes, newlines, tabs; no other control characters), parsing the text form of the tree gives a tree equal to it; numbers and booleans are written as the text of their value, and the form that shows the top node too (Show) reads back as the tree with the top node. "
  "Nodes with empty content are transparent: they are not written and their subnodes take their place. "
  "Writing is deterministic, and the text of a node that holds a single scalar subnode with no newline is that scalar's content, verbatim.",
  ["inputs"], "all trees within the stated domain",
  "the tests compare Text() on a handful of tiny trees and never feed the output back to the parser; the escaping rules must work for every combination of quotes, backslashes, newlines and depth",
  ["graph.go", "lexer.go", "block.go"],
  [("text emitter and quoting", "graph.go: Text, Show, _text"), ("quoted-string production", "lexer.go: Quoted")],
  ["Graph.Text", "Graph.Show", "FromString"])

p("P04", "Binary form round-trips and follows the published format",
  "Encoding a tree in binary OGDL and decoding it gives back a tree with the same structure and byte-identical node contents, for every shape, depth, number of nodes, and content, including contents with NUL bytes, arbitrary binary data and very large nodes; nodes with empty content are skipped and their subnodes take their place. "
  "The bytes produced follow the documented grammar (header, variable-length level numbers, NUL-terminated text nodes, length-prefixed binary nodes, final zero), and every stream that follows the grammar, including binary nodes split in several pieces and empty text nodes, decodes to the tree it describes. What encoding and decoding return belongs to the caller: later calls do not change it, and changing it changes no later result.",
  ["inputs"], "all trees and all grammatical binary streams",
  "tests encode a two-node tree and decode two hand-written streams; multi-byte levels (depth above 127), binary nodes and their continuation, and large contents are not exercised",
  ["binary.go", "event.go"],
  [("encoder", "binary.go: Binary, bin, newVarInt"), ("decoder", "binary.go: parse, line, varInt"), ("levels to tree", "event.go: Tree")],
  ["Graph.Binary", "FromBinary", "FromBinaryReader", "FromBinaryBufioReader", "FromBinaryFile"])

p("P05", "Any byte string is safe as text, path, expression, template or data",
  "Whatever bytes they are given (up to a megabyte), parsing OGDL text (plain and typed), paths, expressions, templates, JSON and XML, then evaluating, processing, printing and looking up in what was parsed, always terminates without a crash, in time and memory proportionate to the input (apart from what a template's own loops and assignments multiply, the length of the text built by long chains of +, and the square of the depth when printing with indentation). "
  "This includes malformed expressions and templates, division by zero, lookups and sizes out of range, unterminated quotes, blocks and brackets, mixed indentation, control characters and invalid UTF-8.",
  ["inputs"], "all byte strings, for every text-consuming entry point and the operations on its result",
  "no test feeds malformed input; crashes and hangs depend on particular malformed combinations that no finite list of examples anticipates",
  ["lexer.go", "block.go", "flow.go", "expression.go", "eval.go", "template.go", "graph.go", "gettypes.go", "encoding.go", "io/gxml/xml.go", "event.go", "schema.go", "html.go"],
  [("end-of-stream handling in each production", "lexer.go"), ("syntax-tree construction for incomplete expressions", "expression.go"), ("evaluation of missing operands", "eval.go")],
  ["FromBytes", "FromStringTypes", "NewPath", "NewExpression", "NewTemplate", "FromJSON", "gxml.FromXML", "Eval", "Process", "Get"])

p("P06", "Any byte string is safe as a binary OGDL stream",
  "Decoding arbitrary, corrupted or truncated bytes as binary OGDL always terminates without a crash, and uses time and memory proportionate to the number of bytes supplied, not to numbers written in them. "
  "Every node that lies entirely before a truncation point is decoded as in the complete stream, and bytes without the header give no graph.",
  ["inputs", "crash_points"], "all byte strings, and all truncation points and single-byte corruptions of valid streams",
  "tests decode only complete valid streams; a hang or blow-up needs a stream cut or altered at a particular place",
  ["binary.go", "event.go"],
  [("end-of-stream detection in the decoder", "binary.go: read, line, varInt"), ("level array sizing", "event.go: Tree")],
  ["FromBinary", "FromBinaryReader", "FromBinaryBufioReader"])

p("P07", "A log returns what was appended, where it was said to be",
  "For every sequence of objects appended to a log (as graphs or in binary form, synced or not, across closing and reopening), each append returns the position at which reading gives back an equal graph and, in binary form, the identical bytes; positions are strictly increasing and reading from position 0 and following the returned next positions visits all objects exactly once, in order, ending with an explicit end indication. "
  "Interleaved reads never disturb appends, an in-memory log holds the same bytes as a file log, and what an append that returned has written is visible to a log opened afterwards on the same file (two logs open on one file may append in turns).",
  ["histories", "inputs"], "all histories of append, read, sync, close and reopen, over all objects",
  "the single log test appends one object three times; ordering, reopening, interleaved reads and objects of varying size and content form an unbounded space of histories",
  ["log.go", "binary.go"],
  [("append at end of file", "log.go: Add, AddBinary"), ("positioned read", "log.go: Get, GetBinary")],
  ["Log.Add", "Log.AddBinary", "Log.Get", "Log.GetBinary", "Log.Bytes", "the file"],
  [("file offset", "shared between reads and appends", "log.go: Log.f")])

p("P08", "A log cut short loses at most the record that was cut",
  "If a log file is cut at any byte (as by a crash during an append), then every object that lies entirely before the cut is still returned unchanged by following positions from 0, and reading at or after the cut terminates, does not crash, and never returns an object that differs in its complete nodes from what was appended. "
  "A log with autosync on has its bytes handed to the operating system and flushed before an append returns; with autosync off, an explicit sync does the same for everything appended before.",
  ["crash_points", "histories"], "all cut points of all log files; every append of a synced log",
  "no test reads a damaged log; each cut point of each record is a different case",
  ["log.go", "binary.go"],
  [("self-delimiting records", "binary.go: line"), ("write then sync before returning", "log.go: Add, AddBinary")],
  ["Log.Get", "Log.GetBinary", "system calls of the appending process"])

p("P09", "A path finds the node a step-by-step walk finds",
  "Looking up a path gives the node reached by walking it step by step: a name (bare, Unicode or quoted) selects the first subnode with that content, [N] the N-th subnode counting from 0, and {N} directly after a name the N-th among the subnodes with that name ({} all of them merged), N being a number or an expression evaluated in the graph that the path is looked up in; chained lookups by name equal a lookup of the dotted path, and evaluating the path finds the same content. "
  "When there is no such node the result is a nil graph (or an empty one for a selector), and typed lookups report an error or the given default. "
  "Names starting with '!' or '_' are outside the domain.",
  ["inputs"], "all trees and all paths made of names, indexes and selectors",
  "tests look up about fifteen fixed paths in trees of at most five nodes",
  ["eval.go", "flow.go", "graph.go", "gettypes.go"],
  [("path parser", "flow.go: Path, Index, Selector"), ("path walk", "eval.go: getPath, evalPath"), ("name match", "graph.go: Node")],
  ["Graph.Get", "Graph.GetString", "Graph.GetInt64", "Graph.GetFloat64", "Graph.GetBool", "Graph.GetBytes", "Graph.Eval"])

p("P10", "Setting a path makes that path, and only that path, read back the value",
  "After setting a path of names (optionally ending in, or containing, non-negative indexes, given as numbers or as expressions evaluated in the graph being set) to a scalar, looking the path up yields that value, and every node not on the path keeps its content, order and subnodes; setting follows the first occurrence of each name and creates the names that are missing at the end of their parent. "
  "Setting an index beyond the current number of subnodes extends the list, and leaves a graph on which every other operation works; setting a path of names to a graph stores its subnodes. Assignment in an expression has the same effect, and compound assignments (+= -= *= /= %=) store the result of the operation on the old numeric value (a path that does not exist counts as zero for += -= and *=).",
  ["inputs", "histories"], "all trees, all such paths, all sequences of sets",
  "three examples set one path each and look only at the printed result",
  ["graph.go", "eval.go", "flow.go"],
  [("set along a path", "graph.go: Set, set"), ("assignment operators", "eval.go: assign")],
  ["Graph.Set", "Graph.Eval", "Graph.Get"])

p("P11", "Graph editing operations do what a simple list-tree does",
  "Any sequence of the editing operations (add, add nodes, delete by content or by index, clear, create, node-or-new, node-set, copy, clone, substitute, merge, or taking the subnodes that a selector 'name{}' finds as a new graph) on a number of graphs, which may come to share nodes but never lists of subnodes, leaves the graph equal to what the same sequence leaves in a plain ordered tree with the documented meaning of each operation, and returns the node documented (content is of scalar types; a merged source has distinct sibling names and is not used afterwards). "
  "Merging replaces the content of the nodes that exist in the receiver by that of the source and appends those that do not exist.",
  ["histories"], "all sequences of editing operations over all graphs",
  "tests apply single operations to fresh graphs; interaction between operations (delete while iterating, deletion of repeated nodes, aliasing of child lists) needs sequences",
  ["graph.go"],
  [("child list manipulation", "graph.go: Add, AddNodes, Delete, DeleteAt, Clear, Create, NodeOrNew, NodeSet, Copy, Clone, Substitute, Merge")],
  ["the public methods and fields of Graph"])

p("P12", "Clones and copies are equal and independent; equality is structural",
  "A clone, or a copy into an empty graph, is equal to the original at every node and shares no node with it, so no later change to one is visible in the other. A copy into a graph that has subnodes appends what the other had before the copy, also if one is part of the other or both are the same. "
  "Equality is reflexive, symmetric, and true exactly when both trees have the same shape and the same content (type and value) at every position; a nil graph is equal only to a nil graph.",
  ["inputs", "histories"], "all graphs, all later sequences of changes to either side, all single-point differences",
  "one test copies one three-node graph; independence and the detection of every single difference quantify over all positions and histories",
  ["graph.go"],
  [("recursive copy", "graph.go: Clone, Copy"), ("recursive comparison", "graph.go: Equals")],
  ["Graph.Clone", "Graph.Copy", "Graph.Equals"])

p("P13", "Expressions evaluate as ordinary arithmetic, comparison and logic",
  "For every well-formed expression over numbers, quoted strings, paths, parentheses, unary - and !, the binary operators + - * / % == != < <= > >= && ||, with or without spaces, the value is the one given by the usual precedence (|| lowest, then &&, comparisons, + -, and * / % highest), left associativity and parentheses. "
  "Operations on two integers are 64-bit integer operations, an operation with a float operand is a float64 operation, + on two strings concatenates, % works on the integer parts, comparisons convert to the type of the left operand, && || and ! work on booleans (an integer counts as true unless it is zero, and the text of a boolean as that boolean), and the same expression means the same inside arguments, indexes, groups and templates. A parsed expression can be evaluated any number of times and with any contexts, each time as if it were the first.",
  ["programs", "inputs"], "all well-formed expressions and all contexts giving values to their paths",
  "about thirty expressions with at most two operators are tested; the interaction of operators, nesting, signs and spacing is combinatorial",
  ["expression.go", "flow.go", "eval.go", "lexer.go", "gettypes.go"],
  [("expression parser", "flow.go: Expression, UnaryExpression"), ("precedence-based tree construction", "expression.go: _ast"), ("operations", "eval.go: evalBinary, calc, compare, logic")],
  ["NewExpression", "Graph.Eval", "Process"])

p("P14", "Templates produce exactly the text their source prescribes",
  "Processing a template yields, in order, its literal text unchanged and the text of each variable's value in the context (nothing for values that do not exist); $if/$elseif/$else/$end emit only the first branch whose condition holds, $for emits its body once per element in order with the loop variable bound to that element (also for lists of one element), $break ends the innermost loop, also from inside conditionals, $(expression) emits nothing but has its effect on the context, and these nest arbitrarily. "
  "Punctuation after a variable is literal text, and $\\ writes a dollar sign. "
  "Literal text without control characters is in the domain, except text chunks that consist of nothing but one of the reserved words starting with '!'. A parsed template can be processed any number of times, with any contexts, each time as if it were the first, and what it returned does not change afterwards.",
  ["programs", "inputs"], "all templates built from text, variables, expressions and nested directives, and all contexts",
  "a dozen fixed templates with at most one nesting level are tested",
  ["template.go", "eval.go", "flow.go", "gettypes.go"],
  [("template parser", "template.go: Template, Variable, Text"), ("nesting of directives", "template.go: flow"), ("interpreter", "template.go: process")],
  ["NewTemplate", "NewTemplateFromBytes", "Graph.Process"])

p("P15", "Functions and methods in the context are called with evaluated arguments",
  "A path or template variable that names a function stored in the context, or a method of a value stored there, calls it exactly once per evaluation, with its arguments evaluated in the context, in order and passed with their values, and yields what it returns (the first of several results). "
  "A function call with the wrong number or type of arguments, or a method call with arguments that cannot be converted, yields an error (nothing in a template), does not invoke the function, and never crashes; a method gets zero values for the arguments that are missing, and the node itself for a parameter that is a graph; an argument whose path names nothing is passed as the zero value, calling something that is no function or object yields nothing; the scalar of a node given for a parameter of another type is converted to it.",
  ["inputs", "programs"], "all argument lists and value types, all matching and non-matching signatures",
  "three tests call one function with one argument each; argument count, types, order and failure modes are open-ended",
  ["function.go", "eval.go", "flow.go"],
  [("reflection call", "function.go: function"), ("argument conversion", "function.go: convert"), ("argument list parser", "flow.go: ArgList, Args")],
  ["Graph.Eval", "Process", "the called function's own record of calls"])

p("P16", "Reading never changes a graph, a template or a parsed expression",
  "Looking up, evaluating expressions without assignment, printing, encoding in any format, comparing, cloning, searching, type accessors and schema checks leave the graph they are applied to unchanged, node for node, and give the same result when repeated. "
  "Processing a template changes at most the context it is given: the parsed template is unchanged and can be processed any number of times, with any contexts in any order, each time giving what a freshly parsed template gives; the same holds for a parsed path or expression evaluated repeatedly.",
  ["histories", "inputs"], "all graphs, all sequences of read operations, all orders of reuse",
  "tests use every graph and template once and look at the result only",
  ["graph.go", "eval.go", "template.go", "encoding.go", "gettypes.go", "html.go", "binary.go", "schema.go"],
  [("no writes in read paths", "eval.go, graph.go, encoding.go"), ("context kept apart from the template", "template.go: process")],
  ["a deep snapshot of every node before and after"])

p("P17", "Concurrent readers are safe and see what a single reader sees",
  "Any number of goroutines may at the same time read one shared graph (lookup, evaluation without assignment, printing, binary, JSON and HTML encoding, cloning, comparing, accessors, schema checks) and process one shared parsed template each with its own context, while others parse and build graphs of their own, without data races, each obtaining exactly the result obtained sequentially. "
  "Independent graphs, parsers, logs and templates share no state.",
  ["schedules"], "all interleavings of read operations on shared graphs and templates, and of operations on independent ones",
  "no test uses more than one goroutine",
  ["graph.go", "eval.go", "template.go", "encoding.go", "lexer.go", "event.go", "binary.go", "expression.go"],
  [("absence of package-level mutable state and of writes in read operations", "whole package")],
  ["race detector reports", "results compared with the sequential ones"])

p("P18", "Typed accessors convert exactly, and report what cannot be converted",
  "A value stored in a node is returned by the accessor of its type unchanged, and by the other accessors converted when its text or value is a number or boolean of that type; otherwise the default is returned if one was given, or the documented zero value (0, NaN, false, empty string), and typed lookups by path return an error. "
  "The scalar accessors normalise integers of every width to 64-bit integers, floats to 64-bit floats, and numeric or boolean text to the number or boolean it denotes, and leave other text as it is.",
  ["inputs"], "all values of all supported Go types and all strings, all defaults",
  "tests convert about ten typical values; boundary values, white space, signs, widths and non-numeric text are open-ended",
  ["gettypes.go"],
  [("conversions", "gettypes.go: _int64f, _float64f, _boolf, number, _string, _bytes")],
  ["Int64", "Float64", "Bool", "String", "Bytes", "Number", "Scalar", "ThisX variants", "GetX variants", "Strings", "StringCSV", "StringTxt"])

p("P19", "A missing node can be used like any other",
  "The result of a lookup that found nothing, a nil graph, and a graph with no content or no subnodes can be passed to every reading method and chained further without a crash, giving the default, the zero value, nil or an error as documented. "
  "Accessors with a default return that default, in particular for an index out of range; adding to a nil graph, changing, sorting or merging it does nothing.",
  ["inputs", "histories"], "all chains of reading methods after any failed lookup",
  "one test chains three calls after one failed lookup",
  ["graph.go", "gettypes.go", "eval.go", "html.go", "encoding.go", "binary.go"],
  [("nil checks on receivers", "graph.go, gettypes.go"), ("nil result for a missing path", "eval.go: getPath")],
  ["all exported reading methods of Graph"])

p("P20", "Typed parsing gives unquoted numbers and booleans their type",
  "Parsing with types yields the same tree shape as plain parsing; each unquoted word that is a decimal integer in the 64-bit range becomes that integer, any other decimal number the nearest float, true and false become booleans, and every other word, and everything in quotes or in a block, stays a string with the same content. A number or boolean written as text and read with types keeps its value. Words that only Go takes for a float (inf, nan, hexadecimal floats, digits with underscores) are outside the domain.",
  ["inputs"], "all documents, all words",
  "a single test parses three-token documents with types",
  ["block.go", "lexer.go", "parser.go", "event.go"],
  [("typed scalar production", "lexer.go: ScalarType")],
  ["FromStringTypes"])

p("P21", "JSON import keeps every value and is deterministic",
  "Importing a JSON document yields a graph with every object member under its key, every array element in order, and every string, number and boolean with its exact value (integers in the 64-bit range as integers, other numbers as floats), for any nesting, with arrays and nested objects represented by '_' nodes and nulls by absence. "
  "The same document always yields the same graph, and text that is not JSON yields an error and no graph; a graph imported earlier does not change when more is imported, or when the bytes it came from are overwritten.",
  ["inputs"], "all JSON documents",
  "no test imports JSON at all",
  ["encoding.go"],
  [("decoder with numbers kept as written", "encoding.go: FromJSON"), ("conversion", "encoding.go: toGraph")],
  ["FromJSON"])

p("P22", "JSON export is valid JSON and keeps every value",
  "For every graph with valid UTF-8 content, the JSON form is one syntactically valid JSON value in which, in order, every node's content appears as a key or value: leaves as numbers (exact), booleans or strings (exact), nodes named '_' as arrays, and other nodes with subnodes as object members; a graph that is a set of distinct names with one scalar each exports as the object mapping the names to those scalars. The bytes returned belong to the caller and do not change with later calls.",
  ["inputs"], "all graphs",
  "the two JSON tests print the result without checking it",
  ["encoding.go"],
  [("emitter", "encoding.go: JSON, json, writeString, writeValue")],
  ["Graph.JSON", "_json in paths"])

p("P23", "XML import keeps every element, attribute and text in order",
  "Importing an XML document yields, for every element in document order, a node with the element's local name (accents removed, '-' turned into '_'), holding first one '@name' node with the value for each attribute in order, and then its text pieces (trimmed, non-empty) and child elements in document order; comments, processing instructions and directives leave no trace, and later imports do not change what an earlier one returned. "
  "The simplification step only renames elements by their id or name attribute as documented and never loses or crashes on elements without them.",
  ["inputs"], "all well-formed XML documents",
  "no test imports XML",
  ["io/gxml/xml.go", "cmd/xml2ogdl/main.go"],
  [("token loop with element stack", "io/gxml/xml.go: FromXML"), ("same, in the tool", "cmd/xml2ogdl/main.go: xml2graph")],
  ["gxml.FromXML", "gxml.Simplify", "xml2ogdl"])

p("P24", "Schema check accepts exactly the conforming graphs",
  "A graph is accepted by a schema if and only if, position by position, every node of the schema has a counterpart in the graph that equals it literally or can be read as the type it asks for (!int, !float, !bool, !string, !binary), at every level; subnodes beyond those in the schema are allowed. "
  "A refusal comes with a message that names what was wanted, and no input makes the check crash.",
  ["inputs"], "all pairs of schema and graph",
  "one example checks one accepted graph, and no refusal is tested",
  ["schema.go", "gettypes.go"],
  [("recursive position-wise check", "schema.go: Check, checkNode")],
  ["Graph.Check"])

p("P25", "Sorting orders by the key and loses nothing",
  "Sorting the subnodes of a graph by a path leaves the same nodes, each exactly once and with its subtree untouched, ordered so that the string (or, for the integer sort, the integer) found at the path in each node never decreases; nodes without the key count as the empty string or 0.",
  ["inputs"], "all graphs, all keys",
  "sorting is not tested",
  ["sort.go"],
  [("sort adapters", "sort.go")],
  ["Graph.Sort", "Graph.SortAsString", "Graph.SortAsInt"])

p("P26", "Each remote call gets the answer to its own request",
  "Over both protocol versions, with any number of concurrent clients and any number of calls per connection, every remote call that returns without error returns the graph that the handler (last) registered for the request's first node produced for exactly that request, whatever the size and content of request and response; unregistered names get the not-found answer. "
  "Without faults every call succeeds and its handler runs exactly once.",
  ["schedules", "histories", "inputs"], "all interleavings of clients and calls, all request and response graphs",
  "the remote function package has no tests",
  ["ogdlrf/client.go", "ogdlrf/server.go", "binary.go"],
  [("length-prefixed framing", "ogdlrf/client.go: callV2, ogdlrf/server.go: process"), ("self-delimiting framing", "ogdlrf: callV1, process1"), ("routing", "ogdlrf/server.go: router")],
  ["Client.Call", "the handlers' own record of requests"])

p("P27", "Remote calls survive fragmentation, dropped links and bad peers",
  "However the network splits or delays the bytes of a message, the outcome of a call is the same; after a connection is closed, cut in the middle of a message or timed out, a later call on the same client works again and never returns an answer that belongs to another request. "
  "Garbage, truncated or oversized messages on one connection neither stop the server nor affect other connections, and a connection stays usable as long as the time between its messages is less than the time limit of the server.",
  ["fault_sequences", "schedules"], "all segmentations of the byte streams, all sequences of connection faults and malformed peers",
  "no test exercises the network, let alone faults",
  ["ogdlrf/client.go", "ogdlrf/server.go", "binary.go"],
  [("complete reads of header and body", "ogdlrf: callV2, process"), ("redial and retry", "ogdlrf/client.go: Call")],
  ["Client.Call through a fault-injecting proxy", "raw connections to the server"])

p("P28", "The lexer is a faithful cursor over the byte stream",
  "Reading bytes or runes, peeking and unreading (up to 2000 bytes back) on a lexer behaves as moving a cursor over the complete input, for every input length and every way the input is delivered: every byte is returned exactly once in order, unread bytes are returned again, the end is reported exactly at the end and again on every later read, and peeking moves nothing. "
  "The token productions (string, quoted string, block, scalar with and without types, token, integer, number, operator, space, break, white space, comment) consume exactly the characters they are documented to return and nothing else.",
  ["histories", "inputs"], "all inputs, deliveries and sequences of cursor operations",
  "the lexer tests print the results on 4-byte inputs, mostly without checking them",
  ["lexer.go"],
  [("buffer window", "lexer.go: fill, Byte, UnreadByte, Rune, UnreadRune"), ("productions", "lexer.go")],
  ["NewLexer and its methods"],
  [("read position and end mark", "position in the buffered window", "lexer.go: Lexer")])

p("P29", "An event sequence builds the tree its levels describe",
  "For every sequence of events in which each item is added at most one level below the previous item, the tree contains every item exactly once, each as the last subnode (at that time) of the latest item one level up, with its content and type unchanged; level changes are counted as documented and deleting removes exactly the last item added. "
  "Items whose level skips a parent never crash the construction nor displace other items, and building the tree can be repeated with the same result.",
  ["histories"], "all sequences of add, inc, dec, set-level and delete events",
  "the event handler is only tested indirectly, through small documents",
  ["event.go", "parser.go"],
  [("level bookkeeping", "event.go: Inc, Dec, SetLevel, AddAt"), ("tree construction", "event.go: Tree")],
  ["SimpleEventHandler through NewParser().Handler()", "Parser.Emit, Inc, Dec"])

p("P30", "HTML listing shows every node once, in order, with its own path",
  "For every graph of text without control characters, the HTML form has one line per node, in depth-first order, indented by level with two non-breaking spaces per level and showing the node's whole content (possibly in double quotes, and with a backslash before each double quote of its own; an underscore if it has none). "
  "Nodes with subnodes are links, closed on their line, whose target is the given base followed by the names of all nodes from the top level down to that node. "
  "Characters that have a meaning in HTML are escaped, so that content never becomes markup.",
  ["inputs"], "all graphs of such text and all bases",
  "the HTML form is not tested",
  ["html.go"],
  [("recursive emitter with accumulated path", "html.go: Html, _html")],
  ["Graph.Html"])

p("P31", "The command line tools print what the library computes",
  "gpath prints the text of the given path of the document in a file or on standard input (the whole document for '.'), gtemplate the template processed with the merged data files, json2ogdl the text of the JSON document in a file or on standard input, and xml2ogdl the text of the given path of the XML document, each exactly equal to the result of the corresponding library calls, for inputs of any size and however standard input is delivered.",
  ["inputs", "configurations"], "all documents, paths, templates, and both ways of supplying input",
  "the tools have no tests",
  ["cmd/gpath/main.go", "cmd/gtemplate/main.go", "cmd/json2ogdl/main.go", "cmd/xml2ogdl/main.go"],
  [("main programs", "cmd/*/main.go")],
  ["standard output and exit status of the built tools"])

p("P32", "Special path elements and computed names mean what they say",
  "In a path, _len is the number of subnodes of the node reached so far, _string its first subnode as text, _thisString its own content as text, _json its JSON form, and _this the node itself; after an element that is not found they yield nothing. "
  "An element that is an expression in parentheses stands for the name that the expression gives (a text, a number, or a path to a text): the path finds exactly what it finds with that name written out, and nothing if the expression gives no name. "
  "This holds at any place of the path, in paths, expressions, indexes and templates, on first and repeated evaluation, also when the name given by the expression or the graph has changed in between, and evaluating never changes the graph.",
  ["inputs"], "all graphs, all paths with such elements",
  "the tests hold hardly any path with these elements, and none that crosses them with indexes, selectors, missing nodes and repeated evaluation",
  ["eval.go", "gettypes.go", "expression.go", "template.go"],
  [("special elements in the path evaluator", "eval.go: evalPath"), ("expression groups in the path evaluator", "eval.go: evalPath")],
  ["Graph.Eval", "Graph.Get", "Graph.Process"])

p("P33", "Searching by regular expression finds exactly the matching nodes",
  "Find gives the direct subnodes whose content, as text, matches the regular expression: all of them and only them, the very nodes, in their order, each with its subnodes; nothing when none matches, and an error when the expression is not valid.",
  ["inputs"], "all graphs, all regular expressions",
  "one test searches one list for one expression; which nodes match depends on content of any type",
  ["gettypes.go"],
  [("regular expression search", "gettypes.go: Find")],
  ["Graph.Find"])

p("P34", "Files, connections, goroutines and memory are given back",
  "After files were read or logs closed, after clients were closed or their calls failed, and after peers left or stayed silent beyond the server's time limit, no file, connection or goroutine stays behind. "
  "A call to a peer that never answers (protocol 2) ends with an error. "
  "Repeating an operation any number of times, with whatever inputs, accumulates no memory.",
  ["histories", "schedules", "fault_sequences"], "all histories of operations, including failing ones",
  "tests run each operation once and look at its result; what stays behind is invisible to them and matters only in long-running processes",
  ["log.go", "parser.go", "binary.go", "ogdlrf/server.go", "ogdlrf/client.go"],
  [("file readers", "parser.go: FromFile; binary.go: FromBinaryFile"), ("log close", "log.go: Close"), ("connection handlers and time limits", "ogdlrf/server.go"), ("dial, call, close", "ogdlrf/client.go")],
  ["open files of the process", "goroutines", "live heap objects"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
