"""The registry of properties: properties.jsonl and MANIFEST.json are generated from it by mkmanifest.py."""

XP, XQ, XC = "src/main/c/parts/xmq_parser.c", "src/main/c/parts/xmq_printer.c", "src/main/c/xmq.c"
PI, TX, JS = "src/main/c/parts/xmq_internals.c", "src/main/c/parts/text.c", "src/main/c/parts/json.c"


def P(id, title, statement, over, text, why, files, mech, note, observe=(), state=()):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, observe=list(observe), state=list(state))


PROPS = [
P("P01", "Tokenizing follows the xmq grammar, with exact positions",
  "For every byte sequence the tokenizer either emits exactly the tokens of the xmq grammar, in order, covering every byte once, each with its own text and with the line and column (counted in characters) where it starts, or it rejects the text with the error the grammar prescribes, located at the construct that is wrong. Nothing outside of the supplied bytes influences the result.",
  ["inputs"], "every byte sequence without NUL that is detected as xmq; all texts up to a bound over thirteen alphabets of lexical fragments, and random longer texts",
  "The test suite tokenizes a few dozen documents, almost all well formed; the grammar is a state machine over all byte sequences and its quoting, comment and entity rules interact (quote counts, slashes, tabs, unicode spaces, columns).",
  [XP, PI, "src/main/c/parts/utf8.c"], [("recursive descent reader", XP), ("eat_xmq_quote, eat_xmq_comment, eat_xml_whitespace", PI)],
  "spec/XmqLex.tla is the lexical machine. TLC enumerates all texts up to the bounds with the tokens or error the machine gives them (LexGen.tla) and each is replayed on the real tokenizer; random texts are tokenized and the recorded traces are followed by TLC (LexTrace.tla).",
  ["xmqTokenizeBuffer with the debug token callbacks"], [("reader position, line, column and landmarks", "how far the text is consumed and where the last brace, parenthesis, equals and quote are", "src/main/c/parts/xmq_internals.h XMQParseState")]),
P("P02", "Parsing builds exactly the document that the text describes",
  "A text accepted as xmq always yields the document that the language definition gives it: elements, attributes, namespaces (with the prefix and default scopes of xml), texts, comments, entities, processing instructions and doctype in the order written, adjacent texts merged unless merging is turned off, the implicit root added only when it is missing. A rejected text yields the error and position of the first thing that is wrong, and no document.",
  ["inputs", "configurations"], "every xmq text, implicit root and merge setting; all texts up to a bound over thirteen alphabets chosen per construct",
  "The tests parse fixed documents; the tree builder is driven by token callbacks with state that leaks between constructs (pending namespace, last element, stack), which only shows for particular sequences.",
  [XC, XP, TX], [("token callbacks that build the tree", XC), ("quote trimming", TX)],
  "spec/XmqTree.tla folds the tokens of XmqLex into a document (a sequence of events), with the quote and comment texts of XmqText.tla. TLC enumerates texts with the documents they describe (TreeGen.tla); each is parsed by the library and the tree compared. Combinations that the language leaves undefined are marked in the specification and skipped.",
  ["xmqParseBufferWithType, tree read through libxml2"], [("element stack, pending namespace and attribute", "where the next node is attached", "src/main/c/parts/xmq_internals.h XMQParseState")]),
P("P03", "Pretty printed xmq reads back as the document that was printed",
  "Pretty printing any document gives a text of the language that describes that document again: the same elements, attributes, namespaces, texts, entities, comments, processing instructions and doctype. Printing what was read back gives the same text again.",
  ["inputs"], "every document of the xmq model (prefixes declared); all documents up to a bound over menus of nodes for structure, attributes, special nodes and namespaces",
  "The tests compare a few hundred documents with their expected layout; whether a layout is unambiguous depends on which node follows which, what the last printed character was, and what has to be quoted.",
  [XQ, TX], [("print_node and the separation rules", XQ), ("print_attributes", XQ)],
  "TLC enumerates documents (DocGen.tla); the library prints each; TLC reads the printed text with the reader of XmqLex/XmqTree and compares the document it describes with the one that was printed (PrintTrace.tla, XmqDoc.tla).",
  ["xmqPrint with the default settings"], [("last printed char, current and line indent", "decides separators and layout", "src/main/c/parts/xmq_internals.h XMQPrintState")]),
P("P04", "Compact xmq is a single line that describes the same document",
  "Printing any document compactly gives a single line of the language that describes the same document (the line ends of processing instructions and the blanks around the lines of comments excepted), and printing that again gives the same line.",
  ["inputs"], "as P03, with the compact setting", "Separators are left out wherever the previous character allows it; every adjacent pair of nodes is a case of its own.",
  [XQ], [("need_separation_before_*", XQ), ("check_space_before_*", XQ)],
  "As P03, with compact: PrintTrace.tla also requires a single line.", ["xmqPrint with compact"]),
P("P05", "Escape and indentation settings keep their promise and never change the document",
  "With newlines, tabs or characters outside of seven bits escaped, no text of the output contains one verbatim, in any position and in combination; whatever the indentation and the escapes, the output describes the same document.",
  ["inputs", "configurations"], "every document and combination of escape-newlines, escape-tabs, escape-non-7bit, indent and compact; all strings up to a bound of tabs, newlines, blanks, quotes and non ascii chars in each position, eleven settings",
  "The tests use each setting on a couple of documents; the splitting of a text into quotes and entities depends on what surrounds the escaped character.",
  [XQ], [("find_next_char_that_needs_escape, quote_needs_compounded", XQ)],
  "As P03 for each combination of settings; PrintTrace.tla decides the promises on the tokens of the printed text.", ["xmqSetEscapeNewlines, xmqSetEscapeTabs, xmqSetEscapeNon7bit, xmqSetAddIndent"]),
P("P06", "Every text can be written in every position and is read back byte for byte",
  "Any text of a document (element content, element value, attribute value, next to entities, comments and elements, at any depth) is printed such that reading it back gives exactly the same bytes, pretty or compact: quotes, blanks, tabs, newlines, control characters and unicode included. Only the quote character itself may come back as its entity.",
  ["inputs"], "every text; all strings up to a bound over blanks, newlines, tabs, quotes and the special characters, in eighteen positions, pretty and compact",
  "Quoting is decided by runs of quotes, leading and ending whitespace, incidental indentation and line ends together; tests hold a few texts of each kind.",
  [XQ, TX, "src/main/c/parts/utf8.c"], [("count_necessary_quotes, quote_needs_compounded, print_value_internal_text", XQ), ("trimming of quotes", TX)],
  "As P03, the documents are templates whose text is every string up to the bound (DocGen.tla Holes).", ["xmqPrint"]),
P("P07", "Comments survive printing and can never end early",
  "Printing never lets a comment end early or swallow what follows, whatever stars and slashes it contains, pretty or compact, in any position. A comment without incidental blanks is read back byte for byte from pretty xmq; otherwise its lines are the same up to the blanks around them.",
  ["inputs"], "every comment text; all strings up to a bound over stars, slashes, blanks, newlines and letters in six positions, pretty and compact",
  "The number of slashes needed depends on the text of the whole comment and the continuation syntax of compact comments.",
  [XQ, PI], [("count_necessary_slashes, print_comment_lines", XQ), ("eat_xmq_comment_to_eol, eat_xmq_multiline_comment", PI)],
  "As P06, for the text of comments.", ["xmqPrint"]),
P("P08", "Writing xml and reading it back gives the same document",
  "A document that xml can hold, written as xml and read again, is the same document: elements, attributes, namespaces, texts, comments (two dashes in a row included), entities, processing instructions and doctype; the xml that is written is well formed, and writing it does not change the document in memory.",
  ["inputs"], "every document of the xmq model that xml can express; all documents up to a bound over menus of nodes, all strings up to a bound in texts, attribute values and comments",
  "The tests convert some files in both directions; what the library does around libxml2 (comment escaping, whitespace trimming, entities and the declaration) is decided by the neighbours of each node.",
  ["src/main/c/xmq.c", XQ], [("xmq_print_xml, xmq_fixup_comments_before_writeout, xmq_fixup_comments_after_readin", "src/main/c/xmq.c")],
  "spec/XmlRead.tla is a reader of the xml syntax and the view of a document that xml has. TLC enumerates documents; the library writes xml; TLC reads that xml with its own reader and compares the document (XmlTrace.tla), and compares the document that the library itself reads back. In the other direction TLC enumerates xml texts with the documents they describe, or that they are not well formed (XmlGen.tla), and each is read by the library.",
  ["xmqPrint with XMQ_CONTENT_XML, xmqParseBufferWithType with XMQ_CONTENT_XML"]),
P("P09", "Json texts are read as the documents they are, everything else is rejected",
  "A text is accepted as json exactly when it is a json text, and it then yields the document that it stands for: objects, arrays, strings (with every escape decoded), numbers, booleans and null as elements with their keys as names, keys that are not names kept in an attribute, arrays and strings that look like literals marked, and the keys that hold an attribute, a namespace, a text, a comment, a doctype or the name of an unnamed object turned into what they hold.",
  ["inputs"], "every byte sequence detected as json; all texts up to a bound over eleven alphabets of json fragments (structure, numbers, escapes, keys, members), well formed and malformed",
  "Whether a number, escape or nesting is accepted, and what a key means, depends on the whole text around it; the tests read a few dozen well formed files.",
  [JS, XC, TX], [("parse_json_object, parse_json_array, parse_json_quote", JS), ("is_jnumber, eat_json_quote", JS), ("xmqDetectContentType", XC)],
  "spec/JsonText.tla is the json grammar and the document that each value is. TLC enumerates texts with the document or the rejection (JsonGen.tla); each is read by the library and the tree compared. Raw control characters, trailing commas, duplicate keys and half surrogate pairs are marked as undefined.",
  ["xmqParseBufferWithType with XMQ_CONTENT_JSON"]),
P("P10", "A json value survives being read and written, directly and by way of xmq",
  "Reading a json text and writing it as json gives a json text with the same value: same members in the same order, same strings, literals and nesting, an index that makes equal keys different aside. The same holds when the document is printed as pretty or compact xmq in between.",
  ["inputs", "configurations"], "every json text; all texts up to a bound over eleven alphabets of json fragments, by way of nothing, pretty xmq and compact xmq",
  "Values that look like literals, keys that are not names, blanks, quotes and escapes take several steps through attributes, quotes and entities, each with its own quoting rules.",
  [JS, XQ, XC], [("json_print_node, quote_as_json, json_print_element_name", JS), ("print_value_internal_text", XQ)],
  "TLC enumerates json texts (JsonGen.tla), the library reads them and writes them three ways, and TLC parses what was written with JsonText.tla and compares the values (JsonTrace.tla). Members with a key that has a meaning of its own are compared as what they mean.",
  ["xmqPrint with XMQ_CONTENT_JSON"]),
P("P11", "A document written as json is json, and holds the document",
  "Writing a document with a root element as json always gives a json text. When json has a place for everything in the document, reading the text gives the document again: elements with their names and prefixes, attributes, namespaces, texts, comments, entities and the doctype.",
  ["inputs"], "every document with one root; all documents up to a bound over seven menus of nodes with and without json marks, all strings up to a bound as texts, attribute values, comments and keys",
  "What a node becomes is decided by its attributes, its children, its parent and how many siblings have the same name; the tests convert a few documents.",
  [JS, XC], [("json_print_object_nodes, json_print_array_nodes, json_print_leaf_node", JS), ("xmq_print_json", XC)],
  "TLC enumerates documents (DocGen.tla), the library writes them as json, and TLC parses the text and compares the document that it stands for with the one that was written (JsonTrace.tla). What json has no place for (names of root arrays and key values, processing instructions) is only required to be valid json.",
  ["xmqPrint with XMQ_CONTENT_JSON"]),
P("P12", "The type of content is recognised by how it starts, and never mistaken",
  "Content read without a given type is recognised as xmq, htmq, xml, html or json by its first significant characters alone; a type that is asked for accepts exactly the content recognised as that type (xmq and htmq share a syntax) and otherwise rejects it, naming the type that was expected. What the library writes as xmq, xml, json or html is recognised as that again.",
  ["inputs", "configurations"], "every text and expected type; all texts up to a bound over ten alphabets of starts of content, six expected types, and all written forms of all documents up to a bound",
  "The tests load files whose first bytes are the usual ones; recognition scans past blanks, comments, declarations, byte order marks and doctypes, and a slip in it reads the content as another language.",
  [XC, "src/main/c/parts/xmq_internals.c", JS], [("xmqDetectContentType, find_next_line, is_xml/is_html scanning", XC), ("xmqParseBufferWithType", XC)],
  "spec/Detect.tla defines the type of a text and which expected types it satisfies. TLC enumerates texts with the type and the answer for each expected type (DetectGen.tla), all replayed on xmqDetectContentType and xmqParseBufferWithType; documents enumerated by DocGen.tla are written by the library and TLC judges what they are recognised as (DetectTrace.tla).",
  ["xmqDetectContentType, xmqParseBufferWithType, xmqDocError, xmqPrint"]),
P("P13", "Whatever cannot be read is rejected with a report of what and where",
  "Reading any bytes as xmq, json, xml or html ends with a document or with an error, never with a crash, a hang or a silent failure. The report of a text that is not xmq or json names the source, the line and column (in characters) and the reason, shows the offending character, and repeats the line with a mark below the place; the tokenizer and the parser say the same.",
  ["inputs", "configurations"], "every byte sequence read as any type; all rejected xmq texts up to a bound over seven alphabets with their exact message, and random malformed xmq, json, xml and html under sanitizers",
  "The tests hold a handful of malformed files; an error can arise in every state of the readers, and the position, the excerpt and the mark are computed separately from the tokens.",
  [XP, XC, PI, JS], [("build_error_message, generate_state_error_message", PI), ("xmqStateErrno, xmqDocErrno, xmqDocError", XC), ("error exits of the readers", XP), ("json errors", JS)],
  "spec/XmqError.tla gives the message for each error of the machine in XmqLex.tla; TLC enumerates rejected texts with their message (ErrorGen.tla), replayed on the tokenizer and on the parser; random texts are read with the readers built with address and undefined behaviour sanitizers and the recorded outcomes are judged by TLC (ErrorTrace.tla).",
  ["xmqTokenizeBuffer, xmqStateErrorMsg, xmqParseBufferWithType, xmqDocErrno, xmqDocError"]),
P("P14", "For-each runs the command once per node, with the node's texts as data",
  "for-each with a path and a shell command runs the command once for each selected node, in document order, for the element that the node is or is in; a failing run stops nothing. ${name} in the command stands for the text of the child elements with that name, ${.} for the text of the element, ${..} for its name, also when names have signs in them that the shell does not allow; the text reaches the command byte for byte as data, whatever it looks like, and is never run as part of the command. The document is left as it is.",
  ["inputs"], "every document, path and text; all documents up to a bound from menus with nested elements, comments, processing instructions, attributes and character entities, under 28 paths and 11 commands; all texts of up to 2 (thorough 3) of 22 pieces that mean something to a shell",
  "The tests run three echo commands with letters and digits; they have no text with quotes, dollar signs, separators or newlines, no node outside of elements, no failing command.",
  ["src/main/c/xmq-cli.c"], [("cmd_for_each, invoke_shell", "src/main/c/xmq-cli.c"), ("grab_name, make_shell_safe_name, grab_content", "src/main/c/xmq-cli.c")],
  "spec/Each.tla is the state machine of the command: the runs that are left, what each writes (the words of a shell command with quoted and bare values), on the documents and paths of spec/XmqPath.tla. Documents are enumerated by TLC, the tool is run on each with paths and commands in turn, also after commands that change the document, and TLC (EachTrace.tla) judges every byte that the runs wrote; the document printed afterwards has to be the one before.",
  ["the command line tool with for-each, what its runs write, the document printed after it"]),
P("P15", "Lookups show the nodes of a path in order, and give the value that is there",
  "For every document and path, walking over the path shows each node of the path to the callback once, in document order, until the callback says stop, and returns how many nodes there are; relative lookups start at the given node, whatever kind of node that is. The content of an element or attribute is its text, not a comment or a child element; of a text it is the text. The getters give the content of the first node of the path, as a string or as the number it starts with (decimal with a sign, hexadecimal after 0x, octal after 0; a decimal fraction for doubles), exact over the whole range of the type, and 0 or NULL when there is nothing. The root node is the root element, whatever the document was read from.",
  ["inputs", "histories"], "every document, path of the subset and stop point; all documents up to a bound over three menus of nodes and four sweeps of numbers, 31 paths and 12 paths relative to their nodes",
  "No test calls these functions; which node is first, where a relative path starts and what the content of an element is all depend on the shape of the document, and the number formats on every character of the content.",
  [XC], [("xmqForeachRel, catch_single_content, xmqGetIntRel, xmqGetLongRel, xmqGetDoubleRel, xmqGetStringRel", XC), ("xmqGetName, xmqGetContent, xmqGetRootNode", XC)],
  "spec/Lookup.tla (on spec/XmqPath.tla) has the walk as a state machine, the content of nodes, and the numbers as digit sequences. TLC enumerates documents (DocGen.tla); the library is asked (which nodes, in which order, what values), with nodes identified by how many nodes start before them, and TLC judges the recorded answers (LookupTrace.tla).",
  ["xmqForeach(Rel), xmqGetInt/Long/Double/String(Rel), xmqGetName, xmqGetContent, xmqGetRootNode"], [("walk", "what is left to be shown and whether the callback stopped", XC + " xmqForeachRel")]),
P("P16", "A command line does to the document what its commands say, in order",
  "The xmq tool loads a document, applies the commands from left to right, each to what the previous one left, and prints the final document once, in the format and to the place that was asked for. Select keeps the selected nodes in document order (an attribute stands for its element), delete removes them; delete-entity, replace-entity, substitute-entity and substitute-char-entities act on every such entity, in contents and in attributes, and on nothing else; add appends the given xmq; add-root wraps the document; statistics counts it. A command line that makes no sense or a command that fails ends with a non-zero exit status and no document.",
  ["inputs", "histories"], "every document and sequence of these commands; all sequences up to a bound (2 to 3, thorough 2 to 5) of menus of commands (27 paths in an XPath subset, entity, adding and counting commands) on thirteen documents, printed in every format, to stdout and to files, with documents from files, stdin, arguments, as xmq and xml",
  "The tests run single commands on a single document; commands work on the tree that earlier commands moved, copied and freed, with nodes in places where a parsed document has none.",
  ["src/main/c/xmq-cli.c", "src/main/c/parts/xml.c"], [("cmd_select, delete_xpath, replace_entity, substitute_entity, delete_all_entities, cmd_add, cmd_add_root, cmd_statistics", "src/main/c/xmq-cli.c"), ("xmq_parse_cmd_line, perform_command", "src/main/c/xmq-cli.c")],
  "spec/Pipe.tla (on spec/XmqPath.tla, an XPath subset on event sequences) is the state machine whose transitions are the commands. TLC enumerates every sequence of commands with the document it leads to (PipeGen.tla); the tool is run on each (a sample also with sanitizers), and TLC reads what was printed and compares the document (PrintTrace.tla). Other formats are compared with the library's own print of the document the specification arrives at.",
  ["the xmq command line tool: exit status, stdout, files"], [("document", "what earlier commands left", "src/main/c/xmq-cli.c XMQCliEnvironment.doc")]),
P("P17", "An ixml grammar turns a text into the document of its derivation",
  "A text parsed with an invisible xml grammar gives the document of its derivation from the first rule: rules become elements, attributes or nothing as their marks say (the mark of a reference before that of the rule, its alias instead of its name), characters that are not deleted and insertions become text, for strings, encoded characters, sets with ranges, categories and exclusion, groups, options and repetitions with and without separators. A text without derivation is refused, naming the line and column of the first character that cannot follow; a text with several documents gives one of them and a warning. A text that is no grammar is refused with a message, and no grammar or text crashes or hangs.",
  ["inputs", "configurations"], "every grammar without cycles and text; all grammars up to a bound of terms over six menus of terms and skeletons of rules, written in five styles, on all texts up to a bound; all 36 categories on a text of each; all sequences of signs of a grammar up to a bound; by the library and by the tool, also with all parses",
  "The tests parse some texts with some grammars; groups, repetitions and sets are rewritten into rules with generated names that must not meet, and marks travel on the generated rules.",
  ["src/main/c/parts/ixml.c", XC, "src/main/c/yaep/src/yaep.c"], [("parse_ixml and the rewriting into rules", "src/main/c/parts/ixml.c"), ("generate_dom_from_yaep_node, xmqParseBufferWithIXML", XC), ("yaepParse", "src/main/c/parts/yaep.c")],
  "spec/Ixml.tla has grammars, their derivations of a text, the document of a derivation, the place of an error, and the writing of a grammar. TLC enumerates grammars with all texts and what each gives (IxmlGen.tla), replayed on the library (also with sanitizers) and the tool; spec/IxmlText.tla says which sequences of signs are grammars, itself with a grammar of Ixml.tla.",
  ["xmqParseBufferWithType with XMQ_CONTENT_IXML, xmqParseBufferWithIXML, xmq --ixml: document, stdout, stderr, exit status"]),
P("P18", "A log line is one line of xmq that holds exactly the values it was given",
  "A log line made of a name and keys with values, or of a single value, is a single line without line ends that is xmq: it describes an element with that name, in it an element for every key, in order, and every value is byte for byte the one that was formatted, of any length and content. The line of a document describes that document, a compact quote is the value of a key. For humans, the line has the name in parentheses, and every key and value in order. Every line that the tool logs with --log-xmq is xmq.",
  ["inputs"], "all values; all values up to 3 (thorough 4) of 16 kinds of characters for one key or none, up to 3 keys with values from a shorter list, values of 1022 to 5000 bytes, formatted in one or two parts; all documents up to a bound",
  "The tests format one line with plain words; quotes, newlines and trailing blanks in values, several keys after quoted values, values longer than the first buffer and the line of a document are in none.",
  [XC, XQ], [("xmqLinePrintf, xmqLineVPrintf, xmqLineDoc, xmqCompactQuote", XC), ("print_value", XQ)],
  "spec/Log.tla builds the call key by key and gives the document that its line describes; TLC enumerates the calls (LogGen.tla), each is logged by the library, and TLC (LogTrace.tla) reads the line with the grammar of spec/XmqTree.tla and compares the documents.",
  ["xmqLinePrintf, xmqLineDoc, xmqCompactQuote; stderr of the tool with --log-xmq"]),
P("P19", "Coloured renderings show the printed text, each part marked as what it is",
  "Rendering a document in html, tex or terminal colours is well formed markup that shows exactly the text that plain printing gives (as typeset, for tex), and each part of that text is marked with its kind: element names, keys, attributes, namespaces, quotes, comments, entities, doctype, processing instructions and unusual whitespace. The same holds when an xmq text is tokenized into a rendering.",
  ["inputs", "configurations"], "every document and xmq text; all documents up to a bound over five menus of nodes, all strings up to a bound of special characters in each position, in the three formats, pretty and compact; random texts for the tokenizer",
  "The rendering is woven into every print function: each place that writes a character has to escape it for the format and to open and close the right mark; the tests compare a few fixed pages.",
  [XQ, XC, PI], [("print_utf8_internal, print_color_pre, print_quote_lines_and_color_uwhitespace", XQ), ("needs_escape, get_color", PI), ("write_safe_html, write_safe_tex", XC)],
  "spec/XmqRender.tla reads a rendering back into characters with marks (the inverse of the markup of each format) and gives the mark of every token; TLC enumerates documents (DocGen.tla), the library prints and renders them, and TLC checks each rendering against the text (RenderTrace.tla).",
  ["xmqPrint with a rendering, xmqTokenizeBuffer with the coloring callbacks"]),
P("P20", "Calls give what they give alone: printing changes nothing, histories do not leak",
  "What a call gives depends on the document and the arguments it is given, not on the calls made before, on this document or on another, with success or with failure: printing in any format, looking up, tokenizing and detecting leave every document as it was; loading and trimming change their own document only; a freed or failed document leaves nothing behind. Nor does it depend on the way in (buffer, file, standard input) or out (memory, a writer, settings that were used before), for texts of any size.",
  ["histories", "configurations"], "every sequence of calls on any number of documents; all sequences of two calls, and of three (thorough four) from smaller menus, of 90 calls (loads of seven formats in three ways, right and wrong, prints in twelve settings in three ways, renderings, lookups, trims, tokenizing, ixml) on two documents, from every loadable document; all sizes around the buffer sizes",
  "The tests make one call per process. Printing html, xml and json rewrites the tree and puts it back; settings, quote and parser structures, source names and error texts are shared or reused between calls.",
  [XC, JS, "src/main/c/parts/membuffer.c"], [("xmq_fixup_html_before_writeout, xmq_fixup_comments_after_readin", XC), ("xmq_fixup_json_before_writeout, xmq_undo_fixup_json", JS), ("load_file, load_stdin, membuffer", XC)],
  "spec/Session.tla is the state machine of a program: slots with documents, and calls. The documents and what each call gives on each of them are recorded from programs that make a single call; TLC enumerates the sequences of calls with the documents they leave in the slots, and each sequence is replayed in one program: every answer and every document at the end must be those of the specification.",
  ["the public functions of xmq.h, trees through libxml2"], [("documents", "the tree that printing rewrites and puts back", "src/main/c/parts/xmq_internals.h XMQDoc"), ("settings", "what a print leaves in them", "src/main/c/parts/xmq_internals.h XMQOutputSettings")]),
P("P21", "Line listings give every value once, as a C string that means it",
  "The line listing of a document has exactly one line for every attribute, every text and every element with nothing inside, in document order: the path of names, and the value as a C string on one line that C reads as that value. The plain text of a document is its texts in order. quote-c writes any text as a C string that means it, unquote-c gives what a C string means and refuses a text that is none, so unquoting what was quoted gives the text back.",
  ["inputs"], "every document and text; all documents up to a bound from menus with nested, empty and prefixed elements, attributes, comments, processing instructions and entities; all texts up to 3 (thorough 4) of 13 kinds of characters; all strings up to a bound of escapes, digits, quotes, blanks",
  "The tests list one document and quote one text; control characters, the digits after them, backslashes, declared entities and doctypes with declarations are in none of them.",
  [XC, TX, "src/main/c/xmq-cli.c"], [("cline_print_node, cline_print_attr, xmq_print_clines, xmq_print_text", XC), ("xmq_quote_as_c, xmq_unquote_as_c", TX), ("cmd_quote_unquote", "src/main/c/xmq-cli.c")],
  "spec/CString.tla reads C strings by the rules of C and says what unquoting gives; spec/Lines.tla gives the listing of a document. TLC proves that written strings mean their text and that no cut string is a string, enumerates strings with what they mean (CStringGen.tla, run through the tool) and judges recorded listings, plain texts and quoted texts (LinesTrace.tla).",
  ["xmqPrint with clines and text, xmq quote-c and unquote-c"]),
P("P22", "Trimming the whitespace of xml removes layout, never content",
  "Reading xml without asking for its whitespace to be kept gives the document without the texts and comments that are only whitespace; from the others only blanks at the ends, trailing blanks of lines, incidental indentation and one line end at the start and the end are removed. Names, attributes, processing instructions and every other character are untouched.",
  ["inputs", "configurations"], "every well formed xml text; all texts up to a bound of blanks, line ends, tabs, letters, references and markup inside an element, a comment, an attribute and a processing instruction",
  "The tests trim a few files; the indentation that is taken away is decided by all the lines of the text together, and the first line has no indentation of its own.",
  [XC, TX], [("xmqTrimWhitespace, trim_text_node, xmq_trim_quote", XC)],
  "spec/XmlRead.tla (Trimmed) with the text rules of XmqText.tla; TLC enumerates xml texts with the trimmed documents (XmlGen.tla), each is read by the library with the default flags.",
  ["xmqParseBufferWithType with XMQ_CONTENT_XML"]),
P("P23", "A stylesheet makes of a document what XSLT says, in whatever format it is",
  "Transform replaces the document by what the stylesheet makes of it, whether the stylesheet is written as xmq, compact xmq or xml; the next command, another transform too, gets the result. Templates, built-in rules, paths, values in braces, copies and created nodes mean what they mean in XSLT. Character entities in an xslq are the characters that they stand for. What an xslq includes, imports or loads with document() can be xmq or xml as well. String parameters reach the stylesheet byte for byte as strings, other parameters are evaluated as paths, defaults are used for those that are not given. A stylesheet that is missing, cannot be read or used, or a transform that fails, makes the command fail, with no document printed.",
  ["inputs", "histories"], "every stylesheet of the subset, document and parameter; all stylesheets of up to 3 to 5 blocks (thorough 4 to 6, every n-th of the longest) from eight menus of templates, instructions and paths, included and imported ones, on six documents, in three formats, with 18 ways to give parameters",
  "Each test of transform has one stylesheet and one document; which template is used, where white space and character entities of the stylesheet go, and what is included depend on the combination of stylesheet, document and format.",
  ["src/main/c/xmq-cli.c", XC], [("cmd_transform, handle_option (parameters, loading), xmqDocDefaultLoaderFunc, substitute_entities", "src/main/c/xmq-cli.c"), ("escape_xml_comment, xml_element_content", XC)],
  "spec/Xslt.tla is an interpreter for the subset over stylesheets that are documents of spec/XmqTree.tla: flattened includes and imports, template rules and priorities, instructions as a machine that writes events for a node, parameters, chains of stylesheets. TLC (XsltGen.tla) generates stylesheets with the document that each makes of an input (checked to nest); they are written in the three formats, the tool applies them, and TLC (PrintTrace.tla) reads what is printed and compares. Command lines that have to fail are run as well.",
  ["the command line tool with transform, what it prints after it and its exit status"], [("chain of stylesheets", "the document that the stylesheets so far have made", "src/main/c/xmq-cli.c cmd_transform")]),
P("P24", "Validation accepts the documents that the schema allows, and no others",
  "Validate accepts a document when the schema allows it, whether schema and document are written as xmq, compact xmq or xml: then the exit status is 0, and the document goes on to the next command, or is printed, unchanged. Otherwise, and when the schema is missing, cannot be read or is no schema, the command fails, no document is printed, and a message names the schema that the document does not fit; with --silent nothing is written at all about a document that does not fit. What is validated is the document as it is after the commands before; one validation after the other, each with its own schema. Comments, pis and a doctype do not matter, character entities are the characters that they stand for, an entity that is not declared is not accepted.",
  ["inputs", "histories"], "every schema of the subset and every document; all schemas of up to 3 or 4 blocks (thorough 4 or 5, every n-th of the longest) from nine menus of elements, groups, occurrences, attributes, simple types, named types, references and namespaces, each with some of the documents that it allows and some that it does not of lists of up to 76 documents, in three formats",
  "The tests of validate have one small schema each; that the verdict is right depends on what of the schema reaches the validator, on what the document has been made into before, and on which of several validations it is.",
  ["src/main/c/xmq-cli.c"], [("cmd_validate, handle_option (loading of schemas), abortValidating, abortSilentValidating", "src/main/c/xmq-cli.c")],
  "spec/Xsd.tla says which documents a schema (a document of spec/XmqTree.tla) allows: declarations by name and namespace, content as places where a particle can end, attributes, simple types with facets. TLC (XsdGen.tla) generates schemas and says which documents of a list each allows; schemas and documents are written in the formats, the tool validates, the exit status and what is written are compared, and TLC (PrintTrace.tla) compares what is printed of the accepted ones with the document as it has been loaded. Schemas that cannot be used, other commands before and after, and several validations are run as well.",
  ["the command line tool with validate, what it prints and its exit status"]),
]

# Seconds of a quick run on 8 cores.
COST = {"P01": 30, "P02": 52, "P03": 34, "P04": 39, "P05": 31, "P06": 33, "P07": 10, "P08": 38, "P09": 44, "P10": 33, "P11": 43, "P12": 27, "P13": 31, "P14": 56, "P15": 56, "P16": 67, "P17": 76, "P18": 31, "P19": 37, "P20": 40, "P21": 36, "P22": 10, "P23": 100, "P24": 80}
