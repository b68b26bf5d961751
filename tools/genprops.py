#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The text of the properties lives here, one entry per property."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text},
      "why_tests_cant": why,
      "anchors": {"files": files,
                  "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe, "hook_needed": None,
                  **({"state": [{"name": a, "meaning": b, "where": c} for a, b, c in state]} if state else {})}})

p("C01", "A query parses to the tree its precedence and grouping dictate",
  "Every accepted query yields the tree in which NOT (or !) applies to the one comparison or parenthesised query after it, AND binds tighter than OR, parentheses override both, and the operands keep their written order. The tree does not depend on how much white space stands between tokens, on which white-space characters they are, or on redundant parentheses.",
  ["inputs"], "all sequences of logical operators, parentheses and comparisons; all white-space placements",
  "The tests parse about 50 fixed queries with at most five operands; precedence, associativity and white space must hold for every combination and depth.",
  ["internal/grammar/aql.peg", "internal/grammar/parser_gen.go", "parser/parser.go", "parser/ast/ast.go"],
  [("OrClause/AndClause/NotClause/Comparison rules", "internal/grammar/aql.peg"), ("generated actions", "internal/grammar/parser_gen.go")],
  ["parser.ParseQuery result tree"])
p("C02", "Parsing any text returns a tree or an error, and accepts exactly the grammar",
  "For every byte string, parsing returns either a tree or a parse error, never both or neither, and never panics. A text is accepted exactly when it is valid UTF-8 and all of it is one AQL query: keywords in upper case set off by white space, a field, a colon, an optional operator and its values for each comparison, balanced parentheses and nothing left over.",
  ["inputs"], "all byte strings",
  "The tests reject about 25 fixed strings; which strings are accepted is a property of all of them.",
  ["internal/grammar/aql.peg", "internal/grammar/parser_gen.go", "parser/parser.go"],
  [("Start/Query rules, EOF, white-space rules", "internal/grammar/aql.peg"), ("panic recovery and error list", "internal/grammar/parser_gen.go"), ("ParseQueryReader", "parser/parser.go")],
  ["parser.ParseQuery result and error"])
p("C03", "A literal in a query denotes exactly the value written, or is rejected",
  "An accepted literal has the type its spelling has (integer, float, string, boolean, regular expression, IPv4 address or block, date or date-time) and exactly the value written: strings with their JSON escapes decoded, regular expressions with only the escaping of the delimiter removed, an address without a length as a /32, a date as midnight UTC. A literal that names no such value (an integer beyond 64 bits, a day that does not exist, an octet above 255, a prefix length above 32, a lone surrogate, an invalid regular expression) is rejected.",
  ["inputs"], "all literals of every type, alone or in a value list",
  "The tests use one or two literals of each type; the mapping must be right for all of them, at every boundary.",
  ["internal/grammar/aql.peg", "internal/grammar/parser_gen.go", "parser/ast/ast.go"],
  [("BareValue, QuotedValue, RegexValue rules", "internal/grammar/aql.peg"), ("NewIntVal, NewFloatVal, NewStringVal, NewBoolVal, NewRegexpVal, NewNetVal, NewTimeVal", "parser/ast/ast.go")],
  ["Val.Type, Val.Value, Val.String of the parsed tree"])
p("C04", "A field denotes exactly the path segments written",
  "A field is the list of its dot-separated segments in written order: a bare segment (ASCII letters, digits, _ and -) stands for itself and a quoted one for its decoded content, so that dots, spaces, quotes and non-ASCII characters inside quotes never split or change a segment. Legacy bare * segments are dropped, and a field with nothing else in it is rejected.",
  ["inputs"], "all fields: any number of bare, quoted and star segments in any order",
  "The tests parse eight fields; segments of every kind, position and number have to survive.",
  ["internal/grammar/aql.peg", "internal/grammar/parser_gen.go", "parser/validators.go"],
  [("Field, FieldPiece, QuotedFieldPiece, removeStars", "internal/grammar/aql.peg"), ("checkField", "parser/validators.go")],
  ["ExprNode.Field", "jsonmatcher results on documents with such keys"])
p("C05", "A comparison is accepted only with operands its operator can use",
  "Ordering operators take one number or timestamp; between takes two numbers or two timestamps of which the second is greater; similarity takes strings, regular expressions or booleans; equality takes one or more values of any type; exists and null take none. No list repeats a value and no equality list holds both booleans. Everything else is rejected wherever in the query it stands, and nothing that obeys these rules is.",
  ["inputs"], "every operator with every list of values of every type, at every place in a query",
  "The tests sample 14 operator errors at the root of a query; the rule is a matrix of operators, arities, types and orders, for every position in the tree.",
  ["parser/validators.go", "parser/parser.go", "internal/grammar/aql.peg"],
  [("opValidator: checkValues, checkArity, checkRVals, checkBetween", "parser/validators.go"), ("walk over the whole tree", "parser/visitors.go")],
  ["parser.ParseQuery error", "jsonmatcher.NewMatcher error"])
p("C06", "Positions of tree nodes and errors point at their source text",
  "The position of every comparison and of every value in a tree is the 1-based line and rune column, the byte offset and the rune length of precisely its source text, for queries of several lines and with multi-byte characters. A rejection caused by a value (an invalid literal, a wrong type, a duplicate, a between bound) carries the position of that value, and every parse error's position lies inside the query or directly at its end, with line and column consistent with the offset.",
  ["inputs"], "all accepted and rejected queries, over several lines, with multi-byte characters before the token",
  "The tests check the line, column and offset of about 20 single-line ASCII errors and no position of any tree node.",
  ["internal/grammar/aql.peg", "internal/grammar/parser_gen.go", "parser/validators.go", "parser/parser.go"],
  [("getpos, GetParseError, tokErr", "internal/grammar/aql.peg"), ("ErrorWith, ErrorAt", "parser/parser.go")],
  ["ExprNode.Pos, Val.Pos, ParseError.Position"])
p("C07", "Visitors see every node once, in order, and can skip, stop or reject",
  "Each visitor is called for every node once, parents before children and left before right, in the order the visitors were given. A visitor that asks to skip a node is not called below it, one that asks to skip all is not called again, and neither keeps later visitors from running. An error from a visitor, or an error message it records, makes the parse fail with that error (the first one recorded) and its position; hints and warnings are kept in order and do not.",
  ["inputs", "histories"], "all trees, all decisions of the visitors at every call",
  "No test installs a visitor.",
  ["parser/visitors.go", "parser/parser.go", "parser/message.go"],
  [("walk, walkr, Skip, SkipAll", "parser/visitors.go"), ("MessageTape", "parser/visitors.go"), ("visitor loop", "parser/parser.go")],
  ["calls of the visitor", "ParseQuery error", "MessageVisitor.Messages"])
p("C08", "Parsing from a reader does not depend on how the reader delivers the text",
  "Parsing a query from a reader gives the same tree or the same error as parsing the whole text at once, however the reader splits the text into reads, including empty reads and data returned together with end of file. When the reader fails with another error before the end, parsing fails and the error is reported, even if what was read so far is a complete query.",
  ["inputs", "fault_sequences"], "all ways to split a text into reads, and a failure of the reader at every point",
  "The tests never use a reader; splits and failures are an environment no example enumerates.",
  ["parser/parser.go", "internal/grammar/parser_gen.go"],
  [("ParseQueryReader", "parser/parser.go"), ("ParseReader", "internal/grammar/parser_gen.go")],
  ["parser.ParseQueryReader result and error"])
p("C09", "Nesting does not make parsing explode",
  "A query with many nested parentheses, negations or logical operators, complete or truncated, is parsed or rejected with effort that grows in proportion to its length, not exponentially with its depth.",
  ["inputs"], "all nesting shapes and depths",
  "The tests nest at most one level; growth with depth cannot be seen at depth one.",
  ["parser/parser.go", "internal/grammar/aql.peg"],
  [("memoization of rules", "parser/parser.go")],
  ["parser.ParseQuery terminates", "allocation count of a parse"])
p("C10", "A query's result is the boolean combination of its comparisons",
  "Whether a document matches a query equals the boolean formula of the query applied to the results its comparisons have on that document when they are asked alone. In particular negation is exact complement, also for missing fields, and neither the order of operands nor repeated or nested operators change anything else.",
  ["inputs"], "all boolean formulas over comparisons, all truth assignments of the comparisons",
  "The tests evaluate a handful of combinations on one document, not the truth tables of all formulas.",
  ["jsonmatcher/nodes.go", "jsonmatcher/build_matcher.go"],
  [("andNode, orNode, notNode result", "jsonmatcher/nodes.go"), ("builder.build", "jsonmatcher/build_matcher.go")],
  ["Matcher.Match"])
p("C11", "Paths select exactly the values they name; exists and null follow from them",
  "A path selects the values reached from a document's root object by its segments as exact keys, going into every object of an array on the way and into nothing else (not into scalars or arrays directly inside arrays; a document whose root is not an object has no fields). exists holds when at least one value is selected, whatever its type; null holds when at least one is selected and every one is an explicit null; a comparison holds for no value when none is selected.",
  ["inputs"], "all documents and paths",
  "The tests ask 13 paths of one document; selection depends on every shape of nesting, arrays, key order and key spelling.",
  ["jsonmatcher/json_values.go", "jsonmatcher/expr_exists.go", "jsonmatcher/expr_null.go", "jsonmatcher/nodes.go"],
  [("getField, getValues", "jsonmatcher/json_values.go"), ("exprExists, exprNull", "jsonmatcher/expr_exists.go, jsonmatcher/expr_null.go")],
  ["Matcher.Match"])
p("C12", "A comparison holds when any scalar in the selected values satisfies it",
  "A comparison of values holds for a document exactly when at least one of the selected scalars, or scalar members of selected arrays, satisfies it on its own, wherever it stands among them and whatever the others are. Objects and arrays nested in the selected array are passed over.",
  ["inputs"], "all arrays of scalars, objects and arrays; all comparison operators and value types",
  "The tests have three arrays of fixed content; position, length and mix of the members are what can go wrong.",
  ["jsonmatcher/json_values.go", "jsonmatcher/expr_float.go", "jsonmatcher/expr_datetime.go", "jsonmatcher/expr_net.go", "jsonmatcher/expr_regexp.go", "jsonmatcher/expr_equal_bool.go", "jsonmatcher/str_matchers.go"],
  [("scalarValues", "jsonmatcher/json_values.go"), ("matches loops of the expressions", "jsonmatcher/expr_*.go")],
  ["Matcher.Match"])
p("C13", "Numeric comparisons order numbers correctly",
  "For a number, or a string that spells a number, the operators :, <, <=, > and >= hold exactly when the number has that relation to the operand, whether either is written as an integer, a decimal or with an exponent. Between holds exactly from its first to its second bound, both included. Anything that is not a number satisfies none of them.",
  ["inputs"], "all pairs of document numbers and operands, all operators",
  "The tests compare 1 and 1.1 with a few operands; order must hold for all magnitudes, signs and spellings.",
  ["jsonmatcher/expr_float.go", "jsonmatcher/expr_numeric.go", "jsonmatcher/expr_between.go", "jsonmatcher/expr_eq.go", "jsonmatcher/json_values.go"],
  [("exprFloat", "jsonmatcher/expr_float.go"), ("getNumberVal", "jsonmatcher/json_values.go"), ("exprNumeric, exprBetween, exprEQ", "jsonmatcher/expr_numeric.go, expr_between.go, expr_eq.go")],
  ["Matcher.Match"])
p("C14", "String terms find their words, case-insensitively and with wildcards",
  "A non-empty ASCII string term holds for a string that contains it, ignoring case, where ? stands for any one character, * for any run of characters, \\? and \\* for themselves and every other character for itself; an end of the term that is a letter, digit, underscore or wildcard must fall on a word boundary. A term with non-ASCII characters holds for a string that contains it anywhere, ignoring case, with the same wildcards, and without wildcards also ignores width and diacritics. Numbers are searched as their decimal notation.",
  ["inputs"], "all terms and string values",
  "The tests search about ten terms in fixed sentences; wildcards, escapes, punctuation and boundaries combine freely.",
  ["jsonmatcher/str_matchers.go", "jsonmatcher/expr_eq.go", "jsonmatcher/expr_regexp.go"],
  [("getStringMatcher, stringSearchRegexp, wordBounds", "jsonmatcher/str_matchers.go"), ("unicodeMatcher", "jsonmatcher/str_matchers.go")],
  ["Matcher.Match"])
p("C15", "Regular-expression terms match as the Go regular expression written",
  "A regular-expression term holds for a string (or a number in decimal notation) exactly when the regular expression written between the slashes, with only the escaping of slashes removed, matches somewhere in the decoded string. It is case-sensitive unless it says otherwise, and the similarity operator does not change it.",
  ["inputs"], "all regular expressions and string values",
  "The tests try ten expressions; escapes at the ends, anchors, flags and special characters in values are not covered.",
  ["jsonmatcher/expr_regexp.go", "parser/ast/ast.go", "internal/grammar/aql.peg"],
  [("exprRegexp", "jsonmatcher/expr_regexp.go"), ("NewRegexpVal", "parser/ast/ast.go"), ("RegexValue, unescapeSlashes", "internal/grammar/aql.peg")],
  ["Matcher.Match"])
p("C16", "Timestamp comparisons follow the instants of the times compared",
  "For a value that can be read as a date or time, the operators <, <=, > and >= hold exactly when its instant has that relation to the operand's (a bare date being its midnight UTC), and between holds from its first to its second bound, both included. Equality with a date holds for exactly the instants of that UTC day, and equality with a date-time for exactly that instant, in whatever time zone either is written and for any year from 0001 to 9999. A value that cannot be read as a time satisfies none of them.",
  ["inputs"], "all pairs of instants, notations, time zones and operators",
  "The tests compare four dates of January 1970 with a few operands; day ends, zones, fractions, leap days and far years are not covered.",
  ["jsonmatcher/expr_datetime.go", "jsonmatcher/expr_eq.go", "jsonmatcher/expr_numeric.go", "jsonmatcher/expr_between.go", "jsonmatcher/json_values.go", "parser/ast/ast.go"],
  [("exprDatetime", "jsonmatcher/expr_datetime.go"), ("getDatetimeVal", "jsonmatcher/json_values.go"), ("NewTimeVal", "parser/ast/ast.go")],
  ["Matcher.Match"])
p("C17", "Network terms hold exactly for addresses and blocks that overlap them",
  "A network term holds for a string exactly when one of the IPv4 addresses or CIDR blocks written anywhere in it overlaps the address or block of the term, for every prefix length from 0 to 32 and whether or not host bits are set. Text that is not a valid address or block is passed over without hiding the others in the string.",
  ["inputs"], "all addresses, prefix lengths and strings containing them",
  "The tests check nine fixed pairs; overlap depends on every bit and both prefix lengths.",
  ["jsonmatcher/expr_net.go", "parser/ast/ast.go"],
  [("exprNet, getNets", "jsonmatcher/expr_net.go"), ("NewNetVal", "parser/ast/ast.go")],
  ["Matcher.Match"])
p("C18", "An equality list is the disjunction of its values, in any order",
  "A comparison with a list of values holds for a document exactly when the comparison with at least one of the values alone does, for lists of any length and any mix of value types, independent of the order of the list.",
  ["inputs"], "all lists of values and all documents",
  "The tests try four lists; each position and mix of types can be dropped or shadowed by another.",
  ["jsonmatcher/expr_eq.go", "jsonmatcher/nodes.go"],
  [("exprEQ", "jsonmatcher/expr_eq.go"), ("exprNode.result", "jsonmatcher/nodes.go")],
  ["Matcher.Match"])
p("C19", "Values of one JSON type are never mistaken for another",
  "A boolean term holds exactly for the same JSON boolean and never for strings, numbers or null. String, regular-expression, network and timestamp terms never hold for booleans, null, objects or arrays of these; numeric terms hold for no boolean, null, object or string that does not spell a number. Objects satisfy no comparison of values, and null only null and exists.",
  ["inputs"], "all pairs of operand type and document value type",
  "The boolean tests are skipped in the repository and few other pairs are tried.",
  ["jsonmatcher/json_values.go", "jsonmatcher/expr_equal_bool.go", "jsonmatcher/expr_null.go"],
  [("getBoolVal, getStringVal, getNumberVal, getDatetimeVal", "jsonmatcher/json_values.go"), ("exprEqBool", "jsonmatcher/expr_equal_bool.go")],
  ["Matcher.Match"])
p("C20", "The result depends on what a document says, not on how it is written",
  "Two JSON texts that denote the same value (with different white space, order of distinct keys, escapes in keys and strings, or spelling of numbers) have the same result for every query. Escaped characters in keys and strings stand for the characters themselves, and structural characters inside strings never affect the result.",
  ["inputs"], "all documents and all their equivalent spellings",
  "The tests use a single document in a single spelling.",
  ["jsonmatcher/json_values.go", "jsonmatcher/jsonmatcher.go"],
  [("getValues, getStringVal, getNumberVal", "jsonmatcher/json_values.go")],
  ["Matcher.Match"])
p("C21", "Matching never panics and fails exactly on invalid JSON",
  "For every accepted query and every byte string, matching returns without panicking: with an error and false when the bytes are not one valid JSON text, and with a result and no error when they are, whatever the type and shape of the text. It never modifies the bytes.",
  ["inputs"], "all accepted queries and all byte strings",
  "The tests match one valid document and no invalid one.",
  ["jsonmatcher/jsonmatcher.go", "jsonmatcher/json_values.go", "jsonmatcher/build_matcher.go"],
  [("Match, json.Valid", "jsonmatcher/jsonmatcher.go"), ("backstop panics made unreachable by validation", "jsonmatcher/build_matcher.go, parser/validators.go")],
  ["Matcher.Match"])
p("C22", "Matching has no memory beyond its counters, and the counters are exact",
  "The result for a document does not depend on which documents the same matcher or any other saw before, on failed calls, or on what the caller does with its buffers between calls. The statistics of a matcher count exactly the calls that returned a result and those of them that matched; reading statistics, messages or the query changes nothing.",
  ["histories"], "all sequences of matches, failed matches and reads of a matcher, with new or reused buffers",
  "Every test builds a new matcher, uses it once and never reads its statistics.",
  ["jsonmatcher/jsonmatcher.go", "jsonmatcher/nodes.go", "jsonmatcher/node_stats.go"],
  [("immutable expression tree", "jsonmatcher/nodes.go"), ("nodeStats.mark, toStatsNode", "jsonmatcher/node_stats.go")],
  ["Matcher.Match, Stats, Messages, Query"],
  [("timesChecked, timesMatched", "calls with a result and with a match", "jsonmatcher/node_stats.go")])
p("C23", "One matcher can be used from many goroutines at once",
  "When goroutines use one matcher concurrently, every match returns the result it has sequentially, the final statistics count every call, statistics read on the way never exceed the calls begun nor show more matches than checks, and there is no data race. Building matchers and parsing queries concurrently gives the same outcome as doing it one after the other.",
  ["schedules"], "all interleavings of matches, statistics reads and parses",
  "No test starts a second goroutine.",
  ["jsonmatcher/nodes.go", "jsonmatcher/node_stats.go", "jsonmatcher/jsonmatcher.go", "jsonmatcher/str_matchers.go", "parser/parser.go"],
  [("atomic counters", "jsonmatcher/node_stats.go"), ("no shared scratch state", "jsonmatcher/json_values.go, jsonmatcher/str_matchers.go")],
  ["Matcher.Match, Matcher.Stats, NewMatcher under all schedules"],
  [("timesChecked, timesMatched", "counters shared by goroutines", "jsonmatcher/node_stats.go")])
p("C24", "Advice about a query is complete, positioned, and only advice",
  "A matcher reports a warning for each equality with a full date-time and for each string or regular expression under the similarity operator, a warning for each case-insensitive regular expression with non-ASCII characters, and hints for a regular expression that starts or ends with .*, is wrapped in one capturing group or is an alternation of plain words; each is positioned at its value, in the order of the query, and queries with none of these get no such message. Advice never changes whether a query is accepted or what it matches.",
  ["inputs"], "all queries, with values needing advice at every place",
  "No test reads a message.",
  ["jsonmatcher/query_messages.go", "jsonmatcher/jsonmatcher.go", "parser/visitors.go"],
  [("messageVisitor", "jsonmatcher/query_messages.go"), ("MessageTape.WarningAt, HintAt", "parser/visitors.go")],
  ["Matcher.Messages"])
p("C25", "The sampler reports exactly the key paths that end in scalars",
  "After sampling a document whose root is an object or array, the keys are exactly the dot-joined key paths that lead from the root to a scalar (null included), going transparently through arrays but not through arrays directly inside arrays, with segments containing spaces in quotes, and limited to paths of at most the given number of segments (unlimited if negative). Containers without such a scalar contribute nothing.",
  ["inputs"], "all documents and depth limits",
  "The tests sample three documents at one depth limit.",
  ["sampler/sampler.go"],
  [("sample", "sampler/sampler.go")],
  ["Sampler.Keys"])
p("C26", "Sampler counts and thresholds are per document, over any history",
  "After any sequence of samples and resets, the number of scanned documents is that of the successful samples since the last reset, the keys are the union of their keys, and the keys at a threshold of p percent are exactly those found in at least p percent of these documents, however often a key occurs within one document. Reading results changes nothing.",
  ["histories"], "all sequences of samples and resets, all thresholds",
  "The tests run one fixed history of 100 samples with one threshold, and never reset.",
  ["sampler/sampler.go"],
  [("Sample, KeysAtThreshold, Reset, Scanned", "sampler/sampler.go")],
  ["Sampler.Keys, KeysAtThreshold, Scanned"],
  [("keys, totalDocs", "documents containing each key, and documents sampled", "sampler/sampler.go")])
p("C27", "A bad sample is reported and leaves the sampler as it was",
  "Sampling never panics, whatever the bytes. A sample that is empty, is not an object or array from its first to its last byte, or has an unreadable value on a sampled path is reported as an error; then the keys, counts and scanned documents are what they were before, and later samples work as if it had not happened.",
  ["inputs", "fault_sequences", "histories"], "all byte strings, at any point of a history of samples",
  "The tests give seven bad documents to fresh samplers, and never use a sampler after an error.",
  ["sampler/sampler.go"],
  [("Sample error paths", "sampler/sampler.go")],
  ["Sampler.Sample error, Keys, KeysAtThreshold, Scanned"])
p("C28", "Every sampled key path is a query field that exists where it was sampled",
  "Each key path the sampler reports for a document with an object root and keys of letters, digits, _, - and spaces is accepted as a field of a query, and the exists query for it matches that document. Conversely, a field made of a document's keys for which some scalar comparison holds is among the paths sampled without a depth limit.",
  ["inputs"], "all documents with such keys",
  "No test uses the sampler and the matcher together.",
  ["sampler/sampler.go", "jsonmatcher/json_values.go", "internal/grammar/aql.peg"],
  [("path quoting in sample", "sampler/sampler.go"), ("Field rule", "internal/grammar/aql.peg"), ("getValues", "jsonmatcher/json_values.go")],
  ["Sampler.Keys fed to NewMatcher"])
p("C29", "Printed messages show the right part of the query and mark it exactly",
  "For every single-line query, message position and maximum width, the printed query is the whole query or a contiguous part of it at most the maximum width long, with ... standing for each end cut off, and the text before, inside and after the highlight concatenate to it. The highlight is exactly the text at the position, cut only when it is wider than the maximum; the terminal marker stands under it; and printing never fails. A message without position is printed without a highlight.",
  ["inputs", "configurations"], "all queries, positions and maximum widths",
  "The formatter has no tests.",
  ["parser/fmtmsg/formatter.go", "parser/fmtmsg/truncate.go", "parser/fmtmsg/functions.go"],
  [("printData methods", "parser/fmtmsg/formatter.go"), ("findCenterSubstring", "parser/fmtmsg/truncate.go")],
  ["Printer.Sprint with terminal and custom templates"])
p("C30", "A query graph has exactly the shape and the contents of the query",
  "The graph of an accepted query has one node for each operator and comparison of its tree, an edge from each operator to each of its operands in order, one edge from the start marker to the root, and labels that show each operator, and each comparison's field, operation, value types and values, whatever characters they contain. The title of the graph is the query. A query that does not parse gives the parse error and no graph.",
  ["inputs"], "all queries",
  "The graph package has no tests.",
  ["aqlgraph/graph.go", "aqlgraph/node_html.go"],
  [("QueryGraph, visitNodes", "aqlgraph/graph.go"), ("labelTmpl", "aqlgraph/node_html.go")],
  ["Graph.OutputDOT"])
p("C31", "The command-line tools report what the library computes",
  "The matching command prints true or false exactly as the library decides for the query (given directly or in an .aql file) and the JSON file, with the root's counters after it and the query's advice on standard error, and exits with a failure and no result for a query that does not parse, a file it cannot read or invalid JSON. The graph command writes the graph of the query to the named .svg or .dot file (by default an .svg), and fails without writing for a bad query or another file type.",
  ["inputs", "configurations"], "all argument combinations",
  "The commands have no tests.",
  ["cmd/aqltest/main.go", "cmd/aqlgraph/main.go"],
  [("main", "cmd/aqltest/main.go"), ("main", "cmd/aqlgraph/main.go")],
  ["exit status, standard output and error, files written"])
p("C32", "The browser playground reports the tree or the errors of every input",
  "For every text, the playground's parse function returns without throwing: for an accepted query the tree and the query's advice, for any other an empty tree and one error message, each message with its type and with the start and end of the position the parser reports for it, as indices of the JavaScript string. For an incomplete query the error is placed on the end of the input.",
  ["inputs"], "all texts typed into the playground",
  "Nothing is run in wasm by the tests.",
  ["wasm/aqlparse/main.go", "wasm/aqlparse/warnings.go"],
  [("pWrap, parseAQL, errConvert, msgConvert", "wasm/aqlparse/main.go"), ("warningVisitor", "wasm/aqlparse/warnings.go")],
  ["parseAQL called from JavaScript"])
p("C33", "The playground server serves only its registered files",
  "For every request path, the development server answers with the content of one of its registered files or the index page under that file's own name, or with a redirect or an error. No spelling of a path (dot segments, encodings, repeated slashes, absolute or nested paths) returns any other file of the disk.",
  ["inputs"], "all request paths",
  "The server has no tests.",
  ["wasm/aqlparse/server/main.go"],
  [("DiskFS.Open, DiskFS.AddFile", "wasm/aqlparse/server/main.go")],
  ["HTTP responses"])

p("C34", "The parser is the one its grammar file describes",
  "The parser that is compiled into the program behaves as the one generated from the grammar file in the tree: for every text both accept with the same tree, values and positions, or both reject with an error at the same position. The grammar file is one the generator accepts.",
  ["inputs"], "all texts",
  "The tests only run the committed parser; no test looks at the grammar file.",
  ["internal/grammar/aql.peg", "internal/grammar/parser_gen.go", "internal/grammar/go_generate.go"],
  [("grammar rules and actions", "internal/grammar/aql.peg"), ("generated rules and actions", "internal/grammar/parser_gen.go")],
  ["ParseQuery built with either parser"])
p("C35", "Printed queries, errors and messages say what was parsed",
  "The printed form of a query is its tree in prefix form: && and || with two operands, ! with one, and each comparison as operator, field, and its value or its list of values in brackets, all in order, with strings quoted and a field segment quoted if it has a space, dot or quote; the statistics name the root as AND, OR or NOT, or as the comparison in query notation. A parse error is printed as line:column(offset) and its text, and a message as its type, the same position if it has one, and its text. The JSON of both has the text and the position's line, column, offset and length, and that of a message also its type by name.",
  ["inputs"], "all queries and messages",
  "The tests print some queries and errors, but neither statistics names nor messages nor JSON, and few values that need quotes.",
  ["parser/ast/ast.go", "parser/message.go", "internal/grammar/aql.peg", "jsonmatcher/nodes.go"],
  [("String, FriendlyString, FieldString", "parser/ast/ast.go"), ("ParserMessage.String, MessageType.MarshalJSON", "parser/message.go"), ("ParseError.Error", "internal/grammar/aql.peg")],
  ["Node.String, Matcher.Stats, ParseError.Error, ParserMessage.String and JSON"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for e in P:
        assert len(e["title"]) <= 80, (e["id"], len(e["title"]))
        f.write(json.dumps(e, ensure_ascii=False) + "\n")
