#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. One P(...) call per property."""
import json, os
OUT = []

def P(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        a["observe_at"] = observe
    assert len(title) <= 80, (id, len(title))
    OUT.append({"id": id, "title": title, "statement": statement,
                "quantifier": {"over": over, "text": text},
                "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- structure
P("C01", "Schema-driven reading of a native body delivers every item exactly once",
  "For any native-syntax body and any sequence of complete, partial and attributes-only reads of it and of its remainders, each argument and block is delivered to exactly the first read whose schema names it, with its own name, labels and content, blocks in source order. "
  "A read reports an error exactly when a required argument is absent, an argument or block that no read asked for is left over in a complete read, a block has the wrong number of labels, an argument and block are confused, or an attributes-only read meets a block that is still unread. "
  "Reading in two steps gives the same items as one read with the combined schema.",
  ["inputs", "histories"], "every body (arguments, blocks, labels, nesting), every schema, every sequence of reads over remainders",
  "Tests read a handful of fixed bodies with one or two schemas; interleavings of partial, complete and attributes-only reads over remainders are open-ended.",
  ["hcl/hclsyntax/structure.go"],
  [("hidden names carried by remainders", "hclsyntax/structure.go Body.PartialContent"), ("attributes-only read", "hclsyntax/structure.go Body.JustAttributes")],
  [("hidden attribute and block names", "what earlier partial reads have consumed")])

P("C02", "JSON bodies follow the documented JSON mapping of arguments and blocks",
  "For any JSON document used as a body, and any sequence of complete, partial and attributes-only reads, arguments, blocks and labels are found exactly where the JSON syntax specification puts them: properties, nested label objects, arrays of objects flattened in order, null meaning absent, and the comment property ignored where allowed. "
  "Each item is delivered exactly once, in source order, and an error is reported exactly when the specification makes the structure invalid for the schema.",
  ["inputs", "histories"], "every JSON value, every schema, every sequence of reads over remainders",
  "Tests cover fixed documents; combinations of label depth, arrays at each level, nulls and duplicate properties with schemas are unbounded.",
  ["hcl/json/structure.go"],
  [("nested label unpacking", "json/structure.go body.unpackBlock"), ("array flattening", "json/structure.go body.collectDeepAttrs")])

P("C03", "Merged bodies behave like one body made of all their parts",
  "Reading a merge of any number of bodies gives the union of their arguments and the concatenation of their blocks in the order the bodies were given, for complete, partial and attributes-only reads and for their remainders. "
  "An argument defined in more than one part, and a required argument defined in none, are reported as errors exactly once; nothing else becomes an error because of the merge.",
  ["inputs", "histories"], "every list of bodies (also nested merges and mixed syntaxes), every schema, every sequence of reads",
  "Tests merge two or three tiny bodies with fixed schemas.",
  ["hcl/merged.go"],
  [("merging reads", "hcl/merged.go mergedBodies.mergedContent")])

P("C04", "Native structural syntax is parsed into exactly the written arguments and blocks",
  "A source text is accepted as configuration exactly when it follows the structural grammar (arguments, blocks with bare or quoted labels, single-line blocks, comments, newline rules), and the result lists exactly the arguments, blocks, labels and nested bodies written, in order. "
  "A repeated argument name in one body is an error.",
  ["inputs"], "every token sequence over the structural grammar, with any layout and comments",
  "Tests parse a fixed list of snippets; acceptance of arbitrary token sequences with newlines in every position is not enumerated.",
  ["hcl/hclsyntax/parser.go", "hcl/hclsyntax/peeker.go"],
  [("body grammar", "hclsyntax/parser.go parser.ParseBody"), ("newline sensitivity stack", "hclsyntax/peeker.go peeker.IncludeNewlinesStack")])

# ---------------------------------------------------------------- expressions
P("C05", "Expressions evaluate to the value the language specification defines",
  "For any expression over known and null values, evaluation gives exactly the value and type that the language specification defines (literals, operators, conditionals, indexing and attribute access, splats, for expressions, tuple and object construction, function calls with argument expansion, automatic conversions), looking names up in the innermost scope that defines them. "
  "It reports an error exactly when the specification makes the operation invalid, and never both panics and returns.",
  ["inputs", "programs"], "every expression tree and every scope chain of values",
  "The evaluation tests are a table of a few hundred expressions; operand type combinations and nestings multiply far beyond that.",
  ["hcl/hclsyntax/expression.go", "hcl/hclsyntax/expression_ops.go", "hcl/hclsyntax/expression_template.go", "hcl/ops.go", "hcl/traversal.go"],
  [("evaluation", "hclsyntax/expression.go *.Value"), ("indexing", "hcl/ops.go Index, GetAttr")])

P("C06", "Unknown values stay unknown and never lead to a wrong result",
  "When some inputs of an expression are unknown, evaluation never panics and yields exactly the unknown-ness and result type the evaluation rules define. "
  "If it succeeds, then replacing unknown inputs of a known type by any non-null values of that type either reproduces every part of the result that was known, with the same known type, or reports an error that depends on those values.",
  ["inputs", "programs"], "every expression, every assignment of unknown and dynamically-typed values to variables, and every later refinement of them",
  "Tests hold about fifty expressions with unknowns and never relate an unknown evaluation to its refinements.",
  ["hcl/hclsyntax/expression.go", "hcl/hclsyntax/expression_template.go", "hcl/ops.go"],
  [("unknown handling", "hclsyntax/expression.go ForExpr.Value, SplatExpr.Value, ConditionalExpr.Value")])

P("C07", "Expression text is grouped by the grammar: precedence, associativity, newlines",
  "A token sequence is accepted as an expression exactly when the expression grammar derives it, and the resulting tree is the one fixed by operator precedence, left associativity, the right-associative conditional, postfix traversals and parentheses. "
  "Spaces, comments and, inside brackets, newlines never change the result, and a newline outside brackets ends the expression.",
  ["inputs"], "every sequence of expression tokens with every placement of newlines, comments and spaces",
  "Tests parse chosen expressions; they do not enumerate token sequences or layouts.",
  ["hcl/hclsyntax/parser.go", "hcl/hclsyntax/peeker.go", "hcl/hclsyntax/public.go"],
  [("precedence climbing", "hclsyntax/parser.go parser.parseBinaryOps"), ("postfix traversals", "hclsyntax/parser.go parser.parseExpressionTraversals")])

P("C08", "Reported variables are exactly the free references of an expression",
  "The variables reported for an expression, a template or a JSON expression are exactly its references to names of the root scope, each with its full static path, excluding names bound by enclosing for constructs and splats. "
  "Evaluating with a scope holding only the reported root names gives the same result as evaluating with any larger scope.",
  ["inputs", "programs"], "every expression tree with nested local scopes, every scope",
  "Tests list about thirty expressions with their variables.",
  ["hcl/hclsyntax/variables.go", "hcl/hclsyntax/expression_vars.go", "hcl/json/structure.go"],
  [("scoped walk", "hclsyntax/variables.go variablesWalker"), ("JSON string templates", "json/structure.go expression.Variables")])

P("C09", "Tokens reproduce their source byte for byte with exact positions",
  "Scanning any byte sequence as configuration, expression or template yields tokens that appear in order without overlap, whose bytes are the source bytes at their positions, with only spaces and tabs (and a leading byte order mark) between them and one end-of-file token last. "
  "Every token's line, column and byte offset is the true position, from any starting position, and template and heredoc nesting is delimited the same way at every depth.",
  ["inputs"], "every byte sequence, every start position, every nesting of quotes, interpolations, heredocs and braces",
  "Scanner tests list fixed inputs; nesting of template modes and arbitrary bytes is unbounded.",
  ["hcl/hclsyntax/scan_tokens.rl", "hcl/hclsyntax/scan_tokens.go", "hcl/hclsyntax/token.go", "hcl/hclsyntax/public.go"],
  [("mode stack", "hclsyntax/scan_tokens.rl fcall/fret, heredocs stack"), ("position accounting", "hclsyntax/token.go tokenAccum.emitToken")],
  [("scanner stack", "nested template / heredoc / brace contexts")])

P("C10", "No input can crash or hang a parser, and failures are always reported",
  "For any byte sequence, parsing it as native configuration, expression, template, traversal, JSON or for rewriting always terminates without panicking and returns a usable result. "
  "Every diagnostic and every returned node has a source range inside the given source; invalid input always produces at least one error and valid input none.",
  ["inputs"], "every byte sequence: valid documents, truncations, mutations, random bytes",
  "Tests give valid or slightly wrong inputs; they never cut or mutate them at every position.",
  ["hcl/hclsyntax/parser.go", "hcl/hclsyntax/scan_tokens.rl", "hcl/json/parser.go", "hcl/json/scanner.go", "hclwrite/parser.go"],
  [("error recovery", "hclsyntax/parser.go parser.recover"), ("token stream end", "json/scanner.go scan")])

P("C11", "String literals and templates produce exactly the text they denote",
  "A quoted template evaluates to its literal characters with escape sequences decoded, doubled template markers made literal, and interpolations replaced by their values converted to strings; a template that is only one interpolation keeps that value's type. "
  "Invalid escapes are reported as errors, and if/else/endif and for/endfor sequences with strip markers remove and repeat exactly the text the specification says.",
  ["inputs"], "every sequence of literal characters, escapes, interpolations, directives and strip markers, nested to any depth",
  "Tests hold a few dozen templates; adjacency of escapes, markers and newlines is not enumerated.",
  ["hcl/hclsyntax/parser_template.go", "hcl/hclsyntax/parser.go", "hcl/hclsyntax/scan_string_lit.rl", "hcl/hclsyntax/expression_template.go"],
  [("escape decoding", "hclsyntax/parser.go parser.decodeStringLit"), ("strip markers", "hclsyntax/parser_template.go parseTemplateParts")])

P("C12", "Heredocs keep their lines, and flush heredocs remove only common indentation",
  "A heredoc evaluates to exactly the lines between its markers, including every newline, ending only at a line holding just its own marker (apart from leading spaces), with template sequences active and backslashes literal. "
  "A flush heredoc removes from every line the smallest indentation found on any of its lines and nothing else.",
  ["inputs"], "every list of lines with any indentation, interpolations and near-miss marker lines",
  "Tests hold about a dozen heredocs.",
  ["hcl/hclsyntax/scan_tokens.rl", "hcl/hclsyntax/parser_template.go", "hcl/hclsyntax/parser.go"],
  [("heredoc end detection", "hclsyntax/scan_tokens.rl heredocNewline"), ("flush", "hclsyntax/parser_template.go flushHeredocTemplateParts")])

# ---------------------------------------------------------------- JSON
P("C13", "JSON text is accepted exactly when it is valid JSON, and keeps its values",
  "The JSON parser accepts a text exactly when it is one valid JSON document whose root is allowed, and the values read back (strings with escapes, numbers, booleans, null, nested objects and arrays, repeated properties in order) equal those the JSON standard gives. "
  "Everything else is rejected with at least one error, without panicking.",
  ["inputs"], "every token and character sequence over JSON",
  "Tests list some eighty documents.",
  ["hcl/json/parser.go", "hcl/json/scanner.go", "hcl/json/public.go"],
  [("value grammar", "json/parser.go parseValue, parseObject, parseArray"), ("scanning", "json/scanner.go scan")])

P("C14", "JSON expressions evaluate like their documented native counterparts",
  "A JSON value used as an expression evaluates to the documented result: strings as templates when variables or functions are available and literally otherwise, numbers, booleans and null as themselves, arrays as tuples and objects as objects with template keys. "
  "Static analysis as list, map, call, keyword or traversal accepts exactly the documented JSON forms and agrees with the equivalent native expression.",
  ["inputs", "programs"], "every JSON value as an expression, every scope",
  "Tests cover a few values per kind.",
  ["hcl/json/structure.go"],
  [("evaluation", "json/structure.go expression.Value"), ("static analysis", "json/structure.go expression.ExprList, ExprMap, ExprCall, AsTraversal")])

# ---------------------------------------------------------------- hclwrite
P("C15", "Every sequence of edits leaves exactly the edited content and nothing else",
  "After any history of edits through the configuration writer (setting arguments to values or references, appending blocks and raw tokens, clearing, renaming reference prefixes, reading back between edits), the produced text parses and holds exactly the arguments, blocks and references the history calls for. "
  "Items that were not edited keep their text, comments and order, and reads between edits report the current state.",
  ["histories", "inputs"], "every starting file and every sequence of edit and read operations",
  "Tests apply one edit to a small file.",
  ["hclwrite/ast.go", "hclwrite/ast_body.go", "hclwrite/ast_block.go", "hclwrite/ast_attribute.go", "hclwrite/ast_expression.go", "hclwrite/node.go"],
  [("edit operations", "hclwrite/ast_body.go Body.SetAttributeValue etc."), ("node list", "hclwrite/node.go")],
  [("syntax tree", "linked list of nodes per body, with the set of its items")])

P("C16", "Loading a file for rewriting and saving it unchanged is lossless",
  "Any valid configuration text loaded for rewriting keeps every token, comment and space, so that its tokens written back without edits are the source text (a byte order mark dropped, and the layout tabs between tokens counting as spaces) and saving it gives exactly the canonical formatting of the source. "
  "The loaded tree lists exactly the arguments, blocks and references of the source, so that reading them through the writer agrees with the ordinary parser.",
  ["inputs"], "every valid configuration, with any layout, comments and expressions",
  "Tests round-trip about forty snippets.",
  ["hclwrite/parser.go", "hclwrite/ast.go", "hclwrite/node.go"],
  [("token partitioning", "hclwrite/parser.go inputTokens.Partition*"), ("lossless writing", "hclwrite/ast.go File.WriteTo")])

P("C17", "Formatting changes only layout, is stable, and keeps the meaning",
  "Formatting any configuration text changes nothing but spaces (and newline placement is kept), so the formatted text has the same tokens, comments and literal contents, and parses to the same configuration. "
  "Formatting an already formatted text changes nothing, and its layout is the canonical one: two spaces per nesting level, aligned equals signs and trailing comments in consecutive lines, single spaces around operators.",
  ["inputs"], "every token sequence with every original spacing, line structure and nesting",
  "Tests format about thirty snippets.",
  ["hclwrite/format.go", "hclwrite/public.go"],
  [("indent", "hclwrite/format.go formatIndent"), ("spacing", "hclwrite/format.go formatSpaces, spaceAfterToken"), ("alignment", "hclwrite/format.go formatCells")])

P("C18", "Values and references written as source read back unchanged",
  "Any known value turned into source tokens parses and evaluates back to the same value (collections as the equivalent tuple or object), whatever characters its strings and keys contain, and any reference path of names and string or non-negative whole number keys turned into tokens parses back to the same path. "
  "This also holds when they are set as arguments of a file being rewritten.",
  ["inputs"], "every known value of every type and every reference path",
  "Tests give about twenty-five values.",
  ["hclwrite/generate.go", "hclwrite/ast_body.go"],
  [("value to tokens", "hclwrite/generate.go appendTokensForValue"), ("escaping", "hclwrite/generate.go escapeQuotedStringLit")])

# ---------------------------------------------------------------- decoding
P("C19", "Spec-driven decoding yields the specified value and always its implied type",
  "Decoding a body with a decoding specification gives exactly the value the specification describes (arguments, nested blocks as single value, list, tuple, set, map, object or attribute map, labels, defaults, literals and transformations), and the result always conforms to the type implied by the specification, with unknown or null placeholders when there are errors. "
  "Errors are reported exactly for missing required items, too few or too many blocks, duplicate keys, and values that do not convert.",
  ["inputs", "programs"], "every specification tree and every body",
  "Tests decode some fifty combinations; specifications nest arbitrarily.",
  ["hcldec/spec.go", "hcldec/decode.go", "hcldec/schema.go", "hcldec/public.go"],
  [("decoding", "hcldec/spec.go *Spec.decode"), ("type inference", "hcldec/spec.go *Spec.impliedType")])

P("C20", "Variables reported for a body suffice to decode it",
  "The variables reported for a body under a decoding specification or schema walk, with and without dynamic blocks, are exactly the root references in the expressions that decoding evaluates, leaving out names of block iterators. "
  "Decoding with a scope containing only those names therefore behaves as with any larger scope.",
  ["inputs", "programs"], "every specification tree and every body, with nested dynamic blocks and custom iterators",
  "Tests list about thirty bodies.",
  ["hcldec/variables.go", "hcldec/spec.go", "ext/dynblock/variables.go", "ext/dynblock/variables_hcldec.go"],
  [("spec walk", "hcldec/variables.go Variables"), ("dynamic walk", "ext/dynblock/variables.go WalkVariablesNode")])

P("C21", "Struct decoding and encoding agree with the configuration content",
  "Decoding a body into a tagged Go structure stores exactly the arguments, labels, nested blocks and remaining body that the tags ask for, reports missing required and unexpected items, and handles optional, pointer, slice and remain fields as documented. "
  "Encoding a structure as configuration and decoding it again gives an equal structure.",
  ["inputs", "programs"], "every tagged structure type of the supported shapes, every body and every structure value",
  "Tests use a fixed set of small structures.",
  ["gohcl/decode.go", "gohcl/encode.go", "gohcl/schema.go"],
  [("decoding", "gohcl/decode.go decodeBodyToStruct"), ("encoding", "gohcl/encode.go populateBody")])

P("C22", "Dynamic block expansion equals writing the generated blocks out by hand",
  "Reading a body with dynamic blocks expanded gives the same arguments, blocks, labels and values as reading the body in which each dynamic block is replaced, in place, by one copy of its content per element with the iterator name bound to that element, including nested dynamic blocks, custom iterators, label expressions and shadowing. "
  "An unknown collection gives one block whose values are all unknown, and invalid collections, labels or iterators are reported as errors.",
  ["inputs", "histories"], "every body with nested dynamic blocks, every collection value, every sequence of reads",
  "Tests cover one level with a few collections.",
  ["ext/dynblock/expand_body.go", "ext/dynblock/expand_spec.go", "ext/dynblock/iteration.go", "ext/dynblock/expr_wrap.go", "ext/dynblock/unknown_body.go"],
  [("expansion", "ext/dynblock/expand_body.go expandBody.expandBlocks"), ("iterator scopes", "ext/dynblock/iteration.go")])

P("C23", "Packed configuration survives serialization unchanged",
  "A native configuration packed into its portable form, serialized, and read back gives the same arguments, blocks, labels, expressions, evaluated values and source positions as the original file, under any reads. "
  "Reading damaged serialized data returns an error or a usable body, and never panics.",
  ["inputs", "histories"], "every native configuration, every start position, every corrupted serialization",
  "Tests pack two small files.",
  ["hclpack/pack_native.go", "hclpack/structure.go", "hclpack/expression.go", "hclpack/json_marshal.go", "hclpack/positions_packed.go", "hclpack/vlq.go"],
  [("position packing", "hclpack/positions_packed.go"), ("expression source", "hclpack/pack_native.go packNativeExpr")])

# ---------------------------------------------------------------- misc API
P("C24", "The parser cache returns one consistent file per name and remembers sources",
  "In any history of parsing from memory and from files, in either syntax and with failing or missing files, each file name is parsed once, later requests return the same file without repeating its diagnostics, and every successfully read name is listed with the exact source bytes that were parsed. "
  "No history makes a later call fail or panic.",
  ["histories", "fault_sequences"], "every sequence of parse, lookup and listing calls over names that exist, are missing, are unreadable or are invalid",
  "There are no tests of call sequences for this component.",
  ["hclparse/parser.go"],
  [("cache", "hclparse/parser.go Parser.files")], [("file table", "file name to parsed file")])

P("C25", "Source range arithmetic is exact and range scanning tiles the source",
  "Containment, overlap, partitioning, bounding and slicing of source ranges agree with the set of byte offsets the ranges denote, for empty, adjacent and nested ranges in any order. "
  "Scanning a buffer piece by piece yields contiguous ranges with true lines, columns and bytes that cover the whole buffer from any starting position.",
  ["inputs"], "every pair of ranges, every buffer and splitting function, every start position",
  "Tests compute a dozen pairs.",
  ["hcl/pos.go", "hcl/pos_scanner.go"],
  [("set operations", "hcl/pos.go Range.PartitionAround, Overlap, ContainsPos"), ("scanner", "hcl/pos_scanner.go RangeScanner.Scan")])

P("C26", "Reference paths parse, split, join and resolve consistently",
  "Text is accepted as an absolute reference path exactly when it is a root name followed by attribute names and constant indices, and the path obtained equals the one obtained by analysing the same text as an expression. "
  "Splitting a path and joining it again gives the same path, and resolving it in a scope gives the same result as evaluating the expression.",
  ["inputs"], "every traversal text and every scope chain",
  "Tests list about fifteen paths.",
  ["hcl/hclsyntax/parser_traversal.go", "hcl/traversal.go", "hcl/traversal_for_expr.go", "hcl/expr_call.go", "hcl/expr_list.go", "hcl/expr_map.go"],
  [("traversal parser", "hclsyntax/parser_traversal.go"), ("static analysis", "hcl/traversal_for_expr.go")])

P("C27", "Parsed configuration can be evaluated concurrently without interference",
  "Evaluations of the same parsed expression or body running concurrently, each with its own evaluation context (also contexts sharing a parent), give each caller exactly the result of evaluating alone, under every interleaving, without data races. "
  "This includes splats nested in splats and splats over values that themselves trigger evaluation.",
  ["schedules"], "every interleaving of any number of concurrent evaluations of shared expressions",
  "Tests evaluate sequentially.",
  ["hcl/hclsyntax/expression.go"],
  [("per-context splat item", "hclsyntax/expression.go AnonSymbolExpr")], [("splat item table", "evaluation context to current item")])

P("C28", "Type constraint expressions and their printed forms round-trip",
  "A type constraint expression in native or JSON syntax denotes exactly the type its grammar defines, 'any' is allowed exactly where constraints (not exact types) are wanted, and every other expression is rejected with an error. "
  "Printing any type and parsing it again gives the same type.",
  ["inputs"], "every type and every expression offered as a type",
  "Tests list about thirty types.",
  ["ext/typeexpr/get_type.go", "ext/typeexpr/public.go"],
  [("interpretation", "ext/typeexpr/get_type.go getType"), ("printing", "ext/typeexpr/public.go TypeString")])

P("C29", "User-defined functions compute their result expression over their arguments",
  "A user-defined function called with arguments returns the value of its result expression with parameters bound to the arguments, extra arguments as a tuple when variadic, over the base context; too few or too many arguments and failing result expressions are errors. "
  "Definitions that are invalid are reported and never panic, and the remaining body excludes exactly the function blocks.",
  ["inputs", "programs"], "every set of function definitions and every call",
  "Tests hold four definitions.",
  ["ext/userfunc/decode.go", "ext/userfunc/public.go"],
  [("definition decoding", "ext/userfunc/decode.go decodeUserFunctions")])

P("C30", "Body transformation and file inclusion apply everywhere and report failures",
  "A deep transformation is applied to the body it wraps and to every nested body reached through any sequence of reads, exactly once each; inclusion blocks are replaced by the content of the files they name, wherever they appear, in order. "
  "Invalid inclusions, unreadable or unparsable files are reported as diagnostics and never panic.",
  ["inputs", "histories", "fault_sequences"], "every nesting of bodies, every sequence of reads, every include graph with missing or invalid files",
  "Tests cover one include and one transform.",
  ["ext/transform/transform.go", "ext/transform/error.go", "ext/include/transformer.go", "ext/include/file_resolver.go"],
  [("deep wrap", "ext/transform/transform.go deepWrapper"), ("inclusion", "ext/include/transformer.go")])

P("C31", "Looking up a source position finds the innermost enclosing construct",
  "For every byte position of a configuration, the blocks, arguments and expressions found at that position are exactly those whose source ranges contain it, outermost first, and the context description names the enclosing top-level block. "
  "Every construct's range is exactly the text that wrote it, nested within its parent's range.",
  ["inputs"], "every configuration and every position in it",
  "Tests probe a few positions of two files.",
  ["hcl/hclsyntax/structure_at_pos.go", "hcl/structure_at_pos.go", "hcl/hclsyntax/navigation.go", "hcled/navigation.go", "hcl/hclsyntax/parser.go"],
  [("position search", "hclsyntax/structure_at_pos.go"), ("node ranges", "hclsyntax/parser.go SrcRange fields")])

P("C32", "Diagnostics are collected, counted and printed faithfully",
  "A collection of diagnostics has errors exactly when one of them is an error, keeps all appended diagnostics in order, and reads as its first message with a count of the others. "
  "Printing a diagnostic shows its severity, summary and detail, and for a known source the file, line and exactly the source lines its range touches with the subject marked, at any width and for any range inside the source.",
  ["inputs"], "every list of diagnostics, every source and range, every width",
  "Tests print three diagnostics.",
  ["hcl/diagnostic.go", "hcl/diagnostic_text.go"],
  [("text writer", "hcl/diagnostic_text.go diagnosticTextWriter.WriteDiagnostic")])

P("C33", "The formatter command writes exactly the asked for files, correctly formatted",
  "When asked to overwrite, the formatting command leaves each file it is given holding exactly the canonical formatting of its content and touches no other file; otherwise it prints those formattings in order and changes no file. "
  "When also asked to check syntax, a file that does not parse is reported by name and left untouched every time it is given, the other files are still processed, and the exit status is a failure. "
  "A path that is missing, a directory or inaccessible stops the run with a failure naming it, with earlier files processed and later ones untouched, and when no change is tolerated the exit status is a failure exactly if some file was not formatted.",
  ["inputs", "fault_sequences"], "every sequence of paths (formatted, unformatted, invalid, missing, directory, inaccessible, repeated) or standard input, and every option combination",
  "There are no tests of this command.",
  ["cmd/hclfmt/main.go"],
  [("file processing", "cmd/hclfmt/main.go processFile")])

P("C34", "The decoding command prints the value its specification file describes",
  "Given a specification file, input files and variables, the decoding command prints as JSON exactly the value obtained by decoding with the specification the file describes, or reports diagnostics and fails; specification files using any documented block behave as documented. "
  "No specification or input makes it panic.",
  ["inputs", "programs"], "every specification file, input and variables definition",
  "Tests in the specification suite run some forty cases.",
  ["cmd/hcldec/main.go", "cmd/hcldec/spec.go", "cmd/hcldec/vars.go", "cmd/hcldec/spec_funcs.go", "cmd/hcldec/type_expr.go"],
  [("spec file decoding", "cmd/hcldec/spec.go decodeSpecBlock")])

P("C35", "The same configuration means the same in native and JSON syntax",
  "A configuration written in native syntax and its translation to JSON, read with the same schema or decoding specification and scope, give the same arguments, blocks, labels and values, and both are accepted or both rejected. "
  "The same holds when parts in the two syntaxes are merged.",
  ["inputs", "programs"], "every configuration expressible in both syntaxes, every schema and scope",
  "No test compares the syntaxes beyond the shared specification suite.",
  ["hcl/json/structure.go", "hcl/hclsyntax/structure.go", "hcldec/decode.go"],
  [("syntax-agnostic model", "hcl/structure.go Body")])

P("C36", "Walking a syntax tree visits every node exactly once, properly nested",
  "Walking a syntax tree from any node enters and leaves every node below it exactly once, with each node entered after and left before the node containing it, and a plain visit reaches the same nodes, containing nodes first. "
  "The parts of a for expression that see its variables are visited inside a scope naming exactly those variables, an object key that is only a name is not visited as a reference, and exactly the problems reported by the callbacks are returned.",
  ["inputs", "histories"], "every syntax tree, from any start node, every reporting callback",
  "Tests walk one small configuration.",
  ["hcl/hclsyntax/walk.go", "hcl/hclsyntax/expression.go", "hcl/hclsyntax/expression_template.go", "hcl/hclsyntax/structure.go", "hcl/hclsyntax/variables.go"],
  [("child enumeration", "hclsyntax walkChildNodes of every node"), ("walking", "hclsyntax/walk.go Walk, VisitAll")])

P("C37", "Test doubles for configuration behave like parsed configuration",
  "A body built by hand for tests delivers, withholds and reports exactly what a parsed body with the same arguments and blocks would for every sequence of complete, partial and attributes-only reads, also when merged. "
  "A hand-made literal, variable, path or list expression evaluates, reports its variables and answers static analysis as the corresponding parsed expression does, a list giving a list of its elements.",
  ["inputs", "histories"], "every body content, every sequence of reads and schemas, every hand-made expression and scope",
  "Tests cover a dozen bodies with one read each.",
  ["hcltest/mock.go"],
  [("mock body", "hcltest/mock.go mockBody"), ("mock expressions", "hcltest/mock.go mockExprLiteral, mockExprVariable, mockExprTraversal, mockExprList")])

P("C38", "Configuration read from JSON knows where its parts were written",
  "Every argument, argument name, value, block type, block label, block opening and missing-item place read from a JSON document, and every reference within a string without escapes or path or call read statically from one, carries exactly the source range of its text, whatever the white space in the document. "
  "For every byte position the described context is the path of property names and array indices to the innermost object or array containing it.",
  ["inputs"], "every JSON document, every layout, every byte position, every number of block labels",
  "Tests compare the ranges of about thirty small one-line values.",
  ["hcl/json/scanner.go", "hcl/json/parser.go", "hcl/json/structure.go", "hcl/json/navigation.go", "hcled/navigation.go"],
  [("token positions", "json/scanner.go scan"), ("node ranges", "json/parser.go parseObject, parseArray"), ("context description", "json/navigation.go ContextString")])

P("C39", "Decoding by specification tells where values and problems are",
  "For a valid native body, the source range given for a specification that names one item is exactly that of the argument value, label or block header the value comes from, in the first block of its type, or the place where the enclosing body reports missing items if the item is absent. "
  "For an invalid body every reported error lies in an item that is wrong or at the missing-item place of a body that lacks something, and every item that is unsupported, wrongly labelled, of the wrong type or repeats the key labels of another, the first block beyond the number allowed, and every body that lacks something, has an error reported there.",
  ["inputs", "programs"], "every decoding specification and every native body",
  "Tests compare one source range and never the places of the errors of decoding.",
  ["hcldec/spec.go", "hcldec/decode.go", "hcldec/public.go", "hcldec/block_labels.go", "hcl/hclsyntax/structure.go"],
  [("source ranges", "hcldec/spec.go sourceRange"), ("diagnostics", "hcldec/spec.go decode"), ("body reading errors", "hclsyntax/structure.go Body.Content, JustAttributes")])

P("C40", "A number means exactly what is written",
  "A decimal numeral of up to about a hundred digits keeps its exact value in native expressions and bodies, JSON values and templates, strings converted to numbers, packed bodies, structures and written files: two numerals compare equal, smaller or greater exactly as the numbers they denote, however each is written and whichever way it was read. "
  "Used in a template, a number is written as its plain decimal digits, without loss.",
  ["inputs"], "every pair of numerals and of ways of reading them",
  "Tests use numbers of a few digits, which binary floating point holds.",
  ["hcl/hclsyntax/parser.go", "hcl/json/parser.go", "hcl/json/structure.go", "hclwrite/generate.go", "gohcl/decode.go", "hclpack/expression.go"],
  [("native numbers", "hclsyntax/parser.go numberLitValue"), ("JSON numbers", "json/parser.go parseNumber"), ("written numbers", "hclwrite/generate.go appendTokensForValue")])

P("C41", "A decoding specification can be sent to another process",
  "A decoding specification made of any of the specification kinds except those holding expressions, functions or types decided later can be serialised with the standard binary encoding and read back. "
  "Decoding with what was read back gives the same value, errors, implied type and schema as the specification itself, for every body.",
  ["inputs", "programs"], "every decoding specification without expressions, functions and dynamic types, every body",
  "No test serialises a specification.",
  ["hcldec/gob.go", "hcldec/spec.go"],
  [("registration of specifications", "hcldec/gob.go init"), ("serialised fields", "hcldec/spec.go specification types")])

P("C42", "An error about an unknown name suggests only names that could be meant",
  "When an argument, block type, JSON property, variable, function, template keyword or JSON keyword is not known and a name usable in its place is at most two added, lost or replaced characters away, the error suggests one such name, and otherwise none. "
  "Usable are, for an argument, the arguments allowed but not yet given, for a block the allowed types, for a JSON property both, and for variables and functions those of all enclosing scopes. "
  "If none is near but the name is allowed as a block instead of an argument or the reverse, the error says so, except in JSON.",
  ["inputs"], "every body, schema, scope and unknown name",
  "Tests check four suggestions in one syntax.",
  ["hcl/didyoumean.go", "hcl/traversal.go", "hcl/hclsyntax/didyoumean.go", "hcl/hclsyntax/structure.go", "hcl/hclsyntax/expression.go", "hcl/hclsyntax/parser_template.go", "hcl/json/didyoumean.go", "hcl/json/structure.go", "hcl/json/parser.go", "hclpack/didyoumean.go", "hclpack/structure.go"],
  [("nearness", "hclsyntax/didyoumean.go nameSuggestion"), ("candidates", "hclsyntax/structure.go Body.Content, json/structure.go body.Content, hclpack/structure.go content, hcl/traversal.go TraverseAbs")])

P("C43", "The specification suite runner passes exactly the tests that are met",
  "Run on a directory, the runner of the specification suite runs every test file in it and in its directories, hidden ones excepted, tests by name before directories by name, and succeeds exactly if all pass. "
  "A test passes if its file is consistent, its specification exists, and for each input of either syntax the implementation reports exactly the expected references at their places and gives either a value of the expected type equal to the expected result or exactly the expected diagnostics by severity and place. "
  "No test file and no answer of the implementation makes it panic.",
  ["inputs", "programs"], "every suite of tests and every implementation",
  "Tests only run the suite against an implementation that passes it, so a runner that passes everything is not noticed.",
  ["cmd/hclspecsuite/main.go", "cmd/hclspecsuite/runner.go", "cmd/hclspecsuite/test_file.go", "cmd/hclspecsuite/traversals.go", "cmd/hclspecsuite/diagnostics.go"],
  [("running tests", "cmd/hclspecsuite/runner.go runDir, runTest, runTestInput"), ("test files", "cmd/hclspecsuite/test_file.go LoadTestFile"), ("references", "cmd/hclspecsuite/traversals.go checkTraversalsMatch")])

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(path, "w") as f:
    for o in OUT:
        f.write(json.dumps(o, ensure_ascii=False) + "\n")
print(len(OUT), "properties")
