import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))

p("C01","Scanning any input terminates without crashing",
 "For every byte sequence, repeatedly asking the scanner for tokens reaches end-of-file after at most one token per input byte, never crashes and never loops. Once end-of-file has been returned, every further request returns end-of-file again at the same position.",
 ["inputs"],"all byte sequences, including malformed UTF-8, unterminated text and empty input",
 "lexer_test.go feeds a fixed list of well-formed lexemes and random well-formed token lists; no malformed byte, unterminated literal or post-EOF request is ever scanned.",
 ["lexer/lexer.go"],[("cursor advance and EOF sentinel","lexer.(*Lexer).next"),("per-token scan loops","lexer.(*Lexer).Scan and scan* helpers")],["lexer.NewLexer","(*Lexer).Scan"])
p("C02","Tokens and whitespace reproduce the source exactly",
 "The tokens of a source, laid out at their reported offsets, together with the spaces, tabs, carriage returns and newlines between them, reproduce the source byte for byte: nothing is skipped, duplicated or overlapped. A token's literal is exactly the source text of the token (for quoted text without the quotes, for text not closed on its line without the opening quote, for comments without the semicolon; an undecodable byte is shown as the Unicode replacement character).",
 ["inputs"],"all byte sequences",
 "The tests compare literals of a few lexemes and of random well-formed sources joined by single spaces; adjacency without spaces, unterminated literals and non-ASCII text are not reached.",
 ["lexer/lexer.go"],[("literal slicing from source offsets","lexer.(*Lexer).Scan, scanString, scanComment, scanNumber")],["(*Lexer).Scan token, position, literal"])
p("C03","Tokens follow the CDDL lexical rules with longest match",
 "Every token has the kind the CDDL lexical rules give to its text, and punctuation, operators, identifiers and numbers are read by longest match: keywords, control operators and punctuation map to exactly their own kind, a maximal run of name characters that is not a keyword is an identifier, a digit sequence is an integer (decimal, 0x, 0b, 0o) or, exactly when it has a fractional part, a float. Text that fits no rule, including an unknown control operator, becomes an illegal token and never some valid kind (text not closed on its line is reported as a lexical error; the reading of 0x, 0b or 0o without digits, of two points in one number, and of a point before a non-ASCII letter is unspecified).",
 ["inputs"],"all character sequences, all keywords and operators, and all adjacent pairs of lexemes",
 "TestIdentifers/TestNumbers list about 30 lexemes; TestLexerFuzz always separates tokens by a space so it never tests where one token ends and the next begins.",
 ["lexer/lexer.go","token/token.go"],[("keyword table","token.init / token.Lookup"),("operator and number scanning","lexer.(*Lexer).Scan, scanNumber, scanControlOp")],["(*Lexer).Scan token kind and literal"])
p("C04","Token positions agree with the source text",
 "For every token, including end-of-file, the reported byte offset is where its text starts, the line is one plus the number of newlines before it, and the column is its 1-based byte distance from the start of that line. Offsets strictly increase from token to token.",
 ["inputs"],"all byte sequences with any mix of newlines, carriage returns, tabs, comments and multi-byte characters",
 "The only position assertions in the tests are on single-line ASCII sources.",
 ["lexer/lexer.go","token/position.go"],[("line table","lexer.(*Lexer).addLineOffset, skipWhitespace"),("position construction","lexer.(*Lexer).Scan")],["position returned by (*Lexer).Scan"],
 [dict(name="lineOffsets",meaning="offsets of newlines already passed",where="lexer.Lexer")])
p("C05","Scanners are isolated from each other and from caller buffers",
 "A scanner never writes to memory of its caller, neither the source slice nor the spare capacity behind it. However the calls of several live scanners are interleaved, even when they read adjacent parts of one buffer, each returns exactly the tokens it returns when run alone, and tokens and trees already returned do not change when the caller later reuses the buffer.",
 ["schedules","histories"],"all interleavings of construct/scan calls on two or three scanners over shared or separate buffers",
 "Every test scans one source at a time from a freshly allocated slice with no neighbour.",
 ["lexer/lexer.go"],[("private source copy / per-instance cursor","lexer.NewLexer")],["(*Lexer).Scan","contents of the caller's buffer"])
p("C06","Parsing any input terminates without crashing",
 "For every byte sequence, parsing terminates without crashing and returns a syntax tree, diagnostics, or both, never neither. Asking any returned node for its start and end position, walking the returned tree and formatting it as text also never crash, whether or not diagnostics were reported.",
 ["inputs"],"all byte sequences and all token sequences, well-formed or not",
 "Parser tests use about 50 hand-written, almost all well-formed sources; malformed operand positions are not explored.",
 ["parser/parser.go","ast","ast/astutils/walk.go","ast/astutils/print.go"],[("Pratt parser with nud/led tables","parser.(*Parser).parseEntry and handlers"),("node spans","ast.*.Start/End")],["(*Parser).ParseFile","ast.Node Start/End","astutils.Walk","astutils.Format"])
p("C07","Lexical errors are never accepted silently",
 "If a source contains an illegal character, an unknown control operator, or a text literal that is not closed on its line, anywhere in the file, then parsing it reports at least one diagnostic.",
 ["inputs"],"every position of a lexical error in any otherwise valid or invalid source",
 "No test parses a source with a lexical error.",
 ["parser/parser.go","lexer/lexer.go"],[("lexer error list","lexer.Errors consulted in parser.(*Parser).ParseFile")],["ErrorList returned by ParseFile"])
p("C08","Accepted sources are balanced and have complete trees",
 "If a source is parsed without diagnostics then its parentheses, brackets and braces are balanced and properly nested, and every operator, entry, occurrence, range, control and rule node in the tree has all its mandatory operands, with no placeholder for an error.",
 ["inputs"],"all token sequences",
 "The tests check the tree of well-formed inputs only; dangling operators and missing closers are not enumerated.",
 ["parser/parser.go"],[("closing-token loops","parseGroup, parseMap, parseArray, parseTag"),("operand parsing","led handlers")],["(*Parser).ParseFile tree and diagnostics"])
p("C09","No schema content is silently dropped",
 "If a source is parsed without diagnostics then every name, type keyword, literal, operator operand and occurrence bound written in it appears in the tree exactly once and in source order. Nothing that was written is missing from the tree and nothing is invented.",
 ["inputs"],"all token sequences accepted by the parser",
 "testWalk skips comparison when entry counts differ, so dropped entries pass; only a few inputs are compared at all.",
 ["parser/parser.go","ast"],[("entry collection","parseGroup, parseArray, parseMap"),("operand storage","parseBound, parseComparatorOp, parseOccurrence")],["(*Parser).ParseFile tree"])
p("C10","Well-formed schemas are accepted with the structure written",
 "Every well-formed schema over the documented constructs (rules, primitive types, literals, names, groups, arrays, maps, unkeyed entries, entries keyed with : or => by a name or an integer, optional commas, occurrence indicators (their upper bound adjacent to the indicator), choices, ranges, controls, tags, unwrap, enumerations; nested less than 100,000 levels deep) is parsed without diagnostics, and the tree has the same rules, nesting and order as the schema.",
 ["programs"],"all schemas built from the documented constructs",
 "The tests exercise each construct once or twice in isolation, not their nestings and sequences; the testdata run only checks for absence of errors.",
 ["parser/parser.go","ast"],[("nud/led tables","parser.NewParser"),("construct handlers","parser.(*Parser).parse*")],["(*Parser).ParseFile tree and diagnostics"])
p("C11","Operators group by their documented binding strength",
 "Without parentheses, unwrap and enumeration bind tighter than range and control operators, these bind tighter than type choice (/), type choice binds tighter than an entry's key separator and occurrence indicator, and group choice (//) binds loosest, separating whole alternatives. Each operator takes exactly the operands this grouping gives it, wherever the expression occurs.",
 ["inputs"],"all operator/operand sequences in all contexts",
 "TestTypeChoice has two homogeneous chains; operator_precedence.cddl is only checked for absence of errors.",
 ["parser/parser.go","token/token.go"],[("precedence climbing","parser.(*Parser).parseEntry, token.Token.Precedence")],["(*Parser).ParseFile tree"])
p("C12","Literal values are preserved exactly",
 "The value in the tree of every accepted integer (decimal without leading zeros, 0x, 0b, 0o), float, text, boolean, tag number and occurrence bound equals the value written, in every context where it may appear. A numeric literal that cannot be represented is reported, never wrapped, clipped or rounded to something else.",
 ["inputs"],"all literals in all contexts, in particular values around powers of two and representation limits",
 "About ten small literals are tested.",
 ["parser/parser.go","lexer/lexer.go"],[("literal conversion","parseIntegerLiteral, parseFloatLiteral, parseUintLiteral, parseFloatTag, parseOccurrence")],["literal fields of tree nodes"])
p("C13","Exactly the undefined references are reported",
 "In a file whose rules are otherwise well-formed, a name used as a type, bound, operand or group member is reported as missing if and only if no rule of the file (with =, /= or //=) or of the session environment defines it, regardless of the order of the rules and of where in an expression it is used. Names starting with $ and entry keys followed by a colon are never reported, and each report names the reference and points at it.",
 ["programs","inputs"],"all rule sets over a small set of names, all orders, all reference contexts",
 "No test asserts on missing-reference diagnostics; testdata files only contain resolvable references.",
 ["parser/parser.go","environment/environment.go"],[("deferred reference tasks","parseNamedIdentifier, ParseFile task loop"),("symbol table","environment.Environment")],["ErrorList returned by ParseFile"])
p("C14","The first definition of a name wins and duplicates are reported",
 "The symbol table behaves as a write-once map: a name keeps the first value it was given, adding it again is refused and changes nothing, and lookups see exactly the names added before. In a file or in a session of successive sources sharing one environment, each = definition of a name that already has a definition of any kind is reported exactly once, and the environment maps every defined name to the value of its first accepted definition.",
 ["histories","programs"],"all sequences of add/get/exists operations and all sequences of rule definitions over a few names, split over one or several sources",
 "TestEnvAdd performs three additions; no test covers duplicate rules or an environment shared by several parses.",
 ["environment/environment.go","parser/parser.go"],[("write-once symbol map","environment.(*Environment).Add"),("registration on rule completion","parser.(*Parser).parseRule")],["environment Add/Get/Exists","ErrorList"])
p("C15","Ill-typed ranges and control operands are reported",
 "A range whose bounds are an integer and a float, written directly or through a name defined as a literal, or whose bound is not a number or a name, is reported; a range of two integers or two floats is accepted. A control operator is reported when its target or argument has a kind the operator does not support (.size on text, bytes or unsigned; comparison operators on int, uint or float with a numeric or named argument; .regexp on text with a text or named argument) and accepted otherwise. Unspecified: the argument of .size, comparisons on the sized float types and nint, and names defined as something other than a number used as bounds.",
 ["inputs"],"all combinations of operand kinds on both sides of each operator",
 "TestRange has four cases and TestOperatorSize three.",
 ["parser/parser.go"],[("bound checks","parseIntBound, parseFloatBound, parseIdentBound"),("operand checks","parseSizeOperator, parseComparatorOp, parseRegexp")],["ErrorList returned by ParseFile"])
p("C16","Layout and comments never change the meaning of a schema",
 "Replacing the whitespace between two tokens by any other non-empty whitespace, or inserting a comment ended by a newline between any two tokens other than those of a tag's head or an occurrence indicator, changes neither whether a schema is accepted nor the tree it yields, apart from positions and comment nodes.",
 ["inputs"],"all schemas, all token gaps (also several at once), all whitespace forms and comment placements",
 "One test has two leading comments; no test has a comment inside or after a rule followed by another rule.",
 ["parser/parser.go","lexer/lexer.go"],[("comment handling","parseComment, parseInnerComment, parseRule, parseColon"),("whitespace skipping","lexer.skipWhitespace")],["(*Parser).ParseFile tree and diagnostics"])
p("C17","Diagnostics point into the source",
 "Every diagnostic starts at the position of an actual token of the source (for text not closed on its line, at the end of that line), with offset, line and column agreeing with each other, its range neither ends before it starts nor behind the end of the source, and it has a non-empty message. The command line shows it with the text of exactly that source line and a marker under exactly that column.",
 ["inputs"],"all rejected sources",
 "Two range errors are compared by column; no test covers multi-line sources or the rendered output.",
 ["parser/diagnostic.go","parser/parser.go","cmd/cddlc/commands/generate.go","cmd/cddlc/commands.go"],[("diagnostic construction","parser.NewError, p.error"),("rendering","errorStringer")],["Diagnostic Start/End","stderr of cddlc parse and generate"])
p("C18","Every tree node reports where it starts",
 "In the tree of an accepted source every node (apart from the file root) reports as its start exactly the offset, line and column of the first token of the construct it stands for, however deeply it is nested and however the source is laid out.",
 ["programs"],"all well-formed schemas and layouts",
 "A handful of leaf positions on one-line sources are compared.",
 ["ast","parser/parser.go"],[("node position fields","ast.*.Start"),("position capture","parser handlers")],["ast.Node.Start"])
p("C19","Walking a tree visits every node exactly once",
 "Walking any tree, produced by the parser or assembled from the node types, calls the visitor exactly once for every node reachable in it, parents before children, siblings in source order, with a nil call closing each visited node. When the visitor declines a node, exactly the nodes below it are skipped and nothing else.",
 ["programs"],"all trees the parser can produce, all assembled trees up to a size, and all single pruning decisions",
 "astutils has no tests.",
 ["ast/astutils/walk.go"],[("type switch over node kinds","astutils.Walk")],["sequence of Visitor.Visit calls"])
p("C20","Independent instances do not interfere, even concurrently",
 "Separate scanners, parsers, generators, tree walks and formatters may be used from different goroutines: under every interleaving each produces the result it produces when run alone. The result depends only on the input: repeating a parse or generation, or doing other ones in between, gives the same result.",
 ["schedules","histories"],"all interleavings (bounded preemptions) of two instances at statement granularity, and all short sequences of runs",
 "All tests are sequential and compare each run once.",
 ["lexer/lexer.go","parser/parser.go","token/token.go","transforms/codegen/golang","ast/astutils"],[("all state held per instance","Lexer, Parser, Generator, printer structs")],["tokens, trees, diagnostics, generated source of each instance"])
p("C21","The generator never emits malformed Go",
 "For every schema the parser accepts, code generation either reports failure or produces a syntactically valid Go source file of the requested package. It never reports success for output that is not valid Go. Rendering the same generator again, also after a failed write, gives the same file.",
 ["programs"],"all accepted schemas, supported by the generator or not",
 "TestGen generates one schema and ignores output and error.",
 ["transforms/codegen/golang"],[("Go AST construction and printing","gogen.(*Generator).Visit, String")],["output and error of (*Generator).String"])
p("C22","Generated declarations mirror the schema",
 "For a schema of rules over primitive types (text, bytes and unsigned optionally with a literal size), literals, names of other type rules, groups and arrays of distinct keyed entries (optionally marked optional) and embedded names, with no two names or keys that coincide in Go and no recursion, the generated file type-checks as Go and declares, in rule order, one type (or variable, for a literal rule) per rule with the exported camel-case name (a whole-number key N gives IntKey_N; a socket or plug keeps its spelling without the $), the corresponding Go type or value, the fields in entry order, omitempty on optional fields, the toarray marker on arrays, and a Valid method on each type, which for a sized rule applies the runtime size check to its bound.",
 ["programs"],"all schemas over the constructs named, nested and combined",
 "TestGen generates one schema and never looks at the output.",
 ["transforms/codegen/golang"],[("transpile functions","gogen.transpile*"),("declaration assembly","gogen.(*Generator).Visit")],["output of (*Generator).String"])
p("C23","Comments around rules are kept",
 "Every comment that stands before, between or after rules is kept with its exact text: a comment on the same line as the end of a rule is attached to that rule as its trailing comment, and every other comment outside a rule appears as an entry of the file in source order. A comment on the same line directly behind a keyed entry of a group or map (or its comma) that is followed by the next entry or the closing bracket is attached to that entry.",
 ["programs"],"all sequences of rules and comments, with comments on their own line or trailing",
 "TestCommentGroups has a single source of two comments and no rule.",
 ["parser/parser.go","ast/comment.go"],[("comment entries and trailing comments","parseComment, parseInnerComment, parseRule, parseColon")],["comment nodes in the tree"])
p("C24","Runtime comparison checks decide exactly their relation",
 "The runtime checks used by generated code return true exactly when the stated relation holds: inclusive and exclusive range, less-than, greater-than, and regular-expression match, for all integer and floating-point values including the extremes and values equal to a bound. The size check of a fixed-width number, or an array of them, compares its width in bytes strictly with the bound, and the Must helpers panic exactly when their condition fails.",
 ["inputs"],"all values of small integer types exhaustively; boundary and special values of the wide types",
 "The validators package has no tests.",
 ["runtime/validators/validators.go"],[("generic comparison functions","validators.InInclusiveRange, InExclusiveRange, IsLessThan, IsGreaterThan, RegexpMatches")],["return values"])
p("C25","generate succeeds exactly when every schema was generated",
 "The generate command exits with status zero only if, for every configured build in order, every .cddl file of the source directory was accepted and its complete Go file, in the configured package and under the matching name, is in the output directory; otherwise it exits with a non-zero status and a message. It writes nothing else and leaves all sources and all other files unchanged.",
 ["configurations"],"all combinations of configuration, source directory contents and output directory state",
 "cmd/cddlc has no tests.",
 ["cmd/cddlc/commands/generate.go","config/config.go"],[("build loop","commands.GenerateCmd, generateFile")],["exit status, file system after the command"])
p("C26","A failed generation never damages earlier output",
 "When generation of a schema fails, because it is rejected, unreadable or not expressible, a Go file generated for it earlier is left byte for byte as it was, and the command fails. When writing the output fails at any byte, the command exits with a non-zero status rather than report success.",
 ["fault_sequences","histories"],"all failure causes and write-failure points, after any earlier successful generation",
 "cmd/cddlc has no tests and nothing injects faults.",
 ["cmd/cddlc/commands/generate.go"],[("output file handling and error propagation","commands.generateFile")],["output file contents, exit status"])
p("C27","Configuration is found and read the same in every format",
 "generate reads cddlc.json or cddlc.yaml from the current directory (JSON first when both exist) no matter which other files are there, and only when neither exists falls back to the default configuration. The same settings written as JSON or as YAML give the same configuration, and a configuration that cannot be read or is no valid document is an error, not a fallback.",
 ["configurations"],"all combinations of configuration and neighbouring files, and all settings of the documented keys",
 "config has no tests.",
 ["config/config.go","cmd/cddlc/commands/generate.go"],[("discovery","commands.loadConfigFromDir"),("decoding","config.LoadConfig")],["config.LoadConfig result","which build generate performs"])
p("C28","init creates a usable configuration once and never overwrites",
 "The init command in a directory without cddlc.json creates it with exactly the default configuration, which loads back equal and with which generate produces valid Go. If cddlc.json already exists, whatever it holds, init fails and leaves it unchanged; of several init commands running at once exactly one creates it.",
 ["histories","configurations"],"all short sequences of init, generate and edits from every initial directory state",
 "cmd/cddlc has no tests.",
 ["cmd/cddlc/commands/init.go","config/config.go"],[("existence check before create","commands.getFileHandle"),("defaults","config.NewDefaultConfig")],["cddlc.json, exit status"])
p("C29","A REPL session behaves as successive parses in one scope",
 "In the interactive session each line is parsed in the scope of all rules accepted on earlier lines: references to them resolve, redefinitions are reported and change nothing, a line whose rules do not parse defines nothing, and no input line (up to the 64 kB line limit) crashes or ends the session except the exit command or end of input. The tree command prints exactly the requested names that are defined, and the verbose toggle lists exactly the rules of the line.",
 ["histories"],"all short sequences of session lines, valid, invalid and commands",
 "The REPL has no tests.",
 ["cmd/cddlc/commands/repl.go","environment/environment.go","parser/parser.go"],[("shared environment","commands.Repl, parser.WithEnv")],["stdout and exit status of cddlc qrepl"])
p("C30","The lex and parse commands report exactly what the library finds",
 "The lex command prints every token of the file in order with its position, kind and literal and fails exactly when the file contains illegal tokens (its status for text not closed on its line is unspecified). The parse command prints the syntax tree of the file as JSON on standard output and every diagnostic on standard error.",
 ["inputs"],"all readable source files",
 "cmd/cddlc has no tests.",
 ["cmd/cddlc/commands.go"],[("token loop","LexerCmd"),("JSON export","ParseCmd")],["stdout, stderr, exit status"])
p("C31","Every tree node ends within its construct",
 "In the tree of an accepted source the end every node reports is a position of the source, with offset, line and column agreeing, that lies neither before its start nor behind its own text. The spans of the nodes inside a node lie within its span, and neighbouring nodes and rules do not overlap (comments aside). Names, type keywords and whole numbers end exactly behind their text. No node, nor a tree with empty groups, arrays or maps, lacks an end.",
 ["programs"],"all accepted sources",
 "No test looks at the end of a node in a file, only two diagnostics use it.",
 ["ast","parser/parser.go"],[("node ends","ast.*.End"),("end capture","parser handlers")],["ast.Node.End"])
p("C32","Every token kind has its own spelling, class and strength",
 "Every token kind in use has a unique, non-empty name; a kind that stands for one fixed text is named by exactly this text, and the table of words and the scanner give exactly this kind for it and for no other text. The classes of kinds (control operator, numeric, literal) and of names (socket, plug) are exactly those of the notation, for every kind and every text, and the binding strengths order the operators as the grammar needs: assignment, group choice, comma, occurrence, key, type choice, range and control operators, prefix operators, from the weakest to the strongest.",
 ["inputs"],"all kind numbers and all short words",
 "The token tests look up a few words.",
 ["token/token.go","ast/identifier.go"],[("kind tables","token.Token.String, Lookup, Precedence, IsControlOp, IsNumeric, IsLiteral"),("classes of names","ast.Identifier.IsSocket, IsPlug")],["results of the token functions"])
p("C33","Positions, diagnostics and trees are described as they are",
 "The text of a position names its file, line and column. The description of a diagnostic starts with its message and names the line and column where it starts and ends. The text of a list of diagnostics consists of the texts of exactly its members, in order, and collecting a list gives exactly its members; a parser holds exactly the diagnostics it returned, and a scanner counts the errors it lists. A file, a name and a group of comments name their rules, spelling and comments in order. The textual form of a tree names the kind of the node, and for names, numbers, primitive types, choices, enumerations and groups their value, position and parts in order; printing a tree writes exactly this form.",
 ["inputs"],"all positions, ranges, messages and lists, all sources",
 "No test looks at a description.",
 ["token/position.go","parser/diagnostic.go","ast/astutils"],[("texts","Position.String, Error.Diagnostic, ErrorList.String"),("tree printer","astutils.Format")],["the returned texts"])
p("C34","The command line runs exactly the command it is given",
 "Whatever the arguments, the program runs the named command (or its alias) and nothing else: without a command, and for help, it changes nothing and succeeds, an unknown command or option changes nothing and fails with a message, only init and generate ever change files, and no argument vector crashes the program or makes it fail silently.",
 ["inputs","configurations"],"all argument vectors, in directories with and without configuration",
 "cmd/cddlc has no tests.",
 ["cmd/cddlc","cmd/cddlc/commands.go"],[("command table","main, commands")],["exit status, output, file system"])
p("C35","A configuration is valid exactly when its plugins are",
 "A configuration is valid exactly when the local path of every plugin is an existing directory, whatever stands there otherwise; its error is the one of its first invalid plugin. The default configuration is made afresh on every call, so changing one leaves the next as documented.",
 ["configurations"],"all lists of plugins over all states of their paths",
 "config has no tests.",
 ["config/config.go"],[("validation","Config.Valid, Plugin.Valid, PluginLocal.Valid"),("defaults","config.NewDefaultConfig")],["result of Valid, returned configuration"])
p("C36","Generator options are valid exactly for a known case conversion",
 "The options of the code generator are valid exactly when their case conversion is camelcase or snakecase, whatever the other options are and however often they were asked before; the error for any other conversion names it.",
 ["configurations"],"all texts for the case conversion, all combinations of the other options",
 "No test asks for the validity of options.",
 ["transforms/codegen/golang/options.go","transforms/codegen/golang/gen_identifiers.go"],[("table of conversions","gogen.converters, filled by init"),("validation","gogen.Options.Valid")],["result of Options.Valid"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
