import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
L="ecmascript/lexer/lexer.go"; S="ecmascript/lexer/scanner.go"; U="ecmascript/lexer/unicode.go"; T="ecmascript/lexer/token.go"
X="ecmascript/parser/expression.go"; ST="ecmascript/parser/statement.go"; D="ecmascript/parser/declaration.go"; PA="ecmascript/parser/parser.go"; M="ecmascript/parser/module.go"; PS="ecmascript/parser/scanner.go"; K="ecmascript/parser/keyword.go"; CX="ecmascript/parser/context.go"
A="ecmascript/ast/"
p("C01","Parsing is total: a tree or a typed error for every input",
  "For every sequence of input bytes and every parse mode, parsing terminates after a number of reads linear in the input and returns exactly one of a syntax tree or an error, and the error is one of the three documented kinds (syntax, encoding, parser). It never panics, hangs, grows memory without bound or kills the host process - also on truncated programs, on valid ECMAScript the parser does not implement, and on arbitrarily deep nesting.",
  ["inputs","configurations"],"all byte strings x {script, module, expression} mode",
  "The tests parse about 60 short hand-picked snippets and four libraries, nearly all valid; a hang or crash needs an unfinished, malformed or unsupported construct at one particular place, and the space of those is unbounded.",
  [PA,L,S,PS,X,ST,D,M],[("recover boundary turning internal panics into errors",PA+" Parse"),("every loop consumes a token or stops at end of input",ST+", "+X),("EOF rune handling",L)],
  ["parser.NewParser(...).Parse return values","io.RuneScanner calls made by the lexer","process exit / CPU / heap of the parsing process"],
  [("token look-ahead queue","tokens lexed but not consumed",PS)])
p("C02","Reader faults surface as errors; no truncated tree, one-rune pushback only",
  "If the supplied rune reader fails with an error other than end of file at any read, parsing returns an encoding error that wraps that very error, returns no tree, and makes no further read. If the reader never fails there is no encoding error, whatever runes it delivers. For a reader that does not fail, the result depends only on the rune sequence, not on the reader type or its buffering, and the parser never unreads more than the one rune a reader must support.",
  ["fault_sequences","inputs"],"every program x every index of the read that fails x every conforming rune reader",
  "No test injects a read error or uses a reader with minimal pushback; faults at one specific offset (inside a comment, number, regexp, string, after a pushback) each take a different code path.",
  [S,L,PA,"ecmascript/errs/errors.go"],[("EncodingError on non-EOF read error",S+" Read"),("EOF latch that suppresses pushback at end of input",S+" Unread")],
  ["sequence of ReadRune/UnreadRune calls on an instrumented reader","Parse return values"],[("eof","the last read hit end of input",S)])
p("C03","Every accepted tree converts to well-formed ESTree JSON",
  "Every tree the parser returns, in every mode, can be converted to ESTree and encoded as JSON without panicking or failing. In the result every object has a standard ESTree node type, carries all fields that type requires with children of a permitted kind (list fields are arrays, never null; mandatory children are never null), and no parser-internal placeholder node appears.",
  ["inputs"],"all inputs the parser accepts, in script, module and expression mode",
  "No test ever calls ESTree(); the tests compare internal structs for a few dozen snippets, so a missing child, a null list, a wrong field name or a leaked placeholder is invisible to them.",
  [A+"statement.go",A+"expressions.go",A+"expressions_binary.go",A+"expressions_unary.go",A+"expressions_literal.go",A+"declaration.go",A+"module.go",A+"script.go",A+"temporal.go",X],
  [("ESTree() methods","ecmascript/ast/*.go"),("ContainsTemporalNodes check on parenthesised expressions",X)],["Node.ESTree() result and its JSON encoding"])
p("C04","Token streams are exact: longest match, right kind, right newline flag",
  "Lexing any text made of ECMAScript tokens - identifiers, private identifiers, all keywords, all punctuators, numbers, strings, and regular expressions when the caller re-lexes a leading slash - separated by any whitespace, line terminators and comments, yields exactly those tokens in order with their kinds and literals, using longest match where tokens touch. A token is flagged as preceded by a newline exactly when a line terminator occurs between it and the previous token, including inside or at the end of a comment. A token prints as the name of its kind, its literal, quoted, if it has one, and the flag if it is set. (Not covered: the optional-chaining token and two adjacent dots, which the lexer does not implement; see the known findings.)",
  ["inputs"],"all sequences of tokens x all separators",
  "The lexer test lexes four snippets; no comment is ever followed by a newline-sensitive token, most punctuators, number shapes and comment endings never occur, and adjacency is only sampled.",
  [L,T,U],[("consumeNextToken maximal munch",L),("newLine latch",L+" Lex"),("keyword table",T)],["Lexer.Lex / Lexer.ReLex results"],
  [("newLine","a line terminator was seen since the last token",L)])
p("C05","Tokens tile the source: nothing lost, invented or altered",
  "For every input, as long as lexing succeeds, each token's source text is exactly the stretch of input the token was read from, and the input between consecutive tokens consists only of whitespace, line terminators and complete comments. In particular every keyword, punctuator and literal token reports its exact spelling.",
  ["inputs"],"all inputs, up to the first lexical error",
  "Tests compare token literals for four inputs and never look at the source text reported for punctuators or at what is skipped between tokens.",
  [L,T,S],[("Token.Source",T),("literal builders in the lexer",L)],["Token.Source() against the runes the lexer pulled from the reader"])
p("C06","Numeric literals denote the right double",
  "Every numeric literal form the lexer accepts (decimal with optional fraction and exponent, leading or trailing dot, numeric separators, 0b/0o/0x, legacy octal) is read as one token and its value is the IEEE-754 double nearest to the number written, infinity when it overflows. Malformed numbers (missing digits, dangling or doubled separators, empty exponent) are rejected.",
  ["inputs"],"all numeric literals of the supported grammar and their near-miss mutations",
  "Tests contain only small decimal integers.",
  [L,T],[("consumeDecimalPart / consumeFractionalPart / radix parts",L),("Token.NumberConstant",T)],["Literal value and raw of the parsed expression"])
p("C07","String and regular-expression literals keep their exact text and bounds",
  "A string literal ends exactly at its matching unescaped quote, its raw text is the exact source text and, when it contains no escape, its value is the text between the quotes. A regular-expression literal ends at the first slash that is neither escaped nor inside a character class, and its raw text, pattern and flags are the exact source text; slash starts a regular expression exactly where an operand is expected and is a division operator elsewhere. Literals left unterminated by end of input or by a raw line break are rejected.",
  ["inputs"],"all string and regexp bodies over any characters, in all syntactic positions",
  "Two regexp bodies and a handful of plain strings are tested; escapes, nested delimiters, slashes in classes, and the regexp/division ambiguity in context are not.",
  [L,T,X,PS],[("consumeStringLiteral, consumeRegex",L),("ReScan on operand position",X)],["StringLiteral / RegExpLiteral nodes and their ESTree form"])
p("C08","Expressions parse to the tree the grammar dictates",
  "For every expression built from the supported operators - comma, assignment, conditional, logical, nullish, bitwise, equality, relational, shift, additive, multiplicative, exponent, unary, update, call, new, member, grouping - the tree reflects ECMAScript precedence and associativity, the exact operator, operand order, call arguments (including spread) and grouping, at any nesting depth and with any redundant parentheses.",
  ["inputs","programs"],"all expressions of the supported grammar",
  "Two arithmetic expressions are parsed and only checked for absence of an error; no test checks an operator or associativity.",
  [X,A+"expressions_binary.go",A+"expressions_unary.go",A+"expressions.go"],[("precedence-climbing loop",X+" parseExpression"),("operator to ESTree maps",A+"expressions_binary.go")],["ESTree of Parse in expression and script mode"])
p("C09","Statements and declarations parse to the tree the grammar dictates",
  "For every program built from the supported statements - blocks, var/let/const, empty, expression, if/else, do-while, while, for, for-in, for-of, switch, break, continue, return, throw, try/catch/finally, labels, function and class declarations - the tree contains every statement exactly once, in order, with the right kind, nesting, label, dangling-else binding and optional parts.",
  ["inputs","programs"],"all programs of the supported statement grammar, arbitrarily nested",
  "One var statement is checked for absence of an error and the library test only checks that no error is returned; statement trees are never compared.",
  [ST,D,A+"statement.go",A+"declaration.go"],[("parseStatement dispatch and per-statement productions",ST)],["ESTree of Parse in script mode"])
p("C10","Functions, arrows and binding patterns keep parameters, defaults and flags",
  "For every function expression, declaration, method and (async or plain, bare or parenthesised) arrow function, the tree has exactly the parameters written, in order, with identifiers, defaults, array/object patterns, renames, holes and rest element preserved, the right async/generator/arrow/expression flags, and exactly the body written. An arrow function whose parameter list the parser first read as an expression yields the same parameters as an ordinary function with the same list, and an arrow's body extends over the whole assignment expression and no further.",
  ["inputs","programs"],"all parameter lists, binding patterns and function forms of the supported grammar",
  "About 25 arrow snippets with at most three flat parameters are tested; ordinary functions, var patterns, nesting and the interaction with surrounding operators are not compared.",
  [X,ST,D,A+"expressions.go",A+"statement.go"],[("cover grammar conversion",X+" convertExprToArrowParams"),("parseParametersTail / binding pattern productions",X+", "+ST)],["ESTree of Parse"])
p("C11","Object literals and classes keep every member with its kind",
  "For every object literal and class of the supported grammar, the tree lists exactly the members written, in order, each with the right key (identifier, keyword, string, number or computed), kind (init, get, set, method, constructor), static/computed/shorthand/method flags and value, and with the right superclass; words such as get, set, async and static act as modifiers only where the grammar makes them modifiers.",
  ["inputs","programs"],"all object literals and classes of the supported grammar",
  "Object literals with a single property and null or empty bodies are tested; classes are never parsed by a parser test.",
  [X,D,A+"expressions.go",A+"declaration.go"],[("parseObjectTail",X),("parseClassBody",D)],["ESTree of Parse"])
p("C12","Automatic semicolon insertion follows the language rules",
  "A statement terminator may be left out exactly where ECMAScript inserts it: before a token on a new line that cannot continue the statement, before a closing brace, and at end of input; line breaks inside comments count. Where the next line can continue the expression no semicolon is inserted, and the restricted productions (return, throw, break, continue, postfix ++/--) never reach across a line break.",
  ["inputs","programs"],"all statement sequences x every choice of terminator and line break",
  "No test leaves out a semicolon on purpose; the bundled libraries happen to be minified or fully punctuated and their trees are not compared.",
  [PA,ST,X,L],[("expectSemicolon",PA),("NewLine flag consumed by restricted productions",ST+", "+X)],["ESTree of programs with and without explicit semicolons"])
p("C13","Layout never changes meaning",
  "Replacing the whitespace and comments between the tokens of a program by any other whitespace, comments or - where no newline rule applies - line terminators, or adding redundant parentheses around expressions, never changes the resulting tree or turns acceptance into rejection.",
  ["inputs"],"all programs x all layouts of the same token sequence",
  "Every test input has one fixed layout and comments never appear in one.",
  [L,S,U,PA],[("whitespace and line terminator tables",U),("comment skipping",L)],["ESTree of differently laid out renderings of one token sequence"])
p("C14","Ill-formed programs are rejected",
  "A text that no ECMAScript script or module production matches because a token is missing, superfluous or out of place - unbalanced brackets, missing operand, operator, separator, keyword, parenthesis, body or initializer name, stray token, unknown character, second default clause, parameter of a getter, second or rest parameter of a setter - yields a syntax error and no tree. (Static-semantics early errors such as invalid assignment targets, duplicate names or misplaced break/return are outside this property. That a setter without a parameter is accepted is a known finding.)",
  ["inputs"],"all token-level corruptions of programs of the supported grammar",
  "A dozen malformed import declarations and one member expression are tested; any other production could silently accept or drop tokens.",
  [X,ST,D,M,PS,PA],[("ScanExpect",PS),("expectSemicolon",PA),("per-production default branches",X+", "+ST)],["Parse error result"])
p("C15","Reserved and contextual words are honoured per context",
  "Always-reserved words are rejected as variable, parameter, function, class and label names and as identifier expressions, in every mode, yet accepted as property names after a dot and as object keys; never-reserved words (as, async, from, get, meta, of, set, target) are accepted as names everywhere. Strict-only reserved words are accepted as names in sloppy code and rejected in modules and in code governed by a \"use strict\" directive, exactly within the function that contains the directive. In sloppy code yield and await are accepted as names outside generator and async functions respectively, and rejected directly within the bodies of those. (That yield is accepted in strict code, and await at the top level of modules, is a known finding.)",
  ["inputs","programs","configurations"],"all words x all positions x all enclosing contexts x parse modes",
  "Only import bindings with non-reserved words are tested; no test rejects a reserved word or uses strict, async or generator contexts.",
  [K,CX,X,ST,D,PA],[("reservedWords table",K),("keywordToIdentifier",CX),("context save/restore around bodies",ST+", "+X)],["Parse acceptance and resulting names"],
  [("parse context","strict/async/generator flags in force",CX)])
p("C16","Import declarations keep every binding",
  "For every import declaration - bare, default, namespace, named, and the legal combinations - the module tree and its ESTree form list exactly the bindings written, in order, with imported and local names and the module specifier; a malformed import list is rejected rather than having entries dropped.",
  ["inputs"],"all import declarations and their token-level corruptions",
  "The import tests only check whether an error is returned; bindings are never inspected.",
  [M,A+"module.go"],[("parseImportDecl",M)],["ImportDeclNode fields and ESTree form"])
p("C17","Source locations are exact",
  "After each token the lexer reports the one-based row and column (in code points) of the input position right after that token, for every mix of line terminators (LF, CR, CRLF as one, LS, PS), wide characters, pushback and end of input, always carrying the caller's URI. Every error carries a location inside the input, not beyond the text consumed so far, and it wraps its cause, its message being exactly URI:row:column, the kind of error (syntax, encoding or parser) and the cause's message. Locations and spans render as the URI, rows and columns they hold.",
  ["inputs"],"all inputs, at every token boundary and every error",
  "No test looks at a location.",
  [S,PS,"ecmascript/ast/location.go","ecmascript/errs/errors.go"],[("row/col bookkeeping with sign encoding for pushback",S+" Read/Unread"),("location queue for peeked tokens",PS)],["Lexer.Location() after each token","error Location and message"],
  [("col,row","position of the next rune; negative column marks a just-read newline",S)])
p("C18","Parses are deterministic and isolated from each other",
  "Parsing the same text in the same mode always gives the same tree or the same error, whatever was parsed before in the process, and any number of parsers, lexers and ESTree conversions used concurrently on independent inputs neither race on shared memory nor influence each other's results. Parsing and conversion write nothing to standard output or standard error.",
  ["schedules","histories","inputs"],"all interleavings of independent parses and all orders of successive parses",
  "Tests are sequential, run each input once and are never run with the race detector; output written by the parser is ignored.",
  [L,T,U,X,PA,A+"node.go"],[("package-level tables are read-only","ecmascript/**"),("all mutable state is per parser",PA+", "+L)],["race detector","results compared with a sequential baseline","captured stdout/stderr"])
p("C19","UTF-16 encoding is exact for every string",
  "Encoding any string as UTF-16 yields exactly the standard encoding: one unit per BMP code point, a correct surrogate pair per supplementary code point, and U+FFFD for every invalid byte, with no missing or extra units.",
  ["inputs"],"all Go strings, including invalid UTF-8; all 1,112,064 scalar values",
  "Fourteen strings are tested.",
  [U],[("EncodeUTF16",U)],["EncodeUTF16 result"])
p("C20","The estree command prints exactly the trees, and fails loudly",
  "For every list of files, the estree command writes to standard output exactly one JSON document per file, in argument order, separated by the --- line, each equal to the ESTree of that file as the library produces it, and nothing else. If a file cannot be opened, read or parsed it exits with a non-zero status and a message naming the file (and, for parse errors, its URL, row and column) on standard error, after the documents of the preceding files.",
  ["inputs","fault_sequences"],"all sequences of files with valid, invalid, missing and unreadable contents",
  "The command has no tests at all.",
  ["cmd/estree/main.go",X],[("main loop",  "cmd/estree/main.go")],["stdout, stderr and exit status of the built binary"])
p("C21","The browser bridge answers every call and agrees with the library",
  "The WebAssembly parser answers every call, for any sequence of input strings, with an object holding either a result - the same JSON the native library produces for that text - or an error with the native error message (the nesting limit is lower there, so texts nested a few hundred levels deep may be answered with the error that says so); no input makes the instance exit or stop answering later calls.",
  ["histories","inputs"],"all sequences of calls with arbitrary strings",
  "It is only compiled, never run, by the build.",
  ["web/parser/parser.go",PA],[("ParseES","web/parser/parser.go")],["values returned to JavaScript from the wasm module run under node"])
p("C22","Trees of real programs agree with a reference parser",
  "For every valid script or module that the parser accepts - real-world libraries included - the ESTree it produces equals the ESTree the specification prescribes, as computed by an independent conforming parser, and it keeps accepting programs written in the language subset it implements.",
  ["inputs","programs"],"all valid programs the parser accepts",
  "The library test checks four files for absence of an error and never looks at the trees.",
  [X,ST,D,M,L,A+"expressions.go",A+"statement.go"],[("whole pipeline","ecmascript/")],["ESTree of accepted programs against acorn's"])
p("C23","Spans of nodes are exact",
  "In every tree the parser returns, each expression, statement, declaration, class member, import declaration and program carries a span whose start lies between the end of the token before the construct and the end of its first token's leading white space, and whose end is exactly the end of the construct's last token (its closing parenthesis, brace or semicolon included where they belong to it); spans of children lie within their parent's. A span prints as the location it starts at, followed by the row and column it ends at as far as they differ. ClearSpans removes the span of the node it is given and of every node below it, and changes nothing else in the tree.",
  ["inputs","programs"],"all programs the parser accepts, in all layouts",
  "No test looks at a span: the tests clear or ignore them before comparing trees, and a span that is forgotten, ends one token late or is overwritten by a look-ahead is different for each production.",
  [PA,X,ST,D,M,PS,A+"node.go",A+"location.go"],[("setStart/setEnd per production","ecmascript/parser/*.go"),("location queue for peeked tokens",PS),("ClearSpans",A+"node.go")],["Node.Span() of every node of the tree","the tree before and after ClearSpans"],
  [("span","where the node starts and ends",A+"node.go")])
p("C24","Looking ahead changes nothing",
  "The parser's token scanner gives, for every sequence of scans, peeks to any depth, rescans of a slash as a regular expression and location queries, exactly the tokens, locations and failures that a lexer asked for one token after the other gives: peeking consumes nothing, location queries answer for the last token consumed, a rescan is honoured whatever was peeked before it was asked for or is refused, and a failing token fails when and only when it is reached.",
  ["inputs","histories"],"all texts x all sequences of scanner calls",
  "The scanner has no tests of its own; the parser reaches only the few look-ahead depths of the productions that are tested, and never a failure inside of a peek.",
  [PS,L,PA],[("token and location queues",PS)],["results of Scan, PeekAt, ReScan and Location against a plain lexer"],
  [("token look-ahead queue","tokens lexed but not consumed",PS)])
p("C25","The work done is proportional to the text",
  "Parsing a text and converting its tree to ESTree make a number of memory allocations, allocate a number of bytes and take an amount of processor time that grow no faster than the length of the text, whatever construct is repeated and however often - long lists of every kind, long names, literals, comments and white space, accepted or rejected. Nesting constructs in each other costs no more memory per level and at most an amount of time per level that is proportional to the depth; nothing is exponential.",
  ["inputs"],"all texts: every construct repeated and nested in every combination",
  "A quadratic or exponential step is invisible in the short snippets of the tests and in four libraries: it needs the one construct it is in to be repeated thousands of times or nested a few dozen levels.",
  [L,S,T,PA,X,ST,D,M,A+"expressions.go",A+"statement.go"],[("lists are built by appending, literals in builders","ecmascript/**"),("each node is converted once",A+"*.go"),("look-ahead is bounded",PS)],["allocations, bytes and processor time of Parse and ESTree, measured by the runtime and the kernel"])
p("C26","Errors are raised at the token at fault",
  "When a text is rejected, the error is about the first token that can not continue the program: its location is the end of the last good token, the end of the token at fault or, for characters that form no token, inside of it (or the character found instead of the missing one), never before text that is fine and never later; only inside of parentheses that may still become arrow function parameters may it be later. A text that stops short is reported at its end. A token that the message names is the token at the location or the one right after it - the token at fault - and \"eof\" is only named at the end. The error is raised before more than two further tokens are read.",
  ["inputs","programs"],"all rejected texts: every token of every production followed by every token that can not follow it",
  "Tests check that a handful of texts fail, never where or with which message; an error that is raised a token, or a whole operand, late still fails.",
  [PA,X,ST,D,M,PS,"ecmascript/errs/errors.go"],[("SyntaxError, ScanExpect",PS),("errors of each production","ecmascript/parser/*.go")],["location and message of the error that Parse returns","how much of the reader was consumed"])
p("C27","Syntax that is not implemented is refused, never misread",
  "Every valid ECMAScript text, also one that uses syntax the parser does not implement (templates, optional chaining, BigInt, spread in literals, class fields, private names, static blocks, async and generator methods and declarations, await, yield, lexical declarations in for, for await, export, import(), import.meta, new.target, super, with, debugger, escaped identifiers, later additions), is either refused with a syntax or parser error and no tree, or gets exactly the tree that the language gives it: nothing is skipped, and no construct is taken for another one, wherever it stands. (HTML-like comments, optional by Annex B, and await in modules, a known finding, are excepted.)",
  ["inputs","programs"],"all valid texts of the language: every construct that is not implemented, in every position and combination",
  "Tests only feed the constructs that work. What the parser makes of the others - whether it fails, or silently produces a tree of something else - is open, and there are more combinations than a test can list.",
  [PA,X,ST,D,M,"ecmascript/lexer/lexer.go"],[("Unsupported","ecmascript/parser/scanner.go"),("productions without a case for the construct","ecmascript/parser/*.go")],["tree or error that Parse returns"])
p("C28","What a construct means does not depend on its surroundings",
  "A statement, declaration or expression has the same tree and the same spans, moved by what precedes it, whatever program stands in front of it, whatever follows it and whatever blocks, clauses, functions, arrows, members, operands, argument lists or brackets it stands in, as long as the language gives it the same meaning there; the surroundings, too, get the tree and spans that they have around anything else. A text that is rejected on its own is rejected with the same message at the same place of it behind any program, and inside of other constructs if nothing of it can close them. No context (strict, async, generator, in operator, nesting) outlives the construct it belongs to.",
  ["inputs","programs","histories"],"all pairs of a text and surroundings: every construct behind and inside of every other, to any depth",
  "Tests parse small texts on their own. The parser keeps contexts, flags and look-ahead across constructs; that none of them leaks into what follows or out of what contains it is a matter of every pair of constructs.",
  [PA,X,ST,D,"ecmascript/parser/context.go","ecmascript/lexer/lexer.go"],[("parser context saved and restored around functions","ecmascript/parser/context.go"),("expression flags","ecmascript/parser/expression.go")],["tree, spans and error of the text alone, of the surroundings alone, and of both together"])
p("C29","The demo page shows the tree or the error of what its input holds",
  "Once the parser is loaded and the user has stopped typing for a while, the demo page shows the ESTree of the text in its input and a success note, or the library's message for it, and never something left over from another text; a success and an error are never shown together. This holds for any sequence of edits, pauses and shared links and for any moment at which the parser arrives; a quick burst of keystrokes is not parsed once for each of them. If the parser can not be loaded, or ends, the page says so instead of showing a tree. The link made by the share button, when opened, shows the text that was shared. The page and everything it loads are in what web/build.sh builds.",
  ["histories","inputs","fault_sequences","schedules"],"all sequences of edits, pauses, shares and loading outcomes with arbitrary texts",
  "Nothing tests the page: its debouncing, loading order, error states and links only show in sequences of events over time.",
  ["web/parser/index.html","web/parser/parser.go","web/build.sh","web/index.html"],[("runParse, debounce, share and loading handlers","web/parser/index.html")],["values, texts and visibility of the elements of the page after each event","texts the page has parsed","the link that is copied"])
p("C30","What kind of loop a for statement is, and where its head's parts end",
  "Whatever expressions and targets the head of a for statement holds, it is a for-in loop exactly if an `in` that no bracket encloses ends its first part, a for-of loop exactly if an `of` does, and otherwise a loop with three parts: in the first part an `in` outside of brackets is never an operator, however many operands, assignments, conditionals or arrow functions it is the end of, while inside of brackets, function bodies and the middle of a conditional, and in all other parts of the head, it always is one. Each part gets the tree that the grammar gives it, and every other sequence of tokens in the head is rejected.",
  ["inputs","programs"],"all for statements: every operand, bracket and head in every combination, every short sequence of tokens as a head",
  "Tests cover the three kinds of loops with plain names. That an `in` is not taken for an operator depends on a flag that must be handed down through every operand and be dropped in every bracket.",
  [X,ST,D,PA],[("exprFlagDisallowIn",X),("parseForStatement, checkForTarget",ST)],["kind and parts of for statements in the tree, or the rejection"])
p("C31","The typed tree says what the source says, and ESTree is made of nothing else",
  "The tree that Parse returns holds, in the exported fields of its node types and as their documentation describes them, what the text says: operators, kinds, flags, names, raw texts, missing parts and elisions, and every pair of parentheses around an expression; the alternatives of which only one may be set are. ESTree is a function of these fields alone: it changes nothing, gives the same when called again, gives the same for a copy of the tree (whatever its spans are), and for a tree in which a node has been replaced by another one, or left out where the node type allows it, it gives the same with just that part replaced.",
  ["inputs","programs"],"all texts the parser accepts; all trees made by replacing nodes of these",
  "Tests compare a few hand-written trees, most of them without their ESTree, and never edit a tree before they convert it.",
  [A+"expressions.go",A+"expressions_binary.go",A+"expressions_unary.go",A+"expressions_literal.go",A+"statement.go",A+"declaration.go",A+"module.go",A+"estree.go",A+"temporal.go",X,ST,D,M],[("fields of each node type, ESTree methods",A+"*.go"),("ParenthesizedExpression",X)],["the exported fields of every node of the tree","ESTree of the tree, of a copy and of edited copies"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))
