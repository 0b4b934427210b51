#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that it stays readable)."""
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

p("C01", "The server's copy of an open document is always the client's text",
  "After any sequence of open, full or incremental change and close notifications, the text the server holds for each open document equals the text the client holds under LSP rules (UTF-16 positions, changes applied in order), documents never influence one another, and closed documents are gone. A change that cannot be applied (position outside the document, inverted range, wrong declared length) is rejected without altering the text or crashing; from then on the server answers from no text rather than from a wrong one until the document is opened again.",
  ["histories", "inputs"], "every history of open/change/close over any number of documents, any text (ASCII, 2-, 3- and 4-byte characters, any line layout), any list of edits",
  "lspserver has no unit test at all and the lit tests send a handful of single edits; histories of mixed edits over non-ASCII text are unbounded.",
  ["nixd/lspserver/src/SourceCode.cpp", "nixd/lspserver/src/DraftStore.cpp", "nixd/lib/Controller/TextDocumentSync.cpp", "nixd/lib/Controller/Support.cpp"],
  [("applyChange", "nixd/lspserver/src/SourceCode.cpp"), ("DraftStore::addDraft/getDraft/removeDraft", "nixd/lspserver/src/DraftStore.cpp"), ("onDocumentDidChange", "nixd/lib/Controller/TextDocumentSync.cpp")],
  ["textDocument/formatting (text handed to the formatter)", "textDocument/publishDiagnostics"])

p("C02", "LSP positions and byte offsets correspond exactly, in UTF-16 units",
  "For every text and every character boundary in it, converting the byte offset to an LSP position and back yields the same offset, the position's character counts UTF-16 code units since the last newline, and order is preserved. Positions past the end of a line or of the file are clamped or rejected as documented, never mapped to another line or outside the text, and ranges the server reports or accepts in any feature are in these units.",
  ["inputs"], "every text over characters of 1, 2, 3 and 4 UTF-8 bytes and newlines, every offset and every position",
  "the conversions have no unit test; one lit test holds one non-ASCII line.",
  ["nixd/lspserver/src/SourceCode.cpp", "nixd/lib/Controller/Convert.cpp"],
  [("positionToOffset / offsetToPosition / lspLength", "nixd/lspserver/src/SourceCode.cpp"), ("toLSPRange / toNixfPosition", "nixd/lib/Controller/Convert.cpp")],
  ["public conversion functions", "ranges in LSP replies"])

p("C03", "Every call gets exactly one answer, delivered to its own caller",
  "Every incoming request gets exactly one reply carrying its own id (an error reply when the method is unknown or fails), notifications get none, and every outgoing call's continuation runs exactly once, with the reply bearing its id or with an error when the call is given up; outgoing ids are never reused. Unknown, duplicate, malformed or out-of-order replies neither disturb other calls nor stop the server, and when too many calls are outstanding only the oldest are given up.",
  ["histories", "schedules", "inputs"], "every interleaving of incoming requests, notifications and replies (in any order, duplicated, with arbitrary ids) with outgoing calls, including more outstanding calls than the limit",
  "no test exercises LSPServer; ordering, duplication and overflow of outstanding calls are never reached.",
  ["nixd/lspserver/src/LSPServer.cpp", "nixd/lspserver/src/Connection.cpp", "nixd/lspserver/include/lspserver/LSPBinder.h"],
  [("onCall/onNotify/onReply", "nixd/lspserver/src/LSPServer.cpp"), ("bindReply / PendingCalls", "nixd/lspserver/src/LSPServer.cpp"), ("dispatch", "nixd/lspserver/src/Connection.cpp")],
  ["messages on the output stream", "reply callbacks"])

p("C04", "Messages are delivered in order and intact however the bytes arrive",
  "For every sequence of framed messages and every way of cutting the byte stream into reads, the server handles exactly those messages, in order and byte-identical, up to exit or end of input, including messages already written when the peer closes its end. A frame whose body is not valid JSON or whose headers are malformed is reported and skipped without losing well-framed messages that follow it, and everything the server writes is one correctly framed message at a time even when threads write concurrently.",
  ["inputs", "schedules", "fault_sequences"], "every message sequence, header layout, chunking of the stream, end-of-input point, and concurrent writers",
  "the lit tests use a different line-based input style and one process run per file; the standard framing is only ever fed whole.",
  ["nixd/lspserver/src/Connection.cpp", "nixd/lspserver/include/lspserver/Connection.h"],
  [("InboundPort::loop / readStandardMessage / readLine", "nixd/lspserver/src/Connection.cpp"), ("OutboundPort::sendMessage", "nixd/lspserver/src/Connection.cpp")],
  ["MessageHandler callbacks", "output bytes"])

p("C05", "Parsing any text terminates with a well-formed tree and located diagnostics",
  "For every byte sequence, parsing terminates without crashing, reading outside the text or failing an assertion; if it returns a tree, every node's range lies inside the text and inside its parent's range, siblings in source order do not overlap, and each node's line and column agree with its byte offset (the marker recorded for the `let` keyword, and the bindings of the deprecated `let { }`, which stand for two nodes at once, are exempt). Every diagnostic, note and fix edit likewise lies within the text.",
  ["inputs"], "every byte sequence, in particular every truncated, unbalanced or garbled program",
  "140 gtests parse about a hundred fixed snippets; error recovery has unboundedly many paths.",
  ["libnixf/src/Parse", "libnixf/include/nixf/Basic/Range.h", "libnixf/src/Sema/SemaActions.cpp"],
  [("parse", "libnixf/src/Parse/ParseExpr.cpp"), ("Lexer", "libnixf/src/Parse/Lexer.cpp"), ("withSync / parseXxx recovery", "libnixf/src/Parse/ParseSupport.cpp")],
  ["nixf::parse: tree, ranges, diagnostics"])

p("C06", "Valid expressions group by Nix's precedence and associativity",
  "For every syntactically valid Nix expression the tree has the shape the Nix grammar prescribes: operators group by Nix's precedence and associativity table, application binds tighter than operators and selection tighter than application, and keyword forms (if, let, with, assert, functions) extend as far right as possible. No syntax error is reported for a valid expression, and chained non-associative operators are reported.",
  ["programs"], "every expression built from all operators, application, selection, lists, functions and keyword forms",
  "unit tests hold a dozen operator pairs out of the hundreds possible, and no three-level nests.",
  ["libnixf/src/Parse/ParseOp.cpp", "libnixf/src/Parse/ParseExpr.cpp", "libnixf/src/Parse/ParseLambda.cpp", "libnixf/src/Parse/ParseSimple.cpp"],
  [("getBP / parseExprOpBP", "libnixf/src/Parse/ParseOp.cpp"), ("parseExprApp / parseExprSelect", "libnixf/src/Parse/ParseExpr.cpp")],
  ["nixf::parse: tree shape and diagnostics"])

p("C07", "Tokens, strings and paths are read as Nix reads them",
  "Every text splits into tokens as Nix's lexical grammar prescribes (longest match; comments and blanks dropped; strings, indented strings, paths and interpolations nest to any depth), tokens never overlap and leave only blanks and comments between them. A closed string literal's decoded value is the one Nix gives its escapes, and interpolations appear at their place in it.",
  ["inputs"], "every sequence of characters drawn from all lexical classes, every nesting of strings and interpolations",
  "lexer tests fix about thirty inputs; combinations of quotes, dollars and backslashes grow exponentially.",
  ["libnixf/src/Parse/Lexer.cpp", "libnixf/src/Parse/ParseStrings.cpp", "libnixf/src/Parse/ParseSimple.cpp"],
  [("lex / lexString / lexIndString / lexPath", "libnixf/src/Parse/Lexer.cpp"), ("parseStringParts", "libnixf/src/Parse/ParseStrings.cpp")],
  ["token stream", "string nodes' parts"])

p("C08", "Attribute sets merge and report duplicates as Nix does",
  "For every attribute set or let block, the set of attributes and their nesting computed from its bindings, attribute paths, nested literals and inherits is the one Nix computes (two literals for one name merge one level deep, the rule of the Nix version nixd follows), each with its own value. A duplicate is reported exactly when Nix would reject it, at the later definition and naming the earlier one, and dynamic names are kept apart from static ones.",
  ["programs"], "every sequence of bindings with any paths, nested (recursive or not) set literals, inherits and dynamic names",
  "unit tests merge two or three bindings; order and nesting of merges are combinatorial.",
  ["libnixf/src/Sema/SemaActions.cpp", "libnixf/src/Parse/ParseAttrs.cpp", "libnixf/include/nixf/Basic/Nodes/Attrs.h"],
  [("Sema::insertAttr/addAttr/mergeAttrSets/onExprAttrs", "libnixf/src/Sema/SemaActions.cpp")],
  ["semantic attributes of parsed sets", "diagnostics"])

p("C09", "Function parameter lists are checked completely",
  "For every function parameter list, in any order of names, defaults, commas, ellipses and @-patterns, a diagnostic is reported exactly for each violation of Nix's rules (duplicate name, name clashing with the @-name, missing or superfluous comma, misplaced or repeated ellipsis, repeated @), and the names bound are exactly the distinct names written.",
  ["programs"], "every sequence of parameter-list tokens",
  "unit tests hold about fifteen parameter lists.",
  ["libnixf/src/Sema/SemaActions.cpp", "libnixf/src/Parse/ParseLambda.cpp"],
  [("Sema::onFormals / checkFormalSep / checkFormalEllipsis / dedupFormal", "libnixf/src/Sema/SemaActions.cpp"), ("parseFormals / parseLambdaArg", "libnixf/src/Parse/ParseLambda.cpp")],
  ["diagnostics", "formals of parsed lambdas"])

p("C10", "Every variable resolves to the binding Nix would use",
  "In every program each variable resolves to the innermost enclosing let, rec or function binding of its name (plain inherits and non-recursive set values seeing the outer scope), else to the enclosing with expressions, innermost first, else to a builtin, else to nothing. Each binding's recorded uses are exactly the variables resolving to it.",
  ["programs"], "every nesting of let, rec, functions, with, inherit, attribute paths and interpolation over any names",
  "the variable lookup tests are not linked in this build (they need Nix) and hold about twenty programs.",
  ["libnixf/src/Sema/VariableLookup.cpp", "libnixf/src/Sema/SemaActions.cpp"],
  [("VariableLookupAnalysis::dfs/lookupVar/dfsAttrs", "libnixf/src/Sema/VariableLookup.cpp"), ("desugarInheritExpr", "libnixf/src/Sema/SemaActions.cpp")],
  ["variable lookup queries", "definition and reference replies"])

p("C11", "Undefined, unused and redundant constructs are reported exactly",
  "An undefined-variable error is reported exactly for the variables that resolve to nothing; an unused warning exactly for let bindings and function parameters no variable resolves to; a redundant-rec or redundant-with warning exactly when nothing resolves through it. Builtin hints (needless or missing builtins prefix, unknown builtin, shadowed builtin or constant) are reported exactly where they apply.",
  ["programs"], "every nesting of binding forms over any names, including builtin names",
  "the existing tests for this analysis are not linked in this build and sample about twenty programs.",
  ["libnixf/src/Sema/VariableLookup.cpp", "libnixf/src/Sema/PrimOpLookup.cpp"],
  [("emitEnvLivenessWarning / lookupVar / checkBuiltins / checkLetInheritBuiltins", "libnixf/src/Sema/VariableLookup.cpp")],
  ["diagnostics", "textDocument/publishDiagnostics"])

p("C12", "Go-to-definition, references, highlight and rename agree with scoping",
  "From any variable bound by let, rec or a function, definition leads to its binding; from any occurrence of such a name, references and highlights are exactly the occurrences resolving to the same binding. Rename to a name the program does not use edits exactly those occurrences together with the binding and with the bindings tied to it by a plain inherit, so that afterwards every variable still resolves as before. Where the name cannot be renamed safely (builtins, with-provided, undefined or otherwise inherited names, new names that are not identifiers) rename yields no edit.",
  ["programs", "inputs"], "every program and every cursor position in it",
  "the server's navigation code is not compiled in this build; lit tests hold one or two programs per feature.",
  ["nixd/lib/Controller/Definition.cpp", "nixd/lib/Controller/FindReferences.cpp", "nixd/lib/Controller/DocumentHighlight.cpp", "nixd/lib/Controller/Rename.cpp"],
  [("findDefinition", "nixd/lib/Controller/Definition.cpp"), ("rename", "nixd/lib/Controller/Rename.cpp"), ("highlight / findReferences", "nixd/lib/Controller/DocumentHighlight.cpp")],
  ["LSP replies"])

p("C13", "Applying a diagnostic's fix cures it and harms nothing else",
  "The edits of every offered quick fix are within the text and do not overlap, and applying them yields the text the message promises: the diagnosed problem is gone, the program is no less well-formed than before, and every variable and attribute not named by the diagnostic keeps its meaning.",
  ["programs", "inputs"], "every program with any combination of diagnosed defects, every offered fix",
  "tests check the edit list of a few fixes and never apply one and re-analyse.",
  ["libnixf/src/Sema/VariableLookup.cpp", "libnixf/src/Sema/SemaActions.cpp", "libnixf/src/Parse", "nixd/lib/Controller/CodeAction.cpp"],
  [("Diagnostic::fix / TextEdit", "libnixf/include/nixf/Basic/Diagnostic.h"), ("onCodeAction", "nixd/lib/Controller/CodeAction.cpp")],
  ["fixes of diagnostics", "textDocument/codeAction"])

p("C14", "Attribute set refactorings preserve the attribute set",
  "Flattening a nested set, packing dotted paths (one, shallow, recursive), converting between bindings and inherit, and quoting or unquoting a name each turn the text into one that parses without new errors and denotes the same attributes with the same values resolved in the same scopes (documented exception: `x = x` in a recursive set, which would refer to itself, becomes `inherit x`, which refers to the x outside). The action is not offered where that is impossible, and text outside the edited bindings is untouched.",
  ["programs", "inputs"], "every attribute set (recursive or not, with nested sets, dotted paths, inherits, dynamic or quoted names) and every cursor position",
  "code actions are compiled but never linked here; lit tests sample single layouts.",
  ["nixd/lib/Controller/CodeActions"],
  [("addFlattenAttrsAction", "nixd/lib/Controller/CodeActions/FlattenAttrs.cpp"), ("addPackAttrsAction", "nixd/lib/Controller/CodeActions/PackAttrs.cpp"), ("addConvertToInheritAction / addInheritToBindingAction", "nixd/lib/Controller/CodeActions/ConvertToInherit.cpp"), ("addAttrNameActions", "nixd/lib/Controller/CodeActions/AttrName.cpp")],
  ["code action edits applied to the text"])

p("C15", "Rewriting a string between quoting styles preserves its value",
  "Whenever the action that rewrites a string literal between double-quoted and indented form is offered, applying it yields a string literal of the other form that Nix evaluates to the same value, with the same interpolations, for every content.",
  ["inputs"], "every sequence of characters, escapes and interpolations inside a literal of either form",
  "code actions are compiled but never linked here; lit tests sample a few contents.",
  ["nixd/lib/Controller/CodeActions/RewriteString.cpp", "nixd/lib/Controller/CodeActions/Utils.cpp", "libnixf/src/Parse/ParseStrings.cpp"],
  [("addRewriteStringAction / escapeForIndentedString", "nixd/lib/Controller/CodeActions/RewriteString.cpp"), ("escapeNixString", "nixd/lib/Controller/CodeActions/Utils.cpp")],
  ["code action edits applied to the text"])

p("C16", "JSON converted to Nix denotes the same value",
  "For every JSON array or object selected in a document, the offered conversion produces a valid Nix expression denoting exactly the same value: same structure and keys, strings character by character, numbers with the same value. Nothing is offered for text that is not JSON.",
  ["inputs"], "every JSON value within the documented size limits",
  "lit tests convert a handful of documents.",
  ["nixd/lib/Controller/CodeActions/JsonToNix.cpp", "nixd/lib/Controller/CodeActions/Utils.cpp"],
  [("jsonToNix", "nixd/lib/Controller/CodeActions/JsonToNix.cpp"), ("quoteNixAttrKey / escapeNixString", "nixd/lib/Controller/CodeActions/Utils.cpp")],
  ["code action edits applied to the text"])

p("C17", "Scope-changing refactorings keep every name's meaning",
  "Converting with to let/inherit, adding an undefined name to the function's parameters, and extracting an expression to a file each yield programs in which every variable still refers to what it referred to before (or, for an added parameter, to that parameter; for an extracted expression, to the parameter passed for it). The action is not offered where that is impossible.",
  ["programs", "inputs"], "every nesting of with, let, functions and attribute sets and every cursor position",
  "code actions are compiled but never linked here; capture problems need particular nestings.",
  ["nixd/lib/Controller/CodeActions/WithToLet.cpp", "nixd/lib/Controller/CodeActions/AddToFormals.cpp", "nixd/lib/Controller/CodeActions/ExtractToFile.cpp"],
  [("addWithToLetAction", "nixd/lib/Controller/CodeActions/WithToLet.cpp"), ("addToFormalsAction", "nixd/lib/Controller/CodeActions/AddToFormals.cpp"), ("addExtractToFileAction", "nixd/lib/Controller/CodeActions/ExtractToFile.cpp")],
  ["code action edits applied to the text"])

p("C18", "Published diagnostics always converge to the latest text and settings",
  "For every open document the last diagnostics published are those of its current text under the current suppression settings, carry the version they were computed from when one is given, and never go back to an older text; after a configuration change every open document is republished. Suppression removes exactly the named kinds and nothing else.",
  ["histories", "schedules", "configurations"], "every interleaving of document changes, closes, configuration changes and requests over several documents",
  "the lit tests open one document once; the server is not linked in this build.",
  ["nixd/lib/Controller/Diagnostics.cpp", "nixd/lib/Controller/Support.cpp", "nixd/lib/Controller/Configuration.cpp", "nixd/lib/Controller/TextDocumentSync.cpp"],
  [("publishDiagnostics / updateSuppressed / isSuppressed", "nixd/lib/Controller/Diagnostics.cpp"), ("actOnDocumentAdd", "nixd/lib/Controller/Support.cpp"), ("workspaceConfiguration / fetchConfig", "nixd/lib/Controller/Configuration.cpp")],
  ["textDocument/publishDiagnostics"])

p("C19", "The server survives any client and worker behaviour and exits cleanly",
  "Every request of the advertised features is answered (with a result or an error) for any document, position and parameters, including unopened, empty or broken documents, while evaluator workers are missing, slow, failing or dying; the process neither crashes nor hangs, later requests keep working, and a document's failure does not affect another. After shutdown and exit the process ends with status 0, without shutdown with a non-zero status, and leaves no worker behind.",
  ["histories", "fault_sequences", "schedules"], "every history of lifecycle messages, feature requests and worker faults",
  "no test drives the server with faults; the controller is not linked in this build.",
  ["nixd/lib/Controller", "nixd/lib/Eval/AttrSetClient.cpp", "nixd/lib/Eval/Launch.cpp", "nixd/lib/Support"],
  [("onInitialize / onShutdown / exit", "nixd/lib/Controller/LifeTime.cpp"), ("getTU / checkedGetTU / CheckReturn", "nixd/lib/Controller/CheckReturn.h"), ("AttrSetClientProc", "nixd/lib/Eval/AttrSetClient.cpp")],
  ["LSP replies", "exit status"])

p("C20", "Completion offers exactly the names in scope that match",
  "Wherever a variable is being typed, completion offers every name that is visible there and starts with what is typed (bindings of the enclosing let, recursive sets and functions, and the global builtins except the internal ones starting with __), nothing that is not visible, and no name twice. What the workers answer for the package or option being typed is offered likewise; at most 30 items are returned, and the list is flagged incomplete exactly when some were left out. What an item inserts is its name, quoted where Nix requires that (a variable that would need quotes is not offered), or for options the assignment of the offered value, also as a snippet.",
  ["programs", "inputs"], "every program, cursor position and prefix, and every set of names a worker may return",
  "completion is not linked in this build; lit tests hold a few programs.",
  ["nixd/lib/Controller/Completion.cpp"],
  [("VLACompletionProvider", "nixd/lib/Controller/Completion.cpp"), ("addItem / ExceedSizeError", "nixd/lib/Controller/Completion.cpp")],
  ["textDocument/completion"])

p("C21", "Outline, folding, highlighting tokens and links are structurally sound",
  "For every document, document symbols form a tree whose ranges nest, contain their selection range and lie in the text; folding ranges are multi-line, within the text and properly nested; semantic tokens are in document order without overlap, each on one token of the text. For a valid program, what they list is exactly what it contains, by the rules of each: the outline, all attributes (once, however many bindings contribute), functions, lists, literals and variables outside of parameters and string interpolations; folding, all sets, lists, functions, let, with, if and strings of several lines outside of these; tokens, all parameters, attribute names, variables (as what they resolve to) and strings except inherited names and interpolations; links, all literal paths to existing files.",
  ["programs", "inputs"], "every program, valid or not, with any characters",
  "these features are not linked in this build; lit tests hold one or two documents each.",
  ["nixd/lib/Controller/DocumentSymbol.cpp", "nixd/lib/Controller/FoldingRange.cpp", "nixd/lib/Controller/SemanticTokens.cpp", "nixd/lib/Controller/DocumentLink.cpp"],
  [("collect", "nixd/lib/Controller/DocumentSymbol.cpp"), ("SemanticTokenBuilder", "nixd/lib/Controller/SemanticTokens.cpp")],
  ["LSP replies"])

p("C22", "Document URIs and file paths convert back and forth without loss",
  "For every absolute file path, converting it to a URI and back gives the same path, and every percent-encoded form of a URI denotes the same document; only absolute file paths of the file scheme are accepted, and other URIs (without a scheme, of another one, of relative paths) are rejected without crashing. A percent sign that begins no escape stands for itself.",
  ["inputs"], "every path over any bytes and every URI string",
  "no test covers the URI code.",
  ["nixd/lspserver/src/URI.cpp", "nixd/lspserver/src/Protocol.cpp"],
  [("URI::create / parse / percentEncode / percentDecode", "nixd/lspserver/src/URI.cpp"), ("URIForFile", "nixd/lspserver/src/Protocol.cpp")],
  ["URI API", "uris in LSP messages"])

p("C23", "Evaluator queries carry the attribute path under the cursor",
  "For every name under the cursor in a package or option expression, the query sent to the nixpkgs or options worker (hover, completion, definition, inlay hints) carries exactly the attribute path denoted there: in packages, what is selected from pkgs, from lib, or from the innermost with around a variable no scope binds (hover and definition anywhere in a selection ask about the whole selection, completion about it up to the cursor); in options, the path through the directly nested sets that are values of bindings (also through parentheses, with, let, if and assert), without a leading config, where a set that is no binding's value is a module of its own. Nothing is asked where the path is dynamic or unknown, resolving a completion asks about the item, and the worker's answers are reported for that position only.",
  ["programs", "inputs"], "every selection, with-scope and nested option path, and every cursor position in it",
  "the controller is not linked in this build and lit tests need a Nix evaluator.",
  ["nixd/lib/Controller/AST.cpp", "nixd/lib/Controller/Completion.cpp", "nixd/lib/Controller/Hover.cpp", "nixd/lib/Controller/Definition.cpp", "nixd/lib/Controller/InlayHints.cpp"],
  [("mkSelector / mkVarSelector / findAttrPath", "nixd/lib/Controller/AST.cpp")],
  ["messages sent to the worker process"])

p("C24", "The evaluator worker reports real attributes and options",
  "The evaluation worker answers attribute-path and option queries with what evaluating the configured expression yields, and reports evaluation failures as errors without dying.",
  ["inputs", "fault_sequences"], "every expression and query",
  "needs a Nix evaluator, which no test in this sandbox has.",
  ["nixd/lib/Eval/AttrSetProvider.cpp", "libnixt/lib/Value.cpp"],
  [("AttrSetProvider", "nixd/lib/Eval/AttrSetProvider.cpp")])

p("C25", "Formatting yields exactly what the formatting command prints",
  "For every formatting command (whatever it reads, prints to either output, in whichever order and amount, and however it ends) and every open document, the command gets exactly the current text as input and its configured arguments, no other pipe of the server, and the request is answered as soon as the command ends: by no edit if it succeeds and prints the same text, by one replacement of the whole document by exactly its output if it prints another, and by an error if it cannot be run, fails or prints no UTF-8, or the document is not open. Nothing the command does blocks, crashes or leaks in the server, and formatting several documents at once does not interfere.",
  ["inputs", "schedules", "fault_sequences"], "every command behaviour, text size and interleaving of reads and writes on the three pipes, and every interleaving of processes being started",
  "no stable test formats anything; a lit test runs one command with a tiny output.",
  ["nixd/lib/Controller/Format.cpp", "nixd/lib/Support/ForkPiped.cpp"],
  [("Controller::onFormat", "nixd/lib/Controller/Format.cpp"), ("forkPiped", "nixd/lib/Support/ForkPiped.cpp")],
  ["textDocument/formatting", "stdin, stdout and descriptors of the formatting command"])

p("C26", "What the evaluators know is what the user is shown",
  "Whatever an evaluation worker answers about a package or option (any fields missing, empty or holding any characters, any number of workers, some not knowing the option), hovering shows the name, homepage, description, long description, function documentation, arity and arguments of the package, or type and description of the option, as given and nothing else; the first worker that knows the option is believed. Go to definition leads to the package's source position if that is an absolute path, else to the location of the value, and to every place declaring the option; where nothing is known nothing is reported. Version hints stand at the end of each package of the requested range, resolving a completion adds descriptions and version, and an option's completion offers its example and default with type and documentation.",
  ["inputs"], "every answer of a worker",
  "lit tests hold a few answers, and need a Nix evaluator; the controller is not linked in this build.",
  ["nixd/lib/Controller/Hover.cpp", "nixd/lib/Controller/Definition.cpp", "nixd/lib/Controller/InlayHints.cpp", "nixd/lib/Controller/Completion.cpp", "nixd/lib/Protocol/AttrSet.cpp"],
  [("NixpkgsHoverProvider / OptionsHoverProvider", "nixd/lib/Controller/Hover.cpp"), ("NixpkgsDefinitionProvider / OptionsDefinitionProvider", "nixd/lib/Controller/Definition.cpp"), ("NixpkgsInlayHintsProvider", "nixd/lib/Controller/InlayHints.cpp")],
  ["hover, definition, inlayHint, completion and completionItem/resolve replies"])

p("C27", "The latest valid configuration takes effect, as a whole",
  "After any history of configurations (from the command line, and replied by the client in any order and at any time, valid or not), formatting uses the command of a configuration that was in effect between request and answer, never an earlier one again, and finally the latest valid one (the default where it names none). Every package and option expression of a configuration that takes effect is evaluated by the worker of its name, of which there is one only, in the order of configurations, the latest one last; a configuration with any invalid part changes nothing. Every evaluation is reported to clients that want it by one progress with its own token, created before it begins and ended once, also if evaluating fails or the worker dies; an invalid configuration of the command line ends the server with a non-zero status.",
  ["histories", "schedules", "fault_sequences"], "every history of configurations, requests and worker deaths, and every interleaving of the jobs that apply them",
  "configurations are not linked in this build; a lit test configures once.",
  ["nixd/lib/Controller/Configuration.cpp", "nixd/lib/Controller/LifeTime.cpp", "nixd/lib/CommandLine/Configuration.cpp"],
  [("Controller::updateConfig / fetchConfig", "nixd/lib/Controller/Configuration.cpp"), ("evalExprWithProgress", "nixd/lib/Controller/LifeTime.cpp")],
  ["formatting results", "expressions sent to workers", "window/workDoneProgress/create and $/progress"])

p("C28", "Documentation that is offered is that of what is under the cursor",
  "Wherever the cursor is in a selection of names known from the text from the variable lib (the innermost selection around it counts), exactly one action offers its documentation, called by the last name; resolving it asks the client to open exactly the page of these names, properly encoded whatever characters they have. Nowhere else is documentation offered, and resolving any action returns it unchanged, opening nothing else.",
  ["programs"], "every nesting of selections, names and cursor positions",
  "lit tests hold a few selections; the controller is not linked in this build.",
  ["nixd/lib/Controller/CodeActions/NoogleDoc.cpp", "nixd/lib/Controller/CodeAction.cpp"],
  [("addNoogleDocAction", "nixd/lib/Controller/CodeActions/NoogleDoc.cpp"), ("onCodeActionResolve", "nixd/lib/Controller/CodeAction.cpp")],
  ["textDocument/codeAction, codeAction/resolve, window/showDocument"])

p("C29", "The linter prints exactly what the analyses found; the server shows the same",
  "For every input and every combination of options, nixf-tidy exits normally and prints one JSON array in UTF-8 (on one line unless asked otherwise): what is wrong with the text, and with --variable-lookup also with its names, each once, with its name, number, severity, arguments that fit its message, notes and fixes, all at places of the text whose offset, line and column agree; no other option changes that. What the server publishes for the same text is the same report: ranges, severity, tags, the message with its arguments filled in, and each note both as related information and as a hint that leads back.",
  ["programs"], "every text, also ones that are not UTF-8, and every list of options",
  "The tool itself has no test; unit tests look at single diagnostics inside of the library.",
  ["libnixf/tools/nixf-tidy.cpp", "libnixf/src/Basic/JSONDiagnostic.cpp", "libnixf/src/Basic/Diagnostic.cpp", "nixd/lib/Controller/Diagnostics.cpp"],
  [("main", "libnixf/tools/nixf-tidy.cpp"), ("to_json", "libnixf/src/Basic/JSONDiagnostic.cpp"), ("publishDiagnostics", "nixd/lib/Controller/Diagnostics.cpp")],
  ["nixf-tidy: stdin, options, stdout", "textDocument/publishDiagnostics"])

p("C30", "Options switch exactly their features, and what is announced is provided",
  "For every list of options, given on the command line or in NIXD_FLAGS: one that is unknown or has a wrong value is refused with a failing status before anything is written to the client or a worker is started, and a question about the version or the options is answered with success. Otherwise the server runs and each option decides about its own feature only (inlay hints, semantic tokens, pretty printing, log level, default expressions of the workers, configuration, files for what workers say), whatever is not given being as by default, the environment read before the command line, and the last value of an option counting. Each announced feature answers when asked: code actions are of the announced kinds, tokens of the announced types, documents are kept in the announced way, and only protocol messages appear on standard output.",
  ["configurations", "inputs"], "every list of options and every split between command line and environment",
  "Tests run the server with a handful of fixed options and never look at what they must not change.",
  ["nixd/tools/nixd.cpp", "nixd/lib/Controller/LifeTime.cpp", "nixd/lib/Controller/InlayHints.cpp"],
  [("onInitialize", "nixd/lib/Controller/LifeTime.cpp"), ("main", "nixd/tools/nixd.cpp")],
  ["command line", "NIXD_FLAGS", "initialize"])

p("C31", "Every answer is that of one text the document had since it was asked",
  "However edits, openings and closings of documents and requests about them follow one another, and however long answering takes, every answer about a document is exactly the one the server gives for one single text (or its absence) the document had between the request and the answer; never one of an earlier text, never one of a mixture of several texts, never one of another document.",
  ["histories", "schedules"], "every history of edits and requests of any kind over any number of documents, and every schedule of the threads that answer",
  "Tests send one request at a time about a document that does not change.",
  ["nixd/lib/Controller/Support.cpp", "nixd/include/nixd/Controller/Controller.h", "nixd/include/nixd/Controller/NixTU.h", "nixd/lib/Controller/TextDocumentSync.cpp"],
  [("actOnDocumentAdd / getTU", "nixd/lib/Controller/Support.cpp"), ("immutable translation units, one per text", "nixd/include/nixd/Controller/NixTU.h")],
  ["replies to all textDocument requests"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
