#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("Trusts TLC, the driver and harness in lib/ and harness/, and the specification as a reading of Nix's and LSP's rules. "
        "Exhaustive within the bounds recorded in the evidence file (constants per TLC run); random but seeded beyond them. ")
T = {
 "C01": ("TLA+ specification of document synchronisation (DocSync.tla: client and server state machine, invariants checked by TLC; DocEdit.tla: every edit of every small text), histories replayed into the real server",
         "Every history is sent to the real server; after every step the text it holds (as its formatter sees it), the version published, and at the end every answer it gives compared with those for a fresh copy of the text, must be the specification's."),
 "C02": ("TLA+ specification of UTF-8/UTF-16 positions (Utf.tla, Positions.tla; the two views proved inverse within bounds by TLC), replayed into the real conversions; every feature of the real server on programs with wide characters inserted",
         "All small texts over characters of 1 to 4 bytes, all positions in and beyond them. In the server, inserting comments with wide characters must move every answer as the specification's position map does."),
 "C03": ("TLA+ specification of calls in both directions (Rpc.tla; RpcThreads.tla for concurrent callers, whose uniqueness and delivery invariants TLC checks), histories replayed into the real server base with perturbed schedules and I/O",
         "The real LSPServer carries test methods (harness/rpc_h.cpp); after every step it must have sent exactly what the specification says. Bursts of calls from several threads run with delays at every lock."),
 "C04": ("TLA+ specification of message framing (Framing.tla: client bytes, reader state machine, checked under every interleaving by TLC; Writers.tla for concurrent writers), generated streams replayed into the real server base in varied pieces",
         "Frames of all shapes (headers, bodies, damage, cut short) are written in pieces with injected short reads, short writes and EINTR; the answers received must be those to exactly the specified messages, and the output a sequence of whole frames."),
 "C18": ("TLA+ specification of publishing under concurrency (Publish.tla: all schedules checked by TLC; former protocols shown to violate), recorded histories of the real server with perturbed schedules validated by TLC against Diags.tla (PublishTrace.tla)",
         "Generated histories of edits, closings and configuration replies are played against the real server with delays at its locks; what it publishes must be a behaviour of the trace specification, ending in the latest text and settings."),
 "C05": ("TLA+ text generators (Soup, Grammar, GrammarMut); every recorded tree walk of the real parser validated by TLC against TreeWalk.tla",
         "Generated texts (token soups, damaged sentences, nests) are parsed by the real code under ASan/UBSan; the walk of each resulting tree, with its diagnostics, must be a behaviour of TreeWalk. Known finding: no nesting limit."),
 "C06": ("TLA+ grammar (Grammar.tla leftmost derivations, Ops.tla precedence semantics) enumerated by TLC, replayed into the real parser",
         "Every sentence carries the tree the specification derives; the real tree must be equal and free of syntax errors. Known findings: pipe associativity (pinned by the repository's tests), legacy let as an operand."),
 "C07": ("TLA+ longest-match scanner (Lex.tla) and string decoder (StrLex.tla) enumerated by TLC, replayed into the real lexer and parser",
         "All texts over the lexical alphabet up to the bound are scanned by both. The value of strings and numbers is compared, too."),
 "C08": ("TLA+ specification of attribute merging (Attrs.tla, libexpr's addAttr) enumerated by TLC, replayed into the real semantic actions",
         "The real semantic attribute tree, duplicate reports with the earlier definition, dynamic inherits and rec clashes must equal the specification's."),
 "C09": ("TLA+ specification of parameter lists (Formals.tla: rules and an independent grammar, proved equivalent within bounds by TLC), replayed into the real parser",
         "For every token sequence up to the bound the reports, their positions and the bound names must be the specification's."),
 "C10": ("TLA+ pushdown specification of Nix scoping (Scope.tla) generates programs with the binding of every occurrence; replayed into the real analysis",
         "For every generated program the real resolution of each variable, the with expressions tried, and the uses of each binding must be the specification's. Two invariants of the resolution are checked by TLC."),
 "C11": ("TLA+ specification of scoping and reports (Scope.tla) generates programs with the exact set of reports; replayed into the real analysis",
         "The real reports and their places must be exactly those derived by the specification. Builtins are a small stand-in table, as the real one is generated from a Nix installation."),
 "C12": ("TLA+ specification of scoping and navigation (Scope.tla, Nav.tla; rename soundness and minimality checked by TLC) generates programs with the answer at every occurrence; replayed into the real server over LSP",
         "At every occurrence of a name in every generated program the real server's definition, references, highlights, rename and prepareRename must be the specification's."),
 "C13": ("TLA+ specifications of what each fix has to yield (Fix.tla on scopes, Repair.tla on single faults, Formals.tla on parameter lists; soundness of the fixes checked by TLC), replayed into the real diagnostics",
         "Every fix the real code offers on the generated texts is applied to the text and the result is parsed and analysed again: it must be the text and have the resolution the specification derives. On arbitrary generated texts: edits applicable, problem gone."),
 "C15": ("TLA+ specification of the value of both kinds of string literals (StrValue.tla; literals and the value-preserving rewriting enumerated by StrLex.tla), the literals written by the real code action validated by TLC (Rewrite.tla)",
         "Every generated literal, in varied surroundings, is offered to the real server; the rewritten text must keep the tree around it, and the rewritten literal must have the value the specification gives the original."),
 "C16": ("TLA+ specifications of JSON texts and values (JsonText.tla: grammar generator with faults and an independent reader; JsonLex.tla: number automaton, string pieces) enumerated by TLC, replayed into the real code action",
         "Every generated text is selected in a document of the real server. JSON must be converted to Nix text that denotes the value the specification derives, other text must not be offered. Numbers outside the 64-bit range are compared as doubles."),
 "C22": ("TLA+ specification of file URIs and paths over bytes (Uri.tla; TLC: every way of writing a path denotes it, encoding and decoding are inverse), URIs enumerated by UriGen.tla replayed into the real conversions and the real server; the URIs it answers with validated by TLC (UriTrace.tla)",
         "All URIs of short paths over the special bytes with each byte written raw or escaped, all short texts around the scheme and authority, random long ones. Escapes within the scheme, and paths of the form //name, are left open."),
 "C19": ("TLA+ specification of the server's pool, worker calls and end of session (Workers.tla; TLC: all schedules with worker faults, five weaker protocols must be refuted), client histories generated by LifecycleGen.tla replayed into the real server with scripted workers and delays at its locks; every session validated by TLC against LifecycleTrace.tla; generated texts (Soup, GrammarMut) asked about at every position",
         "Workers are scripted stand-ins (no Nix evaluator here). A reply that takes over 30 s counts as none. Schedules of the real server are sampled with random delays at its locks, not enumerated."),
 "C23": ("TLA+ specification of which attribute path a name denotes (Query.tla, a pushdown machine recording scopes, bases, paths and option paths), programs enumerated by TLC replayed into the real server; the messages its workers receive are compared with the specified ones",
         "The idioms pkgs and lib are recognised by name, as documented; quoted names are asked about only where the cursor is in an identifier."),
 "C20": ("TLA+ specification of the names visible at a variable (Complete.tla on Scope.tla; TLC checks they are the ones that resolve) and of the list's assembly and limit (CompleteList.tla), both replayed into the real server with scripted workers; inserted texts and snippets validated by TLC (CompleteText.tla reads snippets and strings)",
         "Which names are global is taken from the server's own answers in an empty scope (the table of builtins is generated with Nix, which is missing here); they are required to be the documented kind."),
 "C14": ("TLA+ specification of what programs denote (Denote.tla) and of the refactorings as transitions on programs (Refactor.tla, with TLC checking that each keeps it and binds nothing twice); the edits of the real code actions applied and validated by TLC (Refactored.tla)",
         "Every refactoring the real server offers, at every name and binding of the generated programs, is applied to the text; before and after are parsed by the real parser and must have the same normal form (variables replaced by what they refer to, bindings merged)."),
 "C17": ("TLA+ specification of the refactorings with their side conditions (Rescope.tla; TLC checks that every name keeps its meaning, and that each side condition is needed), edits of the real code actions applied and validated by TLC against the denotation (Denote.tla, Refactored.tla)",
         "Every conversion of with, added parameter and extraction the real server offers is applied (to the source and the new file); both programs, parsed by the real parser, must have the same normal form, where the converted with, the new parameter and the extracted file are interpreted as specified. The extraction must create a new file and change nothing else."),
 "C21": ("TLA+ specification of outline, folding ranges, semantic tokens and links as functions of the program, and of structural soundness (Outline.tla); replies of the real server about generated documents validated by TLC",
         "All replies, about valid documents and broken ones, must be sound (nesting, order, inside the text); about valid ones equal to what the specification derives from the tree of the real parser, which C06-C08 validate."),
 "C25": ("TLA+ model of a formatting command and the server over three bounded pipes (Format.tla: deadlock freedom and faithful answers for every command of a few steps, checked by TLC) and of descriptor inheritance when processes are started concurrently (Inherit.tla); every command TLC explores is run by the real server with texts larger than a pipe, and the answer compared with the model's",
         "Bounded: commands of up to three (thorough: four) steps, texts of up to two (three) pipe sizes, four concurrent commands under random delays at locks and descriptor marking. Commands that go on working after closing their output are only required not to block the server."),
 "C26": ("TLA+ model of answers, their presentation and asking several workers (Answers.tla, TLC); every answer of the model replayed through a scripted worker into nixd, its replies compared with the model's",
         "every combination of absent/empty/given fields of packages and options, positions of eight kinds, two option workers; texts with markup, control and non-ASCII characters; does not fix labels or markup around the shown texts"),
 "C27": ("TLA+ model of configurations becoming concurrent jobs that tell workers what to evaluate (Settings.tla, TLC); histories generated by TLC played to nixd with delays at its locks, what client and workers saw checked against SettingsTrace.tla",
         "3 configurations, 2 workers, one death in the model; about 360 histories of up to 16 operations, 4 option sets, 5 ways of giving the command, 15 kinds of invalid replies; expressions removed from the configuration stay with their worker (not claimed)"),
 "C28": ("TLA+ model of nested selections and what surrounds each piece of text (Links.tla, TLC); its texts and cursors replayed into nixd, actions offered and pages opened compared with the model's",
         "all selections of two names nested to depth 2, all names of 16 spellings with 7 bases, random nesting to depth 3; cursors inside of pieces"),
 "C29": ("TLA+ specification of the report (Tidy.tla: pieces of which is known what is wrong with them at which tokens, separators, options; TLC: places agree with the text, the order of options is immaterial); the texts it generates are given to the real nixf-tidy and to the real server, and both reports compared with it; soups and damaged programs, also ones that are not UTF-8, to both",
         "30 kinds of pieces stand for the 40 kinds of reports; the rest is compared between linter and server only."),
 "C30": ("TLA+ spec of options (order, last one counts, refusal, features) with TLC; every case given to the real server on its command line and in NIXD_FLAGS",
         "lists of up to two options exhaustive in the model (a sample of them replayed in quick), up to seven random"),
 "C31": ("TLA+ spec of answers made of parts that are read at different times (TLC); histories generated from it played on the real server with random delays at its locks; recorded traces validated by TLC against the window of texts",
         "schedules are sampled: random delays at lock operations, not all interleavings"),
}
NA = {
 "C24": "the evaluation worker needs the Nix evaluator libraries (nix/ headers and libnixexpr), which are not installed; none of that code can be compiled here, so a specification could not be bound to it",
}
claimed = sorted(k for k in T if os.path.exists("%s/lib/%s.py" % (V, k.lower())))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 -m py_compile lib/common.py && command -v java ninja g++ >/dev/null",
     "checks": [{"property": p, "quick_cmd": "python3 lib/%s.py" % p.lower(), "thorough_cmd": "VERIF_TIER=thorough python3 lib/%s.py" % p.lower(),
                 "technique": T[p][0], "level": "model_checking", "level_note": T[p][1] + " " + NOTE} for p in claimed],
     "not_applicable": [{"property": p, "reason": NA.get(p, "no check yet")} for p in props if p not in claimed],
     "notes": "Specifications: spec/*.tla (TLA+, TLC). lib/cNN.py drives property CNN; harness/ holds the C++ that exposes the real code."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
