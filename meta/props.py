"""Property table: the single source of properties.jsonl and MANIFEST.json."""

PARSE = ["libnixf/src/Parse/Lexer.cpp", "libnixf/src/Parse/Lexer.h"]
PARSER = ["libnixf/src/Parse/Parser.h", "libnixf/src/Parse/ParseExpr.cpp",
          "libnixf/src/Parse/ParseSimple.cpp", "libnixf/src/Parse/ParseStrings.cpp", "libnixf/src/Parse/ParseOp.cpp",
          "libnixf/src/Parse/ParseAttrs.cpp", "libnixf/src/Parse/ParseLambda.cpp", "libnixf/src/Parse/ParseSupport.cpp"]

PROPS = [
dict(id="P01", title="Tokenising never reads outside the source text",
     statement="Whatever bytes the source text consists of and wherever it ends, tokenising it in any of the lexical "
               "modes (expression, string, indented string, path) never reads a character at or beyond the end of the "
               "text, never takes a sub-range starting after the end, and never moves the reading position past the end.",
     over=["inputs"], quant="all byte strings, all lexical modes, all positions at which tokenising can resume",
     why="The lexer tests feed some dozens of complete snippets; an over-read needs a text that stops in the middle of a "
         "particular construct, and is invisible unless the byte past the end happens to matter.",
     files=PARSE, mech=[("cursor and end-of-text test", "libnixf/src/Parse/Lexer.h"),
                        ("prefix / peek helpers that bound every look-ahead", "libnixf/src/Parse/Lexer.cpp")],
     observe=["sanitised run of the parser on the text", "diagnostics and tokens near the end of a truncated file"],
     technique="abstract interpretation (difference bounds on offset and length) over the clang CFG",
     note="Sound for the lexer's own arithmetic over all inputs under the container models stated in DESIGN.md; trusts clang's "
          "CFG, the extractor and the models of string_view."),
dict(id="P02", title="Parsing always terminates",
     statement="For every source text parsing terminates: each iteration of each scanning loop and each iteration of each "
               "parsing loop consumes at least one character or token or stops the loop, and no cycle of nested parsing steps "
               "exists along which nothing is consumed.",
     over=["inputs"], quant="all byte strings, all token sequences including malformed ones, all nesting",
     why="Non-termination needs a specific malformed combination at a specific place in the grammar (an unexpected token in an "
         "error-recovery path); tests sample a few malformed inputs.",
     files=PARSE + PARSER, mech=[("consume() on every loop path", "libnixf/src/Parse"),
                                 ("synchronisation sets of error recovery", "libnixf/src/Parse/ParseSupport.cpp")],
     observe=["nixf::parse returns", "the editor's diagnostics keep arriving"],
     technique="abstract interpretation of lexer and recursive-descent parser over a token-position domain, call-cycle check",
     note="Every loop and call cycle of the lexer/parser is an obligation, discharged for all token sequences; trusts the "
          "container models and the relex argument in DESIGN.md."),
dict(id="P03", title="No source text makes the parser abort or follow an absent node",
     statement="For every source text, however malformed, parsing never fails an internal assertion, never uses a token that "
               "was not read and never goes through a syntax node that could not be built.",
     over=["inputs"], quant="all token sequences in all parsing contexts",
     why="Each such site needs its own malformed input to be reached with the bad state; tests hit a handful of error paths.",
     files=PARSER, mech=[("nullability checks and guards in every parse function", "libnixf/src/Parse")],
     observe=["nixf::parse returns a tree and diagnostics instead of crashing the server"],
     technique="abstract interpretation with nullness/kind domain and context-sensitive function summaries",
     note="Every assertion and every dereference of an optional or pointer in the parser is an obligation proved for all token "
          "sequences; trusts the container models; std::from_chars result assertions are assumed."),
dict(id="P04", title="Switching lexical mode neither loses nor repeats source text",
     statement="When parsing moves between expression, string, indented string and path text, every token is read in the mode of "
               "the construct it belongs to: buffered look-ahead is discarded and re-read exactly from its first character, each "
               "construct restores the mode it found on every way out, and look-ahead never changes what is consumed next.",
     over=["inputs"], quant="all token sequences, all nestings of strings, paths and interpolations, all look-ahead depths",
     why="A stale look-ahead token only shows when a particular token happens to be buffered at the moment of a switch; tests "
         "cover a few nestings of well-formed strings.",
     files=PARSER + PARSE, mech=[("mode stack push/pop and look-ahead reset", "libnixf/src/Parse/Parser.h"),
                                 ("scope guards restoring state", "libnixf/src/Parse/Parser.h")],
     observe=["text and ranges of string/path parts in the syntax tree"],
     technique="typestate analysis over the clang CFG (mode stack, look-ahead buffer, scope guards)",
     note="Typestate obligations at every mode change, exit and look-ahead access of the parser, for all paths."),
dict(id="P05", title="Problem reports are complete and land where they were meant to",
     statement="For every source text, each problem report and each of its notes carries exactly the arguments its message has "
               "placeholders for, and the notes, quick fixes and tags made for a report are attached to that report: nothing is "
               "added to it after the collection of reports may have moved it.",
     over=["inputs"], quant="all paths through all code that creates reports while parsing and analysing any source text",
     why="A missing argument or a stale reference shows only when that exact report is produced together with another one at the "
         "wrong moment; tests look at a few reports, one at a time.",
     files=PARSER + ["libnixf/src/Sema/SemaActions.cpp", "libnixf/src/Sema/VariableLookup.cpp"],
     mech=[("report list, notes, fixes and argument streaming", "libnixf/include/nixf/Basic/Diagnostic.h"),
           ("message tables", "libnixf/src/Basic/Diagnostic.cpp.py")],
     observe=["text of diagnostics and notes", "notes and quick fixes attached to each diagnostic"],
     technique="typestate analysis of report handles with argument counting, call-graph effect analysis for list growth",
     note="Every creation of a report or note and every use of a handle is an obligation on all paths, helpers inlined; container "
          "growth is over-approximated through the call graph."),
dict(id="P06", title="Operators group as in the Nix grammar",
     statement="For every pair of operators, unary or binary, the syntax tree built for their combination groups them as the "
               "precedence and associativity table of the Nix language does, and combinations that table forbids (chained "
               "comparisons or equalities) are reported as errors.",
     over=["inputs"], quant="all pairs of operators in both nestings, hence all operator expressions",
     why="There are some 340 pairs of operators; the tests parse a handful of them, and a wrong pair silently changes every "
         "analysis built on the tree.",
     files=["libnixf/src/Parse/ParseOp.cpp"], mech=[("operator-precedence loop and binding powers", "libnixf/src/Parse/ParseOp.cpp")],
     observe=["shape of the syntax tree", "non-associativity diagnostic"],
     technique="abstract interpretation of the operator-precedence loop per operator and binding power, compared with the grammar table",
     note="All pairs decided; the oracle is the precedence table of the Nix grammar encoded in the rule."),
dict(id="P07", title="No syntax tree makes the analysis abort or follow an absent node",
     statement="For every source text the parser accepts or recovers from, the static analysis of its tree (desugaring of "
               "attribute sets, variable lookup, parent lookup, reporting) never follows a part of the tree that is absent, never "
               "treats a node as a kind it is not, and never fails an internal assertion about presence or kind.",
     over=["inputs"], quant="all syntax trees the parser can build, including those of malformed text",
     why="Each site needs its own incomplete or unusual tree (a missing body, a dynamic or quoted name, an absent pattern); tests "
         "analyse a few dozen mostly complete programs.",
     files=["libnixf/src/Sema/SemaActions.cpp", "libnixf/src/Sema/VariableLookup.cpp", "libnixf/src/Sema/ParentMap.cpp",
            "libnixf/src/Basic/Nodes.cpp", "libnixf/src/Basic/JSONDiagnostic.cpp"],
     mech=[("null checks and kind tests before use", "libnixf/src/Sema"),
           ("dispatch over node kinds", "libnixf/src/Sema/VariableLookup.cpp")],
     observe=["nixf-tidy --variable-lookup on the text", "diagnostics keep arriving in the editor"],
     technique="abstract interpretation (nullness and node kind) with class and container invariants derived from construction sites",
     note="Every dereference, presence/kind assertion, dispatch and downcast is an obligation over all trees the parser and desugaring "
          "can construct; trusts the container models in DESIGN.md; size/position assertions are not decided."),
dict(id="P08", title="No document makes a code action abort or follow an absent node",
     statement="For every document, complete or not, and every position in it, computing the available code actions never follows a "
               "part of the syntax tree that is absent, never treats a node as a kind it is not, and never fails an internal "
               "assertion about presence or kind.",
     over=["inputs"], quant="all syntax trees, all cursor positions, all code actions",
     why="A code action runs on whatever half-typed text the cursor is in; tests invoke each one on a few complete documents.",
     files=["nixd/lib/Controller/CodeActions"],
     mech=[("null checks and kind tests before use", "nixd/lib/Controller/CodeActions"),
           ("upward search for an enclosing node", "libnixf/include/nixf/Sema/ParentMap.h")],
     observe=["reply to textDocument/codeAction", "the server stays alive"],
     technique="abstract interpretation (nullness and node kind) with derived tree invariants, all code actions as entry points",
     note="Same method as P07 with the code actions as entry points for any node of any tree."),
dict(id="P09", title="Every part of a document can be reached from its root and found by position",
     statement="Every part of the syntax tree that is present is among the children of the node that owns it, so a walk from the root "
               "reaches every name, operator, keyword, interpolation and default value and knows the parent of each. For every "
               "position, the search by position enters a child whenever one contains the position, containment compares lines before "
               "columns with both ends included, and the upward search returns the nearest enclosing node of the wanted kind.",
     over=["inputs"], quant="all syntax trees, all node classes, all positions",
     why="A part that is missing from the children of one node class is invisible only to the features that look at that very part; "
         "the tests list the children of a few classes and search a few positions.",
     files=["libnixf/include/nixf/Basic/Nodes", "libnixf/src/Sema/ParentMap.cpp", "libnixf/include/nixf/Basic/Range.h"],
     mech=[("children of each node class", "libnixf/include/nixf/Basic/Nodes"),
           ("parent map", "libnixf/src/Sema/ParentMap.cpp"),
           ("search by position", "libnixf/include/nixf/Basic/Nodes/Basic.h"),
           ("position order and containment", "libnixf/include/nixf/Basic/Range.h")],
     observe=["node found for a cursor position", "parent of a node", "children of a node"],
     technique="abstract interpretation of every children() function against the owning fields of its class; case analysis of the comparisons over all orderings",
     note="Owning fields are found by type (smart pointers to nodes and lists of them); the desugared attribute view is not a part."),
dict(id="P10", title="Names are resolved by the scoping rules of the language",
     statement="Every expression of a document is visited in the scope the language gives it: bodies of let, lambda, rec and with see the "
               "new names, inherited names and the subject of a with see only the outer ones, and nothing is skipped. A name is resolved to "
               "the innermost definition that has it, else to every enclosing with, else it is reported; each definition of a scope is "
               "entered under its own name and node.",
     over=["inputs"], quant="all documents, all nestings of scopes",
     why="A scope that is wrong for one kind of binding shows only in documents that use that binding with a name from that scope; the "
         "tests hold a handful of such documents.",
     files=["libnixf/src/Sema/VariableLookup.cpp", "libnixf/include/nixf/Sema/VariableLookup.h"],
     mech=[("walk that creates the scopes", "libnixf/src/Sema/VariableLookup.cpp"),
           ("search through enclosing scopes", "libnixf/src/Sema/VariableLookup.cpp")],
     observe=["go to definition, references, rename", "undefined variable diagnostics"],
     technique="abstract interpretation of the analysis once per node kind with an event per visited part and its scope; loop summaries proving every element is handled",
     note="The desugared attribute view is the input here (P06 and P04 cover how it is made); the table of builtins is not checked."),
dict(id="P11", title="A name, with or rec is reported as unused exactly when nothing refers to it",
     statement="A diagnostic for an unused let binding, lambda formal or lambda argument, for an extra with and for an extra rec is given "
               "only if the definition has no uses, with the kind that fits the definition's origin. It is always given in that case, and "
               "only after every part of the scope that could use the definition was visited.",
     over=["inputs"], quant="all documents, all scopes, all definitions in a scope",
     why="A report that comes too early, stops after the first definition or asks the wrong definition depends on which names are used "
         "where; samples rarely combine several definitions in one scope.",
     files=["libnixf/src/Sema/VariableLookup.cpp"],
     mech=[("reports of unused definitions", "libnixf/src/Sema/VariableLookup.cpp"),
           ("whether a scope is used at all", "libnixf/src/Sema/VariableLookup.cpp")],
     observe=["unused definition, extra with and extra rec diagnostics"],
     technique="path-sensitive abstract interpretation per node kind: known emptiness of the uses at each report and at each exit without one; loop summaries",
     note="Arguments of plain lambdas are exempt by design. Incomplete lambdas (no body) have no scope and no reports."),
dict(id="P12", title="Every request is answered exactly once, with its own id",
     statement="A message with a method and an id is handled as a request, one without an id as a notification, one without a method as a "
               "reply. Every request leads to exactly one reply on every path through the server and its handlers, also when the method is "
               "unknown or the parameters cannot be decoded. The reply carries the id of the request and either the result or the message "
               "and code of the error.",
     over=["inputs", "schedules"], quant="all messages, all handlers, all paths through each",
     why="A path that forgets to reply or replies twice is only taken for unusual parameters or errors; tests send well-formed requests.",
     files=["nixd/lspserver/src/LSPServer.cpp", "nixd/lspserver/src/Connection.cpp", "nixd/lspserver/include/lspserver/LSPBinder.h",
            "nixd/lspserver/include/lspserver/LSPServer.h", "nixd/lib/Controller", "nixd/lib/Eval"],
     mech=[("dispatch by members", "nixd/lspserver/src/Connection.cpp"), ("request dispatcher", "nixd/lspserver/src/LSPServer.cpp"),
           ("decoding adapters", "nixd/lspserver/include/lspserver/LSPBinder.h"), ("handlers", "nixd/lib/Controller")],
     observe=["replies on the wire"],
     technique="linear typestate over abstract interpretation: every owner of a reply callback or request id uses it up exactly once on every path",
     note="Exceptions that leave a handler and closures dropped by the thread pool are outside; whether a reply comes in time is N03."),
dict(id="P13", title="An answer of the client reaches the call that waits for it, once",
     statement="Every call the server sends to the client carries an id no earlier call has used, and its callback waits under exactly "
               "that id from before it is sent. An answer is handed, unchanged and once, to the callback waiting under the id of the answer, "
               "which then waits no longer; answers with any other id change nothing. A callback that is given up because too many wait "
               "is told so.",
     over=["inputs", "schedules", "histories"], quant="all sequences of calls and answers, all ids a client can send",
     why="Mix-ups need answers out of order, duplicated answers, foreign ids or more than a hundred open calls.",
     files=["nixd/lspserver/src/LSPServer.cpp", "nixd/lspserver/include/lspserver/LSPServer.h"],
     mech=[("table of waiting calls", "nixd/lspserver/src/LSPServer.cpp"), ("sending a call", "nixd/lspserver/include/lspserver/LSPServer.h")],
     observe=["calls of the callback", "ids on the wire"],
     technique="typestate of table entries over abstract interpretation (stored, taken, erased, called) with freshness and range of the id",
     note="The counter is taken not to wrap around within one session."),
dict(id="P14", title="Messages are framed and read exactly",
     statement="Every message the server sends is one header with the exact number of bytes, a blank line and the message itself, and it "
               "is flushed at once. A message of the client is read completely, however its bytes arrive, all its headers are read before "
               "it, and no byte of another message is touched; bytes that did not arrive are never used. Reading goes on after every "
               "message until the input ends or handling says to stop.",
     over=["inputs", "schedules", "fault_sequences"], quant="all messages, header orders, splittings of the input into reads, signals and ends of input",
     why="The tests feed well-formed files whose bytes all arrive at once.",
     files=["nixd/lspserver/src/Connection.cpp", "nixd/lspserver/include/lspserver/Connection.h"],
     mech=[("sending", "nixd/lspserver/src/Connection.cpp"), ("reading lines and messages", "nixd/lspserver/src/Connection.cpp")],
     observe=["bytes on the wire", "messages handed to the handlers"],
     technique="abstract interpretation with symbolic text for the stream, and of reads with linear relations between offset, size and bytes read",
     note="Text printed by the JSON library is one opaque piece; poll and the client's process are not modelled."),
dict(id="P15", title="Shared state is touched only under its lock, and locks never deadlock",
     statement="State that several threads use (open documents, parsed files, options, configuration, suppressed diagnostics, waiting "
               "calls, the outgoing stream and the log) is read and written only while the lock that guards it is held, also through "
               "references and iterators, so threads never see it half changed. Locks are released on every path, never taken twice by one "
               "thread and never taken in opposite orders. No callback that receives a result runs while a lock is held.",
     over=["schedules"], quant="all interleavings of the reading thread, the pool and the workers",
     why="A missing lock only shows under a rare interleaving; the tests run one request at a time.",
     files=["nixd/lspserver", "nixd/lib/Controller", "nixd/include/nixd/Controller/Controller.h"],
     mech=[("document store", "nixd/lspserver/src/DraftStore.cpp"), ("outgoing port", "nixd/lspserver/src/Connection.cpp"),
           ("waiting calls", "nixd/lspserver/src/LSPServer.cpp"), ("controller state", "nixd/include/nixd/Controller/Controller.h")],
     observe=["document contents seen by requests", "frames on the wire", "server stays responsive"],
     technique="interprocedural context-sensitive must-lockset analysis with alias tracking, and a lock-order graph",
     note="Which lock guards which member is the guard table of the rule (from the GUARDED_BY comments and the locking code); state without "
          "any lock, such as the client capabilities set at start-up, is outside."),
dict(id="P16", title="The server's copy of a document follows the client's edits exactly",
     statement="A position counts code units as the client does: it becomes the byte offset whose prefix of the line has exactly that many "
               "UTF-16 units and back, and one inside a character or outside the text is refused. A change replaces exactly the bytes of "
               "its range, or the whole text, and changes nothing when it is refused. What is stored, read back, analysed and published "
               "for a file is the text and version of its last message.",
     over=["inputs", "histories"], quant="all texts, positions, edits and sequences of edits",
     why="A miscounted unit only shows for rare characters or positions and then corrupts every later edit; tests apply a few ASCII edits.",
     files=["nixd/lspserver/src/SourceCode.cpp", "nixd/lspserver/src/DraftStore.cpp", "nixd/lib/Controller/TextDocumentSync.cpp",
            "nixd/lib/Controller/Support.cpp"],
     mech=[("counting code units and positions", "nixd/lspserver/src/SourceCode.cpp"), ("document store", "nixd/lspserver/src/DraftStore.cpp"),
           ("open, change and close messages", "nixd/lib/Controller")],
     observe=["text of the document after the edits", "positions of diagnostics and replies", "refused changes"],
     technique="path-sensitive abstract interpretation with string terms; loops over bytes decided per byte class by induction on what each step adds",
     note="Library strings and maps are trusted; the newline inferred at the end of a file is part of the specification."),
dict(id="P17", title="Messages are read and written field for field, as the protocol says",
     statement="Each member of a message of the language server or of the worker protocol is read into, and written from, exactly its own field "
               "under its own name, with the numbers and words the protocol gives its enumerations. A message that is no object, lacks a "
               "required member or has one of the wrong kind is refused without crashing; optional members may be missing and change "
               "nothing then. A member is left out of what is written only when its field is unset.",
     over=["inputs"], quant="all messages, all values of all message types",
     why="There are some eighty message types with several hundred members; tests exchange a handful of well-formed ones.",
     files=["nixd/lspserver/src/Protocol.cpp", "nixd/lspserver/include/lspserver/Protocol.h", "nixd/lib/Protocol/AttrSet.cpp",
            "nixd/lib/Protocol/Protocol.cpp"],
     mech=[("conversion of messages from and to JSON", "nixd/lspserver/src/Protocol.cpp"), ("messages of the worker", "nixd/lib/Protocol")],
     observe=["refused messages", "fields after reading", "JSON that is written"],
     technique="abstract interpretation of every converter on all its paths, provenance of each field and member compared with a table of the protocol",
     note="llvm::json and its mapping of vectors, maps and optionals are trusted; message types that are not in the table are not judged."),
dict(id="P18", title="Code actions write well-formed Nix text",
     statement="Whatever names, strings, JSON values and sources a document contains, the text every code action writes is complete Nix: "
               "quotes, brackets, bindings and `let` are closed in order and words stay apart. A name that is no identifier is written quoted, "
               "and the content of a string is written so that it reads back as the same characters (the indentation of multi-line strings "
               "aside). An expression that is selected from, passed as an argument or made a list element by that text is put in parentheses "
               "unless it needs none.",
     over=["inputs"], quant="all documents, names, strings and JSON values a code action rewrites",
     why="A name such as `a-b.c` or a string ending in `$` is enough to write a broken file; the tests use plain names.",
     files=["nixd/lib/Controller/CodeActions"],
     mech=[("texts of the edits", "nixd/lib/Controller/CodeActions"), ("escaping and quoting", "nixd/lib/Controller/CodeActions/Utils.cpp")],
     observe=["newText of the edits of code actions"],
     technique="abstract interpretation of the text builders with texts as grammar symbols read by a pushdown; escape tables compared with the string syntax",
     note="The source of a node is assumed to be what the parser read."),
dict(id="N01", title="Formatting a file keeps its meaning",
     statement="Applying the text edits produced by the formatting request to a document yields a program with the same meaning.",
     over=["inputs"], quant="all documents, all configured formatters",
     why="The formatter is an external program.",
     files=["nixd/lib/Controller/Format.cpp"], mech=[("external formatter process", "nixd/lib/Controller/Format.cpp")],
     observe=["text of the document before and after"],
     na="The edit is whatever an external program printed; nothing in this source decides it."),
dict(id="N02", title="Numeric and string literals have the value Nix gives them",
     statement="The value of each integer, float and string literal in the syntax tree is the value the Nix evaluator would give it.",
     over=["inputs"], quant="all literals",
     why="Tests sample a few literals.",
     files=["libnixf/src/Parse/ParseSimple.cpp", "libnixf/src/Parse/ParseStrings.cpp"],
     mech=[("from_chars / strtof / escape tables", "libnixf/src/Parse")], observe=["literal values in the syntax tree"],
     na="A functional equality on runtime character data; deciding it needs execution or a solver, not a dataflow fact."),
dict(id="N03", title="Every request is answered within bounded time",
     statement="The server answers every request in bounded time even if the evaluation worker is slow, stuck or dead.",
     over=["schedules", "fault_sequences"], quant="all worker behaviours",
     why="Needs a stuck worker.",
     files=["nixd/lib/Controller", "nixd/lib/Eval"], mech=[("semaphores awaiting the worker's reply", "nixd/lib/Controller")],
     observe=["arrival of the reply"],
     na="Waits on another process without a timeout by design; whether the reply comes is a liveness question about a process "
        "outside the analysed source."),
dict(id="N04", title="Deep nesting never exhausts the stack",
     statement="No source text, however deeply nested, overflows the stack of the server.",
     over=["inputs"], quant="all nesting depths",
     why="Needs very deep nesting.",
     files=PARSER, mech=[("recursive descent", "libnixf/src/Parse")], observe=["the server stays alive"],
     na="The parser recurses once per nesting level without a depth limit, so the property does not hold by design and no static "
        "bound on the depth exists; P02 shows only that each level consumes input."),
]
