import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=[],observe=[],hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
p("C01","One symbol name, one symbol code, process-wide",
 "For any number of threads registering and looking up symbols in any interleaving, every name (ignoring surrounding whitespace) has exactly one symbol code for the life of the process, and different names never share a code. Empty or blank names are always refused.",
 ["schedules","histories"],"every interleaving of symbol registrations and look-ups by any number of threads, on any set of names",
 "The registry tests are single-threaded (the suite itself is run with one thread) and use a handful of names; nothing explores two threads racing for the same new name.",
 ["src/symbols.rs"],[("code register lock held over check-and-insert","src/symbols.rs get_code"),("atomic counter for new codes","src/symbols.rs SYMBOL_ID")],
 [("CODE_REGISTER","name to code","src/symbols.rs"),("SYMBOL_ID","next code","src/symbols.rs")],["symbols::get_code","Symbol::build / parse / TryFrom","Symbol::code, ==, Hash"])
p("C02","A symbol in hand always has its name",
 "Once any thread has obtained a symbol for a name, every thread that then asks for that symbol's name, prints it, or converts its code back into a symbol gets exactly that (trimmed) name, and a code that was never handed out has no name. A string of symbols, each named by one word or one run of operator characters that the string syntax takes as a symbol, printed in one thread and parsed again in another gives the same string of symbols.",
 ["schedules","histories"],"every interleaving of registrations, name look-ups, printing and re-parsing by any number of threads sharing symbols and strings",
 "Known to fail about 2 runs in 500 with parallel tests, so the suite is run with one thread; the window between handing out a code and recording its name is never scheduled deliberately.",
 ["src/symbols.rs","src/strings.rs","src/parser/iterator.rs","src/parser/statement.rs"],[("name register written before the code becomes visible","src/symbols.rs get_code"),("Display and tokeniser agree on whitespace-separated names","src/strings.rs, src/parser/iterator.rs")],
 [("NAME_REGISTER","code to name","src/symbols.rs")],["symbols::get_name","Symbol::name, Display","ProductionString Display / FromStr"])
p("C03","Concurrent registration of rules and symbols in a system loses nothing",
 "Concurrent additions of productions and symbols to one shared system behave as if made one at a time in an order consistent with real time: each accepted production is stored exactly once, its body appended, in that order, to those already stored for the same head, each call returns the stored production as of its own addition, and counts and look-ups agree with that order. A production never takes effect before all of its symbols are registered, and looking a symbol up never adds it.",
 ["schedules","histories"],"every interleaving of add-production, add-symbol, look-up, count and derive calls by several threads on one system",
 "One test adds two symbols from two threads and compares codes; nothing concurrently adds productions, merges heads, or compares results against a sequential order.",
 ["src/system.rs","src/productions.rs","src/symbols/iterator.rs"],[("production lock held across find-or-push and symbol registration","src/system.rs add_production"),("merge by head equality","src/productions.rs Production::merge")],
 [("symbols","set of symbol codes of the system","src/system.rs System"),("productions","ordered rule list","src/system.rs System")],["System::add_production, add_symbol, get_symbol, production_len, symbol_len, derive"])
p("C04","A derivation sees one consistent rule set and rewrites exactly by it",
 "A derivation that runs while other threads change the system's rules gives exactly the string obtained by rewriting the axiom, in all of its iterations, with the one rule set the system had at a single moment during the call. Each iteration rewrites all symbols in parallel by the first-added rule whose left context, symbol and right context match the string as it was before the iteration, and copies symbols no rule matches; exactly the requested number of iterations is done.",
 ["schedules","histories","inputs"],"every interleaving of derivations with rule additions, for every axiom, rule set (context-free, context-sensitive, empty bodies) and iteration count",
 "Derivation tests are single-threaded with one or two fixed rules; none runs a derivation while a rule is being added.",
 ["src/system.rs","src/productions.rs"],[("read lock held for the whole derivation","src/system.rs System::derive"),("context matched against the previous string","src/system.rs derive_once, src/productions.rs ProductionHead::matches")],
 [("productions","ordered rule list","src/system.rs System")],["System::derive, System::derive_once, system::derive, system::derive_once"])
p("C05","Random rule choice follows the declared chances",
 "When a production has several bodies, every rewriting of every occurrence picks one body independently with its declared chance, bodies without a chance sharing what is left equally (and the last body taking what is left when all have one), whichever thread draws and whatever values the random source returns. A body whose share is zero is never picked, and a derivation is refused only when the production it applies declares chances totalling more than one, and then always.",
 ["fault_sequences","schedules","inputs"],"every sequence of values from the random source (extremes included), every interleaving of drawing threads, every list of chances",
 "The generator is the unseeded thread generator, so no test asserts on a stochastic rule at all; extreme draws occur about once in eight million.",
 ["src/productions.rs","src/parser.rs","src/system.rs"],[("cumulative selection in Production::body","src/productions.rs"),("chance validation","src/productions.rs ProductionBody::try_with_chance")],
 [("body list with chances","bodies of one head in order of addition","src/productions.rs Production")],["Production::body","System::derive, derive_once"])
p("C06","A family name is registered at most once, and stays",
 "Under concurrent registrations, get-or-initialise calls and look-ups, in any interleaving, at most one family is ever registered under a name: exactly one caller wins, every other plain registration gets an error, and every later look-up or get-or-initialise of that name returns that same shared family unchanged. An initialiser runs only when the name is not registered and its result is registered, so it completes at most once per name, and a panicking initialiser registers nothing and never makes another call return a wrong family (calls after it may fail with a lock error, as documented). A system made from a family has exactly that family's symbols. Names are told apart exactly as written.",
 ["schedules","histories","fault_sequences"],"every interleaving of family operations by several threads on shared names, with initialisers that panic at any of them",
 "Family tests are single-threaded, with one registration per name.",
 ["src/system/family.rs","src/system.rs","src/interpretation/abop.rs"],[("double-checked registration under the write lock","src/system/family.rs get_or_init_family"),("duplicate check under the write lock","src/system/family.rs register, Builder::register")],
 [("REGISTRY","family name to shared family","src/system/family.rs reference()")],["family::register, Builder::register, get_or_init_family, get_family, family_exists","System::of_family"])
p("C07","Failing caller code cannot wedge or corrupt a shared system",
 "If conversion code that a caller passes in when adding a production or a symbol panics, returns an error, or itself calls back into the same system or store, in any interleaving, a failed call has no effect of its own on that system. Every other call, by any thread, before, during or after, completes and answers as if the failed call had never been made.",
 ["fault_sequences","schedules","histories"],"every placement of panicking, failing and re-entrant caller conversions in every interleaving of calls on a shared system or store",
 "No test passes a failing or re-entrant conversion, and none uses a system after another thread panicked inside a call on it.",
 ["src/system.rs","src/symbols.rs","src/productions.rs"],[("conversion happens before any lock or borrow is taken","src/system.rs add_production, add_symbol; src/productions.rs and src/symbols.rs RefCell stores")],
 [("lock poison flags","a panic while a guard is held","src/system.rs System")],["System::add_production, add_symbol and every other call on the same system","RefCell stores' add_production, add_symbol"])
p("C08","Shared use never deadlocks or spins forever",
 "Any finite mix of library calls made by any number of threads on shared systems, symbols, families and interpretations completes within a bounded number of scheduling steps in every interleaving, spurious wake-ups included. No call waits forever for a lock and no call loops forever (a family initialiser that itself uses the family registry is outside this).",
 ["schedules","fault_sequences"],"every interleaving (and every lock wake-up order) of any finite mix of calls across all public shared-state APIs",
 "The suite runs with one thread and never holds one lock while another thread wants a second.",
 ["src/system.rs","src/symbols.rs","src/system/family.rs"],[("fixed lock order: rule list, then symbol set, then the global registers","src/system.rs add_production, src/symbols.rs get_code")],
 [("all locks","rule list, symbol set, code register, name register, family registry","src/system.rs, src/symbols.rs, src/system/family.rs")],["return of every call"])
p("C09","Reading a plant file is exact or fails",
 "Whatever the operating system does while a plant file is read (interrupted calls, short reads, misleading file sizes, errors at any call, another process changing the file), the result is either exactly the iteration count, angle, rules and starting string that the delivered bytes describe, or an error. An I/O failure or invalid text is always returned as an error (an I/O failure with its cause), and interrupted or short reads alone never change the result.",
 ["fault_sequences","inputs"],"every fault sequence over the open/stat/read calls and every plant text",
 "The parser is tested on one in-memory string; parse_file has no test and no test injects an I/O fault.",
 ["src/interpretation/abop/parser.rs","src/error.rs","src/parser.rs"],[("whole file read before anything is parsed; I/O errors converted","src/interpretation/abop/parser.rs parse_file, src/error.rs From<io::Error>"),("line classifier","src/interpretation/abop/parser.rs parse")],
 [],["abop::parser::parse_file, abop::parser::parse"])
p("C10","Saving an SVG is complete or reported",
 "If saving a drawing to a file reports success, the file then contains exactly the drawing's SVG text and nothing else, whatever it contained before and however the writes were interrupted or split; interrupted or split writes alone never make it fail. If any part of the text cannot be written the save reports an error, and no other file is created or changed.",
 ["fault_sequences","inputs"],"every fault sequence over the open and write calls, every drawing, every previous file content",
 "Saving has no test at all; a real disk in a test run neither interrupts, shortens nor refuses writes.",
 ["src/interpretation/svg.rs"],[("truncate on create, loop until all bytes are written","src/interpretation/svg.rs Svg::save_file")],
 [],["Svg::save_file result and the file's content"])
p("C11","lsystem exits successfully only with the complete, correct SVG on disk",
 "The command `lsystem interpret` exits successfully exactly when the complete SVG picture that the plant file defines (turtle drawing of the derived string, scaled uniformly to fit and centred on the requested canvas) has been written to the output path, whose extension is made .svg; otherwise it exits unsuccessfully with an error message. A run that fails before saving leaves an existing output file untouched, and no run, failed or killed at any point, changes the plant file (unless it is itself named as the output) or any other file (a run whose standard output or error stream fails may end unsuccessfully after saving, and silently).",
 ["fault_sequences","crash_points","inputs"],"every fault sequence and crash point over the process's file operations, every plant file and option combination",
 "The binary has no tests.",
 ["src/bin/lsystem/derive.rs","src/bin/lsystem/main.rs","src/bin/lsystem/cli.rs","src/interpretation/svg.rs","src/interpretation/abop.rs","src/interpretation/abop/parser.rs"],[("sequence parse, derive, interpret, save with an exit code per failure","src/bin/lsystem/derive.rs handle_derive")],
 [],["exit status, stderr, file system after the process ends"])
p("C12","Rendering is reproducible and unaffected by other activity",
 "Parsing, deriving and rendering the same non-random plant gives the same SVG text byte for byte in every thread and process: it does not depend on hash seeds, on the order in which symbols were first seen, or on what other threads register, derive or render meanwhile. The picture is the one the plant defines: the turtle's polylines, scaled uniformly to fit and centred on the canvas, with finite numbers.",
 ["schedules","configurations","inputs"],"every interleaving with other threads' registrations and renderings, every hash seed, every assignment of symbol codes, every plant",
 "Hash seeds and code assignment differ between processes but no test compares two renderings, and none renders in two threads.",
 ["src/interpretation/abop.rs","src/interpretation/svg.rs","src/interpretation/abop/parser.rs","src/geometry.rs","src/system/family.rs"],[("symbols compared by code looked up per system, drawing held in ordered vectors","src/interpretation/abop.rs interpret"),("bounds, scale and centring","src/geometry.rs Bounds, src/interpretation/svg.rs")],
 [],["abop::parser::parse, System::derive, Interpretation::interpret, Svg::to_svg"])
p("C13","Store failures surface and leave no half-registered rule",
 "When a production text is parsed into caller-supplied symbol and production stores, every symbol of the production is given to the symbol store before the production is given to the production store, a failure of either store is returned to the caller unchanged, and after a symbol-store failure the production is not stored. On success the production is stored exactly once and is the one returned; a text that does not parse touches neither store.",
 ["fault_sequences","schedules","inputs"],"every placement of failures in the calls to the caller's stores, alone or shared between threads, for every production text",
 "One doc-test calls this with stores that never fail.",
 ["src/parser.rs","src/symbols.rs","src/productions.rs"],[("symbols first, then the production, with ? on each","src/parser.rs parse_and_add_production")],
 [],["calls seen by the stores; returned Result"])
p("C14","Damaged plant data never crashes the pipeline",
 "For any bytes a damaged disk may return for a plant file (flipped, lost, torn, repeated, zeroed or swapped pieces), reading, deriving, interpreting and rendering give either a result or an error. They never panic, abort or loop forever, and a drawing that is produced contains only finite numbers (bytes that describe more iterations or longer strings than the machine has time and memory for are outside this).",
 ["fault_sequences","inputs"],"every corruption of every plant file, with iteration counts small enough for the derived strings to fit in memory",
 "The suite parses one well-formed plant; no test feeds malformed input to interpretation.",
 ["src/interpretation/abop/parser.rs","src/parser.rs","src/parser/iterator.rs","src/productions.rs","src/interpretation/abop.rs","src/interpretation/svg.rs"],[("errors returned with ? instead of unwrap","src/interpretation/abop/parser.rs, src/parser.rs"),("turtle branch stack and symbol look-up","src/interpretation/abop.rs interpret")],
 [],["abop::parser::parse_file, System::derive, Interpretation::interpret, Svg::to_svg"])
p("C15","Independent systems do not influence each other",
 "Operations on one system or store never change the symbols, rules, counts, look-ups or derivations of another, whatever threads use them in whatever interleaving, even when they use the same names throughout. The same name denotes equal symbols in all of them.",
 ["schedules","histories","configurations"],"every interleaving of threads that each use their own systems and stores over shared names",
 "No test uses two systems at once.",
 ["src/system.rs","src/symbols.rs","src/productions.rs"],[("per-instance symbol set and rule list; only names are global","src/system.rs System, src/symbols.rs")],
 [("System fields","per-instance state","src/system.rs")],["every System, RefCell-store and derivation result"])
p("C16","Production text is accepted and rejected by its grammar",
 "A production text parses exactly when it has an arrow, exactly one target symbol with optional contexts around it, and a body whose optional leading number is a chance above zero and at most one; what is parsed is what was written.",
 ["inputs"],"every text","A dozen fixed texts.",
 ["src/parser.rs"],[("parse_production, parse_production_head, parse_production_body","src/parser.rs")],[],["parser::parse_production"])
p("C17","Geometry is sound",
 "Rotating a vector keeps its length, the bounds of a path contain every point of it tightly, and translation moves bounds by the same vector.",
 ["inputs"],"every vector, angle and path","Two fixed examples.",
 ["src/geometry.rs"],[("rotate, bounds","src/geometry.rs")],[],["geometry::Vector::rotate, Bounds::bounds"])
p("C18","Context matching is total",
 "Asking whether a production matches a string at an index answers true exactly when target and both contexts match there, and false, never a crash, for any index outside the string.",
 ["inputs"],"every production, string and index","A few in-range indices.",
 ["src/productions.rs"],[("ProductionHead::matches, pre_matches, post_matches","src/productions.rs")],[],["Production::matches"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
