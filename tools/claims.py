SETUP = "python3 run.py setup"
NOT_APPLICABLE = {}
TRUST = (" Trusted: TLC, the specification's reading of the documentation, and the harness that records the calls;"
         " the scenarios replayed on the real code are a (large, seeded) sample, the design models are exhaustive within their bounds.")
T = "TLA+ trace validation with TLC"
CLAIMS = {
 "R01": dict(technique=T + " of replayed reader histories against CharStream, plus an exhaustively checked refinement model of the buffered reader",
   note="Every recorded history of the real Reader over scripted reads (all splits of short texts, all byte values, runs across the 1024-byte buffer, random) is a behaviour of the abstract character stream; the buffer algorithm is checked exhaustively for all scripts of up to 3 (thorough 4) items." + TRUST),
 "R02": dict(technique=T + " of replayed byte reader histories against CharStream, plus the refinement model",
   note="As R01 for ByteReader, including temporary ends of input." + TRUST),
 "R03": dict(technique=T + " of model-generated and random histories of read, peek, unread and location changes",
   note="Histories generated by TLC from the refinement model and random ones, on both readers and on a user-written stream that uses the trait's default methods; location and span are compared after every operation." + TRUST),
 "R04": dict(technique=T + " of skip/collect histories against CharStream",
   note="All short texts and random ones, on both readers and the default methods." + TRUST),
 "R05": dict(technique=T + " of histories with injected read failures and undecodable bytes",
   note="A failure is injected at every point of every split of short texts and at random in longer ones; the recorded histories must be behaviours of the specification in which a failed read changes nothing but the error count." + TRUST),
 "L01": dict(technique="TLA+ product exploration with TLC of the real exported tables and the partial derivatives of their expressions; trace validation of is_match",
   note="For every explored set of expressions the exported table is compared with the residuals in all reachable product states over one representative of every symbol interval, which is agreement on all strings; is_match and is_str_match are validated on recorded calls; the NFA construction is model checked for all small expressions. Explored sets: all expressions with up to two operators, pairs of them, random and hand-written ones. regex-syntax's parser is trusted to read the expressions." + TRUST),
 "L02": dict(technique=T + " of stepwise matching histories against residuals; product exploration of the tables (liveness of every state)",
   note="Recorded histories of is_accept, is_final, is_state_final, state and reset are compared step by step with the residuals of the expressions; the exported tables of a third of the sets are explored completely." + TRUST),
 "L03": dict(technique="TLA+ product exploration with TLC of tables built sequentially, in parallel, automatically and concurrently",
   note="Every exported table is read the documented way, checked for well-formedness and explored together with the residuals of its expressions in all reachable states, for all three parallelism settings (alphabets beyond the automatic threshold included) and for builds running concurrently on several threads. Thread schedules are those the machine produces." + TRUST),
 "L04": dict(technique="TLA+ product exploration with TLC of byte tables over all 256 byte values; trace validation of byte matching",
   note="As L01 with byte symbols, for build_bytes and for build with byte symbols; every byte value is used alone and as a range bound." + TRUST),
 "L05": dict(technique="TLA+ specification of the build outcomes, checked with TLC on recorded builds; product exploration of what was built",
   note="Outcome of building broken, unsupported, empty-language, random and ordinary sets compared with the set of outcomes the specification allows; panics and hangs are recorded as outcomes, and every successfully built matcher is compared with its expressions on all strings." + TRUST),
 "L06": dict(technique="TLA+ product exploration with TLC of MIR, NFA, DFA and table together with the residuals of their expressions",
   note="The MIR before and after optimization, the NFAs made of both, the DFA built in the three ways and the table are exported and explored together with the residuals of the expressions in all reachable product states over one representative of every interval of symbols; tags, liveness, disjointness of the optimized symbols, determinism and minimality are invariants. Expressions as for L01, and random MIRs put together by hand; MIRs with tags below tags, repetitions or behind which something follows, and DFAs of non-optimized MIRs, are not generated." + TRUST),
 "L07": dict(technique="TLA+ specification of automata as data structures; " + T + " of recorded histories on dense and normal automata",
   note="Random histories of adding, connecting, marking, merging and looking at states of several automata, their Graphviz text, the closures and moves of multi-automata, and identities of states made on several threads." + TRUST),
 "M01": dict(technique="TLA+ specification of the declarations the macros accept; " + T + " of the compiler's verdicts on generated declarations",
   note="Random valid declarations of all five macros with up to two faults (attributes, shapes, types, parsers, patterns, visibilities, counts), and arguments that make no sense, which must not panic; every verdict of the compiler is compared with Decls.Verdicts." + TRUST),
 "E01": dict(technique="TLA+ specification of the three layers together (EndToEnd: Lexer, TokenStream and Grammar over CharStream), checked exhaustively for a small lexer and grammar; " + T + " of histories on generated lexers and grammars",
   note="Generated token kinds with derived lexers over characters or bytes, generated token ASTs and syntax trees, rendered and damaged texts, histories with recovery on the input stream below the buffer; EndToEndModel checks the specification for all texts of <= 4 (deep 5) symbols and histories of 3 (deep 4) operations." + TRUST),
 "T01": dict(technique=T + " of model-generated, exhaustive short and random histories against TokenStream, plus an exhaustively checked refinement model of the token buffer",
   note="Histories of all stream operations on TokenBuffer, a buffer made from another stream and a user-written stream with only next and unread; the buffer algorithm (TokenBufferImpl) is checked to refine the stream for all scripts and histories within its bounds." + TRUST),
 "T02": dict(technique=T + " of histories with tokenizer errors injected at every place, plus the refinement model",
   note="An error (or two) at every place of short scripts in front of every pair of operations and of every parse/maybe of the predefined types, and at random; the number of calls of the tokenizer is compared, too." + TRUST),
 "T03": dict(technique=T + " of lookaheads (all chains of up to three checks, random longer ones, errors, drops)",
   note="The lookahead's verdict, what it yields and the stream afterwards are compared with TokenStream's Look." + TRUST),
 "P01": dict(technique="TLA+ specification of parsing, model checked against the types' languages; trace validation with TLC of generated parsers",
   note="Grammar.tla is checked against a shape-only definition of the languages for all small types and words; the real parsers of predefined types, all tuple sizes and random compositions are replayed on all short words, on words of the types, and on mutated words." + TRUST),
 "P02": dict(technique="TLA+ specification of prediction, model checked; trace validation with TLC of generated parsers' maybe",
   note="As P01 for maybe, with tokenizer errors, followed by reads and parses that show the stream was left alone." + TRUST),
 "P03": dict(technique="TLA+ specification of derived parsers; trace validation with TLC of generated structs and enums",
   note="Hand-picked and random derived types (nested, recursive, with starts_with, overlapping variants, empty ones)." + TRUST),
 "P04": dict(technique="TLA+ specification of token patterns; trace validation with TLC of generated token ASTs",
   note="Random token_ast declarations (literal, range, guard, alternative, binding and kind patterns, with and without prompt) over every kind and value of a small alphabet; messages are compared." + TRUST),
 "S01": dict(technique="TLA+ specification of spans; trace validation with TLC of parsed values",
   note="Spans of all predefined types, derived types and random compositions parsed from words of the types, against first and last leaf." + TRUST),
 "X01": dict(technique=T + " of generated derived lexers, texts leading to every automaton state; an exhaustively checked model of the lexer's loop",
   note="Random and hand-written token enums (char and u8, skip rules, ties, nullable rules, 254..256 states, all parallelism settings) are derived; the specification tokenizes with the residuals of the rules, explores their automata in TLC (LexCover) to produce a text for every state and symbol interval, and every recorded token must be the one the specification gives. LexerImpl checks the loop for all small lexers and words." + TRUST),
 "X02": dict(technique=T + " of derived lexers mixed with direct stream operations; the loop model's tiling invariant",
   note="Token spans, error locations and the position of the stream are compared after every call, with direct reads, peeks, unreads, collects and location changes in between, I/O errors and invalid bytes." + TRUST),
 "X03": dict(technique=T + " of derived lexers with every conversion, with and without an end-of-file variant",
   note="One lexer per field type and parser kind over values at and beyond the limits, plus random lexers; messages, locations and converted values are compared." + TRUST),
 "K01": dict(technique="TLA+ specification of kind names and conversions; trace validation with TLC of generated token_kind enums",
   note="Random enums (documentation of every shape, payload types, unit, tuple and named variants): conversions by value and by reference into and out of every payload type and the displayed text, compared with Names." + TRUST),
 "V01": dict(technique="TLA+ specification of integer literals (values, limits), model checked; trace validation with TLC of int_literal and signed_int_literal",
   note="For all twelve integer types the recorded results of both functions are compared with Literals: all short words over digits and prefixes, the neighbourhood of every limit in every notation, random and mutated texts. The operators themselves are checked against a second definition on all short words (LiteralsModel)." + TRUST),
 "V02": dict(technique="TLA+ specification of character and string literals, model checked; trace validation with TLC of char_literal and str_literal",
   note="All escapes (every \\xHH, every character behind a backslash, code points at the limits), all pairs of pieces, mixed and missing quotes, random literals." + TRUST),
 "K02": dict(technique="TLA+ specification of spans and tokens as values; " + T + " of recorded histories",
   note="Random histories of moving, extending, cloning and comparing spans and of making, changing, comparing, hashing and displaying tokens; every pair of short movements from the same and from different sources. Everything visible is compared after every step." + TRUST),
 "D01": dict(technique="TLA+ model of concurrently updated counters checked with TLC; trace validation with TLC of histories and of recorded schedules of several threads (a linearization is searched)",
   note="Counters.tla is checked for all interleavings (and shows the loss of updates if additions take two steps); single-threaded histories of clones sharing counters, concurrently recorded calls and queries, and stress runs with tens of thousands of calls on eight threads, with and without the feature logger. Thread schedules on the real code are those the machine produces." + TRUST),
 "D02": dict(technique="TLA+ specification of the rendered diagnostics (Render), model checked for its shape; trace validation with TLC of the bytes printed by the real code",
   note="The exact text printed for all spans of small files with tabs, wide and combining characters, random files, spans and severities, line numbers of several widths, unreadable files, columns and lines at the limits, and summaries. Colours are switched off. Character widths are those of the crate unicode-width, asked by the harness." + TRUST),
 "D03": dict(technique="TLA+ specification of logging without the feature logger; " + T + " of recorded histories of a crate built without it",
   note="Messages, locations and counters of every call of the logging methods and macros, the errors of readers (failed reads, undecodable text), and concurrent histories, built without the default features." + TRUST),
}
