#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
        mechanism=[dict(name=a, where=b) for a, b in mech],
        observe_at=list(observe), hook_needed=None)))

p("R01", "Character reader yields exactly the decoded text however reads are split",
  "For every byte source and every way it splits its data into reads, the character reader yields exactly the Unicode characters encoded by the longest valid UTF-8 prefix of the data, in order, each once; after that it reports end-of-input forever if the data ended there, and a fatal error forever if it did not. Where the read boundaries fall (inside a multi-byte character, at the size of the internal buffer, one byte at a time) is never observable.",
  ["inputs", "schedules"], "all byte strings, including ones longer than the internal buffer, and all splits of them into successful reads",
  "The unit test reads one 23-byte string in a single read; no test splits a character across reads, fills the 1024-byte buffer or ends inside a character.",
  ["src/reader.rs"], [("Reader::next_char_loc_from_reader", "src/reader.rs"), ("impl_reader!", "src/reader.rs")],
  [("char_buf", "decoded but not yet delivered characters (reversed)", "src/reader.rs"), ("byte_buf, byte_buf_offset", "bytes of an incomplete or invalid character kept for the next read", "src/reader.rs")],
  ["InputStream::next_char_loc", "InputStream::peek"])
p("R02", "Byte reader yields exactly the bytes of the source however reads are split",
  "For every byte source and every way it splits its data into reads, the byte reader yields exactly the bytes of the source, in order, each once and without interpretation, then end-of-input for as long as the source has no more data.",
  ["inputs", "schedules"], "all byte strings, all splits into reads, any buffer size",
  "One 23-byte string in a single read is tested.",
  ["src/reader.rs"], [("ByteReader::next_char_loc_from_reader", "src/reader.rs")],
  [("char_buf", "bytes read but not yet delivered (reversed)", "src/reader.rs")], ["InputStream::next_char_loc"])
p("R03", "Locations, spans, peek and unread agree with the consumed text in any history",
  "After any sequence of reads, peeks, unreads of what was last read, and explicit line/column changes, the current location equals the last explicitly set one (initially 1:0) advanced by the characters consumed since, where a line feed starts the next line at column 0 and any other character adds one column. Peeking changes neither the position nor the current span and returns what the next read returns together with the span that read would have; unreading a read restores the text and the location that were there before it; every span handed out keeps its value.",
  ["histories", "inputs"], "all histories of InputStream operations on both readers, over all inputs and read splits",
  "Three unit tests run one fixed history each; no test mixes peek_with_span, unread and set_line_col around buffer refills or line ends.",
  ["src/reader.rs", "src/input.rs", "src/span.rs"],
  [("impl_reader! (next_char_loc, unread, peek, peek_with_span, set_line_col)", "src/reader.rs"), ("Span::update / into_updated / update_loc", "src/span.rs"), ("LocationUpdate", "src/span.rs")],
  [("span", "current location", "src/reader.rs")], ["InputStream::span", "InputStream::next_char_span", "InputStream::peek_with_span"])
p("R04", "Skipping and collecting stop exactly in front of the first matching character",
  "For every input and every set of stop characters, skip_until, collect_until and collect_with_span_until consume exactly the characters before the first stop character (or all of them up to end-of-input), return exactly those characters in order, leave the stop character as the next one to be read, and the returned span runs from the first to the last collected character (and is the span of the next character when nothing is collected). Predicates may keep a state (say, to stop at the third match): each is asked about the characters in order, once each. This also holds when the input stream relies on the default implementations of the trait.",
  ["inputs", "histories"], "all inputs, stop sets and preceding histories, built-in and user-written input streams",
  "Two unit tests use one input and one whitespace predicate.",
  ["src/input.rs"], [("InputStream::skip_until / collect_until / collect_with_span_until", "src/input.rs")], (), ["InputStream"])
p("R05", "A failed read is a reported fatal error that loses and invents no input",
  "When the underlying source returns an I/O error at any point, the current read or peek returns a fatal error and counts one error, and every later read continues with exactly the character that would have come next, at the same location: no character is lost, duplicated or reordered around the failure. Bytes that are not UTF-8 are a fatal error that stays (end-of-input and later text are never reported instead), and never a panic.",
  ["fault_sequences", "inputs"], "all positions and numbers of I/O errors relative to reads and character boundaries, all malformed byte strings",
  "No test has a failing source; one test has one invalid byte.",
  ["src/reader.rs", "src/span.rs"], [("Reader::next_char_loc_from_reader", "src/reader.rs"), ("log_raw_fatal_error", "src/span.rs")],
  [("byte_buf, byte_buf_offset", "bytes kept across a failure", "src/reader.rs")], ["InputStream::next_char_loc", "Span::error_num"])

p("L01", "Matcher accepts exactly the union of the regexes and picks the smallest tag",
  "For every set of supported regular expressions with tags and every character string, the matcher matches the string if and only if it belongs to the language of at least one of the regexes (as regular-expression syntax defines it, matching the whole string), and the returned tag is the smallest tag among the regexes that match. Neither the order of additions, overlaps between regexes, equal tags, nor sharing of sub-expressions changes this.",
  ["inputs", "programs"], "all sets of regexes (empty regex, nested repetition, counted repetition, classes over the whole Unicode range) and all strings",
  "The tests match a few dozen strings against five regex sets; optimisation, Kleene and precedence bugs need particular combinations.",
  ["laps_regex/src/re.rs", "laps_regex/src/mir.rs", "laps_regex/src/nfa.rs", "laps_regex/src/dfa.rs", "laps_regex/src/fa.rs", "laps_regex/src/table.rs"],
  [("Mir::optimize", "laps_regex/src/mir.rs"), ("NFA::new", "laps_regex/src/nfa.rs"), ("DFA::new (subset construction, minimize)", "laps_regex/src/dfa.rs"), ("RegexMatcher::is_match / is_str_match", "laps_regex/src/re.rs")],
  (), ["RegexMatcher::is_match", "CharsMatcher::is_str_match"])
p("L02", "Stepwise matching rejects exactly when no continuation can match",
  "Feeding a string symbol by symbol, the matcher accepts a symbol if and only if the symbols accepted so far followed by it are a prefix of some string in the union of the languages; a rejected symbol is reported and leaves the matcher in the state it was in. After accepted symbols the final-state query gives the same tag as matching the accepted string as a whole, the query by state identifier agrees with it for every state seen, and a reset matcher behaves like a new one.",
  ["inputs", "histories", "programs"], "all regex sets and all interleavings of accept, query and reset calls",
  "One stream test over one input; no test checks that acceptance is refused as early as possible or that reset forgets everything.",
  ["laps_regex/src/re.rs", "laps_regex/src/table.rs", "laps_regex/src/dfa.rs"], [("RegexMatcher::is_accept / is_final / is_state_final / reset", "laps_regex/src/re.rs"), ("StateTransTable::next_state", "laps_regex/src/table.rs")],
  [("state", "current state of the automaton", "laps_regex/src/re.rs")], ["RegexMatcher"])
p("L03", "The exported transition table is the matcher's automaton over the whole alphabet",
  "For every set of regexes, the exported table read the documented way (symbol map from disjoint closed intervals to class numbers, row per class, column per state, the number of states as 'no next state', tags of final states) defines a total deterministic automaton over the whole alphabet that accepts the same language with the same tags as the regexes. Building sequentially, in parallel, with automatic selection, or concurrently with other builds in the same process gives automata that agree on every string.",
  ["programs", "schedules", "configurations"], "all regex sets, the three parallelisation settings, concurrent builds on several threads",
  "Tests never read the table, never force a parallel or sequential build and never build concurrently.",
  ["laps_regex/src/table.rs", "laps_regex/src/dfa.rs", "laps_regex/src/fa.rs"], [("TempTable::into_optimized", "laps_regex/src/table.rs"), ("Constructor::construct_par / construct_normal", "laps_regex/src/dfa.rs"), ("NEXT_STATE_ID", "laps_regex/src/fa.rs")],
  (), ["StateTransTable::{table,init_id,num_states,sym_map,tags,next_state,is_final}"])
p("L04", "Byte matchers match the byte-level language over all 256 byte values",
  "For every set of regexes that can be compiled to bytes and every byte string, valid UTF-8 or not, the byte matcher matches if and only if the byte string belongs to the union of the byte languages (literal characters stand for their UTF-8 encoding), with the smallest matching tag, for every byte value from 0x00 to 0xff.",
  ["inputs", "programs"], "all byte-mode regex sets and all byte strings",
  "One test with two literal alternations and five ASCII words.",
  ["laps_regex/src/mir.rs", "laps_regex/src/re.rs"], [("MirBuilder for Mir<u8, T>", "laps_regex/src/mir.rs"), ("SymbolOp for u8", "laps_regex/src/mir.rs"), ("RegexBuilder::build_bytes", "laps_regex/src/re.rs")], (), ["BytesMatcher"])
p("L05", "Building a matcher either succeeds correctly or returns the right error",
  "For every set of regex strings, building never panics or hangs: it fails with the empty-builder error if no regex was added, with a regex error carrying the tag of an offending regex if one does not parse, with an unsupported-operation error if look-around, non-greedy repetition or a Unicode class in byte mode is used, with a matches-nothing error if some regex matches no string at all, and otherwise succeeds. The error's text says what is wrong: which of those operations, or what the syntax parser reports. A failing regex never silently disappears from the set.",
  ["programs", "configurations"], "all regex strings over the supported syntax and beyond, both alphabets",
  "No test has a failing or degenerate build.",
  ["laps_regex/src/re.rs", "laps_regex/src/mir.rs", "laps_regex/src/table.rs"], [("RegexBuilder::build_impl", "laps_regex/src/re.rs"), ("Mir::new, Mir::optimize", "laps_regex/src/mir.rs")], (), ["RegexBuilder::build", "RegexBuilder::build_bytes"])

p("X01", "Derived lexers split the input by longest viable prefix, first rule wins ties",
  "For every token enum with derived tokenizer and every input, the next token's text is the longest sequence of next characters that is a prefix of some string of some rule, and the token is the variant of the first declared rule (regex or skip) that matches that whole text; text matched by a skip rule yields no token. If that text matches no rule an error is returned, the text is consumed, and tokenizing continues behind it.",
  ["inputs", "programs"], "all token enums (any rules, char or byte input, any number of automaton states) and all inputs, to the end and past it",
  "Derived lexers are only exercised by the examples' compilation and one doc test; no test compares a token sequence with the rules.",
  ["laps_macros/src/tokenize.rs", "src/lexer.rs"], [("RegexImpls::into_body (next_token_impl, is_accept, equiv_id, is_final)", "laps_macros/src/tokenize.rs"), ("Lexer::next_token", "src/lexer.rs")], (), ["Tokenizer::next_token"])
p("X02", "Token spans and texts tile the input exactly",
  "For every derived lexer and input, the texts of the tokens, skipped matches and reported errors, concatenated in order, are the input consumed; each token's span starts at the location of its first character and ends at the location of its last character, an end-of-file token's span is the end location, and an error's location is that of the first character of the offending text. A derived lexer never consumes a character beyond the text of the token it returns.",
  ["inputs", "programs", "histories"], "all token enums and inputs with line breaks, multi-byte characters, empty input and text at the end of input",
  "No test looks at the spans of tokens produced by a derived lexer.",
  ["laps_macros/src/tokenize.rs", "src/input.rs", "src/reader.rs"], [("next_token_impl", "laps_macros/src/tokenize.rs"), ("InputStream::peek_with_span, unread", "src/reader.rs")], (), ["Token::span", "Lexer::input"])
p("X03", "Derived lexers report end-of-file, unknown text and bad values as declared",
  "At end-of-input a derived lexer returns the end-of-file variant, again and again, or an unexpected-end-of-file error if none is declared; text cut off by the end of input that matches no rule is an unexpected-end-of-file error, other text that matches no rule is an unrecognized-token error, and a matched text whose value conversion (the given parser function or FromStr) fails is an 'invalid ...' error naming the variant. The value stored in a variant is the conversion of exactly the matched text, and a failed conversion does not disturb the following tokens.",
  ["inputs", "programs"], "all token enums with and without parsers and end-of-file variants, all inputs",
  "No test makes a derived lexer fail.",
  ["laps_macros/src/tokenize.rs"], [("token_result, eof_token", "laps_macros/src/tokenize.rs")], (), ["Tokenizer::next_token", "span::Error"])

p("L06", "Every stage of compiling expressions denotes the same tagged language",
  "For every set of tagged expressions (or user-built MIR), its MIR, the optimized MIR, the NFA of either, the DFA built sequentially, in parallel or automatically, and the table accept the same strings with the same tags. The optimized MIR speaks of pairwise disjoint sets of symbols; every DFA is deterministic, has no empty symbols and is minimal; no two classes of symbols of the table lead to the same states everywhere. Optimizing fails exactly when there is nothing to match.",
  ["inputs", "configurations"], "all tagged expressions and MIRs whose tags are not followed by anything, all strings, all parallelism settings",
  "Unit tests of the stages look at a handful of expressions; equivalence and minimality are statements about all strings.",
  ["laps_regex/src/mir.rs", "laps_regex/src/nfa.rs", "laps_regex/src/dfa.rs", "laps_regex/src/table.rs"],
  [("Mir::optimize", "laps_regex/src/mir.rs"), ("NFA::new", "laps_regex/src/nfa.rs"), ("DFA::new", "laps_regex/src/dfa.rs"), ("StateTransTable::new", "laps_regex/src/table.rs")],
  [("tags", "which expression a final state stands for; the smallest wins", "laps_regex/src/dfa.rs")], ["Mir", "NFA::fa", "DFA::fa", "StateTransTable"])
p("L07", "Automata behave as sets of states and edges with globally unique states",
  "In any history of adding, marking, connecting, merging and inspecting finite automata, what is reported (states, final states, initial state, edges, the unique final state, next states, the Graphviz text) is what was put in: operations on states an automaton does not have return false and change nothing, merging takes over all states, edges and final states but keeps the initial state, and no two states ever have the same identity, also when made on several threads. Empty-symbol closures and moves of a set of states are exactly the states reachable along empty edges.",
  ["histories", "schedules"], "all histories on any number of dense and normal automata, all interleavings of making states",
  "The data structures have no tests of their own.",
  ["laps_regex/src/fa.rs"], [("FiniteAutomaton, DenseFA", "laps_regex/src/fa.rs"), ("State::new_id", "laps_regex/src/fa.rs"), ("MultiFA::epsilon_closure, next_states", "laps_regex/src/fa.rs")],
  [("states, finals, init", "what was put in", "laps_regex/src/fa.rs")], ["FiniteAutomaton", "DenseFA", "MultiFA"])
p("M01", "The macros accept exactly the declarations they can honour",
  "A declaration with derive(Tokenize), derive(Parse), derive(Spanned), #[token_kind] or token_ast! compiles if it keeps to what the macro documents; otherwise compilation fails with an error at that declaration: an item of the wrong sort, an attribute given twice or with wrong arguments, a second end-of-file variant, no rule at all, a malformed or unsupported regular expression, a variant of a wrong shape, a value without a fitting conversion or a parser without a value, fields whose type cannot be parsed or has no span, every field marked try_span, two payloads of the same type, a wrong key or pattern, a guard or a pattern that is no value without a prompt. No macro panics, whatever its arguments are.",
  ["programs"], "all declarations (item sorts, variants, fields, attributes, arguments)",
  "No test has a declaration that must not compile.",
  ["laps_macros/src"], [("derive_tokenize", "laps_macros/src/tokenize.rs"), ("derive_parse", "laps_macros/src/parse.rs"), ("derive_spanned", "laps_macros/src/spanned.rs"), ("token_kind", "laps_macros/src/token_kind.rs"), ("token_ast", "laps_macros/src/token_ast.rs")],
  (), ["derive(Tokenize)", "derive(Parse)", "derive(Spanned)", "token_kind", "token_ast"])
p("E01", "From characters to syntax trees: lexer, token buffer and parsers work as one",
  "With a derived lexer on an input stream, a token buffer around it and parsers on that, every history of parsing, predicting, token operations, reading and unreading characters on the input stream below, wrapping the lexer in a new buffer and handing the input stream to a new lexer sees one sequence of tokens: those the lexer's rules find in the characters that are left, each with the kind, value and span of its text, in order, each once, only the ones that were already fetched being kept apart from later changes below; no more is read from the input than the tokens asked for; values, spans and predictions of syntax trees are those of that sequence; and every lexing error and every mismatch is returned by the operation that meets it, located, with its message, and counted once in the one error count the layers share, after which work goes on behind it.",
  ["histories", "inputs", "programs"], "all lexers, grammars, texts and histories of operations on the three layers",
  "The tests try each layer on its own with one fixed input; only the examples put them together, and nothing checks recovery from errors or the characters below a buffer.",
  ["src/lexer.rs", "src/token.rs", "src/ast.rs", "src/reader.rs", "laps_macros/src"], [("LexerImpl::next_token_impl", "src/lexer.rs"), ("TokenBuffer", "src/token.rs"), ("Parse impls", "src/ast.rs"), ("token_ast!", "laps_macros/src/token_ast.rs")],
  [("TokenBuffer::token_buf", "tokens that were fetched and not delivered", "src/token.rs"), ("position of the input stream", "behind the last token that was asked for", "src/input.rs")],
  ["Parse::parse", "Parse::maybe", "TokenStream", "InputStream", "Span::error_num"])
p("T01", "Token streams neither lose, duplicate nor reorder tokens in any history",
  "In every history of next, peek, peek2, peek-n, unread, skip-until, collect-until, expect and inner-tokenizer access on a token stream, the tokens delivered are exactly the unread ones (most recently unread first) followed by the tokenizer's remaining tokens in order; the peeking operations and a failed expect change nothing, skipping and collecting stop in front of the first token for which the predicate holds (predicates may keep a state; they are asked about the tokens in order, once each), and peeks return exactly what the following reads return. This holds for the provided buffer and for any user-written stream that only defines next and unread.",
  ["histories", "inputs"], "all operation histories over all token sequences, both stream implementations",
  "No test exercises the token buffer directly.",
  ["src/token.rs"], [("TokenBuffer", "src/token.rs"), ("TokenStream default methods", "src/token.rs")],
  [("token_buf", "tokens read ahead or unread", "src/token.rs")], ["TokenStream"])
p("T02", "A tokenizer error inside any stream operation loses no token",
  "When the tokenizer returns an error during any peeking or expecting operation at any depth, the operation returns that error and the tokens already fetched by it remain to be delivered first and in order by later operations; when it happens during next, skip or collect, the tokens behind the error are still delivered. The tokenizer is asked for no more tokens than the operation needs.",
  ["fault_sequences", "histories"], "all positions of errors in the token sequence combined with all histories",
  "No test has a failing tokenizer.",
  ["src/token.rs", "src/ast.rs"], [("TokenBuffer::extend_by", "src/token.rs"), ("peek2/peek_n/Lookahead drop", "src/token.rs")], (), ["TokenStream"])
p("T03", "Lookahead answers for the coming tokens and always rewinds",
  "A lookahead over a token stream yields the coming tokens in order, its chained checks answer true exactly if the next tokens are, one after another, tokens that the given token types accept, and however it ends (result taken, dropped half-way, early mismatch, tokenizer error) the stream is afterwards exactly where it was.",
  ["histories", "inputs", "fault_sequences"], "all token sequences, chains of checks, and drop points, with failing tokenizers",
  "No test uses lookahead.",
  ["src/token.rs", "laps_macros/src/parse.rs"], [("Lookahead::{peek_next,maybe,result,drop}", "src/token.rs"), ("gen_maybe", "laps_macros/src/parse.rs")], (), ["TokenStream::lookahead"])

p("P01", "Predefined AST types parse exactly their documented shapes",
  "For every token sequence, parsing any predefined or composed AST type (Box, Option, Vec, tuples of any supported size, non-empty sequences, separated sequences and lists with or without optional trailing separator, prefixes) succeeds exactly if a prefix of the tokens has the documented shape under one-token prediction, consumes exactly that prefix, and stores exactly its elements (and delimiters where documented) in order, which is also the order in which sequences and lists iterate over them. Otherwise parsing returns an error located at the first token that cannot continue, and every token behind that one is still delivered.",
  ["inputs", "programs"], "all AST types built from the combinators and all token sequences",
  "No test parses any of the predefined AST types; one doc test parses a dummy.",
  ["src/ast.rs", "src/parse.rs"], [("Parse impls", "src/ast.rs"), ("impl_for_tuple!", "src/parse.rs")], (), ["TokenStream::parse", "Parse::parse"])
p("P02", "Prediction never consumes and agrees with parsing",
  "For every AST type and token stream state, maybe leaves the delivered token sequence unchanged (also when it returns an error), answers true exactly if the type's documented first-token (or, for token-prefix types, first-two-token) condition holds, and is true whenever parsing the type would succeed.",
  ["inputs", "programs", "fault_sequences"], "all AST types, token sequences and tokenizer error positions",
  "No test calls maybe.",
  ["src/ast.rs", "src/parse.rs", "laps_macros/src/parse.rs", "laps_macros/src/token_ast.rs"], [("Parse::maybe impls", "src/ast.rs")], (), ["Parse::maybe"])
p("P03", "Derived parsers parse fields in order and take the first possible variant",
  "A derived parser of a struct parses its fields in declaration order; of an enum it takes the first variant whose first field is predicted by the coming tokens, or the last variant if none is; its prediction is that of the first field (any variant's, for enums), or exactly the declared starts_with token sequence. Errors are those of the field that failed, located at the first token that cannot continue.",
  ["inputs", "programs"], "all derived types (structs, enums, nested, recursive, generic, with starts_with and explicit token type) and token sequences",
  "The derive is only compiled by the examples; no test runs a derived parser on inputs.",
  ["laps_macros/src/parse.rs"], [("gen_struct_methods, gen_enum_methods", "laps_macros/src/parse.rs")], (), ["Parse::parse", "Parse::maybe"])
p("P04", "Token ASTs accept exactly the tokens of their pattern",
  "A token AST declared for a pattern (with optional guard) predicts and parses exactly the tokens whose kind matches the pattern, holds that very token (kind, value and span), and on any other token returns an error naming the declared prompt (or the expected kind) and the token found, at that token's location. Its unwrap methods return the stored value.",
  ["inputs", "programs"], "all patterns, guards, prompts and tokens",
  "Doc tests only expand the macro.",
  ["laps_macros/src/token_ast.rs", "src/token.rs"], [("gen_ast_defs", "laps_macros/src/token_ast.rs"), ("TokenStream::expect", "src/token.rs")], (), ["Parse for token ASTs"])
p("S01", "The span of an AST runs from its first to its last token",
  "For every AST value obtained by parsing, its span (or optional span) starts where its first stored token starts and ends where its last stored token ends, through tuples, sequences, lists, prefixes, options, vectors, boxes and derived spans with fields that may be absent; the optional span is absent exactly if no token is stored.",
  ["inputs", "programs"], "all AST types and parsed values, including empty and single-element ones",
  "No test computes the span of a parsed AST.",
  ["src/span.rs", "src/ast.rs", "laps_macros/src/spanned.rs"], [("Spanned/TrySpan impls", "src/span.rs"), ("derive_spanned", "laps_macros/src/spanned.rs")], (), ["Spanned::span", "TrySpan::try_span"])

p("D01", "Error and warning counts are exact and shared across clones and threads",
  "All spans derived from one source share one error count and one warning count; every error-logging call (normal or fatal, with or without location) adds exactly one to the errors and every warning exactly one to the warnings, whichever clone and thread made it, and concurrent calls are never lost. Spans of different sources never share counts, and a returned error is fatal exactly if it came from a fatal logging call or a failed read.",
  ["schedules", "histories"], "all interleavings of logging calls from any number of threads and span clones, with and without the logger",
  "One unit test logs three messages on one thread and does not look at the counts.",
  ["src/span.rs"], [("LoggerStatus atomics", "src/span.rs"), ("log_* methods", "src/span.rs")],
  [("errors, warnings", "shared counters", "src/span.rs")], ["Span::error_num", "Span::warning_num", "Error::is_fatal"])
p("D02", "Diagnostics show the right lines and mark exactly the spanned columns",
  "For every file content and span, logging prints the message with its severity, the file and start location, and, for file spans with valid columns, the source lines with their numbers: for one line, markers under exactly the cells from the start to the end column (tabs two cells wide, wide and zero-width characters by their display width), and for several lines the first and last columns, with more than four middle lines abbreviated. It never panics, whatever the span or file content, and the summary states the exact counts.",
  ["inputs", "histories"], "all file contents (tabs, wide, zero-width characters, missing lines) and all spans, including ones produced by set_line_col",
  "The unit test logs for a buffer, so that no line is ever rendered.",
  ["src/span.rs"], [("print_single_line_info, print_multi_line_info, log_summary", "src/span.rs")], (), ["stderr of Span::log_*"])
p("D03", "Without the logger feature errors carry the full message instead of printing",
  "Built without the logger feature, nothing is printed, an error logged at a span carries exactly '<file>:<line>:<column>: <message>' with the span's start location, an error logged without a span carries exactly the message, fatal and normal errors are distinguished, and counts behave as with the logger.",
  ["configurations", "inputs", "histories"], "all messages, spans, file types and call sequences in the build without the logger",
  "The configuration is not built or tested at all.",
  ["src/span.rs"], [("cfg(not(feature = \"logger\")) methods", "src/span.rs")], (), ["span::Error"])

p("V01", "Integer literals convert exactly, for all twelve integer types",
  "For every string and integer type, the conversion succeeds exactly if the string is an optional sign (signed form only) followed by decimal digits, or 0b, 0o or 0x and digits of that base, and the value is representable; the result is that value, except that a negated value in an unsigned type wraps. The most negative value of each signed type is accepted, everything else yields nothing, without panics.",
  ["inputs"], "all strings (including non-ASCII, huge and empty ones) for all twelve integer types",
  "About thirty sample strings, for i32 and u32 only.",
  ["src/lexer.rs"], [("int_literal, signed_int_literal", "src/lexer.rs")], (), ["int_literal", "signed_int_literal"])
p("V02", "String and character literals decode exactly the documented escapes",
  "For every string, decoding a string or character literal succeeds exactly if it is one quoted literal with the documented escapes and no raw line feed, carriage return or tab, with nothing before or after it; the result is exactly the denoted text. All other strings yield nothing, without panics.",
  ["inputs"], "all strings, including truncated escapes, surrogates, out-of-range and non-ASCII characters",
  "About forty sample strings.",
  ["src/lexer.rs"], [("str_literal, char_literal, parse_char_literal", "src/lexer.rs")], (), ["str_literal", "char_literal"])
p("K01", "Token kind conversions and display follow the declared variants",
  "For every token kind enum, converting a payload into the kind gives the variant that carries its type, converting a kind (or a reference to it) back gives the payload exactly if it is that variant and fails otherwise, and its text is the variant's documentation (lower-cased, without final full stop) or its name in lower-case words, followed by the payload in back quotes for single-payload variants.",
  ["programs", "inputs"], "all token kind enums and all values of them",
  "Doc tests only expand the macro; no conversion or text is checked.",
  ["laps_macros/src/token_kind.rs", "laps_macros/src/utils.rs"], [("gen_from_impls, gen_display_impl", "laps_macros/src/token_kind.rs"), ("camel_to_lower, parse_doc_comments", "laps_macros/src/utils.rs")], (), ["From", "TryFrom", "Display"])
p("K02", "Tokens compare, hash and display by kind and keep their span",
  "Two tokens are equal exactly if their kinds are equal, whatever their spans; a token equals a kind exactly if its kind does, equal tokens hash equally, and a token displays and borrows as its kind. Two spans are equal exactly if they belong to the same source and have the same start and end, and extending, advancing and same-line tests on spans follow their start and end locations.",
  ["inputs", "histories"], "all pairs of tokens and spans",
  "Two span unit tests with fixed values; no test compares tokens.",
  ["src/token.rs", "src/span.rs"], [("PartialEq/Hash/Display/Borrow for Token", "src/token.rs"), ("Span::update_end, into_end_updated, is_in_same_line_as, PartialEq", "src/span.rs")], (), ["Token", "Span"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
