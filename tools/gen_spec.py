#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run by hand, output committed)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, tech=None, note=None, level="exploration", state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append((d, tech, note, level))

prop("C01", "Building a token stream keeps all content and coalesces whitespace by rule",
  "However a token stream is built up (appending literals, values, items or other streams, spaces, pushes, lines, indentation changes, imports, extending from an iterator, collecting, cloning), every literal, quote marker, interpolation marker and language item ends up in it exactly once and in the order it was added. "
  "Only whitespace is merged, and by the documented rules: repeated spaces are one space, repeated pushes or lines are one, a line overrides an earlier push or space, a push overrides an earlier space but never downgrades a line, adjacent indentation changes add up, cancel to nothing at zero and absorb whitespace pending before them. "
  "Re-adding a finished stream's items one by one, by extending or by collecting reproduces it, nesting it in another stream equals adding its items one by one, and a stream reports itself empty exactly when it holds no items.",
  ["histories"], "every finite sequence of stream-building operations, with nesting of streams in streams",
  "Unit tests pin a dozen hand-picked token lists; the merging rules interact pairwise and across nesting, so only arbitrary operation histories compared with a model settle them.",
  ["src/tokens/tokens.rs", "src/tokens/item.rs", "src/tokens/format_into.rs"],
  [("coalescing on append", "src/tokens/tokens.rs: space/push/line/indentation/item"), ("item-wise extend", "src/tokens/tokens.rs: extend, FromIterator, FormatInto for Tokens")],
  ["Tokens::iter / into_iter", "PartialEq with item vectors", "is_empty"],
  "model-based operation-sequence testing (bounded-exhaustive short sequences + proptest histories, shrinking) against a reference stream model")

prop("C02", "Rendered layout follows the whitespace and indentation rules",
  "Rendering a token stream yields exactly its literals in order, with a single space wherever one was asked for between two tokens on a line, one line break for a push, exactly one empty line for a line operation, and every new line indented by the indentation level in force (never below zero) times the configured unit. "
  "No line ever carries trailing whitespace that the literals did not contain, line breaks before the first token are dropped, and pending whitespace at the end is not written, except that rendering a file ends it with exactly one line ending. "
  "Streams and files written one after the other through one formatter continue each other: whitespace pending at the end of a stream separates it from what follows, whitespace pending at the end of a file never reaches what follows it. "
  "Registered imports and empty literals write nothing, and never turn one pending space or line break into several.",
  ["inputs", "histories"], "every token stream over literals, spaces, pushes, lines, indentation changes, imports and strings",
  "Tests compare a few fixed outputs; the pending-whitespace state machine has many (state, token) combinations and unbounded histories that samples do not reach.",
  ["src/fmt/formatter.rs", "src/tokens/tokens.rs"],
  [("pending whitespace state", "src/fmt/formatter.rs: push/line/space/indentation/flush_whitespace"), ("trailing line", "src/fmt/formatter.rs: write_trailing_line")],
  ["to_string", "to_vec", "to_file_string", "to_file_vec"],
  "differential property testing of rendering against an independent reference renderer, plus output invariants, over generated token streams")

prop("C03", "Every output sink and formatting configuration renders the same document",
  "The same stream rendered to a string, to a list of lines, to a text sink or to a byte sink is the same document, character for character, differing only in that the line list has no line endings. "
  "Changing the line ending only substitutes that line ending for every line break genco itself makes, and changing the indentation unit (any number of spaces, or a tab) only changes the leading whitespace of each line to level times that unit, for any depth of nesting and any unit width. "
  "Rendering does not modify the stream: rendering again, or rendering a clone, gives the same result.",
  ["inputs", "configurations"], "every token stream, every sink, every line ending and indentation unit, at any nesting depth",
  "Tests use only the default line ending, the default unit and shallow nesting; the fixed-size whitespace buffers are only exceeded by deep nesting or wide units.",
  ["src/fmt/formatter.rs", "src/fmt/config.rs", "src/fmt/vec_writer.rs", "src/fmt/fmt_writer.rs", "src/fmt/io_writer.rs"],
  [("chunked whitespace buffers", "src/fmt/formatter.rs: SPACES/TABS, flush_whitespace"), ("line endings per sink", "src/fmt/*_writer.rs: write_line")],
  ["fmt::VecWriter", "fmt::FmtWriter", "fmt::IoWriter", "fmt::Config"],
  "metamorphic and differential property testing across sinks and configurations over generated streams with deep nesting")

prop("C04", "A failing output sink is reported and never silently loses text",
  "If the sink fails at any point while a stream is being written, rendering returns an error, and what reached the sink before the failure is a prefix of the correct output. "
  "A sink that accepts only part of a write at a time or is interrupted still receives the complete, correct output, and a sink that does not fail never makes rendering fail.",
  ["fault_sequences", "inputs"], "every stream and language, every byte position at which a text or byte sink may fail, and every pattern of short or interrupted writes",
  "No existing test injects a write failure.",
  ["src/fmt/io_writer.rs", "src/fmt/fmt_writer.rs", "src/fmt/formatter.rs", "src/lang/mod.rs"],
  [("error propagation", "src/fmt/formatter.rs, src/lang/*: every write is followed by ?"), ("write_all", "src/fmt/io_writer.rs")],
  ["result of format/format_file on a faulty fmt::FmtWriter / fmt::IoWriter"],
  "fault-injection property testing: enumerate every failing byte position and generate short-write/interrupt schedules per generated document", level="fault_enumeration")

prop("C05", "Used imports are discovered exactly, wherever they were added",
  "Walking the imports of a stream yields exactly the language items that were appended or registered into it, each as many times as it was added, regardless of how deeply the streams carrying them were nested, of cloning, extending or collecting, of strings or control flow around them, and of which operation added them. "
  "Registered items contribute an import but no text; appended ones contribute both.",
  ["histories"], "every history of appends, registrations (single, by reference, tuples up to eight), nesting, extending, cloning and collecting",
  "Tests check one or two imports in a flat stream; the collection is a linked chain of positions that each construction path has to rebuild.",
  ["src/tokens/tokens.rs", "src/tokens/register.rs", "src/tokens/internal.rs", "src/macros.rs"],
  [("position chain of language items", "src/tokens/tokens.rs: lang_item, lang_item_register, item, WalkImports")],
  ["Tokens::walk_imports", "rendered text", "to_file_string header"],
  "model-based history testing with a multiset oracle over generated nesting/registration histories")

prop("C06", "Interpolated values render as their text, and containers as concatenation",
  "Appending a value renders exactly its display text: every string-like type its characters, every integer type its decimal form, formatted arguments and displayed values their formatted text. "
  "Appending an optional value renders the value if present and nothing otherwise, and appending a vector, slice, borrowed or owned container, or a stream, renders the same as appending its elements one after the other, whether by value or by reference. "
  "Quoting a value renders the quoted form of exactly that content, and a value produced by a closure renders what the closure appended.",
  ["inputs"], "every value of every supported interpolation type, and every nesting of containers of them",
  "Tests cover a handful of types with one value each.",
  ["src/tokens/format_into.rs", "src/tokens/quoted.rs", "src/tokens/display.rs", "src/tokens/from_fn.rs", "src/tokens/static_literal.rs", "src/tokens/item_str.rs"],
  [("conversion impls", "src/tokens/format_into.rs: impl FormatInto, impl_display"), ("owned text", "src/tokens/item_str.rs: From impls")],
  ["to_string of the stream", "items of the stream"],
  "property testing of each conversion against the Display/concatenation law, generated values including extremes")

prop("C07", "A quoted string means exactly the original text in the target language",
  "For every supported language and every Unicode text, the string literal genco emits for that text is one well-formed string literal of that language which evaluates to exactly the original text. "
  "That holds for every control character, quote, backslash, interpolation character, non-ASCII and supplementary-plane character, and for every combination of neighbouring characters. "
  "In particular the text can never terminate the literal early, trigger interpolation, or be merged into an escape sequence before it.",
  ["inputs"], "every Unicode string (C#, Java, Go, C, JavaScript, Dart, Python, Rust, Swift, Nix; for C and Nix without the characters their strings cannot hold)",
  "Existing tests quote one short greeting per language; escapes are wrong for single code points or pairs of neighbours that no sample contains.",
  ["src/lang/mod.rs", "src/lang/js.rs", "src/lang/dart/mod.rs", "src/lang/java/mod.rs", "src/lang/rust.rs", "src/lang/swift.rs", "src/lang/nix.rs", "src/lang/go.rs", "src/lang/c.rs", "src/lang/csharp/mod.rs", "src/lang/python.rs"],
  [("per-language escaping", "src/lang/*: write_quoted"), ("shared C-family escaping", "src/lang/mod.rs: c_family_write_quoted")],
  ["to_string of quoted(text)"],
  "round-trip property testing: exhaustive over code points and control/hex/digit pairs plus random strings, decoded by spec-derived lexers and by the real gcc/python/node/go/javac/rustc")

prop("C08", "Composed and interpolated strings denote the concatenation of their parts",
  "A string built from several pieces (literal parts, runtime-evaluated constant parts, interpolated expressions) is one well-formed string literal whose value is the concatenation of the exact piece texts and the interpolated expressions, independent of how the text was split into pieces. "
  "In languages with interpolation (JavaScript, Dart) an expression part is evaluated as an expression and a text part never is, whatever characters it contains; a string without expression parts is a plain quoted string. "
  "Quoting something that itself contains quoted strings, to any depth, denotes text in which each inner string is in turn a well-formed literal denoting the inner text.",
  ["inputs"], "every sequence of text pieces and expressions, every split of a text into pieces, every nesting depth of quotes, in every language",
  "Tests show one template per language and one nesting level.",
  ["src/fmt/formatter.rs", "src/lang/js.rs", "src/lang/dart/mod.rs", "src/lang/mod.rs"],
  [("quote/eval frames", "src/fmt/formatter.rs: format_cursor, quoted_quote"), ("template syntax", "src/lang/js.rs, src/lang/dart/mod.rs: open_quote, string_eval_literal, start_string_eval")],
  ["to_string"],
  "round-trip and metamorphic property testing over generated piece lists, with template-literal/interpolation decoders and node as differential oracle")

prop("C09", "File headers import everything used, once, independent of order and text source",
  "In a rendered file every imported item used or registered in the body is covered by the import header, nothing that was not used is imported, and no import line or element occurs twice. "
  "The header depends only on the set of imports and the configuration: not on the order or number of uses, not on where in the stream they occur, and not on whether a name came from a static or an owned string. "
  "Imports the language provides implicitly (the file's own package or namespace, the language's core package) are not imported, unless they are given an alias.",
  ["inputs", "histories", "configurations"], "every multiset and order of imports, with every combination of alias/qualified/default/wildcard options, in every language with imports",
  "Tests check one or two imports per language.",
  ["src/lang/rust.rs", "src/lang/java/mod.rs", "src/lang/csharp/mod.rs", "src/lang/go.rs", "src/lang/dart/mod.rs", "src/lang/js.rs", "src/lang/c.rs", "src/lang/python.rs", "src/lang/swift.rs", "src/lang/nix.rs", "src/tokens/item_str.rs"],
  [("ordered sets of used imports", "src/lang/*: imports()"), ("text equality", "src/tokens/item_str.rs")],
  ["to_file_string / format_file header lines"],
  "property testing with an independent header parser per language and set oracle; metamorphic permutation/duplication/text-source relations")

prop("C10", "Every rendered reference resolves to the item that was imported",
  "For every imported item used in the body, resolving the reference text genco renders under the target language's name rules and the emitted header gives exactly the item the user named. "
  "This holds with aliases, module aliases, qualified and direct imports mixed freely and for the same item used in several forms, and in Java and C# also when several packages provide the same simple name, including the file's own package or namespace and the implicitly imported core package. A fragment of Java rendered on its own, without a header, names every type outside of `java.lang` by its qualified name, so that it resolves by itself.",
  ["inputs", "configurations"], "every set of imported items (consistent in their explicit local names) with every option mix, in every language with imports",
  "Tests exercise a single conflict in Java and C#; resolution depends on the whole set of imports and the configuration.",
  ["src/lang/java/mod.rs", "src/lang/csharp/mod.rs", "src/lang/rust.rs", "src/lang/python.rs", "src/lang/js.rs", "src/lang/dart/mod.rs", "src/lang/go.rs", "src/lang/swift.rs", "src/lang/c.rs", "src/lang/nix.rs"],
  [("conflict resolution", "src/lang/java/mod.rs, src/lang/csharp/mod.rs: imports, LangItem::format"), ("alias rendering", "src/lang/*: LangItem::format")],
  ["to_file_string: header and body", "to_string: body (Java)"],
  "property testing with a per-language name-resolution model applied to the parsed output")

prop("C11", "A rendered file is its declaration, its imports and its body, cleanly separated",
  "A rendered file consists, in this order, of the package or namespace declaration if configured, the import header if there are imports, and the body exactly as it renders on its own (inside the namespace block and one level deeper for C#, and with import references spelled per the header), each separated by exactly one empty line and followed by a single line ending. "
  "When there are no imports and no declaration the file is exactly the body plus the final line ending. "
  "The Nix header (argument set unless scoped, with clauses, let bindings) lists everything the body and its variable values use.",
  ["inputs", "configurations"], "every body, every set of imports, every package/namespace/scoped configuration, in every language",
  "Tests look at one complete file per language.",
  ["src/lang/rust.rs", "src/lang/java/mod.rs", "src/lang/csharp/mod.rs", "src/lang/go.rs", "src/lang/dart/mod.rs", "src/lang/js.rs", "src/lang/c.rs", "src/lang/python.rs", "src/lang/swift.rs", "src/lang/nix.rs"],
  [("file assembly", "src/lang/*: format_file")],
  ["to_file_string / to_file_vec"],
  "property testing: reference file assembler compared with the rendered file over generated bodies, imports and configurations")

prop("C12", "The macro reproduces the spacing, lines and indentation of the quoted code",
  "Code written in a quotation renders with the same tokens on the same lines: tokens separated by any gap on a line get exactly one space and adjacent tokens none, a line break is kept, one or more empty lines become exactly one, and trailing and leading whitespace is trimmed. "
  "A row starting in a deeper column than the row before is exactly one level deeper, and a row starting in the column of an earlier enclosing row returns to that row's level, whatever the column widths used; indentation is back at the starting level after the quotation. "
  "Interpolations, groups, strings and explicit whitespace escapes occupy their place in the layout like any other token.",
  ["programs"], "every layout of a quotation: token kinds, gaps, columns, blank lines, nested groups, multi-line interpolations and escapes",
  "The macro is exercised at compile time by a few dozen fixed snippets; the layout space is unbounded and depends on exact columns.",
  ["genco-macros/src/encoder.rs", "genco-macros/src/quote.rs", "genco-macros/src/fake.rs", "genco-macros/src/cursor.rs", "genco-macros/src/static_buffer.rs"],
  [("whitespace from spans", "genco-macros/src/encoder.rs: tokenize_whitespace, indents"), ("group cursors", "genco-macros/src/quote.rs: parse_group")],
  ["items and rendering of compiled quote!"],
  "generated Rust programs: random layouts printed as quote! source, compiled with the macro, items and text compared with a layout model; shrinking by recompilation")

prop("C13", "Inconsistent indentation is rejected at compile time, consistent never",
  "A quotation in which a row starts shallower than the row before it, in a column that is not the column of an enclosing earlier row, fails to compile with an indentation error at that row. "
  "Every quotation whose rows only ever deepen, stay, or return to the column of an enclosing row compiles.",
  ["programs"], "every sequence of row columns, in top-level and nested quoted blocks",
  "No existing test covers a rejected layout.",
  ["genco-macros/src/encoder.rs"],
  [("indentation stack", "genco-macros/src/encoder.rs: tokenize_whitespace, indentation_error")],
  ["rustc diagnostics for generated quote! source"],
  "generated Rust programs with random column sequences, compiled in batches; accept/reject compared with a column-stack model")

prop("C14", "Control flow in a quotation equals building the same tokens by hand",
  "Loops (with and without join, block and arrow form), conditionals (with and without else, let patterns), matches (plain, block and parenthesised arms, guards, alternatives), variable assignments and scopes inside a quotation produce exactly the tokens that the corresponding Rust control flow would append, for every value of the data they range over. "
  "A join is placed between elements only, and joins and parenthesised arms keep the spaces at their start and end, while the other bodies are trimmed. "
  "Whitespace before and after an expansion follows the same rules as around any other token of the quotation.",
  ["programs", "inputs"], "every nesting of control-flow constructs in a quotation and every input data",
  "Tests cover single constructs with one or two inputs.",
  ["genco-macros/src/quote.rs", "genco-macros/src/encoder.rs", "genco-macros/src/ast.rs"],
  [("control-flow expansion", "genco-macros/src/encoder.rs: encode_repeat, encode_condition, encode_match, encode_let, encode_scope"), ("parsing", "genco-macros/src/quote.rs: parse_loop, parse_condition, parse_match")],
  ["items and rendering of compiled quote!"],
  "generated Rust programs: random control-flow trees printed as quote! source and interpreted by a model over the same data; compiled output compared")

prop("C15", "All quotation forms agree, and expressions are evaluated once, in order",
  "Quoting into a new stream, into an existing stream and through a deferred quoting closure produce the same tokens for the same quoted code: quoting into an existing stream equals appending the new stream to it, and a deferred quotation equals the immediate one when appended. "
  "The stream quoted into may be given by any expression, which is evaluated once, before what is quoted. Every interpolated expression, loop source, condition and match subject is evaluated exactly once per execution of its place, in source order, in the surrounding Rust scope, so that early return, mutation and borrowing of local variables work as in ordinary code.",
  ["programs", "histories"], "every quoted code, every prior content of the receiving stream, every placement of effects",
  "Tests use pure expressions and empty receivers.",
  ["genco-macros/src/lib.rs", "genco-macros/src/quote_in.rs", "genco-macros/src/quote_fn.rs", "genco-macros/src/encoder.rs", "src/tokens/from_fn.rs"],
  [("macro entry points", "genco-macros/src/lib.rs: quote, quote_in, quote_fn"), ("single expansion of each expression", "genco-macros/src/encoder.rs")],
  ["items of compiled quotations", "trace of evaluated expressions"],
  "generated Rust programs: the same quoted tree through each macro form with traced effects; items and traces compared with each other and with a model")

prop("C16", "Interpolated strings in a quotation keep their exact source text",
  "The text of a string interpolation in a quotation is exactly the source text between its parentheses, including every run of spaces inside, at the start and at the end, with a doubled dollar sign meaning one, constant parts replaced by their value and interpolated parts left as interpolations. "
  "Interpolated parts follow the normal quotation rules but keep the spaces at their start and end.",
  ["programs"], "every sequence of source tokens, groups, gaps, escapes, constant parts and interpolations inside a string interpolation",
  "Tests show two or three short strings without runs of spaces.",
  ["genco-macros/src/string_parser.rs", "genco-macros/src/quote.rs"],
  [("gap reconstruction", "genco-macros/src/string_parser.rs: flush_whitespace, encode_str, encode_char, eval_stream, extend_tt")],
  ["items and rendering of compiled quote!"],
  "generated Rust programs: random string interpolations printed as source, compiled, decoded value compared with the source text")

prop("C17", "Unsupported quotations are rejected at compile time",
  "A quotation that interpolates expressions into a string compiles only for target languages that support interpolation, no matter how deeply the string is nested in control flow, and one that does not interpolate compiles for every language. "
  "Unknown functions, unknown whitespace escapes, escapes with arguments, string functions without content and line breaks inside string interpolations are compile errors rather than silently wrong output.",
  ["programs"], "every nesting of control flow around a string interpolation, every language, every malformed special form",
  "Compile failures are not covered by the existing tests at all.",
  ["genco-macros/src/requirements.rs", "genco-macros/src/quote.rs", "genco-macros/src/string_parser.rs", "genco-macros/src/encoder.rs", "genco-macros/src/ast.rs"],
  [("requirement propagation", "genco-macros/src/requirements.rs: merge_with, into_check"), ("explicit rejections", "genco-macros/src/quote.rs, string_parser.rs")],
  ["rustc diagnostics for generated source"],
  "generated Rust programs: random nestings compiled per language, accept/reject compared with a model")

prop("C18", "Comment helpers emit each given line as one comment line in place",
  "A documentation or block comment built from any sequence of lines (texts without line breaks, and for Java without its end marker) renders exactly those lines, in order, each as one comment line with the language's marker, starting on a line of its own at the current indentation and without trailing whitespace for empty lines. "
  "Java block comments are opened and closed exactly once, and an empty sequence renders nothing.",
  ["inputs"], "every sequence of comment lines, at every indentation and after every preceding token, for C#, Java and Dart",
  "Tests check a two-line comment.",
  ["src/lang/java/block_comment.rs", "src/lang/csharp/block_comment.rs", "src/lang/csharp/comment.rs", "src/lang/dart/doc_comment.rs"],
  [("line-wise emission", "src/lang/*/…comment.rs: format_into")],
  ["to_string / to_vec"],
  "property testing over generated line sequences and surrounding contexts against a reference comment layout")

prop("C19", "Custom languages defined by a user get exactly the hooks they define",
  "A language defined with the language macro is driven through its own definitions only: its quoting, string opening and closing, interpolation markers, default indentation, configuration, format state and file layout are used wherever rendering needs them, and everything it does not define gets the documented default. "
  "Each of its item kinds converts, registers and renders as itself, by value and by reference, and appears among the walked imports as that kind. "
  "A hook or item that fails makes every way of rendering fail at that point.",
  ["inputs", "configurations"], "every stream over a custom language with several item kinds, every choice of which hooks it defines, every configuration value",
  "One documentation example defines a custom language with two hooks.",
  ["src/macros.rs", "src/lang/mod.rs", "src/fmt/formatter.rs"],
  [("macro-generated dispatch", "src/macros.rs: impl_lang!"), ("default hooks", "src/lang/mod.rs: Lang")],
  ["to_string / format with explicit configuration"],
  "property testing of custom languages with recording hooks against a model of which hook renders what")

prop("C20", "Streams and imports compare, hash and order by content alone",
  "Two strings, imports or streams of text and layout with the same content are equal, hash equally and order as equal however their text is stored, and two streams built by the same additions are equal; clones are equal to their originals. "
  "Equality, ordering and hashing are consistent with each other (a total order, antisymmetric and transitive, equal iff compared equal, equal implies same hash), so they can be used as keys of ordered and hashed collections.",
  ["inputs"], "every pair and triple of strings, items, streams and imports, over every storage form of their text",
  "No test compares the same content in different storage forms.",
  ["src/tokens/item_str.rs", "src/tokens/item.rs", "src/tokens/tokens.rs"],
  [("comparison impls", "src/tokens/item_str.rs, src/tokens/item.rs: derived/implemented Eq, Ord, Hash")],
  ["==, cmp, hash"],
  "property testing of Eq/Ord/Hash laws over generated pairs and triples in all storage forms")

prop("C21", "Relative module paths in JavaScript imports lead to the module",
  "When the path of the file being generated is configured, the relative path emitted for a module given by path leads from the generated file to exactly that module (counted, as documented, from the path of the file itself, so that one `..` leads to its directory), for any depth and any shared prefix, provided the module can be reached without naming a directory above the root; without it, and for modules given by name, the path or name is emitted unchanged. "
  "The emitted module string is quoted so that it reads back as that path.",
  ["inputs", "configurations"], "every pair of generated-file path and module path",
  "Tests check one sibling file.",
  ["src/lang/js.rs"],
  [("relative path rendering", "src/lang/js.rs: render_from, Config::with_module_path")],
  ["import lines of to_file_string"],
  "property testing: resolve the emitted path against the configured location and compare with the module path")

prop("C22", "Blocks interpolated into a quotation keep their shape at the new level",
  "Appending a multi-line block with balanced indentation into another stream renders each of its lines with the same relative indentation, shifted by the level in force at the place of insertion, and leaves the level after it unchanged. "
  "Splitting a finished stream's items into any sequence of sub-streams and appending them in order renders the same as the whole, and indenting then unindenting around a block shifts it by exactly one level and changes nothing else.",
  ["inputs", "histories"], "every block and every place of insertion, every split of a stream",
  "Tests nest a block once at one level.",
  ["src/tokens/tokens.rs", "src/fmt/formatter.rs"],
  [("relative indentation items", "src/tokens/tokens.rs: indentation"), ("level tracking", "src/fmt/formatter.rs: indentation")],
  ["to_string / to_vec"],
  "metamorphic property testing: shift, split and wrap relations over generated blocks")

prop("C23", "Rendering is total: any stream renders or is an error, never a panic",
  "Building, walking and rendering a stream returns without panicking, whatever items it holds (with indentation within the range of its type) and in whatever order they were added, and whatever texts and options its imports and its configuration carry. "
  "Markers of strings and interpolations in the wrong place (a string closed which is not open, an interpolation opened outside of a string or within a quoted one, or closed where none is open or within a string of its own, a string with interpolations opened within a string) are reported as an error by every way of rendering and in every language; "
  "a stream whose markers are properly nested renders without error in every way and in every language, and renders the same when it is rendered again.",
  ["inputs", "histories"], "every sequence of stream items, every text in every place of every import and configuration",
  "Tests render well-formed streams with ordinary names only; which nestings are errors is decided by a stack of frames over unbounded sequences.",
  ["src/fmt/formatter.rs", "src/fmt/cursor.rs", "src/tokens/tokens.rs", "src/lang/"],
  [("frames of strings and interpolations", "src/fmt/formatter.rs: format_cursor"), ("file headers", "src/lang/*: imports, format_file")],
  ["result of format, format_file, to_string, to_vec, to_file_string, to_file_vec"],
  "bounded-exhaustive and random sequences of stream items against a reference automaton; fuzzing of every text of imports and configurations")

prop("C24", "The macros cope with any tokens: they expand or reject, and drop nothing",
  "Whatever tokens stand in a quotation, it compiles or is rejected with compile errors located in it: the macros neither panic nor run on. "
  "Tokens without a dollar sign are accepted whatever they are (keywords, lifetimes, numbers, characters, raw, byte and C strings, literals with suffixes, documentation comments, punctuation, non-ASCII names, nested groups), and each is rendered, in order. This holds for quotations made through other macros as well. "
  "Tokens left over in a special form (behind a complete loop, conditional, match, assignment, scope, expression or literal, before the closing parenthesis) are rejected, never dropped.",
  ["inputs"], "every sequence of token trees in every form of quotation",
  "Tests quote well-formed code; nothing tries malformed forms or unusual tokens.",
  ["genco-macros/src/quote.rs", "genco-macros/src/string_parser.rs", "genco-macros/src/encoder.rs", "genco-macros/src/ast.rs", "genco-macros/src/fake.rs"],
  [("special forms", "genco-macros/src/quote.rs: parse_inner, parse_expression, parse_condition, parse_loop, parse_match, parse_let, parse_scope, parse_internal_function"), ("strings", "genco-macros/src/string_parser.rs")],
  ["rustc diagnostics", "rendered text of the compiled quotations"],
  "grammar-based program fuzzing with mutations of special forms, decided by rustc's diagnostics and by the rendered tokens")

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for d, *_ in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
    notes = json.load(open(os.path.join(HERE, "tools/notes.json"))) if os.path.exists(os.path.join(HERE, "tools/notes.json")) else {}
    claimed = notes.get("claimed", [])
    m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": [], "not_applicable": [], "notes": notes.get("notes", "")}
    for d, tech, note, level in P:
        if d["id"] in claimed:
            m["checks"].append({"property": d["id"], "quick_cmd": f"bash tools/check.sh {d['id']}", "thorough_cmd": f"bash tools/check.sh {d['id']} thorough",
                "evidence_file": f"evidence/{d['id']}.json", "technique": tech, "level": level,
                "level_note": notes["level_notes"][d["id"]]})
        else:
            m["not_applicable"].append({"property": d["id"], "reason": notes.get("na", {}).get(d["id"], "check not built yet")})
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
main()
