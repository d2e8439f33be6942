#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe, "hook_needed": hook}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    P.append(d)

L, PA, TK, TR, F, PR, M, LIB = ("src/parser/lexing.rs", "src/parser/parsing.rs", "src/parser/tokens.rs",
    "src/parser/tree.rs", "src/formatter/formatting.rs", "src/formatter/printing.rs", "src/main.rs", "src/lib.rs")
SAMPLE = "The one style test compares a single sample file with a golden output, and the unit tests check a handful of fragments. "

prop("C01", "Formatting preserves the program's token sequence",
 "For every source that is accepted, the formatted text consists of exactly the same sequence of language tokens - keywords, names, literals, operators and punctuation, each with byte-identical text - as the source. Nothing is added, dropped, duplicated, merged, split, reordered or rewritten; only whitespace and comments may differ between tokens.",
 ["programs"], "every accepted Modelica source, whatever constructs, identifiers, literals, comments and line layout it uses",
 SAMPLE + "Token loss or corruption hides in any of ~75 grammar rules combined with any literal or layout, which no golden file can enumerate.",
 [F, PR, L, TR], [("every token is pushed as a text marker", F + ": handle_token"), ("tree replays every token in order", TR + ": build_tree"), ("printer concatenates marker texts", PR + ": print")],
 ["formatted text returned by the library", "file written by the command line tool"])

prop("C02", "Comments next to line starts survive formatting verbatim",
 "For every accepted source, each comment standing directly before a token that starts a line of the output (file header, before declarations, equations, statements, sections, items of a wrapped list, trailing remarks at line ends) or after the last token of the file appears in the output exactly once, with unchanged text, in source order, and between the same two tokens. Every comment in the output comes from the source in this way: none is invented, duplicated, altered or moved to other code, and a comment never swallows code. (Comments buried between two tokens that stay on one output line are dropped by design.)",
 ["programs"], "every accepted source and every placement, number, kind and content of comments in it",
 SAMPLE + "They contain about fifteen comments in a few positions; comments can be placed before any token, in any number and of either kind.",
 [F, L], [("pending comments are emitted when a line break is made", F + ": Formatter::handle_break, comments_before"), ("comments are collected with their position in the token order", L + ": generate_token"), ("comments in unbroken gaps are discarded deliberately", F + ": handle_token")],
 ["comment sequence of source and formatted text"])

prop("C03", "Formatted text is a fixed point",
 "Formatting is stable: for every accepted source the formatted text is itself accepted, and formatting it again reproduces it byte for byte. Consequently checking mode passes on any file that was just formatted.",
 ["programs"], "every accepted source, with any manual wrapping, blank lines and comments",
 SAMPLE + "No test formats its own output again, and instability shows only for particular combinations of wrapping, descriptions, comments and blank lines.",
 [F, PR, L, M], [("wrapping is decided from source line numbers and forced wraps", F + ": is_multiline / contains decisions"), ("blank lines are normalised", F + ": handle_break"), ("check mode compares output with source", M + ": format_files")],
 ["second formatting of the formatted text", "exit status and report of check mode after formatting"])

prop("C04", "Any text is handled: no crash, hang or blow-up",
 "For any UTF-8 text whatsoever of ordinary size and nesting - valid, truncated, mangled or random - processing terminates promptly with bounded memory, and never panics, aborts or overflows. The result is either at least one diagnostic or a formatted text. (Nesting of a few hundred levels, argument and array lists of a few thousand items and any number of other items - classes, elements, equations, comments, unexpected characters - in a file of up to a megabyte are ordinary.)",
 ["inputs"], "every UTF-8 string up to ordinary file sizes and nesting depths: truncations, mutations, token soups, unicode, control characters",
 "Tests feed well-formed snippets and two erroneous ones; error recovery, position bookkeeping and indentation arithmetic have states only reached by malformed or odd input.",
 [L, PA, TR, F, PR], [("lexer reports unexpected characters instead of failing", L + ": generate_error"), ("parser recovers with error nodes and a progress guard", PA + ": advance_with_error, nth, error"), ("tree building consumes every event", TR + ": build_tree"), ("indent counter", PR + ": print_marker")],
 ["panic/abort/exit status", "CPU time and allocation volume per input", "diagnostics list"])

prop("C05", "Every grammatical Modelica source is accepted and formatted",
 "Every text that is a stored definition according to the Modelica concrete syntax is accepted without diagnostics and yields formatted text, whatever combination of constructs, white space, comments and line ends it uses. In particular the formatter's own output is always accepted again.",
 ["programs"], "every derivation of the Modelica grammar (appendix A of the language specification) with every lexical form and layout",
 SAMPLE + "Each grammar rule is exercised in one or two shapes; optional parts and their combinations are not.",
 [PA, L, F], [("recursive descent over the grammar", PA), ("keyword and literal recognition", L + ": lex_nondigit, lex_numeral, lex_string, lex_qident"), ("the formatter handles each node type", F)],
 ["diagnostics list", "success of formatting"])

prop("C06", "Text that is not valid Modelica is rejected",
 "A text that does not conform to the Modelica concrete syntax always produces at least one diagnostic; tolerated are only that any simple expression may stand as an equation, that `:=` may stand for `=` in a modification, and that the name after `end` need not repeat the class name. It is therefore never silently reformatted: no stray, missing, duplicated or swapped token, unclosed string, comment or quoted name, or unexpected character is let through.",
 ["inputs"], "every text, in particular every small corruption of a valid program",
 "Tests contain three rejected snippets. Acceptance of a wrong token depends on the parser state at that token, for which there are thousands of combinations.",
 [PA, L], [("expected-token checks", PA + ": expect, advance_with_error"), ("lexical errors", L + ": generate_error"), ("errors of both stages are merged", "src/parser.rs: parse")],
 ["diagnostics list compared with an independent recogniser of the grammar"])

prop("C07", "Diagnostics point at the problem",
 "Every diagnostic reads name:line:column: message, with the given source name and the 1-based line and character column of an existing token or character of the text. A lexical error carries the exact position at which the offending character, string, comment or quoted name starts; the first syntax error of a text without lexical errors lies at the first token at which the text stops being a prefix of any valid program or one token before it - never after it - or at the last token if the text ends too early. The message names the token or character found at that place, or says that the text ends there.",
 ["inputs"], "every rejected text, including multi-line and non-ASCII text before the error",
 "One unit test checks one message position on a one-line ASCII source.",
 [L, PA], [("position tracking", L + ": next, jump"), ("message formatting", L + ": generate_error; " + PA + ": error, expect, advance_with_error")],
 ["diagnostic strings"])

prop("C08", "Tokens carry exact text, kind, order and position",
 "For every text without lexical errors, the scanned tokens and comments, merged by their running index, cover the text completely: they occur in order, without overlap, only whitespace lies between them, and each one's text is exactly the slice of the source between its start and end byte positions. Recorded start and end lines and columns (1-based, counted in characters) match those places, and each lexeme is the longest possible one with the class (keyword, name, number, string, operator, comment) the Modelica lexical rules give it.",
 ["inputs"], "every text: all keywords and near-keywords, numerals, escapes, operators in every adjacency, comments, unicode and line-end styles",
 "Four unit tests scan four short sources and look at a few fields.",
 [L, TK], [("character-wise scanning with position bookkeeping", L + ": Lexer::next, generate_token, lex_*"), ("token record", TK + ": Token, Position")],
 ["token and comment lists returned by parsing"],
 state=[("Token.idx/start/end", "order and place of each lexeme in the source", TK)])

prop("C09", "The parse tree is the grammar derivation of the source",
 "For every accepted source the parse tree holds each token exactly once in source order, has the requested root, and nests the tokens in grammar constructs exactly as the Modelica grammar derives them, including operator precedence and which construct each optional part, description or annotation belongs to. It contains no error nodes and no empty nodes.",
 ["programs"], "every accepted source",
 "Two unit tests look at one description fragment; the golden file constrains the tree only through layout.",
 [PA, TR, "src/parser/events.rs", "src/parser/syntax.rs"], [("enter/advance/exit events per rule", PA), ("replay of events into a tree", TR + ": build_tree")],
 ["tree returned by the library"])

prop("C10", "Horizontal spacing follows the style guide",
 "Between two consecutive tokens on one output line there is either nothing or exactly one space, as the style guide says: one space around binary operators, = and :=, after commas, matrix semicolons and not, and between words; none before commas, semicolons and closing brackets, after opening brackets, around dots in names, after unary signs, or before an opening bracket that belongs to a name or call (a comma that leaves out an item of an output list still has its space, and `within` without a name has one before its semicolon). The decision depends only on the tokens and the constructs they belong to, never on the spacing of the source.",
 ["programs"], "every accepted source, every pair of adjacent tokens in every construct",
 SAMPLE + "It shows each token pair in few contexts and the tool decides spacing in ~75 separate places.",
 [F, PR, "code-style.md"], [("space markers around tokens", F), ("style rules", "code-style.md: Horizontal spacing")],
 ["gaps between tokens in the formatted text"])

prop("C11", "Mandatory line breaks and section blank lines are always there",
 "In every formatted text each class definition, element, equation, statement, description string, annotation, constraining clause, enumeration item with descriptions, block keyword (else, elseif, elsewhen, end ...) and section keyword starts a line of its own as the style guide lists, and section keywords, the beginning and end of a class body and class annotations are set off by exactly one blank line. No other line breaks appear except those that reflect manual wrapping, no line ends in white space, and there are never two blank lines in a row.",
 ["programs"], "every accepted source, however its own lines are broken",
 SAMPLE + "Which construct follows which (empty sections, annotations after anything, nested blocks) has unbounded combinations.",
 [F, PR, "code-style.md"], [("line and blank markers", F + ": handle_break call sites"), ("style rules", "code-style.md: Automatic wrapping, Automatic blank lines")],
 ["line structure of the formatted text"])

prop("C12", "Manual wrapping is honoured consistently",
 "A bracketed list (call arguments, modifications, arrays, subscripts, enumeration, import and declaration lists, connect) that spans several source lines, or must because of a description or constraining clause in it, is broken at every one of its items, and so is every bracketed list around it, while a list written on one line stays on one line. A wrap at a binary operator between two operands is kept and placed before that operator, no other operator of the expression is wrapped, and an if-expression is broken at all its branches exactly if it spans several source lines.",
 ["programs"], "every accepted source and every way of breaking its lines",
 SAMPLE + "Wrapping depends on the source position of each bracket and operand; the sample fixes one choice of positions.",
 [F, "code-style.md"], [("multi-line decisions from source lines", F + ": is_multiline locals, break_or_space"), ("forced wraps", F + ": contains(Description...)"), ("style rules", "code-style.md: Manual wrapping")],
 ["line breaks between tokens of source and formatted text"])

prop("C13", "Indentation reflects nesting and nothing else",
 "Every line of formatted text is indented by two spaces per level, the level being determined by the constructs that enclose the line's first token: class bodies, descriptions and annotations, wrapped lists, blocks and branches each add their level once, an expression adds one level for its wraps however many there are, and section keywords and closing keywords line up with their construct. No construct leaves the indentation of what follows it changed.",
 ["programs"], "every accepted source, with any nesting and wrapping",
 SAMPLE + "An unbalanced level or a wrong level shows only for particular nestings and wrap positions.",
 [F, PR, "code-style.md"], [("indent and dedent markers", F), ("indent counter", PR + ": print_marker")],
 ["leading white space of each line of formatted text"],
 state=[("indent", "current nesting level of the printer", PR)])

prop("C14", "Optional blank lines are kept, and collapsed to one",
 "Between two items of a sequence in which blank lines are optional (classes of a file, elements, equations, statements, block contents and block keywords, and the comments around them) the output has one blank line exactly if the source had at least one blank line at that place, and none otherwise. Where the style guide forbids blank lines, source blank lines directly before code vanish; those before a comment line of its own are kept there too.",
 ["programs"], "every accepted source and every number of blank lines at every place, including around comments",
 SAMPLE + "It samples few places with no or one blank line.",
 [F], [("blank decision from line distances", F + ": handle_break with Legal/Illegal blanks")],
 ["blank lines between corresponding tokens and comments of source and formatted text"])

prop("C15", "Comments keep their place relative to code lines",
 "A preserved comment that stood on the same source line as the end of the preceding token stays on that token's output line, separated by one space; every other preserved comment gets a line of its own, indented like the code line that follows it (a comment that ends the file like the top level). A line comment is never joined with code after it.",
 ["programs"], "every accepted source with comments before any line-starting token, after code, in groups and in multi-line form",
 SAMPLE + "It has a few comments in a few positions.",
 [F], [("inline comments versus comment lines", F + ": comments_before, handle_break")],
 ["position of each comment in the formatted text"])

prop("C16", "Output is independent of horizontal white space and line-end style",
 "Two sources that differ only in spaces, tabs, indentation, trailing white space, CR LF versus LF line ends outside of tokens, surplus blank lines, or blank lines at the start and end of the file are formatted to the same text, or both rejected. Formatting depends on nothing but the text: repeated, interleaved and concurrent calls in one process give identical results and diagnostics, whatever the source name.",
 ["programs", "histories"], "every source, every re-spacing of it that keeps its line structure, every order of calls",
 "Each sample exists in one spacing only and is formatted once.",
 [L, F], [("white space is discarded by the scanner", L + ": lex_space"), ("layout decided from line numbers only", F)],
 ["formatted texts of re-spaced variants and repeated calls"])

prop("C17", "Formatting is compositional",
 "A file of several class definitions is formatted as its definitions are on their own, one after the other, and a class nested in a package is formatted as on its own, shifted one level to the right. The formatting of a class, section or item is not affected by what its neighbours contain.",
 ["programs"], "every accepted source assembled from accepted parts, in any order and nesting",
 SAMPLE + "Interference between neighbouring definitions needs specific pairs.",
 [F, PR, PA], [("formatter state carried across nodes", F + ": Formatter{comments, prev_tok, prev_line}"), ("indent counter", PR)],
 ["formatted text of a composition compared with the formatted texts of its parts"])

prop("C18", "Files with problems are left alone and reported; the rest is processed",
 "A run of the command line tool over any batch of files never changes a file that has syntax errors, is not UTF-8, cannot be read or does not have the .mo suffix; each such file is reported by name and makes the exit status 1. All other files of the batch are formatted exactly as if they were processed alone, whatever their order, and without problems the exit status is 0.",
 ["inputs", "histories"], "every batch of valid, invalid, unreadable, non-UTF-8, wrongly named and missing files in every order, named directly or found in directories",
 "No test runs the command line tool at all.",
 [M], [("per-file result handling and exit code", M + ": format_files"), ("suffix and read errors", M + ": read_file, is_modelica")],
 ["file contents and metadata before and after", "exit status, standard output and error"])

prop("C19", "Check mode changes nothing and tells the truth",
 "With --check no file is created, modified, touched or deleted. A file is reported as passed exactly if formatting it would leave it byte for byte unchanged and as failed if formatting would change it, and the exit status is 0 exactly if every file passed.",
 ["inputs", "histories"], "every batch of files: already formatted, nearly formatted (one byte off, line-end or final newline differences), unformatted, erroneous",
 "No test runs check mode.",
 [M], [("comparison of output and source", M + ": format_files (check branch)")],
 ["exit status, per-file report, file system snapshot including timestamps"])

prop("C20", "Exactly the Modelica files below the given paths are processed",
 "Given directories and files, the tool processes every file with the .mo suffix at any depth below the directories and every named .mo file, and no other file; symbolic links are followed. Everything else keeps its content and metadata, nothing is created, renamed or removed, and processed files keep their name, permissions and identity.",
 ["configurations", "inputs"], "every directory tree (depth, hidden and odd names, look-alike suffixes, empty and .mo-named directories, links) and argument combination",
 "No test walks a directory.",
 [M], [("recursive walk", M + ": get_files_from_dir"), ("suffix test", M + ": is_modelica"), ("in-place write", M + ": write_file")],
 ["file system snapshot before and after"])

prop("C21", "The tool writes exactly the library's text plus one newline",
 "For every accepted file the command line tool leaves in the file exactly the library's formatted text followed by one newline, in any build profile. The result does not depend on the path spelling, working directory, environment, other arguments, repetition, or what the file name is.",
 ["inputs", "configurations"], "every accepted file, debug and optimised builds, path spellings, batch compositions",
 "No test runs the binary; library tests run in one profile.",
 [M, LIB], [("output assembly and write", M + ": format_files, write_file"), ("library entry", LIB + ": pretty_print")],
 ["file bytes written by each build compared with the library result"])

prop("C22", "I/O faults are contained, reported and do not corrupt files",
 "If opening, reading or writing a file, or opening or reading a directory, fails or is interrupted during a run, the run ends with a non-zero exit status and a message naming the path, and every other file of the batch is still processed as usual. A file whose processing failed keeps its previous content or has its complete formatted content; short and interrupted reads and writes are retried and go unnoticed.",
 ["fault_sequences", "crash_points"], "every system call of a run that touches the given files, each failing with each applicable error, short count, interruption or kill",
 "Tests never run the tool, and faults do not occur on their own.",
 [M], [("read errors become per-file reports", M + ": read_file, format_files"), ("write errors", M + ": write_file"), ("directory errors", M + ": get_files_from_dir")],
 ["injected fault log, file contents, exit status, standard error"])

prop("C23", "Every grammar entry point works on fragments",
 "Parsing can start at any grammar construct: every text derived from that construct is accepted there, is formatted with the same token sequence and laid out by the same rules as inside a file, and is stable under reformatting. A text that is not derived from the construct - including an empty text where something is required, or surplus text after a valid fragment - yields a diagnostic, and no text makes parsing panic.",
 ["inputs", "programs"], "every construct of the grammar as a start symbol and every text",
 "Unit tests start at ten of the ~75 constructs with one or two texts each and never format most of them.",
 [PA, F, TR, LIB], [("dispatch on the start rule", PA + ": Parser::parse; " + F + ": format"), ("tree completeness assertions", TR + ": build_tree")],
 ["diagnostics and formatted text per entry point"])

prop("C24", "Cost grows proportionally to the size of the source",
 "Processing effort (instructions executed and memory allocated) grows at most proportionally, up to a small factor, with the length of the source for sources of bounded nesting - many classes, elements, equations, comments, blank lines, long lists, long expressions, long tokens, or many errors. There is no input shape of bounded nesting with quadratic or worse cost.",
 ["inputs"], "every repeated pattern of source text and every repetition count within ordinary file sizes",
 "Tests use files of at most a few hundred lines and measure nothing.",
 [L, PA, TR, F, PR], [("single pass scanning, parsing, tree building and printing", "src/parser/*.rs, src/formatter/*.rs"), ("parser progress guard", PA + ": lifes")],
 ["instruction counts and allocated bytes for growing repetitions"])

prop("C25", "Options and usage errors never touch files",
 "Help and version requests print their text on standard output and exit with status 0; a missing path argument or an unknown option in first position prints an explanation on standard error and exits with status 1. In none of these cases is any file named in the arguments read or changed, and an option word that appears after the first path is treated as a path and reported as such.",
 ["inputs", "configurations"], "every argument vector combining options, unknown options and existing files",
 "No test runs the command line tool.",
 [M], [("argument dispatch", M + ": main")],
 ["exit status, output streams, file system snapshot"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
