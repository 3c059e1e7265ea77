"""The checks: which harness decides which property, and within what bounds.

A run is one entry function of a harness, executed symbolically: `slices` splits its inputs into that many independent
symbolic executions (together they cover all inputs).  tier="thorough": not in the quick check."""


def R(entry, slices=1, bounds="", **kw):
    return dict(entry=entry, slices=slices, bounds=bounds, **kw)


T = dict(tier="thorough")
NAMES = "every choice of state names out of 4 families of 10 that tempt combined or invented names to collide (joined by comma, underscore, hyphen, nothing; none, s_new, numbers, empty)"
ORD = "the iteration order of hash containers is one of 8 symbolic orders"
MODEL = "the reference automaton of the harness (boolean tables, explicit closure and reachability) states the language correctly"

CHECKS = {
    "P01": dict(file="dfa_accept.rs", runs=[
        R("vx_evaluate_2", 1, "every DFA of 2 states over 2 symbols (4 alphabets, one- and two-letter symbols, both orders), every word of at most 4 pieces out of a, b, ab, x, and the empty string"),
        R("vx_evaluate_3", 1, "the same, 3 states"),
        R("vx_stepping_2", 1, "every DFA of 2 states, every history of 3 calls of step, step_multiple and step_all"),
        R("vx_stepping_3", 1, "the same, 3 states")],
        assumptions=[MODEL], outside="more than 3 states, more than 2 symbols, longer words"),
    "P02": dict(file="nfa_accept.rs", runs=[
        R("vx_evaluate_2", 2, "every NFA of 2 states over 2 symbols with ε-moves, every word of at most 3 symbols, one of them unknown to the alphabet"),
        R("vx_evaluate_3", 3, "every NFA of 3 states over 1 symbol with ε-moves, words of at most 3 symbols"),
        R("vx_stepping_2", 2, "2 states, 2 symbols, every history of 2 calls of step, step_multiple and step_all; closure of every state"),
        R("vx_stepping_3", 3, "the same, 3 states, 1 symbol")],
        assumptions=[MODEL, ORD], outside="more than 3 states, more than 2 symbols, longer words"),
    "P03": dict(file="to_dfa.rs", runs=[
        R("vx_names", 4, NAMES),
        R("vx_to_dfa_2", 2, "every NFA of 2 states over 2 symbols with ε-moves; compared on every word of at most 6 symbols"),
        R("vx_to_dfa_3u", 3, "every NFA of 3 states over 1 symbol with ε-moves; words of at most 14 symbols"),
        R("vx_to_nfa_3", 3, "every DFA of 3 states over 2 symbols, exact structural comparison"),
        R("vx_to_dfa_3", 3, "every NFA of 3 states over 2 symbols with ε-moves; words of at most 6 symbols", cost=9, **T)],
        assumptions=[MODEL, ORD], outside="more than 3 states or 2 symbols"),
    "P04": dict(file="dfa_bool.rs", runs=[
        R("vx_combine_22", 2, "every pair of DFAs of 2 and 2 states over 2 symbols in either order of the alphabet, all four operations and an arbitrary truth table for product_construction; languages compared exactly (all words)"),
        R("vx_combine_213", 2, "2 and 1 states over 3 symbols, all 6 orders of the alphabet"),
        R("vx_combine_32", 3, "3 and 2 states over 2 symbols", cost=3),
        R("vx_invert", 1, "every DFA of 3 states over 2 symbols"),
        R("vx_alphabets", 1, "every pair of alphabets of at most 3 distinct symbols out of a, b, ab, c"),
        R("vx_names", 4, NAMES)],
        assumptions=[MODEL, ORD], outside="more states than given per run"),
    "P05": dict(file="dfa_equiv.rs", runs=[
        R("vx_equivalent_22", 2, "every pair of DFAs of 2 and 2 states over 2 symbols in either order of the alphabet"),
        R("vx_equivalent_32", 3, "3 and 2 states, 2 symbols", cost=2),
        R("vx_equivalent_33u", 3, "3 and 3 states, 1 symbol"),
        R("vx_equivalent_33", 3, "3 and 3 states, 2 symbols", time=3000, cost=9, nodes=150_000_000, **T),
        R("vx_equivalent_44u", 4, "4 and 4 states, 1 symbol", time=3000, cost=8, nodes=150_000_000, **T)],
        assumptions=[MODEL, ORD], outside="larger automata"),
    "P06": dict(file="minimize.rs", runs=[
        R("vx_minimize_3", 3, "every DFA of 3 states over 2 symbols, 8 hash orders"),
        R("vx_minimize_4", 16, "every DFA of 4 states over 2 symbols, 2 hash orders")],
        assumptions=[MODEL, ORD], outside="more than 4 states or 2 symbols; states whose distinguishing word is longer than 3"),
    "P07": dict(file="nfa_union.rs", runs=[
        R("vx_names", 4, NAMES),
        R("vx_union_22", 2, "every pair of NFAs of 2 and 2 states over 2 symbols with ε-moves, either order of the alphabet; words of at most 4 symbols"),
        R("vx_union_213", 2, "2 and 1 states, 3 symbols, all orders; words of at most 3 symbols"),
        R("vx_union_123", 1, "1 and 2 states, 3 symbols"),
        R("vx_union_32u", 3, "3 and 2 states, 1 symbol; words of at most 8 symbols"),
        R("vx_alphabets", 1, "every pair of alphabets of at most 3 distinct symbols out of a, b, ab, c"),
        R("vx_union_22w", 2, "as vx_union_22, words of at most 8 symbols", **T)],
        assumptions=[MODEL, ORD], outside="larger automata"),
    "P08": dict(file="nfa_product.rs", runs=[
        R("vx_names", 4, NAMES),
        R("vx_product_22", 2, "every pair of NFAs of 2 and 2 states over 1 symbol with ε-moves; words of at most 6 symbols"),
        R("vx_product_213", 2, "2 and 1 states, 3 symbols, all orders of the alphabet; words of at most 3 symbols"),
        R("vx_product_123", 1, "1 and 2 states, 3 symbols"),
        R("vx_alphabets", 1, "every pair of alphabets of at most 3 distinct symbols out of a, b, ab, c"),
        R("vx_product_222", 2, "2 and 2 states, 2 symbols; words of at most 3 symbols", time=2500, cost=9, **T)],
        assumptions=[MODEL, ORD], outside="larger automata"),
    "P09": dict(file="nfa_equiv.rs", runs=[
        R("vx_equivalent_22u", 2, "every pair of NFAs of 2 and 2 states over 1 symbol with ε-moves"),
        R("vx_equivalent_21", 2, "2 and 1 states, 2 symbols, either order of the alphabet"),
        R("vx_equivalent_32u", 3, "3 and 2 states, 1 symbol", cost=2),
        R("vx_equivalent_22", 2, "2 and 2 states, 2 symbols", time=3000, cost=9, nodes=150_000_000, **T)],
        assumptions=[MODEL, ORD], outside="larger automata"),
    "P10": dict(file="eps_removal.rs", runs=[
        R("vx_names", 4, NAMES),
        R("vx_remove_2", 2, "every NFA of 2 states over 2 symbols with ε-moves; words of at most 6 symbols"),
        R("vx_remove_3u", 3, "3 states, 1 symbol; words of at most 12 symbols"),
        R("vx_remove_3", 3, "3 states, 2 symbols; words of at most 4 symbols", cost=9, **T)],
        assumptions=[MODEL, ORD], outside="larger automata"),
    "P11": dict(file="reach.rs", runs=[
        R("vx_dfa_3", 3, "every DFA of 3 states over 2 symbols"),
        R("vx_dfa_4", 4, "4 states, 2 symbols"),
        R("vx_dfa_5u", 5, "5 states, 1 symbol"),
        R("vx_nfa_2", 2, "every NFA of 2 states over 2 symbols with ε-moves"),
        R("vx_nfa_3u", 3, "3 states, 1 symbol"),
        R("vx_nfa_4u", 4, "4 states, 1 symbol")],
        assumptions=[MODEL, ORD], outside="larger automata"),
    "P12": dict(file="words.rs", runs=[
        R("vx_words_2", 2, "every NFA of 2 states over 2 symbols without ε-moves: the first 5 words; then whether the enumeration ends"),
        R("vx_words_3u", 3, "3 states, 1 symbol: the first 7 words"),
        R("vx_spelling", 2, "symbols of one and two bytes: the three iterators agree with each other"),
        R("vx_words_3", 3, "3 states, 2 symbols: the first 4 words", time=2500, cost=9, **T)],
        assumptions=[MODEL, ORD], outside="NFAs with ε-moves (the iterators require their removal), words after the given number"),
    "P16": dict(file="regex_parse.rs", runs=[
        R("vx_parse_4", 1, "every text of at most 4 characters out of a b . ( ) | * + \\ ε ∅ space, tab, no-break space, é as two code points, a flag as two code points"),
        R("vx_parse_5", 1, "every text of at most 5 characters out of a ( ) | * + \\ ε ∅ space"),
        R("vx_parse_6", 1, "the same, 6 characters"),
        R("vx_parse_7", 1, "the same, 7 characters", cost=3),
        R("vx_clusters", 1, "every text of at most 6 characters out of ( ) | * \\ é tab", cost=3),
        R("vx_blanks", 1, "every text of at most 6 characters out of a ( \\ space, tab, no-break space"),
        R("vx_parse_8", 1, "8 characters", cost=9, **T)],
        assumptions=["the recursive-descent parser of the harness states the grammar correctly"],
        outside="longer texts, other characters, reserved characters followed by combining characters"),
    "P17": dict(file="regex_nfa.rs", runs=[
        R("vx_to_nfa_1", 1, "every expression of height 1 over the characters a, b; every word of at most 3 symbols out of a, b, x"),
        R("vx_to_nfa_2", 1, "every expression of height 2 (binary sequences and choices, repetition)"),
        R("vx_wide_0", 1, "every sequence and choice of 0 to 4 characters; words of at most 4 symbols"),
        R("vx_wide_1", 1, "every sequence and choice of 0 to 3 expressions of height 1; words of at most 3 symbols", cost=5),
        R("vx_formed_2", 1, "well-formedness: height 2"),
        R("vx_formed_3", 1, "well-formedness: height 3"),
        R("vx_formed_w", 1, "well-formedness: 0 to 3 expressions of height 1"),
        R("vx_to_nfa_3", 1, "every expression of height 3; words of at most 3 symbols", time=3000, cost=9, nodes=150_000_000, **T)],
        assumptions=["the matrix matcher of the harness states what an expression describes", ORD],
        outside="larger expressions, longer words, more than two characters"),
    "P18": dict(file="regex_print.rs", runs=[
        R("vx_letters", 1, "every expression of height 2 over a, b, ε, ∅; languages compared on every word of 3 symbols and its factors"),
        R("vx_reserved", 1, "the same with the characters ( ) | * + \\ as symbols"),
        R("vx_special", 1, "the same with the characters ε ∅ a as symbols"),
        R("vx_blanks", 1, "the same with space, tab and a as symbols"),
        R("vx_clusters", 1, "the same with é as two code points, e, the accent alone, and ( with an accent as symbols"),
        R("vx_wide", 1, "every sequence and choice of 1 to 3 expressions of height 1 over a, b"),
        R("vx_widest", 1, "every sequence and choice of 1 to 4 symbols out of \\, e, an accent, no-break space, a regional indicator"),
        R("vx_letters3", 1, "every expression of height 3 over a, b", time=3000, cost=9, nodes=150_000_000, **T)],
        assumptions=["the matrix matcher of the harness states what an expression describes"],
        outside="larger expressions; symbols of the Unicode class Prepend (they join whatever follows, no text keeps them apart); empty sequences and choices (no text denotes them, the parser never makes them)"),
    "P14": dict(file="fa_text.rs", runs=[
        R("vx_dfa_free", 1, "every text of 6 pieces out of a, ->, *, space, line break, #, {, ε"),
        R("vx_dfa_long", 1, "every text of 9 pieces out of a, ->, space, line break, ε"),
        R("vx_dfa_after", 1, "a head and every text of at most 7 pieces out of a, →, *, tab, CR LF, #, {, eps, å"),
        R("vx_dfa_row", 1, "a head and a row with every combination of optional blanks, comments, markers, joined or separated"),
        R("vx_dfa_rows", 1, "the same with two rows"),
        R("vx_nfa_free", 1, "every text of 6 pieces out of a, ->, space, line break, #, {, }, ε"),
        R("vx_nfa_long", 1, "every text of 10 pieces out of a, space, line break, {, }"),
        R("vx_nfa_after", 1, "a head and every text of at most 7 pieces out of a, →, *, tab, CR LF, #, {, }, eps"),
        R("vx_nfa_row", 1, "a head and a row with every combination of optional blanks, comments, markers, joined or separated"),
        R("vx_nfa_sets", 1, "a row with two sets"),
        R("vx_nfa_rows", 1, "two rows")],
        assumptions=["the tokenizer and row grammar of the harness state the format correctly"],
        outside="longer texts, a carriage return alone, white space other than space and tab"),
    "P13": dict(file="table.rs", runs=[
        R("vx_dfa_2", 2, "every DFA of 2 states over 2 symbols, names of one and two letters, symbols of one to three bytes"),
        R("vx_dfa_3", 3, "the same, 3 states and 1 symbol", cost=2),
        R("vx_nfa_2", 2, "every NFA of 2 states over 1 symbol with ε-moves"),
        R("vx_nfa_1", 1, "1 state"),
        R("vx_nfa_22", 2, "2 states, 2 symbols"),
        R("vx_nfa_0", 2, "no symbol but ε"),
        R("vx_nfa_2n", 2, "2 states, more names", cost=4, **T)],
        assumptions=[ORD],
        outside="larger automata; names and symbols that the text format cannot write (empty, with white space, #, braces, or one of ε, eps, ->, →, *); DFAs over no symbol (the format has no rows for them)"),
    "P15": dict(file="valid.rs", runs=[
        R("vx_dfa_2", 1, "every list of at most 2 states (2 names, targets also unknown), at most 2 symbols out of 2, at most 3 transitions per state"),
        R("vx_dfa_3", 1, "at most 3 states (3 names), 2 symbols out of 3, 2 transitions"),
        R("vx_dfa_31", 1, "at most 3 states, 1 symbol, 2 transitions"),
        R("vx_dfa_33", 1, "at most 3 states, 3 symbols out of 4, 4 transitions"),
        R("vx_nfa_2", 1, "at most 2 states (2 names), at most 2 of the symbols and ε, at most 3 sets of at most 2 targets"),
        R("vx_nfa_3", 1, "at most 2 states (3 names), 3 symbols or ε, 3 sets"),
        R("vx_nfa_31", 1, "at most 3 states, 1 symbol or ε, 1 set"),
        R("vx_nfa_33", 1, "at most 3 states, 3 symbols or ε, 3 sets")],
        assumptions=[ORD], outside="larger tables"),
    "P19": dict(file="graphemes.rs", runs=[
        R("vx_dfa_3", 16, "every DFA of 3 states over each of 16 alphabets of symbols of one to four code points, every text of at most 6 characters out of one of three families of 7: letters, combining accent, CR, LF, regional indicator; spacing mark, prepended mark, joiner, pictograph; Hangul"),
        R("vx_dfa_3w", 16, "the same, 8 characters", **T),
        R("vx_nfa_2", 16, "every NFA of 2 states with ε-moves, the same alphabets, texts of at most 5 characters"),
        R("vx_nfa_2w", 16, "the same, 7 characters", **T),
        R("vx_only", 3, "every alphabet of at most 2 symbols of at most 4 of these characters")],
        assumptions=[MODEL, "the segmentation of the harness states the rules of Unicode for these characters", ORD],
        outside="other characters (syllables of Indian scripts), longer texts"),
    "P20": dict(file="cli_enum.rs", crate="harness_cli", runs=[
        R("vx_dfa_2", 2, "file with any DFA of 2 states over 2 symbols: the first 4 words"),
        R("vx_dfa_3u", 3, "3 states, 1 symbol: the first 4 words"),
        R("vx_nfa_2u", 2, "file with any NFA of 2 states over 1 symbol with ε-moves: the first 4 words"),
        R("vx_nfa_2", 2, "2 states, 2 symbols: the first 3 words"),
        R("vx_regex_1", 1, "file with any expression of height 1 over 2 symbols: the first 3 words"),
        R("vx_regex_2", 1, "expression of height 2", time=600),
        R("vx_expression_1", 1, "expression of height 1 given as an argument")],
        assumptions=[MODEL, ORD],
        outside="later words; larger automata and expressions; the log messages (arguments: P28)"),
    "P21": dict(file="cli_binary.rs", crate="harness_cli", runs=[
        R("vx_dd_22", 2, "files with any two DFAs of 2 states over 1 symbol; compared on all words that can tell them apart"),
        R("vx_dd_33", 3, "3 and 3 states, 1 symbol; words of at most 8 symbols"),
        R("vx_dd_222", 2, "2 and 2 states, 2 symbols; words of at most 4 symbols"),
        R("vx_dn_22", 2, "DFA and NFA with ε-moves, 2 states, 1 symbol"),
        R("vx_nd_212", 2, "NFA of 2 states and DFA of 1, 2 symbols"),
        R("vx_nn_22", 2, "two NFAs of 2 states, 1 symbol"),
        R("vx_rd_1", 2, "expression of height 1 and DFA of 2 states over 2 symbols"),
        R("vx_nr_1", 2, "NFA of 2 states and expression of height 1 over 1 symbol"),
        R("vx_rr_1", 1, "two expressions of height 1 over 2 symbols"),
        R("vx_more_ddd", 2, "--enumerate 0 to 4 and comparison with a third DFA"),
        R("vx_more_dnr", 2, "the same with NFAs"),
        ],
        assumptions=[MODEL, ORD],
        outside="larger automata and expressions; the log messages (arguments: P28)"),
    "P22": dict(file="cli_equiv.rs", crate="harness_cli", runs=[
        R("vx_dd_33", 3, "files with any two DFAs of 3 states over 1 symbol; compared on all words that can tell them apart"),
        R("vx_dd_222", 2, "2 and 2 states, 2 symbols"),
        R("vx_dn_22", 2, "DFA and NFA with ε-moves, 2 states, 1 symbol"),
        R("vx_nd_212", 2, "NFA of 2 states and DFA of 1, 2 symbols"),
        R("vx_nn_22", 2, "two NFAs of 2 states, 1 symbol"),
        R("vx_rd_1", 9, "expression of height 1 and DFA of 3 states over 2 symbols"),
        R("vx_nr_1", 2, "NFA of 2 states and expression of height 1 over 1 symbol"),
        R("vx_rr_1", 1, "two expressions of height 1 over 2 symbols"),
        R("vx_min_dd", 3, "--minimized: two DFAs of 3 states, 1 symbol"),
        R("vx_min_dd2", 2, "--minimized: two DFAs of 2 states, 2 symbols"),
        R("vx_min_nd", 3, "--minimized: an NFA of 2 states and a DFA of 3"),
        R("vx_min_rd", 3, "--minimized: an expression of height 1 and a DFA of 3 states"),
        R("vx_several", 1, "0 to 3 files: DFAs, bad files, missing ones, in any order"),
        R("vx_failures", 1, "files that are no automata, of each type"),
        ],
        assumptions=[MODEL, ORD],
        outside="larger automata and expressions; the log messages (arguments: P28)"),
    "P23": dict(file="cli_test.rs", crate="harness_cli", runs=[
        R("vx_lines_d", 2, "any DFA of 2 states over 2 symbols; a file of at most 5 pieces out of a, b, x, line feed, CR LF, and a second file of at most 1; mode lines"),
        R("vx_lines_n", 2, "any NFA of 2 states over 1 symbol with ε-moves; the same files"),
        R("vx_lines_r", 1, "any expression of height 1; files of at most 4 pieces and 1"),
        R("vx_files_d", 2, "mode files: DFA"),
        R("vx_files_n", 2, "mode files: NFA"),
        R("vx_files_r", 1, "mode files: expression"),
        ],
        assumptions=[MODEL, ORD],
        outside="longer test files, symbols of several characters; larger automata and expressions; the log messages (arguments: P28)"),
    "P24": dict(file="cli_path.rs", crate="harness_cli", runs=[
        R("vx_path_4", 1, "every path of at most 4 pieces out of a, b, /, ., .., é; any limit or none"),
        R("vx_path_6", 1, "6 pieces"),
        ],
        assumptions=[],
        outside="longer paths, Windows paths"),
    "P28": dict(file="cli_main.rs", crate="harness_cli", runs=[
        R("vx_enumerate_regex", 1, "enumerate-regex with every combination of: --less-logs or not; --out with a file that is new, one that exists or one that cannot be created, or none; the amount 0 to 2 or none; 4 spellings of each option (long or short, value attached or not), options before or after the names; 2 expressions"),
        R("vx_enumerate", 4, "the same for enumerate: a type or none, amount 0 to 3 or none, 4 files", loop=100000),
        R("vx_test_file", 4, "test-file: type, mode lines, files or none, 4 automata, 0 to 2 files to test", loop=100000),
        R("vx_equivalence", 3, "equivalence: --in-type, --type, --minimized, --bool, --path-length 0 to 2 or none, 3 automata, 1 to 3 files", loop=100000),
        R("vx_binary", 12, "the four set commands: both types, --minimized, --enumerate 0 to 2 or none, --compared-type with a third file or not, 3 by 4 pairs of files", loop=100000),
        R("vx_rejected", 5, "one thing wrong: a type or number that is none (5 each), an option the tool does not have (4), too few or too many names, a value for a flag, a command the tool does not have (4) or none"),
        ],
        assumptions=[MODEL, "standard output, standard error and files are in memory"],
        outside="other files and expressions (their contents are those of P20 to P24), several options wrong at once, --help and --version, the wording of messages, the process's exit code"),
    "P25": dict(file="draw_ascii.rs", crate="harness_draw", runs=[
        R("vx_dfa_21", 12, "every DFA of 2 states over 1 symbol, 3 sets of symbols and 2 of names"),
        R("vx_dfa_22", 12, "2 symbols"),
        R("vx_dfa_31", 18, "3 states, 1 symbol"),
        R("vx_dfa_32", 18, "3 states, 2 symbols"),
        R("vx_dfa_41", 24, "4 states, 1 symbol"),
        R("vx_dfa_33", 18, "3 states, 3 symbols", **T),
        R("vx_nfa_21", 12, "every NFA of 2 states over 1 symbol and ε"),
        R("vx_nfa_22", 12, "2 symbols and ε"),
        R("vx_nfa_31", 18, "3 states, 1 symbol and ε"),
        R("vx_nfa_32", 18, "3 states, 2 symbols and ε", time=3000, cost=9, **T),
        ],
        assumptions=[ORD],
        outside="larger automata, names of characters that are wider or narrower than a column (combining, CJK); labels longer than the room between two arrows are cut off by the next label"),
    "P26": dict(file="draw_canvas.rs", crate="harness_draw", runs=[
        R("vx_dfa_21", 6, "every DFA of 2 states over 1 symbol, 3 sets of options"),
        R("vx_dfa_22", 6, "2 symbols"),
        R("vx_dfa_31", 9, "3 states, 1 symbol"),
        R("vx_dfa_32", 9, "3 states, 2 symbols"),
        R("vx_nfa_21", 6, "every NFA of 2 states over 1 symbol and ε"),
        R("vx_nfa_22", 6, "2 symbols and ε"),
        R("vx_dfa_41", 12, "4 states, 1 symbol"),
        R("vx_dfa_33", 9, "3 states, 3 symbols", loop=40000),
        R("vx_dfa_42", 12, "4 states, 2 symbols", loop=40000, **T),
        R("vx_nfa_31", 9, "3 states, 1 symbol and ε", loop=40000),
        R("vx_nfa_32", 9, "3 states, 2 symbols and ε", loop=40000, **T),
        ],
        assumptions=[ORD],
        outside="larger automata; the canvas and egui back ends, which hand the calls on to their libraries; the option that leaves out the heads in the middle"),
    "P27": dict(file="wasm.rs", crate="harness_wasm", runs=[
        R("vx_history_4", 12, "every history of 4 calls: load (3 DFAs, 3 NFAs, 3 expressions, equal in pairs), convert, minimize, delete, compare, with any handle given out so far or one that never was; then every handle is read"),
        R("vx_history_5", 3, "5 calls, the first of which loads something", cost=3),
        R("vx_history_6", 36, "6 calls, the first of which loads something", time=3000, cost=9, **T),
        ],
        assumptions=[],
        outside="longer histories, larger automata, text of errors; the glue that wasm-bindgen makes, and drawing on a canvas"),
}
