#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the lists below (run by hand; the results are committed)."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS

D, N, X, P, F, T_ = "dandy/src/dfa/mod.rs", "dandy/src/nfa/mod.rs", "dandy/src/regex/mod.rs", "dandy/src/parser/regex.rs", "dandy/src/parser/fa.rs", "dandy/src/table/mod.rs"
TESTS = "The unit tests look at a handful of fixed automata and expressions, and the property tests compare a few random ones (" \
        "one hash seed and one drawing each); "


def prop(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    r = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if observe:
        r["anchors"]["observe_at"] = observe
    if hook:
        r["anchors"]["hook_needed"] = hook
    return r


PROPS = [
    prop("P01", "A DFA accepts exactly the words its transition table leads to acceptance",
         "For every DFA and every sequence of symbols, acceptance is that of the state its transition table leads to from the initial state, whether the word is given at once or symbol by symbol through an evaluator. "
         "A symbol outside the alphabet makes the word rejected for good: every later question to that evaluator says rejected and no current state. "
         "The successors an evaluator offers are exactly one per symbol of the alphabet, in the order of the alphabet.",
         ["inputs", "histories"], "every DFA, every alphabet (also of symbols of several characters), every word, every history of evaluator calls, symbols known and unknown",
         TESTS + "no test feeds an unknown symbol in the middle of a word, or mixes the calls of the evaluator.",
         ["dandy/src/dfa/eval.rs", D], [("DfaEvaluator::step, step_multiple, step_all", "dandy/src/dfa/eval.rs"), ("Dfa::accepts", D)]),
    prop("P02", "An NFA accepts exactly the words some path of ε-moves and symbols accepts",
         "For every NFA with ε-moves and every sequence of symbols, the word is accepted exactly if some path from the initial state, taking ε-moves freely before, between and after the symbols, ends in an accepting state, at once or through an evaluator. "
         "The current states of an evaluator are exactly the states such paths reach, and the closure of a state is exactly the set of states its ε-moves reach. "
         "A symbol outside the alphabet makes the word rejected.",
         ["inputs", "histories"], "every NFA (ε-cycles, dead ends, several targets), every word, every history of evaluator calls, every iteration order of the sets of states",
         TESTS + "ε-cycles and ε-chains whose order of exploration matters are not among them.",
         ["dandy/src/nfa/eval.rs", N], [("NfaEvaluator::step and closure of the result", "dandy/src/nfa/eval.rs"), ("Nfa::closure", N)]),
    prop("P03", "The subset construction and the reverse conversion keep the language",
         "The DFA made of an NFA accepts exactly the words the NFA accepts, has the same alphabet, a transition per state and symbol, exactly one initial state, only reachable states and distinct state names. "
         "The NFA made of a DFA has the same states, names, transitions, initial and accepting states, and no ε-moves.",
         ["inputs"], "every NFA with ε-moves, every DFA, every word, every iteration order of the sets of states",
         TESTS + "a conversion that loses a word of one shape of automaton, or that depends on the order of hash sets, passes them.",
         [N, D], [("Nfa::to_dfa", N), ("Dfa::to_nfa", D)]),
    prop("P04", "Boolean combinations of DFAs are those of their languages",
         "The result of each operation on two DFAs accepts a word exactly if the operation says so of what the two accept, whatever the order in which the two list the same alphabet, and inversion exactly if the DFA rejects it. "
         "There is no result exactly if the alphabets differ as sets. "
         "The result is a complete DFA over the alphabet, its operands are unchanged, and the states of the result have distinct names.",
         ["inputs"], "every pair of DFAs, every order of their alphabets, every combining function, every word",
         TESTS + "the alphabets of the two are always listed in the same order, so a confusion of columns is not seen.",
         [D], [("Dfa::product_construction with a map of the other's alphabet", D), ("Dfa::invert", D)]),
    prop("P05", "Two DFAs are reported equivalent exactly if they accept the same words",
         "Equivalence of two DFAs is equality of alphabets as sets and of languages: it is reported exactly then, whatever the order of the alphabets, and it is symmetric and reflexive.",
         ["inputs"], "every pair of DFAs, every order of the alphabets",
         TESTS + "two automata that differ only in a long word, or in one corner of the product, are not among them.",
         [D], [("Dfa::equivalent_to walks the reachable pairs", D)]),
    prop("P06", "Minimising a DFA keeps its language and leaves the fewest states",
         "After minimisation a DFA accepts the same words, all its states are reachable and any two of them are told apart by some word, so that no DFA of fewer states accepts the same words. "
         "The classes of equivalent states that are reported are a partition into exactly the sets of states no word tells apart.",
         ["inputs"], "every DFA, every iteration order of the hash sets of the partition refinement",
         TESTS + "minimality is only asked of a few fixed automata, and the refinement depends on the order of hash sets.",
         [D], [("Hopcroft's partition refinement in state_equivalence_classes_idx", D), ("remove_unreachable_states, merge_nondistinguishable_states", D)]),
    prop("P07", "The union of two NFAs accepts exactly the words either accepts",
         "The union accepts a word exactly if one of the two NFAs does, whatever the order in which they list the same alphabet; if the alphabets differ as sets, the two NFAs are handed back unchanged. "
         "The result is well-formed: every transition leads to a state of it, it has one initial state, and its state names are distinct.",
         ["inputs"], "every pair of NFAs with ε-moves (also when the initial states have incoming transitions), every order of alphabets, every word",
         TESTS + "the alphabets are always in the same order and initial states seldom have incoming transitions.",
         [N], [("Nfa::union: re-indexing and a new initial state", N)]),
    prop("P08", "The intersection of two NFAs accepts exactly the words both accept",
         "The intersection, and the product construction with any combination of acceptance, of two NFAs with ε-moves reaches after every word exactly the pairs of states the two reach, so that the intersection accepts exactly the words both accept, whatever the order of the alphabets. "
         "There is no result exactly if the alphabets differ as sets; the result is well-formed.",
         ["inputs"], "every pair of NFAs with ε-moves, every order of alphabets, every word",
         TESTS + "pairs in which only one of the two makes an ε-move are where a product goes wrong, and they are sampled a few times.",
         [N], [("Nfa::product_construction", N)]),
    prop("P09", "Two NFAs are reported equivalent exactly if they accept the same words",
         "Equivalence of two NFAs is equality of alphabets as sets and of languages; it is reported exactly then, whatever the order of the alphabets and of the hash sets, and it ends.",
         ["inputs"], "every pair of NFAs with ε-moves, every order of the alphabets",
         TESTS + "two automata that differ in one word, or in the word of no symbols only, are not among them.",
         [N], [("Nfa::equivalent_to walks the pairs of sets of states", N)]),
    prop("P10", "Removing ε-moves keeps the language and leaves none",
         "After the removal of ε-moves an NFA accepts exactly the same words, has no ε-moves, the same alphabet, and is well-formed with distinct state names. "
         "The same holds of the whole clean-up of an NFA, which removes unreachable states as well.",
         ["inputs"], "every NFA (ε-cycles, ε-moves into accepting states and out of the initial state), every word",
         TESTS + "ε-cycles through the initial state are rare among them.",
         [N], [("Nfa::remove_epsilon_moves", N), ("Nfa::optimize", N)]),
    prop("P11", "Reachability is exact and removing unreachable states changes nothing else",
         "The states reported reachable are exactly those some word leads to, those reported unreachable exactly the others, and an accepting state is reported reachable exactly if some word is accepted. "
         "Removing unreachable states keeps exactly the reachable ones with their names, transitions, acceptance and the initial state.",
         ["inputs"], "every DFA and every NFA with ε-moves, every iteration order",
         TESTS + "the re-indexing of transitions and of the initial state depends on which states go; few of the ways are sampled.",
         [D, N], [("reachable_state_idx, has_reachable_accepting_state, remove_states of Dfa", D), ("the same of Nfa", N)]),
    prop("P12", "Enumerating words yields every accepted word once, shortest first",
         "For an NFA without ε-moves the enumeration yields exactly the accepted words, each once, in the order of length and then of the alphabet, and it ends if there are no more. "
         "The three forms of the enumeration (indices, symbols, strings) name the same words in the same order.",
         ["inputs"], "every NFA without ε-moves: finite and infinite languages, dead ends, gaps between lengths",
         TESTS + "the order and the end of the enumeration after gaps in length are seen for two languages only.",
         ["dandy/src/nfa/words.rs"], [("WordComponentIndices: depth-first search with reachability by length", "dandy/src/nfa/words.rs")]),
    prop("P13", "A table written of an automaton reads back as the same automaton",
         "The table written of a DFA or an NFA is read back by the parser of its format as an automaton of the same alphabet in the same order, the same state names in the same order, and the same initial state, accepting states, transitions and ε-moves. "
         "This holds of names and symbols the format can write: not empty, no white space, # or braces, not one of the words with a meaning, and at least one symbol for a DFA.",
         ["inputs"], "every DFA and NFA, names and symbols of any length in bytes, empty and crowded sets of targets, NFAs with and without ε-moves",
         TESTS + "the round trip is asked of a few automata of one kind of names.",
         [D, N, T_, F], [("Dfa::to_table and Nfa::to_table", D), ("Table::to_string pads the columns", T_), ("parser of rows", F)]),
    prop("P14", "A text is read as an automaton exactly if it is in the documented format",
         "The text of a DFA or an NFA is accepted exactly if it is a line of symbols followed by lines of rows as documented: optional initial marker, optional accepting marker, name, and targets (for an NFA sets of targets), with blank lines, comments, blanks and both kinds of line ends wherever allowed. "
         "What is read of an accepted text is what it says, in its order; any other text is answered with an error, never with a crash.",
         ["inputs"], "every text: markers joined to names, comments in any place, blank lines first and last, empty sets, words with a meaning where a name is due",
         TESTS + "the parser sees a handful of fixed, well-formed files.",
         [F], [("nom combinators of parser::fa", F)]),
    prop("P15", "What was read is accepted as an automaton exactly if it is one",
         "A table of states and transitions is accepted as a DFA or an NFA exactly if its symbols and its state names are distinct, exactly one state is initial, every row has a target (set) per symbol, and every target is a state; the automaton is then the one the table says. "
         "Otherwise it is rejected with a reason, and the reason given is true of the table.",
         ["inputs"], "every table, with any combination of faults",
         TESTS + "each fault is seen alone in one file, and never with other faults around it.",
         ["dandy/src/dfa/parse.rs", "dandy/src/nfa/parse.rs"], [("TryFrom<ParsedDfa> for Dfa", "dandy/src/dfa/parse.rs"), ("TryFrom<ParsedNfa> for Nfa", "dandy/src/nfa/parse.rs")]),
    prop("P16", "The expression parser accepts exactly its grammar, with its precedence",
         "A text is accepted exactly if it is an expression of the documented grammar, and its structure is the one precedence says: repetition binds tighter than sequence, which binds tighter than alternatives; a reserved character after a backslash stands for itself. "
         "Any text is answered with an expression or an error, never with a crash.",
         ["inputs"], "every text: nested and unbalanced parentheses, blanks in any place, escapes, the reserved characters of several bytes",
         TESTS + "the parser sees a dozen fixed texts and the output of the printer.",
         [P, X], [("the combinators of parser::regex", P)]),
    prop("P17", "The NFA of a regular expression accepts exactly the words it describes",
         "The NFA made of an expression accepts exactly the words the expression describes, where repetition means any number of times, ε the word of no symbols and ∅ no word. "
         "It is well-formed: every transition leads to a state of it, there is one initial state, the names of states and the symbols of the alphabet are distinct, and the alphabet is that of the expression.",
         ["inputs"], "every expression (nested repetitions, empty sequences and choices, ∅ inside others), every word",
         TESTS + "the state numbers of nested sequences are computed by a counter that few shapes of expression exercise.",
         [X], [("Regex::to_nfa and tree_to_nfa: numbering of states", X)]),
    prop("P18", "An expression written as text reads back as the same language",
         "The text written of an expression is accepted by the parser of expressions, and what is read back describes the same words. "
         "This holds whatever symbols the expression uses: reserved characters, white space, characters of several code points.",
         ["inputs"], "every expression, every set of symbols (reserved characters, white space in first and last place, combining characters)",
         TESTS + "expressions with reserved, blank or combining symbols are not printed by any test.",
         [X, P], [("Regex::to_string: escaping and parentheses", X), ("is_reserved_char, one_cluster and trim of the parser", P)]),
    prop("P19", "A text is judged as the sequence of its user-perceived characters",
         "Asked whether it accepts a text, a DFA or an NFA judges it as the sequence of its extended grapheme clusters: exactly as if it were given these, one after the other, as symbols. "
         "A text with a cluster that is no symbol is rejected, and a symbol of several clusters is never found in a text. "
         "An alphabet is reported to be of single clusters exactly if each of its symbols is one.",
         ["inputs"], "every alphabet (symbols of several code points, symbols that are several clusters), every text with combining accents, flags, CR LF",
         TESTS + "no test asks with symbols that join their neighbours.",
         [D, N], [("Dfa::accepts_graphemes, graphemes_only", D), ("Nfa::accepts_graphemes, graphemes_only", N)]),
    prop("P20", "The enumerate commands print the first words of the language in order",
         "`enumerate` and `enumerate-regex` print, for any file with a DFA, an NFA or an expression and any expression given as an argument, the first n words of its language in the order of length and then of the alphabet, fewer if there are fewer, and name the word of no symbols.",
         ["inputs"], "every automaton and expression as text, every number of words",
         "The command line tool has no tests at all.",
         ["dandy-cli/src/enumerate.rs", "dandy-cli/src/automata.rs", "dandy/src/nfa/words.rs"],
         [("enumerate_nfa", "dandy-cli/src/enumerate.rs"), ("parsing of the file by type", "dandy-cli/src/automata.rs")],
         hook="cfg(dandy_verif): files in memory, the arguments of main given by the harness"),
    prop("P21", "The set commands print an automaton of the union, intersection or difference",
         "For any two files with DFAs, NFAs or expressions over the same alphabet, the commands union, intersection, difference and symmetric-difference print the table of a DFA that accepts exactly the words the operation says, with the fewest states if asked to, and enumerate its first words and compare it with a third file if asked to. "
         "Two automata of different alphabets are answered with an error.",
         ["inputs"], "every pair of automata of every pair of types, every operation, every combination of options",
         "The command line tool has no tests at all.",
         ["dandy-cli/src/binary_op.rs", "dandy-cli/src/automata.rs"], [("binary_op", "dandy-cli/src/binary_op.rs"), ("conversion to a DFA", "dandy-cli/src/automata.rs")],
         hook="cfg(dandy_verif): files in memory, the arguments of main given by the harness"),
    prop("P22", "The equivalence command judges every file by the language of the first",
         "The command equivalence reports each of the files equivalent to the given automaton exactly if both define the same language over the same alphabet, whatever the types of the two, and with --minimized exactly if it also has no more states than needed. "
         "A file that is missing or no automaton is reported as such without hiding the others; results come one per file, in order.",
         ["inputs"], "every pair of automata of every pair of types, lists of good, bad and missing files, all options",
         "The command line tool has no tests at all.",
         ["dandy-cli/src/equivalence.rs", "dandy-cli/src/automata.rs"], [("equivalence and check of the number of states", "dandy-cli/src/equivalence.rs")],
         hook="cfg(dandy_verif): files in memory, the arguments of main given by the harness"),
    prop("P23", "The test-file command judges each line by the automaton",
         "The command test-file says of every line of every test file, in order, whether the automaton accepts it, or in the mode for files whether all lines of a file are accepted; empty lines are the word of no symbols.",
         ["inputs"], "every automaton, every test file (line feeds, CR LF, last line without an end, unknown symbols)",
         "The command line tool has no tests at all.",
         ["dandy-cli/src/test_files.rs", "dandy-cli/src/automata.rs"], [("test_files", "dandy-cli/src/test_files.rs")],
         hook="cfg(dandy_verif): files in memory, the arguments of main given by the harness"),
    prop("P24", "Shortened paths keep the last components in order",
         "The path shown with a limit of n components is made of its last n components in their order, the root counting as one, it is the whole path if there is no limit, and nothing for a limit of none.",
         ["inputs"], "every path (absolute, relative, repeated separators, . and ..) and every limit",
         "The command line tool has no tests at all.",
         ["dandy-cli/src/main.rs"], [("last_n_components", "dandy-cli/src/main.rs")],
         hook="cfg(dandy_verif): files in memory, the arguments of main given by the harness"),
    prop("P25", "The picture in characters shows exactly the automaton",
         "The picture of a DFA or an NFA names its states in order, marks which is initial and which are accepting, and has exactly one arrow from a state to another (or itself) if there are transitions between them, with all their symbols in order if it leads to another state and there is room. "
         "The arrows of a level do not overlap, and every arrow is led down to its two states. "
         "No automaton makes it crash.",
         ["inputs"], "every DFA and NFA, names and symbols of any length in bytes and characters, every iteration order of the hash map that groups arrows",
         "The drawing crate has no tests at all.",
         ["dandy-draw/src/lib.rs"], [("group_arrows, place_arrows and ascii_art", "dandy-draw/src/lib.rs")]),
    prop("P26", "A drawing shows exactly the automaton at the places the options say",
         "A drawing has a circle with the name for each state, a second one exactly for accepting states, arrows to the initial state only, and exactly one arrow between two states with transitions, labelled with all their symbols and headed the right way. "
         "All of them are where the options place them, scaled and moved; arrows of a level do not overlap.",
         ["inputs"], "every DFA and NFA, several sets of options, every iteration order of the hash map that groups arrows",
         "The drawing crate has no tests at all.",
         ["dandy-draw/src/lib.rs", "dandy-draw/src/pos2.rs"], [("draw with any Drawer", "dandy-draw/src/lib.rs"), ("place_arrows", "dandy-draw/src/lib.rs")]),
    prop("P27", "A handle of the wasm module stands for its automaton until it is deleted",
         "After any sequence of loading, converting, minimising, comparing and deleting, every handle given out stands for the automaton or expression it was given out for, of its kind only, until it is deleted (or, of an expression, made into an NFA), and handles are never shared. "
         "A handle that is unknown, deleted or of another kind is answered with nothing and changes nothing.",
         ["histories"], "every history of calls with every handle, those deleted, of another kind and never given out among them",
         "The wasm crate has no tests at all.",
         ["dandy-wasm/src/lib.rs"], [("the maps from handles to automata, gen_key", "dandy-wasm/src/lib.rs")],
         hook="cfg(dandy_verif): std's hash maps replaced"),
    prop("P28", "The tool does what its arguments say and writes what it prints to the file",
         "Every option, in any of its spellings and on either side of the names, means what its documentation says, an option left out means its default, and a command then gives the lines it gives with the values spelled out. "
         "These lines, and with less messages nothing else, are printed, and with --out they replace what was in that file, one line each, while a file that cannot be created changes nothing else. "
         "Arguments that are none of the tool's are rejected before anything is done.",
         ["inputs"], "every combination of options of every command, every spelling and order, an output file that is new, exists or cannot be created; wrong types, numbers, options, commands and numbers of names",
         "The command line tool has no tests at all.",
         ["dandy-cli/src/main.rs", "dandy-cli/src/enumerate.rs", "dandy-cli/src/equivalence.rs", "dandy-cli/src/binary_op.rs", "dandy-cli/src/test_files.rs"],
         [("the arguments' definitions (DandyArgs and the rest)", "dandy-cli/src/main.rs"), ("the sink in main", "dandy-cli/src/main.rs")],
         hook="cfg(dandy_verif): files in memory, the arguments of main given by the harness"),
]

NOT_APPLICABLE = []

HOOKS = dict(
    guard="cfg(dandy_verif)",
    enable="check.py builds /repo's crates as path dependencies with RUSTFLAGS='--cfg dandy_verif --extern dandy_verif_std=<shim>.rlib'; "
           "the crates then take std's hash containers (and reading of files) from that crate, dandy includes constructors from the file DANDY_VERIF_HOOKS, dandy-cli the source of main's arguments from DANDY_CLI_HOOKS",
    source_commits=["97da929", "78ec7f8"])


def main():
    with open(f"{V}/properties.jsonl", "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            assert p["statement"].count(". ") <= 2, p["id"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks = []
    for p in PROPS:
        i = p["id"]
        if i not in CHECKS:
            assert any(n["property"] == i for n in NOT_APPLICABLE), i
            continue
        s = CHECKS[i]
        checks.append(dict(
            property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i} --tier thorough",
            technique="symbolic execution of the compiled LLVM IR over all inputs within bounds; obligations decided by an SMT solver (z3)",
            level="model_checking",
            level_note=(f"Holds for all inputs within: {'; '.join(r['bounds'] for r in s['runs'] if r.get('tier', 'quick') == 'quick' and r['bounds'])}. "
                        f"Outside: {s.get('outside', 'larger inputs')}. Assumes: {'; '.join(s.get('assumptions', [])) or 'nothing more'}. "
                        "Trusts: rustc's lowering to IR, the engine in /verif/engine (samples of every run are compared with native runs), z3.")))
    json.dump(dict(version=1, setup_cmd="python3 check.py --setup", hooks=HOOKS, checks=checks, not_applicable=NOT_APPLICABLE,
                   notes="See DESIGN.md. known_findings.txt lists what is not repaired and what was."),
              open(f"{V}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)


main()
