// The automata kept by the wasm module: each handle stands for its automaton until it is deleted, whatever else is done
use dandy_wasm as w;

/// handles at most, and one that is none
const S: usize = 10;
const DFA: usize = 0;
const NFA: usize = 1;
const REGEX: usize = 2;
/// three languages over a: an even number, at least one, only one; the DFA of the second has a state to spare
const DFAS: [&str; 3] = [" a\n-> * p q\n q p", " a\n-> p q\n * q r\n * r r", " a\n-> p q\n * q r\n r r"];
const NFAS: [&str; 3] = ["eps a\n-> p {r} {}\n q {} {p}\n * r {} {q}", " a\n-> p {p q}\n * q {}", "eps a\n-> p {} {q}\n * q {} {}"];
const REGEXES: [&str; 3] = ["(aa)*", "aa*", "a"];
const WORDS: [[bool; 4]; 3] = [[true, false, true, false], [false, true, true, true], [false, true, false, false]];

#[derive(Clone, Copy)]
struct Slot {
    key: usize,
    kind: usize,
    lang: usize,
    alive: bool,
}
fn below(k: usize, n: usize) -> usize {
    let x = choice(k);
    assume(x < n);
    x
}
/// every history of H calls
fn history<const H: usize>(first: usize, second: usize) {
    hash_order(2);
    // as many handles as there can be, and one that was never given out
    let mut s = [Slot { key: usize::MAX, kind: 9, lang: 0, alive: false }; S];
    let mut n = 1;
    let mut made = 0;
    for h in 0..H {
        let op = if h == 0 { first } else if h == 1 && second < 12 { second } else { choice(12) };
        let x = below(H + 1, n);
        let it = pick(&s, x);
        let l = choice(3);
        let is = |kind: usize| it.alive && it.kind == kind;
        let mut new: Option<usize> = None;
        let mut kind = 9;
        let mut lang = it.lang;
        let mut expected = false;
        match op {
            0 => {
                new = w::load_dfa(DFAS[l]).ok();
                kind = DFA;
                lang = l;
                expected = true;
            }
            1 => {
                new = w::load_nfa(NFAS[l]).ok();
                kind = NFA;
                lang = l;
                expected = true;
            }
            2 => {
                new = w::load_regex(REGEXES[l]).ok();
                kind = REGEX;
                lang = l;
                expected = true;
            }
            3 => {
                new = w::regex_to_nfa(it.key);
                kind = NFA;
                expected = is(REGEX);
                if expected {
                    // documented by its signature in the code: the expression is used up
                    for i in 0..S {
                        s[i].alive &= i != x;
                    }
                }
            }
            4 => {
                new = w::dfa_to_nfa(it.key);
                kind = NFA;
                expected = is(DFA);
            }
            5 => {
                new = w::nfa_to_dfa(it.key);
                kind = DFA;
                expected = is(NFA);
            }
            6 => check(w::minimize_dfa(it.key) == is(DFA), "a DFA there is can be minimized"),
            7 | 8 | 9 => {
                let k = op - 7;
                let r = match k {
                    DFA => w::delete_dfa(it.key),
                    NFA => w::delete_nfa(it.key),
                    _ => w::delete_regex(it.key),
                };
                check(r == is(k), "what there is of that kind can be deleted, once");
                if is(k) {
                    for i in 0..S {
                        s[i].alive &= i != x;
                    }
                }
            }
            10 => {
                let y = pick(&s, below(H + 1, n));
                let ok = is(DFA) && y.alive && y.kind == DFA;
                check(w::check_dfa_eq(it.key, y.key) == if ok { Some(it.lang == y.lang) } else { None }, "DFAs are compared by their handles");
                cover(ok && it.lang == y.lang && it.key != y.key, "equal DFAs");
            }
            _ => {
                let y = pick(&s, below(H + 1, n));
                let ok = is(NFA) && y.alive && y.kind == NFA;
                check(w::check_nfa_eq(it.key, y.key) == if ok { Some(it.lang == y.lang) } else { None }, "NFAs are compared by their handles");
                cover(ok && it.lang == y.lang && it.key != y.key, "equal NFAs");
            }
        }
        check(new.is_some() == expected, "a new handle exactly if there is something to make it of");
        if let Some(key) = new {
            for i in 0..S {
                check(i >= n || s[i].key != key, "a handle is never given out again");
            }
            for i in 1..S {
                if i == n {
                    s[i] = Slot { key, kind, lang, alive: true };
                }
            }
            n += 1;
            made += 1;
        }
        observe(made);
    }
    // everything is what it should be
    for i in 0..S {
        if i < n {
            let it = s[i];
            let d = w::dfa_to_table(it.key);
            let e = w::nfa_to_table(it.key);
            check(d.is_some() == (it.alive && it.kind == DFA), "a DFA is there until it is deleted");
            check(e.is_some() == (it.alive && it.kind == NFA), "an NFA is there until it is deleted");
            if let Some(d) = d {
                let d: dandy::dfa::Dfa = dandy::parser::dfa(&d).unwrap().try_into().unwrap();
                for k in 0..4 {
                    check(d.accepts(&["a"; 4][..k]) == WORDS[it.lang][k], "the DFA has the language it was made with");
                }
            }
            if let Some(e) = e {
                let e: dandy::nfa::Nfa = dandy::parser::nfa(&e).unwrap().try_into().unwrap();
                for k in 0..4 {
                    check(e.accepts(&["a"; 4][..k]) == WORDS[it.lang][k], "the NFA has the language it was made with");
                }
            }
            if it.alive && it.kind == REGEX {
                check(w::regex_to_nfa(it.key).is_some(), "an expression is there until it is used or deleted");
            }
        }
    }
    cover(made == H, "only new handles");
}
fn pick(s: &[Slot; S], x: usize) -> Slot {
    let mut r = s[0];
    for i in 1..S {
        if i == x {
            r = s[i];
        }
    }
    r
}
fn history_4() {
    history::<4>(slice(12), 12)
}
fn history_5() {
    history::<5>(slice(3), 12)
}
fn history_6() {
    let x = slice(36);
    history::<6>(x / 12, x % 12)
}
entries! {
    vx_history_4 = history_4;
    vx_history_5 = history_5;
    vx_history_6 = history_6;
}
