// Evaluation of DFAs: acceptance is what the transition table says, a symbol outside the alphabet rejects for good
const W: [&str; 5] = ["a", "b", "ab", "x", ""];
const ALPHA: [[&str; 2]; 4] = [["a", "b"], ["b", "a"], ["a", "ab"], ["ab", "b"]];

fn oracle<const N: usize>(a: &D<N, 2>, al: &[&str; 2], w: &[&'static str], upto: usize) -> (bool, usize) {
    let mut known = true;
    let mut s = a.init;
    for i in 0..upto {
        let c = if w[i] == al[0] { 0 } else if w[i] == al[1] { 1 } else { 2 };
        known &= c < 2;
        if known {
            s = a.t[s][c];
        }
    }
    (known, s)
}

fn evaluate<const N: usize, const L: usize>() {
    let al = ALPHA[choice(4)];
    hash_order(2);
    let a = D::<N, 2>::any(choice(N));
    let d = a.build(&al);
    let n = choice(L + 1);
    let mut w = [""; L];
    for i in 0..L {
        if i < n {
            w[i] = W[choice(5)];
        }
    }
    let (known, s) = oracle(&a, &al, &w, n);
    let want = known && a.acc[s];
    observe(want as usize);
    check(d.accepts(&w[..n]) == want, "accepts is the acceptance of the transition table");
    // one symbol at a time
    let mut e = d.evaluator();
    for i in 0..L {
        if i < n {
            let (k, s) = oracle(&a, &al, &w, i + 1);
            match e.step(w[i]) {
                None => check(!k, "step finds no state only after an unknown symbol"),
                Some(x) => check(k && x.name() == NAMES[s] && x.is_accepting() == a.acc[s], "step returns the state it went to"),
            }
        }
    }
    match e.current_state() {
        None => check(!known, "there is a current state unless an unknown symbol was seen"),
        Some(x) => check(known && x.name() == NAMES[s] && e.current_state_idx() == s, "current_state is the state reached"),
    }
    check(e.is_accepting() == want, "the evaluator accepts what the automaton accepts");
    cover(known && n == L, "a word of known symbols");
    cover(!known && n == L && a.acc[s], "an unknown symbol when in an accepting state");
}

// step_multiple and step_all agree with step
fn stepping<const N: usize, const L: usize>() {
    let al = ALPHA[choice(4)];
    hash_order(2);
    let a = D::<N, 2>::any(choice(N));
    let d = a.build(&al);
    let mut w = [""; L];
    for i in 0..L {
        w[i] = W[choice(5)];
    }
    let cut = choice(L + 1);
    let mut e = d.evaluator();
    let (k1, s1) = oracle(&a, &al, &w, cut);
    match e.step_multiple(&w[..cut]) {
        None => check(!k1, "step_multiple finds no state only after an unknown symbol"),
        Some(x) => check(k1 && x.name() == NAMES[s1], "step_multiple returns the state it went to"),
    }
    check(e.is_accepting() == (k1 && a.acc[s1]), "acceptance after step_multiple");
    // all the ways to go on
    let next = e.step_all();
    check(next.len() == 2, "step_all has one evaluator per symbol");
    for c in 0..2 {
        check(next[c].is_accepting() == (k1 && a.acc[a.t[s1][c]]), "step_all: acceptance after one more symbol");
        match next[c].current_state() {
            None => check(!k1, "step_all: a state unless an unknown symbol was seen"),
            Some(x) => check(k1 && x.name() == NAMES[a.t[s1][c]], "step_all: the state after one more symbol"),
        }
    }
    check(e.is_accepting() == (k1 && a.acc[s1]), "step_all leaves the evaluator as it was");
    let (k2, s2) = oracle(&a, &al, &w, L);
    let r = e.step_multiple(&w[cut..]).is_some();
    check(r == k2, "an unknown symbol is never forgotten");
    check(e.is_accepting() == (k2 && a.acc[s2]), "acceptance after stepping on");
    observe(e.is_accepting() as usize);
    cover(!k1 && cut < L, "stepping on after an unknown symbol");
}
entries! {
    vx_evaluate_2 = evaluate::<2, 4>;
    vx_stepping_2 = stepping::<2, 3>;
    vx_evaluate_3 = evaluate::<3, 4>;
    vx_stepping_3 = stepping::<3, 3>;
}
