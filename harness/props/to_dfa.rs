// Conversions between NFAs and DFAs keep the language; the result of the subset construction is well-formed
fn to_dfa<const N: usize, const K: usize, const M: usize, const L: usize>() {
    hash_order(2);
    let a = A::<N, K>::any(slice(N), true);
    let x = a.build(&AL[..K]);
    let d = x.to_dfa();
    let b = D::<M, K>::read(&d, &ident());
    for c in 0..K {
        check(*d.alphabet()[c] == *AL[c], "the alphabet is kept");
    }
    let r = b.reach();
    for i in 0..M {
        check(i >= b.n || r[i], "every state of the DFA is reachable");
        for j in 0..i {
            if i < b.n {
                check(d.states()[i].name() != d.states()[j].name(), "state names are distinct");
            }
        }
    }
    let (w, n) = any_word::<L>(K);
    let want = a.accepts(&w, n);
    observe(b.n);
    observe(want as usize);
    check(b.accepts(&w, n) == want, "the DFA accepts the words the NFA accepts");
    cover(b.n > N, "more states than the NFA has");
    cover(want && n == L, "an accepted word");
}
fn to_nfa<const N: usize, const K: usize>() {
    let a = D::<N, K>::any(slice(N));
    let d = a.build(&AL[..K]);
    let x = if any() { d.to_nfa() } else { d.into() };
    let b = A::<N, K>::read(&x, &ident());
    check(b.n == N, "the states are kept");
    check(b.init == a.init, "the initial state is kept");
    for c in 0..K {
        check(*x.alphabet()[c] == *AL[c], "the alphabet is kept");
    }
    for i in 0..N {
        check(x.states()[i].name() == NAMES[i], "state names are kept");
        check(b.acc[i] == a.acc[i], "accepting states are kept");
        for j in 0..N {
            check(!b.eps[i][j], "there are no ε-moves");
            for c in 0..K {
                check(b.t[i][c][j] == (a.t[i][c] == j), "the transitions are kept");
            }
        }
    }
    observe(b.init);
}
// the initial state goes to every set of states
fn names() {
    hash_order(2);
    let s = any_names::<3>(slice(4));
    let mut go = Vec::with_capacity(7);
    for k in 1..8 {
        let mut v = Vec::with_capacity(3);
        for j in 0..3 {
            if k >> j & 1 == 1 {
                v.push(j);
            }
        }
        go.push(v);
    }
    let x = dandy::verif::nfa(&["a", "b", "c", "d", "e", "f", "g"], vec![(s[0], true, vec![], go), (s[1], true, vec![], vec![vec![]; 7]), (s[2], true, vec![], vec![vec![]; 7])], 0);
    let d = x.to_dfa();
    let n = d.states().len();
    check(n == 8, "all sets of states are reachable");
    for i in 0..8 {
        for j in 0..i {
            check(d.states()[i].name() != d.states()[j].name(), "state names are distinct");
        }
    }
}
entries! {
    vx_names = names;
    vx_to_dfa_2 = to_dfa::<2, 2, 4, 6>;
    vx_to_dfa_3u = to_dfa::<3, 1, 8, 14>;
    vx_to_dfa_3 = to_dfa::<3, 2, 8, 6>;
    vx_to_nfa_3 = to_nfa::<3, 2>;
}
