// The table written of an automaton reads back as the same automaton
use dandy::dfa::Dfa;
use dandy::nfa::Nfa;
// names and symbols of several lengths in characters and bytes, some close to reserved words
const STATE: [[&str; 4]; 3] = [["q", "s₀", "->q", "**"], ["r", "epsilon", "x,y", "å"], ["(p,q)", "0", "→→", "-"]];
const SYMBOL: [[&str; 3]; 2] = [["a", "0→1", "å"], ["b", "->-", "e\u{301}"]];
fn names<const N: usize, const K: usize>(ns: usize, ks: usize) -> ([&'static str; N], [&'static str; K]) {
    let mut n = [""; N];
    for i in 0..N {
        n[i] = STATE[i][choice(ns)];
    }
    let mut s = [""; K];
    for c in 0..K {
        s[c] = SYMBOL[c][choice(ks)];
    }
    (n, s)
}
fn dfa<const N: usize, const K: usize>(ns: usize, ks: usize) {
    let (names, al) = names::<N, K>(ns, ks);
    let a = D::<N, K>::any(slice(N));
    let mut st = Vec::with_capacity(N);
    for i in 0..N {
        st.push((names[i], a.acc[i], a.t[i].to_vec()));
    }
    let d = dandy::verif::dfa(&al, st, a.init);
    let s = if any() { d.to_table() } else { d.ascii_table() };
    observe(s.len());
    match dandy::parser::dfa(&s) {
        Err(_) => check(false, "the table of a DFA is accepted"),
        Ok(p) => match Dfa::try_from(p) {
            Err(_) => check(false, "the table of a DFA describes a DFA"),
            Ok(e) => {
                let b = D::<N, K>::read(&e, &ident());
                check(b.n == N, "the states are kept");
                check(b.init == a.init, "the initial state is kept");
                for c in 0..K {
                    check(*e.alphabet()[c] == *al[c], "the alphabet is kept in order");
                }
                for i in 0..N {
                    check(e.states()[i].name() == names[i], "names of states are kept in order");
                    check(b.acc[i] == a.acc[i], "accepting states are kept");
                    for c in 0..K {
                        check(b.t[i][c] == a.t[i][c], "the transitions are kept");
                    }
                }
            }
        },
    }
}
fn nfa<const N: usize, const K: usize>(ns: usize, ks: usize) {
    let (names, al) = names::<N, K>(ns, ks);
    let a = A::<N, K>::any(slice(N), true);
    let x = a.build_named(&al, &names);
    let s = if any() { x.to_table() } else { x.ascii_table() };
    observe(s.len());
    match dandy::parser::nfa(&s) {
        Err(_) => check(false, "the table of an NFA is accepted"),
        Ok(p) => match Nfa::try_from(p) {
            Err(_) => check(false, "the table of an NFA describes an NFA"),
            Ok(e) => {
                let b = A::<N, K>::read(&e, &ident());
                check(b.n == N, "the states are kept");
                check(b.init == a.init, "the initial state is kept");
                for c in 0..K {
                    check(*e.alphabet()[c] == *al[c], "the alphabet is kept in order");
                }
                for i in 0..N {
                    check(e.states()[i].name() == names[i], "names of states are kept in order");
                    check(b.acc[i] == a.acc[i], "accepting states are kept");
                    for j in 0..N {
                        check(b.eps[i][j] == a.eps[i][j], "the ε-moves are kept");
                        for c in 0..K {
                            check(b.t[i][c][j] == a.t[i][c][j], "the transitions are kept");
                        }
                    }
                }
            }
        },
    }
}
fn dfa_2() { dfa::<2, 2>(4, 3) }
fn dfa_3() { dfa::<3, 1>(2, 2) }
fn nfa_2() { nfa::<2, 1>(2, 2) }
fn nfa_2n() { nfa::<2, 1>(4, 3) }
fn nfa_1() { nfa::<1, 2>(4, 3) }
fn nfa_22() { nfa::<2, 2>(1, 1) }
fn nfa_0() { nfa::<2, 0>(4, 3) }
entries! {
    vx_dfa_2 = dfa_2;
    vx_dfa_3 = dfa_3;
    vx_nfa_2 = nfa_2;
    vx_nfa_1 = nfa_1;
    vx_nfa_2n = nfa_2n;
    vx_nfa_22 = nfa_22;
    vx_nfa_0 = nfa_0;
}
