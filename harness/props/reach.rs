// Reachability of states
fn exact<const N: usize>(s: &dandy::verif::HashSet<usize>, want: &[bool; N], m: &'static str) {
    for i in 0..N {
        check(s.contains(&i) == want[i], m);
    }
    check(s.len() == count(want), m);
}
fn dfa<const N: usize, const K: usize>() {
    hash_order(8);
    let a = D::<N, K>::any(slice(N));
    let mut d = a.build(&AL[..K]);
    let r = a.reach();
    let mut not = [false; N];
    let mut lives = false;
    for i in 0..N {
        not[i] = !r[i];
        lives |= r[i] & a.acc[i];
    }
    exact(&d.reachable_state_idx(), &r, "reachable states are those some word leads to");
    exact(&d.unreachable_state_idx(), &not, "unreachable states are those no word leads to");
    check(d.has_reachable_accepting_state() == lives, "a reachable accepting state exists exactly when some word is accepted");
    let mut seen = [0; N];
    for s in d.reachable_states() {
        for i in 0..N {
            if s.name() == NAMES[i] {
                seen[i] += 1;
            }
        }
    }
    for s in d.unreachable_states() {
        for i in 0..N {
            if s.name() == NAMES[i] {
                seen[i] += 10;
            }
        }
    }
    for i in 0..N {
        check(seen[i] == if r[i] { 1 } else { 10 }, "every state is listed once, as reachable or as unreachable");
    }
    d.remove_unreachable_states();
    let b = D::<N, K>::read(&d, &ident());
    // states that remain are the reachable ones, in their order, with their transitions
    check(b.n == count(&r), "exactly the reachable states remain");
    let mut new = [0; N];
    let mut k = 0;
    for i in 0..N {
        new[i] = k;
        k += r[i] as usize;
    }
    for i in 0..N {
        if r[i] {
            let x = new[i];
            check(d.states()[x].name() == NAMES[i], "the reachable states keep their names and order");
            check(d.states()[x].is_accepting() == a.acc[i], "the reachable states keep their acceptance");
            check((b.init == x) == (a.init == i), "the initial state is kept");
            for c in 0..K {
                check(d.states()[x].transitions()[c] == new[a.t[i][c]], "the reachable states keep their transitions");
            }
        }
    }
    observe(b.n);
    cover(b.n == 1, "a single reachable state");
    cover(b.n == N, "all reachable");
}
fn nfa<const N: usize, const K: usize>() {
    hash_order(2);
    let a = A::<N, K>::any(slice(N), true);
    let mut d = a.build(&AL[..K]);
    let r = a.reach();
    let mut not = [false; N];
    let mut lives = false;
    for i in 0..N {
        not[i] = !r[i];
        lives |= r[i] & a.acc[i];
    }
    exact(&d.reachable_state_idx(), &r, "reachable states are those some word leads to");
    exact(&d.unreachable_state_idx(), &not, "unreachable states are those no word leads to");
    check(d.has_reachable_accepting_state() == lives, "a reachable accepting state exists exactly when some word is accepted");
    check(d.reachable_states().len() == count(&r), "reachable states are listed once");
    check(d.unreachable_states().len() == count(&not), "unreachable states are listed once");
    d.remove_unreachable_states();
    let b = A::<N, K>::read(&d, &ident());
    check(b.n == count(&r), "exactly the reachable states remain");
    let mut new = [0; N];
    let mut k = 0;
    for i in 0..N {
        new[i] = k;
        k += r[i] as usize;
    }
    for i in 0..N {
        if r[i] {
            check((b.init == new[i]) == (a.init == i), "the initial state is kept");
            check(d.states()[new[i]].name() == NAMES[i], "the reachable states keep their names and order");
            check(d.states()[new[i]].is_accepting() == a.acc[i], "the reachable states keep their acceptance");
            for j in 0..N {
                if r[j] {
                    check(b.eps[new[i]][new[j]] == a.eps[i][j], "the reachable states keep their ε-moves");
                    for c in 0..K {
                        check(b.t[new[i]][c][new[j]] == a.t[i][c][j], "the reachable states keep their transitions");
                    }
                }
            }
        }
    }
    observe(b.n);
    cover(b.n == 1, "a single reachable state");
    cover(b.n == N, "all reachable");
}
entries! {
    vx_dfa_3 = dfa::<3, 2>;
    vx_dfa_4 = dfa::<4, 2>;
    vx_dfa_5u = dfa::<5, 1>;
    vx_nfa_3u = nfa::<3, 1>;
    vx_nfa_2 = nfa::<2, 2>;
    vx_nfa_4u = nfa::<4, 1>;
}
