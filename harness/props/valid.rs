// Whether what was read of a text is an automaton: accepted exactly if it is, and else a true reason is given
use dandy::dfa::{parse::DfaParseError, Dfa};
use dandy::nfa::{parse::NfaParseError, Nfa};
const SY: [&str; 4] = ["a", "b", "ab", "c"];
const ST: [&str; 4] = ["p", "q", "pq", "z"];

/// N states out of S names (the target S is the name of no state), at most K symbols out of Y, at most T transitions
fn dfa<const N: usize, const S: usize, const K: usize, const Y: usize, const T: usize>() {
    hash_order(2);
    let k = choice(K + 1);
    let n = choice(N + 1);
    let mut sy = [0; K];
    let mut head = Vec::with_capacity(K);
    let mut dup_sy = [false; 4];
    for c in 0..K {
        if c < k {
            sy[c] = choice(Y);
            head.push(SY[sy[c]]);
            for d in 0..c {
                dup_sy[sy[c]] |= sy[d] == sy[c];
            }
        }
    }
    let mut name = [0; N];
    let mut len = [0; N];
    let mut init = [false; N];
    let mut acc = [false; N];
    let mut to = [[0; T]; N];
    let mut states = Vec::with_capacity(N);
    let mut dup_st = [false; 4];
    let mut inits = 0;
    for i in 0..N {
        if i < n {
            name[i] = choice(S);
            init[i] = any();
            acc[i] = any();
            len[i] = choice(T + 1);
            let mut t = Vec::with_capacity(T);
            for j in 0..T {
                if j < len[i] {
                    to[i][j] = choice(S + 1);
                    t.push(ST[to[i][j]]);
                }
            }
            for j in 0..i {
                dup_st[name[i]] |= name[j] == name[i];
            }
            inits += init[i] as usize;
            states.push((ST[name[i]], init[i], acc[i], t));
        }
    }
    let exists = |x: usize| {
        let mut e = false;
        for i in 0..N {
            e |= (i < n) & (name[i] == x);
        }
        e
    };
    // what is wrong
    let mut count = false;
    let mut target = false;
    for i in 0..N {
        if i < n {
            count |= len[i] != k;
            for j in 0..T {
                target |= (j < len[i]) & !exists(to[i][j]);
            }
        }
    }
    let mut dups = false;
    let mut dupa = false;
    for x in 0..4 {
        dups |= dup_st[x];
        dupa |= dup_sy[x];
    }
    let good = !count & !target & !dups & !dupa & (inits == 1);
    let p = dandy::verif::parsed_dfa(head, states);
    let r = Dfa::try_from(p);
    observe(r.is_ok() as usize);
    match &r {
        Ok(d) => {
            check(good, "what is no automaton is rejected");
            check(d.states().len() == n, "the states are kept");
            check(d.alphabet().len() == k, "the alphabet is kept");
            for c in 0..K {
                check(c >= k || *d.alphabet()[c] == *SY[sy[c]], "the alphabet is kept in order");
            }
            for i in 0..N {
                if i < n {
                    let s = &d.states()[i];
                    check(s.name() == ST[name[i]], "names of states are kept");
                    check(s.is_initial() == init[i], "the initial state is kept");
                    check(s.is_accepting() == acc[i], "accepting states are kept");
                    check(!init[i] || d.initial_state_index() == i, "the initial state is found");
                    for j in 0..T {
                        if j < k {
                            let x = s.transitions()[j];
                            check(x < n, "transition target exists");
                            check(name[x] == to[i][j], "transitions lead to the states named");
                        }
                    }
                }
            }
        }
        Err(e) => {
            check(!good, "an automaton is accepted");
            use DfaParseError::*;
            let t = match e {
                DuplicateAlphabetSymbol(x) => {
                    let mut b = false;
                    for y in 0..4 {
                        b |= dup_sy[y] && *x == SY[y];
                    }
                    b
                }
                DuplicateStateDefinition(x) => {
                    let mut b = false;
                    for y in 0..4 {
                        b |= dup_st[y] && *x == ST[y];
                    }
                    b
                }
                MissingInitialState => inits == 0,
                MultipleInitialStates => inits > 1,
                WrongNumberOfTransitions(x, has, want) => {
                    let mut b = false;
                    for i in 0..N {
                        b |= i < n && *x == ST[name[i]] && *has == len[i] && len[i] != k;
                    }
                    b & (*want == k)
                }
                TransitionDoesNotExist(x, y) => {
                    let mut b = false;
                    for i in 0..N {
                        for j in 0..T {
                            b |= i < n && *x == ST[name[i]] && j < len[i] && !exists(to[i][j]) && *y == ST[to[i][j]];
                        }
                    }
                    b
                }
            };
            check(t, "the reason given is true");
        }
    }
    cover(r.is_ok() && n == N, "an automaton");
    cover(r.is_err() && n == N && !dups && !dupa && inits == 1 && !count, "an unknown target");
}

/// transitions: each one of the sets {}, {0}, {1}, {0 1}, {z}
fn nfa<const N: usize, const S: usize, const K: usize, const Y: usize, const T: usize>() {
    hash_order(2);
    let k = choice(K + 1);
    let n = choice(N + 1);
    let mut sy = [0; K]; // Y: ε
    let mut head = Vec::with_capacity(K);
    let mut dup_sy = [false; 4];
    let mut eps = K;
    for c in 0..K {
        if c < k {
            sy[c] = choice(Y + 1);
            head.push(if sy[c] == Y { None } else { Some(SY[sy[c]]) });
            if sy[c] == Y {
                eps = c;
            }
            for d in 0..c {
                dup_sy[sy[c]] |= sy[d] == sy[c];
            }
        }
    }
    let mut name = [0; N];
    let mut len = [0; N];
    let mut init = [false; N];
    let mut acc = [false; N];
    let mut to = [[0; T]; N];
    let mut states = Vec::with_capacity(N);
    let mut dup_st = [false; 4];
    let mut inits = 0;
    for i in 0..N {
        if i < n {
            name[i] = choice(S);
            init[i] = any();
            acc[i] = any();
            len[i] = choice(T + 1);
            let mut t = Vec::with_capacity(T);
            for j in 0..T {
                if j < len[i] {
                    to[i][j] = choice(5);
                    let mut v = Vec::with_capacity(2);
                    if to[i][j] == 1 || to[i][j] == 3 {
                        v.push(ST[0]);
                    }
                    if to[i][j] == 2 || to[i][j] == 3 {
                        v.push(ST[1]);
                    }
                    if to[i][j] == 4 {
                        v.push(ST[3]);
                    }
                    t.push(v);
                }
            }
            for j in 0..i {
                dup_st[name[i]] |= name[j] == name[i];
            }
            inits += init[i] as usize;
            states.push((ST[name[i]], init[i], acc[i], t));
        }
    }
    let exists = |x: usize| {
        let mut e = false;
        for i in 0..N {
            e |= (i < n) & (name[i] == x);
        }
        e
    };
    let (e0, e1) = (exists(0), exists(1));
    let missing = |t: usize, y: &str| {
        (((t == 1) | (t == 3)) & !e0 && y == ST[0]) || (((t == 2) | (t == 3)) & !e1 && y == ST[1]) || (t == 4 && y == ST[3])
    };
    let mut count = false;
    let mut target = false;
    for i in 0..N {
        if i < n {
            count |= len[i] != k;
            for j in 0..T {
                target |= (j < len[i]) & (((to[i][j] == 1) | (to[i][j] == 3)) & !e0 | ((to[i][j] == 2) | (to[i][j] == 3)) & !e1 | (to[i][j] == 4));
            }
        }
    }
    let mut dups = false;
    let mut dupa = false;
    for x in 0..4 {
        dups |= dup_st[x];
        dupa |= dup_sy[x];
    }
    let good = !count & !target & !dups & !dupa & (inits == 1);
    let p = dandy::verif::parsed_nfa(head, states);
    let r = Nfa::try_from(p);
    observe(r.is_ok() as usize);
    match &r {
        Ok(d) => {
            check(good, "what is no automaton is rejected");
            check(d.states().len() == n, "the states are kept");
            let mut c = 0;
            for x in 0..K {
                if x < k && x != eps {
                    check(c < d.alphabet().len(), "the alphabet is kept");
                    check(*d.alphabet()[c] == *SY[sy[x]], "the alphabet is kept in order");
                    c += 1;
                }
            }
            check(d.alphabet().len() == c, "the alphabet is kept");
            for i in 0..N {
                if i < n {
                    let s = &d.states()[i];
                    check(s.name() == ST[name[i]], "names of states are kept");
                    check(s.is_initial() == init[i], "the initial state is kept");
                    check(s.is_accepting() == acc[i], "accepting states are kept");
                    check(!init[i] || d.initial_state_index() == i, "the initial state is found");
                    check(s.transitions().len() == c, "a set of transitions for every symbol");
                    check(eps < K || s.epsilon_transitions().is_empty(), "no ε-moves without ε");
                    let mut c = 0;
                    for x in 0..T {
                        if x < k {
                            let v: &[usize] = if x == eps { s.epsilon_transitions() } else { &s.transitions()[c] };
                            let (mut g0, mut g1) = (false, false);
                            for &y in v {
                                check(y < n, "transition target exists");
                                g0 |= name[y] == 0;
                                g1 |= name[y] == 1;
                                check(name[y] <= 1, "transitions lead to the states named");
                            }
                            check(g0 == ((to[i][x] == 1) | (to[i][x] == 3)), "transitions lead to the states named");
                            check(g1 == ((to[i][x] == 2) | (to[i][x] == 3)), "transitions lead to the states named");
                            if x != eps {
                                c += 1;
                            }
                        }
                    }
                }
            }
        }
        Err(e) => {
            check(!good, "an automaton is accepted");
            use NfaParseError::*;
            let t = match e {
                DuplicateAlphabetSymbol(x) => {
                    let mut b = dup_sy[Y] && *x == "ε";
                    for y in 0..Y {
                        b |= dup_sy[y] && *x == SY[y];
                    }
                    b
                }
                DuplicateStateDefinition(x) => {
                    let mut b = false;
                    for y in 0..4 {
                        b |= dup_st[y] && *x == ST[y];
                    }
                    b
                }
                MissingInitialState => inits == 0,
                MultipleInitialStates => inits > 1,
                WrongNumberOfTransitions(x, has, want) => {
                    let mut b = false;
                    for i in 0..N {
                        b |= i < n && *x == ST[name[i]] && *has == len[i] && len[i] != k;
                    }
                    b & (*want == k)
                }
                TransitionDoesNotExist(x, y) => {
                    let mut b = false;
                    for i in 0..N {
                        for j in 0..T {
                            b |= i < n && *x == ST[name[i]] && j < len[i] && missing(to[i][j], y);
                        }
                    }
                    b
                }
            };
            check(t, "the reason given is true");
        }
    }
    cover(r.is_ok() && n == N && eps < K, "an automaton with ε-moves");
    cover(r.is_err() && n == N && !dups && !dupa && inits == 1 && !count, "an unknown target");
}
entries! {
    vx_dfa_2 = dfa::<2, 2, 2, 2, 3>;
    vx_dfa_3 = dfa::<3, 3, 2, 3, 2>;
    vx_dfa_33 = dfa::<3, 3, 3, 4, 4>;
    vx_dfa_31 = dfa::<3, 3, 1, 1, 2>;
    vx_nfa_2 = nfa::<2, 2, 2, 2, 3>;
    vx_nfa_3 = nfa::<2, 3, 3, 2, 3>;
    vx_nfa_33 = nfa::<3, 3, 3, 3, 3>;
    vx_nfa_31 = nfa::<3, 3, 1, 1, 1>;
}
