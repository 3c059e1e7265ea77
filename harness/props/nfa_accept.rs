// Evaluation of NFAs: acceptance follows ε-moves before, between and after symbols; an unknown symbol rejects for good
const W: [&str; 4] = ["a", "b", "ab", "x"];
const ALPHA: [[&str; 2]; 3] = [["a", "b"], ["b", "a"], ["ab", "b"]];

fn sym(al: &[&str], s: &str) -> usize {
    let mut c = al.len();
    for i in 0..al.len() {
        if al[i] == s {
            c = i;
        }
    }
    c
}
fn same<const N: usize>(s: &dandy::verif::HashSet<usize>, want: &[bool; N], m: &'static str) {
    let mut k = 0;
    for i in 0..N {
        check(s.contains(&i) == want[i], m);
        k += want[i] as usize;
    }
    check(s.len() == k, m);
}

fn evaluate<const N: usize, const K: usize, const L: usize>() {
    let al = ALPHA[choice(3)];
    hash_order(2);
    let a = A::<N, K>::any(slice(N), true);
    let d = a.build(&al[..K]);
    let n = choice(L + 1);
    let mut w = [""; L];
    let mut c = [0; L];
    for i in 0..L {
        if i < n {
            w[i] = W[choice(4)];
        }
        c[i] = sym(&al[..K], w[i]);
    }
    let want = a.accepts(&c, n);
    observe(want as usize);
    check(d.accepts(&w[..n]) == want, "accepts is the acceptance of the transition relation");
    let mut e = d.evaluator();
    let cl = a.closure();
    let mut s = a.start(&cl);
    let mut known = true;
    for i in 0..L {
        if i < n {
            let r = e.step(w[i]);
            known &= c[i] < K;
            check(r.is_some() || !known, "a known symbol can be stepped on");
            check(c[i] < K || r.is_none(), "an unknown symbol is reported");
            s = a.step(&cl, &s, c[i]);
            check(e.is_accepting() == (known && a.accepting(&s)), "acceptance after each symbol");
            if known {
                let now = e.current_states();
                let mut k = 0;
                for j in 0..N {
                    k += s[j] as usize;
                }
                check(now.len() == k, "as many current states as reachable by the word");
            }
        }
    }
    cover(known && n == L && want, "an accepted word");
    cover(!known && n == L, "an unknown symbol");
}

// step_multiple and step_all agree with step; closure
fn stepping<const N: usize, const K: usize, const L: usize>() {
    let al = ALPHA[choice(3)];
    hash_order(2);
    let a = A::<N, K>::any(slice(N), true);
    let d = a.build(&al[..K]);
    let mut w = [""; L];
    let mut c = [0; L];
    for i in 0..L {
        w[i] = W[choice(4)];
        c[i] = sym(&al[..K], w[i]);
    }
    let cut = choice(L + 1);
    let cl = a.closure();
    let mut e = d.evaluator();
    let mut s = a.start(&cl);
    same(e.current_states_idx(), &s, "initial states are the closure of the initial state");
    let mut known = true;
    for i in 0..L {
        if i < cut {
            known &= c[i] < K;
            s = a.step(&cl, &s, c[i]);
        }
    }
    let r = e.step_multiple(&w[..cut]);
    check(r.is_some() == known, "step_multiple reports unknown symbols");
    check(e.is_accepting() == (known && a.accepting(&s)), "acceptance after step_multiple");
    if known {
        same(e.current_states_idx(), &s, "current states after step_multiple");
    }
    let next = e.step_all();
    check(next.len() == K, "step_all has one evaluator per symbol");
    for k in 0..K {
        let t = a.step(&cl, &s, k);
        check(next[k].is_accepting() == (known && a.accepting(&t)), "step_all: acceptance after one more symbol");
        if known {
            same(next[k].current_states_idx(), &t, "step_all: states after one more symbol");
        }
    }
    e.step_multiple(&w[cut..]);
    for i in 0..L {
        if i >= cut {
            known &= c[i] < K;
            s = a.step(&cl, &s, c[i]);
        }
    }
    check(e.is_accepting() == (known && a.accepting(&s)), "acceptance after stepping on");
    observe(e.is_accepting() as usize);
    for i in 0..N {
        match d.closure(i) {
            None => check(false, "every state has a closure"),
            Some(x) => same(&x, &cl[i], "closure is the states reachable by ε-moves"),
        }
    }
    check(d.closure(N).is_none(), "no closure of a state that does not exist");
    let mut any_eps = false;
    for i in 0..N {
        for j in 0..N {
            any_eps |= a.eps[i][j];
        }
    }
    check(d.has_epsilon_moves() == any_eps, "has_epsilon_moves");
    cover(known && cut > 0 && cut < L && e.is_accepting(), "an accepted word");
}
entries! {
    vx_evaluate_2 = evaluate::<2, 2, 3>;
    vx_stepping_2 = stepping::<2, 2, 2>;
    vx_evaluate_3 = evaluate::<3, 1, 3>;
    vx_stepping_3 = stepping::<3, 1, 2>;
}
