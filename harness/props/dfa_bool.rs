// Boolean combinations of DFAs
use dandy::dfa::DfaState;
const OTHER: [[&str; 3]; 6] = [["a", "b", "c"], ["a", "c", "b"], ["b", "a", "c"], ["b", "c", "a"], ["c", "a", "b"], ["c", "b", "a"]];

// R: bound on the number of states of the result
fn combine<const N: usize, const M: usize, const K: usize, const R: usize>() {
    hash_order(2);
    let a = D::<N, K>::any(slice(N));
    let b = D::<M, K>::any(choice(M));
    // the other alphabet in any order; b speaks of the symbols of a
    let mut perm = [0usize; K];
    let mut al2: [&str; K] = [""; K];
    let p = choice(if K == 1 { 1 } else if K == 2 { 2 } else { 6 });
    for c in 0..K {
        al2[c] = if K == 2 { [["a", "b"], ["b", "a"]][p % 2][c] } else { OTHER[p][c] };
        for k in 0..K {
            if al2[c] == AL[k] {
                perm[c] = k;
            }
        }
    }
    let mut b2 = b.clone();
    for i in 0..M {
        for c in 0..K {
            b2.t[i][c] = b.t[i][perm[c]];
        }
    }
    let x = a.build(&AL[..K]);
    let y = b2.build(&al2);
    // an arbitrary function of the two acceptances
    let op = choice(5);
    let f = [any(), any(), any(), any()];
    let want = |p: bool, q: bool| match op {
        0 => p | q,
        1 => p & q,
        2 => p & !q,
        3 => p ^ q,
        _ => f[p as usize + 2 * q as usize],
    };
    let r = match op {
        0 => x.union(&y),
        1 => x.intersection(&y),
        2 => x.difference(&y),
        3 => x.symmetric_difference(&y),
        _ => x.product_construction(&y, |p: &DfaState, q: &DfaState| f[p.is_accepting() as usize + 2 * q.is_accepting() as usize]),
    };
    let z = match r {
        Some(z) => z,
        None => {
            check(false, "the combination exists for permuted alphabets");
            return;
        }
    };
    let mut col = [K; K];
    for c in 0..K {
        for k in 0..K {
            if *z.alphabet()[c] == *AL[k] {
                col[k] = c;
            }
        }
    }
    for k in 0..K {
        check(col[k] < K, "the alphabet of the combination is that of the operands");
    }
    let r = D::<R, K>::read(&z, &col);
    // triples of states reached by a common word
    let mut s = [[[false; R]; M]; N];
    for i in 0..N {
        for j in 0..M {
            for k in 0..R {
                s[i][j][k] = (i == a.init) & (j == b.init) & (k == r.init);
            }
        }
    }
    for _ in 1..N * M {
        let mut u = s;
        let mut grew = false;
        for i in 0..N {
            for j in 0..M {
                for k in 0..R {
                    for c in 0..K {
                        for i2 in 0..N {
                            for j2 in 0..M {
                                let g = s[i][j][k] & (a.t[i][c] == i2) & (b.t[j][c] == j2);
                                for k2 in 0..R {
                                    let h = g & (r.t[k][c] == k2);
                                    grew |= h & !u[i2][j2][k2];
                                    u[i2][j2][k2] |= h;
                                }
                            }
                        }
                    }
                }
            }
        }
        s = u;
        if !grew {
            break;
        }
    }
    let mut npairs = 0;
    let mut bad = false;
    for i in 0..N {
        for j in 0..M {
            let mut some = false;
            for k in 0..R {
                some |= s[i][j][k];
                bad |= s[i][j][k] & (r.acc[k] != want(a.acc[i], b.acc[j]));
            }
            npairs += some as usize;
        }
    }
    check(!bad, "the combination accepts exactly the wanted words");
    check(r.n == npairs, "one state per reachable pair of states");
    let rr = r.reach();
    for i in 0..R {
        check(i >= r.n || rr[i], "every state of the combination is reachable");
    }
    observe(r.n);
    cover(r.n == R, "every pair is reachable");
}

// inversion
fn invert<const N: usize, const K: usize>() {
    let a = D::<N, K>::any(choice(N));
    let mut d = a.build(&AL[..K]);
    let twice = any();
    d.invert();
    if twice {
        d.invert();
    }
    let b = D::<N, K>::read(&d, &ident());
    check(b.n == N, "inverting keeps the states");
    check(b.init == a.init, "inverting keeps the initial state");
    for i in 0..N {
        check((b.acc[i] == a.acc[i]) == twice, "inverting swaps accepting and rejecting states");
        for c in 0..K {
            check(b.t[i][c] == a.t[i][c], "inverting keeps the transitions");
        }
    }
    observe(b.init);
}

// which alphabets can be combined; names of states
const SYM: [&str; 4] = ["a", "b", "ab", "c"];
fn alphabets() {
    hash_order(8);
    let n = 1 + choice(3);
    let m = 1 + choice(3);
    let mut al = [SYM[choice(4)], SYM[choice(4)], SYM[choice(4)]];
    let mut be = [SYM[choice(4)], SYM[choice(4)], SYM[choice(4)]];
    // symbols of an alphabet are distinct
    assume(al[0] != al[1] && al[0] != al[2] && al[1] != al[2]);
    assume(be[0] != be[1] && be[0] != be[2] && be[1] != be[2]);
    let x = dandy::verif::dfa(&al[..n], vec![("p", true, vec![0; n])], 0);
    let y = dandy::verif::dfa(&be[..m], vec![("p", true, vec![0; m])], 0);
    let mut same = n == m;
    for i in 0..3 {
        let mut found = false;
        for j in 0..3 {
            found |= (j < m) & (al[i] == be[j]);
        }
        same &= found | (i >= n);
    }
    observe(same as usize);
    check(x.union(&y).is_some() == same, "union exists exactly for equal alphabets");
    check(x.intersection(&y).is_some() == same, "intersection exists exactly for equal alphabets");
    check(x.difference(&y).is_some() == same, "difference exists exactly for equal alphabets");
    check(x.symmetric_difference(&y).is_some() == same, "symmetric difference exists exactly for equal alphabets");
    check(x.equivalent_to(&y) == same, "automata accepting everything are equivalent exactly for equal alphabets");
    cover(same && n == 3, "equal alphabets");
    cover(!same && n == m, "different alphabets of the same size");
    // keep the arrays alive
    al[0] = "";
    be[0] = "";
}
fn names() {
    hash_order(4);
    let f = slice(4);
    let (s, t) = (any_names::<2>(f), any_names::<2>(f));
    let x = dandy::verif::dfa(&["a", "b"], vec![(s[0], true, vec![1, 0]), (s[1], false, vec![0, 1])], 0);
    let y = dandy::verif::dfa(&["a", "b"], vec![(t[0], true, vec![0, 1]), (t[1], false, vec![1, 0])], 0);
    let z = match choice(4) {
        0 => x.union(&y),
        1 => x.intersection(&y),
        2 => x.difference(&y),
        _ => x.symmetric_difference(&y),
    };
    match z {
        None => check(false, "the combination exists"),
        Some(z) => {
            let n = z.states().len();
            check(n == 4, "all four pairs are reachable");
            for i in 0..4 {
                for j in 0..i {
                    check(z.states()[i].name() != z.states()[j].name(), "names of states are distinct");
                }
            }
        }
    }
}
entries! {
    vx_combine_22 = combine::<2, 2, 2, 4>;
    vx_combine_213 = combine::<2, 1, 3, 2>;
    vx_combine_32 = combine::<3, 2, 2, 6>;
    vx_invert = invert::<3, 2>;
    vx_alphabets = alphabets;
    vx_names = names;
}
