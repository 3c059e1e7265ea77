// NFA equivalence is equality of languages
/// SA, SB: the number of sets of states
fn equivalent<const N: usize, const M: usize, const K: usize, const SA: usize, const SB: usize>() {
    hash_order(2);
    let a = A::<N, K>::any(slice(N), true);
    let b = A::<M, K>::any(choice(M), true);
    let swap = K == 2 && any();
    let mut b2 = b.clone();
    if swap {
        for i in 0..M {
            b2.t[i][0] = b.t[i][K - 1];
            b2.t[i][K - 1] = b.t[i][0];
        }
    }
    let x = a.build(&AL[..K]);
    let y = b2.build(if swap { &["b", "a"] } else { &AL[..K] });
    // sets of states reached by a common word
    let (ca, cb) = (a.closure(), b.closure());
    let sets_a: [[bool; N]; SA] = std::array::from_fn(|s| std::array::from_fn(|i| s >> i & 1 == 1));
    let sets_b: [[bool; M]; SB] = std::array::from_fn(|s| std::array::from_fn(|i| s >> i & 1 == 1));
    let mut ta = [[[false; SA]; K]; SA];
    for s in 0..SA {
        for c in 0..K {
            let r = a.step(&ca, &sets_a[s], c);
            for t in 0..SA {
                ta[s][c][t] = r == sets_a[t];
            }
        }
    }
    let mut tb = [[[false; SB]; K]; SB];
    for s in 0..SB {
        for c in 0..K {
            let r = b.step(&cb, &sets_b[s], c);
            for t in 0..SB {
                tb[s][c][t] = r == sets_b[t];
            }
        }
    }
    let (ia, ib) = (a.start(&ca), b.start(&cb));
    let mut r = [[false; SB]; SA];
    for s in 0..SA {
        for t in 0..SB {
            r[s][t] = (ia == sets_a[s]) & (ib == sets_b[t]);
        }
    }
    loop {
        let mut u = r;
        let mut grew = false;
        for s in 0..SA {
            for t in 0..SB {
                for c in 0..K {
                    for s2 in 0..SA {
                        let g = r[s][t] & ta[s][c][s2];
                        for t2 in 0..SB {
                            let h = g & tb[t][c][t2];
                            grew |= h & !u[s2][t2];
                            u[s2][t2] |= h;
                        }
                    }
                }
            }
        }
        r = u;
        if !grew {
            break;
        }
    }
    let mut want = true;
    for s in 0..SA {
        for t in 0..SB {
            want &= !(r[s][t] & (a.accepting(&sets_a[s]) != b.accepting(&sets_b[t])));
        }
    }
    observe(want as usize);
    let flip = any();
    let got = if flip { y.equivalent_to(&x) } else { x.equivalent_to(&y) };
    check(got == want, "equivalent exactly when the languages are equal");
    cover(want && a.accepting(&ia) && !a.acc[a.init], "equivalent automata");
    cover(!want, "automata that differ");
}
entries! {
    vx_equivalent_22u = equivalent::<2, 2, 1, 4, 4>;
    vx_equivalent_21 = equivalent::<2, 1, 2, 4, 2>;
    vx_equivalent_22 = equivalent::<2, 2, 2, 4, 4>;
    vx_equivalent_32u = equivalent::<3, 2, 1, 8, 4>;
}
