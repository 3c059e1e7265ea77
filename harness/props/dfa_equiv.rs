// DFA equivalence is equality of languages (the alphabets being equal, in whatever order)
fn equivalent<const N: usize, const M: usize, const K: usize>() {
    hash_order(2);
    let a = D::<N, K>::any(slice(N));
    let b = D::<M, K>::any(choice(M));
    let swap = any();
    let mut b2 = b.clone();
    if swap && K == 2 {
        for i in 0..M {
            b2.t[i][0] = b.t[i][K - 1];
            b2.t[i][K - 1] = b.t[i][0];
        }
    }
    let x = a.build(&AL[..K]);
    let y = b2.build(if swap && K == 2 { &["b", "a"] } else { &AL[..K] });
    let want = same_language(&a, &b);
    observe(want as usize);
    let flip = any();
    let got = if flip { y.equivalent_to(&x) } else { x.equivalent_to(&y) };
    check(got == want, "equivalent exactly when the languages are equal");
    cover(want && a.reach()[N - 1] && b.reach()[M - 1] && a.init != N - 1 && b.init != M - 1, "equivalent automata");
    cover(!want, "automata that differ");
}
entries! {
    vx_equivalent_22 = equivalent::<2, 2, 2>;
    vx_equivalent_32 = equivalent::<3, 2, 2>;
    vx_equivalent_33 = equivalent::<3, 3, 2>;
    vx_equivalent_33u = equivalent::<3, 3, 1>;
    vx_equivalent_44u = equivalent::<4, 4, 1>;
}
