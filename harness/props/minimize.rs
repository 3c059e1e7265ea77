// Dfa::minimize: same language, one state per distinguishable reachable state
fn minimize<const N: usize, const K: usize, const O: usize>() {
    hash_order(O);
    let a = D::<N, K>::any_sliced();
    let mut d = a.build(&AL[..K]);
    d.minimize();
    let b = D::<N, K>::read(&d, &ident());
    observe(b.n);
    for i in 0..N {
        if i < b.n {
            observe(b.acc[i] as usize);
        }
    }
    check(same_language(&a, &b), "minimize keeps the language");
    // minimality: number of classes of reachable states
    let r = a.reach();
    let x = a.dist();
    let mut classes = 0;
    for i in 0..N {
        let mut rep = r[i];
        for j in 0..i {
            rep &= !(r[j] & !x[i][j]);
        }
        classes += rep as usize;
    }
    check(b.n == classes, "minimize leaves exactly one state per class of reachable states");
    cover(b.n == 1 && classes == 1, "collapses to one state");
    cover(b.n == N, "already minimal");
}
entries! { vx_minimize_3 = minimize::<3, 2, 8>; vx_minimize_4 = minimize::<4, 2, 2>; }
