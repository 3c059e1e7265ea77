// NFA product construction and intersection
fn permutation<const K: usize>() -> ([usize; K], [&'static str; K]) {
    const P: [[usize; 3]; 6] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
    let p = choice(if K == 1 { 1 } else if K == 2 { 2 } else { 6 });
    let mut perm = [0; K];
    let mut al = [""; K];
    for c in 0..K {
        perm[c] = if K == 2 { (c + p) % 2 } else { P[p][c] };
        al[c] = AL[perm[c]];
    }
    (perm, al)
}
fn columns<const K: usize>(al: &[std::rc::Rc<str>]) -> [usize; K] {
    check(al.len() == K, "the alphabet of the result is that of the operands");
    let mut col = [K; K];
    for c in 0..K {
        for k in 0..K {
            if *al[c] == *AL[k] {
                col[k] = c;
            }
        }
    }
    for k in 0..K {
        check(col[k] < K, "the alphabet of the result is that of the operands");
    }
    col
}
fn product<const N: usize, const M: usize, const K: usize, const R: usize, const L: usize>() {
    hash_order(2);
    let a = A::<N, K>::any(slice(N), true);
    let b = A::<M, K>::any(choice(M), true);
    let (perm, al2) = permutation::<K>();
    let mut b2 = b.clone();
    for i in 0..M {
        for c in 0..K {
            b2.t[i][c] = b.t[i][perm[c]];
        }
    }
    let x = a.build(&AL[..K]);
    let y = b2.build(&al2);
    let or = any();
    let z = if or {
        x.product_construction(&y, |p, q| p.map_or(false, |p| p.is_accepting()) || q.map_or(false, |q| q.is_accepting()))
    } else {
        x.intersection(&y)
    };
    let z = match z {
        Some(z) => z,
        None => {
            check(false, "the product exists for permuted alphabets");
            return;
        }
    };
    let col = columns::<K>(z.alphabet());
    let r = A::<R, K>::read(&z, &col);
    let rr = r.reach();
    for i in 0..R {
        check(i >= r.n || rr[i], "every state of the product is reachable");
        for j in 0..i {
            check(i >= r.n || z.states()[i].name() != z.states()[j].name(), "names of states are distinct");
        }
    }
    let (w, n) = any_word::<L>(K);
    let (p, q) = (a.accepts(&w, n), b.accepts(&w, n));
    let want = if or { p | q } else { p & q };
    observe(want as usize);
    check(r.accepts(&w, n) == want, "the product accepts the wanted words");
    cover(want && n == L && !or, "an accepted word");
    cover(p && !q && n == L && !or, "a rejected word");
}
const SYM: [&str; 4] = ["a", "b", "ab", "c"];
fn alphabets() {
    hash_order(8);
    let n = 1 + choice(3);
    let m = 1 + choice(3);
    let al = [SYM[choice(4)], SYM[choice(4)], SYM[choice(4)]];
    let be = [SYM[choice(4)], SYM[choice(4)], SYM[choice(4)]];
    assume(al[0] != al[1] && al[0] != al[2] && al[1] != al[2]);
    assume(be[0] != be[1] && be[0] != be[2] && be[1] != be[2]);
    let x = dandy::verif::nfa(&al[..n], vec![("p", true, vec![], vec![vec![0]; n])], 0);
    let y = dandy::verif::nfa(&be[..m], vec![("q", true, vec![0], vec![vec![0]; m])], 0);
    let mut same = n == m;
    for i in 0..3 {
        let mut found = false;
        for j in 0..3 {
            found |= (j < m) & (al[i] == be[j]);
        }
        same &= found | (i >= n);
    }
    observe(same as usize);
    check(x.intersection(&y).is_some() == same, "there is an intersection exactly for equal alphabets");
    check(x.equivalent_to(&y) == same, "automata accepting everything are equivalent exactly for equal alphabets");
    cover(same && n == 3, "equal alphabets");
    cover(!same && n == m, "different alphabets of the same size");
}
// on a both go to both states, on b only the second and on c only the first goes anywhere: all pairs, and all
// states alone, are reached
fn names() {
    hash_order(4);
    let f = slice(4);
    let (s, t) = (any_names::<2>(f), any_names::<2>(f));
    let go = |c: usize| vec![vec![0, 1], if c == 1 { vec![0, 1] } else { vec![] }, if c == 2 { vec![0, 1] } else { vec![] }];
    let x = dandy::verif::nfa(&AL[..3], vec![(s[0], true, vec![], go(2)), (s[1], false, vec![], go(2))], 0);
    let y = dandy::verif::nfa(&AL[..3], vec![(t[0], true, vec![], go(1)), (t[1], false, vec![], go(1))], 0);
    match x.product_construction(&y, |_, _| true) {
        None => check(false, "the product exists"),
        Some(z) => {
            let n = z.states().len();
            check(n == 8, "all pairs are reachable");
            for i in 0..8 {
                for j in 0..i {
                    check(z.states()[i].name() != z.states()[j].name(), "names of states are distinct");
                }
            }
        }
    }
}
entries! {
    vx_names = names;
    vx_product_22 = product::<2, 2, 1, 8, 6>;
    vx_product_222 = product::<2, 2, 2, 8, 3>;
    vx_product_213 = product::<2, 1, 3, 5, 3>;
    vx_product_123 = product::<1, 2, 3, 5, 3>;
    vx_alphabets = alphabets;
}
