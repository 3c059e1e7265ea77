// NFA union: exactly the words of either
fn permutation<const K: usize>() -> ([usize; K], [&'static str; K]) {
    const P: [[usize; 3]; 6] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
    let p = choice(if K == 1 { 1 } else if K == 2 { 2 } else { 6 });
    let mut perm = [0; K];
    let mut al = [""; K];
    for c in 0..K {
        perm[c] = if K == 2 { (c + p) % 2 } else { P[p][c] };
        al[c] = AL[perm[c]];
    }
    (perm, al)
}
fn columns<const K: usize>(al: &[std::rc::Rc<str>]) -> [usize; K] {
    check(al.len() == K, "the alphabet of the result is that of the operands");
    let mut col = [K; K];
    for c in 0..K {
        for k in 0..K {
            if *al[c] == *AL[k] {
                col[k] = c;
            }
        }
    }
    for k in 0..K {
        check(col[k] < K, "the alphabet of the result is that of the operands");
    }
    col
}
fn union<const N: usize, const M: usize, const K: usize, const R: usize, const L: usize>() {
    hash_order(2);
    let a = A::<N, K>::any(slice(N), true);
    let b = A::<M, K>::any(choice(M), true);
    let (perm, al2) = permutation::<K>();
    // b speaks of the symbols of a; b2 is the same with its columns permuted
    let mut b2 = b.clone();
    for i in 0..M {
        for c in 0..K {
            b2.t[i][c] = b.t[i][perm[c]];
        }
    }
    const OTHER: [[&str; 2]; 3] = [["p", "q"], ["x", "y"], ["s_new", "2"]];
    let names = OTHER[choice(3)];
    let x = a.build(&AL[..K]);
    let y = b2.build_named(&al2, &names);
    let z = match x.union(y) {
        Ok(z) => z,
        Err(_) => {
            check(false, "the union exists for permuted alphabets");
            return;
        }
    };
    let col = columns::<K>(z.alphabet());
    let r = A::<R, K>::read(&z, &col);
    for i in 0..R {
        for j in 0..i {
            check(i >= r.n || z.states()[i].name() != z.states()[j].name(), "names of states are distinct");
        }
    }
    let (w, n) = any_word::<L>(K);
    let want = a.accepts(&w, n) | b.accepts(&w, n);
    observe(want as usize);
    check(r.accepts(&w, n) == want, "the union accepts the words of either");
    cover(want && n == L, "an accepted word");
    cover(!want && n == L, "a rejected word");
}
const SYM: [&str; 4] = ["a", "b", "ab", "c"];
fn alphabets() {
    hash_order(8);
    let n = 1 + choice(3);
    let m = 1 + choice(3);
    let al = [SYM[choice(4)], SYM[choice(4)], SYM[choice(4)]];
    let be = [SYM[choice(4)], SYM[choice(4)], SYM[choice(4)]];
    assume(al[0] != al[1] && al[0] != al[2] && al[1] != al[2]);
    assume(be[0] != be[1] && be[0] != be[2] && be[1] != be[2]);
    let x = dandy::verif::nfa(&al[..n], vec![("p", true, vec![], vec![vec![0]; n])], 0);
    let y = dandy::verif::nfa(&be[..m], vec![("q", false, vec![0], vec![vec![]; m])], 0);
    let mut same = n == m;
    for i in 0..3 {
        let mut found = false;
        for j in 0..3 {
            found |= (j < m) & (al[i] == be[j]);
        }
        same &= found | (i >= n);
    }
    observe(same as usize);
    let (x0, y0) = (x.clone(), y.clone());
    match x.union(y) {
        Ok(_) => check(same, "there is a union only for equal alphabets"),
        Err((x1, y1)) => {
            check(!same, "there is a union for equal alphabets");
            check(x1 == x0 && y1 == y0, "without a union the operands are given back");
        }
    }
    cover(same && n == 3, "equal alphabets");
    cover(!same && n == m, "different alphabets of the same size");
}
fn names() {
    let f = slice(4);
    let (s, t) = (any_names::<2>(f), any_names::<2>(f));
    let x = dandy::verif::nfa(&AL[..1], vec![(s[0], true, vec![1], vec![vec![1]]), (s[1], false, vec![], vec![vec![0]])], 0);
    let y = dandy::verif::nfa(&AL[..1], vec![(t[0], true, vec![], vec![vec![1]]), (t[1], false, vec![0], vec![vec![0]])], 1);
    match x.union(y) {
        Err(_) => check(false, "the union exists"),
        Ok(z) => {
            let n = z.states().len();
            for i in 0..n {
                for j in 0..i {
                    check(z.states()[i].name() != z.states()[j].name(), "names of states are distinct");
                }
            }
        }
    }
}
entries! {
    vx_names = names;
    vx_union_22 = union::<2, 2, 2, 5, 4>;
    vx_union_213 = union::<2, 1, 3, 4, 3>;
    vx_union_123 = union::<1, 2, 3, 4, 3>;
    vx_union_32u = union::<3, 2, 1, 6, 8>;
    vx_union_22w = union::<2, 2, 2, 5, 8>;
    vx_alphabets = alphabets;
}
