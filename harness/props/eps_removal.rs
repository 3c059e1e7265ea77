// Removing ε-moves keeps the language and leaves no ε-moves
fn remove<const N: usize, const K: usize, const R: usize, const L: usize>() {
    hash_order(2);
    let a = A::<N, K>::any(slice(N), true);
    const OTHER: [[&str; 3]; 2] = [["p", "q", "r"], ["s_new", "0", "init"]];
    let names = OTHER[choice(2)];
    let mut x = a.build_named(&AL[..K], &names);
    let optimize = any();
    if optimize {
        x.optimize();
    } else {
        x.remove_epsilon_moves();
    }
    for c in 0..K {
        check(*x.alphabet()[c] == *AL[c], "the alphabet is kept");
    }
    check(!x.has_epsilon_moves(), "no ε-moves are left");
    let r = A::<R, K>::read(&x, &ident());
    for i in 0..R {
        for j in 0..R {
            check(!r.eps[i][j], "no ε-moves are left");
        }
        for j in 0..i {
            check(i >= r.n || x.states()[i].name() != x.states()[j].name(), "names of states are distinct");
        }
    }
    let (w, n) = any_word::<L>(K);
    let want = a.accepts(&w, n);
    observe(want as usize);
    check(r.accepts(&w, n) == want, "the language is kept");
    cover(want && n == L, "an accepted word");
    cover(r.n == N + 1, "a new initial state");
    cover(r.n == 1, "states are removed");
}
fn names() {
    let s = any_names::<3>(slice(4));
    let e = |v: Vec<usize>| if any() { v } else { vec![] };
    let (e0, e1) = (e(vec![1, 2]), e(vec![2]));
    let (t0, t1) = (vec![e(vec![0, 1])], vec![e(vec![2])]);
    let mut x = dandy::verif::nfa(&AL[..1], vec![(s[0], any(), e0, t0), (s[1], any(), e1, t1), (s[2], true, vec![], vec![vec![1]])], 0);
    x.remove_epsilon_moves();
    let n = x.states().len();
    for i in 0..n {
        for j in 0..i {
            check(x.states()[i].name() != x.states()[j].name(), "names of states are distinct");
        }
    }
}
entries! {
    vx_names = names;
    vx_remove_2 = remove::<2, 2, 3, 6>;
    vx_remove_3u = remove::<3, 1, 4, 12>;
    vx_remove_3 = remove::<3, 2, 4, 4>;
}
