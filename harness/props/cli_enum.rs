// The enumerate commands print the first words of the language
include!("cli_run.inc");
const MOST: usize = 5;

/// printed exactly: the first n accepted words in order
fn printed<const K: usize, const LMAX: usize, const W: usize>(out: &[String], n: usize, x: &impl Lang<K>, order: &[usize; K]) {
    let (words, len) = all_words::<K, LMAX, W>();
    let mut acc = [false; W];
    for i in 0..W {
        let mut w = [0; LMAX];
        for l in 0..len[i] {
            w[l] = order[words[i][l]];
        }
        acc[i] = x.has(&w[..len[i]]);
    }
    let mut k = 0;
    for i in 0..W {
        if acc[i] && k < n {
            check(k < out.len(), "no word is left out");
            if i == 0 {
                check(out[k] == "(empty word)", "the empty word is named");
            } else {
                let s = out[k].as_bytes();
                let mut same = s.len() == len[i];
                for l in 0..len[i] {
                    same = same && s[l] == AL[order[words[i][l]]].as_bytes()[0];
                }
                check(same, "the words come in order");
            }
            k += 1;
        }
    }
    check(out.len() <= n, "no more words than asked for");
    for i in 0..MOST {
        if i >= k && i < out.len() {
            check(out[i].len() > LMAX, "what follows are longer words");
        }
    }
    observe(out.len());
    cover(k == n && acc[0], "as many words as asked for");
    cover(k < n && k > 0 && out.len() == k, "fewer words than asked for");
}
fn file<const K: usize, const LMAX: usize, const W: usize, X: Lang<K>>(x: X, most: usize) {
    let n = choice(most + 1);
    hash_order(2);
    cli::clear_files();
    cli::set_file("f", x.text());
    let (ok, out) = enumerate_of(X::TY, n, "f");
    check(ok, "the command succeeds");
    printed::<K, LMAX, W>(&out, n, &x, &order::<K>(X::TY, &x.text()));
}
/// an expression does not say in which order its symbols come: ask its NFA
fn order<const K: usize>(ty: usize, text: &str) -> [usize; K] {
    let mut o = ident::<K>();
    if ty == 2 && K == 2 {
        let x = dandy::parser::regex(text).unwrap().to_nfa();
        let b = x.alphabet().len() > 0 && &*x.alphabet()[0] == AL[1];
        o[0] = b as usize;
        o[1] = !b as usize;
    }
    o
}
fn expression<const K: usize, const LMAX: usize, const W: usize, const P: usize>(x: E<P>, most: usize) {
    let n = choice(most + 1);
    hash_order(1);
    let text = <E<P> as Lang<K>>::text(&x);
    let (ok, out) = enumerate_expression(n, text.clone());
    check(ok, "the command succeeds");
    printed::<K, LMAX, W>(&out, n, &x, &order::<K>(2, &text));
}
fn dfa_2() {
    file::<2, 3, 15, _>(D::<2, 2>::any(slice(2)), 4)
}
fn dfa_3u() {
    file::<1, 6, 7, _>(D::<3, 1>::any(slice(3)), 4)
}
fn nfa_2u() {
    file::<1, 5, 6, _>(A::<2, 1>::any(slice(2), true), 4)
}
fn nfa_2() {
    file::<2, 2, 7, _>(A::<2, 2>::any(slice(2), true), 3)
}
fn regex_1() {
    file::<2, 2, 7, _>(E::<3>::any(1, 2), 3)
}
fn regex_2() {
    file::<2, 3, 15, _>(E::<4>::any(2, 2), 3)
}
fn expression_1() {
    expression::<2, 2, 7, 3>(E::any(1, 2), 3)
}
entries! {
    vx_dfa_2 = dfa_2;
    vx_dfa_3u = dfa_3u;
    vx_nfa_2u = nfa_2u;
    vx_nfa_2 = nfa_2;
    vx_regex_1 = regex_1;
    vx_regex_2 = regex_2;
    vx_expression_1 = expression_1;
}
