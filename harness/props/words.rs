// Enumeration of the words of an NFA without ε-moves: shortest first, then by the order of the alphabet; all of them, once
/// W: the number of words of at most LMAX symbols; T: words asked for
fn words<const N: usize, const K: usize, const LMAX: usize, const W: usize, const T: usize>() {
    hash_order(2);
    let a = A::<N, K>::any(slice(N), false);
    let x = a.build(&AL[..K]);
    // all words, in order
    let mut len = [0; W];
    let mut words = [[0; LMAX]; W];
    let mut k = 1;
    let mut from = 0;
    for l in 1..=LMAX {
        let to = k;
        for p in from..to {
            for c in 0..K {
                words[k] = words[p];
                words[k][l - 1] = c;
                len[k] = l;
                k += 1;
            }
        }
        from = to;
    }
    let mut acc = [false; W];
    let cl = a.closure();
    for i in 0..W {
        let mut s = a.start(&cl);
        for l in 0..len[i] {
            s = a.step(&cl, &s, words[i][l]);
        }
        acc[i] = a.accepting(&s);
    }
    let mut it = x.word_component_indices();
    // position after the last word returned
    let mut at = 0;
    let mut ended = false;
    for _ in 0..T {
        let got = it.next();
        // the first accepted word from at
        let mut want = W;
        for i in (0..W).rev() {
            if i >= at && acc[i] {
                want = i;
            }
        }
        if want < W && !ended {
            match &got {
                None => check(false, "no accepted word is left out"),
                Some(g) => {
                    let mut same = false;
                    for i in 0..W {
                        if i == want {
                            same = g.len() == len[i];
                            for l in 0..LMAX {
                                same &= l >= len[i] || (l < g.len() && g[l] == words[i][l]);
                            }
                        }
                    }
                    check(same, "the words come in order, without gaps or repetition");
                }
            }
            at = want + 1;
        } else {
            // nothing more up to LMAX symbols
            let lastlen = if at == 0 { 0 } else { len[at - 1] };
            match &got {
                None => ended = true,
                Some(g) => {
                    check(!ended, "once ended, the enumeration stays ended");
                    check(g.len() > LMAX, "only accepted words are returned");
                    // there is no accepted word in N successive lengths: there is none at all
                    check(lastlen + N > LMAX, "the enumeration of a finite language ends");
                    // beyond the bound
                    assume(false);
                }
            }
        }
        observe(at);
    }
    cover(ended && at > 0, "a finite language");
    cover(!ended && at == T, "every word is accepted");
}
// strings and components are the words spelled in the alphabet
fn spelling<const N: usize>() {
    const S: [[&str; 2]; 2] = [["a", "b"], ["bb", "å"]];
    hash_order(2);
    let al = S[choice(2)];
    let a = A::<N, 2>::any(slice(N), false);
    let x = a.build(&al);
    let mut i = x.word_component_indices();
    let mut c = x.word_components();
    let mut w = x.words();
    for _ in 0..3 {
        match (i.next(), c.next(), w.next()) {
            (None, None, None) => (),
            (Some(i), Some(c), Some(w)) => {
                check(i.len() == c.len(), "components: as long as the indices");
                let mut at = 0;
                for k in 0..i.len() {
                    check(*c[k] == *al[i[k]], "components: the symbols with these indices");
                    let s = al[i[k]];
                    check(w.as_bytes()[at..].starts_with(s.as_bytes()), "strings: the concatenation of the components");
                    at += s.len();
                }
                check(w.len() == at, "strings: nothing more than the components");
                observe(at);
            }
            _ => check(false, "the enumerations are of the same length"),
        }
    }
}
entries! {
    vx_words_2 = words::<2, 2, 4, 31, 5>;
    vx_words_3u = words::<3, 1, 6, 7, 7>;
    vx_words_3 = words::<3, 2, 4, 31, 4>;
    vx_spelling = spelling::<2>;
}
