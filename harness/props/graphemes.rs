// Words given as text: the text is the sequence of its extended grapheme clusters
const A_: usize = 0;
const E_: usize = 1;
const MARK: usize = 2;
const CR: usize = 3;
const LF: usize = 4;
const FLAG: usize = 5;
const X_: usize = 6;
const SPACING: usize = 7;
const PREPEND: usize = 8;
const ZWJ: usize = 9;
const PICT: usize = 10;
const L_: usize = 11;
const V_: usize = 12;
const T_: usize = 13;
const LV: usize = 14;
const C: [&str; 15] = [
    "a", "e", "\u{301}", "\r", "\n", "🇸", "x", "\u{903}", "\u{600}", "\u{200d}", "👶", "\u{1100}", "\u{1161}", "\u{11a8}", "\u{ac00}",
];
/// the characters of texts, in three families
const FAMILY: [[usize; 7]; 3] = [
    [A_, E_, MARK, CR, LF, FLAG, X_],
    [A_, MARK, SPACING, PREPEND, ZWJ, PICT, LF],
    [L_, V_, T_, LV, MARK, FLAG, A_],
];
/// the alphabets, as sequences of characters; the first 8 with the first family, then 4 with each of the others
const ALPHA: [[&[usize]; 2]; 16] = [
    [&[A_], &[E_, MARK]],
    [&[E_], &[E_, MARK]],
    [&[MARK], &[E_, MARK, MARK]],
    [&[CR], &[CR, LF]],
    [&[FLAG, FLAG], &[FLAG]],
    [&[A_, E_], &[A_]],
    [&[LF], &[LF, MARK]],
    [&[FLAG, FLAG], &[FLAG, FLAG, FLAG]],
    [&[A_, SPACING], &[A_]],
    [&[PICT, ZWJ, PICT], &[PICT]],
    [&[PREPEND, A_], &[PREPEND]],
    [&[PICT, MARK, ZWJ, PICT], &[ZWJ]],
    [&[L_, V_], &[L_, V_, T_]],
    [&[LV, T_], &[LV]],
    [&[L_, L_, V_], &[V_, T_]],
    [&[T_], &[FLAG, FLAG]],
];
fn family(alphabet: usize) -> &'static [usize; 7] {
    &FAMILY[if alphabet < 8 { 0 } else { alphabet / 4 - 1 }]
}
fn code(s: &[usize]) -> usize {
    let mut k = 0;
    for c in s {
        k = k * 16 + c + 1;
    }
    k
}
fn text(s: &[usize]) -> String {
    let mut t = String::with_capacity(64);
    for &c in s {
        t.push_str(C[c]);
    }
    t
}
/// does character c join the cluster that ends in character last? pict: 1 the cluster ends in a pictograph and marks, 2 and
/// then a joiner; flags: that many regional indicators precede
fn joins(last: usize, pict: usize, flags: usize, c: usize) -> bool {
    if last == CR || last == LF || c == CR || c == LF {
        return last == CR && c == LF;
    }
    if c == MARK || c == ZWJ || c == SPACING || last == PREPEND {
        return true;
    }
    match c {
        L_ | LV => last == L_,
        V_ => last == L_ || last == V_ || last == LV,
        T_ => last == V_ || last == LV || last == T_,
        PICT => pict == 2,
        FLAG => flags % 2 == 1,
        _ => false,
    }
}
/// the clusters of a text, as codes; their number
fn clusters<const L: usize>(s: &[usize; L], n: usize) -> ([usize; L], usize) {
    let mut out = [0; L];
    let mut k = 0;
    let mut now = 0;
    let (mut pict, mut flags) = (0, 0);
    for i in 0..L {
        if i < n {
            let c = s[i];
            if i > 0 && joins(s[i - 1], pict, flags, c) {
                now = now * 16 + c + 1;
            } else {
                now = c + 1;
                k += 1;
            }
            pict = match c {
                PICT => 1,
                MARK => pict % 2,
                ZWJ => if pict == 1 { 2 } else { 0 },
                _ => 0,
            };
            flags = if c == FLAG { flags + 1 } else { 0 };
            for j in 0..L {
                if j + 1 == k {
                    out[j] = now;
                }
            }
        }
    }
    (out, k)
}
fn any_text<const L: usize>(f: &[usize; 7]) -> ([usize; L], usize, String) {
    let n = choice(L + 1);
    let mut s = [0; L];
    let mut t = String::with_capacity(64);
    for i in 0..L {
        if i < n {
            s[i] = f[choice(7)];
            t.push_str(C[s[i]]);
        }
    }
    (s, n, t)
}

fn word<const L: usize>(al: &[&[usize]; 2], s: &[usize; L], n: usize) -> ([usize; L], usize) {
    let (cl, k) = clusters(s, n);
    let mut w = [2; L];
    for i in 0..L {
        for c in 0..2 {
            if cl[i] == code(al[c]) {
                w[i] = c;
            }
        }
    }
    (w, k)
}
fn dfa<const N: usize, const L: usize>() {
    let y = slice(16);
    let al = &ALPHA[y];
    hash_order(2);
    let a = D::<N, 2>::any(choice(N));
    let d = a.build(&[&text(al[0]), &text(al[1])]);
    let (s, n, t) = any_text::<L>(family(y));
    let (w, k) = word(al, &s, n);
    let mut known = true;
    for i in 0..L {
        known &= i >= k || w[i] < 2;
    }
    let want = known && a.accepts(&w, k);
    observe(want as usize);
    check(d.accepts_graphemes(&t) == want, "the text is accepted exactly if the sequence of its clusters is");
    cover(known && k == 2, "a text of two clusters of the alphabet");
    cover(!known && k == L, "unknown clusters");
    cover(k < n && known, "characters joined");
}
fn nfa<const N: usize, const L: usize>() {
    let y = slice(16);
    let al = &ALPHA[y];
    hash_order(2);
    let a = A::<N, 2>::any(choice(N), true);
    let d = a.build(&[&text(al[0]), &text(al[1])]);
    let (s, n, t) = any_text::<L>(family(y));
    let (w, k) = word(al, &s, n);
    let want = a.accepts(&w, k);
    observe(want as usize);
    check(d.accepts_graphemes(&t) == want, "the text is accepted exactly if the sequence of its clusters is");
    cover(want && k == 2, "a text of two clusters of the alphabet");
    cover(!want && k == L, "a text of as many clusters as characters");
    cover(k < n && want, "characters joined");
}
fn only<const L: usize>() {
    let f = &FAMILY[slice(3)];
    let (s0, n0, t0) = any_text::<L>(f);
    let (s1, n1, t1) = any_text::<L>(f);
    let m = choice(3);
    let want = (m < 1 || clusters(&s0, n0).1 == 1) && (m < 2 || clusters(&s1, n1).1 == 1);
    let both = [&t0[..], &t1[..]];
    let d = dandy::verif::dfa(&both[..m], vec![("p", false, vec![0; m])], 0);
    check(d.graphemes_only() == want, "DFA: graphemes_only exactly if each symbol is one cluster");
    let e = dandy::verif::nfa(&both[..m], vec![("p", false, vec![], vec![vec![]; m])], 0);
    check(e.graphemes_only() == want, "NFA: graphemes_only exactly if each symbol is one cluster");
    observe(want as usize);
    cover(want && m == 2 && n0 == L && n1 == L, "two symbols of several characters");
    cover(!want && m == 2 && n1 == 0, "the empty symbol");
}
entries! {
    vx_dfa_3 = dfa::<3, 6>;
    vx_dfa_3w = dfa::<3, 8>;
    vx_nfa_2 = nfa::<2, 5>;
    vx_nfa_2w = nfa::<2, 7>;
    vx_only = only::<4>;
}
