// The commands union, intersection, difference and symmetric-difference: what is printed is the automaton of the operation
use dandy::dfa::Dfa;
include!("cli_run.inc");

fn op(k: usize, a: bool, b: bool) -> bool {
    match k {
        0 => a | b,
        1 => a & b,
        2 => a & !b,
        _ => a != b,
    }
}
fn same_alphabet<const K: usize>(x: &impl Lang<K>, y: &impl Lang<K>) -> bool {
    let mut same = true;
    for c in 0..K {
        same &= x.alphabet()[c] == y.alphabet()[c];
    }
    same
}
fn has_symbols<const K: usize>(x: &impl Lang<K>) -> bool {
    let mut some = false;
    for c in 0..K {
        some |= x.alphabet()[c];
    }
    some
}
/// which of all_words the operation says; words with symbols of no alphabet are not counted
fn combined<const K: usize, const LMAX: usize, const W: usize>(k: usize, x: &impl Lang<K>, y: &impl Lang<K>) -> [bool; W] {
    let (words, len) = all_words::<K, LMAX, W>();
    let (a, b) = (members::<K, LMAX, W>(x), members::<K, LMAX, W>(y));
    let mut want = [false; W];
    for i in 0..W {
        let mut known = true;
        for l in 0..len[i] {
            known &= x.alphabet()[words[i][l]];
        }
        want[i] = known && op(k, a[i], b[i]);
    }
    want
}
/// the table comes first; what follows it starts with a headline
fn table_of(out: &[String]) -> (String, usize) {
    let mut t = String::with_capacity(64);
    let mut at = 0;
    for l in out {
        if l.starts_with("First ") {
            return (t, at);
        }
        t.push_str(l);
        t.push('\n');
        at += 1;
    }
    (t, at)
}
fn table<const K: usize, const LMAX: usize, const W: usize, X: Lang<K>, Y: Lang<K>>(x: X, y: Y) {
    hash_order(1);
    let k = choice(4);
    let small = any();
    let full = same_alphabet(&x, &y);
    // no table can be written for an automaton without symbols
    assume(!full || has_symbols(&x));
    cli::clear_files();
    cli::set_file("1", x.text());
    cli::set_file("2", y.text());
    let t2 = if X::TY != Y::TY || any() { Some(Y::TY) } else { None };
    let (ok, out) = binary_of(k, X::TY, t2, small, None, None, "1", "2", "3");
    check(ok == full, "there is a result exactly if the alphabets are the same");
    if !full {
        check(out.len() == 0, "nothing is printed without a result");
        return;
    }
    let (printed, at) = table_of(&out);
    check(at == out.len(), "one table is printed");
    let d: Dfa = match dandy::parser::dfa(&printed) {
        Ok(p) => match p.try_into() {
            Ok(d) => d,
            Err(_) => return check(false, "the table is that of a DFA"),
        },
        Err(_) => return check(false, "what is printed is a table"),
    };
    let mut symbols = 0;
    for c in 0..K {
        symbols += x.alphabet()[c] as usize;
    }
    check(d.alphabet().len() == symbols, "size of the alphabet");
    let (words, len) = all_words::<K, LMAX, W>();
    let want = combined::<K, LMAX, W>(k, &x, &y);
    for i in 0..W {
        let mut w = [""; LMAX];
        for l in 0..len[i] {
            w[l] = AL[words[i][l]];
        }
        check(d.accepts(&w[..len[i]]) == want[i], "the automaton printed accepts what the operation says");
    }
    observe(d.states().len());
    if small {
        let mut e = d.clone();
        e.minimize();
        check(d.states().len() == e.states().len(), "a minimized result is as small as can be");
    }
    cover(small && d.states().len() == 2, "a minimized result");
    cover(!small && d.states().len() > 1, "a result not minimized");
}
/// the words listed, and the comparison with a third automaton
fn more<const K: usize, const LMAX: usize, const W: usize, X: Lang<K>, Y: Lang<K>, Z: Lang<K>>(x: X, y: Y, z: Z, most: usize) {
    hash_order(1);
    let k = choice(4);
    let n = choice(most + 1);
    let compare = any();
    let small = any();
    cli::clear_files();
    cli::set_file("1", x.text());
    cli::set_file("2", y.text());
    cli::set_file("3", z.text());
    let (ok, out) = binary_of(k, X::TY, Some(Y::TY), small, Some(n), if compare { Some(Z::TY) } else { None }, "1", "2", "3");
    check(ok, "the command succeeds");
    let (words, len) = all_words::<K, LMAX, W>();
    let want = combined::<K, LMAX, W>(k, &x, &y);
    // the table, a headline, the words
    let (_, t) = table_of(&out);
    let first = t + 1;
    let mut at = first;
    for i in 0..W {
        if want[i] && at < n + first {
            check(at < out.len(), "no word is left out");
            if i == 0 {
                check(out[at] == "(empty word)", "the empty word is named");
            } else {
                let s = out[at].as_bytes();
                let mut same = s.len() == len[i];
                for l in 0..len[i] {
                    same = same && s[l] == AL[words[i][l]].as_bytes()[0];
                }
                check(same, "the words come in order");
            }
            at += 1;
        }
    }
    if at < n + first {
        // longer words than we look at are accepted only if ... (see the bounds)
        let more = out.len() - compare as usize - at;
        check(more == 1, "it is said that there are not as many words as asked for");
    } else {
        check(out.len() == at + compare as usize, "nothing else is printed");
    }
    if compare {
        let m = members::<K, LMAX, W>(&z);
        let mut eq = true;
        for i in 0..W {
            eq &= m[i] == want[i];
        }
        let last = &out[out.len() - 1];
        check(last.contains("EQUIVALENT"), "the comparison is reported");
        check(last.contains("NOT EQUIVALENT") == !eq, "the result is reported equivalent to the third exactly if it is");
        cover(eq, "equivalent");
        cover(!eq, "not equivalent");
    }
    observe(out.len() - t);
    cover(n == most && at == n + first, "as many words as asked for");
    cover(n > 0 && at == first, "no words");
}
fn du<const N: usize>(i: usize) -> D<N, 1> {
    D::any(i)
}
fn d2<const N: usize>(i: usize) -> D<N, 2> {
    D::any(i)
}
fn nu<const N: usize>(i: usize) -> A<N, 1> {
    A::any(i, true)
}
fn n2<const N: usize>(i: usize) -> A<N, 2> {
    A::any(i, true)
}
entries! {
    vx_dd_22 = dd_22;
    vx_dd_33 = dd_33;
    vx_dd_222 = dd_222;
    vx_dn_22 = dn_22;
    vx_nd_212 = nd_212;
    vx_nn_22 = nn_22;
    vx_rd_1 = rd_1;
    vx_nr_1 = nr_1;
    vx_rr_1 = rr_1;
    vx_more_ddd = more_ddd;
    vx_more_dnr = more_dnr;
}
fn dd_22() {
    table::<1, 6, 7, _, _>(du::<2>(choice(2)), du::<2>(slice(2)))
}
fn dd_33() {
    table::<1, 8, 9, _, _>(du::<3>(choice(3)), du::<3>(slice(3)))
}
fn dd_222() {
    table::<2, 4, 31, _, _>(d2::<2>(choice(2)), d2::<2>(slice(2)))
}
fn dn_22() {
    table::<1, 6, 7, _, _>(du::<2>(choice(2)), nu::<2>(slice(2)))
}
fn nd_212() {
    table::<2, 4, 31, _, _>(n2::<2>(slice(2)), d2::<1>(0))
}
fn nn_22() {
    table::<1, 6, 7, _, _>(nu::<2>(choice(2)), nu::<2>(slice(2)))
}
fn rd_1() {
    table::<2, 3, 15, _, _>(E::<4>::any(1, 2), d2::<2>(slice(2)))
}
fn nr_1() {
    table::<1, 5, 6, _, _>(nu::<2>(slice(2)), E::<6>::any(1, 1))
}
fn rr_1() {
    table::<2, 3, 15, _, _>(E::<4>::any(1, 2), E::<4>::any(1, 2))
}
fn more_ddd() {
    more::<1, 8, 9, _, _, _>(du::<2>(choice(2)), du::<2>(slice(2)), du::<2>(choice(2)), 4)
}
fn more_dnr() {
    more::<1, 8, 9, _, _, _>(du::<2>(choice(2)), nu::<2>(slice(2)), nu::<2>(choice(2)), 4)
}
