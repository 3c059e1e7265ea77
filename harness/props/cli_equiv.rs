// The command equivalence: each file is reported equivalent exactly if it defines the language of the first
include!("cli_run.inc");

/// how many classes of reachable states
fn fewest<const N: usize, const K: usize>(d: &D<N, K>) -> usize {
    let r = d.reach();
    let e = d.dist();
    let mut n = 0;
    for i in 0..N {
        let mut new = r[i];
        for j in 0..i {
            new &= !r[j] | e[i][j];
        }
        n += new as usize;
    }
    n
}
fn same<const K: usize, const LMAX: usize, const W: usize>(x: &impl Lang<K>, y: &impl Lang<K>) -> bool {
    let mut same = true;
    for c in 0..K {
        same &= x.alphabet()[c] == y.alphabet()[c];
    }
    let (a, b) = (members::<K, LMAX, W>(x), members::<K, LMAX, W>(y));
    for i in 0..W {
        same &= a[i] == b[i];
    }
    same
}
fn result(out: &String, bool_: bool, same: bool, too_big: bool) {
    if bool_ {
        check(out == if same && !too_big { "true" } else { "false" }, "true exactly if equivalent");
    } else if same && too_big {
        check(out == "Equivalent but not minimized", "equivalent, but more states than needed");
    } else if same {
        check(out == "Equivalent", "the same language is reported as equivalent");
    } else {
        check(out == "Not Equivalent", "different languages are reported as not equivalent");
    }
    cover(same && !too_big, "equivalent");
    cover(!same, "not equivalent");
}
/// one automaton against another
fn one<const K: usize, const LMAX: usize, const W: usize, X: Lang<K>, Y: Lang<K>>(x: X, y: Y) {
    hash_order(1);
    let bool_ = any();
    cli::clear_files();
    cli::set_file("1", x.text());
    cli::set_file("2", y.text());
    let t = if X::TY != Y::TY || any() { Some(X::TY) } else { None };
    let (ok, out) = equivalence_of(t, Y::TY, false, bool_, Some(0), "1", &["2"]);
    check(ok, "the command succeeds");
    check(out.len() == 1, "one result per file");
    result(&out[0], bool_, same::<K, LMAX, W>(&x, &y), false);
    observe(out[0].len());
}
/// with the option to require as few states as can be
fn minimized<const K: usize, const LMAX: usize, const W: usize, const N: usize, X: Lang<K>>(x: X, y: D<N, K>) {
    hash_order(1);
    let bool_ = any();
    cli::clear_files();
    cli::set_file("1", x.text());
    cli::set_file("2", y.text());
    let (ok, out) = equivalence_of(Some(X::TY), 0, true, bool_, Some(0), "1", &["2"]);
    check(ok, "the command succeeds");
    check(out.len() == 1, "one result per file");
    let (eq, big) = (same::<K, LMAX, W>(&x, &y), fewest(&y) < N);
    result(&out[0], bool_, eq, big);
    cover(eq && big, "too many states");
    observe(out[0].len());
}
/// several files, some of them bad
fn several() {
    hash_order(1);
    let (x, y, z) = (D::<1, 1>::any(0), D::<2, 1>::any(choice(2)), D::<1, 1>::any(0));
    let bad = ["", "a\n->", " a\n-> p q", " a\n p p", " a\n-> p p\n-> p p", "a a\n-> p p p"];
    let n = choice(4);
    let mut kind = [0; 3];
    let mut paths = ["x/missing"; 3];
    cli::clear_files();
    cli::set_file("1", x.text());
    cli::set_file("x/y", y.text());
    cli::set_file("x/z", z.text());
    cli::set_file("x/bad", bad[choice(6)].into());
    for i in 0..3 {
        kind[i] = choice(4);
        paths[i] = ["x/y", "x/z", "x/bad", "x/missing"][kind[i]];
    }
    let (ok, out) = equivalence_of(None, 0, false, true, if any() { None } else { Some(2) }, "1", &paths[..n]);
    check(ok, "the command succeeds");
    check(out.len() == n, "one result per file");
    let sy = same::<1, 4, 5>(&x, &y);
    let sz = same::<1, 4, 5>(&x, &z);
    for i in 0..3 {
        if i < n {
            let eq = match kind[i] {
                0 => sy,
                1 => sz,
                _ => false,
            };
            let p = ["x/y: ", "x/z: ", "x/bad: ", "x/missing: "][kind[i]];
            check(out[i].starts_with(p), "the results come in the order of the files, with their names");
            check(&out[i][p.len()..] == if eq { "true" } else { "false" }, "each file is judged by itself");
            cover(eq && i == 2 && kind[0] == 2, "an equivalent one after a bad one");
        }
    }
    observe(out.len());
}
/// what is no automaton is reported as such
fn failures() {
    hash_order(1);
    cli::clear_files();
    let t = choice(3);
    cli::set_file("1", ["a\n-> p p", "a\n-> p {p}", "a"][t].into());
    let k = choice(4);
    let text = match k {
        0 => "",
        1 => ["a\n p p", "a\n p {p}", "("][t],
        2 => ["a\n-> p q", "a\n-> p {q}", "*"][t],
        _ => ["-> p", "-> p{", "|"][t],
    };
    cli::set_file("2", text.into());
    let (ok, out) = equivalence_of(None, t, false, false, Some(0), "1", &["2", "3"]);
    check(ok, "the command succeeds");
    check(out.len() == 2, "one result per file");
    let valid = t < 2 && (k == 1 || k == 2);
    check(out[0].starts_with(if valid { "Failed to validate (" } else { "Failed to parse (" }), "the reason of the failure");
    check(out[1].starts_with("Failed to read ("), "a missing file");
    let (ok, out) = equivalence_of(None, t, false, false, Some(0), "2", &["1"]);
    check(!ok && out.len() == 0, "nothing is compared to what is no automaton");
    let (ok, out) = equivalence_of(None, t, true, false, Some(0), "1", &["1"]);
    check(ok == (t == 0), "states are only counted in DFAs");
    observe(out.len());
}
fn du<const N: usize>(i: usize) -> D<N, 1> {
    D::any(i)
}
fn d2<const N: usize>(i: usize) -> D<N, 2> {
    D::any(i)
}
fn nu<const N: usize>(i: usize) -> A<N, 1> {
    A::any(i, true)
}
fn n2<const N: usize>(i: usize) -> A<N, 2> {
    A::any(i, true)
}
entries! {
    vx_dd_33 = dd_33;
    vx_dd_222 = dd_222;
    vx_dn_22 = dn_22;
    vx_nd_212 = nd_212;
    vx_nn_22 = nn_22;
    vx_rd_1 = rd_1;
    vx_nr_1 = nr_1;
    vx_rr_1 = rr_1;
    vx_min_dd = min_dd;
    vx_min_dd2 = min_dd2;
    vx_min_nd = min_nd;
    vx_min_rd = min_rd;
    vx_several = several;
    vx_failures = failures;
}
fn dd_33() {
    one::<1, 5, 6, _, _>(du::<3>(choice(3)), du::<3>(slice(3)))
}
fn dd_222() {
    one::<2, 3, 15, _, _>(d2::<2>(choice(2)), d2::<2>(slice(2)))
}
fn dn_22() {
    one::<1, 6, 7, _, _>(du::<2>(choice(2)), nu::<2>(slice(2)))
}
fn nd_212() {
    one::<2, 4, 31, _, _>(n2::<2>(slice(2)), d2::<1>(0))
}
fn nn_22() {
    one::<1, 8, 9, _, _>(nu::<2>(choice(2)), nu::<2>(slice(2)))
}
fn rd_1() {
    one::<2, 4, 31, _, _>(E::<5>::any(1, 2), D::<3, 2>::any_sliced())
}
fn nr_1() {
    one::<1, 7, 8, _, _>(nu::<2>(slice(2)), E::<8>::any(1, 1))
}
fn rr_1() {
    one::<2, 4, 31, _, _>(E::<5>::any(1, 2), E::<5>::any(1, 2))
}
fn min_dd() {
    minimized::<1, 4, 5, 3, _>(du::<3>(choice(3)), du::<3>(slice(3)))
}
fn min_dd2() {
    minimized::<2, 3, 15, 2, _>(d2::<2>(choice(2)), d2::<2>(slice(2)))
}
fn min_nd() {
    minimized::<1, 6, 7, 3, _>(nu::<2>(choice(2)), du::<3>(slice(3)))
}
fn min_rd() {
    minimized::<1, 7, 8, 3, _>(E::<8>::any(1, 1), du::<3>(slice(3)))
}
