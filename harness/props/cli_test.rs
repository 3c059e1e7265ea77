// The command test-file: each line of each file is judged by the automaton
include!("cli_run.inc");

const PIECE: [&str; 5] = ["a", "b", "x", "\n", "\r\n"];
/// the lines of a text of n pieces: start and end of each, their number
fn lines<const L: usize>(s: &[usize; L], n: usize) -> ([(usize, usize); L], usize) {
    let mut out = [(0, 0); L];
    let mut k = 0;
    let mut from = 0;
    for i in 0..L {
        if i < n && s[i] >= 3 {
            for j in 0..L {
                if j == k {
                    out[j] = (from, i);
                }
            }
            k += 1;
            from = i + 1;
        }
    }
    if from < n {
        for j in 0..L {
            if j == k {
                out[j] = (from, n);
            }
        }
        k += 1;
    }
    (out, k)
}
struct File<const L: usize> {
    s: [usize; L],
    line: [(usize, usize); L],
    lines: usize,
    ok: [bool; L],
    spelt: Vec<String>,
}
/// any text of at most L pieces, and which of its lines the language has
fn file<const L: usize, const K: usize>(name: &str, x: &impl Lang<K>) -> File<L> {
    let n = choice(L + 1);
    let mut s = [0; L];
    let mut t = String::with_capacity(2 * L);
    for i in 0..L {
        if i < n {
            s[i] = choice(5);
            t.push_str(PIECE[s[i]]);
        }
    }
    cli::set_file(name, t);
    let (line, k) = lines(&s, n);
    let mut ok = [false; L];
    let mut spelt = Vec::with_capacity(L);
    for i in 0..L {
        let mut t = String::with_capacity(L);
        let mut w = [9; L];
        let mut m = 0;
        let mut known = true;
        for j in 0..L {
            if j >= line[i].0 && j < line[i].1 {
                t.push_str(PIECE[s[j]]);
                known &= s[j] < K;
                for l in 0..L {
                    if l == m {
                        w[l] = s[j];
                    }
                }
                m += 1;
            }
        }
        let mut r = false;
        for l in 0..=L {
            if known && m == l {
                r = x.has(&w[..l]);
            }
        }
        ok[i] = r;
        spelt.push(t);
    }
    File { s, line, lines: k, ok, spelt }
}
const DIGIT: [&str; 8] = ["0", "1", "2", "3", "4", "5", "6", "7"];

fn by_lines<const L: usize, const K: usize, X: Lang<K>>(x: X) {
    hash_order(1);
    cli::clear_files();
    cli::set_file("1", x.text());
    let f = file::<L, K>("f", &x);
    let g = file::<1, K>("g", &x);
    let (ok, out) = test_of(X::TY, false, "1", &["f", "g"]);
    check(ok, "the command succeeds");
    check(out.len() == f.lines + g.lines + 4, "a headline, a result per line and a summary for each file");
    let mut passed = 0;
    for i in 0..L {
        if i < f.lines {
            let l = &out[1 + i];
            check(l.starts_with(if f.ok[i] { "[ OK ] " } else { "[FAIL] " }), "each line passes exactly if it is accepted");
            check(l[7..] == f.spelt[i], "the line is shown");
            passed += f.ok[i] as usize;
        }
    }
    let sum = &out[1 + f.lines];
    check(sum.starts_with(DIGIT[passed]), "the number of lines that passed");
    check(sum[1..].starts_with("/") && sum[2..].starts_with(DIGIT[f.lines]), "the number of lines");
    check(sum[3..].starts_with(" "), "the number of lines (2)");
    let at = f.lines + 3;
    if g.lines == 1 {
        check(out[at].starts_with(if g.ok[0] { "[ OK ] " } else { "[FAIL] " }), "the next file is judged by itself");
        check(out[at][7..] == g.spelt[0], "the line of the next file is shown");
    }
    let sum = &out[out.len() - 1];
    check(sum.starts_with(if g.lines == 1 && g.ok[0] { "1/1 " } else if g.lines == 1 { "0/1 " } else { "0/0 " }), "the lines of the next file are counted anew");
    observe(out.len());
    cover(passed == 2 && f.lines == 3, "some lines pass");
    cover(f.lines == 0, "no lines");
}
fn by_files<const L: usize, const K: usize, X: Lang<K>>(x: X) {
    hash_order(1);
    cli::clear_files();
    cli::set_file("1", x.text());
    let f = file::<L, K>("f", &x);
    let g = file::<1, K>("g", &x);
    let (ok, out) = test_of(X::TY, true, "1", &["f", "g"]);
    check(ok, "the command succeeds");
    check(out.len() == 2, "one result per file");
    let mut bad = L;
    for i in (0..L).rev() {
        if i < f.lines && !f.ok[i] {
            bad = i;
        }
    }
    if bad == L {
        check(out[0] == "[ OK ] f", "a file passes if all its lines do");
    } else {
        check(out[0].starts_with("[FAIL] f "), "a file fails if one of its lines does");
        for i in 0..L {
            if i == bad {
                check(out[0].ends_with(&f.spelt[i]), "the line that fails is shown");
                check(out[0].len() > 9 + f.spelt[i].len() && out[0].as_bytes()[out[0].len() - f.spelt[i].len() - 1] == b' ', "the line and no more");
            }
        }
    }
    let good = g.lines == 0 || g.ok[0];
    check(out[1].starts_with(if good { "[ OK ] g" } else { "[FAIL] g" }), "the next file is judged by itself");
    observe(out[0].len());
    cover(bad == 1 && f.lines == 3, "the second line fails");
    cover(bad == L && f.lines == 2, "all lines pass");
}
fn du<const N: usize>(i: usize) -> D<N, 1> {
    D::any(i)
}
fn d2<const N: usize>(i: usize) -> D<N, 2> {
    D::any(i)
}
fn nu<const N: usize>(i: usize) -> A<N, 1> {
    A::any(i, true)
}
fn n2<const N: usize>(i: usize) -> A<N, 2> {
    A::any(i, true)
}
fn lines_d() {
    by_lines::<5, 2, _>(d2::<2>(slice(2)))
}
fn lines_n() {
    by_lines::<5, 1, _>(nu::<2>(slice(2)))
}
fn lines_r() {
    by_lines::<4, 2, _>(E::<5>::any(1, 2))
}
fn files_d() {
    by_files::<5, 2, _>(d2::<2>(slice(2)))
}
fn files_n() {
    by_files::<5, 1, _>(nu::<2>(slice(2)))
}
fn files_r() {
    by_files::<4, 2, _>(E::<5>::any(1, 2))
}
entries! {
    vx_lines_d = lines_d;
    vx_lines_n = lines_n;
    vx_lines_r = lines_r;
    vx_files_d = files_d;
    vx_files_n = files_n;
    vx_files_r = files_r;
}
