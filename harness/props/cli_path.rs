// The last components of a path, as the equivalence command shows them
include!("cli_run.inc");
const PIECE: [&str; 6] = ["a", "/", "b", ".", "..", "é"];
fn path<const L: usize>() {
    let n = 1 + choice(L);
    let mut s = [0; L];
    let mut t = String::with_capacity(2 * L);
    for i in 0..L {
        if i < n {
            s[i] = choice(6);
            t.push_str(PIECE[s[i]]);
        }
    }
    let m = choice(L + 3);
    let m = if m < L + 2 { Some(m) } else { None };
    hash_order(1);
    cli::clear_files();
    cli::set_file("1", "a".into());
    // there is no such file
    let (ok, out) = equivalence_of(None, 2, false, false, m, "1", &[&t]);
    check(ok && out.len() == 1, "a line for the file");
    let got = match out[0].find("Failed to read (") {
        Some(0) => None,
        Some(at) => Some(out[0][..at].strip_suffix(": ").unwrap_or("no colon")),
        None => return check(false, "the file is missing"),
    };
    // the last m names, and the root if there are less of them
    let mut want: Vec<String> = Vec::with_capacity(L + 1);
    if t.starts_with("/") {
        want.push("/".into());
    }
    let mut first = true;
    for p in t.split('/') {
        if p != "" && (p != "." || first && !t.starts_with("/")) {
            want.push(p.into());
        }
        first = false;
    }
    match (m, got) {
        (None, Some(g)) => check(g == t, "without a limit, the path as it was given"),
        (Some(0), None) => (),
        (Some(m), Some(g)) => {
            check(m > 0, "no component: no path");
            let k = want.len().min(m);
            let mut w = String::with_capacity(2 * L);
            for i in 0..L + 1 {
                if i < want.len() && i + k >= want.len() {
                    if w.len() > 0 && w != "/" {
                        w.push_str("/");
                    }
                    w.push_str(&want[i]);
                }
            }
            check(g == w, "the last components of the path, in order");
            observe(k);
            cover(k == 2 && want.len() == 3, "some of the components");
        }
        _ => check(false, "a path unless no component is asked for"),
    }
}
entries! {
    vx_path_4 = path::<4>;
    vx_path_6 = path::<6>;
}
