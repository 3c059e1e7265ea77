// The tool from its arguments to what it prints and writes
include!("cli_run.inc");

/// an option with a value, in each of the ways it may be written
fn value(a: &mut Vec<String>, spelling: usize, long: &str, short: &str, v: &str) {
    if spelling == 0 || (short.is_empty() && spelling % 2 == 0) {
        a.push(["--", long].concat());
        a.push(v.into());
    } else if spelling == 1 || short.is_empty() {
        a.push(["--", long, "=", v].concat());
    } else if spelling == 2 {
        a.push(["-", short].concat());
        a.push(v.into());
    } else {
        a.push(["-", short, v].concat());
    }
}
fn flag(a: &mut Vec<String>, spelling: usize, long: &str, short: &str) {
    a.push(if spelling % 2 == 0 || short.is_empty() { ["--", long].concat() } else { ["-", short].concat() });
}

/// the options before the command: (less logs, whether a file is asked for)
struct Main {
    less: bool,
    /// none, a file that can be created, one that cannot
    out: usize,
    args: Vec<String>,
}
fn start() -> Main {
    let less = any();
    let out = choice(3);
    let mut args: Vec<String> = Vec::with_capacity(16);
    args.push("dandy".into());
    if less {
        args.push("--less-logs".into());
    }
    if out == 1 && any() {
        // there is such a file already, with more in it than the results
        cli::set_file("out", "what was there before\n\n".repeat(20));
    }
    if out > 0 {
        let s = choice(4);
        value(&mut args, s, "out", "o", ["", "out", "no/out"][out]);
    }
    Main { less, out, args }
}
/// the options and what follows them, in one order or the other
fn join(m: &mut Main, command: &str, mut options: Vec<String>, mut names: Vec<String>) {
    m.args.push(command.into());
    if any() {
        m.args.append(&mut options);
        m.args.append(&mut names);
    } else {
        m.args.append(&mut names);
        m.args.append(&mut options);
    }
}
/// lines is what the command gives with the values meant by the arguments
fn judge(m: Main, lines: Vec<String>) {
    let mut want: Vec<u8> = Vec::with_capacity(64);
    for l in &lines {
        want.extend_from_slice(l.as_bytes());
        want.push(b'\n');
    }
    let (_, out) = run(m.args);
    let mut printed: Vec<u8> = Vec::with_capacity(64);
    for l in &out {
        printed.extend_from_slice(l.as_bytes());
        printed.push(b'\n');
    }
    if m.less {
        check(printed == want, "with fewer messages just the results are printed");
    } else {
        // with other lines between them
        let mut at = want.split(|b| *b == b'\n');
        let mut next = at.next();
        for l in printed.split(|b| *b == b'\n') {
            if next == Some(l) {
                next = at.next();
            }
        }
        check(next.is_none(), "the results are printed");
    }
    let w = cli::written();
    if m.out == 1 {
        check(w.len() == 1 && w[0].0 == b"out", "the file asked for is created, and no other");
        check(w[0].1 == want, "the results are written to the file, a line each");
    } else {
        check(w.len() == 0, "no file is created");
    }
    cover(m.out == 1 && lines.len() > 1, "several results are written");
    cover(m.out == 2 && lines.len() > 0, "results without the file");
    cover(!m.less && m.out == 0, "all messages");
    observe(want.len());
}
fn enumerate_regex() {
    hash_order(1);
    cli::clear_files();
    let mut m = start();
    let regex = ["a*", "ab|b"][choice(2)];
    let n = choice(4);
    let mut o = Vec::new();
    if n < 3 {
        let s = choice(4);
        value(&mut o, s, "amount", "n", NUMBERS[n]);
    }
    join(&mut m, "enumerate-regex", o, vec![regex.into()]);
    let (_, lines) = enumerate_expression(if n < 3 { n } else { 20 }, regex.into());
    judge(m, lines);
}
const FILES: [&str; 5] = [
    // over a and b: the words of even length; at least one a; all words of at most one symbol
    "a b\n-> * p q q\n q p p",
    "a b\n-> p {q p} {p}\n * q {q} {q}",
    "(a|b)?",
    // over another symbol
    "c\n-> * p p",
    // no automaton
    "a b\n-> p q",
];
const NAMES: [&str; 5] = ["d", "n", "r", "c", "x/y"];
fn files() {
    cli::clear_files();
    for i in 0..5 {
        cli::set_file(NAMES[i], FILES[i].into());
    }
}
/// a type, if it is given (and what holds if it is not)
fn some_type(o: &mut Vec<String>, long: &str, short: &str) -> Option<usize> {
    let t = choice(4);
    if t == 3 {
        return None;
    }
    let s = choice(4);
    value(o, s, long, short, TYPES[t]);
    Some(t)
}
fn some_flag(o: &mut Vec<String>, long: &str, short: &str) -> bool {
    let f = choice(3);
    if f > 0 {
        flag(o, f, long, short);
    }
    f > 0
}
fn some_number(o: &mut Vec<String>, long: &str, short: &str, most: usize) -> Option<usize> {
    let n = choice(most + 2);
    if n > most {
        return None;
    }
    let s = choice(4);
    value(o, s, long, short, NUMBERS[n]);
    Some(n)
}
fn enumerate() {
    hash_order(1);
    files();
    let mut m = start();
    let mut o = Vec::new();
    let t = some_type(&mut o, "type", "");
    let n = some_number(&mut o, "amount", "a", 3);
    let f = NAMES[slice(4)];
    join(&mut m, "enumerate", o, vec![f.into()]);
    let (_, lines) = enumerate_of(t.unwrap_or(0), n.unwrap_or(30), f);
    judge(m, lines);
}
fn test_file() {
    hash_order(1);
    files();
    cli::set_file("1", "ab\n\nb".into());
    cli::set_file("2", "a\n".into());
    let mut m = start();
    let mut o = Vec::new();
    let t = some_type(&mut o, "type", "");
    let w = choice(3);
    if w < 2 {
        let s = choice(4);
        value(&mut o, s, "test-type", "t", ["lines", "files"][w]);
    }
    let f = NAMES[slice(4)];
    let n = choice(3);
    let tests: &[&str] = [&[][..], &["1"], &["1", "2"]][n];
    let mut names = vec![f.into()];
    for x in tests {
        names.push((*x).into());
    }
    join(&mut m, "test-file", o, names);
    let (_, lines) = test_of(t.unwrap_or(0), w == 1, f, tests);
    judge(m, lines);
}
fn equivalence() {
    hash_order(1);
    files();
    let mut m = start();
    let mut o = Vec::new();
    let i = some_type(&mut o, "in-type", "i");
    let t = some_type(&mut o, "type", "t");
    let min = some_flag(&mut o, "minimized", "m");
    let b = some_flag(&mut o, "bool", "b");
    let n = some_number(&mut o, "path-length", "p", 2);
    let f = NAMES[slice(3)];
    let k = choice(3);
    let tested: &[&str] = [&["d"][..], &["x/y", "n"], &["r", "d", "missing"]][k];
    let mut names = vec![f.into()];
    for x in tested {
        names.push((*x).into());
    }
    join(&mut m, "equivalence", o, names);
    let (_, lines) = equivalence_of(Some(i.unwrap_or(t.unwrap_or(0))), t.unwrap_or(0), min, b, Some(n.unwrap_or(9)), f, tested);
    judge(m, lines);
}
fn binary() {
    hash_order(1);
    files();
    let mut m = start();
    let mut o = Vec::new();
    let which = slice(12);
    let op = which % 4;
    let t = some_type(&mut o, "type", "t");
    let t2 = some_type(&mut o, "second-type", "s");
    let min = some_flag(&mut o, "minimized", "m");
    let n = some_number(&mut o, "enumerate", "e", 2);
    let (f, g) = (NAMES[which / 4], NAMES[choice(4)]);
    let mut names: Vec<String> = vec![f.into(), g.into()];
    let compared = if any() { Some(some_type(&mut o, "compared-type", "").unwrap_or(0)) } else { None };
    if compared.is_some() {
        names.push("3".into());
        cli::set_file("3", FILES[choice(3)].into());
    }
    join(&mut m, OPERATIONS[op], o, names);
    let (_, lines) = binary_of(op, t.unwrap_or(0), Some(t2.unwrap_or(t.unwrap_or(0))), min, n, compared, f, g, "3");
    judge(m, lines);
}
/// what is no command of the tool is not taken for one
fn rejected() {
    files();
    let command = slice(5);
    // what is wrong with it (0: nothing)
    let bad = choice(9);
    let mut m = start();
    let mut o = Vec::new();
    let has_type = command != 0;
    if has_type && any() {
        let s = choice(4);
        let t = ["nfa", "dfas", "Nfa", "", "dfa,nfa", "0"][if bad == 1 { 1 + choice(5) } else { 0 }];
        value(&mut o, s, "type", if command > 2 { "t" } else { "" }, t);
    } else {
        assume(bad != 1);
    }
    let (long, short) = [("amount", "n"), ("amount", "a"), ("", ""), ("path-length", "p"), ("enumerate", "e")][command];
    if !long.is_empty() && any() {
        let s = choice(4);
        let v = ["3", "x", "", "-1", "1.5", "3 "][if bad == 2 { 1 + choice(5) } else { 0 }];
        value(&mut o, s, long, short, v);
    } else {
        assume(bad != 2);
    }
    if bad == 3 {
        o.push(["--unknown", "-x", "--out=f", "--amounts=3"][choice(4)].into());
    }
    let mut names: Vec<String> = vec!["d".into()];
    if command > 2 {
        names.push("d".into());
    }
    if bad == 4 {
        // too few
        assume(command != 3);
        names.pop();
    }
    if bad == 5 {
        // too many
        assume(command < 2 || command == 4);
        let n = if command == 4 { 2 } else { 1 };
        for _ in 0..n {
            names.push("d".into());
        }
    }
    if bad == 6 {
        assume(command > 2);
        o.push("--minimized=true".into());
    }
    let name = if bad == 7 { ["", "enum", "Union", "d"][choice(4)] } else { ["enumerate-regex", "enumerate", "test-file", "equivalence", "intersection"][command] };
    if bad == 8 {
        // no command at all
        o.clear();
    } else {
        join(&mut m, name, o, names);
    }
    let ok = cli::understood(m.args.clone());
    check(ok == (bad == 0), "what is no command of the tool is rejected, and nothing else");
    cover(ok, "understood");
    cover(bad == 2 && !ok, "no number");
    cover(bad == 1 && !ok, "no type");
    observe(ok as usize);
}
entries! {
    vx_rejected = rejected;
    vx_enumerate_regex = enumerate_regex;
    vx_enumerate = enumerate;
    vx_test_file = test_file;
    vx_equivalence = equivalence;
    vx_binary = binary;
}
