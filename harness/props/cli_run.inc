// Runs the tool's main function and collects what it prints.
use dandy_cli::verif as cli;

/// what is printed on the standard output: a string for each call that ends a line
static mut PRINTED: Vec<String> = Vec::new();
/// the last one of them is not ended
static mut OPEN: bool = false;
/// something is printed on the error output
static mut ERROR: bool = false;
#[cfg(not(vx_native))]
#[no_mangle]
#[allow(static_mut_refs)]
pub fn vx_print(a: core::fmt::Arguments<'_>) {
    let mut s = String::with_capacity(64);
    let _ = core::fmt::Write::write_fmt(&mut s, a);
    unsafe {
        if OPEN {
            let last = PRINTED.len() - 1;
            PRINTED[last].push_str(&s);
        } else {
            PRINTED.push(s);
        }
        let last = PRINTED.len() - 1;
        let l = &mut PRINTED[last];
        OPEN = l.as_bytes().last() != Some(&b'\n');
        if !OPEN {
            l.pop();
        }
    }
}
#[cfg(not(vx_native))]
#[no_mangle]
pub fn vx_eprint(_: core::fmt::Arguments<'_>) {
    unsafe { ERROR = true }
}
#[cfg(vx_native)]
extern "C" {
    fn syscall(n: i64, ...) -> i64;
}
#[cfg(vx_native)]
static mut COLLECT: bool = false;
#[cfg(vx_native)]
static mut BYTES: Vec<u8> = Vec::new();
/// in place of the C library's
#[cfg(vx_native)]
#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn write(fd: i32, p: *const u8, n: usize) -> isize {
    if COLLECT && fd == 2 {
        ERROR = true;
    }
    if COLLECT && fd == 1 {
        BYTES.extend_from_slice(std::slice::from_raw_parts(p, n));
        return n as isize;
    }
    syscall(1, fd as i64, p, n) as isize
}
/// whether it succeeded, and what it printed (a line may be broken up at the ends of lines within it)
#[allow(static_mut_refs)]
fn run(args: Vec<String>) -> (bool, Vec<String>) {
    unsafe {
        ERROR = false;
        OPEN = false;
        PRINTED = Vec::with_capacity(16);
        #[cfg(vx_native)]
        {
            BYTES.clear();
            COLLECT = true;
        }
        cli::run_main(args);
        #[cfg(vx_native)]
        {
            COLLECT = false;
            OPEN = !BYTES.is_empty() && BYTES[BYTES.len() - 1] != b'\n';
            for l in BYTES.split_inclusive(|b| *b == b'\n') {
                PRINTED.push(String::from_utf8_lossy(l.strip_suffix(b"\n").unwrap_or(l)).into());
            }
        }
        check(!OPEN, "what is printed ends with a line");
        (!ERROR, std::mem::take(&mut PRINTED))
    }
}
const TYPES: [&str; 3] = ["dfa", "nfa", "regex"];
const NUMBERS: [&str; 10] = ["0", "1", "2", "3", "4", "5", "6", "7", "8", "9"];
const OPERATIONS: [&str; 4] = ["union", "intersection", "difference", "symmetric-difference"];
fn arguments(command: &str) -> Vec<String> {
    let mut a: Vec<String> = Vec::with_capacity(16);
    a.push("dandy".into());
    a.push("--less-logs".into());
    a.push(command.into());
    a
}
fn number(n: usize) -> String {
    if n < 10 { NUMBERS[n].into() } else { [NUMBERS[n / 10], NUMBERS[n % 10]].concat() }
}
fn with(a: &mut Vec<String>, option: &str, v: &str) {
    a.push(option.into());
    a.push(v.into());
}
/// op: 0 union, 1 intersection, 2 difference, 3 symmetric difference
fn binary_of(op: usize, t1: usize, t2: Option<usize>, minimized: bool, enumerate: Option<usize>, compared: Option<usize>, first: &str, second: &str, third: &str) -> (bool, Vec<String>) {
    let mut a = arguments(OPERATIONS[op]);
    with(&mut a, "--type", TYPES[t1]);
    if let Some(t) = t2 {
        with(&mut a, "--second-type", TYPES[t]);
    }
    if minimized {
        a.push("--minimized".into());
    }
    if let Some(n) = enumerate {
        with(&mut a, "--enumerate", &number(n));
    }
    a.push(first.into());
    a.push(second.into());
    if let Some(t) = compared {
        with(&mut a, "--compared-type", TYPES[t]);
        a.push(third.into());
    }
    run(a)
}
fn equivalence_of(in_type: Option<usize>, t: usize, minimized: bool, bool_: bool, path_length: Option<usize>, automaton: &str, files: &[&str]) -> (bool, Vec<String>) {
    let mut a = arguments("equivalence");
    if let Some(t) = in_type {
        with(&mut a, "--in-type", TYPES[t]);
    }
    with(&mut a, "--type", TYPES[t]);
    if minimized {
        a.push("--minimized".into());
    }
    if bool_ {
        a.push("--bool".into());
    }
    if let Some(n) = path_length {
        with(&mut a, "--path-length", &number(n));
    }
    a.push(automaton.into());
    for f in files {
        a.push((*f).into());
    }
    run(a)
}
fn enumerate_of(t: usize, amount: usize, file: &str) -> (bool, Vec<String>) {
    let mut a = arguments("enumerate");
    with(&mut a, "--type", TYPES[t]);
    with(&mut a, "--amount", &number(amount));
    a.push(file.into());
    run(a)
}
fn enumerate_expression(amount: usize, regex: String) -> (bool, Vec<String>) {
    let mut a = arguments("enumerate-regex");
    with(&mut a, "--amount", &number(amount));
    a.push(regex);
    run(a)
}
fn test_of(t: usize, whole: bool, automaton: &str, files: &[&str]) -> (bool, Vec<String>) {
    let mut a = arguments("test-file");
    with(&mut a, "--type", TYPES[t]);
    with(&mut a, "--test-type", ["lines", "files"][whole as usize]);
    a.push(automaton.into());
    for f in files {
        a.push((*f).into());
    }
    run(a)
}
