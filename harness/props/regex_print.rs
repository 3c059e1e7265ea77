// An expression written as text reads back as an expression of the same language
use dandy::regex::{Regex, RegexChar, RegexTree};
fn print<const H: usize, const L: usize, const P: usize, const W: usize>(chars: &[&'static str]) {
    let mut w = [0; L];
    for i in 0..L {
        w[i] = choice(chars.len());
    }
    let (t, m) = if W > 0 { any_wide::<P, W>(H, 1, chars, &w) } else { any_tree::<P>(H, chars, &w) };
    let s = Regex { tree: t }.to_string();
    observe(s.len());
    match dandy::parser::regex(&s) {
        Err(_) => check(false, "the text of an expression is accepted"),
        Ok(r) => {
            let q = matrix::<P>(&r.tree, &|g, i| g == chars[w[i]]);
            for i in 0..P {
                for j in i..P {
                    check(q[i][j] == m[i][j], "the text of an expression describes the same words");
                }
            }
        }
    }
    cover(m[0][L], "a word is matched");
}
fn letters() { print::<2, 3, 4, 0>(&["a", "b"]) }
fn letters3() { print::<3, 2, 3, 0>(&["a", "b"]) }
fn reserved() { print::<2, 3, 4, 0>(&["(", ")", "|", "*", "+", "\\"]) }
fn special() { print::<2, 2, 3, 0>(&["ε", "∅", "a"]) }
fn blanks() { print::<2, 2, 3, 0>(&[" ", "a", "\t"]) }
fn clusters() { print::<2, 2, 3, 0>(&["e\u{301}", "e", "\u{301}", "(\u{301}"]) }
fn wide() { print::<1, 3, 4, 3>(&["a", "b"]) }
fn widest() { print::<0, 4, 5, 4>(&["\\", "e", "\u{301}", "\u{a0}", "\u{1f1e6}"]) }
entries! {
    vx_letters = letters;
    vx_letters3 = letters3;
    vx_reserved = reserved;
    vx_special = special;
    vx_blanks = blanks;
    vx_clusters = clusters;
    vx_wide = wide;
    vx_widest = widest;
}
