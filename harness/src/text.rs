//! Automata as text, in a layout of which every character has a fixed place.
use crate::model::*;
use crate::rt::*;

pub fn dfa_text<const N: usize, const K: usize>(d: &D<N, K>, al: &[&str]) -> String {
    let mut s = String::with_capacity(16 + N * (8 + 2 * K) + 4 * K);
    for c in 0..K {
        s.push_str(" ");
        s.push_str(al[c]);
    }
    for i in 0..N {
        s.push_str(if i == d.init { "\n->" } else { "\n  " });
        s.push_str(if d.acc[i] { " * " } else { "   " });
        s.push_str(NAMES[i]);
        for c in 0..K {
            s.push_str(" ");
            s.push_str(NAMES[d.t[i][c]]);
        }
    }
    s
}
/// the first column is ε
pub fn nfa_text<const N: usize, const K: usize>(a: &A<N, K>, al: &[&str]) -> String {
    let mut s = String::with_capacity(16 + N * (8 + (K + 1) * (3 + 2 * N)) + 4 * K);
    s.push_str("eps");
    for c in 0..K {
        s.push_str(" ");
        s.push_str(al[c]);
    }
    for i in 0..N {
        s.push_str(if i == a.init { "\n->" } else { "\n  " });
        s.push_str(if a.acc[i] { " * " } else { "   " });
        s.push_str(NAMES[i]);
        for c in 0..K + 1 {
            let t = if c == 0 { &a.eps[i] } else { &a.t[i][c - 1] };
            s.push_str(" {");
            for j in 0..N {
                s.push_str(" ");
                s.push_str(if t[j] { NAMES[j] } else { " " });
            }
            s.push_str("}");
        }
    }
    s
}

use dandy::regex::{RegexChar, RegexTree};
/// an expression with every part in parentheses
pub fn regex_text(t: &RegexTree) -> String {
    let mut s = String::with_capacity(64);
    write_regex(t, &mut s);
    s
}
fn write_regex(t: &RegexTree, s: &mut String) {
    match t {
        RegexTree::Char(RegexChar::Epsilon) => s.push_str("ε"),
        RegexTree::Char(RegexChar::Empty) => s.push_str("∅"),
        RegexTree::Char(RegexChar::Grapheme(g)) => s.push_str(g),
        RegexTree::Repeat(x) => {
            s.push_str("(");
            write_regex(x, s);
            s.push_str(")*");
        }
        RegexTree::Sequence(v) | RegexTree::Alt(v) => {
            let alt = matches!(t, RegexTree::Alt(_));
            s.push_str("(");
            let mut first = true;
            for x in v {
                if alt && !first {
                    s.push_str("|");
                }
                first = false;
                write_regex(x, s);
            }
            s.push_str(")");
        }
    }
}
fn occurs(t: &RegexTree, c: &str) -> bool {
    match t {
        RegexTree::Char(RegexChar::Grapheme(g)) => &**g == c,
        RegexTree::Char(_) => false,
        RegexTree::Repeat(x) => occurs(x, c),
        RegexTree::Sequence(v) | RegexTree::Alt(v) => {
            let mut r = false;
            for x in v {
                r |= occurs(x, c);
            }
            r
        }
    }
}

/// something that defines a language over the first K symbols of AL, and can be written as text
pub trait Lang<const K: usize> {
    /// 0: DFA, 1: NFA, 2: regular expression
    const TY: usize;
    fn text(&self) -> String;
    fn has(&self, w: &[usize]) -> bool;
    /// symbols of its alphabet
    fn alphabet(&self) -> [bool; K] {
        [true; K]
    }
}
impl<const N: usize, const K: usize> Lang<K> for D<N, K> {
    const TY: usize = 0;
    fn text(&self) -> String {
        dfa_text(self, &AL)
    }
    fn has(&self, w: &[usize]) -> bool {
        self.accepts(w, w.len())
    }
}
impl<const N: usize, const K: usize> Lang<K> for A<N, K> {
    const TY: usize = 1;
    fn text(&self) -> String {
        nfa_text(self, &AL)
    }
    fn has(&self, w: &[usize]) -> bool {
        self.accepts(w, w.len())
    }
}
/// P: one more than the length of the words asked for
pub struct E<const P: usize>(pub RegexTree);
impl<const P: usize> E<P> {
    pub fn any(height: usize, k: usize) -> Self {
        E(crate::rx::any_tree::<1>(height, &AL[..k], &[]).0)
    }
}
impl<const K: usize, const P: usize> Lang<K> for E<P> {
    const TY: usize = 2;
    fn text(&self) -> String {
        regex_text(&self.0)
    }
    fn has(&self, w: &[usize]) -> bool {
        let n = w.len();
        let m = crate::rx::matrix::<P>(&self.0, &|g, i| i < n && g == AL[w[i]]);
        let mut r = false;
        for j in 0..P {
            r |= (j == n) & m[0][j];
        }
        r
    }
    fn alphabet(&self) -> [bool; K] {
        let mut r = [false; K];
        for c in 0..K {
            r[c] = occurs(&self.0, AL[c]);
        }
        r
    }
}
/// all words of at most LMAX symbols out of K, shortest first, and their lengths
pub fn all_words<const K: usize, const LMAX: usize, const W: usize>() -> ([[usize; LMAX]; W], [usize; W]) {
    let mut len = [0; W];
    let mut words = [[0; LMAX]; W];
    let mut k = 1;
    let mut from = 0;
    for l in 1..=LMAX {
        let to = k;
        for p in from..to {
            for c in 0..K {
                words[k] = words[p];
                words[k][l - 1] = c;
                len[k] = l;
                k += 1;
            }
        }
        from = to;
    }
    check(k == W, "(all words)");
    (words, len)
}
/// which of all_words are in the language
pub fn members<const K: usize, const LMAX: usize, const W: usize>(x: &impl Lang<K>) -> [bool; W] {
    let (words, len) = all_words::<K, LMAX, W>();
    let mut acc = [false; W];
    for i in 0..W {
        acc[i] = x.has(&words[i][..len[i]]);
    }
    acc
}
