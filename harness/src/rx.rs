//! Regular expressions: arbitrary trees, and a reference matcher for them.
use crate::rt::*;
use dandy::regex::{Regex, RegexChar, RegexTree};
use std::rc::Rc;

/// m[i][j]: the symbols i..j of the word are matched
pub type Mat<const P: usize> = [[bool; P]; P];
pub fn zero<const P: usize>() -> Mat<P> {
    [[false; P]; P]
}
pub fn one<const P: usize>() -> Mat<P> {
    let mut m = zero();
    for i in 0..P {
        m[i][i] = true;
    }
    m
}
pub fn or<const P: usize>(a: &Mat<P>, b: &Mat<P>) -> Mat<P> {
    let mut m = *a;
    for i in 0..P {
        for j in i..P {
            m[i][j] |= b[i][j];
        }
    }
    m
}
pub fn mul<const P: usize>(a: &Mat<P>, b: &Mat<P>) -> Mat<P> {
    let mut m = zero();
    for i in 0..P {
        for j in i..P {
            for k in i..=j {
                m[i][j] |= a[i][k] & b[k][j];
            }
        }
    }
    m
}
pub fn star<const P: usize>(a: &Mat<P>) -> Mat<P> {
    let mut m = or(&one(), a);
    let mut n = 1;
    while n < P {
        m = mul(&m, &m);
        n *= 2;
    }
    m
}
/// the word is w[..n] (n <= w.len()); symbols are compared by eq
pub fn matrix<const P: usize>(t: &RegexTree, is: &dyn Fn(&str, usize) -> bool) -> Mat<P> {
    match t {
        RegexTree::Sequence(v) => {
            let mut m = one();
            for x in v {
                m = mul(&m, &matrix(x, is));
            }
            m
        }
        RegexTree::Alt(v) => {
            let mut m = zero();
            for x in v {
                m = or(&m, &matrix(x, is));
            }
            m
        }
        RegexTree::Repeat(x) => star(&matrix(x, is)),
        RegexTree::Char(RegexChar::Epsilon) => one(),
        RegexTree::Char(RegexChar::Empty) => zero(),
        RegexTree::Char(RegexChar::Grapheme(g)) => {
            let mut m = zero();
            for i in 0..P - 1 {
                m[i][i + 1] = is(g, i);
            }
            m
        }
    }
}
/// any tree of the given height with the given characters; also its matrix, for the word whose i-th symbol is
/// the character number w[i]
pub fn any_tree<const P: usize>(height: usize, chars: &[&'static str], w: &[usize]) -> (RegexTree, Mat<P>) {
    let leaf = choice(chars.len() + 2);
    let tree = if leaf < chars.len() {
        RegexChar::Grapheme(Rc::from(chars[leaf]))
    } else if leaf == chars.len() {
        RegexChar::Epsilon
    } else {
        RegexChar::Empty
    };
    let mut m = zero();
    for i in 0..P - 1 {
        m[i][i + 1] = (leaf < chars.len()) & (w[i] == leaf);
    }
    for i in 0..P {
        m[i][i] = leaf == chars.len();
    }
    let leaf = (RegexTree::Char(tree), m);
    if height == 0 {
        return leaf;
    }
    let kind = choice(4);
    if kind == 0 {
        return leaf;
    }
    drop(leaf);
    let (a, ma) = any_tree::<P>(height - 1, chars, w);
    if kind == 1 {
        return (RegexTree::Repeat(Box::new(a)), star(&ma));
    }
    let (b, mb) = any_tree::<P>(height - 1, chars, w);
    if kind == 2 {
        (RegexTree::Sequence(vec![a, b]), mul(&ma, &mb))
    } else {
        (RegexTree::Alt(vec![a, b]), or(&ma, &mb))
    }
}
/// any sequence or choice of at most A (and at least `least`) trees of the given height
pub fn any_wide<const P: usize, const A: usize>(height: usize, least: usize, chars: &[&'static str], w: &[usize]) -> (RegexTree, Mat<P>) {
    let n = least + choice(A + 1 - least);
    let seq = any();
    let mut v = Vec::with_capacity(A);
    let mut m = if seq { one() } else { zero() };
    for i in 0..A {
        if i < n {
            let (t, x) = any_tree::<P>(height, chars, w);
            m = if seq { mul(&m, &x) } else { or(&m, &x) };
            v.push(t);
        }
    }
    (if seq { RegexTree::Sequence(v) } else { RegexTree::Alt(v) }, m)
}
