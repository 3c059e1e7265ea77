// The parser of regular expressions accepts exactly the documented grammar, and reads it with the documented structure
use dandy::regex::{Regex, RegexChar, RegexTree};
const C: [&str; 16] = ["a", "(", ")", "|", "*", "+", "\\", "ε", "∅", " ", "e\u{301}", "b", "\t", "🇸🇪", ".", "\u{a0}"];
const LP: usize = 1;
const RP: usize = 2;
const OR: usize = 3;
const STAR: usize = 4;
const PLUS: usize = 5;
const ESC: usize = 6;
const EPS: usize = 7;
const NONE: usize = 8;
const END: usize = 99;
fn blank(c: usize) -> bool {
    (c == 9) | (c == 12) | (c == 15)
}

/// reference: recursive descent over the characters (numbers in C)
struct P<'a> {
    s: &'a [usize],
    at: usize,
}
impl P<'_> {
    fn peek(&self) -> usize {
        if self.at < self.s.len() {
            self.s[self.at]
        } else {
            END
        }
    }
    fn alt(&mut self) -> Option<RegexTree> {
        let mut v = vec![self.seq()?];
        while self.peek() == OR {
            self.at += 1;
            v.push(self.seq()?);
        }
        Some(if v.len() == 1 { v.pop().unwrap() } else { RegexTree::Alt(v) })
    }
    fn seq(&mut self) -> Option<RegexTree> {
        let mut v = vec![];
        loop {
            let c = self.peek();
            if c == END || c == RP || c == OR {
                break;
            }
            v.push(self.item()?);
        }
        match v.len() {
            0 => None,
            1 => v.pop(),
            _ => Some(RegexTree::Sequence(v)),
        }
    }
    fn item(&mut self) -> Option<RegexTree> {
        let c = self.peek();
        self.at += 1;
        let x = match c {
            LP => {
                let x = self.alt()?;
                if self.peek() != RP {
                    return None;
                }
                self.at += 1;
                x
            }
            STAR | PLUS => return None,
            EPS => RegexTree::Char(RegexChar::Epsilon),
            NONE => RegexTree::Char(RegexChar::Empty),
            c => {
                let c = if c == ESC {
                    let d = self.peek();
                    if d == END {
                        return None;
                    }
                    self.at += 1;
                    d
                } else {
                    c
                };
                RegexTree::Char(RegexChar::Grapheme(std::rc::Rc::from(C[c])))
            }
        };
        Some(match self.peek() {
            STAR => {
                self.at += 1;
                RegexTree::Repeat(Box::new(x))
            }
            PLUS => {
                self.at += 1;
                RegexTree::Sequence(vec![x.clone(), RegexTree::Repeat(Box::new(x))])
            }
            _ => x,
        })
    }
}

fn parse<const L: usize>(of: &[usize]) {
    let n = choice(L + 1);
    let mut c = [0; L];
    let mut s = String::with_capacity(8 * L);
    for i in 0..L {
        if i < n {
            c[i] = of[choice(of.len())];
            s.push_str(C[c[i]]);
        }
    }
    // leading and trailing blanks do not count
    let mut from = 0;
    let mut to = n;
    for i in 0..L {
        if from == i && i < n && blank(c[i]) {
            from = i + 1;
        }
    }
    for i in (0..L).rev() {
        if to == i + 1 && to > from && blank(c[i]) {
            to = i;
        }
    }
    let mut p = P { s: &c[from..to], at: 0 };
    let mut want = p.alt();
    if p.at != to - from {
        want = None;
    }
    let got = dandy::parser::regex(&s);
    observe(want.is_some() as usize);
    match (&want, &got) {
        (None, Err(_)) => (),
        (Some(w), Ok(g)) => check(*w == g.tree, "the expression is read with the documented structure"),
        (None, Ok(_)) => check(false, "what is outside the grammar is rejected"),
        (Some(_), Err(_)) => check(false, "what is in the grammar is accepted"),
    }
    cover(want.is_some() && n == L, "an expression");
    cover(want.is_none() && n == L, "no expression");
}
const ASCII: [usize; 10] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9];
const SOME: [usize; 7] = [1, 2, 3, 4, 6, 10, 12];
const BLANK: [usize; 6] = [0, 6, 9, 12, 15, 1];
fn p4() { parse::<4>(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]) }
fn p5() { parse::<5>(&ASCII) }
fn p6() { parse::<6>(&ASCII) }
fn p7() { parse::<7>(&ASCII) }
fn p8() { parse::<8>(&ASCII) }
fn c6() { parse::<6>(&SOME) }
fn b6() { parse::<6>(&BLANK) }
entries! {
    vx_parse_4 = p4;
    vx_parse_5 = p5;
    vx_parse_6 = p6;
    vx_parse_7 = p7;
    vx_parse_8 = p8;
    vx_clusters = c6;
    vx_blanks = b6;
}
